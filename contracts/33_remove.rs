verus! {

// ================================================================ neighbouring groups
pub open spec fn gathered(v: GV, pre: Seq<usize>, a: Seq<usize>) -> bool {
    &&& a.no_duplicates()
    &&& a.len() <= pre.len()
    &&& forall|c: usize| #![trigger a.contains(c)] a.contains(c) <==> touches_in(v, c as int, pre)
}

pub proof fn lemma_gathered_step(v: GV, s: Seq<usize>, n: int, a0: Seq<usize>, a: Seq<usize>)
    requires
        0 <= n < s.len(), gathered(v, s.subrange(0, n), a0),
        ({
            let x = id(v, s[n] as int);
            if x == -1 { a == a0 } else if a0.contains(x as usize) { a == a0 } else { a == a0.push(x as usize) }
        }),
    ensures gathered(v, s.subrange(0, n + 1), a),
{
    let (pre0, pre) = (s.subrange(0, n), s.subrange(0, n + 1));
    lemma_prefix_contains(s, n);
    let x = id(v, s[n] as int);
    assert(pre.contains(s[n]));
    assert forall|c: int| #[trigger] touches_in(v, c, pre) <==> touches_in(v, c, pre0) || x == c by {
        if touches_in(v, c, pre) {
            let j = choose|j: usize| #[trigger] pre.contains(j) && id(v, j as int) == c;
            if j != s[n] { assert(pre0.contains(j)); }
        }
        if touches_in(v, c, pre0) {
            let j = choose|j: usize| #[trigger] pre0.contains(j) && id(v, j as int) == c;
            assert(pre.contains(j));
        }
    }
    lemma_push_contains(a0, x as usize);
}

pub proof fn lemma_gathered_full(v: GV, p: int, nb: Seq<usize>, a: Seq<usize>)
    requires
        gathered(v, nb, a), size_ok(v.size),
        forall|i: usize| #![trigger nb.contains(i)] #![trigger adj(v.size, p, i as int)] nb.contains(i) <==> adj(v.size, p, i as int),
    ensures forall|c: usize| #![trigger a.contains(c)] a.contains(c) <==> touches(v, c as int, p),
{
    lemma_cells(v.size);
    assert forall|c: usize| #![trigger a.contains(c)] a.contains(c) <==> touches(v, c as int, p) by {
        if touches_in(v, c as int, nb) {
            let j = choose|j: usize| #[trigger] nb.contains(j) && id(v, j as int) == c as int;
            assert(adj(v.size, p, j as int));
        }
        if touches(v, c as int, p) {
            let j = choose|j: int| #[trigger] adj(v.size, p, j) && id(v, j) == c as int;
            assert(nb.contains(j as usize));
        }
    }
}

pub proof fn lemma_retain_ne(full: Seq<usize>, r: Seq<usize>, c: usize, bs: Seq<bool>)
    requires full.no_duplicates(), bs.len() == full.len(), forall|i: int| 0 <= i < bs.len() ==> bs[i] == (full[i] != c), r == keep_by(full, bs),
    ensures r.no_duplicates(), r.len() <= full.len(), forall|x: usize| #![trigger r.contains(x)] r.contains(x) <==> full.contains(x) && x != c,
{
    lemma_keep_by_members(full, bs);
    assert forall|x: usize| #![trigger r.contains(x)] r.contains(x) <==> full.contains(x) && x != c by {
        if r.contains(x) { let j = choose|j: int| 0 <= j < r.len() && r[j] == x; assert(r[j] == keep_by(full, bs)[j]); }
        if full.contains(x) && x != c { let i = choose|i: int| 0 <= i < full.len() && full[i] == x; assert(bs[i]); }
    }
}

// ================================================================ taking a group off
/// The position without the cells `pre`.
pub open spec fn clr(v: GV, pre: Seq<int>) -> Seq<Option<Color>> {
    Seq::new(cells(v.size) as nat, |i: int| if pre.contains(i) { None } else { col(v, i) })
}

/// Group c is gone, everything else is as it was.
pub open spec fn taken_off(v: GV, w: GV, c: int) -> bool {
    &&& w.size == v.size
    &&& w.next == v.next
    &&& forall|i: int| #![trigger id(w, i)] #![trigger id(v, i)] 0 <= i < 361 ==> id(w, i) == (if id(v, i) == c { -1 } else { id(v, i) })
    &&& forall|d: int| #![trigger live(w, d)] #![trigger live(v, d)] live(w, d) <==> live(v, d) && d != c
    &&& forall|d: int| #![trigger ch(w, d)] #![trigger ch(v, d)] live(v, d) && d != c ==> same_but_libs(ch(v, d), ch(w, d))
    &&& forall|d: int, k: int| #![trigger lbit(ch(w, d).liberties, k)] live(v, d) && d != c && 0 <= k < 368 && lbit(ch(v, d).liberties, k) ==> lbit(ch(w, d).liberties, k)
}

pub open spec fn rm_mid(v: GV, w: GV, c: int, pre: Seq<int>) -> bool {
    &&& w.size == v.size && w.next == v.next && w.board.len() == 361 && w.chains.len() == v.chains.len()
    &&& forall|i: int| #![trigger id(w, i)] #![trigger id(v, i)] 0 <= i < 361 ==> id(w, i) == (if pre.contains(i) { -1 } else { id(v, i) })
    &&& forall|d: int| #![trigger live(w, d)] #![trigger live(v, d)] live(w, d) == live(v, d)
    &&& forall|d: int| #![trigger ch(w, d)] #![trigger ch(v, d)] live(v, d) ==> same_but_libs(ch(v, d), ch(w, d))
    &&& ch(w, c) == ch(v, c)
    &&& forall|d: int, k: int| #![trigger lbit(ch(w, d).liberties, k)] live(v, d) && d != c && 0 <= k < 368 ==>
            (lbit(ch(w, d).liberties, k) <==> lbit(ch(v, d).liberties, k) || (pre.contains(k) && touches(v, d, k)))
    &&& w.z == zfold(clr(v, pre), cells(v.size))
}

pub proof fn lemma_rm_start(v: GV, c: int)
    requires inv(v), live(v, c),
    ensures rm_mid(v, v, c, Seq::<int>::empty()),
{
    assert forall|i: int| !(#[trigger] Seq::<int>::empty().contains(i)) by { }
    assert(clr(v, Seq::<int>::empty()) =~= cols(v));
}

pub proof fn lemma_rm_facts(v: GV, w: GV, c: int, pre: Seq<int>)
    requires rm_mid(v, w, c, pre), inv(v), live(v, c),
    ensures
        w.size == v.size, w.next == v.next, w.board.len() == 361, w.chains.len() == v.chains.len(), live(w, c), ch(w, c) == ch(v, c),
        size_ok(v.size), st(w, c) == st(v, c), v.chains.len() <= 361,
{ }

/// Within one stone of the group: the neighbours `done` already have the new liberty.
pub open spec fn rm_in(w: GV, x: GV, c: int, p: int, done: Seq<usize>) -> bool {
    &&& x.size == w.size && x.z == w.z && x.board == w.board && x.next == w.next && x.chains.len() == w.chains.len()
    &&& forall|d: int| #![trigger live(x, d)] #![trigger live(w, d)] live(x, d) == live(w, d)
    &&& forall|d: int| #![trigger ch(x, d)] #![trigger ch(w, d)] live(w, d) ==> same_but_libs(ch(w, d), ch(x, d))
    &&& forall|d: int| #![trigger ch(x, d)] live(w, d) && !done.contains(d as usize) ==> ch(x, d) == ch(w, d)
    &&& forall|d: int, k: int| #![trigger lbit(ch(x, d).liberties, k)] live(w, d) && 0 <= k < 368 ==>
            (lbit(ch(x, d).liberties, k) <==> lbit(ch(w, d).liberties, k) || (k == p && done.contains(d as usize)))
}

pub proof fn lemma_rm_in_start(w: GV, c: int, p: int)
    ensures rm_in(w, w, c, p, Seq::<usize>::empty()),
{
    assert forall|i: usize| !(#[trigger] Seq::<usize>::empty().contains(i)) by { }
}

pub proof fn lemma_rm_in_facts(w: GV, x: GV, c: int, p: int, done: Seq<usize>)
    requires rm_in(w, x, c, p, done),
    ensures x.size == w.size && x.z == w.z && x.board == w.board && x.next == w.next && x.chains.len() == w.chains.len(), live(x, c) == live(w, c),
{ }

/// n is a neighbour that does not have the liberty yet.
#[verifier::spinoff_prover]
pub proof fn lemma_rm_in_head(v: GV, w: GV, x: GV, c: int, s: Seq<int>, n: int, nl: Seq<usize>, m: int)
    requires
        inv(v), live(v, c), s == st(v, c), 0 <= n < s.len(), rm_mid(v, w, c, s.subrange(0, n)),
        nl.no_duplicates(), forall|d: usize| #![trigger nl.contains(d)] nl.contains(d) <==> touches(w, d as int, s[n]) && d != c,
        0 <= m < nl.len(), rm_in(w, x, c, s[n], nl.subrange(0, m)),
    ensures live(x, nl[m] as int), !lbit(ch(x, nl[m] as int).liberties, s[n]), nl[m] != c, nl[m] < x.chains.len(),
{
    lemma_chain(v, c);
    lemma_cells(v.size);
    let d = nl[m] as int;
    let pre = s.subrange(0, n);
    assert(nl.contains(nl[m]));
    let j = choose|j: int| #[trigger] adj(w.size, s[n], j) && id(w, j) == d;
    assert(id(w, j) == (if pre.contains(j) { -1 } else { id(v, j) }));
    assert(live(v, id(v, j)));
    assert(id(v, s[n]) == c);
    assert(!islib(v, d, s[n]));
    assert(!lbit(ch(v, d).liberties, s[n]));
    assert(!pre.contains(s[n])) by { if pre.contains(s[n]) { let k = choose|k: int| 0 <= k < n && pre[k] == s[n]; assert(s[k] == s[n]); } }
    assert(!nl.subrange(0, m).contains(nl[m])) by { let q = nl.subrange(0, m); if q.contains(nl[m]) { let k = choose|k: int| 0 <= k < m && q[k] == nl[m]; assert(nl[k] == nl[m]); } }
    assert(live(w, d));
    assert(live(x, d));
}

pub proof fn lemma_rm_in_step(w: GV, x: GV, y: GV, c: int, p: int, nl: Seq<usize>, m: int)
    requires
        rm_in(w, x, c, p, nl.subrange(0, m)), 0 <= m < nl.len(), live(x, nl[m] as int), 0 <= p < 361, w.chains.len() <= 361,
        y == (GV { chains: y.chains, ..x }), y.chains == x.chains.update(nl[m] as int, y.chains[nl[m] as int]), live(y, nl[m] as int),
        same_but_libs(ch(x, nl[m] as int), ch(y, nl[m] as int)),
        forall|k: int| 0 <= k < 368 ==> (#[trigger] lbit(ch(y, nl[m] as int).liberties, k) <==> (k == p || lbit(ch(x, nl[m] as int).liberties, k))),
    ensures rm_in(w, y, c, p, nl.subrange(0, m + 1)),
{
    let (q0, q) = (nl.subrange(0, m), nl.subrange(0, m + 1));
    lemma_prefix_contains(nl, m);
    let n = nl[m] as int;
    assert forall|d: int| d != n implies #[trigger] ch(y, d) == ch(x, d) by { assert(y.chains[d] == x.chains[d]); }
    assert forall|d: int| #![trigger live(y, d)] live(y, d) == live(x, d) by { }
    assert forall|d: int| #![trigger ch(y, d)] live(w, d) && !q.contains(d as usize) implies ch(y, d) == ch(w, d) by {
        assert(live(x, d)); assert(d as usize != nl[m]); assert(d != n); assert(ch(x, d) == ch(w, d));
    }
    assert forall|d: int| #![trigger ch(y, d)] #![trigger ch(w, d)] live(w, d) implies same_but_libs(ch(w, d), ch(y, d)) by {
        assert(live(x, d)); if d != n { assert(ch(y, d) == ch(x, d)); } assert(same_but_libs(ch(w, d), ch(x, d)));
    }
    assert forall|d: int, k: int| #![trigger lbit(ch(y, d).liberties, k)] live(w, d) && 0 <= k < 368 implies
            (lbit(ch(y, d).liberties, k) <==> lbit(ch(w, d).liberties, k) || (k == p && q.contains(d as usize))) by {
        assert(live(x, d));
        assert(lbit(ch(x, d).liberties, k) <==> lbit(ch(w, d).liberties, k) || (k == p && q0.contains(d as usize)));
        if d != n { assert(ch(y, d) == ch(x, d)); assert(d as usize != nl[m]); }
    }
}

#[verifier::spinoff_prover]
pub proof fn lemma_rm_step(v: GV, w: GV, x: GV, y: GV, c: int, s: Seq<int>, n: int, nl: Seq<usize>)
    requires
        inv(v), live(v, c), s == st(v, c), 0 <= n < s.len(), rm_mid(v, w, c, s.subrange(0, n)),
        nl.no_duplicates(), forall|d: usize| #![trigger nl.contains(d)] nl.contains(d) <==> touches(w, d as int, s[n]) && d != c,
        rm_in(w, x, c, s[n], nl),
        y == (GV { board: x.board.update(s[n], None), z: x.z ^ zkey(s[n], ch(v, c).color), ..x }),
    ensures rm_mid(v, y, c, s.subrange(0, n + 1)),
{
    let (pre0, pre) = (s.subrange(0, n), s.subrange(0, n + 1));
    let p = s[n];
    lemma_chain(v, c);
    lemma_cells(v.size);
    lemma_prefix_contains(s, n);
    assert(!pre0.contains(p)) by { if pre0.contains(p) { let k = choose|k: int| 0 <= k < n && pre0[k] == p; assert(s[k] == p); } }
    assert(id(v, p) == c);
    assert forall|i: int| #![trigger id(y, i)] #![trigger id(v, i)] 0 <= i < 361 implies id(y, i) == (if pre.contains(i) { -1 } else { id(v, i) }) by {
        if i != p { assert(id(y, i) == id(x, i)); assert(id(x, i) == id(w, i)); }
    }
    assert forall|d: int| #![trigger live(y, d)] live(y, d) == live(v, d) by { assert(live(x, d) == live(w, d)); assert(live(w, d) == live(v, d)); }
    assert forall|d: int| #![trigger ch(y, d)] ch(y, d) == ch(x, d) by { }
    assert forall|d: int| #![trigger ch(y, d)] #![trigger ch(v, d)] live(v, d) implies same_but_libs(ch(v, d), ch(y, d)) by {
        assert(live(w, d)); assert(same_but_libs(ch(v, d), ch(w, d))); assert(same_but_libs(ch(w, d), ch(x, d))); assert(ch(y, d) == ch(x, d));
    }
    assert(live(w, c));
    assert(v.chains.len() <= 361) by { lemma_inv_S(v); }
    assert(!nl.contains(c as usize)) by { assert((c as usize) as int == c); }
    assert(ch(x, c) == ch(w, c));
    assert forall|d: int, k: int| #![trigger lbit(ch(y, d).liberties, k)] live(v, d) && d != c && 0 <= k < 368 implies
            (lbit(ch(y, d).liberties, k) <==> lbit(ch(v, d).liberties, k) || (pre.contains(k) && touches(v, d, k))) by {
        assert(ch(y, d) == ch(x, d));
        assert(live(w, d));
        assert(lbit(ch(x, d).liberties, k) <==> lbit(ch(w, d).liberties, k) || (k == p && nl.contains(d as usize)));
        assert(lbit(ch(w, d).liberties, k) <==> lbit(ch(v, d).liberties, k) || (pre0.contains(k) && touches(v, d, k)));
        assert((d as usize) as int == d);
        assert(pre.contains(k) <==> pre0.contains(k) || k == p);
        assert(touches(w, d, p) <==> touches(v, d, p)) by { lemma_rm_touches(v, w, c, pre0, d, p); }
    }
    assert(clr(v, pre) =~= clr(v, pre0).update(p, None)) by {
        assert forall|i: int| 0 <= i < cells(v.size) implies clr(v, pre)[i] == clr(v, pre0).update(p, None)[i] by { }
    }
    assert(clr(v, pre0)[p] == col(v, p));
    assert(col(v, p) == Some(ch(v, c).color));
    lemma_zfold_update(clr(v, pre0), p, None, cells(v.size));
}

pub proof fn lemma_rm_touches(v: GV, w: GV, c: int, pre: Seq<int>, d: int, k: int)
    requires inv(v), live(v, c), rm_mid(v, w, c, pre), d != c, d >= 0, forall|i: int| pre.contains(i) ==> #[trigger] id(v, i) == c,
    ensures touches(w, d, k) <==> touches(v, d, k),
{
    lemma_cells(v.size);
    if touches(w, d, k) {
        let j = choose|j: int| #[trigger] adj(w.size, k, j) && id(w, j) == d;
        assert(id(w, j) == (if pre.contains(j) { -1 } else { id(v, j) }));
        assert(adj(v.size, k, j) && id(v, j) == d);
    }
    if touches(v, d, k) {
        let j = choose|j: int| #[trigger] adj(v.size, k, j) && id(v, j) == d;
        assert(!pre.contains(j));
        assert(adj(w.size, k, j) && id(w, j) == d);
    }
}

#[verifier::spinoff_prover]
pub proof fn lemma_rm_done(v: GV, w: GV, x: GV, c: int)
    requires inv(v), live(v, c), rm_mid(v, w, c, st(v, c)), x == (GV { chains: w.chains.update(c, None), ..w }),
    ensures inv(x), taken_off(v, x, c), x.size == v.size,
{
    let s = st(v, c);
    lemma_chain(v, c);
    lemma_cells(v.size);
    assert forall|i: int| #![trigger id(x, i)] #![trigger id(v, i)] 0 <= i < 361 implies id(x, i) == (if id(v, i) == c { -1 } else { id(v, i) }) by {
        assert(id(x, i) == id(w, i));
        assert(id(v, i) == c <==> s.contains(i));
    }
    assert forall|d: int| #![trigger live(x, d)] #![trigger live(v, d)] live(x, d) <==> live(v, d) && d != c by { assert(live(w, d) == live(v, d)); }
    assert forall|d: int| #![trigger ch(x, d)] #![trigger ch(v, d)] live(v, d) && d != c implies same_but_libs(ch(v, d), ch(x, d)) by {
        assert(same_but_libs(ch(v, d), ch(w, d)));
        assert(live(w, d));
        assert(ch(x, d) == ch(w, d));
    }
    assert forall|d: int, k: int| #![trigger lbit(ch(x, d).liberties, k)] live(v, d) && d != c && 0 <= k < 368 implies
        (lbit(ch(x, d).liberties, k) <==> lbit(ch(v, d).liberties, k) || (s.contains(k) && touches(v, d, k))) by {
        assert(live(w, d));
        assert(ch(x, d) == ch(w, d));
        assert(lbit(ch(w, d).liberties, k) <==> lbit(ch(v, d).liberties, k) || (s.contains(k) && touches(v, d, k)));
    }
    assert(taken_off(v, x, c));
    lemma_taken_S(v, x, c);
    assert(cols(x) =~= clr(v, s)) by {
        assert forall|i: int| 0 <= i < cells(v.size) implies col(x, i) == clr(v, s)[i] by {
            assert(id(v, i) == c <==> s.contains(i));
            if id(v, i) != -1 { assert(live(v, id(v, i))); }
        }
    }
    assert(Z(x));
    assert forall|d: int, k: int| #![trigger live(x, d), lbit(ch(x, d).liberties, k)] live(x, d) && 0 <= k < 368 implies (lbit(ch(x, d).liberties, k) <==> islib(x, d, k)) by {
        assert(live(v, d));
        assert(lbit(ch(v, d).liberties, k) <==> islib(v, d, k));
        assert(touches(x, d, k) <==> touches(v, d, k)) by {
            if touches(x, d, k) {
                let j = choose|j: int| #[trigger] adj(x.size, k, j) && id(x, j) == d;
                assert(adj(v.size, k, j) && id(v, j) == d);
            }
            if touches(v, d, k) {
                let j = choose|j: int| #[trigger] adj(v.size, k, j) && id(v, j) == d;
                assert(adj(x.size, k, j) && id(x, j) == d);
            }
        }
        if 0 <= k < 361 { assert(id(v, k) == c <==> s.contains(k)); assert(id(x, k) == (if id(v, k) == c { -1 } else { id(v, k) })); if id(v, k) == c && k >= cells(v.size) { assert(id(v, k) == -1); } }
        if s.contains(k) { let q = choose|q: int| 0 <= q < s.len() && s[q] == k; assert(0 <= s[q] < cells(v.size)); }
    }
    lemma_taken_MK(v, x, c);
}

pub proof fn lemma_taken_S(v: GV, x: GV, c: int)
    requires S(v), live(v, c), taken_off(v, x, c), x.board.len() == 361, x.chains.len() == v.chains.len(),
    ensures S(x), forall|d: int| live(x, d) ==> #[trigger] st(x, d) == st(v, d),
{
    lemma_cells(v.size);
    assert forall|d: int| #[trigger] live(x, d) implies ring_wf(x, d) && st(x, d) == st(v, d) by {
        assert(live(v, d)); assert(ring_wf(v, d)); assert(same_but_libs(ch(v, d), ch(x, d)));
    }
    assert forall|i: int| 0 <= i < 361 && #[trigger] id(x, i) != -1 implies live(x, id(x, i)) by { assert(live(v, id(v, i))); }
    assert forall|d: int, i: int| #![trigger live(x, d), id(x, i)] live(x, d) && 0 <= i < 361 implies (id(x, i) == d <==> st(x, d).contains(i)) by {
        assert(live(v, d)); assert(id(v, i) == d <==> st(v, d).contains(i)); assert(st(x, d) == st(v, d));
    }
    assert forall|i: int| cells(x.size) <= i < 361 implies #[trigger] id(x, i) == -1 by { assert(id(v, i) == -1); }
    assert forall|d: int| live(x, d) implies #[trigger] st(x, d) == st(v, d) by { assert(live(v, d)); assert(same_but_libs(ch(v, d), ch(x, d))); }
}

pub proof fn lemma_taken_cols(v: GV, x: GV, c: int)
    requires S(v), taken_off(v, x, c),
    ensures forall|i: int| 0 <= i < cells(v.size) ==> #[trigger] cols(x)[i] == (if id(v, i) == c { None } else { cols(v)[i] }),
{
    lemma_cells(v.size);
    assert forall|i: int| 0 <= i < cells(v.size) implies #[trigger] cols(x)[i] == (if id(v, i) == c { None } else { cols(v)[i] }) by {
        assert(id(x, i) == (if id(v, i) == c { -1 } else { id(v, i) }));
        assert(cols(x)[i] == col(x, i));
        assert(cols(v)[i] == col(v, i));
        if id(v, i) != -1 && id(v, i) != c { assert(live(v, id(v, i))); assert(same_but_libs(ch(v, id(v, i)), ch(x, id(v, i)))); }
    }
}

#[verifier::spinoff_prover]
pub proof fn lemma_taken_MK(v: GV, x: GV, c: int)
    requires inv(v), live(v, c), taken_off(v, x, c), S(x),
    ensures M(x), K(x),
{
    lemma_cells(v.size);
    lemma_taken_cols(v, x, c);
    let (cv, cx) = (cols(v), cols(x));
    assert forall|i: int, j: int| #[trigger] adj(x.size, i, j) && id(x, i) != -1 && id(x, j) != -1 && col(x, i) == col(x, j) implies id(x, i) == id(x, j) by {
        assert(adj(v.size, i, j));
        assert(id(v, i) == id(x, i)); assert(id(v, j) == id(x, j));
        assert(cx[i] == col(x, i)); assert(cx[j] == col(x, j));
        assert(cv[i] == col(v, i)); assert(cv[j] == col(v, j));
    }
    assert forall|i: int, j: int| #![trigger id(x, i), id(x, j)] 0 <= i < cells(x.size) && 0 <= j < cells(x.size) && id(x, i) != -1 && id(x, i) == id(x, j) implies linked(cx, x.size, i, j) by {
        assert(id(v, i) == id(x, i)); assert(id(v, j) == id(x, j));
        assert(linked(cv, v.size, i, j));
        let p = choose|p: Seq<int>| is_path(cv, v.size, p, i, j);
        assert forall|k: int| 0 <= k < p.len() implies 0 <= #[trigger] p[k] < cells(x.size) && cx[p[k]] == cx[i] by {
            lemma_path_id(v, p, i, j, k);
            assert(cv[p[k]] == cv[i]);
            assert(id(v, p[k]) == id(v, i));
        }
        assert(is_path(cx, x.size, p, i, j));
    }
}

} // verus!
