verus! {

// ================================================================ push
/// Group c is one the new stone joins.
pub open spec fn joins(v: GV, p: int, color: Color, c: int) -> bool {
    live(v, c) && ch(v, c).color == color && touches(v, c, p)
}

/// Group c is an opposing neighbour of the new stone.
pub open spec fn opposes(v: GV, p: int, color: Color, c: int) -> bool {
    live(v, c) && ch(v, c).color != color && touches(v, c, p)
}

pub open spec fn touches_in(v: GV, c: int, pre: Seq<usize>) -> bool {
    exists|j: usize| #[trigger] pre.contains(j) && id(v, j as int) == c
}

pub open spec fn split_nb(v: GV, color: Color, pre: Seq<usize>, a: Seq<usize>, o: Seq<usize>, l: Seq<usize>) -> bool {
    &&& a.no_duplicates() && o.no_duplicates()
    &&& a.len() <= pre.len() && o.len() <= pre.len() && l.len() <= pre.len()
    &&& forall|c: usize| #![trigger a.contains(c)] #![trigger live(v, c as int)] a.contains(c) <==> live(v, c as int) && ch(v, c as int).color == color && touches_in(v, c as int, pre)
    &&& forall|c: usize| #![trigger o.contains(c)] #![trigger live(v, c as int)] o.contains(c) <==> live(v, c as int) && ch(v, c as int).color != color && touches_in(v, c as int, pre)
    &&& forall|k: usize| #![trigger l.contains(k)] l.contains(k) <==> pre.contains(k) && id(v, k as int) == -1
}

pub proof fn lemma_push_contains<T>(s: Seq<T>, x: T)
    ensures forall|y: T| #[trigger] s.push(x).contains(y) <==> s.contains(y) || y == x,
{
    assert forall|y: T| #[trigger] s.push(x).contains(y) <==> s.contains(y) || y == x by {
        let t = s.push(x);
        if t.contains(y) { let k = choose|k: int| 0 <= k < t.len() && t[k] == y; if k < s.len() { assert(s[k] == y); } }
        if s.contains(y) { let k = choose|k: int| 0 <= k < s.len() && s[k] == y; assert(t[k] == y); }
        assert(t[s.len() as int] == x);
    }
}

pub proof fn lemma_split_step(v: GV, color: Color, s: Seq<usize>, n: int, a0: Seq<usize>, o0: Seq<usize>, l0: Seq<usize>, a: Seq<usize>, o: Seq<usize>, l: Seq<usize>)
    requires
        S(v), 0 <= n < s.len(), s[n] < cells(v.size), s.len() <= 4,
        split_nb(v, color, s.subrange(0, n), a0, o0, l0),
        ({
            let x = id(v, s[n] as int);
            if x == -1 { a == a0 && o == o0 && l == l0.push(s[n]) }
            else if ch(v, x).color == color { o == o0 && l == l0 && (if a0.contains(x as usize) { a == a0 } else { a == a0.push(x as usize) }) }
            else { a == a0 && l == l0 && (if o0.contains(x as usize) { o == o0 } else { o == o0.push(x as usize) }) }
        }),
    ensures split_nb(v, color, s.subrange(0, n + 1), a, o, l),
{
    let (pre0, pre) = (s.subrange(0, n), s.subrange(0, n + 1));
    lemma_cells(v.size);
    lemma_prefix_contains(s, n);
    let x = id(v, s[n] as int);
    if x != -1 { assert(live(v, x)); }
    assert(pre.contains(s[n]));
    assert forall|c: int| #[trigger] touches_in(v, c, pre) <==> touches_in(v, c, pre0) || x == c by {
        if touches_in(v, c, pre) {
            let j = choose|j: usize| #[trigger] pre.contains(j) && id(v, j as int) == c;
            if j != s[n] { assert(pre0.contains(j)); }
        }
        if touches_in(v, c, pre0) {
            let j = choose|j: usize| #[trigger] pre0.contains(j) && id(v, j as int) == c;
            assert(pre.contains(j));
        }
    }
    lemma_push_contains(a0, x as usize);
    lemma_push_contains(o0, x as usize);
    lemma_push_contains(l0, s[n]);
}

/// Same groups and rings; only liberties may differ.
pub open spec fn libs_only(v: GV, w: GV) -> bool {
    &&& w.size == v.size && w.z == v.z && w.board == v.board && w.next == v.next && w.chains.len() == v.chains.len()
    &&& forall|c: int| #![trigger live(w, c)] #![trigger live(v, c)] live(w, c) == live(v, c)
    &&& forall|c: int| #![trigger ch(w, c)] #![trigger ch(v, c)] live(v, c) ==> same_but_libs(ch(v, c), ch(w, c))
}

pub proof fn lemma_libs_only(v: GV, w: GV)
    requires S(v), libs_only(v, w),
    ensures S(w), cols(w) == cols(v),
{
    assert forall|c: int| #[trigger] live(w, c) implies ring_wf(w, c) && st(w, c) == st(v, c) by {
        assert(live(v, c)); assert(ring_wf(v, c)); assert(same_but_libs(ch(v, c), ch(w, c)));
    }
    assert forall|i: int| 0 <= i < 361 implies #[trigger] id(w, i) == id(v, i) by { }
    assert forall|i: int| 0 <= i < 361 && #[trigger] id(w, i) != -1 implies live(w, id(w, i)) by { assert(live(v, id(v, i))); }
    assert forall|c: int, i: int| #![trigger live(w, c), id(w, i)] live(w, c) && 0 <= i < 361 implies (id(w, i) == c <==> st(w, c).contains(i)) by {
        assert(live(v, c)); assert(id(v, i) == c <==> st(v, c).contains(i));
    }
    assert forall|i: int| cells(w.size) <= i < 361 implies #[trigger] id(w, i) == -1 by { assert(id(v, i) == -1); }
    lemma_cells(v.size);
    assert(cols(w) =~= cols(v)) by {
        assert forall|i: int| 0 <= i < cells(v.size) implies col(w, i) == col(v, i) by { assert(id(w, i) == id(v, i)); if id(v, i) != -1 { assert(live(v, id(v, i))); } }
    }
}

/// After the opposing neighbours `done` lost the liberty p.
pub open spec fn opp_mid(v: GV, w: GV, p: int, done: Seq<usize>) -> bool {
    &&& libs_only(v, w)
    &&& forall|c: int, k: int| #![trigger lbit(ch(w, c).liberties, k)] live(v, c) && 0 <= k < 368 ==>
            (lbit(ch(w, c).liberties, k) <==> lbit(ch(v, c).liberties, k) && !(k == p && done.contains(c as usize)))
}

/// Group c has no liberty on record.
pub open spec fn nolib(v: GV, c: int) -> bool {
    forall|k: int| 0 <= k < 368 ==> !#[trigger] lbit(ch(v, c).liberties, k)
}

/// Groups `pre` of v have become, together with the stone on p, group t.
pub open spec fn merging(v: GV, w: GV, p: int, color: Color, t: int, pre: Seq<usize>, l: Seq<usize>) -> bool {
    &&& S(w) && w.size == v.size && w.z == v.z
    &&& 0 <= t < 361 && live(w, t) && ch(w, t).color == color
    &&& live(v, t) ==> pre.contains(t as usize)
    &&& forall|i: int| #![trigger id(w, i)] #![trigger id(v, i)] 0 <= i < 361 ==> id(w, i) == (if i == p || (id(v, i) != -1 && pre.contains(id(v, i) as usize)) { t } else { id(v, i) })
    &&& forall|c: int| #![trigger live(w, c)] #![trigger live(v, c)] c != t ==> (live(w, c) <==> live(v, c) && !pre.contains(c as usize))
    &&& forall|c: int| #![trigger ch(w, c)] #![trigger ch(v, c)] c != t && live(w, c) ==> ch(w, c) == ch(v, c)
    &&& forall|k: int| #![trigger lbit(ch(w, t).liberties, k)] 0 <= k < 368 ==> (lbit(ch(w, t).liberties, k) <==> l.contains(k as usize) || lib_in(v, pre, k))
}

pub open spec fn lib_in(v: GV, pre: Seq<usize>, k: int) -> bool {
    exists|c: usize| #[trigger] pre.contains(c) && lbit(ch(v, c as int).liberties, k)
}

pub proof fn lemma_merging_start(v: GV, w: GV, p: int, color: Color, t: int, l: Seq<usize>)
    requires
        S(v), S(w), create_post(v, w, p, color, t), !live(v, t), live(w, t), 0 <= p < cells(v.size), id(v, p) == -1,
        forall|k: int| 0 <= k < 368 ==> (#[trigger] lbit(ch(w, t).liberties, k) <==> l.contains(k as usize)),
    ensures merging(v, w, p, color, t, Seq::<usize>::empty(), l),
{
    let e = Seq::<usize>::empty();
    assert forall|c: usize| !(#[trigger] e.contains(c)) by { }
    assert(w.chains.len() <= 361);
}

#[verifier::spinoff_prover]
pub proof fn lemma_merge_step(v: GV, m: GV, w: GV, p: int, color: Color, t: int, s: Seq<usize>, n: int, l: Seq<usize>, keep: int, drop: int)
    requires
        S(v), 0 <= p < cells(v.size), id(v, p) == -1, s.no_duplicates(), 0 <= n < s.len(), live(v, s[n] as int), s[n] != t, ch(v, s[n] as int).color == color,
        merging(v, m, p, color, t, s.subrange(0, n), l), S(w), merge_post(m, w, keep, drop),
        (keep == t && drop == s[n]) || (keep == s[n] && drop == t),
    ensures merging(v, w, p, color, keep, s.subrange(0, n + 1), l),
{
    let (pre0, pre) = (s.subrange(0, n), s.subrange(0, n + 1));
    let a = s[n] as int;
    lemma_prefix_contains(s, n);
    assert(!pre0.contains(s[n])) by {
        if pre0.contains(s[n]) { let j = choose|j: int| 0 <= j < n && pre0[j] == s[n]; assert(s[j] == s[n]); }
    }
    assert(live(m, a));
    assert(v.chains.len() <= 361);
    assert(w.chains.len() <= 361);
    assert forall|k: int| #[trigger] lib_in(v, pre, k) <==> lib_in(v, pre0, k) || lbit(ch(v, a).liberties, k) by {
        if lib_in(v, pre, k) {
            let c = choose|c: usize| #[trigger] pre.contains(c) && lbit(ch(v, c as int).liberties, k);
            if c != a { assert(pre0.contains(c)); }
        }
        if lib_in(v, pre0, k) {
            let c = choose|c: usize| #[trigger] pre0.contains(c) && lbit(ch(v, c as int).liberties, k);
            assert(pre.contains(c));
        }
        if lbit(ch(v, a).liberties, k) { assert(pre.contains(s[n])); }
    }
    assert(ch(m, a) == ch(v, a));
    assert forall|i: int| #![trigger id(w, i)] #![trigger id(v, i)] 0 <= i < 361 implies id(w, i) == (if i == p || (id(v, i) != -1 && pre.contains(id(v, i) as usize)) { keep } else { id(v, i) }) by {
        assert(id(w, i) == (if id(m, i) == drop { keep } else { id(m, i) }));
        assert(id(m, i) == (if i == p || (id(v, i) != -1 && pre0.contains(id(v, i) as usize)) { t } else { id(v, i) }));
        if id(v, i) != -1 { assert(live(v, id(v, i))); }
        if i != p && id(v, i) == t && !pre0.contains(t as usize) { assert(live(v, t)); }
    }
    assert forall|c: int| #![trigger live(w, c)] #![trigger live(v, c)] c != keep implies (live(w, c) <==> live(v, c) && !pre.contains(c as usize)) by {
        if c != drop {
            assert(live(w, c) == live(m, c));
            if live(v, c) { assert(c as usize == s[n] <==> c == a); }
        } else {
            if c == t && live(v, t) { assert(pre0.contains(t as usize)); }
        }
    }
    assert forall|c: int| #![trigger ch(w, c)] #![trigger ch(v, c)] c != keep && live(w, c) implies ch(w, c) == ch(v, c) by {
        assert(c != drop);
        assert(live(m, c));
        assert(ch(w, c) == ch(m, c));
        assert(ch(m, c) == ch(v, c));
    }
    assert(live(v, keep) ==> pre.contains(keep as usize));
    assert forall|k: int| #![trigger lbit(ch(w, keep).liberties, k)] 0 <= k < 368 implies (lbit(ch(w, keep).liberties, k) <==> l.contains(k as usize) || lib_in(v, pre, k)) by {
        assert(lbit(ch(m, t).liberties, k) <==> l.contains(k as usize) || lib_in(v, pre0, k));
    }
}

/// The board after a stone was added at p, groups still to be taken off.
pub open spec fn pushed(v: GV, w: GV, p: int, color: Color, t: int) -> bool {
    &&& S(w) && w.size == v.size && w.z == v.z
    &&& live(w, t) && ch(w, t).color == color
    &&& live(v, t) ==> joins(v, p, color, t)
    &&& forall|i: int| #![trigger id(w, i)] #![trigger id(v, i)] 0 <= i < 361 ==> id(w, i) == (if i == p || joins(v, p, color, id(v, i)) { t } else { id(v, i) })
    &&& forall|c: int| #![trigger live(w, c)] #![trigger live(v, c)] c != t ==> (live(w, c) <==> live(v, c) && !joins(v, p, color, c))
    &&& forall|c: int| #![trigger ch(w, c)] live(w, c) && c != t ==> ch(w, c).color == ch(v, c).color
    &&& forall|c: int, k: int| #![trigger lbit(ch(w, c).liberties, k)] live(w, c) && c != t && 0 <= k < 368 ==> (lbit(ch(w, c).liberties, k) <==> lbit(ch(v, c).liberties, k) && k != p)
    &&& forall|k: int| #![trigger lbit(ch(w, t).liberties, k)] 0 <= k < 368 ==> (lbit(ch(w, t).liberties, k) <==>
            k != p && ((k < 361 && id(v, k) == -1 && adj(v.size, p, k)) || exists|c: int| #[trigger] joins(v, p, color, c) && lbit(ch(v, c).liberties, k)))
}

/// What loop 0 and loop 1 of push_wth_feedback established about board v (before) and u (opposing liberties updated).
pub open spec fn push_ctx(v: GV, u: GV, p: int, color: Color, a: Seq<usize>, o: Seq<usize>, l: Seq<usize>) -> bool {
    &&& inv(v) && 0 <= p < cells(v.size) && id(v, p) == -1
    &&& a.no_duplicates()
    &&& opp_mid(v, u, p, o)
    &&& forall|c: usize| #![trigger a.contains(c)] #![trigger joins(v, p, color, c as int)] a.contains(c) <==> joins(v, p, color, c as int)
    &&& forall|c: usize| #![trigger o.contains(c)] #![trigger opposes(v, p, color, c as int)] o.contains(c) <==> opposes(v, p, color, c as int)
    &&& forall|k: usize| #![trigger l.contains(k)] l.contains(k) <==> adj(v.size, p, k as int) && id(v, k as int) == -1
}

pub proof fn lemma_split_full(v: GV, p: int, color: Color, nb: Seq<usize>, a: Seq<usize>, o: Seq<usize>, l: Seq<usize>)
    requires
        inv(v), 0 <= p < cells(v.size), split_nb(v, color, nb, a, o, l),
        forall|i: usize| #![trigger nb.contains(i)] #![trigger adj(v.size, p, i as int)] nb.contains(i) <==> adj(v.size, p, i as int),
    ensures
        forall|c: usize| #![trigger a.contains(c)] #![trigger joins(v, p, color, c as int)] a.contains(c) <==> joins(v, p, color, c as int),
        forall|c: usize| #![trigger o.contains(c)] #![trigger opposes(v, p, color, c as int)] o.contains(c) <==> opposes(v, p, color, c as int),
        forall|k: usize| #![trigger l.contains(k)] l.contains(k) <==> adj(v.size, p, k as int) && id(v, k as int) == -1,
{
    lemma_cells(v.size);
    assert forall|c: int| #[trigger] touches_in(v, c, nb) <==> touches(v, c, p) by {
        if touches_in(v, c, nb) {
            let j = choose|j: usize| #[trigger] nb.contains(j) && id(v, j as int) == c;
            assert(adj(v.size, p, j as int));
        }
        if touches(v, c, p) {
            let j = choose|j: int| #[trigger] adj(v.size, p, j) && id(v, j) == c;
            assert(nb.contains(j as usize));
        }
    }
    assert forall|c: usize| #![trigger a.contains(c)] #![trigger joins(v, p, color, c as int)] a.contains(c) <==> joins(v, p, color, c as int) by {
        assert(live(v, c as int) || !live(v, c as int));
        assert(touches_in(v, c as int, nb) <==> touches(v, c as int, p));
    }
    assert forall|c: usize| #![trigger o.contains(c)] #![trigger opposes(v, p, color, c as int)] o.contains(c) <==> opposes(v, p, color, c as int) by {
        assert(live(v, c as int) || !live(v, c as int));
        assert(touches_in(v, c as int, nb) <==> touches(v, c as int, p));
    }
}

/// Only the liberties of group t were written.
pub open spec fn libs_set(v: GV, w: GV, t: int) -> bool {
    &&& w == (GV { chains: w.chains, ..v }) && live(v, t) && w.chains == v.chains.update(t, w.chains[t]) && live(w, t)
    &&& same_but_libs(ch(v, t), ch(w, t))
}

pub proof fn lemma_libs_set(v: GV, w: GV, t: int)
    requires libs_set(v, w, t),
    ensures libs_only(v, w), forall|c: int| c != t ==> #[trigger] ch(w, c) == ch(v, c),
{
    assert forall|c: int| c != t implies #[trigger] ch(w, c) == ch(v, c) by { assert(w.chains[c] == v.chains[c]); }
    assert forall|c: int| #![trigger live(w, c)] #![trigger live(v, c)] live(w, c) == live(v, c) by { }
    assert forall|c: int| #![trigger ch(w, c)] #![trigger ch(v, c)] live(v, c) implies same_but_libs(ch(v, c), ch(w, c)) by { if c != t { assert(ch(w, c) == ch(v, c)); } }
}

pub proof fn lemma_inv_S(v: GV)
    requires inv(v),
    ensures S(v), size_ok(v.size), v.board.len() == 361, v.next.len() == 361, v.chains.len() <= 361,
{ }

pub proof fn lemma_live_len(v: GV)
    requires S(v),
    ensures size_ok(v.size), v.board.len() == 361, v.next.len() == 361, v.chains.len() <= 361,
{ }

pub proof fn lemma_adj_cells(s: (u8, u8), p: int, i: int)
    requires size_ok(s), adj(s, p, i),
    ensures 0 <= i < cells(s) <= 361, i != p,
{ lemma_cells(s); }

pub proof fn lemma_split_start(v: GV, color: Color)
    ensures split_nb(v, color, Seq::<usize>::empty(), Seq::<usize>::empty(), Seq::<usize>::empty(), Seq::<usize>::empty()),
{ }

pub proof fn lemma_split_len(v: GV, color: Color, pre: Seq<usize>, a: Seq<usize>, o: Seq<usize>, l: Seq<usize>)
    requires split_nb(v, color, pre, a, o, l),
    ensures a.len() <= pre.len(), o.len() <= pre.len(), l.len() <= pre.len(), a.no_duplicates(), o.no_duplicates(),
{ }

pub proof fn lemma_push_ctx_intro(v: GV, u: GV, p: int, color: Color, a: Seq<usize>, o: Seq<usize>, l: Seq<usize>)
    requires
        inv(v), 0 <= p < cells(v.size), id(v, p) == -1, a.no_duplicates(), opp_mid(v, u, p, o),
        forall|c: usize| #![trigger a.contains(c)] #![trigger joins(v, p, color, c as int)] a.contains(c) <==> joins(v, p, color, c as int),
        forall|c: usize| #![trigger o.contains(c)] #![trigger opposes(v, p, color, c as int)] o.contains(c) <==> opposes(v, p, color, c as int),
        forall|k: usize| #![trigger l.contains(k)] l.contains(k) <==> adj(v.size, p, k as int) && id(v, k as int) == -1,
    ensures push_ctx(v, u, p, color, a, o, l),
{ }

pub proof fn lemma_merging_facts(v: GV, w: GV, p: int, color: Color, t: int, pre: Seq<usize>, l: Seq<usize>)
    requires merging(v, w, p, color, t, pre, l),
    ensures S(w), live(w, t), ch(w, t).color == color, w.size == v.size, w.z == v.z, 0 <= t < 361, w.chains.len() <= 361,
{ }

pub proof fn lemma_pushed_S(v: GV, w: GV, p: int, color: Color, t: int)
    requires pushed(v, w, p, color, t),
    ensures S(w), live(w, t), ch(w, t).color == color, w.size == v.size, w.z == v.z,
{ }

/// Which groups were joined, in terms of the recorded list.
pub proof fn lemma_joins_list(v: GV, u: GV, p: int, color: Color, a: Seq<usize>, o: Seq<usize>, l: Seq<usize>)
    requires push_ctx(v, u, p, color, a, o, l),
    ensures
        forall|c: int| #[trigger] joins(v, p, color, c) <==> 0 <= c && c < 361 && a.contains(c as usize),
        forall|c: int| #![trigger live(v, c)] #![trigger live(u, c)] live(u, c) == live(v, c),
        forall|i: int| #[trigger] id(u, i) == id(v, i),
        v.chains.len() <= 361, u.size == v.size, u.z == v.z,
{
    assert forall|c: int| #[trigger] joins(v, p, color, c) <==> 0 <= c && c < 361 && a.contains(c as usize) by {
        if joins(v, p, color, c) { assert(a.contains(c as usize)); }
        if 0 <= c < 361 { assert(a.contains(c as usize) <==> joins(v, p, color, (c as usize) as int)); }
    }
    assert forall|i: int| #[trigger] id(u, i) == id(v, i) by { }
}

#[verifier::spinoff_prover]
pub proof fn lemma_merging_libs(v: GV, u: GV, p: int, color: Color, a: Seq<usize>, o: Seq<usize>, l: Seq<usize>, k: int)
    requires push_ctx(v, u, p, color, a, o, l), 0 <= k < 368,
    ensures
        (l.contains(k as usize) || lib_in(u, a, k)) <==> ((k < 361 && id(v, k) == -1 && adj(v.size, p, k)) || exists|c: int| #[trigger] joins(v, p, color, c) && lbit(ch(v, c).liberties, k)),
{
    lemma_joins_list(v, u, p, color, a, o, l);
    lemma_cells(v.size);
    assert(l.contains(k as usize) <==> adj(v.size, p, k) && id(v, k) == -1);
    assert forall|c: int| #[trigger] joins(v, p, color, c) implies lbit(ch(u, c).liberties, k) == lbit(ch(v, c).liberties, k) by {
        assert(live(v, c));
        assert(!opposes(v, p, color, c));
        assert(!o.contains(c as usize));
        assert(lbit(ch(u, c).liberties, k) <==> lbit(ch(v, c).liberties, k) && !(k == p && o.contains(c as usize)));
    }
    if lib_in(u, a, k) {
        let c = choose|c: usize| #[trigger] a.contains(c) && lbit(ch(u, c as int).liberties, k);
        assert(joins(v, p, color, c as int));
    }
    if exists|c: int| #[trigger] joins(v, p, color, c) && lbit(ch(v, c).liberties, k) {
        let c = choose|c: int| #[trigger] joins(v, p, color, c) && lbit(ch(v, c).liberties, k);
        assert(a.contains(c as usize));
        assert(lbit(ch(u, (c as usize) as int).liberties, k));
    }
}

/// All joined groups merged and p no liberty any more: `pushed` holds.
#[verifier::spinoff_prover]
pub proof fn lemma_merging_done(v: GV, u: GV, m: GV, w: GV, p: int, color: Color, t: int, a: Seq<usize>, o: Seq<usize>, l: Seq<usize>)
    requires
        push_ctx(v, u, p, color, a, o, l), merging(u, m, p, color, t, a, l),
        w == m || libs_set(m, w, t),
        forall|k: int| #![trigger lbit(ch(w, t).liberties, k)] 0 <= k < 368 ==> (lbit(ch(w, t).liberties, k) <==> lbit(ch(m, t).liberties, k) && k != p),
    ensures pushed(v, w, p, color, t),
{
    hide(S); hide(inv); hide(push_ctx); hide(joins); hide(opposes);
    lemma_merging_facts(u, m, p, color, t, a, l);
    lemma_merging_w(m, w, t);
    lemma_joins_list(v, u, p, color, a, o, l);
    lemma_push_ctx(v, u, p, color, a, o, l);
    assert forall|i: int| #![trigger id(w, i)] #![trigger id(v, i)] 0 <= i < 361 implies id(w, i) == (if i == p || joins(v, p, color, id(v, i)) { t } else { id(v, i) }) by {
        assert(id(w, i) == id(m, i));
        assert(id(u, i) == id(v, i));
        lemma_lookup(u, i);
    }
    assert forall|c: int| #![trigger live(w, c)] #![trigger live(v, c)] c != t implies (live(w, c) <==> live(v, c) && !joins(v, p, color, c)) by {
        assert(live(w, c) == live(m, c));
        assert(live(u, c) == live(v, c));
    }
    assert forall|c: int, k: int| #![trigger lbit(ch(w, c).liberties, k)] live(w, c) && c != t implies ch(w, c) == ch(u, c) by {
        assert(live(m, c)); assert(ch(w, c) == ch(m, c)); assert(ch(m, c) == ch(u, c));
    }
    assert forall|c: int| #![trigger ch(w, c)] live(w, c) && c != t implies ch(w, c).color == ch(v, c).color by {
        assert(live(m, c)); assert(live(v, c));
        assert(ch(w, c) == ch(m, c)); assert(ch(m, c) == ch(u, c));
        lemma_ctx_color(v, u, p, color, a, o, l, c);
    }
    assert forall|c: int, k: int| #![trigger lbit(ch(w, c).liberties, k)] live(w, c) && c != t && 0 <= k < 368 implies (lbit(ch(w, c).liberties, k) <==> lbit(ch(v, c).liberties, k) && k != p) by {
        assert(live(v, c) && !joins(v, p, color, c));
        lemma_opp_libs(v, u, p, color, a, o, l, c, k);
    }
    assert forall|k: int| #![trigger lbit(ch(w, t).liberties, k)] 0 <= k < 368 implies (lbit(ch(w, t).liberties, k) <==>
            k != p && ((k < 361 && id(v, k) == -1 && adj(v.size, p, k)) || exists|c: int| #[trigger] joins(v, p, color, c) && lbit(ch(v, c).liberties, k))) by {
        lemma_merging_libs(v, u, p, color, a, o, l, k);
        assert(lbit(ch(m, t).liberties, k) <==> l.contains(k as usize) || lib_in(u, a, k));
    }
    if live(v, t) { assert(live(u, t)); assert(a.contains(t as usize)); assert(joins(v, p, color, t)); }
}

pub proof fn lemma_ctx_color(v: GV, u: GV, p: int, color: Color, a: Seq<usize>, o: Seq<usize>, l: Seq<usize>, c: int)
    requires push_ctx(v, u, p, color, a, o, l), live(v, c),
    ensures same_but_libs(ch(v, c), ch(u, c)),
{ }

pub proof fn lemma_merging_w(m: GV, w: GV, t: int)
    requires S(m), live(m, t), w == m || libs_set(m, w, t),
    ensures
        S(w), w.size == m.size, w.z == m.z, live(w, t), ch(w, t).color == ch(m, t).color,
        forall|c: int| #[trigger] live(w, c) == live(m, c),
        forall|c: int| c != t ==> #[trigger] ch(w, c) == ch(m, c),
        forall|i: int| #[trigger] id(w, i) == id(m, i),
{
    if w != m { lemma_libs_set(m, w, t); lemma_libs_only(m, w); }
}

/// One joined group, extended in place: structure.
#[verifier::spinoff_prover]
pub proof fn lemma_extend_S(u2: GV, u3: GV, w: GV, p: int, t: int)
    requires
        S(u2), live(u2, t), 0 <= p < cells(u2.size), id(u2, p) == -1,
        add_stone_post(u2, u3, t, p),
        w == (GV { board: w.board, ..u3 }), w.board.len() == 361,
        forall|i: int| 0 <= i < 361 ==> #[trigger] id(w, i) == (if i == p { t } else { id(u3, i) }),
    ensures
        S(w),
        forall|c: int| #[trigger] live(w, c) == live(u2, c),
        forall|c: int| c != t && live(u2, c) ==> #[trigger] ch(w, c) == ch(u2, c),
        ch(w, t).color == ch(u2, t).color, ch(w, t).liberties == ch(u2, t).liberties,
        forall|i: int| 0 <= i < 361 ==> #[trigger] id(w, i) == (if i == p { t } else { id(u2, i) }),
        w.size == u2.size, w.z == u2.z,
{
    lemma_cells(u2.size);
    assert forall|i: int| 0 <= i < 361 implies #[trigger] id(w, i) == (if i == p { t } else { id(u2, i) }) by { assert(id(u3, i) == id(u2, i)); }
    assert forall|c: int| #[trigger] live(w, c) == live(u2, c) by { if 0 <= c < u2.chains.len() && c != t { assert(u3.chains[c] == u2.chains[c]); } }
    assert forall|c: int| c != t && live(u2, c) implies #[trigger] ch(w, c) == ch(u2, c) by { assert(u3.chains[c] == u2.chains[c]); }
    assert(st(w, t) == st(u3, t));
    lemma_chain(u2, t);
    let s = st(u2, t);
    assert forall|i: int| st(w, t).contains(i) <==> s.contains(i) || i == p by {
        let r = st(w, t);
        if p < ch(u2, t).origin {
            if r.contains(i) { let j = choose|j: int| 0 <= j < r.len() && r[j] == i; if j > 0 { assert(s[j - 1] == i); } }
            if s.contains(i) { let j = choose|j: int| 0 <= j < s.len() && s[j] == i; assert(r[j + 1] == i); }
            assert(r[0] == p);
        } else { lemma_push_contains(s, p); }
    }
    assert forall|c: int| #[trigger] live(w, c) implies ring_wf(w, c) && (c != t ==> st(w, c) == st(u2, c)) by {
        if c != t { lemma_extend_frame(u2, u3, w, p, t, c); }
    }
    assert forall|c: int, i: int| #![trigger live(w, c), id(w, i)] live(w, c) && 0 <= i < 361 implies (id(w, i) == c <==> st(w, c).contains(i)) by {
        assert(live(u2, c));
        assert(id(u2, i) == c <==> st(u2, c).contains(i));
        if c == t { assert(st(w, t).contains(i) <==> s.contains(i) || i == p); }
        else { assert(st(w, c) == st(u2, c)); if i == p { assert(id(u2, p) == -1); } }
    }
    assert forall|i: int| cells(w.size) <= i < 361 implies #[trigger] id(w, i) == -1 by { assert(id(u2, i) == -1); }
    assert forall|i: int| 0 <= i < 361 && #[trigger] id(w, i) != -1 implies live(w, id(w, i)) by { if i != p { assert(live(u2, id(u2, i))); } }
}

pub proof fn lemma_extend_frame(u2: GV, u3: GV, w: GV, p: int, t: int, c: int)
    requires S(u2), live(u2, t), live(u2, c), c != t, 0 <= p < 361, id(u2, p) == -1, add_stone_post(u2, u3, t, p), w == (GV { board: w.board, ..u3 }),
    ensures ring_wf(w, c), st(w, c) == st(u2, c),
{
    lemma_chain(u2, c);
    lemma_chain(u2, t);
    let q = st(u2, c);
    assert(w.chains[c] == u2.chains[c]) by { assert(u3.chains[c] == u2.chains[c]); }
    assert forall|k: int| 0 <= k < q.len() implies w.next[#[trigger] q[k]] == u2.next[q[k]] by {
        assert(id(u2, q[k]) == c);
        assert(q[k] != p) by { assert(id(u2, p) == -1); }
        assert(q[k] != ch(u2, t).last) by { assert(id(u2, ch(u2, t).last as int) == t); }
    }
    lemma_ring_frame(u2.next, w.next, q);
}

/// One joined group, extended in place.
#[verifier::spinoff_prover]
pub proof fn lemma_extend(v: GV, u: GV, u2: GV, u3: GV, w: GV, p: int, color: Color, t: int, a: Seq<usize>, o: Seq<usize>, l: Seq<usize>)
    requires
        push_ctx(v, u, p, color, a, o, l), a.len() == 1, a[0] == t,
        libs_set(u, u2, t),
        forall|k: int| #![trigger lbit(ch(u2, t).liberties, k)] 0 <= k < 368 ==> (lbit(ch(u2, t).liberties, k) <==> (lbit(ch(u, t).liberties, k) && k != p) || l.contains(k as usize)),
        add_stone_post(u2, u3, t, p),
        w == (GV { board: w.board, ..u3 }), w.board.len() == 361,
        forall|i: int| 0 <= i < 361 ==> #[trigger] id(w, i) == (if i == p { t } else { id(u3, i) }),
    ensures pushed(v, w, p, color, t),
{
    hide(S); hide(inv); hide(push_ctx); hide(joins); hide(opposes); hide(add_stone_post); hide(ring_wf); hide(st); hide(touches);
    lemma_push_ctx(v, u, p, color, a, o, l);
    lemma_merging_w(u, u2, t);
    assert(id(u2, p) == id(u, p));
    lemma_extend_S(u2, u3, w, p, t);
    lemma_joins_list(v, u, p, color, a, o, l);
    assert(a.contains(a[0]));
    assert(joins(v, p, color, t));
    assert forall|c: int| #[trigger] joins(v, p, color, c) <==> c == t by {
        if joins(v, p, color, c) { assert(a.contains(c as usize)); }
    }
    assert forall|i: int| #![trigger id(w, i)] #![trigger id(v, i)] 0 <= i < 361 implies id(w, i) == (if i == p || joins(v, p, color, id(v, i)) { t } else { id(v, i) }) by {
        assert(id(w, i) == (if i == p { t } else { id(u2, i) })); assert(id(u2, i) == id(u, i)); assert(id(u, i) == id(v, i));
    }
    assert forall|c: int| #![trigger live(w, c)] #![trigger live(v, c)] c != t implies (live(w, c) <==> live(v, c) && !joins(v, p, color, c)) by {
        assert(live(w, c) == live(u2, c)); assert(live(u2, c) == live(u, c)); assert(live(u, c) == live(v, c));
    }
    assert forall|c: int, k: int| #![trigger lbit(ch(w, c).liberties, k)] live(w, c) && c != t && 0 <= k < 368 implies (lbit(ch(w, c).liberties, k) <==> lbit(ch(v, c).liberties, k) && k != p) by {
        assert(live(u2, c)); assert(live(v, c)); assert(ch(w, c) == ch(u2, c)); assert(ch(u2, c) == ch(u, c));
        lemma_opp_libs(v, u, p, color, a, o, l, c, k);
    }
    assert forall|c: int| #![trigger ch(w, c)] live(w, c) && c != t implies ch(w, c).color == ch(v, c).color by {
        assert(live(u2, c)); assert(live(v, c)); assert(ch(w, c) == ch(u2, c)); assert(ch(u2, c) == ch(u, c));
        lemma_ctx_color(v, u, p, color, a, o, l, c);
    }
    assert forall|k: int| #![trigger lbit(ch(w, t).liberties, k)] 0 <= k < 368 implies (lbit(ch(w, t).liberties, k) <==>
            k != p && ((k < 361 && id(v, k) == -1 && adj(v.size, p, k)) || exists|c: int| #[trigger] joins(v, p, color, c) && lbit(ch(v, c).liberties, k))) by {
        lemma_merging_libs(v, u, p, color, a, o, l, k);
        assert(lbit(ch(w, t).liberties, k) == lbit(ch(u2, t).liberties, k));
        if lib_in(u, a, k) {
            let c = choose|c: usize| #[trigger] a.contains(c) && lbit(ch(u, c as int).liberties, k);
            assert(c == a[0]);
        }
        if lbit(ch(u, t).liberties, k) { assert(lib_in(u, a, k)); }
        if k == p { assert(!l.contains(p as usize)); }
    }
}

/// Liberties of a group that the new stone does not join.
pub proof fn lemma_opp_libs(v: GV, u: GV, p: int, color: Color, a: Seq<usize>, o: Seq<usize>, l: Seq<usize>, c: int, k: int)
    requires push_ctx(v, u, p, color, a, o, l), live(v, c), !joins(v, p, color, c), 0 <= k < 368,
    ensures lbit(ch(u, c).liberties, k) <==> lbit(ch(v, c).liberties, k) && k != p,
{
    assert(v.chains.len() <= 361);
    assert(lbit(ch(u, c).liberties, k) <==> lbit(ch(v, c).liberties, k) && !(k == p && o.contains(c as usize)));
    assert(o.contains(c as usize) <==> opposes(v, p, color, c));
    if k == p && lbit(ch(v, c).liberties, k) {
        assert(islib(v, c, p));
        assert(touches(v, c, p));
        assert(opposes(v, p, color, c));
    }
}

pub proof fn lemma_pushed_cols(v: GV, w: GV, p: int, color: Color, t: int)
    requires inv(v), 0 <= p < cells(v.size), id(v, p) == -1, pushed(v, w, p, color, t),
    ensures cols(w) == cols(v).update(p, Some(color)), id(w, p) == t,
{
    lemma_cells(v.size);
    assert forall|i: int| 0 <= i < cells(v.size) implies #[trigger] col(w, i) == (if i == p { Some(color) } else { col(v, i) }) by {
        assert(id(w, i) == (if i == p || joins(v, p, color, id(v, i)) { t } else { id(v, i) }));
        if i != p && id(v, i) != -1 {
            assert(live(v, id(v, i)));
            assert(live(w, id(w, i)));
        }
    }
    assert(cols(w) =~= cols(v).update(p, Some(color)));
}

#[verifier::spinoff_prover]
pub proof fn lemma_pushed_L(v: GV, w: GV, p: int, color: Color, t: int)
    requires inv(v), 0 <= p < cells(v.size), id(v, p) == -1, pushed(v, w, p, color, t),
    ensures L(w),
{
    lemma_cells(v.size);
    assert forall|c: int, k: int| #![trigger live(w, c), lbit(ch(w, c).liberties, k)] live(w, c) && 0 <= k < 368 implies (lbit(ch(w, c).liberties, k) <==> islib(w, c, k)) by {
        if 0 <= k < 361 { assert(id(w, k) == (if k == p || joins(v, p, color, id(v, k)) { t } else { id(v, k) })); }
        if c != t {
            assert(live(v, c) && !joins(v, p, color, c));
            assert(lbit(ch(v, c).liberties, k) <==> islib(v, c, k));
            if islib(v, c, k) && k != p {
                let j = choose|j: int| #[trigger] adj(v.size, k, j) && id(v, j) == c;
                assert(id(w, j) == c);
                assert(adj(w.size, k, j));
            }
            if islib(w, c, k) {
                let j = choose|j: int| #[trigger] adj(w.size, k, j) && id(w, j) == c;
                assert(id(v, j) == c);
                assert(adj(v.size, k, j));
            }
        } else {
            if lbit(ch(w, t).liberties, k) {
                assert(k != p);
                if k < 361 && id(v, k) == -1 && adj(v.size, p, k) {
                    assert(id(w, p) == t);
                    assert(adj(w.size, k, p));
                } else {
                    let d = choose|d: int| #[trigger] joins(v, p, color, d) && lbit(ch(v, d).liberties, k);
                    assert(live(v, d));
                    assert(islib(v, d, k));
                    let j = choose|j: int| #[trigger] adj(v.size, k, j) && id(v, j) == d;
                    assert(id(w, j) == t);
                    assert(adj(w.size, k, j));
                }
                assert(islib(w, t, k));
            }
            if islib(w, t, k) {
                let j = choose|j: int| #[trigger] adj(w.size, k, j) && id(w, j) == t;
                assert(k != p);
                assert(id(v, k) == -1);
                if j == p { assert(adj(v.size, p, k)); }
                else {
                    let d = id(v, j);
                    assert(d == id(v, j));
                    assert(id(w, j) == (if j == p || joins(v, p, color, id(v, j)) { t } else { id(v, j) }));
                    assert(live(v, d));
                    assert(joins(v, p, color, d));
                    assert(adj(v.size, k, j));
                    assert(islib(v, d, k));
                    assert(lbit(ch(v, d).liberties, k));
                }
            }
        }
    }
}

#[verifier::spinoff_prover]
pub proof fn lemma_pushed_MK(v: GV, w: GV, p: int, color: Color, t: int)
    requires inv(v), 0 <= p < cells(v.size), id(v, p) == -1, pushed(v, w, p, color, t),
    ensures M(w), K(w),
{
    lemma_cells(v.size);
    lemma_pushed_cols(v, w, p, color, t);
    let (cv, cw) = (cols(v), cols(w));
    assert forall|i: int| 0 <= i < cells(v.size) implies #[trigger] col(w, i) == (if i == p { Some(color) } else { col(v, i) }) by {
        assert(cw[i] == col(w, i)); assert(cv[i] == col(v, i));
    }
    assert forall|i: int, j: int| #[trigger] adj(w.size, i, j) && id(w, i) != -1 && id(w, j) != -1 && col(w, i) == col(w, j) implies id(w, i) == id(w, j) by {
        assert(adj(v.size, i, j));
        lemma_adj_sym(v.size, i, j);
        assert(id(w, i) == (if i == p || joins(v, p, color, id(v, i)) { t } else { id(v, i) }));
        assert(id(w, j) == (if j == p || joins(v, p, color, id(v, j)) { t } else { id(v, j) }));
        if i == p {
            assert(i != j);
            assert(id(v, j) != -1);
            assert(live(v, id(v, j)));
            assert(touches(v, id(v, j), p));
            assert(joins(v, p, color, id(v, j)));
        } else if j == p {
            assert(adj(v.size, p, i));
            assert(id(v, i) != -1);
            assert(live(v, id(v, i)));
            assert(touches(v, id(v, i), p));
            assert(joins(v, p, color, id(v, i)));
        } else {
            assert(id(v, i) == id(v, j));
        }
    }
    assert forall|i: int, j: int| #![trigger id(w, i), id(w, j)] 0 <= i < cells(w.size) && 0 <= j < cells(w.size) && id(w, i) != -1 && id(w, i) == id(w, j) implies linked(cw, w.size, i, j) by {
        if id(w, i) == t {
            lemma_joined_linked(v, w, p, color, t, i);
            lemma_joined_linked(v, w, p, color, t, j);
            lemma_linked_sym(cw, w.size, j, p);
            lemma_linked_trans(cw, w.size, i, p, j);
        } else {
            assert(id(v, i) == id(v, j));
            assert(linked(cv, v.size, i, j));
            assert forall|k: int| 0 <= k < cells(v.size) && cv[k] == cv[i] implies #[trigger] cw[k] == cv[k] by {
                assert(cv[i] == col(v, i)); assert(cv[k] == col(v, k)); if k == p { assert(col(v, p) is None); }
            }
            lemma_linked_frame(cv, cw, v.size, i, j);
        }
    }
}

pub proof fn lemma_joined_linked(v: GV, w: GV, p: int, color: Color, t: int, i: int)
    requires
        inv(v), 0 <= p < cells(v.size), id(v, p) == -1, pushed(v, w, p, color, t),
        0 <= i < cells(v.size), id(w, i) == t,
    ensures linked(cols(w), w.size, i, p),
{
    lemma_cells(v.size);
    lemma_pushed_cols(v, w, p, color, t);
    let (cv, cw) = (cols(v), cols(w));
    if i == p { lemma_linked_refl(cw, w.size, p); }
    else {
        assert(id(w, i) == (if i == p || joins(v, p, color, id(v, i)) { t } else { id(v, i) }));
        let c = id(v, i);
        assert(live(v, c));
        assert(joins(v, p, color, c));
        let j = choose|j: int| #[trigger] adj(v.size, p, j) && id(v, j) == c;
        assert(linked(cv, v.size, i, j));
        assert(cv[i] == col(v, i) && cv[i] == Some(color));
        assert forall|k: int| 0 <= k < cells(v.size) && cv[k] == cv[i] implies #[trigger] cw[k] == cv[k] by {
            assert(cv[k] == col(v, k)); if k == p { assert(col(v, p) is None); }
        }
        lemma_linked_frame(cv, cw, v.size, i, j);
        lemma_adj_sym(v.size, p, j);
        assert(cv[j] == col(v, j));
        assert(j != p);
        assert(cw[j] == cv[j]);
        assert(cw[p] == Some(color));
        lemma_linked_edge(cw, v.size, j, p);
        lemma_linked_trans(cw, v.size, i, j, p);
    }
}

pub proof fn lemma_push_done(v: GV, w: GV, x: GV, p: int, color: Color, t: int)
    requires
        inv(v), 0 <= p < cells(v.size), id(v, p) == -1, pushed(v, w, p, color, t),
        x == (GV { z: w.z ^ zkey(p, color), ..w }),
    ensures inv(x), S(x), live(x, t), cols(x) == cols(v).update(p, Some(color)), id(x, p) == t, ch(x, t).color == color, x.size == v.size,
{
    lemma_cells(v.size);
    lemma_pushed_cols(v, w, p, color, t);
    lemma_pushed_L(v, w, p, color, t);
    lemma_pushed_MK(v, w, p, color, t);
    lemma_same_but_z(w, x);
    assert(cols(v)[p] == col(v, p));
    lemma_zfold_update(cols(v), p, Some(color), cells(v.size));
}

pub proof fn lemma_same_but_z(w: GV, x: GV)
    requires x == (GV { z: x.z, ..w }),
    ensures
        cols(x) == cols(w), S(w) ==> S(x), L(w) ==> L(x), M(w) ==> M(x), K(w) ==> K(x),
        forall|i: int| #[trigger] id(x, i) == id(w, i),
        forall|c: int| #[trigger] live(x, c) == live(w, c),
        forall|c: int| #[trigger] ch(x, c) == ch(w, c),
{
    assert forall|i: int| #[trigger] id(x, i) == id(w, i) by { }
    assert forall|c: int| #[trigger] live(x, c) == live(w, c) by { }
    assert forall|c: int| #[trigger] ch(x, c) == ch(w, c) by { }
    assert forall|c: int| #[trigger] st(x, c) == st(w, c) by { }
    assert(cols(x) =~= cols(w));
    if S(w) {
        assert forall|c: int| #[trigger] live(x, c) implies ring_wf(x, c) by { assert(live(w, c)); }
        assert forall|c: int, i: int| #![trigger live(x, c), id(x, i)] live(x, c) && 0 <= i < 361 implies (id(x, i) == c <==> st(x, c).contains(i)) by {
            assert(live(w, c)); assert(id(w, i) == c <==> st(w, c).contains(i));
        }
        assert forall|i: int| cells(x.size) <= i < 361 implies #[trigger] id(x, i) == -1 by { assert(id(w, i) == -1); }
        assert forall|i: int| 0 <= i < 361 && #[trigger] id(x, i) != -1 implies live(x, id(x, i)) by { assert(live(w, id(w, i))); }
    }
    if L(w) {
        assert forall|c: int, k: int| #![trigger live(x, c), lbit(ch(x, c).liberties, k)] live(x, c) && 0 <= k < 368 implies (lbit(ch(x, c).liberties, k) <==> islib(x, c, k)) by {
            assert(live(w, c)); assert(lbit(ch(w, c).liberties, k) <==> islib(w, c, k));
            if islib(w, c, k) { let j = choose|j: int| #[trigger] adj(w.size, k, j) && id(w, j) == c; assert(adj(x.size, k, j) && id(x, j) == c); }
            if islib(x, c, k) { let j = choose|j: int| #[trigger] adj(x.size, k, j) && id(x, j) == c; assert(adj(w.size, k, j) && id(w, j) == c); }
        }
    }
    if M(w) {
        assert forall|i: int, j: int| #[trigger] adj(x.size, i, j) && id(x, i) != -1 && id(x, j) != -1 && col(x, i) == col(x, j) implies id(x, i) == id(x, j) by {
            assert(adj(w.size, i, j)); assert(id(x, i) == id(w, i)); assert(id(x, j) == id(w, j));
        }
    }
    if K(w) {
        assert forall|i: int, j: int| #![trigger id(x, i), id(x, j)] 0 <= i < cells(x.size) && 0 <= j < cells(x.size) && id(x, i) != -1 && id(x, i) == id(x, j) implies linked(cols(x), x.size, i, j) by {
            assert(id(x, i) == id(w, i)); assert(id(x, j) == id(w, j));
        }
    }
}


pub proof fn lemma_nolib(v: GV, c: int)
    ensures nolib(v, c) <==> lset(ch(v, c).liberties) == Set::<int>::empty(),
{
    let l = ch(v, c).liberties;
    if nolib(v, c) { assert(lset(l) =~= Set::<int>::empty()); }
    if lset(l) == Set::<int>::empty() {
        assert forall|k: int| 0 <= k < 368 implies !#[trigger] lbit(l, k) by { assert(!lset(l).contains(k)); }
    }
}

pub open spec fn dead_spec(w: GV, pre: Seq<usize>, d: Seq<usize>) -> bool {
    &&& d.no_duplicates() && d.len() <= pre.len()
    &&& forall|c: usize| #![trigger d.contains(c)] d.contains(c) <==> pre.contains(c) && nolib(w, c as int)
}

pub proof fn lemma_opp_start(v: GV, s: Seq<usize>)
    ensures opp_mid(v, v, 0, Seq::<usize>::empty()), forall|p: int| #[trigger] opp_mid(v, v, p, Seq::<usize>::empty()), dead_spec(v, Seq::<usize>::empty(), Seq::<usize>::empty()),
{
}

#[verifier::spinoff_prover]
pub proof fn lemma_opp_step(v: GV, w0: GV, w1: GV, p: int, s: Seq<usize>, n: int, d0: Seq<usize>, d1: Seq<usize>)
    requires
        S(v), opp_mid(v, w0, p, s.subrange(0, n)), s.no_duplicates(), 0 <= n < s.len(), live(v, s[n] as int),
        dead_spec(w0, s.subrange(0, n), d0),
        w1 == (GV { chains: w1.chains, ..w0 }), w1.chains == w0.chains.update(s[n] as int, w1.chains[s[n] as int]),
        live(w1, s[n] as int), same_but_libs(ch(w0, s[n] as int), ch(w1, s[n] as int)),
        forall|k: int| 0 <= k < 368 ==> (#[trigger] lbit(ch(w1, s[n] as int).liberties, k) == (k != p && lbit(ch(w0, s[n] as int).liberties, k))),
        d1 == (if lset(ch(w1, s[n] as int).liberties) == Set::<int>::empty() { d0.push(s[n]) } else { d0 }),
    ensures opp_mid(v, w1, p, s.subrange(0, n + 1)), dead_spec(w1, s.subrange(0, n + 1), d1),
{
    let (pre0, pre) = (s.subrange(0, n), s.subrange(0, n + 1));
    let a = s[n] as int;
    lemma_prefix_contains(s, n);
    lemma_push_contains(d0, s[n]);
    lemma_nolib(w1, a);
    assert(!pre0.contains(s[n])) by {
        if pre0.contains(s[n]) { let j = choose|j: int| 0 <= j < n && pre0[j] == s[n]; assert(s[j] == s[n]); }
    }
    assert(live(w0, a));
    assert(v.chains.len() <= 361);
    assert forall|c: int| c != a implies #[trigger] ch(w1, c) == ch(w0, c) by { if 0 <= c < w0.chains.len() { assert(w1.chains[c] == w0.chains[c]); } else { assert(w1.chains[c] == w0.chains[c]); } }
    assert forall|c: int| #![trigger live(w1, c)] #![trigger live(v, c)] live(w1, c) == live(v, c) by { assert(live(w0, c) == live(v, c)); }
    assert forall|c: int| #![trigger ch(w1, c)] #![trigger ch(v, c)] live(v, c) implies same_but_libs(ch(v, c), ch(w1, c)) by { assert(same_but_libs(ch(v, c), ch(w0, c))); if c != a { assert(ch(w1, c) == ch(w0, c)); } }
    assert forall|c: int, k: int| #![trigger lbit(ch(w1, c).liberties, k)] live(v, c) && 0 <= k < 368 implies
            (lbit(ch(w1, c).liberties, k) <==> lbit(ch(v, c).liberties, k) && !(k == p && pre.contains(c as usize))) by {
        assert(lbit(ch(w0, c).liberties, k) <==> lbit(ch(v, c).liberties, k) && !(k == p && pre0.contains(c as usize)));
        if c != a { assert(ch(w1, c) == ch(w0, c)); }
    }
    assert forall|c: usize| pre0.contains(c) implies nolib(w1, c as int) == nolib(w0, c as int) by { assert(c as int != a); assert(ch(w1, c as int) == ch(w0, c as int)); }
    if d0.contains(s[n]) { }
    assert forall|c: usize| #![trigger d1.contains(c)] d1.contains(c) <==> pre.contains(c) && nolib(w1, c as int) by {
        assert(d0.contains(c) <==> pre0.contains(c) && nolib(w0, c as int));
    }
    assert(!d0.contains(s[n]));
    assert(d1.no_duplicates()) by {
        if d1.len() > d0.len() {
            assert forall|i: int, j: int| 0 <= i < d1.len() && 0 <= j < d1.len() && i != j implies d1[i] != d1[j] by {
                if i < d0.len() { assert(d0.contains(d0[i])); }
                if j < d0.len() { assert(d0.contains(d0[j])); }
            }
        }
    }
}

/// The answer about dead opposing groups, restated for the final board.
/// c is an opposing neighbour of p without liberties.
pub open spec fn kills(w: GV, p: int, color: Color, c: int) -> bool {
    live(w, c) && ch(w, c).color != color && touches(w, c, p) && nolib(w, c)
}

pub proof fn lemma_lookup(v: GV, i: int)
    requires S(v), 0 <= i < 361,
    ensures id(v, i) != -1 ==> live(v, id(v, i)) && id(v, i) < 361, id(v, i) == -1 <==> v.board[i] is None, id(v, i) != -1 ==> i < cells(v.size),
{
}

#[verifier::spinoff_prover]
pub proof fn lemma_push_dead(v: GV, u: GV, w: GV, x: GV, p: int, color: Color, t: int, o: Seq<usize>, d: Seq<usize>)
    requires
        inv(v), 0 <= p < cells(v.size), id(v, p) == -1, opp_mid(v, u, p, o), dead_spec(u, o, d), pushed(v, w, p, color, t),
        x == (GV { z: x.z, ..w }),
        forall|c: usize| #![trigger o.contains(c)] #![trigger opposes(v, p, color, c as int)] o.contains(c) <==> opposes(v, p, color, c as int),
    ensures
        d.no_duplicates(),
        forall|c: usize| #![trigger d.contains(c)] d.contains(c) <==> kills(x, p, color, c as int),
{
    lemma_cells(v.size);
    lemma_pushed_cols(v, w, p, color, t);
    assert forall|c: usize| #![trigger d.contains(c)] d.contains(c) <==> kills(x, p, color, c as int) by {
        lemma_kills_z(w, x, p, color, c as int);
        let c = c as int;
        assert(d.contains(c as usize) <==> o.contains(c as usize) && nolib(u, c));
        assert(o.contains(c as usize) <==> opposes(v, p, color, c));
        if c != t {
            assert(live(w, c) <==> live(v, c) && !joins(v, p, color, c));
            if live(w, c) {
                assert(ch(w, c).color == ch(v, c).color);
                if touches(v, c, p) {
                    let j = choose|j: int| #[trigger] adj(v.size, p, j) && id(v, j) == c;
                    assert(adj(w.size, p, j) && id(w, j) == c);
                }
                if touches(w, c, p) {
                    let j = choose|j: int| #[trigger] adj(w.size, p, j) && id(w, j) == c;
                    assert(adj(v.size, p, j) && id(v, j) == c);
                }
                if opposes(v, p, color, c) {
                    assert forall|k: int| 0 <= k < 368 implies lbit(ch(u, c).liberties, k) == lbit(ch(w, c).liberties, k) by { }
                    if nolib(u, c) { assert forall|k: int| 0 <= k < 368 implies !#[trigger] lbit(ch(w, c).liberties, k) by { assert(!lbit(ch(u, c).liberties, k)); } }
                    if nolib(w, c) { assert forall|k: int| 0 <= k < 368 implies !#[trigger] lbit(ch(u, c).liberties, k) by { assert(!lbit(ch(w, c).liberties, k)); } }
                }
            }
        } else {
            if live(v, t) { assert(joins(v, p, color, t)); }
        }
    }
}


pub proof fn lemma_opp_head(v: GV, w: GV, p: int, color: Color, o: Seq<usize>, n: int, d: Seq<usize>)
    requires
        inv(v), 0 <= p < cells(v.size), id(v, p) == -1, 0 <= n < o.len(), o.no_duplicates(),
        opp_mid(v, w, p, o.subrange(0, n)), dead_spec(w, o.subrange(0, n), d),
        forall|c: usize| #![trigger o.contains(c)] #![trigger opposes(v, p, color, c as int)] o.contains(c) <==> opposes(v, p, color, c as int),
    ensures live(v, o[n] as int), live(w, o[n] as int), lbit(ch(w, o[n] as int).liberties, p), p < 361, d.len() <= n,
        w == (GV { chains: w.chains, ..v }),
{
    lemma_cells(v.size);
    let c = o[n] as int;
    assert(o.contains(o[n]));
    assert(opposes(v, p, color, c));
    assert(islib(v, c, p));
    let pre0 = o.subrange(0, n);
    assert(!pre0.contains(o[n])) by {
        if pre0.contains(o[n]) { let j = choose|j: int| 0 <= j < n && pre0[j] == o[n]; assert(o[j] == o[n]); }
    }
    assert(lbit(ch(v, c).liberties, p));
}

pub proof fn lemma_push_ctx(v: GV, u: GV, p: int, color: Color, a: Seq<usize>, o: Seq<usize>, l: Seq<usize>)
    requires push_ctx(v, u, p, color, a, o, l),
    ensures
        id(u, p) == -1, 0 <= p < cells(v.size), cells(u.size) <= 361, S(u), u.size == v.size, u.z == v.z, u.board.len() == 361,
        forall|i: int| 0 <= i < l.len() ==> #[trigger] l[i] < 361,
        !l.contains(p as usize),
        forall|i: int| 0 <= i < a.len() ==> live(v, #[trigger] a[i] as int) && live(u, a[i] as int) && a[i] < 361 && ch(u, a[i] as int).color == color && lbit(ch(u, a[i] as int).liberties, p),
{
    lemma_cells(v.size);
    lemma_libs_only(v, u);
    assert(id(u, p) == id(v, p));
    assert forall|i: int| 0 <= i < l.len() implies #[trigger] l[i] < 361 by { assert(l.contains(l[i])); }
    assert forall|i: int| 0 <= i < a.len() implies live(v, #[trigger] a[i] as int) && live(u, a[i] as int) && a[i] < 361 && ch(u, a[i] as int).color == color && lbit(ch(u, a[i] as int).liberties, p) by {
        let c = a[i] as int;
        assert(a.contains(a[i]));
        assert(joins(v, p, color, c));
        assert(islib(v, c, p));
        assert(lbit(ch(v, c).liberties, p));
        assert(!opposes(v, p, color, c));
        assert(!o.contains(a[i]));
        assert(same_but_libs(ch(v, c), ch(u, c)));
        assert(live(u, c) == live(v, c));
    }
}

pub proof fn lemma_extend_pre(v: GV, u: GV, u2: GV, p: int, color: Color, a: Seq<usize>, o: Seq<usize>, l: Seq<usize>)
    requires push_ctx(v, u, p, color, a, o, l), a.len() == 1, libs_set(u, u2, a[0] as int),
    ensures S(u2), live(u2, a[0] as int), ring_wf(u2, a[0] as int), !st(u2, a[0] as int).contains(p), ch(u2, a[0] as int).num_stones < 65535, u2.next.len() == 361, u2.board.len() == 361,
{
    lemma_cells(v.size);
    lemma_push_ctx(v, u, p, color, a, o, l);
    lemma_libs_set(u, u2, a[0] as int);
    lemma_libs_only(u, u2);
    let c = a[0] as int;
    lemma_chain(u2, c);
    assert(id(u2, p) == id(u, p));
    if st(u2, c).contains(p) { assert(id(u2, p) == c); }
}

pub proof fn lemma_merge_head(u: GV, m: GV, p: int, color: Color, t: int, a: Seq<usize>, n: int, l: Seq<usize>)
    requires
        S(u), 0 <= n < a.len(), a.no_duplicates(), live(u, a[n] as int), ch(u, a[n] as int).color == color,
        merging(u, m, p, color, t, a.subrange(0, n), l),
    ensures live(m, a[n] as int), a[n] != t, ch(m, a[n] as int).color == color,
{
    let pre0 = a.subrange(0, n);
    assert(!pre0.contains(a[n])) by {
        if pre0.contains(a[n]) { let j = choose|j: int| 0 <= j < n && pre0[j] == a[n]; assert(a[j] == a[n]); }
    }
    assert(a[n] != t) by { if a[n] == t { assert(live(u, t)); assert(t as usize == a[n]); } }
    assert(live(m, a[n] as int));
    assert(ch(m, a[n] as int) == ch(u, a[n] as int));
}

pub proof fn lemma_merge_p(v: GV, u: GV, m: GV, p: int, color: Color, t: int, a: Seq<usize>, o: Seq<usize>, l: Seq<usize>)
    requires push_ctx(v, u, p, color, a, o, l), merging(u, m, p, color, t, a, l), a.len() > 0,
    ensures live(m, t), lbit(ch(m, t).liberties, p), p < 361,
{
    lemma_cells(v.size);
    lemma_push_ctx(v, u, p, color, a, o, l);
    assert(a.contains(a[0]));
    assert(lbit(ch(u, a[0] as int).liberties, p));
    assert(lib_in(u, a, p));
}


pub proof fn lemma_kills_z(w: GV, x: GV, p: int, color: Color, c: int)
    requires x == (GV { z: x.z, ..w }),
    ensures kills(x, p, color, c) == kills(w, p, color, c),
{
    lemma_same_but_z(w, x);
    if touches(w, c, p) { let j = choose|j: int| #[trigger] adj(w.size, p, j) && id(w, j) == c; assert(adj(x.size, p, j) && id(x, j) == c); }
    if touches(x, c, p) { let j = choose|j: int| #[trigger] adj(x.size, p, j) && id(x, j) == c; assert(adj(w.size, p, j) && id(w, j) == c); }
}


pub proof fn lemma_add_facts(v: GV, w: GV, c: int, p: int)
    requires add_stone_post(v, w, c, p),
    ensures w.board == v.board, w.size == v.size, w.z == v.z,
{ }

} // verus!
