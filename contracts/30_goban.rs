verus! {

// ================================================================ the board, abstractly
/// Adjacent cells, by linear index.
pub open spec fn adj(s: (u8, u8), i: int, j: int) -> bool {
    0 <= i < cells(s) && 0 <= j < cells(s) && adjc(coord_of(s, i), coord_of(s, j))
}

pub struct GV {
    pub chains: Seq<Option<Group>>,
    pub board: Seq<Option<NonMaxU16>>,
    pub next: Seq<u16>,
    pub size: (u8, u8),
    pub z: u64,
}

impl Goban {
    pub open spec fn v(self) -> GV {
        GV { chains: self.chains.0@, board: self.board@, next: self.next_stone@, size: self.size, z: self.zobrist_hash }
    }
}

/// Number of the group on cell i, -1 if the cell is empty.
pub open spec fn id(v: GV, i: int) -> int {
    match v.board[i] { Some(n) => n.n as int, None => -1 }
}

pub open spec fn live(v: GV, c: int) -> bool { 0 <= c < v.chains.len() && v.chains[c] is Some }

pub open spec fn ch(v: GV, c: int) -> Group { v.chains[c].unwrap() }

/// The stones of group c, in ring order.
pub open spec fn st(v: GV, c: int) -> Seq<int> {
    ring(v.next, ch(v, c).origin as int, ch(v, c).num_stones as int)
}

pub open spec fn ring_wf(v: GV, c: int) -> bool {
    is_ring(v.next, st(v, c)) && ch(v, c).last == st(v, c).last()
}

/// Structure: groups and board describe each other.
pub open spec fn S(v: GV) -> bool {
    &&& size_ok(v.size)
    &&& v.board.len() == 361
    &&& v.next.len() == 361
    &&& v.chains.len() <= 361
    &&& forall|i: int| cells(v.size) <= i < 361 ==> #[trigger] id(v, i) == -1
    &&& forall|i: int| 0 <= i < 361 && #[trigger] id(v, i) != -1 ==> live(v, id(v, i))
    &&& forall|c: int| #[trigger] live(v, c) ==> ring_wf(v, c)
    &&& forall|c: int, i: int| #![trigger live(v, c), id(v, i)] live(v, c) && 0 <= i < 361 ==> (id(v, i) == c <==> st(v, c).contains(i))
}

pub open spec fn create_post(v: GV, w: GV, p: int, color: Color, c: int) -> bool {
    &&& w.size == v.size && w.z == v.z
    &&& forall|d: int| #![trigger live(w, d)] #![trigger live(v, d)] d != c ==> live(w, d) == live(v, d)
    &&& forall|d: int| #![trigger ch(w, d)] #![trigger ch(v, d)] d != c && live(v, d) ==> ch(w, d) == ch(v, d)
    &&& ch(w, c).color == color
    &&& ch(w, c).num_stones == 1
    &&& forall|i: int| 0 <= i < 361 ==> #[trigger] id(w, i) == (if i == p { c } else { id(v, i) })
}

pub open spec fn add_stone_post(v: GV, w: GV, c: int, p: int) -> bool {
    &&& w.size == v.size && w.z == v.z && w.board == v.board
    &&& w.next.len() == v.next.len()
    &&& w.chains.len() == v.chains.len()
    &&& live(w, c) && ring_wf(w, c)
    &&& forall|d: int| 0 <= d < v.chains.len() && d != c ==> #[trigger] w.chains[d] == v.chains[d]
    &&& st(w, c) == (if p < ch(v, c).origin { seq![p] + st(v, c) } else { st(v, c).push(p) })
    &&& ch(w, c).color == ch(v, c).color
    &&& ch(w, c).liberties == ch(v, c).liberties
    &&& ch(w, c).num_stones == ch(v, c).num_stones + 1
    &&& forall|i: int| 0 <= i < v.next.len() && i != p && i != ch(v, c).last ==> #[trigger] w.next[i] == v.next[i]
}

pub open spec fn merge_post(v: GV, w: GV, c: int, d: int) -> bool {
    &&& w.size == v.size && w.z == v.z
    &&& !live(w, d) && live(w, c)
    &&& forall|e: int| #![trigger live(w, e)] #![trigger live(v, e)] e != d ==> live(w, e) == live(v, e)
    &&& forall|e: int| #![trigger ch(w, e)] #![trigger ch(v, e)] e != c && e != d && live(v, e) ==> ch(w, e) == ch(v, e)
    &&& ch(w, c).color == ch(v, c).color
    &&& ch(w, c).num_stones == ch(v, c).num_stones + ch(v, d).num_stones
    &&& forall|k: int| 0 <= k < 368 ==> (#[trigger] lbit(ch(w, c).liberties, k) == (lbit(ch(v, c).liberties, k) || lbit(ch(v, d).liberties, k)))
    &&& forall|i: int| 0 <= i < 361 ==> #[trigger] id(w, i) == (if id(v, i) == d { c } else { id(v, i) })
}

pub open spec fn nbs_of(s: (u8, u8), p: (u8, u8), cs: Seq<(u8, u8)>) -> bool {
    &&& cs.no_duplicates()
    &&& forall|c: (u8, u8)| #![trigger cs.contains(c)] #![trigger valid(s, c)] cs.contains(c) <==> valid(s, c) && adjc(p, c)
}

pub proof fn lemma_neighbors_idx(s: (u8, u8), b: int, r: Seq<usize>, cs: Seq<(u8, u8)>)
    requires
        size_ok(s), 0 <= b < cells(s), nbs_of(s, coord_of(s, b), cs), cs.len() == r.len(),
        forall|i: int| #![trigger cs[i]] #![trigger r[i]] 0 <= i < cs.len() ==> r[i] == idx(s, cs[i]),
    ensures
        r.no_duplicates(),
        forall|i: usize| #![trigger r.contains(i)] #![trigger adj(s, b, i as int)] r.contains(i) <==> adj(s, b, i as int),
{
    lemma_cells(s);
    assert forall|i: int| 0 <= i < cs.len() implies valid(s, #[trigger] cs[i]) && coord_of(s, r[i] as int) == cs[i] && r[i] < cells(s) && adjc(coord_of(s, b), cs[i]) by {
        assert(cs.contains(cs[i]));
        lemma_idx(s, cs[i]);
    }
    assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies r[i] != r[j] by {
        assert(cs[i] != cs[j]);
        assert(coord_of(s, r[i] as int) == cs[i]);
        assert(coord_of(s, r[j] as int) == cs[j]);
    }
    assert forall|i: usize| #![trigger r.contains(i)] #![trigger adj(s, b, i as int)] r.contains(i) <==> adj(s, b, i as int) by {
        if r.contains(i) {
            let j = choose|j: int| 0 <= j < r.len() && r[j] == i;
            assert(coord_of(s, r[j] as int) == cs[j]);
        }
        if adj(s, b, i as int) {
            lemma_coord_of(s, i as int);
            let c = coord_of(s, i as int);
            assert(cs.contains(c));
            let j = choose|j: int| 0 <= j < cs.len() && cs[j] == c;
            assert(r[j] == i);
        }
    }
}

pub proof fn lemma_adj_sym(s: (u8, u8), i: int, j: int)
    ensures adj(s, i, j) == adj(s, j, i),
{
}

// ================================================================ rings
pub proof fn lemma_ring_frame(n0: Seq<u16>, n1: Seq<u16>, s: Seq<int>)
    requires is_ring(n0, s), n1.len() == n0.len(), forall|k: int| 0 <= k < s.len() ==> n1[#[trigger] s[k]] == n0[s[k]],
    ensures is_ring(n1, s), ring(n1, s[0], s.len() as int) == s,
{
    assert forall|k: int| 0 <= k < s.len() implies #[trigger] n1[s[k]] == s[if k + 1 < s.len() { k + 1 } else { 0 }] by {
        assert(n0[s[k]] == s[if k + 1 < s.len() { k + 1 } else { 0 }]);
    }
    lemma_ring_unique(n1, s);
}

pub proof fn lemma_nodup_bound(s: Seq<int>, n: int)
    requires s.no_duplicates(), n >= 0, forall|k: int| 0 <= k < s.len() ==> 0 <= #[trigger] s[k] < n,
    ensures s.len() <= n,
{
    s.unique_seq_to_set();
    let r = Set::<int>::range(0, n);
    assert(s.to_set().subset_of(r));
    vstd::set_lib::lemma_len_subset(s.to_set(), r);
    lemma_range_len(n);
}

pub proof fn lemma_range_len(n: int)
    requires n >= 0,
    ensures Set::<int>::range(0, n).len() == n,
    decreases n,
{
    if n == 0 {
        assert(Set::<int>::range(0, 0) =~= Set::<int>::empty());
    } else {
        lemma_range_len(n - 1);
        assert(Set::<int>::range(0, n) =~= Set::<int>::range(0, n - 1).insert(n - 1));
    }
}

/// Facts about one group of a well-formed board.
pub proof fn lemma_chain(v: GV, c: int)
    requires S(v), live(v, c),
    ensures
        ring_wf(v, c), st(v, c).len() == ch(v, c).num_stones, 1 <= ch(v, c).num_stones <= 361,
        st(v, c)[0] == ch(v, c).origin, 0 <= ch(v, c).origin < cells(v.size), id(v, ch(v, c).origin as int) == c,
        0 <= ch(v, c).last < cells(v.size), id(v, ch(v, c).last as int) == c,
        forall|k: int| 0 <= k < st(v, c).len() ==> 0 <= #[trigger] st(v, c)[k] < cells(v.size) && id(v, st(v, c)[k]) == c,
        cells(v.size) <= 361,
{
    let s = st(v, c);
    lemma_cells(v.size);
    assert(ring_wf(v, c));
    lemma_nodup_bound(s, 361);
    assert forall|k: int| 0 <= k < s.len() implies 0 <= #[trigger] s[k] < cells(v.size) && id(v, s[k]) == c by {
        assert(s.contains(s[k]));
        assert(id(v, s[k]) == c);
    }
    assert(s[0] == ch(v, c).origin);
    assert(s[s.len() - 1] == ch(v, c).last);
}

/// Two groups share no stone.
pub proof fn lemma_disjoint(v: GV, c: int, d: int)
    requires S(v), live(v, c), live(v, d), c != d,
    ensures forall|k: int, l: int| #![trigger st(v, c)[k], st(v, d)[l]] 0 <= k < st(v, c).len() && 0 <= l < st(v, d).len() ==> st(v, c)[k] != st(v, d)[l],
{
    lemma_chain(v, c);
    lemma_chain(v, d);
    assert forall|k: int, l: int| #![trigger st(v, c)[k], st(v, d)[l]] 0 <= k < st(v, c).len() && 0 <= l < st(v, d).len() implies st(v, c)[k] != st(v, d)[l] by {
        assert(id(v, st(v, c)[k]) == c);
        assert(id(v, st(v, d)[l]) == d);
    }
}

pub proof fn lemma_slots(v: GV, p: int)
    requires S(v), 0 <= p < cells(v.size), id(v, p) == -1, forall|c: int| 0 <= c < v.chains.len() ==> #[trigger] v.chains[c] is Some,
    ensures v.chains.len() < 361,
{
    lemma_cells(v.size);
    let s = Seq::new(v.chains.len(), |c: int| ch(v, c).origin as int).push(p);
    assert forall|k: int| 0 <= k < v.chains.len() implies 0 <= #[trigger] s[k] < 361 && id(v, s[k]) == k by {
        assert(live(v, k));
        lemma_chain(v, k);
    }
    assert(s[v.chains.len() as int] == p);
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by {
        if i < v.chains.len() { assert(id(v, s[i]) == i); } else { assert(s[i] == p); }
        if j < v.chains.len() { assert(id(v, s[j]) == j); } else { assert(s[j] == p); }
    }
    lemma_nodup_bound(s, 361);
}

// ================================================================ create_chain
/// After the slot and the ring of the new stone are written, before the board is.
pub open spec fn create_mid(v: GV, w: GV, p: int, c: int) -> bool {
    &&& w.size == v.size && w.z == v.z && w.board == v.board
    &&& w.next == v.next.update(p, p as u16)
    &&& 0 <= c < w.chains.len()
    &&& c < v.chains.len() ==> v.chains[c] is None && w.chains == v.chains.update(c, w.chains[c])
    &&& c >= v.chains.len() ==> c == v.chains.len() && w.chains == v.chains.push(w.chains[c]) && (forall|i: int| 0 <= i < v.chains.len() ==> #[trigger] v.chains[i] is Some)
    &&& w.chains[c] is Some
    &&& ch(w, c).origin == p && ch(w, c).last == p && ch(w, c).num_stones == 1
}

pub proof fn lemma_create_pre(v: GV, w: GV, p: int, c: int)
    requires S(v), 0 <= p < cells(v.size), id(v, p) == -1, create_mid(v, w, p, c),
    ensures live(w, c), ring_wf(w, c), st(w, c) == seq![p], c < 361, w.chains.len() <= 361,
{
    lemma_cells(v.size);
    let s = seq![p];
    assert(is_ring(w.next, s));
    lemma_ring_unique(w.next, s);
    if c >= v.chains.len() { lemma_slots(v, p); }
}

pub proof fn lemma_create(v: GV, m: GV, w: GV, p: int, c: int)
    requires
        S(v), 0 <= p < cells(v.size), id(v, p) == -1, create_mid(v, m, p, c),
        w == (GV { board: w.board, ..m }), w.board.len() == 361,
        forall|i: int| 0 <= i < 361 ==> #[trigger] id(w, i) == (if st(m, c).contains(i) { c } else { id(m, i) }),
    ensures
        S(w), create_post(v, w, p, ch(m, c).color, c), !live(v, c), live(w, c),
{
    lemma_create_pre(v, m, p, c);
    lemma_cells(v.size);
    assert(st(m, c) == seq![p]);
    assert(seq![p][0] == p);
    assert forall|i: int| 0 <= i < 361 implies #[trigger] id(w, i) == (if i == p { c } else { id(v, i) }) by {
        assert(id(m, i) == id(v, i));
        assert(seq![p].contains(i) <==> i == p);
    }
    assert forall|d: int| d != c implies live(w, d) == live(v, d) && (live(v, d) ==> ch(w, d) == ch(v, d)) by { }
    assert forall|d: int| #[trigger] live(w, d) implies ring_wf(w, d) by {
        if d != c { lemma_create_frame(v, w, p, d); }
    }
    assert forall|d: int, i: int| #![trigger live(w, d), id(w, i)] live(w, d) && 0 <= i < 361 implies (id(w, i) == d <==> st(w, d).contains(i)) by {
        if d != c {
            lemma_create_frame(v, w, p, d);
            assert(live(v, d));
            assert(id(v, i) == d <==> st(v, d).contains(i));
            if i == p { assert(id(v, p) == -1); }
        } else {
            assert(st(w, c) == st(m, c));
            assert(seq![p].contains(i) <==> i == p);
            if i != p && id(w, i) == c { assert(live(v, id(v, i))); }
        }
    }
    assert forall|i: int| 0 <= i < 361 && #[trigger] id(w, i) != -1 implies live(w, id(w, i)) by {
        if i != p { assert(live(v, id(v, i))); }
    }
    assert forall|i: int| cells(w.size) <= i < 361 implies #[trigger] id(w, i) == -1 by { assert(id(v, i) == -1); }
}

pub proof fn lemma_create_frame(v: GV, w: GV, p: int, d: int)
    requires S(v), 0 <= p < 361, id(v, p) == -1, live(v, d), live(w, d), ch(w, d) == ch(v, d), w.next == v.next.update(p, p as u16),
    ensures ring_wf(w, d), st(w, d) == st(v, d),
{
    lemma_chain(v, d);
    let s = st(v, d);
    assert forall|k: int| 0 <= k < s.len() implies w.next[#[trigger] s[k]] == v.next[s[k]] by { assert(id(v, s[k]) == d); }
    lemma_ring_frame(v.next, w.next, s);
}

// ================================================================ add_stone_to_chain
pub open spec fn add_mid(v: GV, w: GV, c: int, p: int) -> bool {
    let g = ch(v, c);
    &&& w.size == v.size && w.z == v.z && w.board == v.board
    &&& w.chains.len() == v.chains.len()
    &&& w.chains[c] is Some
    &&& forall|d: int| 0 <= d < v.chains.len() && d != c ==> #[trigger] w.chains[d] == v.chains[d]
    &&& w.next.len() == v.next.len()
    &&& forall|i: int| 0 <= i < v.next.len() ==> #[trigger] w.next[i] == (if i == p { g.origin } else if i == g.last { p as u16 } else { v.next[i] })
    &&& ch(w, c).color == g.color && ch(w, c).liberties == g.liberties && ch(w, c).num_stones == g.num_stones + 1
    &&& p < g.origin ==> ch(w, c).origin == p && ch(w, c).last == g.last
    &&& p >= g.origin ==> ch(w, c).origin == g.origin && ch(w, c).last == p
}

#[verifier::spinoff_prover]
pub proof fn lemma_add_stone(v: GV, w: GV, c: int, p: int)
    requires
        live(v, c), ring_wf(v, c), 0 <= p < v.next.len(), v.next.len() == 361, !st(v, c).contains(p), ch(v, c).num_stones < 65535,
        add_mid(v, w, c, p),
    ensures add_stone_post(v, w, c, p),
{
    let s = st(v, c);
    let n = s.len() as int;
    assert(s[0] == ch(v, c).origin);
    assert(s[n - 1] == ch(v, c).last);
    let t = if p < ch(v, c).origin { seq![p] + s } else { s.push(p) };
    let off: int = if p < ch(v, c).origin { 1 } else { 0 };
    assert forall|k: int| 0 <= k < n implies #[trigger] s[k] == t[k + off] by { }
    assert forall|k: int| 0 <= k < n implies s[k] != p by { assert(s.contains(s[k])); }
    assert forall|k: int| 0 <= k < t.len() implies 0 <= #[trigger] t[k] < 361 by {
        if 0 <= k - off < n { assert(t[k] == s[k - off]); }
    }
    assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by {
        if 0 <= i - off < n { assert(t[i] == s[i - off]); } else { assert(t[i] == p); }
        if 0 <= j - off < n { assert(t[j] == s[j - off]); } else { assert(t[j] == p); }
    }
    assert forall|k: int| 0 <= k < t.len() implies #[trigger] w.next[t[k]] == t[if k + 1 < t.len() { k + 1 } else { 0 }] by {
        if 0 <= k - off < n {
            let j = k - off;
            assert(t[k] == s[j]);
            assert(v.next[s[j]] == s[if j + 1 < n { j + 1 } else { 0 }]);
            if j + 1 < n { assert(s[j] != s[n - 1]); assert(t[k + 1] == s[j + 1]); }
        } else {
            assert(t[k] == p);
            assert(t[off] == s[0]);
        }
    }
    assert(is_ring(w.next, t));
    lemma_ring_unique(w.next, t);
    assert(t[0] == ch(w, c).origin);
    assert(st(w, c) == t);
}

// ================================================================ merge_strings
pub proof fn lemma_merge_pre(v: GV, c: int, d: int)
    requires S(v), live(v, c), live(v, d), c != d,
    ensures
        ch(v, c).num_stones + ch(v, d).num_stones <= 361, c < 361, d < 361,
        ring_wf(v, c), ring_wf(v, d),
        0 <= ch(v, c).last < 361, 0 <= ch(v, d).last < 361, ch(v, c).last != ch(v, d).last,
        st(v, c).len() == ch(v, c).num_stones, st(v, d).len() == ch(v, d).num_stones,
{
    lemma_chain(v, c);
    lemma_chain(v, d);
    lemma_disjoint(v, c, d);
    let t = st(v, c) + st(v, d);
    assert forall|k: int| 0 <= k < t.len() implies 0 <= #[trigger] t[k] < 361 by {
        if k < st(v, c).len() { assert(t[k] == st(v, c)[k]); } else { assert(t[k] == st(v, d)[k - st(v, c).len()]); }
    }
    assert(t.no_duplicates());
    lemma_nodup_bound(t, 361);
}

pub open spec fn merge_mid(v: GV, w: GV, c: int, d: int) -> bool {
    let (g, h) = (ch(v, c), ch(v, d));
    &&& w.size == v.size && w.z == v.z && w.board == v.board
    &&& w.chains.len() == v.chains.len()
    &&& w.chains[c] is Some
    &&& forall|e: int| 0 <= e < v.chains.len() && e != c ==> #[trigger] w.chains[e] == v.chains[e]
    &&& w.next == v.next.update(g.last as int, v.next[h.last as int]).update(h.last as int, v.next[g.last as int])
    &&& ch(w, c).color == g.color && ch(w, c).num_stones == g.num_stones + h.num_stones
    &&& g.origin > h.origin ==> ch(w, c).origin == h.origin && ch(w, c).last == g.last
    &&& g.origin <= h.origin ==> ch(w, c).origin == g.origin && ch(w, c).last == h.last
    &&& forall|k: int| 0 <= k < 368 ==> (#[trigger] lbit(ch(w, c).liberties, k) == (lbit(g.liberties, k) || lbit(h.liberties, k)))
}

pub open spec fn merged(v: GV, c: int, d: int) -> Seq<int> {
    if ch(v, c).origin > ch(v, d).origin { st(v, d) + st(v, c) } else { st(v, c) + st(v, d) }
}

#[verifier::spinoff_prover]
pub proof fn lemma_concat_ring(n0: Seq<u16>, n1: Seq<u16>, a: Seq<int>, b: Seq<int>)
    requires
        is_ring(n0, a), is_ring(n0, b), forall|k: int, l: int| #![trigger a[k], b[l]] 0 <= k < a.len() && 0 <= l < b.len() ==> a[k] != b[l],
        n1.len() == n0.len(),
        forall|i: int| 0 <= i < n0.len() && i != a.last() && i != b.last() ==> #[trigger] n1[i] == n0[i],
        n1[a.last()] == n0[b.last()], n1[b.last()] == n0[a.last()],
    ensures is_ring(n1, a + b),
{
    let t = a + b;
    let (m, n) = (a.len() as int, b.len() as int);
    assert(n0[a[m - 1]] == a[0]);
    assert(n0[b[n - 1]] == b[0]);
    assert forall|k: int| 0 <= k < t.len() implies 0 <= #[trigger] t[k] < n1.len() by {
        if k < m { assert(t[k] == a[k]); } else { assert(t[k] == b[k - m]); }
    }
    assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by {
        if i < m { assert(t[i] == a[i]); } else { assert(t[i] == b[i - m]); }
        if j < m { assert(t[j] == a[j]); } else { assert(t[j] == b[j - m]); }
    }
    assert forall|k: int| 0 <= k < t.len() implies #[trigger] n1[t[k]] == t[if k + 1 < t.len() { k + 1 } else { 0 }] by {
        lemma_concat_step(n0, n1, a, b, k);
    }
}

#[verifier::spinoff_prover]
pub proof fn lemma_concat_step(n0: Seq<u16>, n1: Seq<u16>, a: Seq<int>, b: Seq<int>, k: int)
    requires
        is_ring(n0, a), is_ring(n0, b), forall|k: int, l: int| #![trigger a[k], b[l]] 0 <= k < a.len() && 0 <= l < b.len() ==> a[k] != b[l],
        n1.len() == n0.len(), 0 <= k < a.len() + b.len(),
        forall|i: int| 0 <= i < n0.len() && i != a.last() && i != b.last() ==> #[trigger] n1[i] == n0[i],
        n1[a.last()] == n0[b.last()], n1[b.last()] == n0[a.last()],
    ensures n1[(a + b)[k]] == (a + b)[if k + 1 < a.len() + b.len() { k + 1 } else { 0 }],
{
    let t = a + b;
    let (m, n) = (a.len() as int, b.len() as int);
    if k < m {
        assert(t[k] == a[k]);
        assert(n0[a[k]] == a[if k + 1 < m { k + 1 } else { 0 }]);
        if k + 1 < m { assert(a[k] != a[m - 1]); assert(a[k] != b[n - 1]); assert(t[k + 1] == a[k + 1]); }
        else { assert(n0[b[n - 1]] == b[0]); assert(t[k + 1] == b[0]); }
    } else {
        let j = k - m;
        assert(t[k] == b[j]);
        assert(n0[b[j]] == b[if j + 1 < n { j + 1 } else { 0 }]);
        if j + 1 < n { assert(b[j] != b[n - 1]); assert(a[m - 1] != b[j]); assert(t[k + 1] == b[j + 1]); }
        else { assert(n0[a[m - 1]] == a[0]); assert(t[0] == a[0]); }
    }
}

pub proof fn lemma_merge_ring(v: GV, w: GV, c: int, d: int)
    requires S(v), live(v, c), live(v, d), c != d, merge_mid(v, w, c, d),
    ensures live(w, c), ring_wf(w, c), st(w, c) == merged(v, c, d), w.next.len() == 361,
{
    lemma_merge_pre(v, c, d);
    lemma_disjoint(v, c, d);
    lemma_disjoint(v, d, c);
    lemma_chain(v, c);
    lemma_chain(v, d);
    let (a, b) = (st(v, c), st(v, d));
    let t = merged(v, c, d);
    if ch(v, c).origin > ch(v, d).origin { lemma_concat_ring(v.next, w.next, b, a); } else { lemma_concat_ring(v.next, w.next, a, b); }
    lemma_ring_unique(w.next, t);
    assert(t[0] == ch(w, c).origin);
    assert(t.len() == ch(w, c).num_stones);
    assert(st(w, c) == t);
    assert(t.last() == ch(w, c).last);
}

#[verifier::spinoff_prover]
pub proof fn lemma_merge(v: GV, m: GV, w: GV, c: int, d: int)
    requires
        S(v), live(v, c), live(v, d), c != d, merge_mid(v, m, c, d),
        w.size == m.size, w.z == m.z, w.next == m.next, w.board.len() == 361,
        w.chains == m.chains.update(d, None),
        forall|i: int| 0 <= i < 361 ==> #[trigger] id(w, i) == (if st(m, c).contains(i) { c } else { id(m, i) }),
    ensures S(w), merge_post(v, w, c, d),
{
    lemma_merge_ring(v, m, c, d);
    lemma_chain(v, c);
    lemma_chain(v, d);
    lemma_cells(v.size);
    let t = merged(v, c, d);
    assert forall|i: int| t.contains(i) <==> st(v, c).contains(i) || st(v, d).contains(i) by {
        let (a, b) = if ch(v, c).origin > ch(v, d).origin { (st(v, d), st(v, c)) } else { (st(v, c), st(v, d)) };
        assert(t == a + b);
        if t.contains(i) {
            let k = choose|k: int| 0 <= k < t.len() && t[k] == i;
            if k < a.len() { assert(a[k] == i); } else { assert(b[k - a.len()] == i); }
        }
        if a.contains(i) { let k = choose|k: int| 0 <= k < a.len() && a[k] == i; assert(t[k] == i); }
        if b.contains(i) { let k = choose|k: int| 0 <= k < b.len() && b[k] == i; assert(t[k + a.len()] == i); }
    }
    assert forall|i: int| 0 <= i < 361 implies #[trigger] id(w, i) == (if id(v, i) == d { c } else { id(v, i) }) by {
        assert(id(m, i) == id(v, i));
        assert(id(v, i) == c <==> st(v, c).contains(i));
        assert(id(v, i) == d <==> st(v, d).contains(i));
    }
    assert(st(w, c) == t);
    assert forall|e: int| #[trigger] live(w, e) implies ring_wf(w, e) by {
        if e != c { lemma_merge_frame(v, w, c, d, e); }
    }
    assert forall|e: int, i: int| #![trigger live(w, e), id(w, i)] live(w, e) && 0 <= i < 361 implies (id(w, i) == e <==> st(w, e).contains(i)) by {
        assert(live(v, e));
        assert(id(v, i) == e <==> st(v, e).contains(i));
        if e != c { lemma_merge_frame(v, w, c, d, e); }
        else { assert(id(v, i) == d <==> st(v, d).contains(i)); }
    }
    assert forall|i: int| 0 <= i < 361 && #[trigger] id(w, i) != -1 implies live(w, id(w, i)) by {
        assert(live(v, id(v, i)));
    }
    assert forall|i: int| cells(w.size) <= i < 361 implies #[trigger] id(w, i) == -1 by { assert(id(v, i) == -1); }
}

pub proof fn lemma_merge_frame(v: GV, w: GV, c: int, d: int, e: int)
    requires
        S(v), live(v, c), live(v, d), live(v, e), live(w, e), ch(w, e) == ch(v, e), e != c, e != d,
        w.next == v.next.update(ch(v, c).last as int, v.next[ch(v, d).last as int]).update(ch(v, d).last as int, v.next[ch(v, c).last as int]),
    ensures ring_wf(w, e), st(w, e) == st(v, e),
{
    lemma_chain(v, e);
    lemma_chain(v, c);
    lemma_chain(v, d);
    let s = st(v, e);
    assert forall|k: int| 0 <= k < s.len() implies w.next[#[trigger] s[k]] == v.next[s[k]] by { assert(id(v, s[k]) == e); }
    lemma_ring_frame(v.next, w.next, s);
}

} // verus!
