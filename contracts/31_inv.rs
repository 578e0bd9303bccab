verus! {

// ================================================================ colours, linked cells, liberties, hash
pub open spec fn col(v: GV, i: int) -> Option<Color> {
    if id(v, i) == -1 { None } else { Some(ch(v, id(v, i)).color) }
}

/// The position: one colour or nothing per cell, row-major.
pub open spec fn cols(v: GV) -> Seq<Option<Color>> {
    Seq::new(cells(v.size) as nat, |i: int| col(v, i))
}

pub open spec fn is_path(cs: Seq<Option<Color>>, s: (u8, u8), path: Seq<int>, i: int, j: int) -> bool {
    &&& path.len() >= 1
    &&& path[0] == i
    &&& path[path.len() - 1] == j
    &&& forall|k: int| 0 <= k < path.len() ==> 0 <= #[trigger] path[k] < cells(s) && cs[path[k]] == cs[i]
    &&& forall|k: int| 0 <= k < path.len() - 1 ==> adj(s, #[trigger] path[k], path[k + 1])
}

/// i and j hold the same thing (black, white or nothing) and a chain of adjacent cells holding it joins them.
pub open spec fn linked(cs: Seq<Option<Color>>, s: (u8, u8), i: int, j: int) -> bool {
    exists|path: Seq<int>| is_path(cs, s, path, i, j)
}

/// Group c has a stone adjacent to cell k.
pub open spec fn touches(v: GV, c: int, k: int) -> bool {
    exists|j: int| #[trigger] adj(v.size, k, j) && id(v, j) == c
}

pub open spec fn islib(v: GV, c: int, k: int) -> bool {
    0 <= k < cells(v.size) && id(v, k) == -1 && touches(v, c, k)
}

pub open spec fn L(v: GV) -> bool {
    forall|c: int, k: int| #![trigger live(v, c), lbit(ch(v, c).liberties, k)] live(v, c) && 0 <= k < 368 ==> (lbit(ch(v, c).liberties, k) <==> islib(v, c, k))
}

pub open spec fn M(v: GV) -> bool {
    forall|i: int, j: int| #[trigger] adj(v.size, i, j) && id(v, i) != -1 && id(v, j) != -1 && col(v, i) == col(v, j) ==> id(v, i) == id(v, j)
}

pub open spec fn K(v: GV) -> bool {
    forall|i: int, j: int| #![trigger id(v, i), id(v, j)] 0 <= i < cells(v.size) && 0 <= j < cells(v.size) && id(v, i) != -1 && id(v, i) == id(v, j) ==> linked(cols(v), v.size, i, j)
}

/// The key of a stone in the position hash (the table behind index_zobrist).
pub uninterp spec fn ztab() -> Seq<u64>;
pub open spec fn zkey(i: int, c: Color) -> u64 { ztab()[i + 361 * (c.disc() - 1)] }

pub open spec fn zcell(x: Option<Color>, i: int) -> u64 {
    match x { Some(c) => zkey(i, c), None => 0u64 }
}

/// XOR of the keys of the stones on the first n cells.
pub open spec fn zfold(cs: Seq<Option<Color>>, n: int) -> u64
    decreases n,
{
    if n <= 0 { 0u64 } else { zfold(cs, n - 1) ^ zcell(cs[n - 1], n - 1) }
}

pub open spec fn Z(v: GV) -> bool { v.z == zfold(cols(v), cells(v.size)) }

/// The representation invariant of a board.
pub open spec fn inv(v: GV) -> bool { S(v) && L(v) && M(v) && K(v) && Z(v) }

// ---------------------------------------------------------------- paths
pub proof fn lemma_linked_refl(cs: Seq<Option<Color>>, s: (u8, u8), i: int)
    requires 0 <= i < cells(s),
    ensures linked(cs, s, i, i),
{
    assert(is_path(cs, s, seq![i], i, i));
}

pub proof fn lemma_linked_edge(cs: Seq<Option<Color>>, s: (u8, u8), i: int, j: int)
    requires adj(s, i, j), cs[i] == cs[j],
    ensures linked(cs, s, i, j),
{
    let p = seq![i, j];
    assert forall|k: int| 0 <= k < p.len() implies 0 <= #[trigger] p[k] < cells(s) && cs[p[k]] == cs[i] by { assert(p[0] == i && p[1] == j); }
    assert forall|k: int| 0 <= k < p.len() - 1 implies adj(s, #[trigger] p[k], p[k + 1]) by { assert(p[0] == i && p[1] == j); }
    assert(is_path(cs, s, p, i, j));
}

pub proof fn lemma_linked_sym(cs: Seq<Option<Color>>, s: (u8, u8), i: int, j: int)
    requires linked(cs, s, i, j),
    ensures linked(cs, s, j, i), cs[i] == cs[j],
{
    let p = choose|p: Seq<int>| is_path(cs, s, p, i, j);
    let n = p.len() as int;
    let q = Seq::new(p.len(), |k: int| p[n - 1 - k]);
    assert(cs[p[n - 1]] == cs[i]);
    assert forall|k: int| 0 <= k < q.len() implies 0 <= #[trigger] q[k] < cells(s) && cs[q[k]] == cs[j] by { assert(q[k] == p[n - 1 - k]); }
    assert forall|k: int| 0 <= k < q.len() - 1 implies adj(s, #[trigger] q[k], q[k + 1]) by {
        let m = n - 2 - k;
        assert(adj(s, p[m], p[m + 1]));
        assert(q[k] == p[m + 1] && q[k + 1] == p[m]);
    }
    assert(is_path(cs, s, q, j, i));
}

pub proof fn lemma_linked_trans(cs: Seq<Option<Color>>, s: (u8, u8), i: int, j: int, k: int)
    requires linked(cs, s, i, j), linked(cs, s, j, k),
    ensures linked(cs, s, i, k),
{
    lemma_linked_sym(cs, s, i, j);
    let p = choose|p: Seq<int>| is_path(cs, s, p, i, j);
    let q = choose|q: Seq<int>| is_path(cs, s, q, j, k);
    let r = p + q.subrange(1, q.len() as int);
    let m = p.len() as int;
    assert forall|l: int| 0 <= l < r.len() implies #[trigger] r[l] == (if l < m { p[l] } else { q[l - m + 1] }) by { }
    assert forall|l: int| 0 <= l < r.len() - 1 implies adj(s, #[trigger] r[l], r[l + 1]) by {
        if l + 1 < m { assert(adj(s, p[l], p[l + 1])); }
        else if l + 1 == m { assert(adj(s, q[0], q[1])); }
        else { assert(adj(s, q[l - m + 1], q[l - m + 2])); }
    }
    if q.len() > 1 { assert(r[r.len() - 1] == q[q.len() - 1]); } else { assert(r[r.len() - 1] == p[m - 1]); }
    assert(r[0] == i);
    assert(is_path(cs, s, r, i, k));
}

/// A path stays a path when only cells of another content than its own change.
pub proof fn lemma_linked_frame(cs: Seq<Option<Color>>, ds: Seq<Option<Color>>, s: (u8, u8), i: int, j: int)
    requires linked(cs, s, i, j), forall|k: int| 0 <= k < cells(s) && cs[k] == cs[i] ==> #[trigger] ds[k] == cs[k],
    ensures linked(ds, s, i, j),
{
    let p = choose|p: Seq<int>| is_path(cs, s, p, i, j);
    assert forall|k: int| 0 <= k < p.len() implies 0 <= #[trigger] p[k] < cells(s) && ds[p[k]] == ds[i] by {
        assert(cs[p[k]] == cs[i]);
        assert(ds[p[k]] == cs[p[k]]);
        assert(cs[p[0]] == cs[i]);
        assert(ds[p[0]] == cs[p[0]]);
    }
    assert(is_path(ds, s, p, i, j));
}

/// On a board with M, all cells of a path of stones belong to one group.
pub proof fn lemma_path_id(v: GV, p: Seq<int>, i: int, j: int, k: int)
    requires M(v), is_path(cols(v), v.size, p, i, j), id(v, i) != -1, 0 <= k < p.len(),
    ensures id(v, p[k]) == id(v, i),
    decreases k,
{
    assert(0 <= p[0] < cells(v.size));
    if k > 0 {
        lemma_path_id(v, p, i, j, k - 1);
        assert(adj(v.size, p[k - 1], p[k - 1 + 1]));
        assert(cols(v)[p[k]] == cols(v)[i]);
        assert(cols(v)[p[k - 1]] == cols(v)[i]);
        assert(col(v, p[k]) == col(v, p[k - 1]));
    }
}

/// C01: same group exactly when linked.
pub proof fn lemma_groups_are_regions(v: GV, i: int, j: int)
    requires inv(v), 0 <= i < cells(v.size), 0 <= j < cells(v.size), id(v, i) != -1,
    ensures id(v, i) == id(v, j) <==> linked(cols(v), v.size, i, j),
{
    if linked(cols(v), v.size, i, j) {
        let p = choose|p: Seq<int>| is_path(cols(v), v.size, p, i, j);
        lemma_path_id(v, p, i, j, p.len() - 1);
    }
}

// ---------------------------------------------------------------- hash
pub proof fn lemma_xor(a: u64, b: u64, c: u64)
    ensures (a ^ b) ^ c == (a ^ c) ^ b, (a ^ b) ^ b == a, a ^ 0u64 == a, a ^ a == 0u64, a ^ b == b ^ a,
{
    assert((a ^ b) ^ c == (a ^ c) ^ b) by (bit_vector);
    assert((a ^ b) ^ b == a) by (bit_vector);
    assert(a ^ 0u64 == a) by (bit_vector);
    assert(a ^ a == 0u64) by (bit_vector);
    assert(a ^ b == b ^ a) by (bit_vector);
}

/// Changing one cell changes the fold by the XOR of the old and new contributions.
pub proof fn lemma_zfold_update(cs: Seq<Option<Color>>, p: int, x: Option<Color>, n: int)
    requires 0 <= p < cs.len(), 0 <= n <= cs.len(),
    ensures
        n <= p ==> zfold(cs.update(p, x), n) == zfold(cs, n),
        n > p && cs[p] is None ==> zfold(cs.update(p, x), n) == zfold(cs, n) ^ zcell(x, p),
        n > p && x is None ==> zfold(cs.update(p, x), n) == zfold(cs, n) ^ zcell(cs[p], p),
    decreases n,
{
    if n > 0 {
        lemma_zfold_update(cs, p, x, n - 1);
        let ds = cs.update(p, x);
        if n - 1 == p {
            lemma_xor(zfold(cs, n - 1), zcell(cs[p], p), 0);
            lemma_xor(zfold(cs, n - 1), zcell(x, p), 0);
        } else if n - 1 > p {
            lemma_xor(zfold(cs, n - 1), zcell(cs[n - 1], n - 1), zcell(x, p));
            lemma_xor(zfold(cs, n - 1), zcell(cs[n - 1], n - 1), zcell(cs[p], p));
        }
    }
}

} // verus!
