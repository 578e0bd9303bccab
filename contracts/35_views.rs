verus! {

/// std::hash::Hasher: a sink of words.
pub trait Hasher {
    spec fn fed(&self) -> Seq<u64>;
    fn write_u64(&mut self, x: u64)
        ensures final(self).fed() == old(self).fed().push(x);
}

/// C05: same dimensions and colours, same hash.
pub proof fn lemma_eq_hash(v: GV, w: GV)
    requires inv(v), inv(w),
    ensures v.size == w.size && cols(v) == cols(w) ==> v.z == w.z,
{ }

/// The two positions agree on the points before n.
#[verifier::opaque]
pub open spec fn same_upto(a: GV, b: GV, n: int) -> bool {
    forall|i: int| 0 <= i < n ==> #[trigger] col(a, i) == col(b, i)
}

pub proof fn lemma_same_step(a: GV, b: GV, n: int)
    requires same_upto(a, b, n), 0 <= n < cells(a.size), a.size == b.size,
    ensures
        col(a, n) == col(b, n) ==> same_upto(a, b, n + 1),
        col(a, n) != col(b, n) ==> cols(a) != cols(b),
{
    reveal(same_upto);
    if col(a, n) != col(b, n) {
        assert(cols(a)[n] == col(a, n));
        assert(cols(b)[n] == col(b, n));
    }
}

pub proof fn lemma_same_all(a: GV, b: GV)
    requires a.size == b.size,
    ensures same_upto(a, b, 0), same_upto(a, b, cells(a.size)) ==> cols(a) == cols(b),
{
    reveal(same_upto);
    if same_upto(a, b, cells(a.size)) {
        assert(cols(a) =~= cols(b));
    }
}

pub proof fn lemma_inv_facts(v: GV)
    requires inv(v),
    ensures S(v), size_ok(v.size), v.board.len() == 361,
{ lemma_inv_S(v); }

pub proof fn lemma_empty_hash(cs: Seq<Option<Color>>, n: int)
    requires 0 <= n <= cs.len(), forall|i: int| 0 <= i < n ==> cs[i] is None,
    ensures zfold(cs, n) == 0,
    decreases n,
{
    if n > 0 { lemma_empty_hash(cs, n - 1); lemma_xor(0, 0, 0); }
}

// ================================================================ stones by group
pub open spec fn gsum(gs: Seq<Group>, c: Color) -> int
    decreases gs.len(),
{
    if gs.len() == 0 { 0 } else { gsum(gs.drop_last(), c) + (if gs.last().color == c { gs.last().num_stones as int } else { 0int }) }
}

pub proof fn lemma_gsum_step(gs: Seq<Group>, n: int, c: Color)
    requires 0 <= n < gs.len(),
    ensures gsum(gs.subrange(0, n + 1), c) == gsum(gs.subrange(0, n), c) + (if gs[n].color == c { gs[n].num_stones as int } else { 0int }),
{
    assert(gs.subrange(0, n + 1).drop_last() =~= gs.subrange(0, n));
}

/// The position without the groups numbered below n.
pub open spec fn clr_below(v: GV, n: int) -> Seq<Option<Color>> {
    Seq::new(cells(v.size) as nat, |i: int| if id(v, i) < n { None } else { col(v, i) })
}

pub proof fn lemma_clr_below_step(v: GV, n: int, m: int, color: Color)
    requires S(v), live(v, n), 0 <= m <= st(v, n).len(),
    ensures cnt(clr_in(v, n, m), color) == cnt(clr_below(v, n), color) - (if ch(v, n).color == color { m } else { 0int }),
    decreases m,
{
    let s = st(v, n);
    lemma_chain(v, n);
    lemma_cells(v.size);
    if m == 0 {
        assert(clr_in(v, n, 0) =~= clr_below(v, n));
    } else {
        lemma_clr_below_step(v, n, m - 1, color);
        let p = s[m - 1];
        lemma_prefix_contains(s, m - 1);
        assert(s.subrange(0, m - 1 + 1) == s.subrange(0, m));
        let pre0 = s.subrange(0, m - 1);
        assert(!pre0.contains(p)) by { if pre0.contains(p) { let k = choose|k: int| 0 <= k < m - 1 && pre0[k] == p; assert(s[k] == p); } }
        assert(id(v, p) == n);
        assert(clr_in(v, n, m) =~= clr_in(v, n, m - 1).update(p, None)) by {
            assert forall|i: int| 0 <= i < cells(v.size) implies clr_in(v, n, m)[i] == clr_in(v, n, m - 1).update(p, None)[i] by {
                assert(s.subrange(0, m).contains(i) <==> pre0.contains(i) || i == p);
            }
        }
        assert(clr_in(v, n, m - 1)[p] == col(v, p));
        lemma_cnt_update(clr_in(v, n, m - 1), p, None, color);
    }
}

/// ... and without the first m stones of group n.
pub open spec fn clr_in(v: GV, n: int, m: int) -> Seq<Option<Color>> {
    Seq::new(cells(v.size) as nat, |i: int| if id(v, i) < n || st(v, n).subrange(0, m).contains(i) { None } else { col(v, i) })
}

#[verifier::spinoff_prover]
pub proof fn lemma_gsum_clr(v: GV, n: int, color: Color)
    requires S(v), 0 <= n <= v.chains.len(),
    ensures cnt(clr_below(v, n), color) + gsum(somes(v.chains.subrange(0, n)), color) == cnt(cols(v), color),
    decreases n,
{
    lemma_cells(v.size);
    if n == 0 {
        assert(v.chains.subrange(0, 0) =~= Seq::<Option<Group>>::empty());
        assert(clr_below(v, 0) =~= cols(v)) by {
            assert forall|i: int| 0 <= i < cells(v.size) implies clr_below(v, 0)[i] == cols(v)[i] by { }
        }
    } else {
        lemma_gsum_clr(v, n - 1, color);
        let t = v.chains.subrange(0, n);
        assert(t.drop_last() =~= v.chains.subrange(0, n - 1));
        if live(v, n - 1) {
            let s = st(v, n - 1);
            lemma_chain(v, n - 1);
            lemma_clr_below_step(v, n - 1, s.len() as int, color);
            lemma_prefix_full(s);
            assert(clr_in(v, n - 1, s.len() as int) =~= clr_below(v, n)) by {
                assert forall|i: int| 0 <= i < cells(v.size) implies clr_in(v, n - 1, s.len() as int)[i] == clr_below(v, n)[i] by {
                    assert(id(v, i) == n - 1 <==> s.contains(i));
                }
            }
            let q = somes(t.drop_last());
            assert(somes(t) == q.push(ch(v, n - 1)));
            assert(q.push(ch(v, n - 1)).drop_last() =~= q);
        } else {
            assert(clr_below(v, n) =~= clr_below(v, n - 1)) by {
                assert forall|i: int| 0 <= i < cells(v.size) implies clr_below(v, n)[i] == clr_below(v, n - 1)[i] by {
                    if id(v, i) != -1 { assert(live(v, id(v, i))); }
                }
            }
            assert(somes(t) == somes(t.drop_last()));
        }
    }
}

pub proof fn lemma_cnt_none(cs: Seq<Option<Color>>, c: Color)
    requires forall|i: int| 0 <= i < cs.len() ==> cs[i] is None,
    ensures cnt(cs, c) == 0,
    decreases cs.len(),
{
    if cs.len() > 0 { lemma_cnt_none(cs.drop_last(), c); }
}

/// The groups' stone numbers add up to the stones on the board.
pub proof fn lemma_gsum(v: GV)
    requires inv(v),
    ensures gsum(somes(v.chains), Color::Black) == cnt(cols(v), Color::Black), gsum(somes(v.chains), Color::White) == cnt(cols(v), Color::White),
{
    let n = v.chains.len() as int;
    lemma_cells(v.size);
    assert(v.chains.subrange(0, n) =~= v.chains);
    assert forall|i: int| 0 <= i < cells(v.size) implies clr_below(v, n)[i] is None by { if id(v, i) != -1 { assert(live(v, id(v, i))); } }
    lemma_cnt_none(clr_below(v, n), Color::Black);
    lemma_cnt_none(clr_below(v, n), Color::White);
    lemma_gsum_clr(v, n, Color::Black);
    lemma_gsum_clr(v, n, Color::White);
}

pub proof fn lemma_gsum_mono(gs: Seq<Group>, n: int, c: Color)
    requires 0 <= n <= gs.len(),
    ensures 0 <= gsum(gs.subrange(0, n), c) <= gsum(gs, c),
    decreases gs.len() - n,
{
    lemma_gsum_nonneg(gs.subrange(0, n), c);
    if n < gs.len() { lemma_gsum_mono(gs, n + 1, c); lemma_gsum_step(gs, n, c); } else { assert(gs.subrange(0, n) =~= gs); }
}

pub proof fn lemma_gsum_nonneg(gs: Seq<Group>, c: Color)
    ensures 0 <= gsum(gs, c),
    decreases gs.len(),
{
    if gs.len() > 0 { lemma_gsum_nonneg(gs.drop_last(), c); }
}

pub proof fn lemma_gsum_bound(v: GV)
    requires inv(v),
    ensures forall|n: int, c: Color| 0 <= n <= somes(v.chains).len() ==> 0 <= #[trigger] gsum(somes(v.chains).subrange(0, n), c) <= 361,
{
    let gs = somes(v.chains);
    lemma_gsum(v);
    lemma_cells(v.size);
    assert forall|n: int, c: Color| 0 <= n <= gs.len() implies 0 <= #[trigger] gsum(gs.subrange(0, n), c) <= 361 by {
        lemma_gsum_mono(gs, n, c);
        lemma_cnt_bound(cols(v), c);
        match c { Color::Black => {} Color::White => {} }
    }
}

} // verus!
