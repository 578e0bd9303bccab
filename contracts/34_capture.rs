verus! {

// ================================================================ counting stones
pub open spec fn cnt(cs: Seq<Option<Color>>, c: Color) -> int
    decreases cs.len(),
{
    if cs.len() == 0 { 0 } else { cnt(cs.drop_last(), c) + (if cs.last() == Some(c) { 1int } else { 0int }) }
}

pub proof fn lemma_cnt_bound(cs: Seq<Option<Color>>, c: Color)
    ensures 0 <= cnt(cs, c) <= cs.len(),
    decreases cs.len(),
{
    if cs.len() > 0 { lemma_cnt_bound(cs.drop_last(), c); }
}

pub proof fn lemma_cnt_update(cs: Seq<Option<Color>>, p: int, x: Option<Color>, c: Color)
    requires 0 <= p < cs.len(),
    ensures cnt(cs.update(p, x), c) == cnt(cs, c) - (if cs[p] == Some(c) { 1int } else { 0int }) + (if x == Some(c) { 1int } else { 0int }),
    decreases cs.len(),
{
    let ds = cs.update(p, x);
    if p == cs.len() - 1 {
        assert(ds.drop_last() =~= cs.drop_last());
    } else {
        assert(ds.drop_last() =~= cs.drop_last().update(p, x));
        lemma_cnt_update(cs.drop_last(), p, x, c);
    }
}

pub proof fn lemma_clr_cnt(v: GV, c: int, n: int, color: Color)
    requires S(v), live(v, c), 0 <= n <= st(v, c).len(),
    ensures cnt(clr(v, st(v, c).subrange(0, n)), color) == cnt(cols(v), color) - (if ch(v, c).color == color { n } else { 0int }),
    decreases n,
{
    let s = st(v, c);
    lemma_chain(v, c);
    if n == 0 {
        assert(clr(v, s.subrange(0, 0)) =~= cols(v));
    } else {
        lemma_clr_cnt(v, c, n - 1, color);
        let (pre0, pre) = (s.subrange(0, n - 1), s.subrange(0, n));
        let p = s[n - 1];
        lemma_prefix_contains(s, n - 1);
        assert(s.subrange(0, n - 1 + 1) == pre);
        assert(!pre0.contains(p)) by { if pre0.contains(p) { let k = choose|k: int| 0 <= k < n - 1 && pre0[k] == p; assert(s[k] == p); } }
        assert(id(v, p) == c);
        lemma_cells(v.size);
        assert(clr(v, pre) =~= clr(v, pre0).update(p, None)) by {
            assert forall|i: int| 0 <= i < cells(v.size) implies clr(v, pre)[i] == clr(v, pre0).update(p, None)[i] by {
                assert(pre.contains(i) <==> pre0.contains(i) || i == s[n - 1]);
                assert(0 <= p < cells(v.size));
            }
        }
        assert(clr(v, pre0)[p] == col(v, p));
        lemma_cnt_update(clr(v, pre0), p, None, color);
    }
}

pub proof fn lemma_group_size(v: GV, c: int)
    requires inv(v), live(v, c),
    ensures
        1 <= ch(v, c).num_stones <= 361, 0 <= ch(v, c).origin < cells(v.size), c < v.chains.len() <= 361,
        0 <= cnt(cols(v), Color::White) <= 361, 0 <= cnt(cols(v), Color::Black) <= 361,
{
    lemma_chain(v, c);
    lemma_cells(v.size);
    lemma_cnt_bound(cols(v), Color::White);
    lemma_cnt_bound(cols(v), Color::Black);
}

/// Taking off a group takes off as many stones as it says it has.
pub proof fn lemma_taken_cnt(v: GV, w: GV, c: int)
    requires inv(v), live(v, c), taken_off(v, w, c),
    ensures forall|color: Color| cnt(cols(v), color) - #[trigger] cnt(cols(w), color) == (if ch(v, c).color == color { ch(v, c).num_stones as int } else { 0int }),
        0 <= cnt(cols(w), Color::White) <= 361, 0 <= cnt(cols(w), Color::Black) <= 361,
{
    let s = st(v, c);
    lemma_chain(v, c);
    lemma_cells(v.size);
    lemma_taken_cols(v, w, c);
    lemma_prefix_full(s);
    assert(cols(w) =~= clr(v, s)) by {
        assert forall|i: int| 0 <= i < cells(v.size) implies cols(w)[i] == clr(v, s)[i] by { assert(id(v, i) == c <==> s.contains(i)); assert(cols(v)[i] == col(v, i)); }
    }
    assert forall|color: Color| cnt(cols(v), color) - #[trigger] cnt(cols(w), color) == (if ch(v, c).color == color { ch(v, c).num_stones as int } else { 0int }) by {
        lemma_clr_cnt(v, c, s.len() as int, color);
    }
    lemma_cnt_bound(cols(w), Color::White);
    lemma_cnt_bound(cols(w), Color::Black);
}

// ================================================================ captures
/// Cell i belongs to one of the groups `pre`.
pub open spec fn gone(v: GV, pre: Seq<usize>, i: int) -> bool { id(v, i) != -1 && pre.contains(id(v, i) as usize) }

/// The groups `pre` are gone, everything else is as it was.
pub open spec fn off_mid(v: GV, w: GV, pre: Seq<usize>) -> bool {
    &&& w.size == v.size && w.next == v.next
    &&& forall|i: int| #![trigger id(w, i)] #![trigger id(v, i)] 0 <= i < 361 ==> id(w, i) == (if gone(v, pre, i) { -1 } else { id(v, i) })
    &&& forall|d: int| #![trigger live(w, d)] #![trigger live(v, d)] live(w, d) <==> live(v, d) && !pre.contains(d as usize)
    &&& forall|d: int| #![trigger ch(w, d)] #![trigger ch(v, d)] live(w, d) ==> same_but_libs(ch(v, d), ch(w, d))
}

pub open spec fn removal(v: GV, m: GV, w: GV, dead: Seq<usize>, a: int, suicide: bool) -> bool {
    &&& inv(m) && off_mid(v, m, dead) && live(m, a)
    &&& if suicide && nolib(m, a) { taken_off(m, w, a) } else { w == m }
}

/// The point the ko rule then refuses.
pub open spec fn ko_after(v: GV, w: GV, dead: Seq<usize>, a: int) -> Option<(u8, u8)> {
    if dead.len() == 1 && ch(v, dead[0] as int).num_stones == 1 && live(w, a) { Some(coord_of(v.size, ch(v, dead[0] as int).origin as int)) } else { None }
}

pub proof fn lemma_off_start(v: GV, a: int)
    requires inv(v), live(v, a),
    ensures off_mid(v, v, Seq::<usize>::empty()), 0 <= cnt(cols(v), Color::White) <= 361, 0 <= cnt(cols(v), Color::Black) <= 361,
{
    assert forall|c: usize| !(#[trigger] Seq::<usize>::empty().contains(c)) by { }
    lemma_group_size(v, a);
}

pub proof fn lemma_off_head(v: GV, w: GV, ds: Seq<usize>, n: int, a: int)
    requires
        inv(v), off_mid(v, w, ds.subrange(0, n)), ds.no_duplicates(), 0 <= n < ds.len(), live(v, ds[n] as int), live(v, a), 0 <= a, !ds.contains(a as usize),
    ensures live(w, ds[n] as int), ch(w, ds[n] as int).num_stones == ch(v, ds[n] as int).num_stones, ch(w, ds[n] as int).origin == ch(v, ds[n] as int).origin,
        ch(w, ds[n] as int).color == ch(v, ds[n] as int).color, ds[n] != a,
{
    let pre = ds.subrange(0, n);
    assert(!pre.contains(ds[n])) by { if pre.contains(ds[n]) { let k = choose|k: int| 0 <= k < n && pre[k] == ds[n]; assert(ds[k] == ds[n]); } }
    assert(ds.contains(ds[n]));
    assert(live(w, ds[n] as int));
    assert(same_but_libs(ch(v, ds[n] as int), ch(w, ds[n] as int)));
}

pub proof fn lemma_off_step(v: GV, w: GV, x: GV, ds: Seq<usize>, n: int, a: int)
    requires
        inv(v), off_mid(v, w, ds.subrange(0, n)), 0 <= n < ds.len(), live(v, ds[n] as int), live(w, ds[n] as int), live(w, a), ds[n] != a, taken_off(w, x, ds[n] as int),
    ensures off_mid(v, x, ds.subrange(0, n + 1)), live(x, a),
{
    let (pre0, pre) = (ds.subrange(0, n), ds.subrange(0, n + 1));
    let c = ds[n] as int;
    lemma_prefix_contains(ds, n);
    lemma_inv_S(v);
    assert forall|i: int| #![trigger id(x, i)] #![trigger id(v, i)] 0 <= i < 361 implies id(x, i) == (if gone(v, pre, i) { -1 } else { id(v, i) }) by {
        assert(id(w, i) == (if gone(v, pre0, i) { -1 } else { id(v, i) }));
        assert(id(x, i) == (if id(w, i) == c { -1 } else { id(w, i) }));
        if id(v, i) != -1 { assert(live(v, id(v, i))); assert((id(v, i) as usize) as int == id(v, i)); }
    }
    assert forall|d: int| #![trigger live(x, d)] #![trigger live(v, d)] live(x, d) <==> live(v, d) && !pre.contains(d as usize) by {
        assert(live(w, d) <==> live(v, d) && !pre0.contains(d as usize));
        assert(live(x, d) <==> live(w, d) && d != c);
        if live(v, d) { assert((d as usize) as int == d); }
    }
    assert forall|d: int| #![trigger ch(x, d)] #![trigger ch(v, d)] live(x, d) implies same_but_libs(ch(v, d), ch(x, d)) by {
        assert(live(w, d) && d != c);
        assert(same_but_libs(ch(v, d), ch(w, d)));
        assert(same_but_libs(ch(w, d), ch(x, d)));
    }
}

pub proof fn lemma_removal(v: GV, m: GV, w: GV, ds: Seq<usize>, a: int, suicide: bool, ko: Option<(u8, u8)>)
    requires
        inv(m), off_mid(v, m, ds), live(m, a), if suicide && nolib(m, a) { taken_off(m, w, a) && ko is None } else { w == m && ko == (if ds.len() > 0 && ds.len() == 1 && ch(v, ds[0] as int).num_stones == 1 { Some(coord_of(v.size, ch(v, ds[0] as int).origin as int)) } else { None }) },
    ensures removal(v, m, w, ds, a, suicide), ko == ko_after(v, w, ds, a),
{
    if suicide && nolib(m, a) { assert(!live(w, a)); }
}

} // verus!
