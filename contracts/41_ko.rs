verus! {

// ================================================================ ko
/// A play by x on q captures exactly the stone on k.
pub open spec fn sole(cs: Seq<Option<Color>>, s: (u8, u8), q: int, x: Color, k: int) -> bool {
    0 <= k < cells(s) && forall|i: int| #[trigger] caught(placed(cs, q, x), s, q, opp(x), i) <==> i == k
}

/// The ko point a play leaves behind is the point of the only captured stone.
pub open spec fn ko_ok(cs: Seq<Option<Color>>, s: (u8, u8), q: int, x: Color, ko: Option<(u8, u8)>) -> bool {
    match ko {
        Some(c) => valid(s, c) && sole(cs, s, q, x, idx(s, c)),
        None => forall|k: int| !#[trigger] sole(cs, s, q, x, k),
    }
}

/// Whoever captures has a liberty afterwards.
pub proof fn lemma_capture_air(cs: Seq<Option<Color>>, s: (u8, u8), p: int, x: Color, i: int)
    requires cs.len() == cells(s), 0 <= p < cells(s), caught(placed(cs, p, x), s, p, opp(x), i),
    ensures !suicidal(cs, s, p, x),
{
    let (d, m) = (placed(cs, p, x), capt(cs, s, p, x));
    let j = choose|j: int| #[trigger] adj(s, p, j) && linked(d, s, i, j);
    lemma_caught_linked(d, s, p, opp(x), i, j);
    lemma_linked_refl(m, s, p);
    lemma_air(m, s, p, p, j);
}

pub proof fn lemma_caught_linked(d: Seq<Option<Color>>, s: (u8, u8), p: int, c: Color, i: int, j: int)
    requires caught(d, s, p, c, i), linked(d, s, i, j),
    ensures caught(d, s, p, c, j),
{
    lemma_breathes_linked(d, s, i, j);
    lemma_next_linked(d, s, p, i, j);
    lemma_linked_in(d, s, i, j);
}

pub proof fn lemma_lone(v: GV, c: int, g: int)
    requires inv(v), live(v, c), 0 <= g < cells(v.size), id(v, g) == c,
    ensures
        ch(v, c).num_stones == 1 <==> (forall|i: int| 0 <= i < cells(v.size) && #[trigger] id(v, i) == c ==> i == g),
        ch(v, c).num_stones == 1 ==> ch(v, c).origin == g,
{
    let s = st(v, c);
    lemma_chain(v, c);
    lemma_cells(v.size);
    assert(id(v, g) == c <==> s.contains(g));
    if ch(v, c).num_stones == 1 {
        assert forall|i: int| 0 <= i < cells(v.size) && #[trigger] id(v, i) == c implies i == g by {
            assert(id(v, i) == c <==> s.contains(i));
            assert(s[0] == i && s[0] == g);
        }
    } else {
        assert(s[0] != s[1]);
        assert(id(v, s[0]) == c && id(v, s[1]) == c);
        assert(0 <= s[0] < cells(v.size) && 0 <= s[1] < cells(v.size));
    }
}

#[verifier::spinoff_prover]
pub proof fn lemma_ko_after(cs: Seq<Option<Color>>, w: GV, r: GV, p: int, x: Color, ds: Seq<usize>, su: bool)
    requires
        inv(w), 0 <= p < cells(w.size), cols(w) == placed(cs, p, x), cs.len() == cells(w.size),
        ds.no_duplicates(),
        forall|c: usize| #![trigger ds.contains(c)] ds.contains(c) <==> kills(w, p, x, c as int),
        live(r, id(w, p)) == !(su && suicidal(cs, w.size, p, x)),
    ensures ko_ok(cs, w.size, p, x, ko_after(w, r, ds, id(w, p))),
{
    hide(inv); hide(linked); hide(cols); hide(suicidal); hide(placed); hide(caught); hide(kills); hide(ring_wf); hide(st); hide(coord_of);
    let (s, d) = (w.size, placed(cs, p, x));
    lemma_inv_size(w);
    let a = id(w, p);
    let ko = ko_after(w, r, ds, a);
    assert forall|i: int| 0 <= i < cells(s) implies (#[trigger] caught(d, s, p, opp(x), i) <==> id(w, i) != -1 && kills(w, p, x, id(w, i))) by { lemma_kills(w, p, x, i); }
    assert forall|i: int| #[trigger] caught(d, s, p, opp(x), i) implies 0 <= i < cells(s) by { reveal(caught); }
    if ds.len() == 1 && ch(w, ds[0] as int).num_stones == 1 {
        let c = ds[0] as int;
        assert(ds.contains(ds[0]));
        assert(live(w, c)) by { reveal(kills); }
        lemma_chain_0(w, c);
        let o = ch(w, c).origin as int;
        lemma_lone(w, c, o);
        assert forall|i: int| #[trigger] caught(d, s, p, opp(x), i) <==> i == o by {
            if caught(d, s, p, opp(x), i) {
                lemma_live_id(w, i);
                assert(ds.contains(id(w, i) as usize));
                assert(ds[0] == id(w, i) as usize);
                assert(id(w, i) == c);
            }
        }
        lemma_capture_air(cs, s, p, x, o);
        lemma_coord_of(s, o);
        assert(ko == Some(coord_of(s, o)));
    }
    if exists|k: int| #[trigger] sole(cs, s, p, x, k) {
        let k = choose|k: int| #[trigger] sole(cs, s, p, x, k);
        assert(caught(d, s, p, opp(x), k));
        let c = id(w, k);
        lemma_live_id(w, k);
        assert(ds.contains(c as usize));
        assert forall|n: int| 0 <= n < ds.len() implies ds[n] == c as usize by {
            let c2 = ds[n] as int;
            assert(ds.contains(ds[n]));
            assert(live(w, c2)) by { reveal(kills); }
            lemma_chain_0(w, c2);
            assert(caught(d, s, p, opp(x), ch(w, c2).origin as int));
        }
        if ds.len() > 1 { assert(ds[0] != ds[1]); }
        assert forall|i: int| 0 <= i < cells(s) && #[trigger] id(w, i) == c implies i == k by { assert(caught(d, s, p, opp(x), i)); }
        lemma_lone(w, c, k);
        lemma_capture_air(cs, s, p, x, k);
    }
}

pub proof fn lemma_chain_0(v: GV, c: int)
    requires inv(v), live(v, c),
    ensures 0 <= ch(v, c).origin < cells(v.size), id(v, ch(v, c).origin as int) == c,
{
    lemma_chain(v, c);
}

pub proof fn lemma_live_id(v: GV, i: int)
    requires inv(v), 0 <= i < cells(v.size), id(v, i) != -1,
    ensures live(v, id(v, i)), 0 <= id(v, i) < 65536, (id(v, i) as usize) as int == id(v, i),
{
    lemma_cells(v.size);
}

/// The test the library makes: some opposing single stone next to p has p as its only liberty.
pub open spec fn retake(v: GV, c: int, p: int, x: Color) -> bool {
    live(v, c) && touches(v, c, p) && ch(v, c).color == x && ch(v, c).num_stones == 1 && only_lib(v, c, p)
}

pub open spec fn ko_refused(v: GV, ko: Option<(u8, u8)>, p: (u8, u8), mover: Color) -> bool {
    ko == Some(p) && exists|c: int| #[trigger] retake(v, c, idx(v.size, p), opp(mover))
}

/// Facts about the position after a play that captured exactly one stone, on p.
pub proof fn lemma_sole(prev: Seq<Option<Color>>, s: (u8, u8), q: int, x: Color, su: bool, p: int)
    requires prev.len() == cells(s), 0 <= q < cells(s), prev[q] is None, sole(prev, s, q, x, p),
    ensures ({
        let cs = play_of(prev, s, q, x, su);
        &&& p != q && prev[p] == Some(opp(x)) && adj(s, p, q) && adj(s, q, p)
        &&& cs =~= prev.update(q, Some(x)).update(p, None)
    }),
{
    let d0 = placed(prev, q, x);
    assert(caught(d0, s, q, opp(x), p));
    let j = choose|j: int| #[trigger] adj(s, q, j) && linked(d0, s, p, j);
    lemma_caught_linked(d0, s, q, opp(x), p, j);
    assert(j == p);
    lemma_adj_sym(s, p, q);
    lemma_capture_air(prev, s, q, x, p);
    let m0 = capt(prev, s, q, x);
    assert(m0 =~= prev.update(q, Some(x)).update(p, None)) by {
        assert forall|i: int| 0 <= i < cells(s) implies m0[i] == prev.update(q, Some(x)).update(p, None)[i] by { if i == p { assert(caught(d0, s, q, opp(x), i)); } else { assert(!caught(d0, s, q, opp(x), i)); } }
    }
}

/// A stone of x other than the one just played has a liberty away from p and keeps it.
#[verifier::spinoff_prover]
pub proof fn lemma_other_air(prev: Seq<Option<Color>>, cs: Seq<Option<Color>>, s: (u8, u8), q: int, x: Color, p: int, i: int)
    requires
        alive(prev, s), prev.len() == cells(s), 0 <= q < cells(s), 0 <= p < cells(s), prev[q] is None, prev[p] == Some(opp(x)), 0 <= i < cells(s),
        cs == prev.update(q, Some(x)).update(p, None), cs[i] == Some(x), !linked(cs, s, i, q),
    ensures exists|j: int, k: int| #[trigger] has_air(cs, s, i, j, k) && k != p,
{
    if i == q { lemma_linked_refl(cs, s, q); }
    assert(prev[i] == Some(x));
    let (j, k) = choose|j: int, k: int| #[trigger] has_air(prev, s, i, j, k);
    assert forall|k: int| 0 <= k < cells(s) && prev[k] == prev[i] implies #[trigger] cs[k] == prev[k] by { }
    lemma_linked_frame(prev, cs, s, i, j);
    lemma_linked_in(cs, s, i, j);
    if k == q {
        lemma_linked_edge(cs, s, j, q);
        lemma_linked_trans(cs, s, i, j, q);
    }
    assert(has_air(cs, s, i, j, k) && k != p);
}

#[verifier::spinoff_prover]
pub proof fn lemma_ko_1(prev: Seq<Option<Color>>, q: int, x: Color, v: GV, p: int, su: bool, c: int)
    requires
        inv(v), prev.len() == cells(v.size), alive(prev, v.size), 0 <= q < cells(v.size), prev[q] is None, cols(v) == play_of(prev, v.size, q, x, su),
        sole(prev, v.size, q, x, p), retake(v, c, p, x),
    ensures !suicidal(cols(v), v.size, p, opp(x)), play_of(cols(v), v.size, p, opp(x), su) == prev,
{
    hide(inv); hide(linked); hide(cols); hide(play_of); hide(suicidal); hide(caught); hide(capt);
    let (s, cs) = (v.size, cols(v));
    lemma_inv_size(v);
    lemma_sole(prev, s, q, x, su, p);
    lemma_cell(v, p);
    lemma_cell(v, q);
    let g = choose|j: int| #[trigger] adj(s, p, j) && id(v, j) == c;
    lemma_cell(v, g);
    lemma_lone(v, c, g);
    lemma_linked_refl(cs, s, g);
    if g != q {
        if linked(cs, s, g, q) { lemma_groups_are_regions(v, g, q); assert(id(v, q) == c); }
        lemma_other_air(prev, cs, s, q, x, p, g);
        let (j, k) = choose|j: int, k: int| #[trigger] has_air(cs, s, g, j, k) && k != p;
        lemma_linked_in(cs, s, g, j);
        lemma_groups_are_regions(v, g, j);
        lemma_adj_sym(s, j, k);
        lemma_cell(v, k);
        assert(touches(v, c, k));
        assert(islib(v, c, k));
    }
    let (d1, m1) = (placed(cs, p, opp(x)), capt(cs, s, p, opp(x)));
    lemma_last_lib(v, p, opp(x), q);
    assert(opp(opp(x)) == x);
    assert(caught(d1, s, p, x, q));
    assert forall|i: int| 0 <= i < cells(s) && i != q implies !#[trigger] caught(d1, s, p, x, i) by {
        if caught(d1, s, p, x, i) {
            assert(d1[i] == Some(x) && !breathes(d1, s, i)) by { reveal(caught); }
            assert(cs[i] == Some(x));
            if linked(cs, s, i, q) { lemma_cell(v, i); lemma_groups_are_regions(v, i, q); }
            lemma_other_air(prev, cs, s, q, x, p, i);
            let (j, k) = choose|j: int, k: int| #[trigger] has_air(cs, s, i, j, k) && k != p;
            assert forall|k: int| 0 <= k < cells(s) && cs[k] == cs[i] implies #[trigger] d1[k] == cs[k] by { }
            lemma_linked_frame(cs, d1, s, i, j);
            lemma_air(d1, s, i, j, k);
        }
    }
    lemma_capture_air(cs, s, p, opp(x), q);
    assert(m1 =~= prev) by { reveal(capt); }
    reveal(play_of);
}

#[verifier::spinoff_prover]
pub proof fn lemma_ko_2(prev: Seq<Option<Color>>, q: int, x: Color, v: GV, p: int, su: bool)
    requires
        inv(v), prev.len() == cells(v.size), 0 <= q < cells(v.size), prev[q] is None, cols(v) == play_of(prev, v.size, q, x, su),
        0 <= p < cells(v.size), id(v, p) == -1,
        !suicidal(cols(v), v.size, p, opp(x)), play_of(cols(v), v.size, p, opp(x), su) == prev,
    ensures sole(prev, v.size, q, x, p), retake(v, id(v, q), p, x),
{
    hide(inv); hide(linked); hide(cols); hide(suicidal); hide(caught);
    let (s, cs) = (v.size, cols(v));
    lemma_inv_size(v);
    let (d1, m1) = (placed(cs, p, opp(x)), capt(cs, s, p, opp(x)));
    let (d0, m0) = (placed(prev, q, x), capt(prev, s, q, x));
    assert(m1 == prev);
    lemma_own_stone(cs, s, p, opp(x));
    lemma_own_stone(prev, s, q, x);
    lemma_cell(v, p);
    assert(prev[p] == Some(opp(x)) && p != q);
    assert(m0[p] == Some(opp(x)) || (m0[p] is None && caught(d0, s, q, opp(x), p)));
    if su && suicidal(prev, s, q, x) {
        if linked(m0, s, q, p) { lemma_linked_in(m0, s, q, p); }
        assert(cs[p] == m0[p]);
        lemma_capture_air(prev, s, q, x, p);
    }
    assert(cs == m0);
    assert(caught(d0, s, q, opp(x), p));
    assert(opp(opp(x)) == x);
    lemma_cell(v, q);
    assert(caught(d1, s, p, x, q));
    assert forall|i: int| #[trigger] caught(d0, s, q, opp(x), i) implies i == p by {
        reveal(caught);
        assert(prev[i] == Some(opp(x)) && cs[i] is None);
        assert(m1[i] == d1[i]);
    }
    let c = id(v, q);
    assert(next_to(d1, s, p, q)) by { reveal(caught); }
    let j = choose|j: int| #[trigger] adj(s, p, j) && linked(d1, s, q, j);
    assert forall|i: int| 0 <= i < cells(s) && #[trigger] id(v, i) == c implies i == q by {
        lemma_groups_are_regions(v, q, i);
        lemma_linked_in(cs, s, q, i);
        assert forall|k: int| 0 <= k < cells(s) && cs[k] == cs[q] implies #[trigger] d1[k] == cs[k] by { }
        lemma_linked_frame(cs, d1, s, q, i);
        lemma_caught_linked(d1, s, p, x, q, i);
        assert(m1[i] is None);
    }
    assert forall|l: int| 0 <= l < cells(s) && d1[l] == d1[q] implies #[trigger] cs[l] == d1[l] by { }
    lemma_linked_frame(d1, cs, s, q, j);
    lemma_linked_in(cs, s, q, j);
    lemma_groups_are_regions(v, q, j);
    assert(touches(v, c, p));
    lemma_lone(v, c, q);
    lemma_last_lib(v, p, opp(x), q);
}

/// C07: after a play on q by the opponent x in a position where every group had a liberty, the mover's play on p is refused as ko
/// exactly when it is no suicide and restores that position.
#[verifier::spinoff_prover]
pub proof fn lemma_ko(prev: Seq<Option<Color>>, q: int, x: Color, v: GV, ko: Option<(u8, u8)>, p: (u8, u8), su: bool)
    requires
        inv(v), prev.len() == cells(v.size), alive(prev, v.size), 0 <= q < cells(v.size), prev[q] is None, cols(v) == play_of(prev, v.size, q, x, su),
        ko_ok(prev, v.size, q, x, ko), valid(v.size, p), colat(v, p) is None,
    ensures ko_refused(v, ko, p, opp(x)) <==> !suicidal(cols(v), v.size, idx(v.size, p), opp(x)) && play_of(cols(v), v.size, idx(v.size, p), opp(x), su) == prev,
{
    hide(inv); hide(cols); hide(play_of); hide(suicidal); hide(sole); hide(retake);
    let s = v.size;
    let k = idx(s, p);
    lemma_inv_size(v);
    lemma_idx(s, p);
    assert(opp(opp(x)) == x);
    if ko_refused(v, ko, p, opp(x)) {
        let c = choose|c: int| #[trigger] retake(v, c, k, x);
        lemma_ko_1(prev, q, x, v, k, su, c);
    }
    if !suicidal(cols(v), s, k, opp(x)) && play_of(cols(v), s, k, opp(x), su) == prev {
        lemma_ko_2(prev, q, x, v, k, su);
        assert(ko is Some);
        lemma_idx(s, ko.unwrap());
        assert(idx(s, ko.unwrap()) == k) by { reveal(sole); assert(caught(placed(prev, q, x), s, q, opp(x), k)); }
    }
}

} // verus!
