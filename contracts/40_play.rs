verus! {

// ================================================================ playing, at the level of colours
pub open spec fn has_air(cs: Seq<Option<Color>>, s: (u8, u8), i: int, j: int, k: int) -> bool {
    linked(cs, s, i, j) && adj(s, j, k) && cs[k] is None
}

/// The region of cell i touches an empty cell.
pub open spec fn breathes(cs: Seq<Option<Color>>, s: (u8, u8), i: int) -> bool {
    exists|j: int, k: int| #[trigger] has_air(cs, s, i, j, k)
}

/// Every stone's group has a liberty.
pub open spec fn alive(cs: Seq<Option<Color>>, s: (u8, u8)) -> bool {
    forall|i: int| 0 <= i < cells(s) && (#[trigger] cs[i]) is Some ==> breathes(cs, s, i)
}

pub open spec fn next_to(cs: Seq<Option<Color>>, s: (u8, u8), p: int, i: int) -> bool {
    exists|j: int| #[trigger] adj(s, p, j) && linked(cs, s, i, j)
}

/// In d, where a stone was just added on p, cell i holds a stone of colour c that is thereby captured.
pub open spec fn caught(d: Seq<Option<Color>>, s: (u8, u8), p: int, c: Color, i: int) -> bool {
    0 <= i < cells(s) && d[i] == Some(c) && !breathes(d, s, i) && next_to(d, s, p, i)
}

pub open spec fn placed(cs: Seq<Option<Color>>, p: int, x: Color) -> Seq<Option<Color>> { cs.update(p, Some(x)) }

/// The position after the stone is added and what it captures is removed.
pub open spec fn capt(cs: Seq<Option<Color>>, s: (u8, u8), p: int, x: Color) -> Seq<Option<Color>> {
    Seq::new(cells(s) as nat, |i: int| if caught(placed(cs, p, x), s, p, opp(x), i) { None } else { placed(cs, p, x)[i] })
}

/// The added stone's group ends without a liberty.
pub open spec fn suicidal(cs: Seq<Option<Color>>, s: (u8, u8), p: int, x: Color) -> bool { !breathes(capt(cs, s, p, x), s, p) }

/// The position after a play on p by x; su: the rules allow suicide.
pub open spec fn play_of(cs: Seq<Option<Color>>, s: (u8, u8), p: int, x: Color, su: bool) -> Seq<Option<Color>> {
    let m = capt(cs, s, p, x);
    if su && suicidal(cs, s, p, x) { Seq::new(cells(s) as nat, |i: int| if linked(m, s, p, i) { None } else { m[i] }) } else { m }
}

// ---------------------------------------------------------------- regions
pub proof fn lemma_linked_in(cs: Seq<Option<Color>>, s: (u8, u8), i: int, j: int)
    requires linked(cs, s, i, j),
    ensures 0 <= i < cells(s), 0 <= j < cells(s), cs[i] == cs[j],
{
    let p = choose|p: Seq<int>| is_path(cs, s, p, i, j);
    assert(0 <= p[0] < cells(s) && 0 <= p[p.len() - 1] < cells(s));
    assert(cs[p[p.len() - 1]] == cs[i]);
}

/// Cells joined to each other breathe together.
pub proof fn lemma_breathes_linked(cs: Seq<Option<Color>>, s: (u8, u8), i: int, j: int)
    requires linked(cs, s, i, j),
    ensures breathes(cs, s, i) == breathes(cs, s, j),
{
    lemma_linked_sym(cs, s, i, j);
    if breathes(cs, s, i) {
        let (a, b) = choose|a: int, b: int| #[trigger] has_air(cs, s, i, a, b);
        lemma_linked_trans(cs, s, j, i, a);
        assert(has_air(cs, s, j, a, b));
    }
    if breathes(cs, s, j) {
        let (a, b) = choose|a: int, b: int| #[trigger] has_air(cs, s, j, a, b);
        lemma_linked_trans(cs, s, i, j, a);
        assert(has_air(cs, s, i, a, b));
    }
}

pub proof fn lemma_next_linked(cs: Seq<Option<Color>>, s: (u8, u8), p: int, i: int, j: int)
    requires linked(cs, s, i, j),
    ensures next_to(cs, s, p, i) == next_to(cs, s, p, j),
{
    lemma_linked_sym(cs, s, i, j);
    if next_to(cs, s, p, i) { let k = choose|k: int| #[trigger] adj(s, p, k) && linked(cs, s, i, k); lemma_linked_trans(cs, s, j, i, k); }
    if next_to(cs, s, p, j) { let k = choose|k: int| #[trigger] adj(s, p, k) && linked(cs, s, j, k); lemma_linked_trans(cs, s, i, j, k); }
}

/// A path stays a path when none of its cells changes.
pub proof fn lemma_linked_keep(cs: Seq<Option<Color>>, ds: Seq<Option<Color>>, s: (u8, u8), i: int, j: int)
    requires linked(cs, s, i, j), forall|k: int| #![trigger ds[k]] 0 <= k < cells(s) && linked(cs, s, i, k) ==> ds[k] == cs[k],
    ensures linked(ds, s, i, j),
{
    let p = choose|p: Seq<int>| is_path(cs, s, p, i, j);
    assert forall|k: int| 0 <= k < p.len() implies 0 <= #[trigger] p[k] < cells(s) && ds[p[k]] == ds[i] by {
        lemma_prefix_linked(cs, s, p, i, j, k);
        assert(ds[p[k]] == cs[p[k]]);
        lemma_linked_in(cs, s, i, j);
        lemma_linked_refl(cs, s, i);
        assert(ds[i] == cs[i]);
        assert(cs[p[k]] == cs[i]);
    }
    assert(is_path(ds, s, p, i, j));
}

pub proof fn lemma_prefix_linked(cs: Seq<Option<Color>>, s: (u8, u8), p: Seq<int>, i: int, j: int, k: int)
    requires is_path(cs, s, p, i, j), 0 <= k < p.len(),
    ensures linked(cs, s, i, p[k]),
{
    let q = p.subrange(0, k + 1);
    assert forall|l: int| 0 <= l < q.len() implies 0 <= #[trigger] q[l] < cells(s) && cs[q[l]] == cs[i] by { assert(q[l] == p[l]); }
    assert forall|l: int| 0 <= l < q.len() - 1 implies adj(s, #[trigger] q[l], q[l + 1]) by { assert(q[l] == p[l] && q[l + 1] == p[l + 1]); assert(adj(s, p[l], p[l + 1])); }
    assert(is_path(cs, s, q, i, p[k]));
}

/// A way out of p in the position with a stone added on p: directly through a neighbour.
pub proof fn lemma_leave(cs: Seq<Option<Color>>, ds: Seq<Option<Color>>, s: (u8, u8), p: int, x: Color, path: Seq<int>, i: int, j: int)
    requires
        is_path(ds, s, path, i, j), j != p, 0 <= p < cells(s), ds[i] == Some(x), cs[p] is None,
        forall|k: int| #![trigger cs[k]] 0 <= k < cells(s) && k != p && ds[k] == Some(x) ==> cs[k] == Some(x),
    ensures
        (linked(cs, s, i, j) && i != p) || exists|q: int| #[trigger] adj(s, p, q) && linked(cs, s, q, j),
    decreases path.len(),
{
    assert(path[0] == i);
    if path.len() == 1 {
        assert(i == j);
        lemma_linked_refl(cs, s, i);
    } else {
        let rest = path.subrange(1, path.len() as int);
        let i2 = path[1];
        assert forall|l: int| 0 <= l < rest.len() implies 0 <= #[trigger] rest[l] < cells(s) && ds[rest[l]] == ds[i2] by { assert(rest[l] == path[l + 1]); }
        assert forall|l: int| 0 <= l < rest.len() - 1 implies adj(s, #[trigger] rest[l], rest[l + 1]) by { assert(rest[l] == path[l + 1] && rest[l + 1] == path[l + 2]); assert(adj(s, path[l + 1], path[l + 1 + 1])); }
        assert(is_path(ds, s, rest, i2, j));
        assert(adj(s, path[0], path[1]));
        lemma_leave(cs, ds, s, p, x, rest, i2, j);
        if i == p {
            if !(exists|q: int| #[trigger] adj(s, p, q) && linked(cs, s, q, j)) { assert(adj(s, p, i2) && linked(cs, s, i2, j)); }
        } else if !(exists|q: int| #[trigger] adj(s, p, q) && linked(cs, s, q, j)) {
            assert(cs[i] == Some(x));
            assert(ds[i2] == Some(x));
            assert(cs[i2] == Some(x));
            lemma_linked_edge(cs, s, i, i2);
            lemma_linked_trans(cs, s, i, i2, j);
        }
    }
}

// ---------------------------------------------------------------- the rules keep every group alive
/// Under `alive`, exactly the opposing groups left without liberties are captured, wherever they are.
#[verifier::spinoff_prover]
pub proof fn lemma_capt_all(cs: Seq<Option<Color>>, s: (u8, u8), p: int, x: Color, i: int)
    requires alive(cs, s), cs.len() == cells(s), 0 <= p < cells(s), cs[p] is None, 0 <= i < cells(s), placed(cs, p, x)[i] == Some(opp(x)),
    ensures caught(placed(cs, p, x), s, p, opp(x), i) == !breathes(placed(cs, p, x), s, i),
{
    let d = placed(cs, p, x);
    if !breathes(d, s, i) {
        assert(cs[i] == d[i]);
        let (j, k) = choose|j: int, k: int| #[trigger] has_air(cs, s, i, j, k);
        assert forall|k: int| 0 <= k < cells(s) && cs[k] == cs[i] implies #[trigger] d[k] == cs[k] by { }
        lemma_linked_frame(cs, d, s, i, j);
        if k != p { assert(has_air(d, s, i, j, k)); }
        lemma_adj_sym(s, j, k);
        assert(adj(s, p, j) && linked(d, s, i, j));
    }
}

pub proof fn lemma_capt_keep(cs: Seq<Option<Color>>, s: (u8, u8), p: int, x: Color, i: int, j: int)
    requires cs.len() == cells(s), 0 <= p < cells(s), linked(placed(cs, p, x), s, i, j), !caught(placed(cs, p, x), s, p, opp(x), i),
    ensures linked(capt(cs, s, p, x), s, i, j),
{
    let d = placed(cs, p, x);
    let m = capt(cs, s, p, x);
    assert forall|k: int| #![trigger m[k]] 0 <= k < cells(s) && linked(d, s, i, k) implies m[k] == d[k] by {
        lemma_breathes_linked(d, s, i, k);
        lemma_next_linked(d, s, p, i, k);
        lemma_linked_in(d, s, i, k);
    }
    lemma_linked_keep(d, m, s, i, j);
}

/// What happens to the mover's stones in the middle position: they keep the links they have.
pub proof fn lemma_capt_own(cs: Seq<Option<Color>>, s: (u8, u8), p: int, x: Color, i: int, j: int)
    requires cs.len() == cells(s), 0 <= p < cells(s), cs[p] is None, cs[i] == Some(x), linked(cs, s, i, j),
    ensures linked(capt(cs, s, p, x), s, i, j),
{
    let m = capt(cs, s, p, x);
    lemma_linked_in(cs, s, i, j);
    assert forall|k: int| 0 <= k < cells(s) && cs[k] == cs[i] implies #[trigger] m[k] == cs[k] by { }
    lemma_linked_frame(cs, m, s, i, j);
}

#[verifier::spinoff_prover]
pub proof fn lemma_alive_play(cs: Seq<Option<Color>>, s: (u8, u8), p: int, x: Color, su: bool)
    requires alive(cs, s), cs.len() == cells(s), 0 <= p < cells(s), cs[p] is None, su || !suicidal(cs, s, p, x),
    ensures alive(play_of(cs, s, p, x, su), s),
{
    let (d, m, r) = (placed(cs, p, x), capt(cs, s, p, x), play_of(cs, s, p, x, su));
    assert forall|i: int| 0 <= i < cells(s) && (#[trigger] r[i]) is Some implies breathes(r, s, i) by {
        assert(m[i] == r[i] && d[i] == m[i]);
        if d[i] == Some(opp(x)) {
            lemma_capt_all(cs, s, p, x, i);
            assert(!caught(d, s, p, opp(x), i));
            assert(breathes(d, s, i));
            let (j, k) = choose|j: int, k: int| #[trigger] has_air(d, s, i, j, k);
            lemma_capt_keep(cs, s, p, x, i, j);
            assert forall|k: int| 0 <= k < cells(s) && m[k] == m[i] implies #[trigger] r[k] == m[k] by {
                if linked(m, s, p, k) { lemma_linked_in(m, s, p, k); assert(m[p] == Some(x)); }
            }
            lemma_linked_frame(m, r, s, i, j);
            assert(r[k] is None);
            assert(has_air(r, s, i, j, k));
        } else {
            assert(d[i] == Some(x));
            assert(m[p] == Some(x));
            if linked(m, s, p, i) {
                assert(r == m);
                lemma_breathes_linked(m, s, p, i);
            } else {
                if i == p { lemma_linked_refl(m, s, p); }
                assert(cs[i] == Some(x));
                let (j, k) = choose|j: int, k: int| #[trigger] has_air(cs, s, i, j, k);
                lemma_capt_own(cs, s, p, x, i, j);
                lemma_linked_in(m, s, i, j);
                if k == p {
                    lemma_linked_edge(m, s, j, p);
                    lemma_linked_trans(m, s, i, j, p);
                    lemma_linked_sym(m, s, i, p);
                }
                assert(m[k] is None);
                assert(r[k] is None);
                assert forall|l: int| #![trigger r[l]] 0 <= l < cells(s) && linked(m, s, i, l) implies r[l] == m[l] by {
                    if linked(m, s, p, l) { lemma_linked_sym(m, s, i, l); lemma_linked_trans(m, s, p, l, i); }
                }
                lemma_linked_keep(m, r, s, i, j);
                assert(has_air(r, s, i, j, k));
            }
        }
    }
}

// ---------------------------------------------------------------- from the board to colours
#[verifier::spinoff_prover]
pub proof fn lemma_breathes_lib(v: GV, i: int)
    requires inv(v), 0 <= i < cells(v.size), id(v, i) != -1,
    ensures breathes(cols(v), v.size, i) == !nolib(v, id(v, i)),
{
    let c = id(v, i);
    let (cs, s) = (cols(v), v.size);
    lemma_cells(s);
    assert(live(v, c));
    if breathes(cs, s, i) {
        let (j, k) = choose|j: int, k: int| #[trigger] has_air(cs, s, i, j, k);
        lemma_linked_in(cs, s, i, j);
        lemma_groups_are_regions(v, i, j);
        lemma_adj_sym(s, j, k);
        assert(cs[k] == col(v, k));
        assert(touches(v, c, k));
        assert(islib(v, c, k));
        assert(lbit(ch(v, c).liberties, k));
    }
    if !nolib(v, c) {
        let k = choose|k: int| 0 <= k < 368 && #[trigger] lbit(ch(v, c).liberties, k);
        assert(islib(v, c, k));
        let j = choose|j: int| #[trigger] adj(v.size, k, j) && id(v, j) == c;
        lemma_groups_are_regions(v, i, j);
        lemma_adj_sym(s, k, j);
        assert(cs[k] == col(v, k));
        assert(has_air(cs, s, i, j, k));
    }
}

pub proof fn lemma_kills(w: GV, p: int, x: Color, i: int)
    requires inv(w), 0 <= p < cells(w.size), 0 <= i < cells(w.size),
    ensures caught(cols(w), w.size, p, opp(x), i) <==> id(w, i) != -1 && kills(w, p, x, id(w, i)),
{
    let (d, s) = (cols(w), w.size);
    lemma_cells(s);
    assert(d[i] == col(w, i));
    if id(w, i) != -1 {
        let c = id(w, i);
        assert(live(w, c));
        lemma_breathes_lib(w, i);
        if touches(w, c, p) {
            let j = choose|j: int| #[trigger] adj(s, p, j) && id(w, j) == c;
            lemma_groups_are_regions(w, i, j);
            assert(next_to(d, s, p, i));
        }
        if next_to(d, s, p, i) {
            let j = choose|j: int| #[trigger] adj(s, p, j) && linked(d, s, i, j);
            lemma_groups_are_regions(w, i, j);
            assert(touches(w, c, p));
        }
    }
}

/// Taking off the groups `ds` the added stone left without liberties gives the middle position.
#[verifier::spinoff_prover]
pub proof fn lemma_off_capt(cs: Seq<Option<Color>>, w: GV, m: GV, p: int, x: Color, ds: Seq<usize>)
    requires
        inv(w), inv(m), 0 <= p < cells(w.size), cols(w) == placed(cs, p, x), cs.len() == cells(w.size), off_mid(w, m, ds),
        forall|c: usize| #![trigger ds.contains(c)] ds.contains(c) <==> kills(w, p, x, c as int),
    ensures cols(m) == capt(cs, w.size, p, x),
{
    let s = w.size;
    lemma_cells(s);
    assert(cols(m) =~= capt(cs, s, p, x)) by {
        assert forall|i: int| 0 <= i < cells(s) implies cols(m)[i] == capt(cs, s, p, x)[i] by {
            lemma_kills(w, p, x, i);
            assert(id(m, i) == (if gone(w, ds, i) { -1 } else { id(w, i) }));
            assert(cols(w)[i] == col(w, i));
            if id(w, i) != -1 {
                let c = id(w, i);
                assert(live(w, c));
                assert((c as usize) as int == c);
                if !gone(w, ds, i) { assert(live(m, c)); assert(same_but_libs(ch(w, c), ch(m, c))); }
            }
        }
    }
}

/// What push_wth_feedback and remove_captured_stones_aux do together is a play.
#[verifier::spinoff_prover]
pub proof fn lemma_removal_play(cs: Seq<Option<Color>>, w: GV, m: GV, r: GV, p: int, x: Color, ds: Seq<usize>, su: bool)
    requires
        inv(w), inv(r), 0 <= p < cells(w.size), cols(w) == placed(cs, p, x), cs.len() == cells(w.size), r.size == w.size,
        forall|c: usize| #![trigger ds.contains(c)] ds.contains(c) <==> kills(w, p, x, c as int),
        removal(w, m, r, ds, id(w, p), su),
    ensures
        cols(r) == play_of(cs, w.size, p, x, su),
        live(r, id(w, p)) == !(su && suicidal(cs, w.size, p, x)),
{
    let s = w.size;
    lemma_cells(s);
    lemma_off_capt(cs, w, m, p, x, ds);
    let a = id(w, p);
    assert(cols(w)[p] == Some(x));
    assert(cols(w)[p] == col(w, p));
    assert(live(w, a));
    assert(!gone(w, ds, p)) by { if gone(w, ds, p) { assert((a as usize) as int == a); assert(kills(w, p, x, a)); } }
    assert(id(m, p) == a);
    assert(same_but_libs(ch(w, a), ch(m, a)));
    lemma_breathes_lib(m, p);
    if su && nolib(m, a) {
        lemma_taken_cols(m, r, a);
        assert(cols(r) =~= play_of(cs, s, p, x, su)) by {
            assert forall|i: int| 0 <= i < cells(s) implies cols(r)[i] == play_of(cs, s, p, x, su)[i] by {
                lemma_groups_are_regions(m, p, i);
            }
        }
    }
}

// ---------------------------------------------------------------- suicide
/// Every liberty of group c is p.
pub open spec fn only_lib(v: GV, c: int, p: int) -> bool { forall|k: int| #[trigger] islib(v, c, k) ==> k == p }

pub proof fn lemma_only_lib(v: GV, c: int, p: int)
    requires inv(v), live(v, c), islib(v, c, p),
    ensures (lset(ch(v, c).liberties).len() == 1) == only_lib(v, c, p),
{
    let l = ch(v, c).liberties;
    lemma_cells(v.size);
    assert(lbit(l, p));
    assert(lset(l).contains(p));
    if lset(l).len() == 1 {
        assert forall|k: int| #[trigger] islib(v, c, k) implies k == p by {
            assert(lbit(l, k));
            assert(lset(l).contains(k));
            Set::lemma_is_singleton(lset(l));
        }
    }
    if only_lib(v, c, p) {
        assert(lset(l) =~= Set::<int>::empty().insert(p)) by {
            assert forall|k: int| lset(l).contains(k) == (k == p) by { if lset(l).contains(k) { assert(lbit(l, k)); assert(islib(v, c, k)); } }
        }
    }
}

/// Group c, next to the empty cell p, saves a stone of colour x added there: it has a second liberty, or is captured.
pub open spec fn saves(v: GV, c: int, p: int, x: Color) -> bool {
    live(v, c) && touches(v, c, p) && (if ch(v, c).color == x { !only_lib(v, c, p) } else { only_lib(v, c, p) })
}

/// An opposing group whose last liberty is taken is captured.
#[verifier::spinoff_prover]
pub proof fn lemma_last_lib(v: GV, p: int, x: Color, i: int)
    requires inv(v), 0 <= p < cells(v.size), id(v, p) == -1, 0 <= i < cells(v.size), id(v, i) != -1, ch(v, id(v, i)).color == opp(x), touches(v, id(v, i), p),
    ensures caught(placed(cols(v), p, x), v.size, p, opp(x), i) == only_lib(v, id(v, i), p),
{
    let (cs, s, c) = (cols(v), v.size, id(v, i));
    let d = placed(cs, p, x);
    lemma_cells(s);
    assert(live(v, c));
    assert(cs[i] == col(v, i) && cs[p] == col(v, p));
    assert forall|k: int| 0 <= k < cells(s) && cs[k] == cs[i] implies #[trigger] d[k] == cs[k] by { }
    let j0 = choose|j: int| #[trigger] adj(s, p, j) && id(v, j) == c;
    lemma_groups_are_regions(v, i, j0);
    lemma_linked_frame(cs, d, s, i, j0);
    assert(next_to(d, s, p, i));
    if breathes(d, s, i) {
        let (j, k) = choose|j: int, k: int| #[trigger] has_air(d, s, i, j, k);
        assert forall|k: int| 0 <= k < cells(s) && d[k] == d[i] implies #[trigger] cs[k] == d[k] by { }
        lemma_linked_frame(d, cs, s, i, j);
        lemma_linked_in(cs, s, i, j);
        lemma_groups_are_regions(v, i, j);
        lemma_adj_sym(s, j, k);
        assert(cs[k] == col(v, k));
        assert(touches(v, c, k));
        assert(islib(v, c, k));
        assert(k != p);
    }
    if !only_lib(v, c, p) {
        let k = choose|k: int| #[trigger] islib(v, c, k) && k != p;
        let j = choose|j: int| #[trigger] adj(v.size, k, j) && id(v, j) == c;
        lemma_groups_are_regions(v, i, j);
        lemma_linked_frame(cs, d, s, i, j);
        lemma_adj_sym(s, j, k);
        assert(cs[k] == col(v, k));
        assert(has_air(d, s, i, j, k));
    }
}

pub proof fn lemma_cell(v: GV, i: int)
    requires inv(v), 0 <= i < cells(v.size),
    ensures cols(v).len() == cells(v.size), (cols(v)[i] is None) == (id(v, i) == -1), id(v, i) != -1 ==> live(v, id(v, i)) && cols(v)[i] == Some(ch(v, id(v, i)).color),
{
    lemma_cells(v.size);
    assert(cols(v)[i] == col(v, i));
}

pub proof fn lemma_inv_size(v: GV)
    requires inv(v),
    ensures size_ok(v.size), 0 <= cells(v.size) <= 361, cols(v).len() == cells(v.size),
{
    lemma_cells(v.size);
}

#[verifier::spinoff_prover]
pub proof fn lemma_suicide_1(v: GV, p: int, x: Color, c: int)
    requires inv(v), 0 <= p < cells(v.size), id(v, p) == -1, saves(v, c, p, x),
    ensures breathes(capt(cols(v), v.size, p, x), v.size, p),
{
    hide(inv); hide(linked); hide(breathes); hide(caught); hide(cols);
    let (cs, s) = (cols(v), v.size);
    let (d, m) = (placed(cs, p, x), capt(cs, s, p, x));
    lemma_inv_size(v);
    lemma_cell(v, p);
    lemma_own_stone(cs, s, p, x);
    lemma_linked_refl(m, s, p);
    let j = choose|j: int| #[trigger] adj(s, p, j) && id(v, j) == c;
    lemma_cell(v, j);
    if ch(v, c).color == x {
        let k = choose|k: int| #[trigger] islib(v, c, k) && k != p;
        let j2 = choose|j: int| #[trigger] adj(v.size, k, j) && id(v, j) == c;
        lemma_groups_are_regions(v, j, j2);
        lemma_capt_own(cs, s, p, x, j, j2);
        lemma_linked_in(m, s, j, j2);
        lemma_own_stone(cs, s, p, x);
        assert(m[j] == Some(x)) by { reveal(caught); }
        lemma_linked_edge(m, s, p, j);
        lemma_linked_trans(m, s, p, j, j2);
        lemma_adj_sym(s, j2, k);
        lemma_cell(v, k);
        assert(m[k] is None);
        lemma_air(m, s, p, j2, k);
    } else {
        lemma_last_lib(v, p, x, j);
        assert(m[j] is None);
        lemma_air(m, s, p, p, j);
    }
}

pub proof fn lemma_air(cs: Seq<Option<Color>>, s: (u8, u8), i: int, j: int, k: int)
    requires linked(cs, s, i, j), adj(s, j, k), cs[k] is None,
    ensures breathes(cs, s, i),
{
    assert(has_air(cs, s, i, j, k));
}

pub proof fn lemma_own_stone(cs: Seq<Option<Color>>, s: (u8, u8), p: int, x: Color)
    requires cs.len() == cells(s), 0 <= p < cells(s),
    ensures placed(cs, p, x)[p] == Some(x), capt(cs, s, p, x)[p] == Some(x),
{
}

#[verifier::spinoff_prover]
pub proof fn lemma_suicide_2(v: GV, p: int, x: Color)
    requires inv(v), 0 <= p < cells(v.size), id(v, p) == -1, breathes(capt(cols(v), v.size, p, x), v.size, p),
    ensures (exists|k: int| #[trigger] adj(v.size, p, k) && id(v, k) == -1) || exists|c: int| #[trigger] saves(v, c, p, x),
{
    hide(inv); hide(linked); hide(cols);
    let (cs, s) = (cols(v), v.size);
    let (d, m) = (placed(cs, p, x), capt(cs, s, p, x));
    lemma_inv_size(v);
    lemma_cell(v, p);
    lemma_own_stone(cs, s, p, x);
    let (j, k) = choose|j: int, k: int| #[trigger] has_air(m, s, p, j, k);
    lemma_linked_in(m, s, p, j);
    lemma_cell(v, k);
    lemma_cell(v, j);
    assert(k != p);
    if d[k] is None {
        if j != p { lemma_way_out(v, p, x, j, k); }
    } else {
        assert(caught(d, s, p, opp(x), k));
        let c = id(v, k);
        let q = choose|q: int| #[trigger] adj(s, p, q) && linked(d, s, k, q);
        assert forall|l: int| 0 <= l < cells(s) && d[l] == d[k] implies #[trigger] cs[l] == d[l] by { }
        lemma_linked_frame(d, cs, s, k, q);
        lemma_linked_in(cs, s, k, q);
        lemma_groups_are_regions(v, k, q);
        assert(touches(v, c, p));
        lemma_last_lib(v, p, x, k);
        assert(saves(v, c, p, x));
    }
}

#[verifier::spinoff_prover]
pub proof fn lemma_way_out(v: GV, p: int, x: Color, j: int, k: int)
    requires
        inv(v), 0 <= p < cells(v.size), id(v, p) == -1, linked(capt(cols(v), v.size, p, x), v.size, p, j), j != p, adj(v.size, j, k), id(v, k) == -1, k != p,
    ensures exists|c: int| #[trigger] saves(v, c, p, x),
{
    hide(inv); hide(cols); hide(caught);
    let (cs, s) = (cols(v), v.size);
    let (d, m) = (placed(cs, p, x), capt(cs, s, p, x));
    lemma_inv_size(v);
    lemma_cell(v, p);
    lemma_own_stone(cs, s, p, x);
    lemma_linked_in(m, s, p, j);
    let path = choose|path: Seq<int>| is_path(m, s, path, p, j);
    lemma_leave(cs, m, s, p, x, path, p, j);
    let q = choose|q: int| #[trigger] adj(s, p, q) && linked(cs, s, q, j);
    lemma_linked_in(cs, s, q, j);
    assert(m[j] == Some(x));
    assert(cs[j] == Some(x));
    lemma_cell(v, q);
    let c = id(v, q);
    lemma_groups_are_regions(v, q, j);
    assert(touches(v, c, p));
    lemma_adj_sym(s, j, k);
    assert(touches(v, c, k));
    assert(islib(v, c, k));
    assert(saves(v, c, p, x));
}

#[verifier::spinoff_prover]
pub proof fn lemma_suicide(v: GV, p: int, x: Color)
    requires inv(v), 0 <= p < cells(v.size), id(v, p) == -1,
    ensures suicidal(cols(v), v.size, p, x) == !((exists|k: int| #[trigger] adj(v.size, p, k) && id(v, k) == -1) || exists|c: int| #[trigger] saves(v, c, p, x)),
{
    hide(inv); hide(linked); hide(breathes); hide(caught); hide(cols); hide(capt); hide(saves);
    let (cs, s) = (cols(v), v.size);
    let m = capt(cs, s, p, x);
    lemma_inv_size(v);
    if breathes(m, s, p) { lemma_suicide_2(v, p, x); }
    if exists|c: int| #[trigger] saves(v, c, p, x) { lemma_suicide_1(v, p, x, choose|c: int| #[trigger] saves(v, c, p, x)); }
    if exists|k: int| #[trigger] adj(s, p, k) && id(v, k) == -1 {
        let k = choose|k: int| #[trigger] adj(s, p, k) && id(v, k) == -1;
        lemma_cell(v, k); lemma_cell(v, p);
        lemma_adj_irrefl(s, p);
        assert(m[k] is None) by { reveal(capt); reveal(caught); }
        lemma_own_stone(cs, s, p, x);
        lemma_linked_refl(m, s, p);
        lemma_air(m, s, p, p, k);
    }
}

pub proof fn lemma_adj_irrefl(s: (u8, u8), i: int)
    ensures !adj(s, i, i),
{
}

} // verus!
