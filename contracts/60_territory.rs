verus! {

// ================================================================ stand-in for std's HashSet
/// A finite set; iteration visits every member once, in no specified order.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct HashSet<T> { v: Vec<T> }

impl<T> View for HashSet<T> {
    type V = Set<T>;
    uninterp spec fn view(&self) -> Set<T>;
}

impl<T> HashSet<T> {
    pub uninterp spec fn order(&self) -> Seq<T>;

    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Set::<T>::empty(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn insert(&mut self, x: T) -> (r: bool)
        ensures final(self)@ == old(self)@.insert(x), r == !old(self)@.contains(x),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self@.len(),
    { unimplemented!() }
}

#[verifier::external_body]
pub proof fn lemma_hs_order<T>(h: HashSet<T>)
    ensures h.order().no_duplicates(), forall|x: T| #[trigger] h.order().contains(x) <==> h@.contains(x),
{ }

impl<'a, T> VContains<&'a T> for HashSet<T> {
    open spec fn vc(&self, x: &'a T) -> bool { self@.contains(*x) }
    open spec fn vc_req(&self, x: &'a T) -> bool { true }
    #[verifier::external_body]
    fn v_contains(&self, x: &'a T) -> (r: bool) { unimplemented!() }
}

impl<T> IntoIt<T> for HashSet<T> {
    open spec fn it_req(self) -> bool { true }
    open spec fn it_seq(self) -> Seq<T> { self.order() }
    #[verifier::external_body]
    fn into_it(self) -> (r: It<T>) { unimplemented!() }
}

impl<'a, T> IntoIt<&'a T> for &'a HashSet<T> {
    open spec fn it_req(self) -> bool { true }
    open spec fn it_seq(self) -> Seq<&'a T> { refs(self.order()) }
    #[verifier::external_body]
    fn into_it(self) -> (r: It<&'a T>) { unimplemented!() }
}

pub trait VExtend<T>: Sized {
    spec fn ve(&self) -> Seq<T>;
    fn v_extend<I: IntoIt<T>>(&mut self, it: I)
        requires it.it_req(),
        ensures final(self).ve() == old(self).ve() + it.it_seq();
}
impl<T> VExtend<T> for Vec<T> {
    open spec fn ve(&self) -> Seq<T> { self@ }
    fn v_extend<I: IntoIt<T>>(&mut self, it: I) {
        let mut x = it.into_it();
        self.append(&mut x.v);
    }
}

// ================================================================ regions
/// q is a point of the board, as it is on the board, in the region of s.
pub open spec fn in_region(v: GV, s: Point, q: Point) -> bool {
    valid(v.size, q.coord) && q == pt(v, q.coord) && linked(cols(v), v.size, idx(v.size, s.coord), idx(v.size, q.coord))
}

pub open spec fn nbr(v: GV, p: Point, q: Point) -> bool {
    valid(v.size, q.coord) && adjc(p.coord, q.coord) && q == pt(v, q.coord) && q.color == p.color
}

/// The worklist invariant of the fill: everything found is in the region of s, and an unexplored neighbour of an explored
/// point waits in the list above every copy of that point.
pub open spec fn flood(v: GV, s: Point, ex: Set<Point>, st: Seq<Point>) -> bool {
    &&& ex.contains(s)
    &&& forall|q: Point| #[trigger] ex.contains(q) ==> in_region(v, s, q)
    &&& forall|i: int| 0 <= i < st.len() ==> in_region(v, s, #[trigger] st[i])
    &&& forall|p: Point, q: Point| #![trigger ex.contains(p), nbr(v, p, q)] ex.contains(p) && nbr(v, p, q) && !ex.contains(q) ==> above(st, p, q)
}

/// q is in st, above every p.
pub open spec fn above(st: Seq<Point>, p: Point, q: Point) -> bool {
    exists|j: int| 0 <= j < st.len() && #[trigger] st[j] == q && (forall|i: int| 0 <= i < st.len() && #[trigger] st[i] == p ==> i < j)
}

pub proof fn lemma_pt_col(v: GV, c: (u8, u8))
    requires S(v), valid(v.size, c),
    ensures 0 <= idx(v.size, c) < cells(v.size) <= 361, cols(v)[idx(v.size, c)] == colat(v, c), coord_of(v.size, idx(v.size, c)) == c, size_ok(v.size),
{
    lemma_idx(v.size, c);
}

pub proof fn lemma_region_start(v: GV, s: Point)
    requires S(v), valid(v.size, s.coord), s == pt(v, s.coord),
    ensures in_region(v, s, s),
{
    lemma_pt_col(v, s.coord);
    lemma_linked_refl(cols(v), v.size, idx(v.size, s.coord));
}

/// A neighbour of the same colour is in the region too.
pub proof fn lemma_region_nbr(v: GV, s: Point, p: Point, q: Point)
    requires S(v), valid(v.size, s.coord), in_region(v, s, p), nbr(v, p, q),
    ensures in_region(v, s, q),
{
    hide(linked);
    lemma_pt_col(v, s.coord);
    lemma_pt_col(v, p.coord);
    lemma_pt_col(v, q.coord);
    let (a, b, c) = (idx(v.size, s.coord), idx(v.size, p.coord), idx(v.size, q.coord));
    lemma_linked_edge(cols(v), v.size, b, c);
    lemma_linked_trans(cols(v), v.size, a, b, c);
}

pub proof fn lemma_region_color(v: GV, s: Point, p: Point)
    requires S(v), valid(v.size, s.coord), s == pt(v, s.coord), in_region(v, s, p),
    ensures p.color == s.color,
{
    hide(linked);
    lemma_pt_col(v, s.coord);
    lemma_pt_col(v, p.coord);
    lemma_linked_in(cols(v), v.size, idx(v.size, s.coord), idx(v.size, p.coord));
}

/// The list added for p: its neighbours of the colour that are not in ex.
pub proof fn lemma_flood_list(v: GV, p: Point, ex: Set<Point>, ps: Seq<Point>, bs: Seq<bool>)
    requires
        valid(v.size, p.coord), nb_points(v, p.coord, ps), bs.len() == ps.len(),
        forall|i: int| #![trigger bs[i]] #![trigger ps[i]] 0 <= i < ps.len() ==> bs[i] == (ps[i].color == p.color && !ex.contains(ps[i])),
    ensures forall|q: Point| #[trigger] keep_by(ps, bs).contains(q) <==> nbr(v, p, q) && !ex.contains(q),
{
    hide(colat);
    lemma_keep_by_members(ps, bs);
    let k = keep_by(ps, bs);
    assert forall|q: Point| #[trigger] k.contains(q) <==> nbr(v, p, q) && !ex.contains(q) by {
        if nbr(v, p, q) && !ex.contains(q) {
            assert(ps.contains(pt(v, q.coord)));
            let i = choose|i: int| 0 <= i < ps.len() && ps[i] == q;
            assert(bs[i]);
        }
    }
}

#[verifier::spinoff_prover]
pub proof fn lemma_flood_start(v: GV, s: Point, ex: Set<Point>, ps: Seq<Point>, bs: Seq<bool>, st: Seq<Point>)
    requires
        S(v), valid(v.size, s.coord), s == pt(v, s.coord), ex == Set::<Point>::empty().insert(s),
        nb_points(v, s.coord, ps), bs.len() == ps.len(), st == keep_by(ps, bs),
        forall|i: int| #![trigger bs[i]] #![trigger ps[i]] 0 <= i < ps.len() ==> bs[i] == (ps[i].color == s.color),
    ensures flood(v, s, ex, st),
{
    hide(S); hide(in_region); hide(colat);
    lemma_region_start(v, s);
    assert(!ps.contains(s)) by {
        if ps.contains(s) { let i = choose|i: int| 0 <= i < ps.len() && ps[i] == s; assert(adjc(s.coord, ps[i].coord)); }
    }
    assert forall|i: int| #![trigger bs[i]] #![trigger ps[i]] 0 <= i < ps.len() implies bs[i] == (ps[i].color == s.color && !ex.contains(ps[i])) by {
        assert(ps.contains(ps[i]));
    }
    lemma_flood_list(v, s, ex, ps, bs);
    assert forall|i: int| 0 <= i < st.len() implies in_region(v, s, #[trigger] st[i]) by {
        assert(st.contains(st[i]));
        lemma_region_nbr(v, s, s, st[i]);
    }
    assert forall|p: Point, q: Point| #![trigger ex.contains(p), nbr(v, p, q)] ex.contains(p) && nbr(v, p, q) && !ex.contains(q) implies above(st, p, q) by {
        assert(p == s);
        assert(st.contains(q));
        let j = choose|j: int| 0 <= j < st.len() && st[j] == q;
        assert forall|i: int| 0 <= i < st.len() && #[trigger] st[i] == p implies i < j by { assert(st.contains(st[i])); }
    }
}

#[verifier::spinoff_prover]
pub proof fn lemma_flood_len(v: GV, s: Point, ex: Set<Point>, st: Seq<Point>)
    requires S(v), flood(v, s, ex, st),
    ensures ex.len() <= cells(v.size),
{
    hide(S); hide(colat);
    lemma_pts_len(v, ex, cells(v.size));
}

#[verifier::spinoff_prover]
pub proof fn lemma_pts_len(v: GV, ex: Set<Point>, n: int)
    requires S(v), 0 <= n, forall|p: Point| #[trigger] ex.contains(p) ==> valid(v.size, p.coord) && p == pt(v, p.coord) && (idx(v.size, p.coord) < n || n >= cells(v.size)),
    ensures ex.len() <= n,
    decreases n,
{
    hide(S); hide(colat);
    if n == 0 {
        assert forall|p: Point| !ex.contains(p) by { if ex.contains(p) { lemma_pt_col(v, p.coord); } }
        assert(ex =~= Set::empty());
    } else {
        if exists|p: Point| #[trigger] ex.contains(p) && idx(v.size, p.coord) >= n - 1 {
            let p = choose|p: Point| #[trigger] ex.contains(p) && idx(v.size, p.coord) >= n - 1;
            let e = ex.remove(p);
            assert forall|q: Point| #[trigger] e.contains(q) implies valid(v.size, q.coord) && q == pt(v, q.coord) && (idx(v.size, q.coord) < n - 1 || n - 1 >= cells(v.size)) by {
                assert(ex.contains(q));
                lemma_pt_col(v, p.coord);
                lemma_pt_col(v, q.coord);
            }
            lemma_pts_len(v, e, n - 1);
        } else {
            assert forall|q: Point| #[trigger] ex.contains(q) implies valid(v.size, q.coord) && q == pt(v, q.coord) && (idx(v.size, q.coord) < n - 1 || n - 1 >= cells(v.size)) by { }
            lemma_pts_len(v, ex, n - 1);
        }
    }
}

#[verifier::spinoff_prover]
pub proof fn lemma_flood_top(v: GV, s: Point, ex: Set<Point>, st: Seq<Point>)
    requires S(v), valid(v.size, s.coord), s == pt(v, s.coord), flood(v, s, ex, st), st.len() > 0,
    ensures
        valid(v.size, st.last().coord),
        st.last().color == s.color,
{
    hide(S); hide(colat);
    assert(in_region(v, s, st[st.len() - 1]));
    lemma_region_color(v, s, st.last());
}

#[verifier::spinoff_prover]
pub proof fn lemma_flood_step(v: GV, s: Point, ex: Set<Point>, st: Seq<Point>, ex1: Set<Point>, ps: Seq<Point>, bs: Seq<bool>, st1: Seq<Point>)
    requires
        S(v), valid(v.size, s.coord), s == pt(v, s.coord), flood(v, s, ex, st), st.len() > 0, ex1 == ex.insert(st.last()),
        nb_points(v, st.last().coord, ps), bs.len() == ps.len(), st1 == st.drop_last() + keep_by(ps, bs),
        forall|i: int| #![trigger bs[i]] #![trigger ps[i]] 0 <= i < ps.len() ==> bs[i] == (ps[i].color == s.color && !ex1.contains(ps[i])),
    ensures
        flood(v, s, ex1, st1),
        ex1.len() > ex.len() || (ex1.len() == ex.len() && st1.len() < st.len()),
{
    hide(S); hide(in_region); hide(colat);
    let p = st.last();
    let k = keep_by(ps, bs);
    let n = st.len() - 1;
    assert(p == st[n]);
    lemma_region_color(v, s, p);
    assert(valid(v.size, p.coord)) by { reveal(in_region); }
    lemma_flood_list(v, p, ex1, ps, bs);
    assert forall|i: int| 0 <= i < st1.len() implies in_region(v, s, #[trigger] st1[i]) by {
        if i < n { assert(st1[i] == st[i]); }
        else { assert(st1[i] == k[i - n]); assert(k.contains(st1[i])); lemma_region_nbr(v, s, p, st1[i]); }
    }
    assert forall|a: Point, q: Point| #![trigger ex1.contains(a), nbr(v, a, q)] ex1.contains(a) && nbr(v, a, q) && !ex1.contains(q) implies above(st1, a, q) by {
        if a == p {
            assert(k.contains(q));
            let m = choose|m: int| 0 <= m < k.len() && k[m] == q;
            assert(st1[n + m] == q);
            assert forall|i: int| 0 <= i < st1.len() && #[trigger] st1[i] == a implies i < n + m by {
                if i >= n { assert(st1[i] == k[i - n]); assert(k.contains(k[i - n])); }
            }
        } else {
            assert(ex.contains(a));
            assert(above(st, a, q));
            let j = choose|j: int| 0 <= j < st.len() && #[trigger] st[j] == q && (forall|i: int| 0 <= i < st.len() && #[trigger] st[i] == a ==> i < j);
            assert(q != p);
            assert(j < n);
            assert(st1[j] == q);
            assert forall|i: int| 0 <= i < st1.len() && #[trigger] st1[i] == a implies i < j by {
                if i >= n { assert(st1[i] == k[i - n]); assert(k.contains(k[i - n])); }
                else { assert(st[i] == a); }
            }
        }
    }
    if ex.contains(p) {
        assert(ex1 =~= ex);
        assert forall|q: Point| !k.contains(q) by {
            if k.contains(q) {
                assert(nbr(v, p, q) && !ex.contains(q));
                assert(above(st, p, q));
                let j = choose|j: int| 0 <= j < st.len() && #[trigger] st[j] == q && (forall|i: int| 0 <= i < st.len() && #[trigger] st[i] == p ==> i < j);
                assert(st[n] == p);
                assert(n < j);
            }
        }
        if k.len() > 0 { assert(k.contains(k[0])); }
    }
}

#[verifier::spinoff_prover]
pub proof fn lemma_flood_end(v: GV, s: Point, ex: Set<Point>, st: Seq<Point>)
    requires S(v), valid(v.size, s.coord), s == pt(v, s.coord), flood(v, s, ex, st), st.len() == 0,
    ensures forall|q: Point| #[trigger] ex.contains(q) <==> in_region(v, s, q),
{
    hide(S); hide(colat);
    assert forall|q: Point| in_region(v, s, q) implies #[trigger] ex.contains(q) by {
        let (a, b) = (idx(v.size, s.coord), idx(v.size, q.coord));
        let path = choose|path: Seq<int>| is_path(cols(v), v.size, path, a, b);
        lemma_flood_path(v, s, ex, st, path, path.len() - 1);
        lemma_pt_col(v, q.coord);
    }
}

#[verifier::spinoff_prover]
pub proof fn lemma_flood_path(v: GV, s: Point, ex: Set<Point>, st: Seq<Point>, path: Seq<int>, k: int)
    requires S(v), valid(v.size, s.coord), s == pt(v, s.coord), flood(v, s, ex, st), st.len() == 0, is_path(cols(v), v.size, path, idx(v.size, s.coord), path[path.len() - 1]), 0 <= k < path.len(),
    ensures ex.contains(pt(v, coord_of(v.size, path[k]))),
    decreases k,
{
    hide(S); hide(in_region); hide(colat); hide(linked);
    lemma_pt_col(v, s.coord);
    if k > 0 {
        lemma_flood_path(v, s, ex, st, path, k - 1);
        let (a, b) = (path[k - 1], path[k]);
        assert(adj(v.size, a, b));
        lemma_coord_of(v.size, a);
        lemma_coord_of(v.size, b);
        let (p, q) = (pt(v, coord_of(v.size, a)), pt(v, coord_of(v.size, b)));
        lemma_pt_col(v, p.coord);
        lemma_pt_col(v, q.coord);
        assert(nbr(v, p, q));
        if !ex.contains(q) { assert(above(st, p, q)); }
    }
}

/// g is the region of one of the points ss.
pub open spec fn chain_of(v: GV, ss: Seq<Point>, g: Set<Point>) -> bool {
    exists|i: int| 0 <= i < ss.len() && region_of(v, #[trigger] ss[i], g)
}
pub open spec fn region_of(v: GV, s: Point, g: Set<Point>) -> bool {
    &&& valid(v.size, s.coord) && s == pt(v, s.coord)
    &&& forall|q: Point| #[trigger] g.contains(q) <==> in_region(v, s, q)
}

pub open spec fn some_has(gs: Seq<HashSet<Point>>, p: Point) -> bool {
    exists|k: int| 0 <= k < gs.len() && (#[trigger] gs[k])@.contains(p)
}

pub open spec fn apart(gs: Seq<HashSet<Point>>) -> bool {
    forall|i: int, j: int, p: Point| #![trigger gs[i]@.contains(p), gs[j]@.contains(p)] 0 <= i < gs.len() && 0 <= j < gs.len() && gs[i]@.contains(p) && gs[j]@.contains(p) ==> i == j
}

/// Two points of one region have the same region.
#[verifier::spinoff_prover]
pub proof fn lemma_region_same(v: GV, s: Point, p: Point, q: Point)
    requires S(v), valid(v.size, s.coord), in_region(v, s, p), in_region(v, s, q),
    ensures in_region(v, p, q),
{
    hide(linked); hide(S);
    let (a, b, c) = (idx(v.size, s.coord), idx(v.size, p.coord), idx(v.size, q.coord));
    lemma_linked_sym(cols(v), v.size, a, b);
    lemma_linked_trans(cols(v), v.size, b, a, c);
}

#[verifier::spinoff_prover]
pub proof fn lemma_region_join(v: GV, s: Point, p: Point, q: Point)
    requires S(v), in_region(v, s, p), in_region(v, p, q),
    ensures in_region(v, s, q),
{
    hide(linked); hide(S);
    let (a, b, c) = (idx(v.size, s.coord), idx(v.size, p.coord), idx(v.size, q.coord));
    lemma_linked_trans(cols(v), v.size, a, b, c);
}

#[verifier::spinoff_prover]
pub proof fn lemma_chains_step(v: GV, ss: Seq<Point>, at: int, g0: Seq<HashSet<Point>>, g1: Seq<HashSet<Point>>, s: Point, handled: bool)
    requires
        S(v), 0 <= at < ss.len(), s == ss[at], valid(v.size, s.coord), s == pt(v, s.coord),
        forall|k: int| 0 <= k < g0.len() ==> chain_of(v, ss, #[trigger] g0[k]@), apart(g0),
        if handled { g1 == g0 && some_has(g0, s) } else {
            &&& !some_has(g0, s) && g1.len() == g0.len() + 1 && (forall|k: int| 0 <= k < g0.len() ==> #[trigger] g1[k] == g0[k])
            &&& forall|q: Point| #[trigger] g1.last()@.contains(q) <==> in_region(v, s, q)
        },
    ensures
        forall|k: int| 0 <= k < g1.len() ==> chain_of(v, ss, #[trigger] g1[k]@), apart(g1), some_has(g1, s),
        forall|p: Point| some_has(g0, p) ==> #[trigger] some_has(g1, p),
{
    hide(S); hide(in_region);
    if !handled {
        let n = g0.len() as int;
        lemma_region_start(v, s);
        assert(g1[n] == g1.last());
        assert(region_of(v, ss[at], g1[n]@));
        assert forall|p: Point| some_has(g0, p) implies #[trigger] some_has(g1, p) by {
            let k = choose|k: int| 0 <= k < g0.len() && (#[trigger] g0[k])@.contains(p);
            assert(g1[k]@.contains(p));
        }
        assert(g1[n]@.contains(s));
        assert forall|i: int, j: int, p: Point| #![trigger g1[i]@.contains(p), g1[j]@.contains(p)] 0 <= i < g1.len() && 0 <= j < g1.len() && g1[i]@.contains(p) && g1[j]@.contains(p) implies i == j by {
            if i < n && j < n { assert(g0[i]@.contains(p) && g0[j]@.contains(p)); }
            else if i != j {
                let m = if i < n { i } else { j };
                assert(g0[m]@.contains(p) && g1[n]@.contains(p));
                assert(chain_of(v, ss, g0[m]@));
                let a = choose|a: int| 0 <= a < ss.len() && region_of(v, #[trigger] ss[a], g0[m]@);
                let t = ss[a];
                assert(in_region(v, t, p));
                assert(in_region(v, s, p));
                assert(in_region(v, p, s)) by { lemma_region_same(v, s, p, s); }
                lemma_region_join(v, t, p, s);
                assert(g0[m]@.contains(s));
            }
        }
    }
}

// ================================================================ territory
/// A stone of colour x stands next to c.
pub open spec fn nbr_has(v: GV, c: (u8, u8), x: Color) -> bool {
    exists|d: (u8, u8)| valid(v.size, d) && adjc(c, d) && #[trigger] colat(v, d) == Some(x)
}

/// The region of p touches a stone of colour x.
pub open spec fn reaches(v: GV, p: Point, x: Color) -> bool {
    exists|q: Point| #[trigger] in_region(v, p, q) && nbr_has(v, q.coord, x)
}

/// p is a point of x's territory: empty, its region touches a stone of x and none of the opponent.
pub open spec fn territory(v: GV, x: Color, p: Point) -> bool {
    valid(v.size, p.coord) && p == pt(v, p.coord) && p.color is None && reaches(v, p, x) && !reaches(v, p, opp(x))
}

/// ps lists the territory of x, every point once.
pub open spec fn is_territory(v: GV, x: Color, ps: Seq<Point>) -> bool {
    ps.no_duplicates() && forall|p: Point| #[trigger] ps.contains(p) <==> territory(v, x, p)
}

/// A stone of colour x stands next to a point of g.
pub open spec fn bordered(v: GV, g: Set<Point>, x: Color) -> bool {
    exists|q: Point| #[trigger] g.contains(q) && nbr_has(v, q.coord, x)
}

pub open spec fn owned(v: GV, g: Set<Point>, x: Color) -> bool { bordered(v, g, x) && !bordered(v, g, opp(x)) }

/// gs: the empty regions of the board, each once.
pub open spec fn regions(v: GV, ss: Seq<Point>, gs: Seq<HashSet<Point>>) -> bool {
    &&& forall|i: int| 0 <= i < ss.len() ==> valid(v.size, (#[trigger] ss[i]).coord) && ss[i] == pt(v, ss[i].coord) && ss[i].color is None
    &&& forall|p: Point| valid(v.size, p.coord) && p == pt(v, p.coord) && p.color is None ==> #[trigger] ss.contains(p)
    &&& forall|k: int| 0 <= k < gs.len() ==> chain_of(v, ss, #[trigger] gs[k]@)
    &&& forall|i: int| 0 <= i < ss.len() ==> some_has(gs, #[trigger] ss[i])
    &&& apart(gs)
}

pub open spec fn held(v: GV, x: Color, gs: Seq<HashSet<Point>>, k: int, p: Point) -> bool {
    exists|i: int| 0 <= i < k && (#[trigger] gs[i])@.contains(p) && owned(v, gs[i]@, x)
}

/// The points of the first k regions that are x's.
pub open spec fn terr_upto(v: GV, x: Color, gs: Seq<HashSet<Point>>, k: int, ps: Seq<Point>) -> bool {
    ps.no_duplicates() && forall|p: Point| #[trigger] ps.contains(p) <==> held(v, x, gs, k, p)
}

pub open spec fn on_board(v: GV, ss: Seq<Point>) -> bool { forall|i: int| 0 <= i < ss.len() ==> valid(v.size, (#[trigger] ss[i]).coord) && ss[i] == pt(v, ss[i].coord) }
/// gs: the regions of the points ss, each once.
pub open spec fn chains_of(v: GV, ss: Seq<Point>, gs: Seq<HashSet<Point>>) -> bool {
    &&& forall|k: int| 0 <= k < gs.len() ==> chain_of(v, ss, #[trigger] gs[k]@)
    &&& forall|i: int| 0 <= i < ss.len() ==> some_has(gs, #[trigger] ss[i])
    &&& apart(gs)
}

pub proof fn lemma_empty_points(v: GV)
    requires S(v),
    ensures forall|ss: Seq<Point>| #![trigger on_board(v, ss)] lists_empty(v, ss) ==> on_board(v, ss),
{
    hide(S);
    lemma_coord_list(v, None);
    assert forall|ss: Seq<Point>| #![trigger on_board(v, ss)] lists_empty(v, ss) implies on_board(v, ss) by {
        let cl = coord_list(v, None);
        assert forall|i: int| 0 <= i < ss.len() implies valid(v.size, (#[trigger] ss[i]).coord) && ss[i] == pt(v, ss[i].coord) by { assert(cl.contains(cl[i])); }
    }
}

#[verifier::spinoff_prover]
pub proof fn lemma_regions(v: GV, ss: Seq<Point>, gs: Seq<HashSet<Point>>)
    requires S(v), lists_empty(v, ss), chains_of(v, ss, gs),
    ensures regions(v, ss, gs),
{
    hide(S); hide(chain_of); hide(some_has); hide(apart);
    lemma_coord_list(v, None);
    let cl = coord_list(v, None);
    assert forall|i: int| 0 <= i < ss.len() implies valid(v.size, (#[trigger] ss[i]).coord) && ss[i] == pt(v, ss[i].coord) && ss[i].color is None by { assert(cl.contains(cl[i])); }
    assert forall|p: Point| valid(v.size, p.coord) && p == pt(v, p.coord) && p.color is None implies #[trigger] ss.contains(p) by {
        assert(cl.contains(p.coord));
        let i = choose|i: int| 0 <= i < cl.len() && cl[i] == p.coord;
        assert(ss[i] == p);
    }
}

/// ss: the empty points, in the order of coord_list.
pub open spec fn lists_empty(v: GV, ss: Seq<Point>) -> bool {
    ss.len() == coord_list(v, None).len() && forall|i: int| #![trigger ss[i]] 0 <= i < ss.len() ==> ss[i] == (Point { coord: coord_list(v, None)[i], color: None })
}

pub proof fn lemma_terr_start(v: GV, gs: Seq<HashSet<Point>>)
    ensures terr_upto(v, Color::Black, gs, 0, Seq::<Point>::empty()), terr_upto(v, Color::White, gs, 0, Seq::<Point>::empty()),
{ }

/// A neighbour that is a stone borders the region.
pub proof fn lemma_border(v: GV, g: Set<Point>, e: Point, ps: Seq<Point>, i: int)
    requires g.contains(e), nb_points(v, e.coord, ps), 0 <= i < ps.len(),
    ensures
        ps[i].color == Some(Color::Black) ==> bordered(v, g, Color::Black) && nbr_has(v, e.coord, Color::Black),
        ps[i].color == Some(Color::White) ==> bordered(v, g, Color::White) && nbr_has(v, e.coord, Color::White),
{
    hide(colat);
    let p = ps[i];
    assert(p == pt(v, p.coord));
    assert(colat(v, p.coord) == p.color);
}

pub proof fn lemma_border_none(v: GV, e: Point, ps: Seq<Point>, x: Color)
    requires nb_points(v, e.coord, ps), forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).color != Some(x),
    ensures !nbr_has(v, e.coord, x),
{
    hide(colat);
    if nbr_has(v, e.coord, x) {
        let d = choose|d: (u8, u8)| valid(v.size, d) && adjc(e.coord, d) && #[trigger] colat(v, d) == Some(x);
        assert(ps.contains(pt(v, d)));
        let i = choose|i: int| 0 <= i < ps.len() && ps[i] == pt(v, d);
        assert(ps[i].color == Some(x));
    }
}

/// One more region.
pub proof fn lemma_terr_step(v: GV, x: Color, gs: Seq<HashSet<Point>>, k: int, a: Seq<Point>, b: Seq<Point>)
    requires
        terr_upto(v, x, gs, k, a), 0 <= k < gs.len(), apart(gs),
        if owned(v, gs[k]@, x) { b == a + gs[k].order() } else { b == a },
    ensures terr_upto(v, x, gs, k + 1, b),
{
    hide(owned);
    let o = gs[k].order();
    lemma_hs_order(gs[k]);
    assert forall|p: Point| #[trigger] b.contains(p) <==> held(v, x, gs, k + 1, p) by {
        if held(v, x, gs, k + 1, p) {
            let i = choose|i: int| 0 <= i < k + 1 && (#[trigger] gs[i])@.contains(p) && owned(v, gs[i]@, x);
            if i < k {
                assert(held(v, x, gs, k, p));
                assert(a.contains(p));
                let j = choose|j: int| 0 <= j < a.len() && a[j] == p;
                assert(b[j] == p);
            } else {
                assert(o.contains(p));
                let j = choose|j: int| 0 <= j < o.len() && o[j] == p;
                assert(b[a.len() + j] == p);
            }
        }
        if b.contains(p) {
            let j = choose|j: int| 0 <= j < b.len() && b[j] == p;
            if j < a.len() {
                assert(a.contains(a[j]));
                assert(held(v, x, gs, k, p));
                let i = choose|i: int| 0 <= i < k && (#[trigger] gs[i])@.contains(p) && owned(v, gs[i]@, x);
                assert(gs[i]@.contains(p));
            } else {
                assert(o.contains(o[j - a.len()]));
                assert(gs[k]@.contains(p));
            }
        }
    }
    assert forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < b.len() && i != j implies b[i] != b[j] by {
        if i < a.len() && j >= a.len() { lemma_terr_apart(v, x, gs, k, a, i, j - a.len()); }
        else if j < a.len() && i >= a.len() { lemma_terr_apart(v, x, gs, k, a, j, i - a.len()); }
        else if i < a.len() { assert(a[i] != a[j]); }
        else { assert(o[i - a.len()] != o[j - a.len()]); }
    }
}

pub proof fn lemma_terr_apart(v: GV, x: Color, gs: Seq<HashSet<Point>>, k: int, a: Seq<Point>, i: int, j: int)
    requires terr_upto(v, x, gs, k, a), 0 <= k < gs.len(), apart(gs), 0 <= i < a.len(), 0 <= j < gs[k].order().len(),
    ensures a[i] != gs[k].order()[j],
{
    let p = a[i];
    lemma_hs_order(gs[k]);
    assert(a.contains(p));
    assert(held(v, x, gs, k, p));
    let m = choose|m: int| 0 <= m < k && (#[trigger] gs[m])@.contains(p) && owned(v, gs[m]@, x);
    if p == gs[k].order()[j] {
        assert(gs[k].order().contains(p));
        assert(gs[k]@.contains(p));
        assert(gs[m]@.contains(p));
    }
}

/// Bordering a region is what its points reach.
#[verifier::spinoff_prover]
pub proof fn lemma_border_reach(v: GV, ss: Seq<Point>, g: Set<Point>, p: Point, x: Color)
    requires S(v), chain_of(v, ss, g), g.contains(p),
    ensures bordered(v, g, x) == reaches(v, p, x),
{
    hide(S); hide(in_region); hide(nbr_has);
    let i = choose|i: int| 0 <= i < ss.len() && region_of(v, #[trigger] ss[i], g);
    let s = ss[i];
    assert(in_region(v, s, p));
    if bordered(v, g, x) {
        let q = choose|q: Point| #[trigger] g.contains(q) && nbr_has(v, q.coord, x);
        lemma_region_same(v, s, p, q);
    }
    if reaches(v, p, x) {
        let q = choose|q: Point| #[trigger] in_region(v, p, q) && nbr_has(v, q.coord, x);
        lemma_region_join(v, s, p, q);
        assert(g.contains(q));
    }
}

#[verifier::spinoff_prover]
pub proof fn lemma_terr_done(v: GV, ss: Seq<Point>, gs: Seq<HashSet<Point>>, x: Color, ps: Seq<Point>)
    requires S(v), regions(v, ss, gs), terr_upto(v, x, gs, gs.len() as int, ps),
    ensures is_territory(v, x, ps),
{
    hide(S); hide(bordered); hide(reaches);
    assert forall|p: Point| #[trigger] ps.contains(p) <==> territory(v, x, p) by {
        if held(v, x, gs, gs.len() as int, p) {
            let i = choose|i: int| 0 <= i < gs.len() && (#[trigger] gs[i])@.contains(p) && owned(v, gs[i]@, x);
            lemma_border_reach(v, ss, gs[i]@, p, x);
            lemma_border_reach(v, ss, gs[i]@, p, opp(x));
            let j = choose|j: int| 0 <= j < ss.len() && region_of(v, #[trigger] ss[j], gs[i]@);
            lemma_region_color(v, ss[j], p);
        }
        if territory(v, x, p) {
            assert(ss.contains(p));
            let j = choose|j: int| 0 <= j < ss.len() && ss[j] == p;
            assert(some_has(gs, ss[j]));
            let i = choose|i: int| 0 <= i < gs.len() && (#[trigger] gs[i])@.contains(p);
            assert(chain_of(v, ss, gs[i]@));
            lemma_border_reach(v, ss, gs[i]@, p, x);
            lemma_border_reach(v, ss, gs[i]@, p, opp(x));
            assert(held(v, x, gs, gs.len() as int, p));
        }
    }
}

pub open spec fn clear_upto(v: GV, o: Seq<Point>, n: int, x: Color) -> bool { forall|i: int| 0 <= i < n ==> !nbr_has(v, (#[trigger] o[i]).coord, x) }
pub open spec fn nocolor_upto(ps: Seq<Point>, n: int, x: Color) -> bool { forall|i: int| 0 <= i < n ==> (#[trigger] ps[i]).color != Some(x) }

pub proof fn lemma_clear_start(v: GV, o: Seq<Point>)
    ensures clear_upto(v, o, 0, Color::Black), clear_upto(v, o, 0, Color::White),
{ }

#[verifier::spinoff_prover]
pub proof fn lemma_terr_cases(v: GV, gs: Seq<HashSet<Point>>, k: int, b: Seq<Point>, w: Seq<Point>)
    requires terr_upto(v, Color::Black, gs, k, b), terr_upto(v, Color::White, gs, k, w), 0 <= k < gs.len(), apart(gs),
    ensures
        owned(v, gs[k]@, Color::Black) ==> terr_upto(v, Color::Black, gs, k + 1, b + gs[k].order()),
        !owned(v, gs[k]@, Color::Black) ==> terr_upto(v, Color::Black, gs, k + 1, b),
        owned(v, gs[k]@, Color::White) ==> terr_upto(v, Color::White, gs, k + 1, w + gs[k].order()),
        !owned(v, gs[k]@, Color::White) ==> terr_upto(v, Color::White, gs, k + 1, w),
{
    hide(owned); hide(apart); hide(terr_upto);
    lemma_terr_step(v, Color::Black, gs, k, b, if owned(v, gs[k]@, Color::Black) { b + gs[k].order() } else { b });
    lemma_terr_step(v, Color::White, gs, k, w, if owned(v, gs[k]@, Color::White) { w + gs[k].order() } else { w });
}

pub proof fn lemma_empty_region(v: GV, ss: Seq<Point>, gs: Seq<HashSet<Point>>, k: int)
    requires S(v), regions(v, ss, gs), 0 <= k < gs.len(),
    ensures forall|i: int| 0 <= i < gs[k].order().len() ==> valid(v.size, (#[trigger] gs[k].order()[i]).coord), apart(gs),
{
    hide(S);
    lemma_hs_order(gs[k]);
    assert(chain_of(v, ss, gs[k]@));
    let j = choose|j: int| 0 <= j < ss.len() && region_of(v, #[trigger] ss[j], gs[k]@);
    assert forall|i: int| 0 <= i < gs[k].order().len() implies valid(v.size, (#[trigger] gs[k].order()[i]).coord) by {
        assert(gs[k].order().contains(gs[k].order()[i]));
        assert(in_region(v, ss[j], gs[k].order()[i]));
    }
}

#[verifier::spinoff_prover]
pub proof fn lemma_clear_step(v: GV, o: Seq<Point>, i: int, ps: Seq<Point>, neutral: (bool, bool))
    requires
        0 <= i < o.len(), nb_points(v, o[i].coord, ps),
        !neutral.0 ==> clear_upto(v, o, i, Color::Black) && nocolor_upto(ps, ps.len() as int, Color::Black),
        !neutral.1 ==> clear_upto(v, o, i, Color::White) && nocolor_upto(ps, ps.len() as int, Color::White),
    ensures
        !neutral.0 ==> clear_upto(v, o, i + 1, Color::Black),
        !neutral.1 ==> clear_upto(v, o, i + 1, Color::White),
{
    hide(nb_points); hide(nbr_has);
    if !neutral.0 { lemma_border_none(v, o[i], ps, Color::Black); }
    if !neutral.1 { lemma_border_none(v, o[i], ps, Color::White); }
}

pub proof fn lemma_bordered_all(v: GV, g: HashSet<Point>, neutral: (bool, bool))
    requires
        !neutral.0 ==> clear_upto(v, g.order(), g.order().len() as int, Color::Black),
        !neutral.1 ==> clear_upto(v, g.order(), g.order().len() as int, Color::White),
    ensures
        !neutral.0 ==> !bordered(v, g@, Color::Black),
        !neutral.1 ==> !bordered(v, g@, Color::White),
{
    hide(nbr_has);
    lemma_hs_order(g);
    assert forall|x: Color| #![trigger bordered(v, g@, x)] clear_upto(v, g.order(), g.order().len() as int, x) implies !bordered(v, g@, x) by {
        if bordered(v, g@, x) {
            let q = choose|q: Point| #[trigger] g@.contains(q) && nbr_has(v, q.coord, x);
            assert(g.order().contains(q));
            let i = choose|i: int| 0 <= i < g.order().len() && g.order()[i] == q;
            assert(!nbr_has(v, g.order()[i].coord, x));
        }
    }
}

/// How many of the first n cells are x's territory.
pub open spec fn terr_cnt(v: GV, x: Color, n: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { terr_cnt(v, x, n - 1) + (if territory(v, x, pt(v, coord_of(v.size, n - 1))) { 1int } else { 0 }) }
}
pub open spec fn terr_size(v: GV, x: Color) -> int { terr_cnt(v, x, cells(v.size)) }

pub proof fn lemma_terr_size(v: GV, x: Color, ps: Seq<Point>)
    requires S(v), is_territory(v, x, ps),
    ensures ps.len() == terr_size(v, x), 0 <= terr_size(v, x) <= 361,
{
    hide(S);
    lemma_inv_size_s(v);
    assert forall|p: Point| #[trigger] ps.contains(p) <==> territory(v, x, p) && idx(v.size, p.coord) < cells(v.size) by {
        if territory(v, x, p) { lemma_pt_col(v, p.coord); }
    }
    lemma_terr_count(v, x, ps, cells(v.size));
    lemma_terr_bound(v, x, cells(v.size));
}

pub proof fn lemma_inv_size_s(v: GV)
    requires S(v),
    ensures size_ok(v.size), 0 <= cells(v.size) <= 361,
{ lemma_cells(v.size); }

pub proof fn lemma_terr_bound(v: GV, x: Color, n: int)
    requires 0 <= n,
    ensures 0 <= terr_cnt(v, x, n) <= n,
    decreases n,
{ hide(territory); if n > 0 { lemma_terr_bound(v, x, n - 1); } }

#[verifier::spinoff_prover]
pub proof fn lemma_terr_count(v: GV, x: Color, ps: Seq<Point>, n: int)
    requires S(v), 0 <= n <= cells(v.size), ps.no_duplicates(), forall|p: Point| #[trigger] ps.contains(p) <==> territory(v, x, p) && idx(v.size, p.coord) < n,
    ensures ps.len() == terr_cnt(v, x, n),
    decreases n,
{
    hide(S); hide(reaches);
    if n == 0 {
        if ps.len() > 0 { assert(ps.contains(ps[0])); lemma_pt_col(v, ps[0].coord); }
    } else {
        lemma_inv_size_s(v);
        lemma_coord_of(v.size, n - 1);
        let q = pt(v, coord_of(v.size, n - 1));
        if territory(v, x, q) {
            assert(ps.contains(q));
            let i = choose|i: int| 0 <= i < ps.len() && ps[i] == q;
            let r = ps.remove(i);
            assert forall|p: Point| #[trigger] r.contains(p) <==> territory(v, x, p) && idx(v.size, p.coord) < n - 1 by {
                if r.contains(p) {
                    let j = choose|j: int| 0 <= j < r.len() && r[j] == p;
                    let m = if j < i { j } else { j + 1 };
                    assert(ps[m] == p && m != i);
                    assert(ps.contains(p));
                    lemma_pt_col(v, p.coord);
                    if idx(v.size, p.coord) == n - 1 { assert(p == q); }
                }
                if territory(v, x, p) && idx(v.size, p.coord) < n - 1 {
                    assert(ps.contains(p));
                    let m = choose|m: int| 0 <= m < ps.len() && ps[m] == p;
                    assert(m != i);
                    let j = if m < i { m } else { m - 1 };
                    assert(r[j] == p);
                }
            }
            assert forall|a: int, b: int| 0 <= a < r.len() && 0 <= b < r.len() && a != b implies r[a] != r[b] by {
                let a2 = if a < i { a } else { a + 1 };
                let b2 = if b < i { b } else { b + 1 };
                assert(ps[a2] != ps[b2]);
            }
            lemma_terr_count(v, x, r, n - 1);
        } else {
            assert forall|p: Point| #[trigger] ps.contains(p) <==> territory(v, x, p) && idx(v.size, p.coord) < n - 1 by {
                if territory(v, x, p) { lemma_pt_col(v, p.coord); if idx(v.size, p.coord) == n - 1 { assert(p == q); } }
            }
            lemma_terr_count(v, x, ps, n - 1);
        }
    }
}

pub proof fn lemma_terr_lists(v: GV)
    requires S(v),
    ensures forall|x: Color, ps: Seq<Point>| #[trigger] is_territory(v, x, ps) ==> ps.len() == terr_size(v, x) && 0 <= terr_size(v, x) <= 361,
{
    hide(S); hide(is_territory);
    assert forall|x: Color, ps: Seq<Point>| #[trigger] is_territory(v, x, ps) implies ps.len() == terr_size(v, x) && 0 <= terr_size(v, x) <= 361 by { lemma_terr_size(v, x, ps); }
}
}
