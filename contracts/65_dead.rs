verus! {

// ================================================================ stand-in for std's HashMap (counters)
/// A finite map; taking it apart visits every entry once, in no specified order.
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { k: Vec<K>, v: Vec<V> }

impl<K, V> View for HashMap<K, V> {
    type V = Map<K, V>;
    uninterp spec fn view(&self) -> Map<K, V>;
}

impl<K, V> HashMap<K, V> {
    pub uninterp spec fn entries(&self) -> Seq<(K, V)>;

    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Map::<K, V>::empty(),
    { unimplemented!() }
}

impl<K> HashMap<K, i32> {
    /// `entry(k).and_modify(|v| *v += a).or_insert(b)`
    #[verifier::external_body]
    pub fn v_count(&mut self, k: K, a: i32, b: i32)
        requires old(self)@.contains_key(k) ==> i32::MIN <= old(self)@[k] + a <= i32::MAX, // OBLIGATION: counter overflow
        ensures
            old(self)@.contains_key(k) ==> final(self)@ == old(self)@.insert(k, (old(self)@[k] + a) as i32),
            !old(self)@.contains_key(k) ==> final(self)@ == old(self)@.insert(k, b),
    { unimplemented!() }
}

impl<K, V> IntoIt<(K, V)> for HashMap<K, V> {
    open spec fn it_req(self) -> bool { true }
    open spec fn it_seq(self) -> Seq<(K, V)> { self.entries() }
    #[verifier::external_body]
    fn into_it(self) -> (r: It<(K, V)>) { unimplemented!() }
}

#[verifier::external_body]
pub proof fn lemma_hm_entries<K, V>(h: HashMap<K, V>)
    ensures
        h.entries().no_duplicates(),
        forall|e: (K, V)| #[trigger] h.entries().contains(e) <==> h@.contains_key(e.0) && h@[e.0] == e.1,
{ }

impl<T> HashSet<T> {
    /// the items it was collected from
    pub uninterp spec fn collected(&self) -> Seq<T>;
}

impl<T> FromIt<T> for HashSet<T> {
    open spec fn fi_req(s: Seq<T>) -> bool { true }
    open spec fn fi_seq(&self) -> Seq<T> { self.collected() }
    #[verifier::external_body]
    fn from_it(it: It<T>) -> (r: Self) { unimplemented!() }
}

// ================================================================ eye points of a group
/// p is an eye point: an eye of one of the players.
pub open spec fn eye_point(v: GV, p: (u8, u8)) -> bool { eye_of(v, p, Color::Black) || eye_of(v, p, Color::White) }

pub open spec fn eye_at(v: GV, c: int, p: (u8, u8)) -> bool {
    valid(v.size, p) && eye_point(v, p) && touches(v, c, idx(v.size, p))
}

pub open spec fn two_eyes_at(v: GV, c: int, p: (u8, u8), q: (u8, u8)) -> bool { p != q && eye_at(v, c, p) && eye_at(v, c, q) }

/// Group c touches (at least) two eye points.
pub open spec fn two_eyes(v: GV, c: int) -> bool {
    exists|p: (u8, u8), q: (u8, u8)| #[trigger] two_eyes_at(v, c, p, q)
}

/// c is a group of the board that touches fewer than two eye points.
pub open spec fn floating(v: GV, c: int) -> bool { live(v, c) && !two_eyes(v, c) }

/// How many of the points ps group c touches.
pub open spec fn touched(v: GV, ps: Seq<(u8, u8)>, c: int) -> int
    decreases ps.len(),
{
    if ps.len() == 0 { 0 } else { touched(v, ps.drop_last(), c) + if touches(v, c, idx(v.size, ps.last())) { 1int } else { 0 } }
}

/// What the counters hold for group c.
pub open spec fn count_is(m: Map<usize, i32>, c: usize, n: int) -> bool {
    (m.contains_key(c) <==> n > 0) && (m.contains_key(c) ==> m[c] == n)
}

pub open spec fn tallied(v: GV, ps: Seq<(u8, u8)>, m: Map<usize, i32>) -> bool {
    forall|c: usize| #![trigger m.contains_key(c)] count_is(m, c, touched(v, ps, c as int))
}

/// ... with the groups of gs counted once more.
pub open spec fn tallied_more(v: GV, ps: Seq<(u8, u8)>, gs: Seq<usize>, m: Map<usize, i32>) -> bool {
    forall|c: usize| #![trigger m.contains_key(c)] count_is(m, c, touched(v, ps, c as int) + if gs.contains(c) { 1int } else { 0 })
}

pub proof fn lemma_touched_bound(v: GV, ps: Seq<(u8, u8)>, c: int)
    ensures 0 <= touched(v, ps, c) <= ps.len(),
    decreases ps.len(),
{
    if ps.len() > 0 { lemma_touched_bound(v, ps.drop_last(), c); }
}

#[verifier::spinoff_prover]
pub proof fn lemma_tally_step(v: GV, ps: Seq<(u8, u8)>, gs: Seq<usize>, k: int, m0: Map<usize, i32>, m1: Map<usize, i32>)
    requires
        0 <= k < gs.len(), gs.no_duplicates(), ps.len() < 1000, tallied_more(v, ps, gs.subrange(0, k), m0),
        m0.contains_key(gs[k]) ==> m1 == m0.insert(gs[k], (m0[gs[k]] + 1) as i32),
        !m0.contains_key(gs[k]) ==> m1 == m0.insert(gs[k], 1i32),
    ensures tallied_more(v, ps, gs.subrange(0, k + 1), m1),
{
    hide(touches);
    let (a, b) = (gs.subrange(0, k), gs.subrange(0, k + 1));
    assert(b =~= a.push(gs[k]));
    assert forall|c: usize| #![trigger m1.contains_key(c)] count_is(m1, c, touched(v, ps, c as int) + if b.contains(c) { 1int } else { 0 }) by {
        lemma_touched_bound(v, ps, c as int);
        assert(count_is(m0, c, touched(v, ps, c as int) + if a.contains(c) { 1int } else { 0 })) by { let _ = m0.contains_key(c); }
        if c == gs[k] {
            assert(b[k] == c);
            if a.contains(c) {
                let i = choose|i: int| 0 <= i < a.len() && a[i] == c;
                assert(gs[i] == gs[k]);
            }
        } else {
            if a.contains(c) { let i = choose|i: int| 0 <= i < a.len() && a[i] == c; assert(b[i] == c); }
            if b.contains(c) { let i = choose|i: int| 0 <= i < b.len() && b[i] == c; assert(a[i] == c); }
        }
    }
}

#[verifier::spinoff_prover]
pub proof fn lemma_tally_pre(v: GV, ps: Seq<(u8, u8)>, gs: Seq<usize>, k: int, m: Map<usize, i32>)
    requires 0 <= k < gs.len(), ps.len() < 1000, tallied_more(v, ps, gs.subrange(0, k), m),
    ensures m.contains_key(gs[k]) ==> 0 < m[gs[k]] < 1001,
{
    hide(touches);
    lemma_touched_bound(v, ps, gs[k] as int);
    let _ = m.contains_key(gs[k]);
}

/// One eye point is counted.
#[verifier::spinoff_prover]
pub proof fn lemma_tally_point(v: GV, ps: Seq<(u8, u8)>, k: int, gs: Seq<usize>, m: Map<usize, i32>)
    requires
        0 <= k < ps.len(), tallied_more(v, ps.subrange(0, k), gs.subrange(0, gs.len() as int), m),
        forall|c: usize| #![trigger gs.contains(c)] gs.contains(c) <==> touches(v, c as int, idx(v.size, ps[k])),
    ensures tallied(v, ps.subrange(0, k + 1), m),
{
    hide(touches);
    assert(gs.subrange(0, gs.len() as int) =~= gs);
    let b = ps.subrange(0, k + 1);
    assert(b.drop_last() =~= ps.subrange(0, k));
    assert forall|c: usize| #![trigger m.contains_key(c)] count_is(m, c, touched(v, b, c as int)) by {
        let _ = gs.contains(c);
        assert(b.last() == ps[k]);
    }
}

pub proof fn lemma_tally_start(v: GV, ps: Seq<(u8, u8)>, m: Map<usize, i32>, gs: Seq<usize>)
    requires tallied(v, ps, m),
    ensures tallied_more(v, ps, gs.subrange(0, 0), m),
{
    hide(touches);
    assert(gs.subrange(0, 0) =~= Seq::<usize>::empty());
    assert forall|c: usize| #![trigger m.contains_key(c)] count_is(m, c, touched(v, ps, c as int) + if gs.subrange(0, 0).contains(c) { 1int } else { 0 }) by { }
}

pub proof fn lemma_touched_one(v: GV, ps: Seq<(u8, u8)>, c: int) -> (i: int)
    requires touched(v, ps, c) >= 1,
    ensures 0 <= i < ps.len(), touches(v, c, idx(v.size, ps[i])),
    decreases ps.len(),
{
    hide(touches);
    if touches(v, c, idx(v.size, ps.last())) { ps.len() - 1 } else { lemma_touched_one(v, ps.drop_last(), c) }
}

pub proof fn lemma_touched_two(v: GV, ps: Seq<(u8, u8)>, c: int) -> (r: (int, int))
    requires touched(v, ps, c) >= 2,
    ensures 0 <= r.0 < r.1 < ps.len(), touches(v, c, idx(v.size, ps[r.0])), touches(v, c, idx(v.size, ps[r.1])),
    decreases ps.len(),
{
    hide(touches);
    if touches(v, c, idx(v.size, ps.last())) { (lemma_touched_one(v, ps.drop_last(), c), ps.len() - 1) } else { lemma_touched_two(v, ps.drop_last(), c) }
}

pub proof fn lemma_touched_least(v: GV, ps: Seq<(u8, u8)>, c: int, i: int)
    requires 0 <= i < ps.len(), touches(v, c, idx(v.size, ps[i])),
    ensures touched(v, ps, c) >= 1,
    decreases ps.len(),
{
    hide(touches);
    lemma_touched_bound(v, ps.drop_last(), c);
    if i < ps.len() - 1 { lemma_touched_least(v, ps.drop_last(), c, i); }
}

pub proof fn lemma_touched_least2(v: GV, ps: Seq<(u8, u8)>, c: int, i: int, j: int)
    requires 0 <= i < j < ps.len(), touches(v, c, idx(v.size, ps[i])), touches(v, c, idx(v.size, ps[j])),
    ensures touched(v, ps, c) >= 2,
    decreases ps.len(),
{
    hide(touches);
    if j < ps.len() - 1 { lemma_touched_least2(v, ps.drop_last(), c, i, j); } else { lemma_touched_least(v, ps.drop_last(), c, i); }
}

/// The list of eye points.
pub open spec fn lists_eyes(v: GV, ps: Seq<(u8, u8)>) -> bool {
    ps.no_duplicates() && ps.len() <= 361 && (forall|p: (u8, u8)| #[trigger] ps.contains(p) <==> valid(v.size, p) && eye_point(v, p))
}

#[verifier::spinoff_prover]
pub proof fn lemma_eye_list(v: GV, bs: Seq<bool>)
    requires
        inv(v), bs.len() == coord_list(v, None).len(),
        forall|i: int| #![trigger bs[i]] 0 <= i < bs.len() ==> bs[i] == eye_point(v, coord_list(v, None)[i]),
    ensures lists_eyes(v, keep_by(coord_list(v, None), bs)),
{
    hide(inv); hide(S); hide(coord_list);
    hide(crossed); hide(good_corners); hide(half_good); hide(eye_scan); hide(empty_corners_of);
    lemma_inv_facts(v);
    lemma_cells(v.size);
    lemma_coord_list(v, None);
    let cs = coord_list(v, None);
    let ps = keep_by(cs, bs);
    lemma_keep_by_members(cs, bs);
    assert forall|p: (u8, u8)| #[trigger] ps.contains(p) <==> valid(v.size, p) && eye_point(v, p) by {
        if ps.contains(p) {
            let j = choose|j: int| 0 <= j < ps.len() && ps[j] == p;
            let i = choose|i: int| 0 <= i < cs.len() && bs[i] && cs[i] == ps[j];
            assert(cs.contains(cs[i]));
        }
        if valid(v.size, p) && eye_point(v, p) {
            assert(colat(v, p) is None);
            assert(cs.contains(p));
            let i = choose|i: int| 0 <= i < cs.len() && cs[i] == p;
            assert(bs[i]);
        }
    }
}

#[verifier::spinoff_prover]
pub proof fn lemma_floating(v: GV, ps: Seq<(u8, u8)>, c: int)
    requires lists_eyes(v, ps), live(v, c),
    ensures floating(v, c) <==> touched(v, ps, c) < 2,
{
    hide(touches); hide(eye_point);
    if touched(v, ps, c) >= 2 {
        let (i, j) = lemma_touched_two(v, ps, c);
        assert(ps.contains(ps[i]) && ps.contains(ps[j]));
        assert(two_eyes_at(v, c, ps[i], ps[j]));
    }
    if two_eyes(v, c) {
        let (p, q) = choose|p: (u8, u8), q: (u8, u8)| #[trigger] two_eyes_at(v, c, p, q);
        assert(ps.contains(p) && ps.contains(q));
        let i = choose|i: int| 0 <= i < ps.len() && ps[i] == p;
        let j = choose|j: int| 0 <= j < ps.len() && ps[j] == q;
        if i < j { lemma_touched_least2(v, ps, c, i, j); } else { lemma_touched_least2(v, ps, c, j, i); }
    }
}

/// r lists the floating groups, each once.
pub open spec fn lists_floating(v: GV, r: Seq<usize>) -> bool {
    r.no_duplicates() && (forall|c: usize| #[trigger] r.contains(c) <==> floating(v, c as int))
}


pub open spec fn kept_firsts<B>(s: Seq<(usize, B)>, bs: Seq<bool>, r: Seq<usize>) -> bool {
    let k = keep_by(s, bs);
    r.len() == k.len() && (forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == k[i].0)
}

#[verifier::external_body]
pub proof fn lemma_hs_collected<T>(h: HashSet<T>)
    ensures forall|x: T| #[trigger] h@.contains(x) <==> h.collected().contains(x),
{ }

pub proof fn lemma_tally_empty(v: GV, ps: Seq<(u8, u8)>, m: Map<usize, i32>)
    requires m == Map::<usize, i32>::empty(),
    ensures tallied(v, ps.subrange(0, 0), m),
{
    assert(ps.subrange(0, 0) =~= Seq::<(u8, u8)>::empty());
}

pub proof fn lemma_kept_firsts<B>(s: Seq<(usize, B)>, bs: Seq<bool>, r: Seq<usize>, c: usize)
    requires kept_firsts(s, bs, r),
    ensures r.contains(c) <==> exists|i: int| 0 <= i < s.len() && bs[i] && (#[trigger] s[i]).0 == c,
{
    lemma_keep_by_members(s, bs);
    let k = keep_by(s, bs);
    if r.contains(c) {
        let j = choose|j: int| 0 <= j < r.len() && r[j] == c;
        let i = choose|i: int| 0 <= i < s.len() && bs[i] && s[i] == k[j];
        assert(s[i].0 == c);
    }
    if exists|i: int| 0 <= i < s.len() && bs[i] && (#[trigger] s[i]).0 == c {
        let i = choose|i: int| 0 <= i < s.len() && bs[i] && (#[trigger] s[i]).0 == c;
        assert(k.contains(s[i]));
        let j = choose|j: int| 0 <= j < k.len() && k[j] == s[i];
        assert(r[j] == c);
    }
}

/// The set holds exactly the groups that touch two or more of the points.
pub open spec fn two_eyed(v: GV, ps: Seq<(u8, u8)>, s: Set<usize>) -> bool {
    forall|c: usize| #[trigger] s.contains(c) <==> touched(v, ps, c as int) >= 2
}

#[verifier::spinoff_prover]
pub proof fn lemma_two_eyes(v: GV, ps: Seq<(u8, u8)>, m: HashMap<usize, i32>, bs: Seq<bool>, h: HashSet<usize>)
    requires
        tallied(v, ps, m@), bs.len() == m.entries().len(),
        forall|i: int| #![trigger bs[i]] 0 <= i < m.entries().len() ==> bs[i] == (m.entries()[i].1 >= 2),
        kept_firsts(m.entries(), bs, h.collected()),
    ensures two_eyed(v, ps, h@),
{
    lemma_hm_entries(m);
    lemma_hs_collected(h);
    let es = m.entries();
    assert forall|c: usize| #[trigger] h@.contains(c) <==> touched(v, ps, c as int) >= 2 by {
        lemma_kept_firsts(es, bs, h.collected(), c);
        assert(count_is(m@, c, touched(v, ps, c as int))) by { let _ = m@.contains_key(c); }
        if h@.contains(c) {
            let i = choose|i: int| 0 <= i < es.len() && bs[i] && (#[trigger] es[i]).0 == c;
            assert(es.contains(es[i]));
        }
        if touched(v, ps, c as int) >= 2 {
            let e = (c, m@[c]);
            assert(es.contains(e));
            let i = choose|i: int| 0 <= i < es.len() && es[i] == e;
            assert(bs[i]);
            assert(es[i].0 == c);
        }
    }
}

#[verifier::spinoff_prover]
pub proof fn lemma_floating_list(v: GV, ps: Seq<(u8, u8)>, s: Set<usize>, ac: Seq<(usize, Group)>, bs: Seq<bool>, r: Seq<usize>)
    requires
        lists_eyes(v, ps), two_eyed(v, ps, s), v.chains.len() <= 361,
        forall|i: int| 0 <= i < ac.len() ==> (#[trigger] ac[i]).0 < v.chains.len() && v.chains[ac[i].0 as int] == Some(ac[i].1),
        forall|k: int| 0 <= k < v.chains.len() ==> ((#[trigger] v.chains[k]) is Some ==> ac.contains((k as usize, v.chains[k].unwrap()))),
        ac.no_duplicates(), bs.len() == ac.len(),
        forall|i: int| #![trigger bs[i]] 0 <= i < ac.len() ==> bs[i] == !s.contains(ac[i].0),
        kept_firsts(ac, bs, r),
    ensures lists_floating(v, r),
{
    hide(floating); hide(touched); hide(lists_eyes);
    assert forall|c: usize| #[trigger] r.contains(c) <==> floating(v, c as int) by {
        lemma_kept_firsts(ac, bs, r, c);
        if r.contains(c) {
            let i = choose|i: int| 0 <= i < ac.len() && bs[i] && (#[trigger] ac[i]).0 == c;
            assert(live(v, c as int));
            lemma_floating(v, ps, c as int);
        }
        if floating(v, c as int) {
            reveal(floating);
            lemma_floating(v, ps, c as int);
            let e = (c, v.chains[c as int].unwrap());
            assert(ac.contains(e));
            let i = choose|i: int| 0 <= i < ac.len() && ac[i] == e;
            assert(bs[i]);
            assert(ac[i].0 == c);
        }
    }
    lemma_keep_by_members(ac, bs);
    let k = keep_by(ac, bs);
    assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies r[i] != r[j] by {
        let a = choose|a: int| 0 <= a < ac.len() && bs[a] && ac[a] == k[i];
        let b = choose|b: int| 0 <= b < ac.len() && bs[b] && ac[b] == k[j];
        assert(k[i] != k[j]);
        if r[i] == r[j] { assert(ac[a].1 == ac[b].1); }
    }
}


// ================================================================ random playouts and the tree search
/// m can be played: a play on an empty point of the board, or a pass while the game is not over.
pub open spec fn playable(g: Game, m: Move) -> bool {
    match m {
        Move::Play(x, y) => valid(g.goban.size, (x, y)) && colat(g.goban.v(), (x, y)) is None,
        Move::Pass => !over(g),
        Move::Resign(_) => true,
    }
}

pub open spec fn on_empty(v: GV, p: (u8, u8)) -> bool { valid(v.size, p) && colat(v, p) is None }

/// The bound on captured stones of C15 (32-bit counters), assumed during simulated games, whose length is not bounded.
#[verifier::external_body]
pub proof fn assume_prisoners_fit(g: Game)
    ensures prisoners_fit(g),
{ }

impl Game {
    /// derive(Clone) of plain data
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Game)
        ensures r == *self,
    { unimplemented!() }
}

pub struct Eval { }
pub struct PL { }
pub struct F64 { }
impl F64 {
    pub fn sqrt(self) -> F64 { F64 { } }
}
/// Numbers that only steer the search.
pub fn f64_any() -> F64 { F64 { } }

pub struct ThreadRng { }
pub fn rng() -> ThreadRng { ThreadRng { } }

pub trait VShuffle {
    spec fn vs(&self) -> Seq<(u8, u8)>;
    fn v_shuffle(&mut self, r: &mut ThreadRng)
        ensures final(self).vs().to_multiset() == old(self).vs().to_multiset();
}
impl VShuffle for Vec<(u8, u8)> {
    open spec fn vs(&self) -> Seq<(u8, u8)> { self@ }
    #[verifier::external_body]
    fn v_shuffle(&mut self, r: &mut ThreadRng) { unimplemented!() }
}

/// oxymcts: it plays moves listed by `legals_moves`, and after at least one simulation it names one of the root's.
#[verifier::external_body]
pub struct Mcts { x: u8 }
impl Mcts {
    pub uninterp spec fn root(&self) -> Game;
    pub uninterp spec fn runs(&self) -> nat;
    #[verifier::external_body]
    pub fn with_capacity(g: &Game, n: usize) -> (r: Mcts)
        requires ginv(*g),
        ensures r.root() == *g, r.runs() == 0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn execute(&mut self, c: &F64, a: ())
        ensures final(self).root() == old(self).root(), final(self).runs() == old(self).runs() + 1,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn best_move(&self, c: &F64) -> (r: Move)
        requires self.runs() > 0, !over(self.root()), // OBLIGATION: the search tree has no move
        ensures playable(self.root(), r),
    { unimplemented!() }
}

pub proof fn lemma_shuffled(v: GV, a: Seq<(u8, u8)>, b: Seq<(u8, u8)>)
    requires a.to_multiset() == b.to_multiset(),
    ensures forall|p: (u8, u8)| #[trigger] b.contains(p) <==> a.contains(p),
{
    a.to_multiset_ensures();
    b.to_multiset_ensures();
    assert forall|p: (u8, u8)| #[trigger] b.contains(p) <==> a.contains(p) by {
        assert(b.contains(p) <==> b.to_multiset().count(p) > 0);
        assert(a.contains(p) <==> a.to_multiset().count(p) > 0);
    }
}

#[verifier::spinoff_prover]
pub proof fn lemma_legal_playable(g: Game)
    requires ginv(g),
    ensures forall|rules: IllegalRules, i: int| 0 <= i < legal_list(g, rules).len() ==> valid(g.goban.size, #[trigger] legal_list(g, rules)[i]) && colat(g.goban.v(), legal_list(g, rules)[i]) is None,
{
    hide(verdict); hide(coord_list); hide(inv); hide(S);
    let v = g.goban.v();
    lemma_inv_facts(v);
    lemma_coord_list(v, None);
    let l = coord_list(v, None);
    assert forall|rules: IllegalRules, i: int| 0 <= i < legal_list(g, rules).len() implies valid(g.goban.size, #[trigger] legal_list(g, rules)[i]) && colat(v, legal_list(g, rules)[i]) is None by {
        let bs = Seq::new(l.len(), |i: int| verdict(g, l[i], rules) is None);
        lemma_keep_by_members(l, bs);
        let j = choose|j: int| 0 <= j < l.len() && bs[j] && l[j] == legal_list(g, rules)[i];
        assert(l.contains(l[j]));
    }
}

}
