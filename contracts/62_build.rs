verus! {

// ================================================================ std::mem::take, Default
pub trait VDefault: Sized {
    spec fn is_default(self) -> bool;
    fn v_default() -> (r: Self) ensures r.is_default();
}
/// std::mem::take
#[verifier::external_body]
pub fn take<T: VDefault>(x: &mut T) -> (r: T)
    ensures r == *old(x), final(x).is_default(),
{ unimplemented!() }

impl VDefault for GameBuilder {
    open spec fn is_default(self) -> bool { unasked(self) }
    fn v_default() -> (r: Self) { GameBuilder::default() }
}
impl<H> VDefault for IndexSet<Goban, BuildHasherDefault<H>> {
    open spec fn is_default(self) -> bool { self@.len() == 0 }
    fn v_default() -> (r: Self) { IndexSet { v: Vec::new(), h: BuildHasherDefault { h: None } } }
}
impl<T> VDefault for Vec<T> {
    open spec fn is_default(self) -> bool { self@.len() == 0 }
    fn v_default() -> (r: Self) { Vec::new() }
}

pub trait VToVec<T> {
    spec fn tv(&self) -> Seq<T>;
    fn v_to_vec(&self) -> (r: Vec<T>) ensures r@ == self.tv();
}
/// <[T]>::to_vec of plain data
impl<T: Copy> VToVec<T> for [T] {
    open spec fn tv(&self) -> Seq<T> { self@ }
    fn v_to_vec(&self) -> (r: Vec<T>)
    {
        let mut r: Vec<T> = Vec::new();
        let mut i: usize = 0;
        while i < self.len()
            invariant i <= self.len(), r@ == self@.subrange(0, i as int),
            decreases self.len() - i,
        {
            r.push(self[i]);
            i = i + 1;
            assert(self@.subrange(0, i as int) =~= self@.subrange(0, i - 1).push(self@[i - 1]));
        }
        assert(self@.subrange(0, i as int) =~= self@);
        r
    }
}
pub trait VToString { fn v_to_string(&self) -> String; }
impl VToString for str {
    #[verifier::external_body]
    fn v_to_string(&self) -> String { self.to_string() }
}

// ================================================================ the predefined rules
pub open spec fn forbids(r: Rule, ko: bool, superko: bool, suicide: bool, filleye: bool) -> bool {
    let f = r.flag_illegal;
    f.has(IllegalRules::KO) == ko && f.has(IllegalRules::SUPERKO) == superko && f.has(IllegalRules::SUICIDE) == suicide && f.has(IllegalRules::FILLEYE) == filleye
}
pub open spec fn counts(r: Rule, stones: bool, komi: bool, prisoners: bool) -> bool {
    let f = r.flag_score;
    f.has(ScoreRules::STONES) == stones && f.has(ScoreRules::KOMI) == komi && f.has(ScoreRules::PRISONNERS) == prisoners
}
pub open spec fn chinese(r: Rule) -> bool {
    r.komi.fin() && r.komi.v() == 75real / 10real && forbids(r, true, true, true, false) && counts(r, true, true, false)
}
pub open spec fn japanese(r: Rule) -> bool {
    r.komi.fin() && r.komi.v() == 65real / 10real && forbids(r, true, false, true, false) && counts(r, false, true, true)
}
pub proof fn lemma_halves()
    ensures forall|r: F32| #[trigger] rounded(r, 75real / 10real) ==> r.fin() && r.v() == 75real / 10real, forall|r: F32| #[trigger] rounded(r, 65real / 10real) ==> r.fin() && r.v() == 65real / 10real,
{
    assert(75real / 10real == q4(30));
    assert(65real / 10real == q4(26));
}
pub proof fn lemma_flag(o: u32)
    requires o == 1 || o == 2 || o == 4 || o == 8,
    ensures
        forall|a: u32, b: u32| #![trigger ((a | b) & o)] ((a | b) & o == o) == (a & o == o || b & o == o),
        forall|a: u32, b: u32| #![trigger ((a & b) & o)] ((a & b) & o == o) == (a & o == o && b & o == o),
        o & o == o, 0u32 & o != o, 1u32 & o == o <==> o == 1, 2u32 & o == o <==> o == 2, 4u32 & o == o <==> o == 4, 8u32 & o == o <==> o == 8,
{
    assert forall|a: u32, b: u32| #![trigger ((a | b) & o)] ((a | b) & o == o) == (a & o == o || b & o == o) by {
        assert(((a | b) & o == o) == (a & o == o || b & o == o)) by (bit_vector) requires o == 1 || o == 2 || o == 4 || o == 8;
    }
    assert forall|a: u32, b: u32| #![trigger ((a & b) & o)] ((a & b) & o == o) == (a & o == o && b & o == o) by {
        assert(((a & b) & o == o) == (a & o == o && b & o == o)) by (bit_vector) requires o == 1 || o == 2 || o == 4 || o == 8;
    }
    assert(o & o == o) by (bit_vector);
    assert(0u32 & o != o) by (bit_vector) requires o == 1 || o == 2 || o == 4 || o == 8;
    assert(1u32 & o == o <==> o == 1) by (bit_vector) requires o == 1 || o == 2 || o == 4 || o == 8;
    assert(2u32 & o == o <==> o == 2) by (bit_vector) requires o == 1 || o == 2 || o == 4 || o == 8;
    assert(4u32 & o == o <==> o == 4) by (bit_vector) requires o == 1 || o == 2 || o == 4 || o == 8;
    assert(8u32 & o == o <==> o == 8) by (bit_vector) requires o == 1 || o == 2 || o == 4 || o == 8;
}
/// The rule constants are distinct bits.
pub proof fn lemma_flags()
    ensures
        1u32 << 1u32 == 2u32, 1u32 << 2u32 == 4u32, 1u32 << 3u32 == 8u32,
        forall|o: u32, a: u32, b: u32| #![trigger ((a | b) & o)] o == 1 || o == 2 || o == 4 || o == 8 ==> ((a | b) & o == o) == (a & o == o || b & o == o),
        forall|o: u32, a: u32, b: u32| #![trigger ((a & b) & o)] o == 1 || o == 2 || o == 4 || o == 8 ==> ((a & b) & o == o) == (a & o == o && b & o == o),
        forall|o: u32| #![trigger (0u32 & o)] o == 1 || o == 2 || o == 4 || o == 8 ==> 0u32 & o != o,
        forall|o: u32| #![trigger (1u32 & o)] o == 1 || o == 2 || o == 4 || o == 8 ==> (1u32 & o == o <==> o == 1),
        forall|o: u32| #![trigger (2u32 & o)] o == 1 || o == 2 || o == 4 || o == 8 ==> (2u32 & o == o <==> o == 2),
        forall|o: u32| #![trigger (4u32 & o)] o == 1 || o == 2 || o == 4 || o == 8 ==> (4u32 & o == o <==> o == 4),
        forall|o: u32| #![trigger (8u32 & o)] o == 1 || o == 2 || o == 4 || o == 8 ==> (8u32 & o == o <==> o == 8),
{
    assert(1u32 << 1u32 == 2u32) by (bit_vector);
    assert(1u32 << 2u32 == 4u32) by (bit_vector);
    assert(1u32 << 3u32 == 8u32) by (bit_vector);
    lemma_flag(1);
    lemma_flag(2);
    lemma_flag(4);
    lemma_flag(8);
}

// ================================================================ what a builder asks for
pub open spec fn unasked(b: GameBuilder) -> bool {
    &&& b.size == (19u8, 19u8) && b.handicap_points@.len() == 0 && b.komi is None && b.turn is None && b.moves@.len() == 0
    &&& b.outcome is None && b.setup@.len() == 0 && b.handicap is None
    &&& chinese(b.rule) && b.rule == the_CHINESE()
}

pub open spec fn free(cs: Seq<Option<Color>>, s: (u8, u8), p: (u8, u8)) -> bool { valid(s, p) && cs[idx(s, p)] is None }

/// The board after the set-up stones.
pub open spec fn put_setup(cs: Seq<Option<Color>>, s: (u8, u8), st: Seq<Stone>) -> Seq<Option<Color>>
    decreases st.len(),
{
    if st.len() == 0 { cs } else { put_setup(cs, s, st.drop_last()).update(idx(s, st.last().coord), Some(st.last().color)) }
}

/// The first n points can be put down one after the other.
pub open spec fn put_upto(cs: Seq<Option<Color>>, s: (u8, u8), pts: Seq<(u8, u8)>, n: int) -> bool {
    forall|i: int| 0 <= i < n ==> free(put_all(cs, s, pts.subrange(0, i), Color::Black), s, #[trigger] pts[i])
}
pub open spec fn setup_upto(cs: Seq<Option<Color>>, s: (u8, u8), st: Seq<Stone>, n: int) -> bool {
    forall|i: int| 0 <= i < n ==> free(put_setup(cs, s, st.subrange(0, i)), s, (#[trigger] st[i]).coord)
}

pub open spec fn handicap_cols(b: GameBuilder) -> Seq<Option<Color>> { put_all(empty_cols(b.size), b.size, b.handicap_points@, Color::Black) }
pub open spec fn start_cols(b: GameBuilder) -> Seq<Option<Color>> { put_setup(handicap_cols(b), b.size, b.setup@) }
/// The handicap and set-up stones are on free points of the board.
pub open spec fn stones_fit(b: GameBuilder) -> bool {
    put_upto(empty_cols(b.size), b.size, b.handicap_points@, b.handicap_points@.len() as int) && setup_upto(handicap_cols(b), b.size, b.setup@, b.setup@.len() as int)
}

pub open spec fn asked_rule(b: GameBuilder) -> Rule { match b.komi { Some(k) => Rule { komi: k, ..b.rule }, None => b.rule } }
pub open spec fn asked_handicap(b: GameBuilder) -> int { match b.handicap { Some(n) => n as int, None => b.handicap_points@.len() as int } }
pub open spec fn asked_turn(b: GameBuilder) -> Color {
    match b.turn { Some(c) => c, None => if asked_handicap(b) != 0 { Color::White } else { Color::Black } }
}

/// The game before the requested moves.
pub open spec fn begun(b: GameBuilder, g: Game) -> bool {
    &&& g.goban.size == b.size && gcols(g) == start_cols(b)
    &&& g.passes == 0 && g.prisoners == (0u32, 0u32) && g.history@.len() == 0 && g.ko_point is None
    &&& g.rule == asked_rule(b) && g.turn == asked_turn(b) && g.outcome == b.outcome && g.handicap == asked_handicap(b)
}

pub open spec fn can_play(g: Game, m: Move) -> bool {
    match m {
        Move::Play(x, y) => free(gcols(g), g.goban.size, (x, y)),
        Move::Pass => g.passes < 2,
        Move::Resign(_) => true,
    }
}

/// gs: the game before the first move, and after each of the moves.
pub open spec fn played(gs: Seq<Game>, ms: Seq<Move>) -> bool {
    &&& gs.len() == ms.len() + 1
    &&& forall|i: int| #![trigger gs[i]] 0 <= i < ms.len() ==> can_play(gs[i], ms[i]) && moved(gs[i], gs[i + 1], ms[i])
}

pub open spec fn built(b: GameBuilder, g: Game) -> bool {
    stones_fit(b) && exists|gs: Seq<Game>| #[trigger] played(gs, b.moves@) && begun(b, gs[0]) && gs.last() == g
}

/// A requested stone has no place, or a requested move is not possible when its turn comes.
pub open spec fn unbuildable(b: GameBuilder) -> bool {
    !stones_fit(b) || exists|gs: Seq<Game>, k: int| 0 <= k < b.moves@.len() && #[trigger] played(gs, b.moves@.subrange(0, k)) && begun(b, gs[0]) && !can_play(gs.last(), b.moves@[k])
}

#[verifier::spinoff_prover]
pub proof fn lemma_played(gs: Seq<Game>, ms: Seq<Move>, k: int, g: Game)
    requires 0 <= k < ms.len(), played(gs, ms.subrange(0, k)), can_play(gs.last(), ms[k]), moved(gs.last(), g, ms[k]),
    ensures played(gs.push(g), ms.subrange(0, k + 1)),
{
    hide(moved); hide(can_play);
    let (hs, ns) = (gs.push(g), ms.subrange(0, k + 1));
    assert forall|i: int| #![trigger hs[i]] 0 <= i < ns.len() implies can_play(hs[i], ns[i]) && moved(hs[i], hs[i + 1], ns[i]) by {
        if i < k { assert(gs[i] == hs[i]); assert(hs[i + 1] == gs[i + 1]); assert(ns[i] == ms.subrange(0, k)[i]); }
    }
}

pub proof fn lemma_free(v: GV, p: (u8, u8))
    requires inv(v), free(cols(v), v.size, p),
    ensures valid(v.size, p), colat(v, p) is None, id(v, idx(v.size, p)) == -1,
{
    lemma_inv_facts(v);
    lemma_col_id(v, p);
}

/// A move takes at most a board of stones.
pub proof fn lemma_growth(g: Game, h: Game, m: Move)
    requires ginv(g), can_play(g, m), prisoners_moved(g, h, m),
    ensures h.prisoners.0 <= g.prisoners.0 + 361, h.prisoners.1 <= g.prisoners.1 + 361,
{
    lemma_inv_size(g.goban.v());
    match m {
        Move::Play(x, y) => {
            let d = placed(gcols(g), idx(g.goban.size, (x, y)), g.turn);
            lemma_cnt_bound(d, Color::White);
            lemma_cnt_bound(d, Color::Black);
            lemma_cnt_bound(gcols(h), Color::White);
            lemma_cnt_bound(gcols(h), Color::Black);
        }
        _ => {}
    }
}

#[verifier::spinoff_prover]
pub proof fn lemma_put_count(cs: Seq<Option<Color>>, s: (u8, u8), pts: Seq<(u8, u8)>, n: int)
    requires size_ok(s), cs == empty_cols(s), 0 <= n <= pts.len(), put_upto(cs, s, pts, pts.len() as int),
    ensures
        put_all(cs, s, pts.subrange(0, n), Color::Black).len() == cells(s),
        cnt(put_all(cs, s, pts.subrange(0, n), Color::Black), Color::Black) == n,
    decreases n,
{
    let q = pts.subrange(0, n);
    lemma_cells(s);
    if n == 0 {
        lemma_cnt_none(cs, Color::Black);
    } else {
        lemma_put_count(cs, s, pts, n - 1);
        assert(q.drop_last() =~= pts.subrange(0, n - 1));
        assert(q.last() == pts[n - 1]);
        let d = put_all(cs, s, pts.subrange(0, n - 1), Color::Black);
        assert(free(d, s, pts[n - 1]));
        lemma_idx(s, pts[n - 1]);
        lemma_cnt_update(d, idx(s, pts[n - 1]), Some(Color::Black), Color::Black);
    }
}

/// As many handicap stones as fit the board.
pub proof fn lemma_handicap_count(cs: Seq<Option<Color>>, s: (u8, u8), pts: Seq<(u8, u8)>)
    requires size_ok(s), cs == empty_cols(s), put_upto(cs, s, pts, pts.len() as int),
    ensures pts.len() <= 361,
{
    lemma_put_count(cs, s, pts, pts.len() as int);
    lemma_cells(s);
    lemma_cnt_bound(put_all(cs, s, pts.subrange(0, pts.len() as int), Color::Black), Color::Black);
}

pub open spec fn handicap_upto(b: GameBuilder, n: int) -> Seq<Option<Color>> { put_all(empty_cols(b.size), b.size, b.handicap_points@.subrange(0, n), Color::Black) }
pub open spec fn setup_cols(b: GameBuilder, n: int) -> Seq<Option<Color>> { put_setup(handicap_cols(b), b.size, b.setup@.subrange(0, n)) }

pub proof fn lemma_put_start(b: GameBuilder)
    ensures
        handicap_upto(b, 0) == empty_cols(b.size), handicap_upto(b, b.handicap_points@.len() as int) == handicap_cols(b),
        put_upto(empty_cols(b.size), b.size, b.handicap_points@, 0),
        setup_cols(b, 0) == handicap_cols(b), setup_cols(b, b.setup@.len() as int) == start_cols(b),
        setup_upto(handicap_cols(b), b.size, b.setup@, 0),
{
    lemma_prefix_full(b.handicap_points@);
    lemma_prefix_full(b.setup@);
}

#[verifier::spinoff_prover]
pub proof fn lemma_handicap_step(b: GameBuilder, i: int)
    requires 0 <= i < b.handicap_points@.len(), put_upto(empty_cols(b.size), b.size, b.handicap_points@, i),
    ensures
        !free(handicap_upto(b, i), b.size, b.handicap_points@[i]) ==> unbuildable(b),
        free(handicap_upto(b, i), b.size, b.handicap_points@[i]) ==> put_upto(empty_cols(b.size), b.size, b.handicap_points@, i + 1),
        handicap_upto(b, i + 1) == handicap_upto(b, i).update(idx(b.size, b.handicap_points@[i]), Some(Color::Black)),
{
    hide(free);
    assert(b.handicap_points@.subrange(0, i + 1).drop_last() =~= b.handicap_points@.subrange(0, i));
}
#[verifier::spinoff_prover]
pub proof fn lemma_setup_step(b: GameBuilder, i: int)
    requires 0 <= i < b.setup@.len(), setup_upto(handicap_cols(b), b.size, b.setup@, i),
    ensures
        !free(setup_cols(b, i), b.size, b.setup@[i].coord) ==> unbuildable(b),
        free(setup_cols(b, i), b.size, b.setup@[i].coord) ==> setup_upto(handicap_cols(b), b.size, b.setup@, i + 1),
        setup_cols(b, i + 1) == setup_cols(b, i).update(idx(b.size, b.setup@[i].coord), Some(b.setup@[i].color)),
{
    hide(free);
    assert(b.setup@.subrange(0, i + 1).drop_last() =~= b.setup@.subrange(0, i));
}
#[verifier::spinoff_prover]
pub proof fn lemma_begun(b: GameBuilder, g: Game)
    requires
        size_ok(b.size), inv(g.goban.v()), g.goban.size == b.size, gcols(g) == setup_cols(b, b.setup@.len() as int),
        g.passes == 0, g.prisoners == (0u32, 0u32), g.history@.len() == 0, g.ko_point is None,
        g.rule == asked_rule(b), g.turn == asked_turn(b), g.outcome == b.outcome, g.handicap == asked_handicap(b),
        put_upto(empty_cols(b.size), b.size, b.handicap_points@, b.handicap_points@.len() as int),
        setup_upto(handicap_cols(b), b.size, b.setup@, b.setup@.len() as int),
    ensures stones_fit(b), begun(b, g), ginv(g), played(seq![g], b.moves@.subrange(0, 0)),
{
    hide(inv); hide(put_upto); hide(setup_upto);
    lemma_put_start(b);
}
/// The next move is possible, or the builder cannot be built.
#[verifier::spinoff_prover]
pub proof fn lemma_stuck(b: GameBuilder, gs: Seq<Game>, k: int)
    requires 0 <= k < b.moves@.len(), played(gs, b.moves@.subrange(0, k)), begun(b, gs[0]),
    ensures !can_play(gs.last(), b.moves@[k]) ==> unbuildable(b),
{ hide(can_play); hide(played); hide(begun); }
#[verifier::spinoff_prover]
pub proof fn lemma_built(b: GameBuilder, gs: Seq<Game>)
    requires stones_fit(b), played(gs, b.moves@), begun(b, gs[0]),
    ensures built(b, gs.last()),
{ hide(stones_fit); hide(played); hide(begun); }
}
