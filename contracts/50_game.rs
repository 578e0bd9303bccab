verus! {

// ================================================================ stand-ins for indexmap / hash_hasher
pub struct HashHasher { }
pub struct BuildHasherDefault<H> { pub h: Option<H> }
pub type HashBuildHasher = BuildHasherDefault<HashHasher>;
impl<H> BuildHasherDefault<H> {
    pub fn default() -> Self { BuildHasherDefault { h: None } }
}

/// A set of boards. Its contract is IndexSet's for a key whose Eq is an equivalence and whose Hash agrees with it.
pub struct IndexSet<T, H> { pub v: Vec<T>, pub h: H }

impl<T, H> View for IndexSet<T, H> {
    type V = Seq<T>;
    open spec fn view(&self) -> Seq<T> { self.v@ }
}

/// contains: some member is equal to x.
impl<'a, H> VContains<&'a Goban> for IndexSet<Goban, H> {
    open spec fn vc(&self, x: &'a Goban) -> bool { exists|i: int| 0 <= i < self@.len() && same_pos(#[trigger] self@[i], *x) }
    open spec fn vc_req(&self, x: &'a Goban) -> bool { inv(x.v()) && forall|i: int| 0 <= i < self@.len() ==> inv(#[trigger] self@[i].v()) }
    fn v_contains(&self, x: &'a Goban) -> (r: bool)
    {
        let mut i: usize = 0;
        while i < self.v.len()
            invariant i <= self.v.len(), forall|j: int| 0 <= j < i ==> !same_pos(#[trigger] self@[j], *x),
            decreases self.v.len() - i,
        {
            assert(inv(self@[i as int].v()));
            if self.v[i].eq(x) { assert(same_pos(self@[i as int], *x)); return true; }
            i = i + 1;
        }
        false
    }
}

impl<H> IndexSet<Goban, H> {
    pub fn with_capacity_and_hasher(n: usize, h: H) -> (r: Self)
        ensures r@.len() == 0,
    { IndexSet { v: Vec::new(), h } }

    /// insert: x becomes a member unless an equal one is there.
    pub fn insert(&mut self, x: Goban) -> (r: bool)
        requires inv(x.v()), forall|i: int| 0 <= i < old(self)@.len() ==> inv(#[trigger] old(self)@[i].v()),
        ensures
            r == !(exists|i: int| 0 <= i < old(self)@.len() && same_pos(#[trigger] old(self)@[i], x)),
            inserted(old(self)@, final(self)@, x),
    {
        if self.v_contains(&x) { false } else { self.v.push(x); true }
    }

    pub fn len(&self) -> (r: usize) ensures r == self@.len() { self.v.len() }
}

/// What Eq on boards decides (proved of <Goban as PartialEq>::eq).
pub open spec fn same_pos(a: Goban, b: Goban) -> bool { a.size == b.size && cols(a.v()) == cols(b.v()) }

impl Goban {
    /// derive(Clone) of plain data
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Goban)
        ensures r.v() == self.v(), r.size == self.size, r.zobrist_hash == self.zobrist_hash, r == *self,
    { unimplemented!() }
}

// ================================================================ games
/// The invariant of a game.
pub open spec fn ginv(g: Game) -> bool {
    &&& inv(g.goban.v())
    &&& g.passes <= 2
    &&& forall|i: int| 0 <= i < g.history@.len() ==> inv(#[trigger] g.history@[i].v()) && g.history@[i].size == g.goban.size
    &&& match g.ko_point { Some(c) => valid(g.goban.size, c), None => true }
}

pub open spec fn gcols(g: Game) -> Seq<Option<Color>> { cols(g.goban.v()) }

/// The position stood on the board before one of the plays.
pub open spec fn seen_before(g: Game, cs: Seq<Option<Color>>) -> bool {
    holds(g.history@, cs)
}

pub open spec fn holds(hs: Seq<Goban>, cs: Seq<Option<Color>>) -> bool { exists|i: int| 0 <= i < hs.len() && cols((#[trigger] hs[i]).v()) == cs }

/// The rules of the game allow suicide.
pub open spec fn su(g: Game) -> bool { !g.rule.flag_illegal.has(IllegalRules::SUICIDE) }

pub open spec fn prisoners_fit(g: Game) -> bool { g.prisoners.0 <= 0xffff_ffff - 361 && g.prisoners.1 <= 0xffff_ffff - 361 }

/// Prisoner counts after a play.
pub open spec fn prisoners_after(g: Game, h: Game, p: int) -> bool {
    let d = placed(gcols(g), p, g.turn);
    &&& h.prisoners.0 == g.prisoners.0 + cnt(d, Color::White) - cnt(gcols(h), Color::White)
    &&& h.prisoners.1 == g.prisoners.1 + cnt(d, Color::Black) - cnt(gcols(h), Color::Black)
}

// What a move does, aspect by aspect.
pub open spec fn board_moved(g: Game, h: Game, m: Move) -> bool {
    h.goban.size == g.goban.size && match m {
        Move::Play(x, y) => gcols(h) == play_of(gcols(g), g.goban.size, idx(g.goban.size, (x, y)), g.turn, su(g)),
        _ => h.goban == g.goban,
    }
}

pub open spec fn flow_moved(g: Game, h: Game, m: Move) -> bool {
    h.rule == g.rule && h.handicap == g.handicap && match m {
        Move::Play(x, y) => h.turn == opp(g.turn) && h.passes == 0 && h.outcome == g.outcome,
        Move::Pass => h.turn == opp(g.turn) && h.passes == g.passes + 1 && h.outcome == g.outcome,
        Move::Resign(c) => h.turn == g.turn && h.passes == g.passes && h.outcome == Some(EndGame::WinnerByResign(c)),
    }
}

pub open spec fn ko_moved(g: Game, h: Game, m: Move) -> bool {
    match m {
        Move::Play(x, y) => ko_ok(gcols(g), g.goban.size, idx(g.goban.size, (x, y)), g.turn, h.ko_point),
        Move::Pass => h.ko_point is None,
        Move::Resign(_) => h.ko_point == g.ko_point,
    }
}

pub open spec fn history_moved(g: Game, h: Game, m: Move) -> bool {
    match m {
        Move::Play(x, y) => forall|cs: Seq<Option<Color>>| #[trigger] seen_before(h, cs) <==> seen_before(g, cs) || cs == gcols(g),
        _ => h.history == g.history,
    }
}

pub open spec fn prisoners_moved(g: Game, h: Game, m: Move) -> bool {
    match m {
        Move::Play(x, y) => prisoners_after(g, h, idx(g.goban.size, (x, y))),
        _ => h.prisoners == g.prisoners,
    }
}

/// What a move turns g into.
pub open spec fn moved(g: Game, h: Game, m: Move) -> bool {
    board_moved(g, h, m) && flow_moved(g, h, m) && ko_moved(g, h, m) && history_moved(g, h, m) && prisoners_moved(g, h, m)
}

pub open spec fn inserted(h0: Seq<Goban>, h1: Seq<Goban>, x: Goban) -> bool {
    h1 == (if exists|i: int| 0 <= i < h0.len() && same_pos(#[trigger] h0[i], x) { h0 } else { h0.push(x) })
}

pub proof fn lemma_history(g: Game, x: Goban, hs: Seq<Goban>)
    requires ginv(g), x == g.goban, inserted(g.history@, hs, x),
    ensures
        forall|i: int| 0 <= i < hs.len() ==> inv(#[trigger] hs[i].v()) && hs[i].size == g.goban.size,
        forall|cs: Seq<Option<Color>>| #[trigger] holds(hs, cs) <==> seen_before(g, cs) || cs == gcols(g),
{
    let r = !(exists|i: int| 0 <= i < g.history@.len() && same_pos(#[trigger] g.history@[i], x));
    assert forall|cs: Seq<Option<Color>>| #[trigger] holds(hs, cs) <==> seen_before(g, cs) || cs == gcols(g) by {
        if exists|i: int| 0 <= i < hs.len() && cols((#[trigger] hs[i]).v()) == cs {
            let i = choose|i: int| 0 <= i < hs.len() && cols((#[trigger] hs[i]).v()) == cs;
            if i < g.history@.len() { assert(hs[i] == g.history@[i]); }
        }
        if seen_before(g, cs) {
            let i = choose|i: int| 0 <= i < g.history@.len() && cols((#[trigger] g.history@[i]).v()) == cs;
            assert(hs[i] == g.history@[i]);
        }
        if cs == gcols(g) {
            if r { assert(hs[g.history@.len() as int] == x); }
            else { let i = choose|i: int| 0 <= i < g.history@.len() && same_pos(#[trigger] g.history@[i], x); assert(hs[i] == g.history@[i]); }
        }
    }
}

pub proof fn lemma_play_inv(g: Game, c: (u8, u8))
    requires ginv(g), valid(g.goban.size, c), colat(g.goban.v(), c) is None,
    ensures id(g.goban.v(), idx(g.goban.size, c)) == -1, 0 <= idx(g.goban.size, c) < cells(g.goban.size), gcols(g).len() == cells(g.goban.size), size_ok(g.goban.size),
        gcols(g)[idx(g.goban.size, c)] is None,
{
    lemma_inv_size(g.goban.v());
    lemma_idx(g.goban.size, c);
    lemma_cell(g.goban.v(), idx(g.goban.size, c));
}

pub proof fn lemma_dead_live(w: GV, p: int, x: Color, ds: Seq<usize>)
    requires inv(w), 0 <= p < cells(w.size), cols(w)[p] == Some(x), forall|c: usize| #![trigger ds.contains(c)] ds.contains(c) <==> kills(w, p, x, c as int),
    ensures forall|i: int| 0 <= i < ds.len() ==> live(w, #[trigger] ds[i] as int), !ds.contains(id(w, p) as usize),
{
    lemma_cell(w, p);
    lemma_live_id(w, p);
    assert forall|i: int| 0 <= i < ds.len() implies live(w, #[trigger] ds[i] as int) by { assert(ds.contains(ds[i])); }
}

pub proof fn lemma_su_cases(v: GV, w: GV, ds: Seq<usize>, a: int, b: bool, c: bool)
    requires b == c, exists|m: GV| #[trigger] removal(v, m, w, ds, a, b),
    ensures exists|m: GV| #[trigger] removal(v, m, w, ds, a, c),
{
    hide(removal);
    if b { assert(c); } else { assert(!c); }
}

pub proof fn lemma_cnt_fit(v: GV)
    requires inv(v),
    ensures 0 <= cnt(cols(v), Color::White) <= 361, 0 <= cnt(cols(v), Color::Black) <= 361,
{
    lemma_inv_size(v);
    lemma_cnt_bound(cols(v), Color::White);
    lemma_cnt_bound(cols(v), Color::Black);
}

/// A play, from the pieces its body consists of.
#[verifier::spinoff_prover]
pub proof fn lemma_play_done(g: Game, h1: Seq<Goban>, w: GV, h: Game, c: (u8, u8), ds: Seq<usize>, added: usize)
    requires
        ginv(g), valid(g.goban.size, c), colat(g.goban.v(), c) is None,
        inv(w), w.size == g.goban.size, cols(w) == gcols(g).update(idx(g.goban.size, c), Some(g.turn)), added == id(w, idx(g.goban.size, c)),
        ds.no_duplicates(), forall|d: usize| #![trigger ds.contains(d)] ds.contains(d) <==> kills(w, idx(g.goban.size, c), g.turn, d as int),
        inv(h.goban.v()), h.goban.size == g.goban.size,
        exists|m: GV| #[trigger] removal(w, m, h.goban.v(), ds, added as int, su(g)),
        h.ko_point == ko_after(w, h.goban.v(), ds, added as int),
        h.history@ == h1,
        forall|i: int| 0 <= i < h1.len() ==> inv(#[trigger] h1[i].v()) && h1[i].size == g.goban.size,
        forall|cs: Seq<Option<Color>>| #[trigger] holds(h1, cs) <==> seen_before(g, cs) || cs == gcols(g),
        h.passes <= 2,
    ensures
        ginv(h),
        forall|k: Game| k.goban == h.goban && k.history == h.history && k.ko_point == h.ko_point && k.passes <= 2 ==> #[trigger] ginv(k),
        board_moved(g, h, Move::Play(c.0, c.1)), ko_moved(g, h, Move::Play(c.0, c.1)), history_moved(g, h, Move::Play(c.0, c.1)),
{
    hide(inv); hide(cols); hide(removal); hide(play_of); hide(ko_after); hide(kills); hide(live); hide(suicidal); hide(sole);
    let p = idx(g.goban.size, c);
    lemma_play_inv(g, c);
    let m = choose|m: GV| #[trigger] removal(w, m, h.goban.v(), ds, added as int, su(g));
    lemma_removal_play(gcols(g), w, m, h.goban.v(), p, g.turn, ds, su(g));
    lemma_ko_after(gcols(g), w, h.goban.v(), p, g.turn, ds, su(g));
    assert forall|cs: Seq<Option<Color>>| #[trigger] seen_before(h, cs) <==> seen_before(g, cs) || cs == gcols(g) by { }
}

pub open spec fn size_of(s: GobanSizes) -> (u8, u8) {
    match s { GobanSizes::Nine => (9u8, 9u8), GobanSizes::Thirteen => (13u8, 13u8), GobanSizes::Nineteen => (19u8, 19u8), GobanSizes::Custom(h, w) => (h as u8, w as u8) }
}

/// A game nothing was done to.
pub open spec fn fresh(g: Game, s: (u8, u8), rule: Rule) -> bool {
    &&& g.goban.size == s && gcols(g) == empty_cols(s) && g.turn == Color::Black && g.prisoners == (0u32, 0u32) && g.passes == 0
    &&& g.outcome is None && g.rule == rule && g.handicap == 0 && g.history@.len() == 0 && g.ko_point is None
}

pub open spec fn over(g: Game) -> bool { g.outcome is Some || g.passes >= 2 }

pub proof fn lemma_gpoint(g: Game, c: (u8, u8))
    requires ginv(g), valid(g.goban.size, c),
    ensures S(g.goban.v()), 0 <= idx(g.goban.size, c) < cells(g.goban.size) <= 361, size_ok(g.goban.size),
{
    lemma_inv_size(g.goban.v());
    lemma_inv_facts(g.goban.v());
    lemma_idx(g.goban.size, c);
}

pub open spec fn captures(v: GV, p: (u8, u8), x: Color) -> bool {
    exists|c: int| #[trigger] touches(v, c, idx(v.size, p)) && live(v, c) && ch(v, c).color != x && lset(ch(v, c).liberties).len() == 1
}


pub open spec fn cap_group(g: Group, x: Color) -> bool { g.color != x && lset(g.liberties).len() == 1 }
pub open spec fn ko_group(g: Group, x: Color) -> bool { g.color != x && lset(g.liberties).len() == 1 && g.num_stones == 1 }
pub open spec fn safe_group(g: Group, x: Color) -> bool { if g.color == x { lset(g.liberties).len() != 1 } else { lset(g.liberties).len() == 1 } }

/// Every group touching cell k is among gs.
pub proof fn lemma_nb_all(v: GV, k: int, cs: Seq<usize>, gs: Seq<&Group>)
    requires S(v), nb_groups(v, k, cs, gs),
    ensures
        forall|i: int| 0 <= i < gs.len() ==> touches(v, cs[i] as int, k) && live(v, cs[i] as int) && *(#[trigger] gs[i]) == ch(v, cs[i] as int),
        forall|c: int| #[trigger] touches(v, c, k) && live(v, c) ==> cs.contains(c as usize) && (c as usize) as int == c,
{
    lemma_touch_live(v, k);
    assert forall|i: int| 0 <= i < gs.len() implies touches(v, cs[i] as int, k) && live(v, cs[i] as int) && *(#[trigger] gs[i]) == ch(v, cs[i] as int) by { assert(cs.contains(cs[i])); }
    assert forall|c: int| #[trigger] touches(v, c, k) && live(v, c) implies cs.contains(c as usize) && (c as usize) as int == c by {
        let j = choose|j: int| #[trigger] adj(v.size, k, j) && id(v, j) == c;
        lemma_cells(v.size);
        assert((c as usize) as int == c);
        assert(touches(v, (c as usize) as int, k));
    }
}

pub proof fn lemma_cap_any(v: GV, p: (u8, u8), x: Color, cs: Seq<usize>, gs: Seq<&Group>)
    requires S(v), nb_groups(v, idx(v.size, p), cs, gs),
    ensures (exists|i: int| 0 <= i < gs.len() && cap_group(*(#[trigger] gs[i]), x)) == captures(v, p, x),
{
    let k = idx(v.size, p);
    lemma_nb_all(v, k, cs, gs);
    if captures(v, p, x) {
        let c = choose|c: int| #[trigger] touches(v, c, k) && live(v, c) && ch(v, c).color != x && lset(ch(v, c).liberties).len() == 1;
        let i = choose|i: int| 0 <= i < cs.len() && cs[i] == c as usize;
        assert(cap_group(*gs[i], x));
    }
    if exists|i: int| 0 <= i < gs.len() && cap_group(*(#[trigger] gs[i]), x) {
        let i = choose|i: int| 0 <= i < gs.len() && cap_group(*(#[trigger] gs[i]), x);
        assert(touches(v, cs[i] as int, k));
    }
}

/// A group touching an empty cell has it as a liberty.
pub proof fn lemma_touch_lib(v: GV, c: int, k: int)
    requires inv(v), live(v, c), touches(v, c, k), 0 <= k < cells(v.size), id(v, k) == -1,
    ensures islib(v, c, k), (lset(ch(v, c).liberties).len() == 1) == only_lib(v, c, k),
{
    lemma_cells(v.size);
    assert(islib(v, c, k));
    lemma_only_lib(v, c, k);
}

pub proof fn lemma_ko_any(v: GV, p: (u8, u8), x: Color, cs: Seq<usize>, gs: Seq<&Group>)
    requires inv(v), valid(v.size, p), id(v, idx(v.size, p)) == -1, nb_groups(v, idx(v.size, p), cs, gs),
    ensures (exists|i: int| 0 <= i < gs.len() && ko_group(*(#[trigger] gs[i]), x)) == (exists|c: int| #[trigger] retake(v, c, idx(v.size, p), opp(x))),
{
    hide(inv);
    let k = idx(v.size, p);
    lemma_inv_facts(v);
    lemma_idx(v.size, p);
    lemma_nb_all(v, k, cs, gs);
    if exists|c: int| #[trigger] retake(v, c, k, opp(x)) {
        let c = choose|c: int| #[trigger] retake(v, c, k, opp(x));
        lemma_touch_lib(v, c, k);
        let i = choose|i: int| 0 <= i < cs.len() && cs[i] == c as usize;
        assert(ko_group(*gs[i], x));
    }
    if exists|i: int| 0 <= i < gs.len() && ko_group(*(#[trigger] gs[i]), x) {
        let i = choose|i: int| 0 <= i < gs.len() && ko_group(*(#[trigger] gs[i]), x);
        lemma_touch_lib(v, cs[i] as int, k);
        assert(retake(v, cs[i] as int, k, opp(x)));
    }
}

pub proof fn lemma_safe_any(v: GV, p: (u8, u8), x: Color, cs: Seq<usize>, gs: Seq<&Group>)
    requires inv(v), valid(v.size, p), id(v, idx(v.size, p)) == -1, nb_groups(v, idx(v.size, p), cs, gs),
    ensures (exists|i: int| 0 <= i < gs.len() && safe_group(*(#[trigger] gs[i]), x)) == (exists|c: int| #[trigger] saves(v, c, idx(v.size, p), x)),
{
    hide(inv);
    let k = idx(v.size, p);
    lemma_inv_facts(v);
    lemma_idx(v.size, p);
    lemma_nb_all(v, k, cs, gs);
    if exists|c: int| #[trigger] saves(v, c, k, x) {
        let c = choose|c: int| #[trigger] saves(v, c, k, x);
        lemma_touch_lib(v, c, k);
        let i = choose|i: int| 0 <= i < cs.len() && cs[i] == c as usize;
        assert(safe_group(*gs[i], x));
    }
    if exists|i: int| 0 <= i < gs.len() && safe_group(*(#[trigger] gs[i]), x) {
        let i = choose|i: int| 0 <= i < gs.len() && safe_group(*(#[trigger] gs[i]), x);
        lemma_touch_lib(v, cs[i] as int, k);
        assert(saves(v, cs[i] as int, k, x));
    }
}

pub proof fn lemma_breathes_at(v: GV, p: (u8, u8))
    requires inv(v), valid(v.size, p),
    ensures breathes_at(v, p) == (exists|k: int| #[trigger] adj(v.size, idx(v.size, p), k) && id(v, k) == -1),
{
    hide(inv);
    let s = v.size;
    lemma_inv_size(v);
    lemma_idx(s, p);
    let i = idx(s, p);
    if breathes_at(v, p) {
        let c = choose|c: (u8, u8)| valid(v.size, c) && #[trigger] adjc(p, c) && colat(v, c) is None;
        lemma_idx(s, c);
        lemma_cell(v, idx(s, c));
        assert(cols(v)[idx(s, c)] == col(v, idx(s, c)));
        assert(adj(s, i, idx(s, c)));
    }
    if exists|k: int| #[trigger] adj(s, i, k) && id(v, k) == -1 {
        let k = choose|k: int| #[trigger] adj(s, i, k) && id(v, k) == -1;
        lemma_coord_of(s, k);
        lemma_cell(v, k);
        assert(cols(v)[k] == col(v, k));
        assert(adjc(p, coord_of(s, k)));
    }
}


// ---------------------------------------------------------------- legality
/// The position the play would give stood on the board before.
pub open spec fn repeats(g: Game, p: (u8, u8)) -> bool {
    let r = play_of(gcols(g), g.goban.size, idx(g.goban.size, p), g.turn, su(g));
    r == gcols(g) || seen_before(g, r)
}

pub proof fn lemma_repeats(g: Game, p: (u8, u8), b: Goban)
    requires ginv(g), b.size == g.goban.size, cols(b.v()) == play_of(gcols(g), g.goban.size, idx(g.goban.size, p), g.turn, su(g)),
    ensures
        repeats(g, p) == (same_pos(b, g.goban) || exists|i: int| 0 <= i < g.history@.len() && same_pos(#[trigger] g.history@[i], b)),
{
    let r = play_of(gcols(g), g.goban.size, idx(g.goban.size, p), g.turn, su(g));
    if seen_before(g, r) {
        let i = choose|i: int| 0 <= i < g.history@.len() && cols((#[trigger] g.history@[i]).v()) == r;
        assert(same_pos(g.history@[i], b));
    }
    if exists|i: int| 0 <= i < g.history@.len() && same_pos(#[trigger] g.history@[i], b) {
        let i = choose|i: int| 0 <= i < g.history@.len() && same_pos(#[trigger] g.history@[i], b);
        assert(cols(g.history@[i].v()) == r);
    }
}

/// The diagonal neighbours, on the board or not, in the order the code looks at them.
pub open spec fn corners4(p: (u8, u8)) -> Seq<(u8, u8)> {
    seq![((p.0 + 1) as u8, (p.1 + 1) as u8), (wsub1(p.0), wsub1(p.1)), ((p.0 + 1) as u8, wsub1(p.1)), (wsub1(p.0), (p.1 + 1) as u8)]
}

/// How many of the first n diagonal neighbours of p are off the board or stones of x.
pub open spec fn good_corners(v: GV, p: (u8, u8), x: Color, n: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { good_corners(v, p, x, n - 1) + (if !valid(v.size, corners4(p)[n - 1]) || colat(v, corners4(p)[n - 1]) == Some(x) { 1int } else { 0int }) }
}

pub open spec fn empty_corners_of(v: GV, p: (u8, u8), n: int) -> Seq<(u8, u8)>
    decreases n,
{
    if n <= 0 { Seq::empty() } else if valid(v.size, corners4(p)[n - 1]) && colat(v, corners4(p)[n - 1]) is None { empty_corners_of(v, p, n - 1).push(corners4(p)[n - 1]) } else { empty_corners_of(v, p, n - 1) }
}

/// Every orthogonal neighbour of p on the board is a stone of x.
pub open spec fn crossed(v: GV, p: (u8, u8), x: Color) -> bool {
    forall|c: (u8, u8)| valid(v.size, c) && #[trigger] adjc(p, c) ==> colat(v, c) == Some(x)
}

/// An opposing stone is next to p.
pub open spec fn opposed(v: GV, p: (u8, u8), x: Color) -> bool {
    exists|c: (u8, u8)| valid(v.size, c) && #[trigger] adjc(p, c) && colat(v, c) == Some(opp(x))
}

pub open spec fn half_good(v: GV, p: (u8, u8), x: Color) -> bool { good_corners(v, p, x, 4) == 2 || good_corners(v, p, x, 4) == 3 }

/// Some empty corner from the n-th on, none opposed up to it, is itself a half eye.
pub open spec fn eye_scan(v: GV, x: Color, es: Seq<(u8, u8)>, n: int) -> bool
    decreases es.len() - n,
{
    if n < 0 || n >= es.len() { false } else if opposed(v, es[n], x) { false } else if half_good(v, es[n], x) { true } else { eye_scan(v, x, es, n + 1) }
}

pub open spec fn eye_of(v: GV, p: (u8, u8), x: Color) -> bool {
    colat(v, p) is None && crossed(v, p, x) && (good_corners(v, p, x, 4) == 4 || half_good(v, p, x) && eye_scan(v, x, empty_corners_of(v, p, 4), 0))
}

/// Why a play on p by the player to move is refused.
pub open spec fn verdict(g: Game, p: (u8, u8), rules: IllegalRules) -> Option<PlayError> {
    if colat(g.goban.v(), p) is Some { Some(PlayError::PointNotEmpty) }
    else if rules.has(IllegalRules::SUICIDE) && suicidal(gcols(g), g.goban.size, idx(g.goban.size, p), g.turn) { Some(PlayError::Suicide) }
    else if rules.has(IllegalRules::KO) && ko_refused(g.goban.v(), g.ko_point, p, g.turn) { Some(PlayError::Ko) }
    else if rules.has(IllegalRules::FILLEYE) && eye_of(g.goban.v(), p, g.turn) { Some(PlayError::FillEye) }
    else if rules.has(IllegalRules::SUPERKO) && repeats(g, p) { Some(PlayError::Ko) }
    else { None }
}

pub open spec fn refusal(g: Game, m: Move) -> Option<PlayError> {
    if g.passes == 2 { Some(PlayError::GamePaused) }
    else { match m { Move::Play(x, y) => verdict(g, (x, y), g.rule.flag_illegal), _ => None } }
}

pub open spec fn legal_list(g: Game, rules: IllegalRules) -> Seq<(u8, u8)> {
    let l = coord_list(g.goban.v(), None);
    keep_by(l, Seq::new(l.len(), |i: int| verdict(g, l[i], rules) is None))
}


pub proof fn lemma_any_point(v: GV, p: (u8, u8), x: Color, ps: Seq<Point>)
    requires nb_points(v, p, ps),
    ensures (exists|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).color != Some(x)) == !crossed(v, p, x),
{
    if exists|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).color != Some(x) {
        let i = choose|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).color != Some(x);
        assert(ps.contains(ps[i]));
    }
    if !crossed(v, p, x) {
        let c = choose|c: (u8, u8)| valid(v.size, c) && #[trigger] adjc(p, c) && colat(v, c) != Some(x);
        assert(ps.contains(pt(v, c)));
        let i = choose|i: int| 0 <= i < ps.len() && ps[i] == pt(v, c);
        assert(ps[i].color != Some(x));
    }
}

pub proof fn lemma_any_stone(v: GV, p: (u8, u8), x: Color, ps: Seq<Stone>)
    requires nb_stones(v, p, ps),
    ensures (exists|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).color != x) == opposed(v, p, x),
{
    if exists|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).color != x {
        let i = choose|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).color != x;
        assert(ps.contains(ps[i]));
    }
    if opposed(v, p, x) {
        let c = choose|c: (u8, u8)| valid(v.size, c) && #[trigger] adjc(p, c) && colat(v, c) == Some(opp(x));
        assert(ps.contains(stn(c, opp(x))));
        let i = choose|i: int| 0 <= i < ps.len() && ps[i] == stn(c, opp(x));
        assert(ps[i].color != x);
    }
}

pub proof fn lemma_good_bound(v: GV, p: (u8, u8), x: Color, n: int)
    requires 0 <= n,
    ensures 0 <= good_corners(v, p, x, n) <= n,
    decreases n,
{
    if n > 0 { lemma_good_bound(v, p, x, n - 1); }
}

pub proof fn lemma_empty_valid(v: GV, p: (u8, u8), n: int)
    requires 0 <= n <= 4,
    ensures forall|i: int| 0 <= i < empty_corners_of(v, p, n).len() ==> valid(v.size, #[trigger] empty_corners_of(v, p, n)[i]),
    decreases n,
{
    hide(valid);
    if n > 0 { lemma_empty_valid(v, p, n - 1); let e = empty_corners_of(v, p, n - 1); assert forall|i: int| 0 <= i < empty_corners_of(v, p, n).len() implies valid(v.size, #[trigger] empty_corners_of(v, p, n)[i]) by { if i < e.len() { assert(valid(v.size, e[i])); } } }
}


pub proof fn lemma_any_points(v: GV, p: (u8, u8), x: Color)
    ensures forall|ps: Seq<Point>| #[trigger] nb_points(v, p, ps) ==> ((exists|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).color != Some(x)) == !crossed(v, p, x)),
{
    assert forall|ps: Seq<Point>| #[trigger] nb_points(v, p, ps) implies ((exists|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).color != Some(x)) == !crossed(v, p, x)) by { lemma_any_point(v, p, x, ps); }
}

pub proof fn lemma_any_stones(v: GV, p: (u8, u8), x: Color)
    ensures forall|ps: Seq<Stone>| #[trigger] nb_stones(v, p, ps) ==> ((exists|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).color != x) == opposed(v, p, x)),
{
    assert forall|ps: Seq<Stone>| #[trigger] nb_stones(v, p, ps) implies ((exists|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).color != x) == opposed(v, p, x)) by { lemma_any_stone(v, p, x, ps); }
}

pub proof fn lemma_legal_list(g: Game, rules: IllegalRules, r: Seq<(u8, u8)>, bs: Seq<bool>)
    requires
        bs.len() == coord_list(g.goban.v(), None).len(),
        forall|i: int| #![trigger bs[i]] 0 <= i < bs.len() ==> bs[i] == (verdict(g, coord_list(g.goban.v(), None)[i], rules) is None),
        r == keep_by(coord_list(g.goban.v(), None), bs),
    ensures r == legal_list(g, rules),
{
    let l = coord_list(g.goban.v(), None);
    assert(bs =~= Seq::new(l.len(), |i: int| verdict(g, l[i], rules) is None));
}


pub proof fn lemma_verdict_empty(g: Game, p: (u8, u8), rules: IllegalRules)
    ensures colat(g.goban.v(), p) is Some <==> verdict(g, p, rules) == Some(PlayError::PointNotEmpty),
{
}

} // verus!
