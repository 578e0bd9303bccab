verus! {

// ================================================================ the sgf-parser crate (2.6.0), as its documentation and types have it
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
pub enum SgfColor { Black, White }
#[derive(Copy, Clone)]
pub enum Outcome { WinnerByResign(SgfColor), WinnerByForfeit(SgfColor), WinnerByPoints(SgfColor, F32), WinnerByTime(SgfColor), Draw }
pub enum RuleSet { Japanese, NZ, GOE, AGA, Chinese, Unknown(String) }
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
pub enum Action { Move(u8, u8), Pass }
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
pub enum SgfGame { Go, Other(u8) }
pub enum Encoding { UTF8, Other(String) }
#[derive(Copy, Clone)]
pub enum DisplayNodes { Children, Siblings }
pub enum SgfToken {
    Add { color: SgfColor, coordinate: (u8, u8) },
    Move { color: SgfColor, action: Action },
    Time { color: SgfColor, time: u32 },
    PlayerName { color: SgfColor, name: String },
    PlayerRank { color: SgfColor, rank: String },
    Game(SgfGame),
    Rule(RuleSet),
    Result(Outcome),
    Komi(F32),
    Event(String),
    Copyright(String),
    GameName(String),
    VariationDisplay { nodes: DisplayNodes, on_board_display: bool },
    Place(String),
    Date(String),
    Size(u32, u32),
    FileFormat(u8),
    Overtime(String),
    TimeLimit(u32),
    MovesRemaining { color: SgfColor, moves: u32 },
    Handicap(u32),
    Comment(String),
    Charset(Encoding),
    Application { name: String, version: String },
    Unknown((String, String)),
    Invalid((String, String)),
    Square { coordinate: (u8, u8) },
    Triangle { coordinate: (u8, u8) },
    Label { label: String, coordinate: (u8, u8) },
}
pub struct GameNode { pub tokens: Vec<SgfToken> }
pub struct GameTree { t: Vec<GameNode> }
pub struct SgfError { e: String }

impl Clone for RuleSet {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl VToString for RuleSet {
    #[verifier::external_body]
    fn v_to_string(&self) -> String { unimplemented!() }
}
impl VToString for SgfError {
    #[verifier::external_body]
    fn v_to_string(&self) -> String { unimplemented!() }
}

/// The nodes of the record's main line, if it is one.
pub uninterp spec fn main_line(s: Seq<char>) -> Option<Seq<GameNode>>;

impl GameTree {
    pub uninterp spec fn line(&self) -> Seq<GameNode>;
    /// iter(): the nodes of the main line
    #[verifier::external_body]
    pub fn v_iter<'a>(&'a self) -> (r: It<&'a GameNode>)
        ensures r@.len() == self.line().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.line()[i],
    { unimplemented!() }
}

#[verifier::external_body]
pub fn sgf_parse(s: &str) -> (r: Result<GameTree, SgfError>)
    ensures match r { Ok(t) => main_line(s@) == Some(t.line()), Err(_) => main_line(s@) is None },
{ unimplemented!() }

pub open spec fn unknowns(ts: Seq<SgfToken>) -> Seq<SgfToken>
    decreases ts.len(),
{
    if ts.len() == 0 { seq![] } else if ts.last() is Unknown { unknowns(ts.drop_last()).push(ts.last()) } else { unknowns(ts.drop_last()) }
}
impl GameNode {
    #[verifier::external_body]
    pub fn get_unknown_tokens(&self) -> (r: Vec<&SgfToken>)
        ensures r@.len() == unknowns(self.tokens@).len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == unknowns(self.tokens@)[i],
    { unimplemented!() }
}

pub trait InIncl: Sized {
    spec fn ii(&self, a: Self, b: Self) -> bool;
    /// (a..=b).contains(self)
    fn in_incl(&self, a: Self, b: Self) -> (r: bool) ensures r == self.ii(a, b);
}
impl InIncl for u32 {
    open spec fn ii(&self, a: u32, b: u32) -> bool { a <= *self <= b }
    fn in_incl(&self, a: u32, b: u32) -> (r: bool) { a <= *self && *self <= b }
}
impl InIncl for u8 {
    open spec fn ii(&self, a: u8, b: u8) -> bool { a <= *self <= b }
    fn in_incl(&self, a: u8, b: u8) -> (r: bool) { a <= *self && *self <= b }
}
impl InIncl for usize {
    open spec fn ii(&self, a: usize, b: usize) -> bool { a <= *self <= b }
    fn in_incl(&self, a: usize, b: usize) -> (r: bool) { a <= *self && *self <= b }
}
pub trait VAsStr {
    spec fn vas(&self) -> Seq<char>;
    fn v_as_str(&self) -> (r: &str) ensures r@ == self.vas();
}
impl VAsStr for String {
    open spec fn vas(&self) -> Seq<char> { self@ }
    fn v_as_str(&self) -> (r: &str) { self.as_str() }
}

// ================================================================ what a record asks for
pub open spec fn color_of(c: SgfColor) -> Color { match c { SgfColor::Black => Color::Black, SgfColor::White => Color::White } }
pub open spec fn end_of(o: Outcome) -> EndGame {
    match o {
        Outcome::WinnerByResign(c) => EndGame::WinnerByResign(color_of(c)),
        Outcome::WinnerByForfeit(c) => EndGame::WinnerByForfeit(color_of(c)),
        Outcome::WinnerByPoints(c, p) => EndGame::WinnerByScore(color_of(c), p),
        Outcome::WinnerByTime(c) => EndGame::WinnerByTime(color_of(c)),
        Outcome::Draw => EndGame::Draw,
    }
}
/// The records count from one; a zero is no place on any board.
pub open spec fn from_one(x: u8) -> u8 { if x == 0 { 255u8 } else { (x - 1) as u8 } }
/// The parser gives (column, row).
pub open spec fn place_of(c: (u8, u8)) -> (u8, u8) { (from_one(c.1), from_one(c.0)) }
pub open spec fn move_of(a: Action) -> Move { match a { Action::Move(c, l) => Move::Play(place_of((c, l)).0, place_of((c, l)).1), Action::Pass => Move::Pass } }
pub open spec fn other_side(c: Color) -> Color { match c { Color::Black => Color::White, Color::White => Color::Black } }

pub ghost struct Asked {
    pub size: (u8, u8), pub rule: Rule, pub komi: Option<F32>, pub handicap: Option<u32>, pub turn: Option<Color>, pub moves: Seq<Move>,
    pub outcome: Option<EndGame>, pub setup: Seq<Stone>,
}
pub open spec fn asked(b: GameBuilder) -> Asked {
    Asked { size: b.size, rule: b.rule, komi: b.komi, handicap: b.handicap, turn: b.turn, moves: b.moves@, outcome: b.outcome, setup: b.setup@ }
}
pub open spec fn nothing() -> Asked {
    Asked { size: (19u8, 19u8), rule: the_CHINESE(), komi: None, handicap: None, turn: None, moves: seq![], outcome: None, setup: seq![] }
}

/// A property of the first node; None if it asks for something that is not supported.
pub open spec fn root_token(a: Asked, t: SgfToken) -> Option<Asked> {
    match t {
        SgfToken::Komi(k) => Some(Asked { komi: Some(k), ..a }),
        SgfToken::Size(c, r) => if 1 <= c <= 19 && 1 <= r <= 19 { Some(Asked { size: (r as u8, c as u8), ..a }) } else { None },
        SgfToken::Result(o) => Some(Asked { outcome: Some(end_of(o)), ..a }),
        SgfToken::Add { color, coordinate } => Some(Asked { setup: a.setup.push(Point { coord: place_of(coordinate), color: color_of(color) }), ..a }),
        SgfToken::Rule(RuleSet::Japanese) => Some(Asked { rule: the_JAPANESE(), ..a }),
        SgfToken::Rule(RuleSet::Chinese) => Some(Asked { rule: the_CHINESE(), ..a }),
        SgfToken::Rule(_) => None,
        SgfToken::Handicap(h) => Some(Asked { handicap: Some(h), ..a }),
        SgfToken::Game(g) => if g == SgfGame::Go { Some(a) } else { None },
        _ => Some(a),
    }
}
pub open spec fn root_tokens(a: Asked, ts: Seq<SgfToken>) -> Option<Asked>
    decreases ts.len(),
{
    if ts.len() == 0 { Some(a) } else { match root_tokens(a, ts.drop_last()) { Some(x) => root_token(x, ts.last()), None => None } }
}
/// The player named by PL, the last if several are; None if one is named that is neither.
pub open spec fn player_token(c: Option<Color>, t: SgfToken) -> Option<Option<Color>> {
    match t {
        SgfToken::Unknown((k, v)) => if k@ == "PL"@ { if v@ == "B"@ { Some(Some(Color::Black)) } else if v@ == "W"@ { Some(Some(Color::White)) } else { None } } else { Some(c) },
        _ => Some(c),
    }
}
pub open spec fn player_tokens(c: Option<Color>, ts: Seq<SgfToken>) -> Option<Option<Color>>
    decreases ts.len(),
{
    if ts.len() == 0 { Some(c) } else { match player_tokens(c, ts.drop_last()) { Some(x) => player_token(x, ts.last()), None => None } }
}
pub open spec fn root_node(ts: Seq<SgfToken>) -> Option<Asked> {
    match (root_tokens(nothing(), ts), player_tokens(None, unknowns(ts))) { (Some(a), Some(p)) => Some(Asked { turn: p, ..a }), _ => None }
}

pub ghost struct Line { pub turn: Option<Color>, pub next: Option<Color>, pub moves: Seq<Move> }
/// The first recorded move says who begins; after it the players alternate.
pub open spec fn line_token(l: Line, t: SgfToken) -> Option<Line> {
    match t {
        SgfToken::Move { color, action } => {
            let p = color_of(color);
            if l.next is Some && l.next != Some(p) { None }
            else { Some(Line { turn: if l.next is None { Some(p) } else { l.turn }, next: Some(other_side(p)), moves: l.moves.push(move_of(action)) }) }
        }
        _ => Some(l),
    }
}
pub open spec fn line_tokens(l: Line, ts: Seq<SgfToken>) -> Option<Line>
    decreases ts.len(),
{
    if ts.len() == 0 { Some(l) } else { match line_tokens(l, ts.drop_last()) { Some(x) => line_token(x, ts.last()), None => None } }
}
pub open spec fn line_nodes(l: Line, ns: Seq<GameNode>) -> Option<Line>
    decreases ns.len(),
{
    if ns.len() == 0 { Some(l) } else { match line_nodes(l, ns.drop_last()) { Some(x) => line_tokens(x, ns.last().tokens@), None => None } }
}

/// What the record's main line asks for; None if it is not supported.
pub open spec fn root_of(ns: Seq<GameNode>) -> Option<Asked> { if ns.len() == 0 { Some(nothing()) } else { root_node(ns[0].tokens@) } }
pub open spec fn wanted(ns: Seq<GameNode>) -> Option<Asked> {
    match root_of(ns) {
        Some(a) => match line_nodes(Line { turn: a.turn, next: None, moves: seq![] }, ns) { Some(l) => Some(Asked { turn: l.turn, moves: l.moves, ..a }), None => None },
        None => None,
    }
}
pub open spec fn token_count(ns: Seq<GameNode>) -> int
    decreases ns.len(),
{
    if ns.len() == 0 { 0 } else { token_count(ns.drop_last()) + ns.last().tokens@.len() }
}

/// The game is what the record asks for, or (Err) the record asks for something impossible.
pub open spec fn imported(s: Seq<char>, r: Result<Game, String>) -> bool {
    match main_line(s) {
        None => r is Err,
        Some(ns) => match wanted(ns) {
            None => r is Err,
            Some(a) => exists|b: GameBuilder| #[trigger] asked(b) == a && b.handicap_points@.len() == 0 && match r { Ok(g) => built(b, g), Err(_) => unbuildable(b) },
        },
    }
}

pub open spec fn line_start(a: Asked) -> Line { Line { turn: a.turn, next: None, moves: seq![] } }

pub proof fn lemma_root_none(a: Asked, ts: Seq<SgfToken>, k: int)
    requires 0 <= k <= ts.len(), root_tokens(a, ts.subrange(0, k)) is None,
    ensures root_tokens(a, ts) is None,
    decreases ts.len() - k,
{
    if k == ts.len() { lemma_prefix_full(ts); }
    else {
        assert(ts.subrange(0, k + 1).drop_last() =~= ts.subrange(0, k));
        lemma_root_none(a, ts, k + 1);
    }
}
pub proof fn lemma_player_none(a: Option<Color>, ts: Seq<SgfToken>, k: int)
    requires 0 <= k <= ts.len(), player_tokens(a, ts.subrange(0, k)) is None,
    ensures player_tokens(a, ts) is None,
    decreases ts.len() - k,
{
    if k == ts.len() { lemma_prefix_full(ts); }
    else {
        assert(ts.subrange(0, k + 1).drop_last() =~= ts.subrange(0, k));
        lemma_player_none(a, ts, k + 1);
    }
}
pub proof fn lemma_line_none(a: Line, ts: Seq<SgfToken>, k: int)
    requires 0 <= k <= ts.len(), line_tokens(a, ts.subrange(0, k)) is None,
    ensures line_tokens(a, ts) is None,
    decreases ts.len() - k,
{
    if k == ts.len() { lemma_prefix_full(ts); }
    else {
        assert(ts.subrange(0, k + 1).drop_last() =~= ts.subrange(0, k));
        lemma_line_none(a, ts, k + 1);
    }
}
pub proof fn lemma_nodes_none(a: Line, ns: Seq<GameNode>, k: int)
    requires 0 <= k <= ns.len(), line_nodes(a, ns.subrange(0, k)) is None,
    ensures line_nodes(a, ns) is None,
    decreases ns.len() - k,
{
    if k == ns.len() { lemma_prefix_full(ns); }
    else {
        assert(ns.subrange(0, k + 1).drop_last() =~= ns.subrange(0, k));
        lemma_nodes_none(a, ns, k + 1);
    }
}
pub proof fn lemma_root_step(ns: Seq<GameNode>, n: int)
    requires ns.len() > 0, 0 <= n < ns[0].tokens@.len(), root_tokens(nothing(), ns[0].tokens@.subrange(0, n)) is Some,
    ensures
        root_tokens(nothing(), ns[0].tokens@.subrange(0, n + 1)) == root_token(root_tokens(nothing(), ns[0].tokens@.subrange(0, n)).unwrap(), ns[0].tokens@[n]),
        root_token(root_tokens(nothing(), ns[0].tokens@.subrange(0, n)).unwrap(), ns[0].tokens@[n]) is None ==> wanted(ns) is None,
{
    let ts = ns[0].tokens@;
    assert(ts.subrange(0, n + 1).drop_last() =~= ts.subrange(0, n));
    if root_tokens(nothing(), ts.subrange(0, n + 1)) is None { lemma_root_none(nothing(), ts, n + 1); }
}
pub proof fn lemma_player_step(ns: Seq<GameNode>, n: int)
    requires ns.len() > 0, 0 <= n < unknowns(ns[0].tokens@).len(), player_tokens(None, unknowns(ns[0].tokens@).subrange(0, n)) is Some,
    ensures
        player_tokens(None, unknowns(ns[0].tokens@).subrange(0, n + 1)) == player_token(player_tokens(None, unknowns(ns[0].tokens@).subrange(0, n)).unwrap(), unknowns(ns[0].tokens@)[n]),
        player_token(player_tokens(None, unknowns(ns[0].tokens@).subrange(0, n)).unwrap(), unknowns(ns[0].tokens@)[n]) is None ==> wanted(ns) is None,
        unknowns(ns[0].tokens@)[n] is Unknown,
{
    let ts = unknowns(ns[0].tokens@);
    lemma_unknowns(ns[0].tokens@);
    assert(ts.subrange(0, n + 1).drop_last() =~= ts.subrange(0, n));
    if player_tokens(None, ts.subrange(0, n + 1)) is None { lemma_player_none(None, ts, n + 1); }
}
pub proof fn lemma_unknowns(ts: Seq<SgfToken>)
    ensures forall|i: int| 0 <= i < unknowns(ts).len() ==> (#[trigger] unknowns(ts)[i]) is Unknown,
    decreases ts.len(),
{
    if ts.len() > 0 { lemma_unknowns(ts.drop_last()); }
}
/// The j-th property of the k-th node.
pub proof fn lemma_line_step(l0: Line, ns: Seq<GameNode>, k: int, j: int, l1: Line)
    requires
        0 <= k < ns.len(), 0 <= j < ns[k].tokens@.len(), line_nodes(l0, ns.subrange(0, k)) == Some(l1), line_tokens(l1, ns[k].tokens@.subrange(0, j)) is Some,
        root_of(ns) is Some, l0 == line_start(root_of(ns).unwrap()),
    ensures
        line_tokens(l1, ns[k].tokens@.subrange(0, j + 1)) == line_token(line_tokens(l1, ns[k].tokens@.subrange(0, j)).unwrap(), ns[k].tokens@[j]),
        line_token(line_tokens(l1, ns[k].tokens@.subrange(0, j)).unwrap(), ns[k].tokens@[j]) is None ==> wanted(ns) is None,
{
    let ts = ns[k].tokens@;
    assert(ts.subrange(0, j + 1).drop_last() =~= ts.subrange(0, j));
    if line_tokens(l1, ts.subrange(0, j + 1)) is None {
        lemma_line_none(l1, ts, j + 1);
        assert(ns.subrange(0, k + 1).drop_last() =~= ns.subrange(0, k));
        lemma_nodes_none(l0, ns, k + 1);
    }
}
pub proof fn lemma_node_step(l0: Line, ns: Seq<GameNode>, k: int, l1: Line)
    requires 0 <= k < ns.len(), line_nodes(l0, ns.subrange(0, k)) == Some(l1),
    ensures line_nodes(l0, ns.subrange(0, k + 1)) == line_tokens(l1, ns[k].tokens@),
{
    assert(ns.subrange(0, k + 1).drop_last() =~= ns.subrange(0, k));
}
pub proof fn lemma_tokens_len(l: Line, ts: Seq<SgfToken>)
    ensures line_tokens(l, ts) matches Some(x) ==> x.moves.len() <= l.moves.len() + ts.len(),
    decreases ts.len(),
{
    if ts.len() > 0 { lemma_tokens_len(l, ts.drop_last()); }
}
pub proof fn lemma_line_len(l: Line, ns: Seq<GameNode>)
    ensures line_nodes(l, ns) matches Some(x) ==> x.moves.len() <= l.moves.len() + token_count(ns),
    decreases ns.len(),
{
    if ns.len() > 0 {
        lemma_line_len(l, ns.drop_last());
        match line_nodes(l, ns.drop_last()) { Some(x) => { lemma_tokens_len(x, ns.last().tokens@); } None => {} }
    }
}
pub proof fn lemma_size_tokens(ts: Seq<SgfToken>)
    ensures root_tokens(nothing(), ts) matches Some(x) ==> size_ok(x.size),
    decreases ts.len(),
{
    if ts.len() > 0 { lemma_size_tokens(ts.drop_last()); }
}
pub proof fn lemma_root_size(ns: Seq<GameNode>)
    ensures root_of(ns) matches Some(x) ==> size_ok(x.size),
{
    if ns.len() > 0 { lemma_size_tokens(ns[0].tokens@); }
}
}
