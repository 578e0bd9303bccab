PRE = """use goban::pieces::goban::*;
use goban::pieces::stones::*;
use goban::rules::*;
use goban::rules::game::*;
#[allow(unused)]
use std::collections::HashSet;
#[allow(dead_code)]
fn rule(ill: IllegalRules) -> Rule { Rule { komi: 0.0, flag_illegal: ill, flag_score: ScoreRules::PRISONNERS } }
"""
G = "src/pieces/goban.rs"; GA = "src/rules/game.rs"
seed("c01-merge-count-wraps", "C01", G, "chain1.num_stones += chain2.num_stones;", "chain1.num_stones = (chain1.num_stones + chain2.num_stones) & 0xff;",
 "two groups of one colour merge into one of 256 stones or more", "the merged group reports a wrong number of stones", PRE + """
fn main() {
    let mut b = Goban::new((19, 19));
    for i in 0..19u8 { for j in 0..19u8 { if j != 9 { b.push((i, j), Color::Black); } } }
    b.push((4, 9), Color::Black);
    let g: Vec<_> = b.chains().collect();
    assert_eq!(g.len(), 1);
    assert_eq!(g[0].num_stones, 18 * 19 + 1);
}
""")
seed("c02-merge-keeps-own-point", "C02", G, """                self.chains[to_merge].remove_liberty(pushed_stone_idx);
                to_merge""", """                if dead_ren.is_empty() {
                    self.chains[to_merge].remove_liberty(pushed_stone_idx);
                }
                to_merge""",
 "a stone that joins two groups and captures an opposing group in the same move", "the joined group keeps the occupied point as a liberty", PRE + """
fn main() {
    // white at (0,1) is captured by black at (0,2), which joins (1,2) with (0,3)
    let mut g = Game::new(GobanSizes::Custom(5, 5), rule(IllegalRules::KO));
    for p in [(0u8, 0u8), (1, 1), (1, 2), (0, 3)] { g.put_handicap(&[p]); }
    g.play(Move::Play(0, 1));
    g.play(Move::Play(0, 2));
    let b = g.goban();
    for c in b.chains() {
        for l in c.liberties() { assert_eq!(b.get_color(l), None, "liberty on a stone"); }
    }
    assert_eq!(b.get_color((0, 1)), None);
}
""")
seed("c03-single-suicide-stays", "C03", G, "if suicide_allowed && maybe_dead_chain.is_dead() {", "if suicide_allowed && maybe_dead_chain.is_dead() && maybe_dead_chain.num_stones > 1 {",
 "rules that allow suicide and a suicide of a single stone", "the suicided stone stays on the board without liberties", PRE + """
fn main() {
    let mut g = Game::new(GobanSizes::Custom(5, 5), rule(IllegalRules::KO));
    g.put_handicap(&[(0, 1), (1, 0)]);
    g.try_play(Move::Play(0, 0)).unwrap();
    assert_eq!(g.goban().get_color((0, 0)), None);
}
""")
seed("c04-suicide-credited-wrong", "C04", [(G, """            match maybe_dead_chain.color {
                Color::White => {
                    stones_removed.0 +=""", """            match !maybe_dead_chain.color {
                Color::White => {
                    stones_removed.0 +=""")], None, None,
 "rules that allow suicide and a suicide", "the suicided stones are credited to the player who lost them", PRE + """
fn main() {
    let mut g = Game::new(GobanSizes::Custom(5, 5), rule(IllegalRules::KO));
    g.put_handicap(&[(0, 2), (1, 1), (1, 0)]);
    g.play(Move::Play(0, 0)); g.play(Move::Play(4, 4)); g.play(Move::Play(0, 1));
    assert_eq!(g.goban().get_color((0, 1)), None);
    assert_eq!(g.prisoners(), (2, 0));
}
""")
seed("c05-hash-mixes-slots", "C05", G, "state.write_u64(self.zobrist_hash);", "state.write_u64(self.zobrist_hash ^ self.chains.0.len() as u64);",
 "two boards with the same stones reached through different numbers of groups", "equal boards hash differently", PRE + """
use std::hash::{Hash, Hasher};
fn h(b: &Goban) -> u64 { let mut s = std::collections::hash_map::DefaultHasher::new(); b.hash(&mut s); s.finish() }
fn main() {
    let mut a = Goban::new((9, 9));
    for p in [(0u8, 0u8), (0, 1), (0, 2)] { a.push(p, Color::Black); }
    let mut b = Goban::new((9, 9));
    for p in [(0u8, 0u8), (0, 2), (0, 1)] { b.push(p, Color::Black); }
    assert!(a == b);
    assert_eq!(h(&a), h(&b));
}
""")
seed("c06-suicide-of-the-other-player", "C06", GA, """                    if neighbor_go_string.color == stone.color {
                        // Connecting""", """                    if neighbor_go_string.color == self.turn {
                        // Connecting""",
 "asking whether a move of the player not to move is suicide", "check_suicide judges the stone by the player to move, not by its colour", PRE + """
fn main() {
    // black (0,1),(1,0) in the corner; the point (0,0): suicide for white, not for black
    let mut g = Game::new(GobanSizes::Custom(5, 5), rule(IllegalRules::SUICIDE));
    g.put_handicap(&[(0, 1), (1, 0)]);
    assert!(g.check_suicide(Stone { coord: (0, 0), color: Color::White }));
    assert!(!g.check_suicide(Stone { coord: (0, 0), color: Color::Black }));
}
""")
seed("c07-ko-survives-pass", "C07", GA, """                self.turn = !self.turn;
                self.ko_point = None;
                self.passes += 1;""", """                self.turn = !self.turn;
                self.passes += 1;""",
 "a ko capture, two passes, the game resumed, then the retake", "the retake is refused as ko although both players passed", PRE + """
fn main() {
    // classic ko: black . B W .  / B . . W ...
    let mut g = Game::new(GobanSizes::Custom(5, 5), rule(IllegalRules::KO | IllegalRules::SUICIDE));
    for (i, p) in [(0u8, 1u8), (0, 2), (1, 0), (1, 3), (2, 1), (2, 2), (4, 4), (1, 1)].iter().enumerate() {
        let _ = i; g.try_play(Move::Play(p.0, p.1)).unwrap();
    }
    g.try_play(Move::Play(1, 2)).unwrap(); // black takes (1,1)
    assert_eq!(g.goban().get_color((1, 1)), None);
    assert!(g.check_point((1, 1)) == Some(PlayError::Ko));
    g.try_play(Move::Pass).unwrap();
    g.try_play(Move::Pass).unwrap();
    g.resume();
    assert_eq!(g.turn(), Color::White);
    assert_eq!(g.check_point((1, 1)), None);
}
""")
seed("c08-position-after-pass-forgotten", "C08", GA, "                self.history.insert(self.goban.clone());", """                if self.passes == 0 {
                    self.history.insert(self.goban.clone());
                }""",
 "a cycle of the position in which the repeated position was the one answered after a pass", "superko forgets the positions in which a player passed", PRE + """
fn main() {
    let mut g = Game::new(GobanSizes::Custom(5, 5), rule(IllegalRules::SUPERKO | IllegalRules::SUICIDE));
    for p in [(0u8, 1u8), (0, 2), (1, 0), (1, 3), (2, 1), (2, 2)] { g.try_play(Move::Play(p.0, p.1)).unwrap(); }
    g.try_play(Move::Play(4, 4)).unwrap();
    g.try_play(Move::Play(1, 1)).unwrap(); // white in the ko: position X
    g.try_play(Move::Pass).unwrap();       // black passes in X
    g.try_play(Move::Pass).unwrap(); g.resume(); g.try_play(Move::Pass).unwrap();
    // white to move in X... black must take: let white pass was above; now it is white's turn?
    if g.turn() == Color::White { g.try_play(Move::Pass).unwrap(); g.resume(); g.try_play(Move::Pass).unwrap(); g.try_play(Move::Pass).unwrap(); g.resume(); g.try_play(Move::Pass).unwrap(); }
    while g.turn() != Color::Black { g.resume(); g.try_play(Move::Pass).unwrap(); }
    g.try_play(Move::Play(1, 2)).unwrap(); // black takes, X was on the board before
    assert_eq!(g.check_point((1, 1)), Some(PlayError::Ko));
}
""")
seed("c09-try-play-fills-eyes", "C09", GA, "} else if let Some(c) = self.check_point((x as Nat, y as Nat)) {", "} else if let Some(c) = self.check_point_by(\n                        (x as Nat, y as Nat),\n                        self.rule.flag_illegal - IllegalRules::FILLEYE,\n                    ) {",
 "rules with the eye-filling filter and a move into a plain eye", "the checked play accepts a point that is not in the list of legal moves", PRE + """
fn main() {
    let mut g = Game::new(GobanSizes::Custom(5, 5), rule(IllegalRules::FILLEYE));
    for p in [(0u8, 1u8), (4, 4), (1, 0), (4, 3), (1, 1), (4, 2)] { g.try_play(Move::Play(p.0, p.1)).unwrap(); }
    assert!(!g.legals().any(|p| p == (0, 0)));
    assert!(g.try_play(Move::Play(0, 0)).is_err());
}
""")
seed("c10-resume-clears-result", "C10", GA, """    pub fn resume(&mut self) {
        self.passes = 0;""", """    pub fn resume(&mut self) {
        self.outcome = None;
        self.passes = 0;""",
 "a resignation followed by a resumption", "the game is no longer over after a resignation", PRE + """
fn main() {
    let mut g = Game::new(GobanSizes::Nine, JAPANESE);
    g.play(Move::Resign(Color::Black));
    assert!(g.is_over());
    g.resume();
    assert!(g.is_over());
}
""")
seed("c11-first-stone-decides", "C11", "src/pieces/territory.rs", """                        neutral.1 = true; // found white stone
                    }""", """                        neutral.1 = true; // found white stone
                        break;
                    }""",
 "a region of empty points in which the only point that touches black touches white first", "a neutral region is reported as white's territory", PRE + """
fn main() {
    let mut b = Goban::new((1, 3));
    b.push((0, 0), Color::Black);
    b.push((0, 2), Color::White);
    assert_eq!(b.calculate_territories(), (0, 0));
    let mut b = Goban::new((3, 1));
    b.push((0, 0), Color::Black);
    b.push((2, 0), Color::White);
    assert_eq!(b.calculate_territories(), (0, 0));
}
""")
seed("c12-close-games-drawn", "C12", GA, "(scores.0 - scores.1).abs() < f32::EPSILON", "(scores.0 - scores.1).abs() < 0.5",
 "a finished game with a komi that makes the margin a quarter of a point", "the game is reported as a draw although the scores differ", PRE + """
fn main() {
    let mut r = rule(IllegalRules::KO);
    r.flag_score = ScoreRules::KOMI | ScoreRules::STONES;
    r.komi = 0.25;
    let mut g = Game::new(GobanSizes::Nine, r);
    g.play(Move::Pass); g.play(Move::Pass);
    assert_eq!(g.outcome(), Some(EndGame::WinnerByScore(Color::White, 0.25)));
}
""")
seed("c13-area-instead-of-sides", "C13", G, "            height <= 19 && width <= 19,", "            height as usize * width as usize <= BOARD_MAX_LENGTH,",
 "a board longer than 19 on one side whose area fits", "a board that is too large is accepted", PRE + """
fn main() {
    let r = std::panic::catch_unwind(|| Goban::new((20, 18)));
    assert!(r.is_err());
    let r = std::panic::catch_unwind(|| Goban::new((3, 100)));
    assert!(r.is_err());
}
""")
seed("c14-count-truncated", "C14", G, "black_stones += group.num_stones as u32;", "black_stones += group.num_stones as u8 as u32;",
 "a group of black stones with 256 stones or more", "the number of black stones is wrong", PRE + """
fn main() {
    let mut b = Goban::new((19, 19));
    for i in 0..16u8 { for j in 0..17u8 { b.push((i, j), Color::Black); } }
    assert_eq!(b.number_of_stones(), (16 * 17, 0));
}
""")
seed("c15-liberty-list-shift", "C15", "src/pieces/group.rs", "chunk = chunk.checked_shr(zeros + 1).unwrap_or(0);", "chunk >>= zeros + 1;",
 "listing the liberties of a group whose only liberty in a byte is the byte's top bit", "listing the liberties panics (shift overflow) or never ends", PRE + """
fn main() {
    let mut b = Goban::new((9, 9));
    b.push((0, 8), Color::Black); // liberties 7 and 17
    let l: Vec<_> = b.chains().next().unwrap().liberties();
    assert_eq!(l, vec![7, 17]);
}
""")
seed("c16-handicap-of-one", "C16", "src/rules/game_builder.rs", "if handicap != 0 {", "if handicap > 1 {",
 "a builder with a handicap of exactly one and no explicit player to move", "Black moves first although there is a handicap", PRE + """
fn main() {
    let g = Game::builder().size((9, 9)).put_handicap(&[(2, 2)]).build().unwrap();
    assert_eq!(g.turn(), Color::White);
}
""")
seed("c17-forfeit-becomes-time", "C17", "src/rules/sgf_bridge.rs", "Outcome::WinnerByForfeit(c) => EndGame::WinnerByForfeit(c.into()),", "Outcome::WinnerByForfeit(c) => EndGame::WinnerByTime(c.into()),",
 "a record whose result is a win by forfeit", "the imported result is a win on time", PRE + """
fn main() {
    let g = Game::from_sgf("(;GM[1]SZ[9]RE[W+F];B[aa])").unwrap();
    assert_eq!(g.outcome(), Some(EndGame::WinnerByForfeit(Color::White)));
}
""")
seed("c18-eye-with-open-side", "C18", GA, ".any(|s| s.color != Some(color))", ".any(|s| s.color == Some(!color))",
 "a point with the mover's stones on all four diagonals and an empty orthogonal neighbour", "a point that is no eye is filtered as eye filling", PRE + """
fn main() {
    let mut g = Game::new(GobanSizes::Nine, rule(IllegalRules::FILLEYE));
    g.put_handicap(&[(3, 3), (3, 5), (5, 3), (5, 5), (3, 4), (5, 4), (4, 3)]);
    g.play(Move::Pass);
    assert!(!g.check_eye(Stone { coord: (4, 4), color: Color::Black }));
    assert_eq!(g.check_point((4, 4)), None);
}
""")
seed("c19-simulated-suicide-stays", "C19", GA, """        let (dead_go_strings, added_ren) = test_goban.push_wth_feedback((x, y), self.turn);
""", """        let (dead_go_strings, added_ren) = test_goban.push_wth_feedback((x, y), self.turn);
        if dead_go_strings.is_empty() {
            return test_goban;
        }
""",
 "rules that allow suicide and a suicide move", "the simulated board keeps the suicided stones", PRE + """
fn main() {
    let mut g = Game::new(GobanSizes::Custom(5, 5), rule(IllegalRules::KO));
    g.put_handicap(&[(0, 1), (1, 0)]);
    let sim = g.play_for_verification((0, 0));
    g.try_play(Move::Play(0, 0)).unwrap();
    assert!(&sim == g.goban());
}
""")
seed("c20-square-printing", "C20", G, "            for j in 0..self.size.1 as Nat {\n                buff.push", "            for j in 0..self.size.0 as Nat {\n                buff.push",
 "a rectangular board", "the printed board has as many columns as rows", PRE + """
fn main() {
    let mut b = Goban::new((3, 5));
    b.push((2, 4), Color::White);
    let s = b.pretty_string();
    let l: Vec<Vec<char>> = s.lines().map(|x| x.chars().collect()).collect();
    assert_eq!(l.len(), 3);
    assert!(l.iter().all(|x| x.len() == 5));
    assert_eq!(l[2][4], '\\u{25CB}');
}
""")
seed("c21-eyes-of-the-mover", "C21", "src/rules/dead_stones.rs", """            }) || self.check_eye(Stone {
                coord: p,
                color: Color::White,
            })""", """            }) || self.check_eye(Stone {
                coord: p,
                color: self.turn,
            })""",
 "a white group with two eyes while Black is to move", "a living white group is suggested as floating when it is Black's turn", PRE + """
fn main() {
    let mut g = Game::new(GobanSizes::Custom(5, 5), rule(IllegalRules::KO));
    for p in [(0u8, 1u8), (1, 0), (1, 1), (1, 2), (0, 3), (1, 3)] { g.play(Move::Pass); g.play(Move::Play(p.0, p.1)); }
    g.play(Move::Pass); g.play(Move::Play(4, 4));
    assert_eq!(g.turn(), Color::Black);
    let f = g.get_floating_stones();
    let big = g.goban().get_connected_groups_idx((0u8, 0u8));
    assert!(f.iter().all(|x| !big.contains(x)), "{:?}", f);
}
""")
