GR = "src/pieces/group.rs"; TE = "src/pieces/territory.rs"; GB = "src/rules/game_builder.rs"; SG = "src/rules/sgf_bridge.rs"; DS = "src/rules/dead_stones.rs"
seed("c01-fourth-group-left-out", "C01", G, "                for adj_ren in adjacent_same_color_str_set {", "                for adj_ren in adjacent_same_color_str_set.into_iter().take(3) {",
 "a stone that joins four different groups at once", "the fourth group stays separate from the joined one", PRE + """
fn main() {
    let mut b = Goban::new((9, 9));
    for p in [(3u8, 4u8), (5, 4), (4, 3), (4, 5), (4, 4)] { b.push(p, Color::Black); }
    assert_eq!(b.chains().count(), 1);
}
""")
seed("c01-renumbering-stops", "C01", G, """        for point in self.chains[chain_idx].iter(&self.next_stone) {
            self.board[point]""", """        let count = self.chains[chain_idx].num_stones as u8;
        for point in self.chains[chain_idx]
            .iter(&self.next_stone)
            .take(if count == 0 { 1 } else { usize::MAX })
        {
            self.board[point]""",
 "a merge into a group of exactly 256 stones", "stones of the merged group keep the number of a group that is gone", PRE + """
fn main() {
    let mut b = Goban::new((19, 19));
    let mut n = 0;
    // 13 columns of stones, 19 high, in separate groups (every other row empty is not needed: columns joined by one stone at the end)
    let mut pts = vec![];
    for i in 0..19u8 { for j in 0..19u8 { if j != 9 { pts.push((i, j)); } } }
    // left block 9*19 = 171, right block: 84 stones, joined by one: 256
    for &(i, j) in pts.iter().filter(|p| p.1 < 9) { b.push((i, j), Color::Black); n += 1; }
    for &(i, j) in pts.iter().filter(|p| p.1 > 9) { if n < 255 { b.push((i, j), Color::Black); n += 1; } }
    b.push((0, 9), Color::Black);
    let g: Vec<_> = b.chains().collect();
    assert_eq!(g.len(), 1);
    assert_eq!(g[0].num_stones, 256);
    for s in b.get_stones() { assert_eq!(s.color, Color::Black); }
    let mut ids = HashSet::new();
    for i in 0..19u8 { for j in 0..19u8 { for k in b.get_connected_groups_idx((i, j)) { ids.insert(k); } } }
    assert_eq!(ids.len(), 1);
}
""")
seed("c03-fourth-group-stays", "C03", G, "        for &dead_ren_idx in dead_rens_indices {", "        for &dead_ren_idx in dead_rens_indices.iter().take(3) {",
 "a move that captures four groups at once", "the fourth captured group stays on the board without liberties", PRE + """
fn main() {
    let mut g = Game::builder();
    g.size((9, 9)).rule(rule(IllegalRules::KO | IllegalRules::SUICIDE));
    for p in [(3u8, 4u8), (5, 4), (4, 3), (4, 5)] { g.add(Stone { coord: p, color: Color::White }); }
    for p in [(2u8, 4u8), (6, 4), (4, 2), (4, 6), (3, 3), (3, 5), (5, 3), (5, 5)] { g.add(Stone { coord: p, color: Color::Black }); }
    let mut g = g.build().unwrap();
    g.try_play(Move::Play(4, 4)).unwrap();
    assert_eq!(g.goban().number_of_stones(), (9, 0));
}
""")
seed("c04-prisoners-as-bytes", "C04", G, """                Color::Black => {
                    stones_removed.1 += dead_chain.num_stones as u32;""", """                Color::Black => {
                    stones_removed.1 += dead_chain.num_stones as u8 as u32;""",
 "a capture of a black group of 256 stones or more", "the prisoners are counted modulo 256", PRE + """
fn main() {
    let mut g = Game::builder();
    g.size((19, 19)).rule(rule(IllegalRules::KO | IllegalRules::SUICIDE)).turn(Color::White);
    for i in 0..19u8 { for j in 0..19u8 { if (i, j) != (0, 0) { g.add(Stone { coord: (i, j), color: Color::Black }); } } }
    let mut g = g.build().unwrap();
    g.try_play(Move::Play(0, 0)).unwrap();
    assert_eq!(g.goban().number_of_stones(), (0, 1));
    assert_eq!(g.prisoners(), (0, 360));
}
""")
COLL = PRE + """
fn collision() -> Vec<(u8, u8)> {
    // black stones on points of one colour of the chequered board whose hash is that of the empty board
    let pts: Vec<(u8, u8)> = (0..19u8).flat_map(|i| (0..19u8).map(move |j| (i, j))).filter(|p| (p.0 + p.1) % 2 == 0).collect();
    let mut basis: Vec<(u64, u128)> = vec![];
    for (k, p) in pts.iter().take(100).enumerate() {
        let mut g = Goban::new((19, 19));
        g.push(*p, Color::Black);
        let mut v = (g.zobrist_hash(), 1u128 << k);
        for x in &basis { if v.0 ^ x.0 < v.0 { v = (v.0 ^ x.0, v.1 ^ x.1); } }
        if v.0 == 0 { return (0..100).filter(|k| v.1 >> k & 1 == 1).map(|k| pts[k]).collect(); }
        basis.push(v);
        basis.sort_by(|a, b| b.0.cmp(&a.0));
    }
    vec![]
}
"""
seed("c05-hash-decides", "C05", G, """        if self.size != other.size || self.zobrist_hash != other.zobrist_hash {
            return false;
        }
""", """        if self.size != other.size {
            return false;
        }
        if self.zobrist_hash == other.zobrist_hash {
            return true;
        }
""",
 "two different boards with the same 64-bit hash", "different boards compare equal", COLL + """
fn main() {
    let v = collision();
    if v.is_empty() { return; }
    let mut b = Goban::new((19, 19));
    for p in &v { b.push(*p, Color::Black); }
    assert!(b != Goban::new((19, 19)));
}
""")
seed("c06-three-neighbours-asked", "C06", GA, """                .get_connected_groups(stone.coord)
                .into_iter()
                .any(|neighbor_go_string| {
                    if neighbor_go_string.color == stone.color {""", """                .get_connected_groups(stone.coord)
                .into_iter()
                .take(3)
                .any(|neighbor_go_string| {
                    if neighbor_go_string.color == stone.color {""",
 "a point between four different groups of which only the last one makes the move legal", "a capturing move is called suicide", PRE + """
fn main() {
    // each of the four white stones around (4,4) is captured in turn of position: only one of them is in atari
    for atari in [(3u8, 4u8), (5, 4), (4, 3), (4, 5)] {
        let mut b = Game::builder();
        b.size((9, 9)).rule(rule(IllegalRules::KO | IllegalRules::SUICIDE));
        for p in [(3u8, 4u8), (5, 4), (4, 3), (4, 5)] { b.add(Stone { coord: p, color: Color::White }); }
        let around: Vec<(u8, u8)> = [(atari.0 - 1, atari.1), (atari.0 + 1, atari.1), (atari.0, atari.1 - 1), (atari.0, atari.1 + 1)].into_iter().filter(|&p| p != (4, 4)).collect();
        for p in around { b.add(Stone { coord: p, color: Color::Black }); }
        let g = b.build().unwrap();
        assert!(!g.check_suicide(Stone { coord: (4, 4), color: Color::Black }));
    }
}
""")
seed("c08-resume-forgets", "C08", GA, "        self.passes = 0;\n    }", "        self.passes = 0;\n        self.history.clear();\n    }",
 "two passes and a resumption in the middle of a cycle under superko", "a repetition of a position from before the resumption is allowed", PRE + """
fn main() {
    let mut b = Game::builder();
    b.size((5, 5)).rule(rule(IllegalRules::SUPERKO | IllegalRules::SUICIDE));
    for p in [(0u8, 1u8), (1, 0), (2, 1)] { b.add(Stone { coord: p, color: Color::Black }); }
    for p in [(0u8, 2u8), (1, 3), (2, 2), (1, 1)] { b.add(Stone { coord: p, color: Color::White }); }
    let mut g = b.build().unwrap();
    g.try_play(Move::Play(1, 2)).unwrap();
    g.try_play(Move::Pass).unwrap();
    g.try_play(Move::Pass).unwrap();
    g.resume();
    assert!(g.try_play(Move::Play(1, 1)).is_err());
}
""")
seed("c09-list-by-own-rule", "C09", GA, "            .filter(move |&s| self.check_point_by(s, legals_rules).is_none())", "            .filter(move |&s| self.check_point_by(s, self.rule.flag_illegal | legals_rules).is_none())",
 "a list of moves asked for rules laxer than those of the game", "moves legal by the given rules are missing", PRE + """
fn main() {
    let mut b = Game::builder();
    b.size((5, 5)).rule(rule(IllegalRules::KO | IllegalRules::SUICIDE));
    for p in [(0u8, 1u8), (1, 0)] { b.add(Stone { coord: p, color: Color::White }); }
    let g = b.build().unwrap();
    assert_eq!(g.legals().filter(|&p| p == (0, 0)).count(), 0);
    assert_eq!(g.legals_by(IllegalRules::KO).filter(|&p| p == (0, 0)).count(), 1);
}
""")
seed("c10-paused-only-without-result", "C10", GA, "        if self.passes == 2 {\n            Err(PlayError::GamePaused)", "        if self.passes == 2 && self.outcome.is_none() {\n            Err(PlayError::GamePaused)",
 "a resignation, two passes, then another play", "a play in a paused game is accepted", PRE + """
fn main() {
    let mut g = Game::new(GobanSizes::Nine, rule(IllegalRules::KO));
    g.play(Move::Resign(Color::Black));
    g.play(Move::Pass);
    g.play(Move::Pass);
    assert!(g.try_play(Move::Play(3, 3)).is_err());
}
""")
seed("c11-exploration-capped", "C11", TE, "            explored.insert(stone_to_explore);\n", "            explored.insert(stone_to_explore);\n            if explored.len() >= 320 {\n                break;\n            }\n",
 "a region of more than 320 points", "part of a large region is missing from it", PRE + """
fn main() {
    let mut b = Goban::new((19, 19));
    b.push((9, 9), Color::Black);
    assert_eq!(b.calculate_territories(), (360, 0));
    let r = b.get_group_from_point(Point { coord: (0, 0), color: None });
    assert_eq!(r.len(), 360);
}
""")
seed("c12-handicap-compensated", "C12", GA, "            let (black_stones, white_stones) = self.goban.number_of_stones();\n", "            let (black_stones, mut white_stones) = self.goban.number_of_stones();\n            if self.handicap > 1 {\n                white_stones += self.handicap - 1;\n            }\n",
 "a handicap game scored by stones on the board", "White gets points for the handicap stones that no rule asks for", PRE + """
fn main() {
    let mut g = Game::new(GobanSizes::Nine, Rule { komi: 0.0, flag_illegal: IllegalRules::KO, flag_score: ScoreRules::STONES });
    g.put_handicap(&[(2, 2), (6, 6), (2, 6)]);
    g.play(Move::Play(4, 4));
    assert_eq!(g.calculate_score(), (3.0, 1.0));
}
""")
seed("c14-last-row-of-wide-boards", "C14", G, "        for board_idx in 0..self.size.0 as usize * self.size.1 as usize {\n            match color {", "        for board_idx in 0..self.size.0 as usize * self.size.1.min(self.size.0 + 9) as usize {\n            match color {",
 "a board at least ten columns wider than high", "points of the last rows are missing from the lists of points by colour", PRE + """
fn main() {
    let mut b = Goban::new((3, 15));
    b.push((2, 14), Color::Black);
    let v: Vec<_> = b.get_coords_by_color(Some(Color::Black)).collect();
    assert_eq!(v, vec![(2, 14)]);
}
""")
seed("c16-negative-komi-lost", "C16", GB, "        if let Some(komi) = self.komi {\n            self.rule.komi = komi;", "        if let Some(komi) = self.komi {\n            self.rule.komi = komi.max(0.0);",
 "a builder with a negative komi", "the built game has no komi", PRE + """
fn main() {
    let mut b = Game::builder();
    b.size((9, 9)).komi(-5.5);
    assert_eq!(b.build().unwrap().komi(), -5.5);
}
""")
seed("c17-half-points-cut", "C17", SG, "Outcome::WinnerByPoints(c, p) => EndGame::WinnerByScore(c.into(), p),", "Outcome::WinnerByPoints(c, p) => EndGame::WinnerByScore(c.into(), if p < 1.0 { p } else { p.trunc() }),",
 "a record won by one and a half points or more", "the imported result lacks the half point", PRE + """
fn main() {
    let g = Game::from_sgf("(;GM[1]SZ[9]RE[B+3.5];B[aa];W[bb])").unwrap();
    assert_eq!(g.outcome(), Some(EndGame::WinnerByScore(Color::Black, 3.5)));
}
""")
seed("c18-corners-of-narrow-boards", "C18", GA, "        if total_corners == 4 {\n            return true;\n        }", "        if total_corners == 4 && corner_off_board.len() != 4 {\n            return true;\n        }",
 "a board of one row or column", "a plain eye on a one-row board is not recognised", PRE + """
fn main() {
    let mut b = Game::builder();
    b.size((1, 5)).rule(rule(IllegalRules::FILLEYE));
    for p in [(0u8, 1u8), (0, 3)] { b.add(Stone { coord: p, color: Color::Black }); }
    let g = b.build().unwrap();
    assert!(g.check_eye(Stone { coord: (0, 2), color: Color::Black }));
    assert!(g.legals().all(|p| p != (0, 2)));
}
""")
seed("c19-superko-keeps-suicides", "C19", GA, """            !self.rule.flag_illegal.contains(IllegalRules::SUICIDE),
            &dead_go_strings,""", """            !self
                .rule
                .flag_illegal
                .intersects(IllegalRules::SUICIDE | IllegalRules::SUPERKO),
            &dead_go_strings,""",
 "rules with superko that allow suicide, and a suicide", "the simulated suicide leaves the stones on the board", PRE + """
fn main() {
    let mut b = Game::builder();
    b.size((5, 5)).rule(rule(IllegalRules::SUPERKO));
    for p in [(0u8, 1u8), (1, 0)] { b.add(Stone { coord: p, color: Color::White }); }
    b.add(Stone { coord: (4, 4), color: Color::Black });
    let mut g = b.build().unwrap();
    let s = g.play_for_verification((0, 0));
    g.play(Move::Play(0, 0));
    assert_eq!(s, *g.goban());
}
""")
seed("c20-last-line-open", "C20", G, "            buff.push('\\n');", "            if i != self.size.0 - 1 || self.size.1 > 1 {\n                buff.push('\\n');\n            }",
 "a board of one column", "the last line is not ended", PRE + """
fn main() {
    let b = Goban::new((3, 1));
    assert_eq!(b.pretty_string().matches('\\n').count(), 3);
}
""")
seed("c21-big-groups-float", "C21", DS, "            .filter(|(_, v)| *v >= 2)", "            .filter(|(idx, v)| *v >= 2 && self.chain_stones(*idx).count() < 100)",
 "a group of a hundred stones or more with two eyes", "a large living group is listed as floating", PRE + """
fn main() {
    let mut b = Game::builder();
    b.size((19, 19)).rule(rule(IllegalRules::KO));
    for i in 0..19u8 { for j in 0..19u8 { if (i, j) != (3, 3) && (i, j) != (10, 10) { b.add(Stone { coord: (i, j), color: Color::Black }); } } }
    let g = b.build().unwrap();
    assert!(g.get_floating_stones().is_empty());
}
""")
seed("c07-retake-that-takes-nothing", "C07", GA, """                        && neighbor_go_string.is_atari()
                        && neighbor_go_string.num_stones == 1""", """                        && neighbor_go_string.num_stones == 1""",
 "rules that allow suicide, a single stone captured by a single stone that keeps another liberty, and a suicide on the captured point", "a move that restores nothing is refused as ko", PRE + """
fn main() {
    // black captures (0,0) with (0,1), which keeps the liberty (0,2)
    let mut b = Game::builder();
    b.size((5, 5)).rule(rule(IllegalRules::KO));
    b.add(Stone { coord: (0, 0), color: Color::White });
    b.add(Stone { coord: (1, 0), color: Color::Black });
    let mut g = b.build().unwrap();
    g.try_play(Move::Play(0, 1)).unwrap();
    assert_eq!(g.goban().get_color((0, 0)), None);
    assert!(g.try_play(Move::Play(0, 0)).is_ok());
}
""")
seed("c13-narrow-boards-wrap", "C13", G, "            is_coord_valid(self.size, point),\n            \"Coordinate", "            is_coord_valid(self.size, point) || self.size.0 == 1 && point.1 == 0,\n            \"Coordinate",
 "a play below a board of one row", "a stone off the board is accepted", PRE + """
fn main() {
    let mut g = Game::new(GobanSizes::Custom(1, 5), rule(IllegalRules::KO));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { g.play(Move::Play(3, 0)); }));
    assert!(r.is_err());
}
""")
seed("c15-seven-liberties-a-byte", "C15", GR, "        let mut ixs = ArrayVec::<usize, BITS>::new();", "        let mut ixs = ArrayVec::<usize, { BITS - 1 }>::new();",
 "listing the liberties of a group that has all eight points of one byte of its set", "the listing panics", PRE + """
fn main() {
    let mut b = Goban::new((19, 19));
    for j in 0..19u8 { b.push((9, j), Color::Black); }
    for c in b.chains() { assert_eq!(c.liberties().len(), 38); }
}
""")
seed("c02-last-byte-not-joined", "C02", GR, "    lib.iter_mut().zip(o).for_each(|(x, o)| x.bitor_assign(o))", "    lib.iter_mut()\n        .zip(o)\n        .take(SIZE - 1)\n        .for_each(|(x, o)| x.bitor_assign(o))",
 "groups joined beside the last point of a 19x19 board", "the joined group lacks that point among its liberties", PRE + """
fn main() {
    let mut b = Goban::new((19, 19));
    b.push((17, 17), Color::White);
    b.push((18, 17), Color::Black);
    for j in [15u8, 14, 13] { b.push((18, j), Color::Black); }
    b.push((18, 16), Color::Black);
    assert!(b.chains().any(|c| c.color == Color::Black && c.liberties().contains(&(18 * 19 + 18))));
}
""")
