//! Cases that are not step traces: builder configurations, SGF records, very long histories, dead-stone queries.
use crate::checks::*;
use crate::refm::*;
use crate::rng::Rng;
use goban::pieces::goban::Goban;
use goban::pieces::stones::{Color, Stone};
use goban::rules::game::Game;
use goban::rules::{EndGame, IllegalRules, Move, Rule, ScoreRules, CHINESE, JAPANESE};

#[derive(Clone, Debug, PartialEq)]
pub struct Special { pub kind: String, pub kv: Vec<(String, String)> }

impl Special {
    pub fn get(&self, k: &str) -> Option<&str> { self.kv.iter().find(|x| x.0 == k).map(|x| x.1.as_str()) }
    fn put(&mut self, k: &str, v: impl ToString) { self.kv.push((k.into(), v.to_string())) }
    pub fn text(&self) -> String {
        let mut s = format!("special {}\n", self.kind);
        for (k, v) in &self.kv { s += &format!("{k}={v}\n"); }
        if self.kind == "sgf" { s += &format!("# record: {}\n", sgf_text(self)); }
        s
    }
    pub fn parse(t: &str) -> Option<Special> {
        let mut l = t.lines().filter(|l| !l.starts_with('#') && !l.starts_with("property"));
        let kind = l.next()?.strip_prefix("special ")?.to_string();
        let kv = l.filter_map(|x| x.split_once('=').map(|(a, b)| (a.to_string(), b.to_string()))).collect();
        Some(Special { kind, kv })
    }
    fn num<T: std::str::FromStr>(&self, k: &str) -> Option<T> { self.get(k).and_then(|v| v.parse().ok()) }
    fn pts(&self, k: &str) -> Vec<P> {
        self.get(k).unwrap_or("").split_whitespace().filter_map(|x| x.split_once(',').map(|(a, b)| (a.parse().unwrap(), b.parse().unwrap()))).collect()
    }
    /// "B3,4" stones, "3,4" moves or "-" passes
    fn items(&self, k: &str) -> Vec<String> { self.get(k).unwrap_or("").split_whitespace().map(|s| s.to_string()).collect() }
}
fn sp(p: P) -> String { format!("{},{}", p.0, p.1) }
fn pp(s: &str) -> P { let (a, b) = s.split_once(',').unwrap(); (a.parse().unwrap(), b.parse().unwrap()) }
fn cc(s: &str) -> Color { if s.starts_with('B') { Color::Black } else { Color::White } }

macro_rules! ck { ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } }; }

/// random setup + legal-ish moves from `turn`; returns (setup, moves) texts
fn position(r: &mut Rng, h: u8, w: u8, mut b: Grid, mut turn: Color, allow: bool, colours: bool) -> (String, String) {
    let mut su = vec![];
    if r.chance(1, 2) {
        for p in b.points() { if b.at(p).is_none() && r.chance(1, 4) {
            let c = if r.chance(1, 2) { Color::Black } else { Color::White };
            let mut q = b.clone(); q.set(p, Some(c));
            if q.all_alive() { b = q; su.push(format!("{}{}", if c == Color::Black { "B" } else { "W" }, sp(p))); }
        } }
    }
    let mut mv = vec![];
    let mut passes = 0;
    for _ in 0..r.below(14) {
        if r.chance(1, 8) && passes < 2 { mv.push("-".to_string()); passes += 1; turn = !turn; if passes == 2 { break; } continue; }
        let free: Vec<P> = b.points().into_iter().filter(|&p| b.at(p).is_none() && !b.play(p, turn, false).3 || (allow && b.at(p).is_none())).collect();
        if free.is_empty() { break; }
        let p = *r.pick(&free);
        b = b.play(p, turn, allow).0;
        mv.push(sp(p));
        turn = !turn;
        passes = 0;
    }
    let _ = (h, w, colours);
    (su.join(" "), mv.join(" "))
}

/// a record of hundreds of moves
fn long_moves(r: &mut Rng, mut b: Grid, mut turn: Color) -> String {
    let n = 50 + r.below(450);
    let pts = b.points();
    let mut mv = vec![];
    let mut passed = false;
    while mv.len() < n {
        let mut done = false;
        if !passed && r.chance(1, 60) { mv.push("-".to_string()); passed = true; turn = !turn; continue; }
        for _ in 0..40 {
            let p = *r.pick(&pts);
            if b.at(p).is_some() { continue; }
            let (nb, _, _, sui) = b.play(p, turn, false);
            if sui { continue; }
            b = nb; mv.push(sp(p)); done = true; passed = false;
            break;
        }
        if !done { break; }
        turn = !turn;
    }
    mv.join(" ")
}

pub fn gen_build(r: &mut Rng) -> Special {
    let mut s = Special { kind: "build".into(), kv: vec![] };
    let (h, w) = (1 + r.below(19) as u8, 1 + r.below(19) as u8);
    let (h, w) = if r.chance(1, 3) { (h, h) } else if r.chance(1, 2) { (h.min(6), w.min(6)) } else { (h, w) };
    s.put("h", h); s.put("w", w);
    let illegal = r.below(16) as u32;
    s.put("illegal", illegal); s.put("score", r.below(8)); s.put("rkomi", *r.pick(&[6.5, 7.5, 0.0]));
    if r.chance(1, 2) { s.put("komi", *r.pick(&[0.5, -3.5, 10.0, 375.0])); }
    let mut b = Grid::new(h, w);
    let mut hp = vec![];
    if r.chance(1, 2) {
        for p in b.points() { if r.chance(1, 10) && hp.len() < 9 { let mut q = b.clone(); q.set(p, Some(Color::Black)); if q.all_alive() { b = q; hp.push(sp(p)); } } }
        s.put("handicap_points", hp.join(" "));
    }
    let mut hn = hp.len();
    if r.chance(1, 4) { hn = r.below(5); s.put("handicap", hn); }
    let mut turn = if hn > 0 { Color::White } else { Color::Black };
    if r.chance(1, 3) { turn = if r.chance(1, 2) { Color::Black } else { Color::White }; s.put("turn", if turn == Color::Black { "B" } else { "W" }); }
    if r.chance(1, 5) { s.put("outcome", r.below(4)); }
    let (su, mv) = position(r, h, w, b, turn, illegal & 4 == 0, false);
    s.put("setup", su); s.put("moves", mv);
    s.put("late_handicap", r.below(2));
    s
}

fn outcome_of(n: u32) -> EndGame {
    match n { 0 => EndGame::Draw, 1 => EndGame::WinnerByResign(Color::White), 2 => EndGame::WinnerByTime(Color::Black), _ => EndGame::WinnerByScore(Color::Black, 3.5) }
}

fn expect_board(s: &Special, mut b: Grid, mut turn: Color, allow: bool) -> (Grid, Color, (u32, u32), u32, Vec<Move>) {
    for x in s.items("setup") { b.set(pp(&x[1..]), Some(cc(&x))); }
    let mut pr = (0, 0);
    let mut passes = 0;
    let mut mv = vec![];
    for x in s.items("moves") {
        if x == "-" { passes += 1; mv.push(Move::Pass); }
        else {
            let p = pp(&x);
            let (nb, rw, rb, _) = b.play(p, turn, allow);
            b = nb; pr.0 += rw; pr.1 += rb; passes = 0;
            mv.push(Move::Play(p.0, p.1));
        }
        turn = !turn;
    }
    (b, turn, pr, passes, mv)
}

fn run_build(s: &Special) -> R {
    let (h, w): (u8, u8) = (s.num("h").unwrap(), s.num("w").unwrap());
    let illegal: u32 = s.num("illegal").unwrap();
    let score: u32 = s.num("score").unwrap();
    let rkomi: f32 = s.num("rkomi").unwrap();
    let rule = Rule { komi: rkomi, flag_illegal: IllegalRules::from_bits_truncate(illegal), flag_score: ScoreRules::from_bits_truncate(score) };
    let hp = s.pts("handicap_points");
    let hn: u32 = s.num("handicap").unwrap_or(hp.len() as u32);
    let first = match s.get("turn") { Some(t) => cc(t), None => if hn > 0 { Color::White } else { Color::Black } };
    let mut b = Grid::new(h, w);
    for p in &hp { b.set(*p, Some(Color::Black)) }
    let b0 = b.clone();
    let (want, turn, pr, passes, mv) = expect_board(s, b, first, illegal & 4 == 0);
    let g = guard("build", || {
        let mut bl = Game::builder();
        bl.moves(&mv);
        bl.rule(rule).size((h, w));
        if let Some(k) = s.num::<f32>("komi") { bl.komi(k); }
        if let Some(n) = s.num::<u32>("handicap") { bl.handicap(n); }
        bl.put_handicap(&hp);
        for x in s.items("setup") { bl.add(Stone { coord: pp(&x[1..]), color: cc(&x) }); }
        if let Some(t) = s.get("turn") { bl.turn(cc(t)); }
        if let Some(o) = s.num::<u32>("outcome") { bl.outcome(outcome_of(o)); }
        bl.build()
    })?;
    let g = g.map_err(|e| format!("build refused: {e}"))?;
    let komi = s.num::<f32>("komi").unwrap_or(rkomi);
    ck!(g.size() == (h, w), "size {:?}", g.size());
    ck!(g.komi() == komi, "komi {} expected {komi}", g.komi());
    let o = observe(g.goban());
    ck!(o == want, "board {}, expected {}", o.show(), want.show());
    ck!(g.turn() == turn, "turn {:?}, expected {:?}", g.turn(), turn);
    ck!(g.prisoners() == pr, "prisoners {:?}, expected {:?}", g.prisoners(), pr);
    let pre = s.num::<u32>("outcome").map(outcome_of);
    ck!(g.is_over() == (pre.is_some() || passes >= 2), "is_over {}", g.is_over());
    if let Some(p) = pre { ck!(g.outcome() == Some(p), "outcome {:?}", g.outcome()); }
    else if passes < 2 { ck!(g.outcome().is_none(), "outcome {:?}", g.outcome()); }
    // the rule: scoring flags are visible through the score, illegal flags through checks
    let sc = guard("score", || (g.calculate_score(), g.calculate_score_by(ScoreRules::from_bits_truncate(score))))?;
    ck!(sc.0 == sc.1, "the scoring rule of the built game is not the requested one");
    for p in want.points() {
        if passes < 2 { ck!(g.check_point(p) == g.check_point_by(p, IllegalRules::from_bits_truncate(illegal)), "the move rule of the built game is not the requested one"); }
    }
    // plain construction and later handicap
    let mut g = guard("Game::new", || Game::new(goban::rules::GobanSizes::Custom(h as usize, w as usize), rule))?;
    ck!(g.size() == (h, w) && g.turn() == Color::Black && g.prisoners() == (0, 0) && !g.is_over() && g.outcome().is_none() && g.komi() == rkomi && observe(g.goban()) == Grid::new(h, w), "Game::new: wrong fresh game");
    guard("put_handicap", || g.put_handicap(&hp))?;
    ck!(observe(g.goban()) == b0 && g.turn() == Color::White && g.prisoners() == (0, 0), "put_handicap: board {} turn {:?}", observe(g.goban()).show(), g.turn());
    g.set_komi(3.5);
    ck!(g.komi() == 3.5, "set_komi");
    for (n, z) in [(9usize, (9, 9)), (13, (13, 13)), (19, (19, 19))] {
        let gs: goban::rules::GobanSizes = n.into();
        ck!(Game::new(gs, rule).size() == z, "size from {n}");
    }
    let d = Game::default();
    ck!(d.size() == (19, 19) && d.turn() == Color::Black && d.komi() == 7.5, "default game");
    Ok(())
}

pub fn gen_sgf(r: &mut Rng) -> Special {
    let mut s = Special { kind: "sgf".into(), kv: vec![] };
    let (mut h, mut w) = (1 + r.below(19) as u8, 1 + r.below(19) as u8);
    if r.chance(1, 3) { w = h }
    if r.chance(1, 4) { h = 19; w = 19; }
    s.put("h", h); s.put("w", w);
    let ru = r.below(3);
    if ru > 0 { s.put("rule", if ru == 1 { "Japanese" } else { "Chinese" }); }
    if r.chance(1, 2) { s.put("komi", *r.pick(&["0.5", "6.5", "0", "-5.5"])); }
    let hn = if r.chance(1, 4) { let n = r.below(5); s.put("handicap", n); n } else { 0 };
    let mut turn = if hn > 0 { Color::White } else { Color::Black };
    if r.chance(1, 4) { turn = if r.chance(1, 2) { Color::Black } else { Color::White }; s.put("turn", if turn == Color::Black { "B" } else { "W" }); }
    if r.chance(1, 4) { s.put("result", *r.pick(&["B+R", "W+T", "W+F", "B+3.5", "Draw", "W+0.5"])); }
    let (su, mv) = if r.chance(1, 25) { (String::new(), long_moves(r, Grid::new(h, w), turn)) } else { position(r, h, w, Grid::new(h, w), turn, false, true) };
    s.put("setup", su); s.put("moves", mv);
    if r.chance(1, 4) { s.put("variation", r.next() % 1000); }
    s.put("style", r.next() % 1000);
    if r.chance(1, 3) {
        s.put("bad", *r.pick(&["size", "size_big", "game", "rule", "offboard_col", "offboard_row", "occupied", "third_pass", "setup_off", "same_player", "same_player_pass"]));
    }
    s
}

fn let_of(n: u8) -> char { (b'a' + n) as char }

pub fn sgf_text(s: &Special) -> String {
    let (h, w): (u8, u8) = (s.num("h").unwrap(), s.num("w").unwrap());
    let mut r = Rng(s.num::<u64>("style").unwrap_or(0));
    let bad = s.get("bad").unwrap_or("");
    let mut root: Vec<String> = vec![];
    let sz = match bad { "size" => format!("{}", 20 + r.below(33)), "size_big" => format!("{}", 256 + r.below(19)), _ => if h == w && r.chance(1, 2) { format!("{h}") } else { format!("{w}:{h}") } };
    if !(h == 19 && w == 19 && bad != "size" && bad != "size_big" && r.chance(1, 2)) { root.push(format!("SZ[{sz}]")); }
    if bad == "game" { root.push("GM[2]".into()) } else if r.chance(1, 2) { root.push("GM[1]".into()) }
    if bad == "rule" { root.push("RU[AGA]".into()) } else if let Some(x) = s.get("rule") { root.push(format!("RU[{x}]")) }
    if let Some(x) = s.get("komi") { root.push(format!("KM[{x}]")) }
    if let Some(x) = s.get("handicap") { root.push(format!("HA[{x}]")) }
    if let Some(x) = s.get("turn") { root.push(format!("PL[{x}]")) }
    if let Some(x) = s.get("result") { root.push(format!("RE[{x}]")) }
    let (mut ab, mut aw) = (vec![], vec![]);
    for x in s.items("setup") { let p = pp(&x[1..]); let t = format!("[{}{}]", let_of(p.1), let_of(p.0)); if cc(&x) == Color::Black { ab.push(t) } else { aw.push(t) } }
    if bad == "setup_off" { ab.push(format!("[{}{}]", let_of(w), let_of(0))) }
    if !ab.is_empty() { root.push(format!("AB{}", ab.join(""))) }
    if !aw.is_empty() { root.push(format!("AW{}", aw.join(""))) }
    if r.chance(1, 2) { root.push("PB[x]".into()) }
    if r.chance(1, 2) { root.push("XX[foo]".into()) }
    for i in (1..root.len()).rev() { let j = r.below(i + 1); root.swap(i, j); }
    let mut t = format!("(;{}", root.join(""));
    let hn: u32 = s.num("handicap").unwrap_or(0);
    let mut turn = match s.get("turn") { Some(t) => cc(t), None => if hn > 0 { Color::White } else { Color::Black } };
    let mut node = |t: &mut String, v: String, turn: &mut Color| {
        let mut toks = vec![format!("{}[{}]", if *turn == Color::Black { "B" } else { "W" }, v)];
        if r.chance(1, 4) { toks.push("C[hello]".into()) }
        if r.chance(1, 5) { toks.push(format!("{}[12]", if *turn == Color::Black { "BL" } else { "WL" })) }
        if r.chance(1, 2) { toks.rotate_left(1) }
        // a move may stand in the first node
        let in_root = !t[1..].contains(";B[") && !t[1..].contains(";W[") && t.matches(';').count() == 1 && !t.contains("]B[") && !t.contains("]W[") && !t.starts_with("(;B[") && !t.starts_with("(;W[") && r.chance(1, 4);
        *t += &format!("{}{}", if in_root { "" } else { ";" }, toks.join(""));
        *turn = !*turn;
    };
    let mv = s.items("moves");
    let cut = r_cut(s, mv.len());
    // the main line is the first of the variations that follow a node
    let var = if bad.starts_with("offboard") { None } else { s.num::<u64>("variation") }.map(|v| v as usize % mv.len().max(1)).filter(|v| *v > 0);
    let mut open = 0;
    for (i, x) in mv.iter().enumerate() {
        if var == Some(i) && t.contains(";") {
            t += "("; open += 1;
            let before = t.len();
            node(&mut t, if x == "-" { String::new() } else { let p = pp(x); format!("{}{}", let_of(p.1), let_of(p.0)) }, &mut turn);
            if t.as_bytes()[before] != b';' { t.insert(before, ';'); }
            continue;
        }
        if i == cut { match bad {
            "offboard_col" => { node(&mut t, format!("{}{}", let_of(w), let_of(0)), &mut turn) }
            "offboard_row" => { node(&mut t, format!("{}{}", let_of(0), let_of(h)), &mut turn) }
            _ => {}
        } }
        let v = if x == "-" { String::new() } else { let p = pp(x); format!("{}{}", let_of(p.1), let_of(p.0)) };
        node(&mut t, v, &mut turn);
    }
    match bad {
        "same_player" | "same_player_pass" => {
            let (b, _, _, _, _) = expect_board(s, Grid::new(h, w), turn, false);
            let free = b.points().into_iter().filter(|&p| b.at(p).is_none()).last();
            if mv.is_empty() {
                node(&mut t, String::new(), &mut turn);
            }
            turn = !turn;
            let v = match free { Some(p) if bad == "same_player" => format!("{}{}", let_of(p.1), let_of(p.0)), _ => String::new() };
            node(&mut t, v, &mut turn);
        }
        "third_pass" => { for _ in 0..3 { node(&mut t, String::new(), &mut turn) } }
        "occupied" => {
            let (b, _, _, _, _) = expect_board(s, Grid::new(h, w), turn, false);
            let _ = b;
        }
        "offboard_col" if mv.len() <= cut => node(&mut t, format!("{}{}", let_of(w), let_of(0)), &mut turn),
        "offboard_row" if mv.len() <= cut => node(&mut t, format!("{}{}", let_of(0), let_of(h)), &mut turn),
        _ => {}
    }
    if bad == "occupied" {
        // play twice the same point: first on a free one, then by the opponent on the same one
        let first = match s.get("turn") { Some(t) => cc(t), None => if hn > 0 { Color::White } else { Color::Black } };
        let (b, tn, _, _, _) = expect_board(s, Grid::new(h, w), first, false);
        if let Some(p) = b.points().into_iter().find(|&p| b.at(p).is_some()) {
            let _ = tn;
            node(&mut t, format!("{}{}", let_of(p.1), let_of(p.0)), &mut turn);
        }
    }
    if open > 0 {
        t += ")(;B[])(;W[];B[])";
    }
    t + ")"
}
fn r_cut(s: &Special, n: usize) -> usize { (s.num::<u64>("style").unwrap_or(0) as usize / 7) % (n + 1) }

fn run_sgf(s: &Special) -> R {
    let (h, w): (u8, u8) = (s.num("h").unwrap(), s.num("w").unwrap());
    let text = sgf_text(s);
    let r = guard("from_sgf", || Game::from_sgf(&text)).map_err(|e| format!("{e}; record {text}"))?;
    let hn: u32 = s.num("handicap").unwrap_or(0);
    let first = match s.get("turn") { Some(t) => cc(t), None => if hn > 0 { Color::White } else { Color::Black } };
    let (want, turn, pr, passes, _) = expect_board(s, Grid::new(h, w), first, false);
    if let Some(k) = s.get("bad") {
        if k == "occupied" && want.points().iter().all(|&p| want.at(p).is_none()) { return Ok(()); }
        ck!(r.is_err(), "unsupported record ({k}) accepted: {text}");
        return Ok(());
    }
    let g = r.map_err(|e| format!("record refused: {e}; {text}"))?;
    ck!(g.size() == (h, w), "size {:?}, recorded {w} columns {h} rows: {text}", g.size());
    let o = observe(g.goban());
    ck!(o == want, "board {}, expected {}: {text}", o.show(), want.show());
    ck!(g.turn() == turn, "turn {:?}, expected {:?}: {text}", g.turn(), turn);
    ck!(g.prisoners() == pr, "prisoners {:?}, expected {:?}: {text}", g.prisoners(), pr);
    let base = match s.get("rule") { Some("Japanese") => JAPANESE, _ => CHINESE };
    let komi = s.num::<f32>("komi").unwrap_or(base.komi);
    ck!(g.komi() == komi, "komi {}, expected {komi}: {text}", g.komi());
    ck!(g.calculate_score() == g.calculate_score_by(base.flag_score), "scoring rule: {text}");
    for p in want.points() { ck!(g.check_point(p) == g.check_point_by(p, base.flag_illegal), "move rule: {text}"); }
    let res = s.get("result").map(|x| match x {
        "B+R" => EndGame::WinnerByResign(Color::Black), "W+T" => EndGame::WinnerByTime(Color::White),
        "W+F" => EndGame::WinnerByForfeit(Color::White), "B+3.5" => EndGame::WinnerByScore(Color::Black, 3.5),
        "W+0.5" => EndGame::WinnerByScore(Color::White, 0.5), _ => EndGame::Draw });
    match res {
        Some(e) => ck!(g.outcome() == Some(e), "outcome {:?}, expected {:?}: {text}", g.outcome(), e),
        None => ck!(g.is_over() == (passes >= 2), "is_over {}: {text}", g.is_over()),
    }
    Ok(())
}

pub fn gen_long(r: &mut Rng, i: usize) -> Special {
    let mut s = Special { kind: "long".into(), kv: vec![] };
    let m = ["push_remove", "game_small", "capture_cycle"][i % 3];
    s.put("mode", m);
    s.put("h", 2 + r.below(2)); s.put("w", 2 + r.below(3));
    s.put("n", 70000);
    s
}

fn run_long(s: &Special) -> R {
    let (h, w): (u8, u8) = (s.num("h").unwrap(), s.num("w").unwrap());
    let n: usize = s.num("n").unwrap();
    match s.get("mode").unwrap() {
        "push_remove" => {
            let mut g = Goban::new((h, w));
            guard("70000 stones put and removed", || {
                for k in 0..n {
                    let c = if k % 2 == 0 { Color::Black } else { Color::White };
                    g.push((0, 0), c);
                    let id = g.get_connected_groups_idx((0u8, 1u8))[0];
                    g.remove_chain(id);
                }
            })?;
            g.push((0, 0), Color::White);
            ck!(g.get_color((0u8, 0u8)) == Some(Color::White) && g.number_of_stones() == (0, 1), "board wrong after {n} stones put and removed");
        }
        m => {
            // captures for ever on a small board, without any superko rule
            let rule = Rule { komi: 0.5, flag_illegal: if m == "game_small" { IllegalRules::KO | IllegalRules::SUICIDE } else { IllegalRules::empty() }, flag_score: ScoreRules::KOMI };
            let mut g = Game::builder().size((h, w)).rule(rule).build().unwrap();
            let mut r = Rng(5);
            let mut k = 0;
            let mut b = Grid::new(h, w);
            let mut turn = Color::Black;
            while k < n {
                let l: Vec<P> = guard("legals", || g.legals().collect())?;
                if l.is_empty() {
                    guard("pass", || { g.play(Move::Pass); g.resume(); })?;
                } else {
                    let p = *r.pick(&l);
                    let ok = guard(&format!("play number {k}"), || g.try_play(Move::Play(p.0, p.1)).is_ok())?;
                    ck!(ok, "legal move {:?} refused", p);
                    b = b.play(p, turn, m != "game_small").0;
                    ck!(observe(g.goban()) == b, "board wrong after play number {k}");
                    k += 1;
                }
                turn = !turn;
            }
        }
    }
    Ok(())
}

/// Two positions with the same 64-bit hash: stones on points of one colour of the chequered board (nothing is ever
/// captured), chosen by elimination so that their keys cancel out.
pub fn gen_collide(r: &mut Rng) -> Special {
    let mut s = Special { kind: "collide".into(), kv: vec![] };
    let mut pts: Vec<P> = (0..19u8).flat_map(|i| (0..19u8).map(move |j| (i, j))).filter(|p| (p.0 + p.1) % 2 == 0).collect();
    for i in (1..pts.len()).rev() { let j = r.below(i + 1); pts.swap(i, j); }
    let key = |p: P, c: Color| { let mut g = Goban::new((19, 19)); g.push(p, c); g.zobrist_hash() };
    let pairs: Vec<(P, P)> = pts.chunks_exact(2).take(70).map(|x| (x[0], x[1])).collect();
    let one = r.chance(1, 2);
    // rows: (value, set of pairs it is made of)
    let mut basis: Vec<(u64, u128)> = vec![];
    let mut set = 0u128;
    for (k, (a, b)) in pairs.iter().enumerate() {
        let mut v = (key(*a, Color::Black) ^ if one { 0 } else { key(*b, Color::White) }, 1u128 << k);
        for x in &basis { if v.0 ^ x.0 < v.0 { v = (v.0 ^ x.0, v.1 ^ x.1) } }
        if v.0 == 0 { set = v.1; break; }
        basis.push(v);
        basis.sort_by(|x, y| y.0.cmp(&x.0));
    }
    let sel: Vec<&(P, P)> = (0..pairs.len()).filter(|k| set >> k & 1 == 1).map(|k| &pairs[k]).collect();
    s.put("black", sel.iter().map(|x| sp(x.0)).collect::<Vec<_>>().join(" "));
    s.put("white", if one { String::new() } else { sel.iter().map(|x| sp(x.1)).collect::<Vec<_>>().join(" ") });
    s
}
fn run_collide(s: &Special) -> R {
    let (bl, wh) = (s.pts("black"), s.pts("white"));
    let mut g = Goban::new((19, 19));
    for p in &bl { g.push(*p, Color::Black); }
    for p in &wh { g.push(*p, Color::White); }
    let e = Goban::new((19, 19));
    ck!(bl.is_empty() || g != e && e != g, "a board with {} stones equals the empty board", bl.len() + wh.len());
    let rule = Rule { komi: 0.5, flag_illegal: IllegalRules::KO | IllegalRules::SUPERKO | IllegalRules::SUICIDE, flag_score: ScoreRules::KOMI };
    let mut g = Game::builder().size((19, 19)).rule(rule).build().unwrap();
    for (i, p) in bl.iter().enumerate() {
        let r = g.try_play(Move::Play(p.0, p.1)).map(|_| ());
        ck!(r.is_ok(), "black at {:?}: {:?}, but the position is new", p, r);
        let r = match wh.get(i) { Some(q) => g.try_play(Move::Play(q.0, q.1)).map(|_| ()), None => g.try_play(Move::Pass).map(|_| ()) };
        ck!(r.is_ok(), "white's answer number {i}: {:?}, but the position is new", r);
    }
    Ok(())
}

pub fn run_special(prop: &str, s: &Special) -> R {
    *CURRENT.lock().unwrap() = Some((s.text(), std::time::Instant::now()));
    let r = match s.kind.as_str() {
        "build" => run_build(s),
        "sgf" => run_sgf(s),
        "long" => run_long(s),
        "dead" => run_dead(s),
        "collide" => run_collide(s),
        k => Err(format!("unknown kind {k}")),
    };
    *CURRENT.lock().unwrap() = None;
    let _ = prop;
    r
}

pub fn gen_dead(r: &mut Rng) -> Special {
    let mut s = Special { kind: "dead".into(), kv: vec![] };
    let (h, w) = (2 + r.below(4) as u8, 2 + r.below(4) as u8);
    s.put("h", h); s.put("w", w);
    let (su, mv) = position(r, h, w, Grid::new(h, w), Color::Black, false, false);
    s.put("setup", su); s.put("moves", mv);
    s
}
fn run_dead(s: &Special) -> R {
    let (h, w): (u8, u8) = (s.num("h").unwrap(), s.num("w").unwrap());
    let mut bl = Game::builder();
    bl.size((h, w)).rule(CHINESE);
    for x in s.items("setup") { bl.add(Stone { coord: pp(&x[1..]), color: cc(&x) }); }
    let (_, _, _, _, mv) = expect_board(s, Grid::new(h, w), Color::Black, false);
    bl.moves(&mv);
    let g = bl.build().unwrap();
    let before = g.clone();
    let f = guard("get_floating_stones", || g.get_floating_stones())?;
    if !g.is_over() { return Ok(()); }
    let d = guard("dead_stones_wth_simulations", || g.dead_stones_wth_simulations(20))?;
    ck!(d.iter().all(|i| f.contains(i)), "dead {:?} not all floating {:?}", d, f);
    ck!(before.goban() == g.goban() && before.turn() == g.turn(), "query changes the game");
    Ok(())
}
