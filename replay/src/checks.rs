//! Executes a trace on the real library and compares every step with the reference definitions.
use crate::refm::*;
use crate::rng::Rng;
use crate::trace::*;
use goban::pieces::goban::Goban;
use goban::pieces::stones::{Color, Point, Stone};
use goban::rules::game::Game;
use goban::rules::{EndGame, IllegalRules, Move, PlayError, Rule, ScoreRules};
use std::collections::{BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::cell::RefCell;

thread_local! { pub static LAST_PANIC: RefCell<String> = RefCell::new(String::new()); }
/// what is running now, for the watchdog
pub static CURRENT: Mutex<Option<(String, std::time::Instant)>> = Mutex::new(None);

pub type R = Result<(), String>;

macro_rules! ck {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(format!("panic in {what}: {}", LAST_PANIC.with(|p| p.borrow().clone()))),
    }
}

pub fn observe(g: &Goban) -> Grid {
    let (h, w) = g.size();
    let mut b = Grid::new(h, w);
    for p in b.points() {
        let c = g.get_color(p);
        b.set(p, c);
    }
    b
}

fn rule(t: &Trace) -> Rule {
    Rule {
        komi: t.komi,
        flag_illegal: IllegalRules::from_bits_truncate(t.illegal),
        flag_score: ScoreRules::from_bits_truncate(t.score),
    }
}

/// live groups as seen through the public API: (stones listed, color, num_stones, liberties, group)
struct Seen { list: Vec<P>, color: Color, num: u16, libs: Vec<usize>, g: goban::pieces::group::Group, idx: usize }

fn seen_groups(g: &Goban, b: &Grid) -> Result<Vec<Seen>, String> {
    let mut ids: Vec<usize> = vec![];
    for p in b.points() {
        if b.at(p).is_some() {
            // the group of a stone is found through the neighbours' query of any adjacent point, or directly
            for n in b.nbrs(p) {
                for i in g.get_connected_groups_idx(n) {
                    if !ids.contains(&i) { ids.push(i) }
                }
            }
        }
    }
    if b.c.len() == 1 && b.c[0].is_some() {
        // a 1x1 board has no neighbours to ask; there is a single group
        let all: Vec<_> = g.chains().collect();
        ck!(all.len() == 1, "1x1 board: {} groups", all.len());
        return Ok(vec![Seen { list: vec![(0, 0)], color: all[0].color, num: all[0].num_stones, libs: all[0].liberties(), g: *all[0], idx: usize::MAX }]);
    }
    let total = g.chains().count();
    ck!(total == ids.len(), "chains() yields {} groups, {} reachable from the stones", total, ids.len());
    let mut v = vec![];
    for i in ids {
        let stones: Vec<Stone> = g.chain_stones(i).take(400).collect();
        ck!(!stones.is_empty(), "group {i} lists no stone");
        let list: Vec<P> = stones.iter().map(|s| s.coord).collect();
        // the record: matched through chains() by its origin
        let recs: Vec<_> = g.chains().filter(|r| {
            let o = (r.origin as usize) / b.w as usize;
            let q = (r.origin as usize) % b.w as usize;
            list.contains(&(o as u8, q as u8))
        }).collect();
        ck!(recs.len() == 1, "group {i}: {} records start at one of its stones", recs.len());
        ck!(stones.iter().all(|s| s.color == recs[0].color), "group {i}: stone colour differs from record");
        v.push(Seen { list, color: recs[0].color, num: recs[0].num_stones, libs: recs[0].liberties(), g: *recs[0], idx: i });
    }
    Ok(v)
}

fn c01(g: &Goban, b: &Grid) -> R {
    let want: BTreeSet<BTreeSet<P>> = b.groups().into_iter().map(|x| x.1).collect();
    let seen = seen_groups(g, b)?;
    let mut got = BTreeSet::new();
    for s in &seen {
        let set: BTreeSet<P> = s.list.iter().cloned().collect();
        ck!(set.len() == s.list.len(), "group {} lists a stone twice: {:?}", s.idx, s.list);
        ck!(s.num as usize == s.list.len(), "group {}: num_stones={} but {} stones listed", s.idx, s.num, s.list.len());
        for p in &set {
            ck!(b.at(*p) == Some(s.color), "group {} of {:?} contains {:?}, board has {:?}", s.idx, s.color, p, b.at(*p));
        }
        got.insert(set);
    }
    ck!(got.len() == seen.len(), "two groups list the same stones");
    ck!(got == want, "groups {:?}, connected regions {:?}", got, want);
    // same group <=> same region, through the adjacency query
    let (lab, gs) = b.labels();
    let mut known: std::collections::HashMap<usize, Option<usize>> = Default::default();
    for p in b.points() {
        let gi = g.get_connected_groups_idx(p);
        let want: BTreeSet<usize> = b.nbrs(p).into_iter().map(|n| lab[b.ix(n)]).filter(|&k| k != usize::MAX).collect();
        ck!(gi.len() == want.len(), "groups adjacent to {:?}: {:?}, expected {}", p, gi, want.len());
        let gi2 = g.get_connected_groups_idx(b.ix(p));
        ck!(gi == gi2, "groups adjacent to {:?} differ by query kind", p);
        if b.c.len() > 1 {
            let mut got: BTreeSet<usize> = BTreeSet::new();
            for &i in gi.iter() {
                // the region this group is: the one all its stones are in, if it has as many
                let k = *known.entry(i).or_insert_with(|| {
                    let v: Vec<usize> = g.chain_stones(i).take(400).map(|s| b.ix(s.coord)).collect();
                    let k = v.first().map(|&x| lab[x]).filter(|&k| k != usize::MAX)?;
                    if v.iter().all(|&x| lab[x] == k) && v.len() == gs[k].1 as usize { Some(k) } else { None }
                });
                if let Some(k) = k { got.insert(k); }
            }
            ck!(got == want, "groups adjacent to {:?} are not the adjacent regions", p);
        }
    }
    Ok(())
}

fn c02(g: &Goban, b: &Grid) -> R {
    for s in seen_groups(g, b)? {
        let set: BTreeSet<P> = b.region(s.list[0]);
        let want: BTreeSet<usize> = b.libs(&set).into_iter().map(|p| b.ix(p)).collect();
        let got: BTreeSet<usize> = s.libs.iter().cloned().collect();
        ck!(got.len() == s.libs.len(), "liberties listed twice: {:?}", s.libs);
        ck!(got == want, "group at {:?}: liberties {:?}, expected {:?}", s.list[0], got, want);
        ck!(s.g.number_of_liberties() == want.len(), "number_of_liberties {} expected {}", s.g.number_of_liberties(), want.len());
        ck!(s.g.is_atari() == (want.len() == 1), "is_atari wrong with {} liberties", want.len());
        ck!(s.g.is_dead() == want.is_empty(), "is_dead wrong with {} liberties", want.len());
        for i in 0..b.c.len() {
            ck!(s.g.contains_liberty(i) == want.contains(&i), "contains_liberty({i}) wrong");
        }
    }
    Ok(())
}

fn hash_of(g: &Goban) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    g.hash(&mut h);
    h.finish()
}

fn c05(g: &Goban, b: &Grid, rng: &mut Rng) -> R {
    ck!(g.zobrist_hash() == b.hash(), "hash {:x}, expected {:x}", g.zobrist_hash(), b.hash());
    // the same position by another history
    let mut pts: Vec<P> = b.points().into_iter().filter(|&p| b.at(p).is_some()).collect();
    for i in (1..pts.len()).rev() {
        let j = rng.below(i + 1);
        pts.swap(i, j);
    }
    let mut g2 = Goban::new((b.h, b.w));
    for p in &pts {
        g2.push(*p, b.at(*p).unwrap());
    }
    if observe(&g2) == *b {
        ck!(*g == g2 && g2 == *g, "boards with the same stones are not equal");
        ck!(hash_of(g) == hash_of(&g2), "equal boards hash differently");
        ck!(g.clone() == *g, "clone differs");
    }
    // a board that differs at one point, and one of another shape
    let p = b.pt(rng.below(b.c.len()));
    let mut b3 = b.clone();
    b3.set(p, match b.at(p) { None => Some(Color::Black), Some(Color::Black) => Some(Color::White), _ => None });
    let mut g3 = Goban::new((b.h, b.w));
    for q in b3.points() {
        if let Some(c) = b3.at(q) { g3.push(q, c); }
    }
    if observe(&g3) == b3 {
        ck!(*g != g3, "boards differing at {:?} compare equal", p);
    }
    let mut g4 = Goban::new((if b.h < 19 { b.h + 1 } else { b.h - 1 }, b.w));
    if b.points().iter().all(|&p| b.at(p).is_none() || p.0 < g4.size().0) {
        for q in b.points() { if let Some(c) = b.at(q) { g4.push(q, c); } }
        ck!(*g != g4, "boards of different size compare equal");
    }
    Ok(())
}

fn c11(g: &Goban, b: &Grid) -> R {
    let (wb, ww) = b.territory();
    let (ib, iw) = g.get_territories();
    let (lb, lw): (Vec<Point>, Vec<Point>) = (ib.collect(), iw.collect());
    for (l, want, n) in [(&lb, &wb, "black"), (&lw, &ww, "white")] {
        let set: BTreeSet<P> = l.iter().map(|p| p.coord).collect();
        ck!(set.len() == l.len(), "{n} territory lists a point twice");
        ck!(set == *want, "{n} territory {:?}, expected {:?}", set, want);
        ck!(l.iter().all(|p| p.color.is_none()), "{n} territory holds a non-empty point");
    }
    let (nb, nw) = g.calculate_territories();
    ck!((nb, nw) == (wb.len(), ww.len()), "calculate_territories {:?}, expected {:?}", (nb, nw), (wb.len(), ww.len()));
    // regions of any content
    let pts = b.points();
    // on a big board, some of the points (different ones as the board fills)
    let (first, step) = if pts.len() > 60 { ((b.count(Color::Black) + b.count(Color::White)) as usize * 7 % 37, 37) } else { (0, 1) };
    for &p in pts.iter().skip(first).step_by(step) {
        let r: BTreeSet<P> = g.get_group_from_point(Point { coord: p, color: b.at(p) }).into_iter().map(|q| q.coord).collect();
        ck!(r == b.region(p), "region of {:?} is {:?}, expected {:?}", p, r, b.region(p));
    }
    Ok(())
}

fn c13(g: &Goban, b: &Grid) -> R {
    use goban::pieces::util::coord::*;
    let size = (b.h, b.w);
    ck!(g.size() == size, "size {:?}", g.size());
    let mut seen = HashSet::new();
    for p in b.points() {
        let i = two_to_1dim(size, p);
        ck!(i == b.ix(p), "index of {:?} on {:?} is {i}", p, size);
        ck!(seen.insert(i), "index {i} used twice");
        ck!(one_to_2dim(size, i) == p, "coordinate of {i} on {:?} is {:?}, expected {:?}", size, one_to_2dim(size, i), p);
        ck!(p.into_idx(size) == i && i.into_coord(size) == p && i.into_idx(size) == i, "IntoIdx/IntoCoord of {:?}", p);
        ck!(g.get_color(i) == g.get_color(p), "lookup by index and by coordinate differ at {:?}", p);
        let nb: Vec<P> = g.get_connected_points(p).map(|x| x.coord).collect();
        let nset: BTreeSet<P> = nb.iter().cloned().collect();
        let want: BTreeSet<P> = b.nbrs(p).into_iter().collect();
        ck!(nb.len() == nset.len() && nset == want, "neighbours of {:?} on {:?}: {:?}, expected {:?}", p, size, nb, want);
    }
    for x in 0..=255u8 {
        for y in [0, b.w.saturating_sub(1), b.w, 19, 255] {
            ck!(is_coord_valid(size, (x, y)) == b.on(x as i32, y as i32), "is_coord_valid({:?},{:?})", size, (x, y));
        }
    }
    Ok(())
}

/// off-board stones and oversized boards are rejected (property C13); runs on clones
fn c13_reject(b: &Grid, g: &Goban, rng: &mut Rng) -> R {
    let p = match rng.below(4) {
        0 => (b.h, rng.below(b.w as usize) as u8),
        1 => (rng.below(b.h as usize) as u8, b.w),
        2 => (rng.below(256) as u8, b.w.saturating_add(rng.below(200) as u8)),
        _ => (b.h.saturating_add(rng.below(200) as u8), rng.below(256) as u8),
    };
    let mut g2 = g.clone();
    let r = catch_unwind(AssertUnwindSafe(|| { g2.push(p, Color::Black); }));
    ck!(r.is_err(), "stone pushed at {:?} on a {}x{} board was accepted", p, b.h, b.w);
    let mut game = Game::builder().size((b.h, b.w)).build().unwrap();
    let r = catch_unwind(AssertUnwindSafe(|| { game.play(Move::Play(p.0, p.1)); }));
    ck!(r.is_err(), "play at {:?} on a {}x{} board was accepted", p, b.h, b.w);
    let big = (20 + rng.below(236) as u8, rng.below(256) as u8);
    for s in [big, (big.1, big.0)] {
        let r = catch_unwind(AssertUnwindSafe(|| { Goban::new(s); }));
        ck!(r.is_err(), "board of size {:?} was accepted", s);
    }
    let n = 20 + rng.below(1000);
    let r = catch_unwind(AssertUnwindSafe(|| { Game::new(goban::rules::GobanSizes::Custom(n, 1 + rng.below(19)), goban::rules::CHINESE); }));
    ck!(r.is_err(), "game of height {n} was accepted");
    Ok(())
}

fn c14(g: &Goban, b: &Grid) -> R {
    let v = g.to_vec();
    ck!(v == b.c, "to_vec has {} entries: {:?}..., expected {} entries", v.len(), &v[..v.len().min(8)], b.c.len());
    let m = g.matrix();
    ck!(m.len() == b.h as usize, "matrix has {} rows, expected {}", m.len(), b.h);
    for (i, row) in m.iter().enumerate() {
        ck!(row[..] == b.c[i * b.w as usize..(i + 1) * b.w as usize], "matrix row {i} is {:?}", row);
    }
    let stones: Vec<(P, Color)> = g.get_stones().map(|s| (s.coord, s.color)).collect();
    let want: Vec<(P, Color)> = b.points().into_iter().filter_map(|p| b.at(p).map(|c| (p, c))).collect();
    ck!(stones == want, "get_stones {:?}, expected {:?}", stones, want);
    let empties: Vec<P> = b.points().into_iter().filter(|&p| b.at(p).is_none()).collect();
    let e: Vec<P> = g.get_empty_coords().collect();
    ck!(e == empties, "get_empty_coords {:?}, expected {:?}", e, empties);
    let e: Vec<usize> = g.get_empty_idx().collect();
    ck!(e == empties.iter().map(|&p| b.ix(p)).collect::<Vec<_>>(), "get_empty_idx {:?}, expected {:?}", e, empties);
    for c in [None, Some(Color::Black), Some(Color::White)] {
        let want: Vec<P> = b.points().into_iter().filter(|&p| b.at(p) == c).collect();
        let got: Vec<P> = g.get_coords_by_color(c).collect();
        ck!(got == want, "get_coords_by_color({:?}) {:?}, expected {:?}", c, got, want);
        let got: Vec<Point> = g.get_stones_by_color(c).collect();
        ck!(got.iter().map(|p| p.coord).eq(want.iter().cloned()) && got.iter().all(|p| p.color == c), "get_stones_by_color({:?}) {:?}", c, got);
    }
    ck!(g.number_of_stones() == (b.count(Color::Black), b.count(Color::White)), "number_of_stones {:?}", g.number_of_stones());
    for p in b.points() {
        let cp: BTreeSet<(P, Option<u8>)> = g.get_connected_points(p).map(|x| (x.coord, x.color.map(|c| c as u8))).collect();
        let want: BTreeSet<(P, Option<u8>)> = b.nbrs(p).into_iter().map(|q| (q, b.at(q).map(|c| c as u8))).collect();
        ck!(cp == want && g.get_connected_points(p).count() == want.len(), "get_connected_points({:?}) {:?}", p, cp);
        let cs: BTreeSet<(P, u8)> = g.get_connected_stones(p).map(|x| (x.coord, x.color as u8)).collect();
        let ws: BTreeSet<(P, u8)> = b.nbrs(p).into_iter().filter_map(|q| b.at(q).map(|c| (q, c as u8))).collect();
        ck!(cs == ws && g.get_connected_stones(p).count() == ws.len(), "get_connected_stones({:?}) {:?}", p, cs);
        let li: BTreeSet<P> = g.get_liberties(p).collect();
        let wl: BTreeSet<P> = b.nbrs(p).into_iter().filter(|&q| b.at(q).is_none()).collect();
        ck!(li == wl && g.has_liberties(p) == !wl.is_empty(), "liberties of point {:?}: {:?}", p, li);
    }
    if b.h == b.w {
        let g2: Goban = v.as_slice().into();
        ck!(g2 == *g && observe(&g2) == *b, "board rebuilt from its vector differs");
    }
    Ok(())
}

fn c20(g: &Goban, b: &Grid) -> R {
    let s = g.pretty_string();
    ck!(format!("{}", g) == s, "Display differs from pretty_string");
    let lines: Vec<&str> = s.lines().collect();
    ck!(lines.len() == b.h as usize && s.ends_with('\n'), "{} lines for {} rows", lines.len(), b.h);
    for (i, l) in lines.iter().enumerate() {
        let cs: Vec<char> = l.chars().collect();
        ck!(cs.len() == b.w as usize, "line {i} has {} characters", cs.len());
        for (j, ch) in cs.iter().enumerate() {
            let want = b.at((i as u8, j as u8));
            let ok = match want {
                Some(Color::Black) => *ch == '●',
                Some(Color::White) => *ch == '○',
                None => "┏┓┗┛┯┷┠┨┼".contains(*ch),
            };
            ck!(ok, "character {:?} at {:?}, board has {:?}", ch, (i, j), want);
        }
    }
    Ok(())
}

pub fn check_board(prop: &str, g: &Goban, b: &Grid, rng: &mut Rng) -> R {
    guard("board query", || match prop {
        "C01" => c01(g, b),
        "C02" => c02(g, b),
        "C05" => c05(g, b, rng),
        "C11" => c11(g, b),
        "C13" => c13(g, b).and_then(|_| c13_reject(b, g, rng)),
        "C14" => c14(g, b),
        "C20" => c20(g, b),
        "C15" => {
            let _ = c01(g, b); let _ = c02(g, b); let _ = c11(g, b); let _ = c14(g, b); let _ = c20(g, b);
            Ok(())
        }
        _ => Ok(()),
    })?
}

fn run_board(prop: &str, t: &Trace, step: &mut usize) -> R {
    let mut rng = Rng(t.ops.len() as u64);
    let mut g = Goban::new((t.h, t.w));
    let mut b = Grid::new(t.h, t.w);
    check_board(prop, &g, &b, &mut rng)?;
    for (i, op) in t.ops.iter().enumerate() {
        *step = i + 1;
        let strict = ["C01", "C02", "C03", "C05", "C13", "C15"].contains(&prop);
        match op {
            Op::Push(p, c) => {
                if b.at(*p).is_some() { continue; }
                let r = guard("push", || { g.push(*p, *c); });
                if r.is_err() { return if strict { r } else { Ok(()) }; }
                let mut want = b.clone();
                want.set(*p, Some(*c));
                let o = guard("get_color", || observe(&g))?;
                if o != want {
                    ck!(!["C03", "C13"].contains(&prop), "push {:?} {:?}: board {}, expected {}", p, c, o.show(), want.show());
                }
                b = o;
            }
            Op::Remove(p) => {
                if b.at(*p).is_none() { continue; }
                let reg = b.region(*p);
                let idx = {
                    let mut f = None;
                    for n in b.nbrs(*p) {
                        for i in g.get_connected_groups_idx(n) {
                            if g.chain_stones(i).take(400).any(|s| s.coord == *p) { f = Some(i) }
                        }
                    }
                    f
                };
                let Some(idx) = idx else { continue };
                let r = guard("remove_chain", || g.remove_chain(idx));
                if r.is_err() { return if strict { r } else { Ok(()) }; }
                let mut want = b.clone();
                for q in reg { want.set(q, None) }
                let o = guard("get_color", || observe(&g))?;
                if o != want {
                    ck!(prop != "C03", "remove group at {:?}: board {}, expected {}", p, o.show(), want.show());
                }
                b = o;
            }
            _ => {}
        }
        if dense(t, i) { check_board(prop, &g, &b, &mut rng)?; }
    }
    Ok(())
}

/// whether the whole state is compared after step i (long traces on big boards: now and then, and near the end)
fn dense(t: &Trace, i: usize) -> bool {
    (t.h as usize * t.w as usize) * t.ops.len() < 15000 || i % 13 == 5 || i + 4 > t.ops.len()
}

struct State {
    passes: u32,
    over_preset: Option<EndGame>,
    turn: Color,
    /// all positions of the game up to now, current included
    seen: HashSet<Grid>,
    /// position before the opponent's last play, if the last action was a play
    prev: Option<Grid>,
    hist: Vec<Grid>,
    /// stones placed by each side through plays (black, white)
    played: (u32, u32),
    setup_stones: (u32, u32),
}

fn others_unchanged(a: &Game, b: &Game) -> R {
    ck!(a.goban() == b.goban() && observe(a.goban()) == observe(b.goban()), "board changed");
    ck!(a.goban().zobrist_hash() == b.goban().zobrist_hash(), "board hash changed");
    ck!(a.turn() == b.turn(), "turn changed");
    ck!(a.prisoners() == b.prisoners(), "prisoners changed");
    ck!(a.is_over() == b.is_over(), "over-state changed");
    ck!(a.history().count() == b.history().count(), "history changed");
    ck!(a.komi() == b.komi(), "komi changed");
    Ok(())
}

const MODEL_FLAGS: [(u32, &str); 4] = [(1, "KO"), (2, "SUPERKO"), (4, "SUICIDE"), (8, "FILLEYE")];

/// What the rules say about a play at p: the set of violated rules, by brute force.
struct Verdict { occupied: bool, suicide: bool, ko: bool, repeat: bool, cross: bool, plain_eye: bool }

fn judge(b: &Grid, st: &State, p: P) -> Verdict {
    if b.at(p).is_some() {
        return Verdict { occupied: true, suicide: false, ko: false, repeat: false, cross: false, plain_eye: false };
    }
    let (mut res, _, _, suicide) = b.play(p, st.turn, false);
    if suicide {
        res = b.play(p, st.turn, true).0;
    }
    let ko = !suicide && st.prev.as_ref() == Some(&res);
    let repeat = st.seen.contains(&res);
    let cross = b.nbrs(p).iter().all(|&n| b.at(n) == Some(st.turn));
    let (x, y) = (p.0 as i32, p.1 as i32);
    let plain_eye = cross
        && [(1, 1), (1, -1), (-1, 1), (-1, -1)].iter().all(|&(a, c)| {
            !b.on(x + a, y + c) || b.at(((x + a) as u8, (y + c) as u8)) == Some(st.turn)
        });
    Verdict { occupied: false, suicide, ko, repeat, cross, plain_eye }
}

fn check_state(prop: &str, g: &Game, b: &Grid, st: &State, t: &Trace, rng: &mut Rng) -> R {
    let alive = b.all_alive() && st.prev.as_ref().map_or(true, |p| p.all_alive());
    match prop {
        "C06" if alive => {
            for p in b.points() {
                if b.at(p).is_some() { continue; }
                let v = judge(b, st, p);
                for c in [Color::Black, Color::White] {
                    let want = b.play(p, c, false).3;
                    let got = guard("check_suicide", || g.check_suicide(Stone { coord: p, color: c }))?;
                    ck!(got == want, "check_suicide({:?},{:?}) = {got}, board {}", p, c, b.show());
                }
                for f in [t.illegal, 4, 0, 15] {
                    let r = guard("check_point_by", || g.check_point_by(p, IllegalRules::from_bits_truncate(f)))?;
                    let is = r == Some(PlayError::Suicide);
                    ck!(is == (f & 4 != 0 && v.suicide), "flags {f}: {:?} at {:?} for {:?}, board {}", r, p, st.turn, b.show());
                }
            }
        }
        "C07" if alive => {
            for p in b.points() {
                if b.at(p).is_some() { continue; }
                let v = judge(b, st, p);
                for f in [1u32, 5] {
                    let r = guard("check_point_by", || g.check_point_by(p, IllegalRules::from_bits_truncate(f)))?;
                    if r == Some(PlayError::Suicide) { continue; }
                    ck!((r == Some(PlayError::Ko)) == v.ko, "flags {f}: {:?} at {:?} for {:?}, undoes-last-play={}, board {}", r, p, st.turn, v.ko, b.show());
                }
            }
        }
        "C08" if alive => {
            for p in b.points() {
                if b.at(p).is_some() { continue; }
                let v = judge(b, st, p);
                for f in [2u32, 3, 6, 7] {
                    if t.illegal & 4 != f & 4 { continue; }
                    let r = guard("check_point_by", || g.check_point_by(p, IllegalRules::from_bits_truncate(f)))?;
                    if r == Some(PlayError::Suicide) && f & 4 != 0 { continue; }
                    let want = v.repeat || (f & 1 != 0 && v.ko);
                    ck!((r == Some(PlayError::Ko)) == want, "flags {f}: {:?} at {:?} for {:?}, repeats-earlier={}, board {}", r, p, st.turn, v.repeat, b.show());
                }
            }
        }
        "C09" if alive => {
            let mut flags = vec![t.illegal, 0];
            flags.push(rng.below(16) as u32);
            for f in flags {
                let fl = IllegalRules::from_bits_truncate(f);
                let l: Vec<P> = guard("legals_by", || g.legals_by(fl).collect())?;
                let set: BTreeSet<P> = l.iter().cloned().collect();
                ck!(set.len() == l.len(), "legal moves listed twice: {:?}", l);
                for p in b.points() {
                    let e = guard("check_point_by", || g.check_point_by(p, fl))?;
                    ck!(set.contains(&p) == e.is_none(), "flags {f}: {:?} listed={} but check says {:?}", p, set.contains(&p), e);
                    let v = judge(b, st, p);
                    if f & 2 != 0 && t.illegal & 4 != f & 4 { continue; }
                    let ok = match e {
                        None => !(v.occupied || f & 4 != 0 && v.suicide || f & 1 != 0 && v.ko || f & 2 != 0 && v.repeat || f & 8 != 0 && v.plain_eye),
                        Some(PlayError::PointNotEmpty) => v.occupied,
                        Some(PlayError::Suicide) => f & 4 != 0 && v.suicide,
                        Some(PlayError::Ko) => f & 1 != 0 && v.ko || f & 2 != 0 && v.repeat,
                        Some(PlayError::FillEye) => f & 8 != 0 && v.cross,
                        Some(PlayError::GamePaused) => false,
                    };
                    ck!(ok, "flags {f}: {:?} at {:?} for {:?} names a rule that is not broken (or misses one), board {}", e, p, st.turn, b.show());
                }
                if f == t.illegal {
                    let l2: Vec<P> = guard("legals", || g.legals().collect())?;
                    ck!(l2 == l, "legals() and legals_by(rule) differ");
                    let mut ps: Vec<P> = g.pseudo_legals().collect();
                    let mut pv = guard("pseudo_legals_vec", || g.pseudo_legals_vec())?;
                    ps.sort(); pv.sort();
                    let em: Vec<P> = b.points().into_iter().filter(|&p| b.at(p).is_none()).collect();
                    ck!(ps == em && pv == em, "pseudo-legal moves are not the empty points");
                    for p in b.points() {
                        let mut c = g.clone();
                        let r = guard("try_play", || c.try_play(Move::Play(p.0, p.1)).map(|_| ()))?;
                        if st.passes >= 2 {
                            ck!(r == Err(PlayError::GamePaused), "paused, but {:?} at {:?}", r, p);
                        } else {
                            ck!(r.is_ok() == set.contains(&p), "try_play {:?} = {:?}, listed={}", p, r, set.contains(&p));
                            if r.is_err() { ck!(r.clone().err() == g.check_point(p), "try_play and check_point name different errors at {:?}", p); }
                        }
                        if r.is_err() { others_unchanged(g, &c)?; }
                    }
                }
            }
        }
        "C18" => {
            for p in b.points() {
                for c in [Color::Black, Color::White] {
                    let s2 = State { turn: c, passes: 0, over_preset: None, seen: HashSet::new(), prev: None, hist: vec![], played: (0, 0), setup_stones: (0, 0) };
                    let v = judge(b, &s2, p);
                    let e = guard("check_eye", || g.check_eye(Stone { coord: p, color: c }))?;
                    ck!(!e || (!v.occupied && v.cross), "{:?} is an eye of {:?} although not empty or not surrounded, board {}", p, c, b.show());
                    ck!(e || !v.plain_eye, "{:?} is a plain eye of {:?} but not recognised, board {}", p, c, b.show());
                }
                for f in [8u32, 0, 7, t.illegal | 8] {
                    let r = guard("check_point_by", || g.check_point_by(p, IllegalRules::from_bits_truncate(f)))?;
                    let v = judge(b, st, p);
                    if r == Some(PlayError::FillEye) {
                        ck!(f & 8 != 0 && v.cross && !v.occupied, "flags {f}: FillEye at {:?}, board {}", p, b.show());
                    }
                    if f & 8 != 0 && v.plain_eye { ck!(r.is_some(), "flags {f}: {:?} fills a plain eye, accepted", p); }
                }
            }
        }
        "C19" => {
            let before = g.clone();
            let l: Vec<P> = guard("legals", || g.legals().collect())?;
            for p in l {
                let sim = guard("play_for_verification", || g.play_for_verification(p))?;
                others_unchanged(&before, g)?;
                let mut c = g.clone();
                guard("play", || { c.play(Move::Play(p.0, p.1)); })?;
                ck!(observe(&sim) == observe(c.goban()) && sim == *c.goban(), "simulating {:?} for {:?} gives {}, playing gives {} (from {})", p, st.turn, observe(&sim).show(), observe(c.goban()).show(), b.show());
            }
        }
        "C12" => {
            let (tb, tw) = b.territory();
            for f in 0..8u32 {
                let (sb, sw) = guard("calculate_score_by", || g.calculate_score_by(ScoreRules::from_bits_truncate(f)))?;
                let mut eb = tb.len() as f64;
                let mut ew = tw.len() as f64;
                if f & 4 != 0 { eb += g.prisoners().0 as f64; ew += g.prisoners().1 as f64; }
                if f & 1 != 0 { eb += b.count(Color::Black) as f64; ew += b.count(Color::White) as f64; }
                if f & 2 != 0 { ew += t.komi as f64; }
                ck!((sb as f64 - eb).abs() < 1e-3 && (sw as f64 - ew).abs() < 1e-3, "score flags {f}: {:?}, expected {:?}, board {}", (sb, sw), (eb, ew), b.show());
            }
            let s = guard("calculate_score", || g.calculate_score())?;
            ck!(s == g.calculate_score_by(ScoreRules::from_bits_truncate(t.score)), "calculate_score differs from the rule's score");
            let o = guard("outcome", || g.outcome())?;
            if st.passes < 2 && st.over_preset.is_none() {
                ck!(o.is_none(), "unfinished game has outcome {:?}", o);
            } else if let Some(e) = st.over_preset {
                ck!(o == Some(e), "preset outcome {:?} reported as {:?}", e, o);
            } else {
                let d = s.0 - s.1;
                let want = if d.abs() < f32::EPSILON { EndGame::Draw } else if d > 0.0 { EndGame::WinnerByScore(Color::Black, d) } else { EndGame::WinnerByScore(Color::White, -d) };
                ck!(o == Some(want), "outcome {:?}, scores {:?}", o, s);
                let w = o.unwrap().get_winner();
                ck!(w == if d.abs() < f32::EPSILON { None } else if d > 0.0 { Some(Color::Black) } else { Some(Color::White) }, "winner {:?}", w);
            }
        }
        "C10" => {
            ck!(g.turn() == st.turn, "turn is {:?}, expected {:?}", g.turn(), st.turn);
            let over = st.passes >= 2 || st.over_preset.is_some();
            ck!(g.is_over() == over, "is_over = {}, expected {over}", g.is_over());
            if st.passes >= 2 {
                for m in [Move::Pass, Move::Play(0, 0), Move::Resign(Color::Black)] {
                    let mut c = g.clone();
                    let r = guard("try_play", || c.try_play(m).map(|_| ()))?;
                    ck!(r == Err(PlayError::GamePaused), "paused game: {:?} gives {:?}", m, r);
                    others_unchanged(g, &c)?;
                }
            } else {
                let mut c = g.clone();
                let r = guard("try_play", || c.try_play(Move::Pass).map(|_| ()))?;
                ck!(r.is_ok(), "pass refused: {:?}", r);
                ck!(c.turn() != g.turn(), "pass does not change the turn");
            }
        }
        "C21" => {
            let f: Vec<usize> = guard("get_floating_stones", || g.get_floating_stones())?;
            let mut want: BTreeSet<Vec<P>> = BTreeSet::new();
            let eye_points: Vec<P> = b.points().into_iter().filter(|&p| b.at(p).is_none() && [Color::Black, Color::White].iter().any(|&c| g.check_eye(Stone { coord: p, color: c }))).collect();
            for (_, r) in b.groups() {
                let eyes = eye_points.iter().filter(|&&p| b.nbrs(p).iter().any(|n| r.contains(n))).count();
                if eyes < 2 { want.insert(r.into_iter().collect()); }
            }
            let mut got: BTreeSet<Vec<P>> = BTreeSet::new();
            for i in &f {
                let mut v: Vec<P> = guard("chain_stones of a floating group", || g.chain_stones(*i).take(400).map(|s| s.coord).collect())?;
                v.sort();
                got.insert(v);
            }
            ck!(got.len() == f.len() && got == want, "floating groups {:?}, expected {:?}", got, want);
        }
        _ => {}
    }
    check_board(prop, g.goban(), b, rng)
}

fn build(t: &Trace) -> Game {
    let mut bld = Game::builder();
    bld.size((t.h, t.w)).rule(rule(t));
    for (p, c) in &t.setup {
        bld.add(Stone { coord: *p, color: *c });
    }
    bld.build().unwrap()
}

fn run_game(prop: &str, t: &Trace, step: &mut usize) -> R {
    let mut rng = Rng(t.ops.len() as u64 ^ 77);
    let mut g = match guard("build", || build(t)) {
        Ok(g) => g,
        Err(e) => return if prop == "C16" || prop == "C15" { Err(e) } else { Ok(()) },
    };
    let mut b = guard("get_color", || observe(g.goban()))?;
    let mut st = State { passes: 0, over_preset: None, turn: Color::Black, seen: HashSet::new(), prev: None, hist: vec![], played: (0, 0), setup_stones: (b.count(Color::Black), b.count(Color::White)) };
    st.seen.insert(b.clone());
    let allow = t.illegal & 4 == 0;
    check_state(prop, &g, &b, &st, t, &mut rng)?;
    let board_props = ["C01", "C02", "C03", "C04", "C05", "C15"];
    for (i, op) in t.ops.iter().enumerate() {
        *step = i + 1;
        let before = g.clone();
        let pris = g.prisoners();
        // whether to check the full state after this step (always near the end of the trace)
        match op {
            Op::Try(p) | Op::Raw(p) => {
                if b.at(*p).is_some() && matches!(op, Op::Raw(_)) { continue; }
                let alive_before = b.all_alive();
                let r = guard("play", || match op {
                    Op::Try(p) => g.try_play(Move::Play(p.0, p.1)).map(|_| ()),
                    _ => { g.play(Move::Play(p.0, p.1)); Ok(()) }
                });
                let r = match r {
                    Ok(r) => r,
                    Err(e) => return if board_props.contains(&prop) || prop == "C09" || prop == "C19" { Err(e) } else { Ok(()) },
                };
                if r.is_err() {
                    if prop == "C09" || prop == "C04" { others_unchanged(&before, &g)?; }
                    continue;
                }
                let o = guard("get_color", || observe(g.goban()))?;
                if alive_before {
                    let (want, rw, rb, _) = b.play(*p, st.turn, allow);
                    if prop == "C03" {
                        ck!(o == want, "play {:?} by {:?} on {}: board {}, expected {}", p, st.turn, b.show(), o.show(), want.show());
                        ck!(matches!(op, Op::Raw(_)) || o.all_alive(), "a group without liberties is left: {}", o.show());
                    }
                    if prop == "C04" {
                        // stones really removed, by colour
                        let pl = st.turn;
                        let gone = |c: Color| b.count(c) + (pl == c) as u32 - o.count(c);
                        let _ = (rw, rb);
                        ck!(g.prisoners() == (pris.0 + gone(Color::White), pris.1 + gone(Color::Black)), "play {:?} by {:?}: prisoners {:?} -> {:?}, stones removed W={} B={}", p, pl, pris, g.prisoners(), gone(Color::White), gone(Color::Black));
                    }
                }
                if st.turn == Color::Black { st.played.0 += 1 } else { st.played.1 += 1 }
                if prop == "C10" { ck!(g.turn() != before.turn(), "turn not handed over by a play"); }
                st.hist.push(b.clone());
                st.prev = Some(b);
                b = o;
                st.seen.insert(b.clone());
                st.turn = !st.turn;
                st.passes = 0;
                if prop == "C04" {
                    let p = g.prisoners();
                    ck!(st.played.0 + st.setup_stones.0 == b.count(Color::Black) + p.1 && st.played.1 + st.setup_stones.1 == b.count(Color::White) + p.0, "stones played {:?} + set up {:?}, on board {:?}, prisoners {:?}", st.played, st.setup_stones, (b.count(Color::Black), b.count(Color::White)), p);
                }
            }
            Op::Pass => {
                if st.passes >= 2 { continue; }
                guard("pass", || { g.play(Move::Pass); }).or_else(|e| if prop == "C10" || prop == "C15" { Err(e) } else { Ok(()) })?;
                st.turn = !st.turn;
                st.passes += 1;
                st.prev = None;
            }
            Op::Resume => {
                g.resume();
                st.passes = 0;
            }
            Op::Resign(c) => {
                g.play(Move::Resign(*c));
                st.over_preset = Some(EndGame::WinnerByResign(*c));
                if prop == "C12" { ck!(matches!(g.outcome(), Some(EndGame::WinnerByResign(_))), "outcome after resignation {:?}", g.outcome()); st.over_preset = g.outcome(); }
            }
            Op::Handicap(v) => {
                if v.iter().any(|p| b.at(*p).is_some()) { continue; }
                guard("put_handicap", || g.put_handicap(v)).or_else(|e| if prop == "C16" || prop == "C15" { Err(e) } else { Ok(()) })?;
                let o = observe(g.goban());
                let mut want = b.clone();
                for p in v { want.set(*p, Some(Color::Black)) }
                if prop == "C16" {
                    ck!(o == want, "handicap {:?}: board {}, expected {}", v, o.show(), want.show());
                    ck!(g.turn() == Color::White, "handicap leaves the turn to black");
                    ck!(g.prisoners() == pris, "handicap changes prisoners");
                }
                st.setup_stones.0 += v.len() as u32;
                b = o;
                st.turn = Color::White;
                st.prev = None;
                st.seen.clear(); // positions made by placing handicap stones are not plays
                st.seen.extend(st.hist.iter().cloned());
                st.seen.insert(b.clone());
            }
            _ => {}
        }
        if !matches!(op, Op::Try(_) | Op::Raw(_) | Op::Handicap(_)) && (prop == "C04" || prop == "C10" || prop == "C03") {
            ck!(observe(g.goban()) == b, "{:?} changes the board", op);
            ck!(g.prisoners() == pris, "{:?} changes the prisoners", op);
        }
        if matches!(op, Op::Resign(_) | Op::Resume) && prop == "C10" {
            ck!(g.turn() == before.turn(), "{:?} changes the turn", op);
        }
        if dense(t, i) { check_state(prop, &g, &b, &st, t, &mut rng)?; }
    }
    let _ = MODEL_FLAGS;
    Ok(())
}

/// Err((step, message)) if the trace violates the property
pub fn run_trace(prop: &str, t: &Trace) -> Result<(), (usize, String)> {
    *CURRENT.lock().unwrap() = Some((t.text(), std::time::Instant::now()));
    let mut step = 0;
    let r = if t.game { run_game(prop, t, &mut step) } else { run_board(prop, t, &mut step) };
    *CURRENT.lock().unwrap() = None;
    r.map_err(|e| (step, e))
}
