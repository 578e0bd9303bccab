//! Generators of traces. They keep their own model board, never ask the library.
use crate::refm::*;
use crate::rng::Rng;
use crate::trace::*;
use goban::pieces::stones::Color;

fn dim(r: &mut Rng) -> (u8, u8) {
    match r.below(20) {
        0 => (19, 19),
        1 => (9, 9),
        2 => (13, 13),
        3 => (1 + r.below(19) as u8, 1 + r.below(19) as u8),
        4 | 5 => (1 + r.below(8) as u8, 1 + r.below(8) as u8),
        6 => (1, 1 + r.below(6) as u8),
        7 => (1 + r.below(6) as u8, 1),
        8 | 9 | 10 => (2 + r.below(2) as u8, 2 + r.below(2) as u8),
        11 => (16 + r.below(4) as u8, 16 + r.below(4) as u8),
        12 => { let (a, b) = (10 + r.below(10) as u8, 1 + r.below(4) as u8); if r.chance(1, 2) { (a, b) } else { (b, a) } }
        _ => (2 + r.below(4) as u8, 2 + r.below(4) as u8),
    }
}
fn col(r: &mut Rng) -> Color { if r.chance(1, 2) { Color::Black } else { Color::White } }

/// a setup position without dead groups (so that the statements about plays apply)
fn setup(r: &mut Rng, h: u8, w: u8, fill: u64) -> Vec<(P, Color)> {
    let mut b = Grid::new(h, w);
    let mut v = vec![];
    for p in b.points() {
        if r.chance(fill, 100) {
            let c = col(r);
            b.set(p, Some(c));
            if b.all_alive() { v.push((p, c)) } else { b.set(p, None) }
        }
    }
    for i in (1..v.len()).rev() { let j = r.below(i + 1); v.swap(i, j); }
    v
}

/// A nearly full big board: one colour almost everywhere, a few stones of the other, a handful of empty points.
fn full(r: &mut Rng, h: u8, w: u8) -> Vec<(P, Color)> {
    let mut b = Grid::new(h, w);
    let main = col(r);
    let pts = b.points();
    for &p in &pts { b.set(p, Some(main)) }
    let split = r.below(4);
    if split > 0 && h > 2 {
        // walls of the other colour, with gaps in them
        for _ in 0..split { let k = r.below(h as usize) as u8; for j in 0..w { if r.chance(9, 10) { b.set((k, j), Some(!main)) } } }
    }
    for _ in 0..r.below(6) { let p = *r.pick(&pts); b.set(p, Some(!main)) }
    for _ in 0..1 + r.below(5) { let p = *r.pick(&pts); b.set(p, None) }
    while !b.all_alive() {
        let dead: Vec<P> = b.groups().into_iter().filter(|(_, g)| b.libs(g).is_empty()).flat_map(|(_, g)| g.into_iter()).collect();
        let p = *r.pick(&dead);
        b.set(p, None);
    }
    let mut v: Vec<(P, Color)> = pts.into_iter().filter_map(|p| b.at(p).map(|c| (p, c))).collect();
    for i in (1..v.len()).rev() { let j = r.below(i + 1); v.swap(i, j); }
    // stones put down in any order: keep every prefix free of dead groups by adding the rest first
    v
}

/// A point whose neighbours are (up to four) different groups of one colour, most of them with no other liberty.
fn star(r: &mut Rng, h: u8, w: u8) -> (Vec<(P, Color)>, P, Color) {
    let mut b = Grid::new(h, w);
    let pts = b.points();
    let inner: Vec<P> = pts.iter().cloned().filter(|&p| b.nbrs(p).len() == 4).collect();
    let p = if !inner.is_empty() && r.chance(3, 4) { *r.pick(&inner) } else { *r.pick(&pts) };
    let me = col(r);
    for n in b.nbrs(p) {
        if r.chance(1, 12) { if r.chance(1, 2) { b.set(n, Some(me)) } continue; }
        b.set(n, Some(!me));
        let mut cur = n;
        for _ in 0..r.below(3) {
            let out: Vec<P> = b.nbrs(cur).into_iter().filter(|&q| q != p && b.at(q).is_none() && b.nbrs(q).iter().filter(|&&z| b.at(z) == Some(!me)).count() == 1).collect();
            if out.is_empty() { break }
            cur = *r.pick(&out);
            b.set(cur, Some(!me));
        }
    }
    let around: Vec<P> = pts.iter().cloned().filter(|&q| q != p && b.at(q).is_none() && b.nbrs(q).iter().any(|&z| b.at(z) == Some(!me))).collect();
    let leave = r.chance(1, 4);
    for q in around {
        if leave && r.chance(1, 5) { continue }
        b.set(q, Some(me));
        if !b.all_alive() { b.set(q, None) }
    }
    let v = pts.into_iter().filter_map(|q| b.at(q).map(|c| (q, c))).collect();
    (v, p, me)
}

/// Big boards filled in stripes, in order or at random: groups of hundreds of stones, merged late, removed whole.
pub fn bulk(r: &mut Rng) -> Trace {
    if r.chance(1, 4) { return exact(r); }
    let (h, w) = if r.chance(1, 2) { (19, 19) } else { (15 + r.below(5) as u8, 15 + r.below(5) as u8) };
    let period = 2 + r.below(6);
    let vertical = r.chance(1, 2);
    let main = col(r);
    let second = match r.below(3) { 0 => None, 1 => Some(!main), _ => Some(main) };
    let mut first: Vec<(P, Color)> = vec![];
    let mut late: Vec<(P, Color)> = vec![];
    let b = Grid::new(h, w);
    for p in b.points() {
        let k = if vertical { p.1 } else { p.0 } as usize;
        if k % period == 0 {
            if let Some(c) = second { if r.chance(4, 5) { late.push((p, c)); } }
        } else if r.chance(49, 50) {
            first.push((p, main));
        }
    }
    if r.chance(1, 2) { for i in (1..first.len()).rev() { let j = r.below(i + 1); first.swap(i, j); } }
    if r.chance(1, 4) { first.reverse(); }
    for i in (1..late.len()).rev() { let j = r.below(i + 1); late.swap(i, j); }
    let mut ops: Vec<Op> = first.iter().map(|(p, c)| Op::Push(*p, *c)).collect();
    let n = late.len();
    for (i, (p, c)) in late.into_iter().enumerate() {
        ops.push(Op::Push(p, c));
        if i + 1 == n / 2 && r.chance(1, 3) { if let Some((q, _)) = first.first() { ops.push(Op::Remove(*q)); } }
    }
    if r.chance(1, 2) && !first.is_empty() { ops.push(Op::Remove(first[r.below(first.len())].0)); ops.push(Op::Push(first[0].0, main)); }
    Trace { game: false, h, w, illegal: 0, score: 0, komi: 0.0, setup: vec![], ops }
}

/// Two blocks of one colour, joined by one stone into a group of a round number of stones (or one more or less).
fn exact(r: &mut Rng) -> Trace {
    let n = *r.pick(&[64usize, 128, 255, 256, 257, 320, 127, 129, 192]);
    let c = col(r);
    let k = 1 + r.below(17) as u8;
    let (mut left, mut right): (Vec<P>, Vec<P>) = (vec![], vec![]);
    for i in 0..19u8 { for j in 0..19u8 { if j < k { left.push((i, j)) } else if j > k { right.push((i, j)) } } }
    let l = left.len().min(n - 2).min(if r.chance(1, 2) { n } else { n / 2 });
    let m = right.len().min(n - 1 - l);
    left.truncate(l);
    right.truncate(m);
    if r.chance(1, 2) { left.reverse() }
    if r.chance(1, 2) { right.reverse() }
    let mut ops: Vec<Op> = if r.chance(1, 2) { left.iter().chain(right.iter()).map(|&p| Op::Push(p, c)).collect() } else { right.iter().chain(left.iter()).map(|&p| Op::Push(p, c)).collect() };
    ops.push(Op::Push((0, k), c));
    ops.push(Op::Push((18, k), !c));
    if r.chance(1, 2) { ops.push(Op::Push((1, k), c)); ops.push(Op::Remove((0, k))); }
    Trace { game: false, h: 19, w: 19, illegal: 0, score: 0, komi: 0.0, setup: vec![], ops }
}

pub fn board(r: &mut Rng) -> Trace {
    let (h, w) = dim(r);
    let mut b = Grid::new(h, w);
    let n = if h as usize * w as usize > 60 { 10 + r.below(120) } else { 1 + r.below(60) };
    let mut ops = vec![];
    let bias = if r.chance(1, 2) { Some(col(r)) } else { None };
    for _ in 0..n {
        let pts = b.points();
        let full: Vec<P> = pts.iter().cloned().filter(|&p| b.at(p).is_some()).collect();
        let free: Vec<P> = pts.iter().cloned().filter(|&p| b.at(p).is_none()).collect();
        if (r.chance(1, 6) || free.is_empty()) && !full.is_empty() {
            let p = *r.pick(&full);
            for q in b.region(p) { b.set(q, None) }
            ops.push(Op::Remove(p));
        } else if !free.is_empty() {
            let p = *r.pick(&free);
            let c = match bias { Some(c) if r.chance(3, 4) => c, _ => col(r) };
            b.set(p, Some(c));
            ops.push(Op::Push(p, c));
        }
    }
    Trace { game: false, h, w, illegal: 0, score: 0, komi: 0.0, setup: vec![], ops }
}

pub fn game(prop: &str, r: &mut Rng) -> Trace {
    let (mut h, mut w) = dim(r);
    if ["C07", "C08", "C09", "C19", "C18", "C06"].contains(&prop) && h as usize * w as usize > 100 && r.chance(9, 10) {
        h = 2 + r.below(3) as u8; w = 2 + r.below(3) as u8;
    }
    let illegal = if prop == "C08" {
        *r.pick(&[2u32, 3, 6, 7])
    } else if prop == "C07" {
        *r.pick(&[1u32, 5, 5, 9, 13])
    } else {
        *r.pick(&[7u32, 5, 0, 1, 2, 3, 4, 6, 8, 13, 15, 11, 10])
    };
    let komi = *r.pick(&[6.5f32, 7.5, 0.0, 0.5, 7.0, -3.5, 5.0, 1.0, 2.0, 0.25, -0.125, 3.75, 361.0]);
    let mut force: Option<(P, Color)> = None;
    let mut st = if r.chance(1, 12) {
        if h < 5 || w < 5 { h = 5 + r.below(3) as u8; w = 5 + r.below(3) as u8; }
        let (v, p, c) = star(r, h, w);
        force = Some((p, c));
        v
    } else if r.chance(1, if ["C03", "C04", "C06", "C15"].contains(&prop) { 12 } else { 30 }) {
        if r.chance(1, 2) { h = 14 + r.below(6) as u8; w = 14 + r.below(6) as u8; }
        full(r, h, w)
    } else if r.chance(1, 2) { vec![] } else { let f = 20 + r.below(70) as u64; setup(r, h, w, f) };
    let area = h as usize * w as usize;
    let mut b = Grid::new(h, w);
    for (p, c) in &st { b.set(*p, Some(*c)) }
    if !b.all_alive() { st.clear(); b = Grid::new(h, w); force = None; }
    let mut turn = Color::Black;
    let mut passes = 0;
    let mut seen = std::collections::HashSet::new();
    seen.insert(b.clone());
    let mut prev: Option<Grid> = None;
    let n = if area > 60 { 10 + r.below(60) } else { 4 + r.below(70) };
    let mut last: Option<P> = None;
    let mut ops = vec![];
    if let Some((p, c)) = force {
        if c == Color::White { ops.push(Op::Pass); turn = Color::White; passes = 1; }
        if r.chance(9, 10) {
            let (res, _, _, sui) = b.play(p, c, illegal & 4 == 0);
            let own = illegal & 8 != 0 && b.nbrs(p).iter().all(|&n| b.at(n) == Some(c));
            ops.push(Op::Try(p));
            if !(illegal & 4 != 0 && sui || own) {
                prev = Some(b.clone());
                b = res;
                seen.insert(b.clone());
                last = Some(p);
                turn = !turn;
            }
        }
    } else if r.chance(1, 10) {
        let mut v = vec![];
        for p in b.points() { if b.at(p).is_none() && r.chance(1, 8) && v.len() < 9 {
            let mut q = b.clone(); q.set(p, Some(Color::Black));
            if q.all_alive() { v.push(p); b = q; }
        } }
        ops.push(Op::Handicap(v));
        turn = Color::White;
        seen.insert(b.clone());
    }
    for _ in 0..n {
        if passes >= 2 {
            if r.chance(2, 3) { ops.push(Op::Resume); passes = 0; } else { break; }
        }
        if r.chance(1, 25) { ops.push(Op::Pass); turn = !turn; passes += 1; prev = None; continue; }
        if r.chance(1, 200) { ops.push(Op::Resign(col(r))); continue; }
        if r.chance(1, 60) { ops.push(Op::Resume); passes = 0; continue; }
        let mut free: Vec<P> = b.points().into_iter().filter(|&p| b.at(p).is_none()).collect();
        if free.is_empty() { ops.push(Op::Pass); turn = !turn; passes += 1; prev = None; continue; }
        // prefer points where something happens: captures, near the last stone, repetitions
        if let Some(l) = last {
            if r.chance(1, 3) {
                let near: Vec<P> = free.iter().cloned().filter(|p| (p.0 as i32 - l.0 as i32).abs() + (p.1 as i32 - l.1 as i32).abs() <= 2).collect();
                if !near.is_empty() { free = near }
            }
        }
        if area <= 40 && r.chance(1, 3) {
            let cap: Vec<P> = free.iter().cloned().filter(|&p| { let (_, x, y, _) = b.play(p, turn, false); x + y > 0 }).collect();
            if !cap.is_empty() { free = cap }
        }
        let p = *r.pick(&free);
        let (res, _, _, sui) = b.play(p, turn, illegal & 4 == 0);
        let raw = r.chance(1, 30);
        let bad = illegal & 4 != 0 && sui
            || illegal & 1 != 0 && !sui && prev.as_ref() == Some(&res)
            || illegal & 2 != 0 && seen.contains(&res)
            || illegal & 8 != 0 && b.nbrs(p).iter().all(|&n| b.at(n) == Some(turn));
        // a raw play of a forbidden suicide leaves a dead group; rarely, and only for board properties
        if raw && !(illegal & 4 != 0 && sui) {
            ops.push(Op::Raw(p));
        } else {
            ops.push(Op::Try(p));
            if bad { continue; }
        }
        prev = Some(b.clone());
        b = res;
        seen.insert(b.clone());
        last = Some(p);
        turn = !turn;
        passes = 0;
    }
    if r.chance(1, 4) && passes < 2 { ops.push(Op::Pass); ops.push(Op::Pass); }
    Trace { game: true, h, w, illegal, score: r.below(8) as u32, komi, setup: st, ops }
}
