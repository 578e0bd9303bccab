use crate::refm::*;
use goban::pieces::stones::Color;

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Push(P, Color),
    Remove(P),
    Try(P),
    Raw(P),
    Pass,
    Resume,
    Resign(Color),
    Handicap(Vec<P>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Trace {
    pub game: bool,
    pub h: u8,
    pub w: u8,
    pub illegal: u32,
    pub score: u32,
    pub komi: f32,
    pub setup: Vec<(P, Color)>,
    pub ops: Vec<Op>,
}

fn cn(c: Color) -> &'static str {
    match c { Color::Black => "B", Color::White => "W" }
}
fn pc(s: &str) -> Color {
    if s == "B" { Color::Black } else { Color::White }
}

impl Trace {
    pub fn text(&self) -> String {
        let mut s = format!(
            "{} {} {} illegal={} score={} komi={}\n",
            if self.game { "game" } else { "board" },
            self.h, self.w, self.illegal, self.score, self.komi
        );
        for (p, c) in &self.setup {
            s += &format!("setup {} {} {}\n", p.0, p.1, cn(*c));
        }
        for o in &self.ops {
            s += &match o {
                Op::Push(p, c) => format!("push {} {} {}\n", p.0, p.1, cn(*c)),
                Op::Remove(p) => format!("remove {} {}\n", p.0, p.1),
                Op::Try(p) => format!("try {} {}\n", p.0, p.1),
                Op::Raw(p) => format!("play {} {}\n", p.0, p.1),
                Op::Pass => "pass\n".into(),
                Op::Resume => "resume\n".into(),
                Op::Resign(c) => format!("resign {}\n", cn(*c)),
                Op::Handicap(v) => {
                    let mut t = String::from("handicap");
                    for p in v { t += &format!(" {} {}", p.0, p.1) }
                    t + "\n"
                }
            };
        }
        s
    }
    pub fn parse(text: &str) -> Option<Trace> {
        let mut t: Option<Trace> = None;
        for line in text.lines() {
            let f: Vec<&str> = line.split_whitespace().collect();
            if f.is_empty() || f[0].starts_with('#') { continue; }
            let n = |i: usize| f[i].parse::<u8>().unwrap();
            match f[0] {
                "game" | "board" => {
                    t = Some(Trace {
                        game: f[0] == "game", h: n(1), w: n(2),
                        illegal: f[3].split('=').nth(1)?.parse().ok()?,
                        score: f[4].split('=').nth(1)?.parse().ok()?,
                        komi: f[5].split('=').nth(1)?.parse().ok()?,
                        setup: vec![], ops: vec![],
                    })
                }
                "setup" => t.as_mut()?.setup.push(((n(1), n(2)), pc(f[3]))),
                "push" => t.as_mut()?.ops.push(Op::Push((n(1), n(2)), pc(f[3]))),
                "remove" => t.as_mut()?.ops.push(Op::Remove((n(1), n(2)))),
                "try" => t.as_mut()?.ops.push(Op::Try((n(1), n(2)))),
                "play" => t.as_mut()?.ops.push(Op::Raw((n(1), n(2)))),
                "pass" => t.as_mut()?.ops.push(Op::Pass),
                "resume" => t.as_mut()?.ops.push(Op::Resume),
                "resign" => t.as_mut()?.ops.push(Op::Resign(pc(f[1]))),
                "handicap" => {
                    let v = f[1..].chunks(2).map(|c| (c[0].parse().unwrap(), c[1].parse().unwrap())).collect();
                    t.as_mut()?.ops.push(Op::Handicap(v))
                }
                _ => {}
            }
        }
        t
    }
}
