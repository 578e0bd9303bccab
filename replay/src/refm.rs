//! Executable form of the specification: a board is just a grid of colours; everything is
//! recomputed from the grid by brute force. Written from the property statements, shares no code
//! with the library.
use goban::pieces::stones::Color;
use std::collections::BTreeSet;

pub type P = (u8, u8);

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Grid {
    pub h: u8,
    pub w: u8,
    pub c: Vec<Option<Color>>,
}

impl Grid {
    pub fn new(h: u8, w: u8) -> Self {
        Grid { h, w, c: vec![None; h as usize * w as usize] }
    }
    pub fn ix(&self, p: P) -> usize {
        p.0 as usize * self.w as usize + p.1 as usize
    }
    pub fn pt(&self, i: usize) -> P {
        ((i / self.w as usize) as u8, (i % self.w as usize) as u8)
    }
    pub fn at(&self, p: P) -> Option<Color> {
        self.c[self.ix(p)]
    }
    pub fn set(&mut self, p: P, c: Option<Color>) {
        let i = self.ix(p);
        self.c[i] = c;
    }
    pub fn points(&self) -> Vec<P> {
        (0..self.c.len()).map(|i| self.pt(i)).collect()
    }
    pub fn on(&self, x: i32, y: i32) -> bool {
        x >= 0 && y >= 0 && x < self.h as i32 && y < self.w as i32
    }
    pub fn nbrs(&self, p: P) -> Vec<P> {
        let (x, y) = (p.0 as i32, p.1 as i32);
        [(x + 1, y), (x - 1, y), (x, y + 1), (x, y - 1)]
            .into_iter()
            .filter(|&(a, b)| self.on(a, b))
            .map(|(a, b)| (a as u8, b as u8))
            .collect()
    }
    /// connected same-content region containing p
    pub fn region(&self, p: P) -> BTreeSet<P> {
        self.flood(p).into_iter().collect()
    }
    fn flood(&self, p: P) -> Vec<P> {
        let col = self.at(p);
        let mut seen = vec![false; self.c.len()];
        let mut out = vec![];
        let mut st = vec![p];
        seen[self.ix(p)] = true;
        while let Some(q) = st.pop() {
            out.push(q);
            for n in self.nbrs(q) {
                let i = self.ix(n);
                if self.c[i] == col && !seen[i] {
                    seen[i] = true;
                    st.push(n);
                }
            }
        }
        out
    }
    /// for each cell the number of its group of stones (none: usize::MAX), and for each group its colour, size and whether it has a liberty
    pub fn labels(&self) -> (Vec<usize>, Vec<(Color, u32, bool)>) {
        let mut lab = vec![usize::MAX; self.c.len()];
        let mut gs: Vec<(Color, u32, bool)> = vec![];
        for i in 0..self.c.len() {
            if let (Some(c), usize::MAX) = (self.c[i], lab[i]) {
                let k = gs.len();
                gs.push((c, 0, false));
                lab[i] = k;
                let mut st = vec![i];
                while let Some(q) = st.pop() {
                    gs[k].1 += 1;
                    for n in self.nbrs(self.pt(q)) {
                        let j = self.ix(n);
                        match self.c[j] {
                            None => gs[k].2 = true,
                            Some(d) if d == c && lab[j] == usize::MAX => { lab[j] = k; st.push(j) }
                            _ => {}
                        }
                    }
                }
            }
        }
        (lab, gs)
    }
    pub fn libs(&self, g: &BTreeSet<P>) -> BTreeSet<P> {
        g.iter().flat_map(|&p| self.nbrs(p)).filter(|&n| self.at(n).is_none()).collect()
    }
    pub fn groups(&self) -> Vec<(Color, BTreeSet<P>)> {
        let mut seen = BTreeSet::new();
        let mut r = vec![];
        for p in self.points() {
            if let Some(c) = self.at(p) {
                if !seen.contains(&p) {
                    let g = self.region(p);
                    seen.extend(g.iter().cloned());
                    r.push((c, g));
                }
            }
        }
        r
    }
    pub fn all_alive(&self) -> bool {
        self.labels().1.iter().all(|g| g.2)
    }
    fn clear(&mut self, lab: &[usize], k: usize) {
        for i in 0..self.c.len() { if lab[i] == k { self.c[i] = None } }
    }
    /// the play of the property C03: (board, removed white, removed black, own group dead before suicide removal)
    pub fn play(&self, p: P, c: Color, suicide_allowed: bool) -> (Grid, u32, u32, bool) {
        let mut b = self.clone();
        b.set(p, Some(c));
        let (mut rw, mut rb) = (0, 0);
        let (lab, gs) = b.labels();
        for (k, g) in gs.iter().enumerate() {
            if g.0 != c && !g.2 {
                b.clear(&lab, k);
                if g.0 == Color::White { rw += g.1 } else { rb += g.1 }
            }
        }
        let (lab, gs) = b.labels();
        let own = lab[b.ix(p)];
        let suicide = !gs[own].2;
        if suicide && suicide_allowed {
            b.clear(&lab, own);
            if c == Color::White { rw += gs[own].1 } else { rb += gs[own].1 }
        }
        (b, rw, rb, suicide)
    }
    pub fn count(&self, c: Color) -> u32 {
        self.c.iter().filter(|&&x| x == Some(c)).count() as u32
    }
    /// (black, white) territory
    pub fn territory(&self) -> (BTreeSet<P>, BTreeSet<P>) {
        let (mut tb, mut tw) = (BTreeSet::new(), BTreeSet::new());
        let mut seen: BTreeSet<P> = BTreeSet::new();
        for p in self.points() {
            if self.at(p).is_none() && !seen.contains(&p) {
                let r = self.region(p);
                seen.extend(r.iter().cloned());
                let mut b = false;
                let mut w = false;
                for &q in &r {
                    for n in self.nbrs(q) {
                        b |= self.at(n) == Some(Color::Black);
                        w |= self.at(n) == Some(Color::White);
                    }
                }
                if b && !w { tb.extend(r.iter().cloned()) }
                if w && !b { tw.extend(r.iter().cloned()) }
            }
        }
        (tb, tw)
    }
    pub fn hash(&self) -> u64 {
        let mut h = 0;
        for (i, c) in self.c.iter().enumerate() {
            if let Some(c) = c {
                h ^= goban::pieces::zobrist::index_zobrist(i, *c);
            }
        }
        h
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        for i in 0..self.h {
            for j in 0..self.w {
                s.push(match self.at((i, j)) { None => '.', Some(Color::Black) => 'X', Some(Color::White) => 'O' });
            }
            s.push('/');
        }
        s
    }
}
