verus! {

impl vstd::std_specs::ops::NotSpecImpl for Color {
    open spec fn obeys_not_spec() -> bool { true }
    open spec fn not_req(self) -> bool { true }
    open spec fn not_spec(self) -> Color { opp(self) }
}

impl<T: Copy> Copy for Point<T> {}
impl<T: Copy> Clone for Point<T> {
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { *self }
}

// ================================================================ geometry
pub open spec fn opp(c: Color) -> Color {
    match c { Color::Black => Color::White, Color::White => Color::Black }
}

pub open spec fn size_ok(s: (u8, u8)) -> bool { s.0 <= 19 && s.1 <= 19 }

pub open spec fn valid(s: (u8, u8), c: (u8, u8)) -> bool { c.0 < s.0 && c.1 < s.1 }

pub open spec fn cells(s: (u8, u8)) -> int { s.0 as int * s.1 as int }

pub open spec fn idx(s: (u8, u8), c: (u8, u8)) -> int { c.0 as int * s.1 as int + c.1 as int }

pub open spec fn coord_of(s: (u8, u8), i: int) -> (u8, u8) { ((i / s.1 as int) as u8, (i % s.1 as int) as u8) }

/// One step up, down, left or right.
pub open spec fn adjc(a: (u8, u8), b: (u8, u8)) -> bool {
    ||| a.0 == b.0 && (a.1 + 1 == b.1 || b.1 + 1 == a.1)
    ||| a.1 == b.1 && (a.0 + 1 == b.0 || b.0 + 1 == a.0)
}

pub open spec fn wsub1(x: u8) -> u8 { if x == 0 { 255u8 } else { (x - 1) as u8 } }

pub open spec fn corner_of(a: (u8, u8), b: (u8, u8)) -> bool {
    (b.0 == a.0 + 1 || b.0 == wsub1(a.0)) && (b.1 == a.1 + 1 || b.1 == wsub1(a.1))
}

pub proof fn lemma_cells(s: (u8, u8))
    requires size_ok(s),
    ensures 0 <= cells(s) <= 361,
{
    assert(0 <= s.0 as int * s.1 as int <= 19 * 19) by (nonlinear_arith)
        requires 0 <= s.0 as int <= 19, 0 <= s.1 as int <= 19;
}

pub proof fn lemma_idx(s: (u8, u8), c: (u8, u8))
    requires size_ok(s), valid(s, c),
    ensures
        0 <= idx(s, c) < cells(s) <= 361,
        coord_of(s, idx(s, c)) == c,
        0 <= c.0 as int * s.1 as int <= 361,
{
    lemma_cells(s);
    let (x, y, w, h) = (c.0 as int, c.1 as int, s.1 as int, s.0 as int);
    assert(0 <= x * w) by (nonlinear_arith) requires x >= 0, w >= 0;
    assert(x * w + y < h * w) by (nonlinear_arith) requires 0 <= x < h, 0 <= y < w;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x * w + y, w, x, y);
}

pub proof fn lemma_coord_of(s: (u8, u8), i: int)
    requires size_ok(s), 0 <= i < cells(s),
    ensures
        s.1 > 0, s.0 > 0,
        valid(s, coord_of(s, i)),
        idx(s, coord_of(s, i)) == i,
        i / s.1 as int <= 255, i % s.1 as int <= 255,
        cells(s) <= 361,
{
    lemma_cells(s);
    let (w, h) = (s.1 as int, s.0 as int);
    assert(w > 0) by (nonlinear_arith) requires 0 <= i < h * w, h >= 0, w >= 0;
    assert(h > 0) by (nonlinear_arith) requires 0 <= i < h * w, h >= 0, w >= 0;
    assert(0 <= i / w < h) by (nonlinear_arith) requires 0 <= i < h * w, w > 0;
    assert(0 <= i % w < w) by (nonlinear_arith) requires 0 <= i, w > 0;
    assert((i / w) * w + i % w == i) by (nonlinear_arith) requires w > 0;
}

pub open spec fn nb4(p: (u8, u8)) -> Seq<(u8, u8)> {
    seq![((p.0 + 1) as u8, p.1), (wsub1(p.0), p.1), (p.0, (p.1 + 1) as u8), (p.0, wsub1(p.1))]
}

pub proof fn lemma_valid_coords(p: (u8, u8), size: (u8, u8), full: Seq<(u8, u8)>, r: Seq<(u8, u8)>, pr: spec_fn((u8, u8)) -> bool, bs: Seq<bool>)
    requires
        size_ok(size), p.0 < 255, p.1 < 255,
        full == nb4(p),
        bs.len() == full.len(),
        forall|i: int| 0 <= i < bs.len() ==> bs[i] == valid(size, full[i]),
        r == keep_by(full, bs),
    ensures
        r.no_duplicates(), r.len() <= 4,
        forall|c: (u8, u8)| #![trigger r.contains(c)] #![trigger valid(size, c)] r.contains(c) <==> valid(size, c) && adjc(p, c),
{
    lemma_keep_by_members(full, bs);
    assert(full.no_duplicates());
    assert forall|c: (u8, u8)| #![trigger r.contains(c)] #![trigger valid(size, c)] r.contains(c) <==> valid(size, c) && adjc(p, c) by {
        if r.contains(c) {
            let j = choose|j: int| 0 <= j < r.len() && r[j] == c;
            let i = choose|i: int| 0 <= i < full.len() && bs[i] && full[i] == r[j];
            assert(valid(size, full[i]));
        }
        if valid(size, c) && adjc(p, c) {
            let i: int = if c.0 == p.0 + 1 { 0 } else if c.0 + 1 == p.0 { 1 } else if c.1 == p.1 + 1 { 2 } else { 3 };
            assert(full[i] == c);
            assert(bs[i]);
        }
    }
}

} // verus!
