verus! {

// ================================================================ putting stones
pub open spec fn colat(v: GV, c: (u8, u8)) -> Option<Color> { col(v, idx(v.size, c)) }

pub open spec fn pt(v: GV, c: (u8, u8)) -> Point { Point { coord: c, color: colat(v, c) } }

pub open spec fn stn(c: (u8, u8), x: Color) -> Stone { Point { coord: c, color: x } }

pub open spec fn stone_of(p: Point) -> Option<Stone> {
    match p.color { Some(c) => Some(Point { coord: p.coord, color: c }), None => None }
}

/// The on-board points are empty and pairwise distinct.
pub open spec fn can_put(cs: Seq<Option<Color>>, s: (u8, u8), pts: Seq<(u8, u8)>) -> bool {
    &&& forall|i: int| 0 <= i < pts.len() && valid(s, #[trigger] pts[i]) ==> cs[idx(s, pts[i])] is None
    &&& pts.no_duplicates()
}

pub open spec fn put_all(cs: Seq<Option<Color>>, s: (u8, u8), pts: Seq<(u8, u8)>, c: Color) -> Seq<Option<Color>>
    decreases pts.len(),
{
    if pts.len() == 0 { cs } else { put_all(cs, s, pts.drop_last(), c).update(idx(s, pts.last()), Some(c)) }
}

pub proof fn lemma_put_at(cs: Seq<Option<Color>>, s: (u8, u8), pts: Seq<(u8, u8)>, c: Color)
    requires size_ok(s), cs.len() == cells(s), forall|i: int| 0 <= i < pts.len() ==> valid(s, #[trigger] pts[i]),
    ensures
        put_all(cs, s, pts, c).len() == cells(s),
        forall|q: (u8, u8)| valid(s, q) ==> #[trigger] put_all(cs, s, pts, c)[idx(s, q)] == (if pts.contains(q) { Some(c) } else { cs[idx(s, q)] }),
    decreases pts.len(),
{
    if pts.len() > 0 {
        let ps = pts.drop_last();
        assert forall|i: int| 0 <= i < ps.len() implies valid(s, #[trigger] ps[i]) by { assert(ps[i] == pts[i]); }
        lemma_put_at(cs, s, ps, c);
        let l = pts.last();
        assert(valid(s, pts[pts.len() - 1]));
        lemma_idx(s, l);
        assert forall|q: (u8, u8)| valid(s, q) implies #[trigger] put_all(cs, s, pts, c)[idx(s, q)] == (if pts.contains(q) { Some(c) } else { cs[idx(s, q)] }) by {
            lemma_idx(s, q);
            assert(pts.contains(q) <==> ps.contains(q) || q == l) by {
                assert(pts =~= ps.push(l));
                if ps.contains(q) { let k = choose|k: int| 0 <= k < ps.len() && ps[k] == q; assert(pts[k] == q); }
                if q == l { assert(pts[pts.len() - 1] == q); }
                if pts.contains(q) && q != l { let k = choose|k: int| 0 <= k < pts.len() && pts[k] == q; assert(ps[k] == q); }
            }
            if q != l { assert(idx(s, q) != idx(s, l)) by { if idx(s, q) == idx(s, l) { assert(coord_of(s, idx(s, q)) == coord_of(s, idx(s, l))); } } }
        }
    }
}

pub proof fn lemma_put_step(cs: Seq<Option<Color>>, s: (u8, u8), pts: Seq<(u8, u8)>, c: Color, n: int, ds: Seq<Option<Color>>)
    requires
        size_ok(s), cs.len() == cells(s), can_put(cs, s, pts), 0 <= n < pts.len(),
        forall|i: int| 0 <= i < n ==> valid(s, #[trigger] pts[i]),
        ds == put_all(cs, s, pts.subrange(0, n), c),
    ensures valid(s, pts[n]) ==> ds[idx(s, pts[n])] is None,
{
    let ps = pts.subrange(0, n);
    if valid(s, pts[n]) {
        lemma_put_at(cs, s, ps, c);
        if ps.contains(pts[n]) { let k = choose|k: int| 0 <= k < ps.len() && ps[k] == pts[n]; assert(pts[k] == pts[n]); }
        assert(ds[idx(s, pts[n])] == cs[idx(s, pts[n])]);
    }
}

pub proof fn lemma_col_id(v: GV, c: (u8, u8))
    requires S(v),
    ensures valid(v.size, c) ==> 0 <= idx(v.size, c) < cells(v.size) && cols(v)[idx(v.size, c)] == col(v, idx(v.size, c)), col(v, idx(v.size, c)) is None <==> id(v, idx(v.size, c)) == -1,
{
    if valid(v.size, c) { lemma_idx(v.size, c); }
}

// ================================================================ neighbours
/// The neighbours of p with their content, each once.
pub open spec fn nb_points(v: GV, p: (u8, u8), ps: Seq<Point>) -> bool {
    &&& ps.no_duplicates()
    &&& forall|i: int| 0 <= i < ps.len() ==> valid(v.size, (#[trigger] ps[i]).coord) && adjc(p, ps[i].coord) && ps[i] == pt(v, ps[i].coord)
    &&& forall|c: (u8, u8)| valid(v.size, c) && adjc(p, c) ==> ps.contains(#[trigger] pt(v, c))
}

pub proof fn lemma_nb_points(v: GV, p: (u8, u8), cs: Seq<(u8, u8)>, ps: Seq<Point>)
    requires nbs_of(v.size, p, cs), cs.len() == ps.len(), forall|i: int| #![trigger cs[i]] #![trigger ps[i]] 0 <= i < cs.len() ==> ps[i] == pt(v, cs[i]),
    ensures nb_points(v, p, ps),
{
    assert forall|i: int| 0 <= i < ps.len() implies valid(v.size, (#[trigger] ps[i]).coord) && adjc(p, ps[i].coord) && ps[i] == pt(v, ps[i].coord) by { assert(cs.contains(cs[i])); }
    assert forall|i: int, j: int| 0 <= i < ps.len() && 0 <= j < ps.len() && i != j implies ps[i] != ps[j] by { assert(cs[i] != cs[j]); }
    assert forall|c: (u8, u8)| valid(v.size, c) && adjc(p, c) implies ps.contains(#[trigger] pt(v, c)) by {
        assert(cs.contains(c));
        let k = choose|k: int| 0 <= k < cs.len() && cs[k] == c;
        assert(ps[k] == pt(v, c));
    }
}

pub open spec fn nb_stones(v: GV, p: (u8, u8), ps: Seq<Stone>) -> bool {
    &&& ps.no_duplicates()
    &&& forall|i: int| 0 <= i < ps.len() ==> valid(v.size, (#[trigger] ps[i]).coord) && adjc(p, ps[i].coord) && colat(v, ps[i].coord) == Some(ps[i].color)
    &&& forall|c: (u8, u8), x: Color| valid(v.size, c) && adjc(p, c) && colat(v, c) == Some(x) ==> ps.contains(#[trigger] stn(c, x))
}

pub proof fn lemma_somes_nodup<T>(os: Seq<Option<T>>)
    requires forall|i: int, j: int| #![trigger os[i], os[j]] 0 <= i < j < os.len() && os[i] is Some && os[j] is Some ==> os[i] != os[j],
    ensures somes(os).no_duplicates(),
    decreases os.len(),
{
    if os.len() > 0 {
        let t = os.drop_last();
        assert forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < j < t.len() && t[i] is Some && t[j] is Some implies t[i] != t[j] by { assert(os[i] == t[i] && os[j] == t[j]); }
        lemma_somes_nodup(t);
        lemma_somes_members(t);
        let q = somes(t);
        if os.last() is Some {
            assert forall|j: int| 0 <= j < q.len() implies q[j] != os.last().unwrap() by {
                let i = choose|i: int| 0 <= i < t.len() && t[i] == Some(q[j]);
                assert(os[i] == t[i] && os[os.len() - 1] == os.last());
            }
        }
    }
}

pub proof fn lemma_nb_stones(v: GV, p: (u8, u8), ps: Seq<Point>, os: Seq<Option<Stone>>, rs: Seq<Stone>)
    requires nb_points(v, p, ps), ps.len() <= 4, os.len() == ps.len(), rs == somes(os),
        forall|i: int| #![trigger os[i]] #![trigger ps[i]] 0 <= i < ps.len() ==> os[i] == stone_of(ps[i]),
    ensures nb_stones(v, p, rs), rs.len() <= 4,
{
    lemma_somes_members(os);
    assert forall|i: int, j: int| #![trigger os[i], os[j]] 0 <= i < j < os.len() && os[i] is Some && os[j] is Some implies os[i] != os[j] by { assert(ps[i] != ps[j]); }
    lemma_somes_nodup(os);
    assert forall|i: int| 0 <= i < rs.len() implies valid(v.size, (#[trigger] rs[i]).coord) && adjc(p, rs[i].coord) && colat(v, rs[i].coord) == Some(rs[i].color) by {
        let k = choose|k: int| 0 <= k < os.len() && os[k] == Some(rs[i]);
        assert(ps[k] == pt(v, ps[k].coord));
    }
    assert forall|c: (u8, u8), x: Color| valid(v.size, c) && adjc(p, c) && colat(v, c) == Some(x) implies rs.contains(#[trigger] stn(c, x)) by {
        assert(ps.contains(pt(v, c)));
        let k = choose|k: int| 0 <= k < ps.len() && ps[k] == pt(v, c);
        assert(os[k] is Some);
    }
}

/// gs are the groups adjacent to cell k, each once (cs are their numbers).
pub open spec fn nb_groups(v: GV, k: int, cs: Seq<usize>, gs: Seq<&Group>) -> bool {
    &&& cs.no_duplicates()
    &&& forall|c: usize| #![trigger cs.contains(c)] cs.contains(c) <==> touches(v, c as int, k)
    &&& gs.len() == cs.len()
    &&& forall|i: int| #![trigger cs[i]] #![trigger gs[i]] 0 <= i < cs.len() ==> *gs[i] == ch(v, cs[i] as int)
}

/// The empty neighbours of p, each once.
pub open spec fn libs_at(v: GV, p: (u8, u8), r: Seq<(u8, u8)>) -> bool {
    &&& r.no_duplicates()
    &&& forall|c: (u8, u8)| #![trigger r.contains(c)] #![trigger valid(v.size, c)] r.contains(c) <==> valid(v.size, c) && adjc(p, c) && colat(v, c) is None
}

pub open spec fn breathes_at(v: GV, p: (u8, u8)) -> bool {
    exists|c: (u8, u8)| valid(v.size, c) && #[trigger] adjc(p, c) && colat(v, c) is None
}

pub proof fn lemma_touch_live(v: GV, k: int)
    requires S(v),
    ensures forall|c: usize| #[trigger] touches(v, c as int, k) ==> live(v, c as int),
{
    assert forall|c: usize| #[trigger] touches(v, c as int, k) implies live(v, c as int) by {
        let j = choose|j: int| #[trigger] adj(v.size, k, j) && id(v, j) == c as int;
        lemma_cells(v.size);
        assert(live(v, id(v, j)));
    }
}

pub proof fn lemma_get_liberties(v: GV, p: (u8, u8), cs: Seq<(u8, u8)>, bs: Seq<bool>, r: Seq<(u8, u8)>)
    requires nbs_of(v.size, p, cs), cs.len() <= 4, bs.len() == cs.len(), r == keep_by(cs, bs),
        forall|i: int| #![trigger bs[i]] #![trigger cs[i]] 0 <= i < cs.len() ==> bs[i] == (colat(v, cs[i]) is None),
    ensures libs_at(v, p, r), r.len() <= 4,
{
    lemma_keep_by_members(cs, bs);
    assert forall|c: (u8, u8)| #![trigger r.contains(c)] #![trigger valid(v.size, c)] r.contains(c) <==> valid(v.size, c) && adjc(p, c) && colat(v, c) is None by {
        if r.contains(c) {
            let j = choose|j: int| 0 <= j < r.len() && r[j] == c;
            let i = choose|i: int| 0 <= i < cs.len() && bs[i] && cs[i] == r[j];
            assert(cs.contains(c));
        }
        if valid(v.size, c) && adjc(p, c) && colat(v, c) is None {
            assert(cs.contains(c));
            let i = choose|i: int| 0 <= i < cs.len() && cs[i] == c;
            assert(bs[i]);
        }
    }
}

// ================================================================ listings
pub open spec fn cell_col(v: GV, x: Option<NonMaxU16>) -> Option<Color> {
    match x { Some(n) => Some(ch(v, n.n as int).color), None => None }
}

/// The coordinates of the cells with this content, in row-major order.
pub open spec fn coord_opts(v: GV, x: Option<Color>) -> Seq<Option<(u8, u8)>> {
    Seq::new(cells(v.size) as nat, |i: int| if col(v, i) == x { Some(coord_of(v.size, i)) } else { None })
}

pub open spec fn coord_list(v: GV, x: Option<Color>) -> Seq<(u8, u8)> { somes(coord_opts(v, x)) }

pub open spec fn stone_at(v: GV, i: int) -> Option<Stone> {
    match col(v, i) { Some(c) => Some(Point { coord: coord_of(v.size, i), color: c }), None => None }
}

pub open spec fn stone_list(v: GV) -> Seq<Stone> { somes(Seq::new(cells(v.size) as nat, |i: int| stone_at(v, i))) }

pub open spec fn empty_idx_list(v: GV) -> Seq<usize> {
    somes(Seq::new(cells(v.size) as nat, |i: int| if id(v, i) == -1 { Some(i as usize) } else { None }))
}

pub proof fn lemma_somes_len<T>(s: Seq<Option<T>>)
    ensures somes(s).len() <= s.len(),
    decreases s.len(),
{
    if s.len() > 0 { lemma_somes_len(s.drop_last()); }
}

pub proof fn lemma_somes_step<T>(s: Seq<Option<T>>, n: int)
    requires 0 <= n < s.len(),
    ensures somes(s.subrange(0, n + 1)) == (match s[n] { Some(x) => somes(s.subrange(0, n)).push(x), None => somes(s.subrange(0, n)) }),
{
    assert(s.subrange(0, n + 1).drop_last() =~= s.subrange(0, n));
}

pub proof fn lemma_somes_tail<T>(s: Seq<Option<T>>, n: int)
    requires 0 <= n <= s.len(), forall|i: int| n <= i < s.len() ==> s[i] is None,
    ensures somes(s) == somes(s.subrange(0, n)),
    decreases s.len(),
{
    if s.len() > n {
        lemma_somes_tail(s.drop_last(), n);
        assert(s.drop_last().subrange(0, n) =~= s.subrange(0, n));
        assert(s[s.len() - 1] is None);
    } else {
        assert(s.subrange(0, n) =~= s);
    }
}

pub proof fn lemma_lookup_cell(v: GV, i: int)
    requires S(v), 0 <= i < cells(v.size),
    ensures
        v.board[i] is None <==> id(v, i) == -1,
        v.board[i] is Some ==> v.board[i].unwrap().n == id(v, i) && live(v, id(v, i)),
        col(v, i) == cell_col(v, v.board[i]),
{
    lemma_cells(v.size);
    if id(v, i) != -1 { assert(live(v, id(v, i))); }
}

pub proof fn lemma_board_live(v: GV)
    requires S(v),
    ensures forall|i: int| 0 <= i < 361 && (#[trigger] v.board[i]) is Some ==> i < cells(v.size) && live(v, v.board[i].unwrap().n as int),
{
    assert forall|i: int| 0 <= i < 361 && (#[trigger] v.board[i]) is Some implies i < cells(v.size) && live(v, v.board[i].unwrap().n as int) by {
        assert(id(v, i) != -1);
        assert(live(v, id(v, i)));
        lemma_chain(v, id(v, i));
    }
}

pub proof fn lemma_to_vec(v: GV, r: Seq<Option<Color>>)
    requires S(v), r.len() == cells(v.size), forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == cell_col(v, v.board[i]),
    ensures r == cols(v),
{
    assert forall|i: int| 0 <= i < r.len() implies r[i] == cols(v)[i] by { lemma_lookup_cell(v, i); }
    assert(r =~= cols(v));
}

pub proof fn lemma_rows(s: (u8, u8))
    requires size_ok(s), s.1 > 0,
    ensures cells(s) / s.1 as int == s.0,
{
    assert(cells(s) == s.0 as int * s.1 as int);
    vstd::arithmetic::div_mod::lemma_div_multiples_vanish(s.0 as int, s.1 as int);
    assert(s.0 as int * s.1 as int == s.1 as int * s.0 as int) by (nonlinear_arith);
}

pub proof fn lemma_row(v: GV, k: int)
    requires S(v), 0 <= k, 0 <= k * v.size.1, k * v.size.1 + v.size.1 <= cells(v.size),
    ensures
        (k + 1) * v.size.1 == k * v.size.1 + v.size.1,
        forall|j: int| 0 <= j < v.size.1 ==> (#[trigger] v.board.subrange(0, cells(v.size)).subrange(k * v.size.1, (k + 1) * v.size.1)[j]) is Some ==> live(v, v.board.subrange(0, cells(v.size)).subrange(k * v.size.1, (k + 1) * v.size.1)[j].unwrap().n as int),
{
    assert((k + 1) * v.size.1 == k * v.size.1 + v.size.1) by (nonlinear_arith);
    lemma_cells(v.size);
    lemma_board_live(v);
}

pub proof fn lemma_row_done(v: GV, k: int, line: Seq<Option<NonMaxU16>>, r: Seq<Option<Color>>)
    requires S(v), 0 <= k, 0 <= k * v.size.1, k * v.size.1 + v.size.1 <= cells(v.size),
        line == v.board.subrange(0, cells(v.size)).subrange(k * v.size.1, (k + 1) * v.size.1),
        r.len() == line.len(), forall|j: int| #![trigger r[j]] #![trigger line[j]] 0 <= j < r.len() ==> r[j] == cell_col(v, line[j]),
    ensures r == cols(v).subrange(k * v.size.1, (k + 1) * v.size.1),
{
    assert((k + 1) * v.size.1 == k * v.size.1 + v.size.1) by (nonlinear_arith);
    lemma_cells(v.size);
    let q = cols(v).subrange(k * v.size.1, (k + 1) * v.size.1);
    assert forall|j: int| 0 <= j < r.len() implies r[j] == q[j] by {
        lemma_lookup_cell(v, k * v.size.1 + j);
        assert(line[j] == v.board[k * v.size.1 + j]);
    }
    assert(r =~= q);
}

pub proof fn lemma_get_stones(v: GV, r: Seq<Stone>, os: Seq<Option<Stone>>)
    requires S(v), os.len() == 361, forall|i: int| 0 <= i < 361 ==> #[trigger] os[i] == stone_at(v, i), r == somes(os),
    ensures r == stone_list(v),
{
    lemma_cells(v.size);
    lemma_board_live(v);
    let n = cells(v.size);
    assert forall|i: int| n <= i < 361 implies os[i] is None by { assert(v.board[i] is None); assert(os[i] == stone_at(v, i)); }
    lemma_somes_tail(os, n);
    assert(os.subrange(0, n) =~= Seq::new(n as nat, |i: int| stone_at(v, i)));
}

pub proof fn lemma_get_empty_idx(v: GV, r: Seq<usize>, os: Seq<Option<usize>>)
    requires S(v), os.len() == cells(v.size), forall|i: int| 0 <= i < cells(v.size) ==> #[trigger] os[i] == (if id(v, i) == -1 { Some(i as usize) } else { None }), r == somes(os),
    ensures r == empty_idx_list(v),
{
    lemma_cells(v.size);
    assert(os =~= Seq::new(cells(v.size) as nat, |i: int| if id(v, i) == -1 { Some(i as usize) } else { None }));
}

pub proof fn lemma_coords_fit(s: (u8, u8))
    requires size_ok(s),
    ensures cells(s) > 0 ==> s.1 > 0,
{
    if cells(s) > 0 { lemma_coord_of(s, 0); }
}

pub proof fn lemma_get_empty_coords(v: GV, r: Seq<(u8, u8)>, os: Seq<Option<(u8, u8)>>)
    requires S(v), os.len() == cells(v.size), forall|i: int| 0 <= i < cells(v.size) ==> #[trigger] os[i] == (if id(v, i) == -1 { Some(coord_of(v.size, i)) } else { None }), r == somes(os),
    ensures r == coord_list(v, None),
{
    lemma_cells(v.size);
    assert(os =~= coord_opts(v, None));
}

/// What a listing means: the cells of that content, each once, in row-major order.
pub proof fn lemma_coord_list(v: GV, x: Option<Color>)
    requires S(v),
    ensures
        coord_list(v, x).no_duplicates(),
        forall|c: (u8, u8)| #![trigger coord_list(v, x).contains(c)] coord_list(v, x).contains(c) <==> valid(v.size, c) && colat(v, c) == x, // [C14]
        coord_list(v, x).len() <= cells(v.size),
{
    let os = coord_opts(v, x);
    lemma_cells(v.size);
    lemma_somes_members(os);
    assert forall|i: int, j: int| #![trigger os[i], os[j]] 0 <= i < j < os.len() && os[i] is Some && os[j] is Some implies os[i] != os[j] by {
        lemma_coord_of(v.size, i);
        lemma_coord_of(v.size, j);
    }
    lemma_somes_nodup(os);
    assert forall|c: (u8, u8)| #![trigger coord_list(v, x).contains(c)] coord_list(v, x).contains(c) <==> valid(v.size, c) && colat(v, c) == x by {
        if coord_list(v, x).contains(c) {
            let j = choose|j: int| 0 <= j < somes(os).len() && somes(os)[j] == c;
            let i = choose|i: int| 0 <= i < os.len() && os[i] == Some(somes(os)[j]);
            lemma_coord_of(v.size, i);
        }
        if valid(v.size, c) && colat(v, c) == x {
            lemma_idx(v.size, c);
            assert(os[idx(v.size, c)] == Some(c));
        }
    }
}

// ================================================================ printing
pub open spec fn glyph(g: char, x: Option<Color>) -> bool {
    match x {
        Some(Color::Black) => g == '●',
        Some(Color::White) => g == '○',
        None => g == '┏' || g == '┓' || g == '┗' || g == '┛' || g == '┯' || g == '┷' || g == '┠' || g == '┨' || g == '┼',
    }
}

#[verifier::opaque]
pub open spec fn rows_ok(v: GV, b: Seq<char>, n: int) -> bool {
    forall|i: int| 0 <= i < n ==> #[trigger] row_ok(v, b, i)
}

pub open spec fn row_ok(v: GV, b: Seq<char>, i: int) -> bool {
    &&& b[i * (v.size.1 + 1) + v.size.1] == '\n'
    &&& forall|j: int| 0 <= j < v.size.1 ==> glyph(#[trigger] b[i * (v.size.1 + 1) + j], col(v, i * v.size.1 + j))
}

pub open spec fn rendered(v: GV, b: Seq<char>) -> bool {
    b.len() == v.size.0 * (v.size.1 + 1) && forall|i: int| 0 <= i < v.size.0 ==> #[trigger] row_ok(v, b, i)
}

pub proof fn lemma_rows_all(v: GV, b: Seq<char>)
    ensures rows_ok(v, b, 0), rows_ok(v, b, v.size.0 as int) && b.len() == v.size.0 * (v.size.1 + 1) ==> rendered(v, b),
{ reveal(rows_ok); }

pub proof fn lemma_rows_step(v: GV, b0: Seq<char>, b1: Seq<char>, i: int)
    requires
        rows_ok(v, b0, i), 0 <= i, b0.len() == i * (v.size.1 + 1), b1.len() == b0.len() + v.size.1 + 1,
        forall|k: int| 0 <= k < b0.len() ==> #[trigger] b1[k] == b0[k],
        row_ok(v, b1, i),
    ensures rows_ok(v, b1, i + 1),
{
    reveal(rows_ok);
    let w = v.size.1 as int;
    assert forall|k: int| 0 <= k < i + 1 implies #[trigger] row_ok(v, b1, k) by {
        if k < i {
            assert(row_ok(v, b0, k));
            assert(k * (w + 1) + w < i * (w + 1) && 0 <= k * (w + 1)) by (nonlinear_arith) requires 0 <= k < i, w >= 0;
            assert forall|j: int| 0 <= j < w implies glyph(#[trigger] b1[k * (w + 1) + j], col(v, k * w + j)) by { assert(b0[k * (w + 1) + j] == b1[k * (w + 1) + j]); }
        }
    }
}


// ================================================================ a board from a vector
pub proof fn lemma_square_grid(n: int)
    requires exists|t: int| 0 <= t <= 19 && n == #[trigger] square(t),
    ensures grid(n as real), 0 <= n <= 361,
{
    let t = choose|t: int| 0 <= t <= 19 && n == #[trigger] square(t);
    assert(0 <= t * t <= 361) by (nonlinear_arith) requires 0 <= t <= 19;
    lemma_grid_int(n);
}

pub proof fn lemma_square(s: u8, n: int)
    requires forall|t: int| 0 <= t <= 19 && n == #[trigger] square(t) ==> s == t, exists|t: int| 0 <= t <= 19 && n == #[trigger] square(t),
    ensures s <= 19, cells((s, s)) == n,
{
    let t = choose|t: int| 0 <= t <= 19 && n == #[trigger] square(t);
    assert(s == t);
}

pub proof fn lemma_new_inv(v: GV)
    requires S(v), forall|i: int| 0 <= i < 361 ==> #[trigger] id(v, i) == -1, forall|c: int| !(#[trigger] live(v, c)), v.z == 0,
    ensures inv(v), forall|i: int| 0 <= i < cells(v.size) ==> #[trigger] cols(v)[i] is None, cols(v) == empty_cols(v.size),
{
    lemma_cells(v.size);
    lemma_empty_hash(cols(v), cells(v.size));
    assert forall|i: int, j: int| #[trigger] adj(v.size, i, j) implies id(v, i) == -1 by { }
    assert(cols(v) =~= empty_cols(v.size));
}

pub open spec fn empty_cols(s: (u8, u8)) -> Seq<Option<Color>> { Seq::new(cells(s) as nat, |i: int| None::<Color>) }

pub open spec fn placing(stones: Seq<Option<Color>>, s: (u8, u8), i: int) -> Option<((u8, u8), Color)> {
    match stones[i] { Some(c) => Some((coord_of(s, i), c)), None => None }
}

/// l lists the stones of the vector with their coordinates, each once.
pub open spec fn listed(stones: Seq<Option<Color>>, s: (u8, u8), l: Seq<((u8, u8), Color)>) -> bool {
    &&& forall|k: int| 0 <= k < l.len() ==> valid(s, (#[trigger] l[k]).0) && stones[idx(s, l[k].0)] == Some(l[k].1)
    &&& forall|j: int, k: int| 0 <= j < l.len() && 0 <= k < l.len() && j != k ==> (#[trigger] l[j]).0 != (#[trigger] l[k]).0
    &&& forall|i: int| 0 <= i < stones.len() && (#[trigger] stones[i]) is Some ==> l.contains((coord_of(s, i), stones[i].unwrap()))
}

pub open spec fn seen(s: (u8, u8), l: Seq<((u8, u8), Color)>, n: int, i: int) -> bool {
    exists|k: int| 0 <= k < n && (#[trigger] l[k]).0 == coord_of(s, i)
}

pub open spec fn seen_cols(stones: Seq<Option<Color>>, s: (u8, u8), l: Seq<((u8, u8), Color)>, n: int) -> Seq<Option<Color>> {
    Seq::new(cells(s) as nat, |i: int| if seen(s, l, n, i) { stones[i] } else { None })
}

pub proof fn lemma_listed(stones: Seq<Option<Color>>, s: (u8, u8), os: Seq<Option<((u8, u8), Color)>>, l: Seq<((u8, u8), Color)>)
    requires size_ok(s), stones.len() == cells(s), os.len() == stones.len(), l == somes(os), forall|i: int| 0 <= i < os.len() ==> #[trigger] os[i] == placing(stones, s, i),
    ensures listed(stones, s, l),
{
    lemma_somes_members(os);
    assert forall|i: int, j: int| #![trigger os[i], os[j]] 0 <= i < j < os.len() && os[i] is Some && os[j] is Some implies os[i] != os[j] by { lemma_coord_of(s, i); lemma_coord_of(s, j); }
    lemma_somes_nodup(os);
    assert forall|k: int| 0 <= k < l.len() implies valid(s, (#[trigger] l[k]).0) && stones[idx(s, l[k].0)] == Some(l[k].1) by {
        let i = choose|i: int| 0 <= i < os.len() && os[i] == Some(l[k]);
        lemma_coord_of(s, i);
    }
    assert forall|j: int, k: int| 0 <= j < l.len() && 0 <= k < l.len() && j != k implies (#[trigger] l[j]).0 != (#[trigger] l[k]).0 by { assert(l[j] != l[k]); }
    assert forall|i: int| 0 <= i < stones.len() && (#[trigger] stones[i]) is Some implies l.contains((coord_of(s, i), stones[i].unwrap())) by { assert(os[i] is Some); }
}

pub proof fn lemma_seen_step(stones: Seq<Option<Color>>, s: (u8, u8), l: Seq<((u8, u8), Color)>, n: int)
    requires size_ok(s), stones.len() == cells(s), listed(stones, s, l), 0 <= n < l.len(),
    ensures
        valid(s, l[n].0), 0 <= idx(s, l[n].0) < cells(s),
        seen_cols(stones, s, l, n)[idx(s, l[n].0)] is None,
        seen_cols(stones, s, l, n + 1) == seen_cols(stones, s, l, n).update(idx(s, l[n].0), Some(l[n].1)),
{
    let p = idx(s, l[n].0);
    lemma_idx(s, l[n].0);
    assert(!seen(s, l, n, p));
    let a = seen_cols(stones, s, l, n + 1);
    let b = seen_cols(stones, s, l, n).update(p, Some(l[n].1));
    assert forall|i: int| 0 <= i < cells(s) implies a[i] == b[i] by {
        lemma_coord_of(s, i);
        assert(l[n].0 == coord_of(s, i) ==> i == p);
        if i == p { assert(seen(s, l, n + 1, p)); } else { assert(seen(s, l, n + 1, i) <==> seen(s, l, n, i)); }
    }
    assert(a =~= b);
}

pub proof fn lemma_seen_all(stones: Seq<Option<Color>>, s: (u8, u8), l: Seq<((u8, u8), Color)>)
    requires size_ok(s), stones.len() == cells(s), listed(stones, s, l),
    ensures seen_cols(stones, s, l, l.len() as int) == stones,
{
    let a = seen_cols(stones, s, l, l.len() as int);
    assert forall|i: int| 0 <= i < cells(s) implies a[i] == stones[i] by {
        if stones[i] is Some {
            let x = (coord_of(s, i), stones[i].unwrap());
            let k = choose|k: int| 0 <= k < l.len() && l[k] == x;
            assert(seen(s, l, l.len() as int, i));
        }
    }
    assert(a =~= stones);
}

} // verus!
