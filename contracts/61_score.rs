verus! {

// ================================================================ scores
pub open spec fn only(b: bool, n: int) -> int { if b { n } else { 0 } }

pub open spec fn black_points(g: Game, f: ScoreRules) -> int {
    terr_size(g.goban.v(), Color::Black) + only(f.has(ScoreRules::STONES), cnt(gcols(g), Color::Black)) + only(f.has(ScoreRules::PRISONNERS), g.prisoners.0 as int)
}
pub open spec fn white_points(g: Game, f: ScoreRules) -> int {
    terr_size(g.goban.v(), Color::White) + only(f.has(ScoreRules::STONES), cnt(gcols(g), Color::White)) + only(f.has(ScoreRules::PRISONNERS), g.prisoners.1 as int)
}
/// The exact scores.
pub open spec fn black_score(g: Game, f: ScoreRules) -> real { black_points(g, f) as real }
pub open spec fn white_score(g: Game, f: ScoreRules) -> real {
    white_points(g, f) as real + (if f.has(ScoreRules::KOMI) { g.rule.komi.v() } else { 0real })
}
/// The magnitude that rounding errors are relative to; none is known of an infinite or enormous komi.
pub open spec fn mass(g: Game) -> real { 722real + (g.prisoners.0 as real) + (g.prisoners.1 as real) + rabs(g.rule.komi.v()) }
pub open spec fn komi_fin(g: Game) -> bool { g.rule.komi.fin() && rabs(g.rule.komi.v()) <= 100000000000000000000real }
/// Everything is a multiple of 1/4 that floats hold exactly.
pub open spec fn on_quarters(g: Game) -> bool { komi_fin(g) && grid(g.rule.komi.v()) && mass(g) <= 2000000real }

/// r is the float of x to within rounding, and x itself where nothing is rounded.
pub open spec fn score_ok(g: Game, r: F32, x: real) -> bool {
    &&& komi_fin(g) ==> r.fin() && 16777216real * rabs(r.v() - x) <= 8real * mass(g)
    &&& on_quarters(g) ==> r.fin() && r.v() == x && grid(x)
}

/// The result of a counted game with difference d between Black's and White's exact scores.
pub open spec fn verdict_ok(g: Game, e: EndGame, d: real) -> bool {
    &&& komi_fin(g) ==> match e {
        EndGame::Draw => 16777216real * rabs(d) <= 20real * mass(g),
        EndGame::WinnerByScore(Color::Black, m) => 16777216real * d >= -20real * mass(g) && 16777216real * rabs(m.v() - d) <= 20real * mass(g),
        EndGame::WinnerByScore(Color::White, m) => 16777216real * d <= 20real * mass(g) && 16777216real * rabs(m.v() + d) <= 20real * mass(g),
        _ => false,
    }
    &&& on_quarters(g) ==> match e {
        EndGame::Draw => d == 0real,
        EndGame::WinnerByScore(Color::Black, m) => d > 0real && m.v() == d,
        EndGame::WinnerByScore(Color::White, m) => d < 0real && m.v() == -d,
        _ => false,
    }
}

#[verifier::spinoff_prover]
pub proof fn lemma_score_facts(g: Game)
    requires inv(g.goban.v()),
    ensures
        0 <= cnt(gcols(g), Color::Black), 0 <= cnt(gcols(g), Color::White), cnt(gcols(g), Color::Black) <= 361, cnt(gcols(g), Color::White) <= 361,
        0 <= terr_size(g.goban.v(), Color::Black) <= 361, 0 <= terr_size(g.goban.v(), Color::White) <= 361,
        S(g.goban.v()),
{
    hide(S); hide(cnt); hide(terr_cnt);
    lemma_inv_S(g.goban.v());
    lemma_inv_size_s(g.goban.v());
    lemma_cnt_fit(g.goban.v());
    lemma_terr_bound(g.goban.v(), Color::Black, cells(g.goban.v().size));
    lemma_terr_bound(g.goban.v(), Color::White, cells(g.goban.v().size));
}

#[verifier::spinoff_prover]
pub proof fn lemma_score_bounds(g: Game)
    requires inv(g.goban.v()),
    ensures
        forall|f: ScoreRules| rabs(#[trigger] black_score(g, f)) <= mass(g),
        forall|f: ScoreRules| rabs(#[trigger] white_score(g, f)) <= mass(g),
        722real <= mass(g), komi_fin(g) ==> mass(g) <= 200000000000000000000real, on_quarters(g) ==> mass(g) <= 2000000real && komi_fin(g),
{
    hide(inv); hide(cnt); hide(terr_size);
    lemma_score_facts(g);
}
}
