verus! {

// ================================================================ what the contracts of a game mean for its rules
/// C03: an opposing stone disappears exactly when its group is left without liberties, wherever it is; nothing else does.
pub proof fn rule_capture(cs: Seq<Option<Color>>, s: (u8, u8), p: int, x: Color, su: bool, i: int)
    requires alive(cs, s), cs.len() == cells(s), 0 <= p < cells(s), cs[p] is None, 0 <= i < cells(s),
    ensures
        ({
            let d = placed(cs, p, x);
            let m = capt(cs, s, p, x);
            let r = play_of(cs, s, p, x, su);
            &&& d[i] is None ==> r[i] is None // [C03]
            &&& d[i] == Some(opp(x)) ==> r[i] == (if breathes(d, s, i) { d[i] } else { None }) // [C03]
            &&& d[i] == Some(x) ==> r[i] == (if su && !breathes(m, s, p) && linked(m, s, p, i) { None } else { d[i] }) // [C03]
        }),
{
    let d = placed(cs, p, x);
    let m = capt(cs, s, p, x);
    if d[i] == Some(opp(x)) {
        lemma_capt_all(cs, s, p, x, i);
        if linked(m, s, p, i) { lemma_linked_in(m, s, p, i); assert(m[p] == Some(x)); }
    }
}

/// C03: after an accepted move every group has a liberty again.
pub proof fn rule_alive(g: Game, h: Game, p: (u8, u8))
    requires ginv(g), valid(g.goban.size, p), alive(gcols(g), g.goban.size), verdict(g, p, g.rule.flag_illegal) is None, moved(g, h, Move::Play(p.0, p.1)),
    ensures alive(gcols(h), h.goban.size), // [C03]
{
    lemma_play_inv(g, p);
    lemma_alive_play(gcols(g), g.goban.size, idx(g.goban.size, p), g.turn, su(g));
}

pub proof fn rule_alive_empty(s: (u8, u8))
    ensures alive(empty_cols(s), s), // [C03]
{
}

/// The stones of colour c played so far are on the board or prisoners.
pub open spec fn ledger(g: Game, black: int, white: int) -> bool {
    white == cnt(gcols(g), Color::White) + g.prisoners.0 && black == cnt(gcols(g), Color::Black) + g.prisoners.1
}

pub proof fn rule_ledger_start(g: Game, s: (u8, u8), rule: Rule)
    requires fresh(g, s, rule),
    ensures ledger(g, 0, 0), // [C04]
{
    lemma_cnt_none(empty_cols(s), Color::White);
    lemma_cnt_none(empty_cols(s), Color::Black);
}

/// C04: a play adds one stone of the player to move to the ledger.
pub proof fn rule_ledger(g: Game, h: Game, p: (u8, u8), black: int, white: int)
    requires ginv(g), valid(g.goban.size, p), colat(g.goban.v(), p) is None, ledger(g, black, white), prisoners_moved(g, h, Move::Play(p.0, p.1)),
    ensures
        ledger(h, if g.turn == Color::Black { black + 1 } else { black }, if g.turn == Color::White { white + 1 } else { white }), // [C04]
{
    lemma_play_inv(g, p);
    lemma_cnt_update(gcols(g), idx(g.goban.size, p), Some(g.turn), Color::White);
    lemma_cnt_update(gcols(g), idx(g.goban.size, p), Some(g.turn), Color::Black);
}

/// C04: a play only takes stones off: the counts never go down.
pub proof fn rule_counts_grow(cs: Seq<Option<Color>>, s: (u8, u8), p: int, x: Color, su: bool, c: Color)
    requires cs.len() == cells(s), 0 <= p < cells(s),
    ensures cnt(play_of(cs, s, p, x, su), c) <= cnt(placed(cs, p, x), c), // [C04]
{
    let (d, r) = (placed(cs, p, x), play_of(cs, s, p, x, su));
    assert forall|i: int| 0 <= i < d.len() && (#[trigger] r[i]) is Some implies r[i] == d[i] by { }
    lemma_cnt_sub(d, r, c);
}

pub proof fn lemma_cnt_sub(d: Seq<Option<Color>>, r: Seq<Option<Color>>, c: Color)
    requires d.len() == r.len(), forall|i: int| 0 <= i < d.len() && (#[trigger] r[i]) is Some ==> r[i] == d[i],
    ensures cnt(r, c) <= cnt(d, c),
    decreases d.len(),
{
    if d.len() > 0 {
        assert(r.last() is Some ==> r.last() == d.last()) by { assert(r[r.len() - 1] == r.last()); }
        let (d1, r1) = (d.drop_last(), r.drop_last());
        assert forall|i: int| 0 <= i < d1.len() && (#[trigger] r1[i]) is Some implies r1[i] == d1[i] by { assert(r1[i] == r[i]); }
        lemma_cnt_sub(d1, r1, c);
    }
}

/// C06: suicide.
pub proof fn rule_suicide(g: Game, p: (u8, u8), rules: IllegalRules)
    requires colat(g.goban.v(), p) is None,
    ensures
        rules.has(IllegalRules::SUICIDE) ==> ((verdict(g, p, rules) == Some(PlayError::Suicide)) == suicidal(gcols(g), g.goban.size, idx(g.goban.size, p), g.turn)), // [C06]
        !rules.has(IllegalRules::SUICIDE) ==> verdict(g, p, rules) != Some(PlayError::Suicide), // [C06]
{
}

/// C07: after a play by the opponent, ko is exactly the restoration of the position before it.
#[verifier::spinoff_prover]
pub proof fn rule_ko(g: Game, h: Game, q: (u8, u8), p: (u8, u8), rules: IllegalRules)
    requires
        ginv(g), ginv(h), valid(g.goban.size, q), colat(g.goban.v(), q) is None, alive(gcols(g), g.goban.size), moved(g, h, Move::Play(q.0, q.1)),
        valid(h.goban.size, p), colat(h.goban.v(), p) is None, rules.has(IllegalRules::KO), !rules.has(IllegalRules::SUPERKO),
    ensures
        (verdict(h, p, rules) == Some(PlayError::Ko)) == (!suicidal(gcols(h), h.goban.size, idx(h.goban.size, p), h.turn) && play_of(gcols(h), h.goban.size, idx(h.goban.size, p), h.turn, su(h)) == gcols(g)), // [C07]
{
    hide(inv); hide(cols); hide(suicidal); hide(play_of); hide(ko_refused); hide(eye_of); hide(IllegalRules::has);
    lemma_play_inv(g, q);
    lemma_ko(gcols(g), idx(g.goban.size, q), g.turn, h.goban.v(), h.ko_point, p, su(h));
}

/// C07: after a pass, or before any play, nothing is ko.
pub proof fn rule_no_ko(g: Game, p: (u8, u8), rules: IllegalRules)
    requires g.ko_point is None, !rules.has(IllegalRules::SUPERKO),
    ensures verdict(g, p, rules) != Some(PlayError::Ko), // [C07]
{
}

pub proof fn rule_ko_off(g: Game, p: (u8, u8), rules: IllegalRules)
    requires !rules.has(IllegalRules::KO), !rules.has(IllegalRules::SUPERKO),
    ensures verdict(g, p, rules) != Some(PlayError::Ko), // [C07]
{
}

/// The position cs stood on the board at some time.
pub open spec fn occurred(g: Game, cs: Seq<Option<Color>>) -> bool { cs == gcols(g) || seen_before(g, cs) }

/// C08: superko.
pub proof fn rule_superko(g: Game, h: Game, p: (u8, u8), rules: IllegalRules)
    requires
        rules.has(IllegalRules::SUPERKO), colat(g.goban.v(), p) is None,
        !(rules.has(IllegalRules::SUICIDE) && suicidal(gcols(g), g.goban.size, idx(g.goban.size, p), g.turn)),
        !(rules.has(IllegalRules::KO) && ko_refused(g.goban.v(), g.ko_point, p, g.turn)),
        !(rules.has(IllegalRules::FILLEYE) && eye_of(g.goban.v(), p, g.turn)),
    ensures
        verdict(g, p, rules) == Some(PlayError::Ko) <==> occurred(g, play_of(gcols(g), g.goban.size, idx(g.goban.size, p), g.turn, su(g))), // [C08]
        verdict(g, p, rules) is None && moved(g, h, Move::Play(p.0, p.1)) ==> !occurred(g, gcols(h)), // [C08]
{
}

/// C08: what occurred after a move is what occurred before it and the new position.
pub proof fn rule_occurred(g: Game, h: Game, m: Move)
    requires moved(g, h, m),
    ensures forall|cs: Seq<Option<Color>>| #[trigger] occurred(h, cs) <==> occurred(g, cs) || cs == gcols(h), // [C08]
{
    assert forall|cs: Seq<Option<Color>>| #[trigger] occurred(h, cs) <==> occurred(g, cs) || cs == gcols(h) by {
        assert(seen_before(h, cs) <==> seen_before(h, cs));
    }
}

pub proof fn rule_occurred_start(g: Game, s: (u8, u8), rule: Rule)
    requires fresh(g, s, rule),
    ensures forall|cs: Seq<Option<Color>>| #[trigger] occurred(g, cs) <==> cs == gcols(g), // [C08]
{
}

/// C09: the legal moves are the points with no verdict against them, each once.
#[verifier::spinoff_prover]
pub proof fn rule_legal(g: Game, rules: IllegalRules)
    requires ginv(g),
    ensures
        legal_list(g, rules).no_duplicates(), // [C09]
        forall|c: (u8, u8)| #![trigger legal_list(g, rules).contains(c)] legal_list(g, rules).contains(c) <==> valid(g.goban.size, c) && verdict(g, c, rules) is None, // [C09]
{
    hide(inv); hide(coord_list);
    let v = g.goban.v();
    lemma_inv_facts(v);
    lemma_coord_list(v, None);
    let l = coord_list(v, None);
    let bs = Seq::new(l.len(), |i: int| verdict(g, l[i], rules) is None);
    lemma_keep_members(l, bs);
    assert forall|c: (u8, u8)| #![trigger legal_list(g, rules).contains(c)] legal_list(g, rules).contains(c) <==> valid(g.goban.size, c) && verdict(g, c, rules) is None by {
        if valid(g.goban.size, c) && verdict(g, c, rules) is None {
            assert(l.contains(c));
            let i = choose|i: int| 0 <= i < l.len() && l[i] == c;
            assert(bs[i]);
        }
        if legal_list(g, rules).contains(c) {
            let i = choose|i: int| 0 <= i < l.len() && l[i] == c && bs[i];
            assert(l.contains(l[i]));
        }
    }
}

/// Members of a selection.
pub proof fn lemma_keep_members<T>(s: Seq<T>, bs: Seq<bool>)
    requires s.no_duplicates(), bs.len() >= s.len(),
    ensures
        keep_by(s, bs).no_duplicates(),
        forall|c: T| #![trigger keep_by(s, bs).contains(c)] keep_by(s, bs).contains(c) <==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == c && bs[i],
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert(t.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by { assert(s[i] != s[j]); } }
        lemma_keep_members(t, bs);
        let r = keep_by(t, bs);
        let k = keep_by(s, bs);
        let last = s.len() - 1;
        assert forall|c: T| #![trigger k.contains(c)] k.contains(c) <==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == c && bs[i] by {
            if k.contains(c) {
                let j = choose|j: int| 0 <= j < k.len() && k[j] == c;
                if j < r.len() {
                    assert(r[j] == c);
                    assert(r.contains(c));
                    let i = choose|i: int| 0 <= i < t.len() && #[trigger] t[i] == c && bs[i];
                    assert(s[i] == c && bs[i]);
                } else { assert(s[last] == c && bs[last]); }
            }
            if exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == c && bs[i] {
                let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == c && bs[i];
                if i < last { assert(t[i] == c && bs[i]); assert(r.contains(c)); let j = choose|j: int| 0 <= j < r.len() && r[j] == c; assert(k[j] == c); }
                else { assert(k[k.len() - 1] == c); }
            }
        }
        if bs[last] {
            assert(!r.contains(s[last])) by {
                if r.contains(s[last]) { let i = choose|i: int| 0 <= i < t.len() && #[trigger] t[i] == s[last] && bs[i]; assert(s[i] == s[last]); }
            }
            assert forall|i: int, j: int| 0 <= i < k.len() && 0 <= j < k.len() && i != j implies k[i] != k[j] by {
                if i < r.len() { assert(r[i] == k[i]); assert(r.contains(k[i])); }
                if j < r.len() { assert(r[j] == k[j]); assert(r.contains(k[j])); }
            }
        }
    }
}

/// C09: the error names a rule in force that the move breaks.
pub proof fn rule_reason(g: Game, p: (u8, u8), rules: IllegalRules)
    ensures
        match verdict(g, p, rules) {
            None => colat(g.goban.v(), p) is None,
            Some(PlayError::PointNotEmpty) => colat(g.goban.v(), p) is Some,
            Some(PlayError::Suicide) => rules.has(IllegalRules::SUICIDE) && suicidal(gcols(g), g.goban.size, idx(g.goban.size, p), g.turn),
            Some(PlayError::Ko) => (rules.has(IllegalRules::KO) && ko_refused(g.goban.v(), g.ko_point, p, g.turn)) || (rules.has(IllegalRules::SUPERKO) && repeats(g, p)),
            Some(PlayError::FillEye) => rules.has(IllegalRules::FILLEYE) && eye_of(g.goban.v(), p, g.turn),
            Some(PlayError::GamePaused) => false,
        }, // [C09]
{
}

/// C10: turns, passes, pausing, resuming.
pub proof fn rule_flow(g: Game, h: Game, m: Move)
    requires moved(g, h, m),
    ensures
        match m {
            Move::Play(_, _) => h.turn == opp(g.turn) && h.passes == 0 && h.outcome == g.outcome,
            Move::Pass => h.turn == opp(g.turn) && h.passes == g.passes + 1 && h.outcome == g.outcome && h.goban == g.goban && h.prisoners == g.prisoners,
            Move::Resign(_) => h.turn == g.turn && h.passes == g.passes && h.outcome is Some && h.goban == g.goban && h.prisoners == g.prisoners && over(h),
        }, // [C10]
        h.rule == g.rule,
{
}

/// C10: a paused game refuses everything.
pub proof fn rule_paused(g: Game, m: Move)
    ensures
        g.passes == 2 ==> refusal(g, m) == Some(PlayError::GamePaused), // [C10]
        refusal(g, m) == Some(PlayError::GamePaused) ==> g.passes == 2, // [C10]
{
}

/// C18: bounds on the eye filter.
pub proof fn rule_eye(g: Game, p: (u8, u8), rules: IllegalRules)
    ensures
        verdict(g, p, rules) == Some(PlayError::FillEye) ==> rules.has(IllegalRules::FILLEYE) && colat(g.goban.v(), p) is None && crossed(g.goban.v(), p, g.turn), // [C18]
        rules.has(IllegalRules::FILLEYE) && crossed(g.goban.v(), p, g.turn) && good_corners(g.goban.v(), p, g.turn, 4) == 4 ==> verdict(g, p, rules) is Some, // [C18]
{
}

/// C18: four good corners are all diagonals off the board or own stones.
pub proof fn rule_corners(v: GV, p: (u8, u8), x: Color)
    requires valid(v.size, p), size_ok(v.size),
    ensures
        (forall|c: (u8, u8)| #[trigger] corner_of(p, c) ==> !valid(v.size, c) || colat(v, c) == Some(x)) <==> good_corners(v, p, x, 4) == 4, // [C18]
{
    let cs = corners4(p);
    reveal_with_fuel(good_corners, 5);
    if good_corners(v, p, x, 4) == 4 {
        assert forall|c: (u8, u8)| #[trigger] corner_of(p, c) implies !valid(v.size, c) || colat(v, c) == Some(x) by {
            assert(cs[0] == c || cs[1] == c || cs[2] == c || cs[3] == c);
        }
    }
    if forall|c: (u8, u8)| #[trigger] corner_of(p, c) ==> !valid(v.size, c) || colat(v, c) == Some(x) {
        assert(corner_of(p, cs[0]) && corner_of(p, cs[1]) && corner_of(p, cs[2]) && corner_of(p, cs[3]));
    }
}

/// C19: the simulated board is the board after the play.
pub proof fn rule_simulation(g: Game, h: Game, b: Goban, p: (u8, u8))
    requires
        moved(g, h, Move::Play(p.0, p.1)), b.size == g.goban.size,
        cols(b.v()) == play_of(gcols(g), g.goban.size, idx(g.goban.size, p), g.turn, su(g)),
    ensures same_pos(b, h.goban), // [C19]
{
}

} // verus!
