#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the JSON lines stay well-formed)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files), mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     observe_at=list(observe), hook_needed=hook)))
GB, GR, UT, TE, ZO, ST = ["src/pieces/%s.rs" % x for x in ("goban", "group", "util", "territory", "zobrist", "stones")]
GA, BU, MO, SG = ["src/rules/%s.rs" % x for x in ("game", "game_builder", "mod", "sgf_bridge")]

p("C01", "Groups are exactly the connected same-colour regions of the board",
  "After any sequence of stone placements, plays, captures and group removals, the groups the board reports partition its stones: two stones are in the same group exactly when they have the same colour and are linked by a chain of orthogonally adjacent stones of that colour. Each group lists each of its stones exactly once and reports their number and colour correctly.",
  ["histories", "inputs"], "every board size up to 19x19 and every sequence of operations that places stones on empty points or removes groups",
  "quantifies over all histories of merges and captures; the tests replay three SGF files and a dozen fixed positions and never compare the groups with the stones",
  [GB, GR], [("adding a stone: create / extend / merge groups", GB + ": push_wth_feedback, create_chain, add_stone_to_chain, merge_strings, update_chain_indexes_in_board"),
             ("ring of stones per group", GR + ": CircularGroupIter; " + GB + ": next_stone"), ("removal", GB + ": remove_chain")],
  [("board", "per point, the index of the group on it", GB), ("chains", "group records", GR), ("next_stone", "circular list of the stones of each group", GB)],
  ["Goban::chains", "Goban::chain_stones", "Goban::get_connected_groups_idx", "Goban::get_color"])
p("C02", "Every group's liberties are exactly its adjacent empty points",
  "After any sequence of stone placements, plays, captures and group removals, the liberties recorded for a group are exactly the empty points orthogonally adjacent to one of its stones, each counted once. In particular the liberty count, the in-atari test and the no-liberties test always agree with the board.",
  ["histories", "inputs"], "every board size up to 19x19 and every sequence of operations that places stones on empty points or removes groups",
  "liberties are maintained incrementally through merges and captures; the tests look at the liberties of one stone in one position",
  [GB, GR], [("incremental liberty updates", GB + ": push_wth_feedback, remove_chain, merge_strings, create_chain"), ("361-bit liberty set", GR + ": set, merge, any, count_ones, iter_ones, get")],
  [("liberties", "bit set over board points, per group", GR)],
  ["Group::liberties", "Group::number_of_liberties", "Group::is_atari", "Group::is_dead", "Group::contains_liberty"])
p("C03", "A play places one stone, removes exactly what it captures, changes nothing else",
  "Playing a stone on an empty point of a board on which every group has a liberty yields exactly the board obtained by adding that stone, then removing every opposing group left without liberties, and then - only if the rules allow suicide - the mover's own group if it still has none; every other point keeps its content. After a move accepted by the rules in use, every group on the board again has at least one liberty.",
  ["histories", "inputs"], "every board size, every reachable position, every empty point, both colours, suicide allowed or not",
  "the tests check captured-stone totals of three games and one single-stone capture; multi-group captures, captures at merges and allowed suicide are not compared with a definition",
  [GB, GA], [("find groups left without liberties", GB + ": push_wth_feedback"), ("remove them", GB + ": remove_captured_stones_aux, remove_chain"), ("play", GA + ": play, remove_captured_stones")],
  [], ["Game::play / try_play then Goban::get_color", "Goban::push, Goban::remove_chain"])
p("C04", "Prisoners count exactly the captured stones",
  "Each play increases Black's prisoner count by the number of white stones it takes off the board and White's by the number of black stones (suicided stones included), and no other action changes either count. Hence in a game started from an empty board, for each colour, stones played = stones on the board + prisoners the opponent holds. (For games in which fewer than 2^32 - 361 stones are captured: the counts are 32-bit numbers.)",
  ["histories"], "every sequence of plays, passes and resignations on every board size and rule set",
  "an accounting identity over whole games; the tests compare totals at the end of three games",
  [GB, GA], [("count removed stones per colour", GB + ": remove_captured_stones_aux"), ("accumulate", GA + ": remove_captured_stones, play")],
  [("prisoners", "(held by Black, held by White)", GA)], ["Game::prisoners", "Goban::number_of_stones"])
p("C05", "Equality and hash of boards depend on size and stones only",
  "Two boards compare equal exactly when they have the same dimensions and the same colour on every point, and equal boards have equal hashes, whatever sequences of placements and captures produced them. The 64-bit position hash is the XOR of one fixed key per (point, colour) over the stones present, so an empty board hashes to zero and removing what was added restores the hash.",
  ["histories", "inputs"], "every pair of histories on every board size",
  "path independence is a statement about all pairs of histories; the tests compare one pair of boards and check that keys are distinct",
  [GB, ZO], [("incremental hash", GB + ": push_wth_feedback, remove_chain"), ("comparison", GB + ": PartialEq/Hash for Goban"), ("key table", ZO + ": index_zobrist")],
  [("zobrist_hash", "incremental position hash", GB)], ["Goban == Goban", "Goban::zobrist_hash", "Hash for Goban"])
p("C06", "Suicide is refused exactly when the stone's group would have no liberty",
  "When the rules forbid suicide, a move on an empty point is refused as suicide exactly when, after adding the stone and removing the opposing groups it leaves without liberties, the group of the added stone has no liberty. When the rules allow suicide, no move is refused for that reason.",
  ["histories", "inputs"], "every position in which all groups have liberties, every empty point, both players, every rule set",
  "two positions are tested; the condition quantifies over all shapes (captures that rescue, connections to groups with spare liberties)",
  [GA], [("suicide test on neighbour groups", GA + ": check_suicide"), ("rule dispatch", GA + ": check_point_by")], [],
  ["Game::check_suicide", "Game::check_point", "Game::try_play"])
p("C07", "Ko: a move is refused as ko exactly when it undoes the opponent's last play",
  "When the basic ko rule is in force (and positional superko is not), a move on an empty point is refused as ko exactly when it is no suicide and would restore the position that stood before the opponent's immediately preceding play, all groups having had liberties in that position. After a pass, no move is refused by the basic ko rule.",
  ["histories"], "every history of plays and passes in which every group has a liberty after each move, every empty point",
  "relates three consecutive positions of arbitrary games; the tests check five fixed shapes",
  [GA, GB], [("ko point recorded at capture", GB + ": remove_captured_stones_aux"), ("ko test", GA + ": check_ko"), ("cleared by pass/play", GA + ": play")],
  [("ko_point", "point that may not be retaken at once", GA)], ["Game::check_ko", "Game::check_point", "Game::try_play"])
p("C08", "Superko: exactly the moves repeating an earlier position are refused",
  "When positional superko is in force, a move on an empty point that is refused neither as suicide nor by the basic ko rule is refused exactly when the position it produces - after its captures - has already occurred on the board during the game. Consequently no position ever recurs through accepted moves, whether or not the move captures.",
  ["histories"], "every history, including passes, resumed games, set-up positions and non-capturing repetitions",
  "the repeated position may lie arbitrarily far back; one fixed example is tested",
  [GA], [("position history", GA + ": play (history.insert)"), ("superko test", GA + ": check_super_ko, play_for_verification")],
  [("history", "set of positions before each play", GA)], ["Game::check_super_ko", "Game::legals", "Game::try_play"])
p("C09", "The legal-move list and the checked play agree; refused moves change nothing",
  "In a game that is not paused, the list of legal moves contains, once each, exactly the points of the board at which a checked play succeeds, and at every other point a checked play is refused with an error naming a rule the move really breaks (occupied point, suicide, ko, eye filling) among those in force. A refused move leaves board, turn, prisoners, passes and history untouched.",
  ["histories", "inputs"], "every reachable game state, every board point and every combination of rule flags",
  "quantifies over all states and all 2^4 rule-flag combinations; the tests look at four states under the two predefined rules",
  [GA], [("legality dispatch", GA + ": check_point_by, legals_by, pseudo_legals"), ("checked play", GA + ": try_play")], [],
  ["Game::legals", "Game::legals_by", "Game::check_point", "Game::try_play"])
p("C10", "Turn order, passing, pausing, resuming and resigning",
  "Every play and every pass hands the turn to the other player, a play resets the pass count, and two consecutive passes - or a resignation or a preset result, and nothing else - make the game over. Once two consecutive passes were made, every checked move is refused as 'paused' with no effect until the game is resumed; resigning or resuming changes neither board, turn nor prisoners.",
  ["histories"], "every sequence of moves, passes, resignations and resumptions",
  "a state machine over all histories; the tests pass twice from the start",
  [GA], [("play / pass / resign", GA + ": play"), ("checked play", GA + ": try_play"), ("end of game", GA + ": is_over, resume")],
  [("passes", "consecutive passes", GA), ("turn", "player to move", GA), ("outcome", "preset result", GA)], ["Game::turn", "Game::is_over", "Game::try_play"])
p("C11", "Territory is exactly the empty regions bordered by one colour only",
  "On every board, a point is reported as a player's territory exactly when it is empty and the connected region of empty points containing it touches at least one stone of that player and none of the opponent; each such point is reported once. Regions touching both colours, or none, belong to nobody.",
  ["inputs"], "every position on every board size",
  "quantifies over all region shapes; the tests check four positions",
  [TE, GB], [("region growing", TE + ": get_group_from_point, get_chains_from_stones"), ("ownership", TE + ": get_territories, calculate_territories")], [],
  ["Goban::get_territories", "Goban::calculate_territories"])
p("C12", "Scores and outcome follow the scoring rule exactly",
  "Each player's score is his territory, plus his stones on the board if the rule counts stones, plus his prisoners if the rule counts prisoners, and komi is added to White's alone if the rule says so. A game that is not over has no outcome; otherwise a resignation or preset result is reported as is, and after two passes the winner is the player with the higher score with the difference as margin, a draw exactly when the scores are equal (to within rounding).",
  ["inputs", "histories"], "every board, every prisoner count and finite komi, every combination of scoring flags",
  "all 2^3 flag combinations, all counts and komi values; the tests check three scores",
  [GA, MO], [("score", GA + ": calculate_score, calculate_score_by"), ("outcome", GA + ": outcome, is_over"), ("flags", MO + ": ScoreRules, JAPANESE, CHINESE")], [],
  ["Game::calculate_score", "Game::calculate_score_by", "Game::outcome"])
p("C13", "Board geometry is right for every board size, square or not",
  "For every height and width from 1 to 19, distinct board points are stored in distinct places, coordinates and linear (row-major) indices convert into each other without loss, and the neighbours of a point are exactly the on-board points one step up, down, left or right, each once. Asking for a larger board, or putting a stone outside the board, is rejected by a panic and never touches another point.",
  ["inputs", "configurations"], "all 361 board sizes and all points, on and off the board",
  "the tests use square boards only (9, 11, 19), where row stride and width coincide",
  [UT, GB, MO], [("index conversion", UT + ": two_to_1dim, one_to_2dim, one2dim!"), ("neighbours", UT + ": neighbor_coords, valid_coords; " + GB + ": neighbors_coords, neighbors_idx"), ("size check", GB + ": new")], [],
  ["Goban::get_connected_points", "Goban::get_liberties", "Goban::push", "Goban::get_color"])
p("C14", "All board views agree with the colours on the board",
  "On every board of every size, the vector, the matrix, the lists of stones, of empty points and of points by colour, the stone counts and the connected-points/connected-stones queries all describe the same height x width grid in row-major order: each lists exactly the points of the stated kind, each once, with the colour that a point lookup reports. A board rebuilt from the vector of a square board equals the original.",
  ["inputs", "histories"], "every reachable board of every size",
  "the tests compare two stones in one list and one 19x19 vector",
  [GB, GA], [("exports", GB + ": to_vec, matrix, From<&[MaybeColor]>"), ("queries", GB + ": get_stones, get_empty_coords, get_empty_idx, get_coords_by_color, get_stones_by_color, number_of_stones, get_connected_points, get_connected_stones; " + GA + ": pseudo_legals_vec")], [],
  ["Goban::to_vec", "Goban::matrix", "Goban::get_stones", "Goban::get_empty_coords", "Goban::get_coords_by_color", "Goban::number_of_stones"])
p("C15", "Legal games never panic or exhaust internal capacity, however long",
  "From a new game of any size up to 19x19 under any rule set, no sequence of legal plays, passes, resumptions and queries of any length makes the library panic: no index leaves its array, no counter or group number overflows, and no internal consistency check fails. (Up to 2^32 - 362 captured stones: the prisoner counts are 32-bit numbers by type.)",
  ["histories"], "histories of any length; in particular longer than 65535 created groups",
  "length is unbounded; the longest tested game has a few hundred moves",
  [GB, GR, GA, UT], [("group slots", GR + ": put_free_spot, remove"), ("16-bit group numbers", GB + ": push_wth_feedback, update_chain_indexes_in_board"), ("debug assertions", GB + "; " + GR)], [],
  ["Game::play", "Goban::push", "Goban::remove_chain"])
p("C16", "A built game is exactly what was asked for",
  "A game made by the constructor or the builder has the requested size, rule, komi, preset result and player to move (White first exactly when there is a handicap and no explicit choice, otherwise Black), with exactly the handicap stones (black) and set-up stones on the board, no prisoners and no passes before the requested moves are played, in order, from that position. Placing handicap stones on an existing game adds exactly those black stones and hands the turn to White.",
  ["inputs", "configurations"], "every combination of builder settings with distinct stone points on the board",
  "the combinations of settings are unbounded; only the documented example is built (and not inspected)",
  [BU, GA], [("build", BU + ": build_inner, build and setters"), ("handicap", GA + ": put_handicap, new")], [], ["Game::builder", "GameBuilder::build", "Game::put_handicap"])
p("C17", "SGF import reproduces the recorded game",
  "Importing an SGF record of a Go game yields the game with the board size (columns by rows), komi, rule, result, set-up stones and player to move recorded in its first node, and the recorded main-line moves and passes played in order with column and row at the recorded place, wherever in its node a move is written. A record that asks for something the library does not support (larger board, other game, unknown rule set, a move off the board or on a stone, two moves in a row by one player, a third pass in a row) is reported as an error, not a panic.",
  ["inputs"], "every record the SGF parser accepts",
  "three files are imported; rectangular boards, token order and malformed records are not covered",
  [SG, BU], [("token translation", SG + ": from_sgf, From<Action> for Move, From<Outcome> for EndGame, From<RuleSet>"), ("building", BU + ": build_inner")], [], ["Game::from_sgf"])
p("C18", "The eye-filling filter only removes real eye points, and removes every plain eye",
  "With the eye-filling filter on, a move is refused as eye filling only if the point is empty and every orthogonal neighbour on the board is a stone of the mover, and it is always refused (unless refused for another reason) if in addition every diagonal neighbour is off the board or a stone of the mover. With the filter off, no move is refused as eye filling.",
  ["inputs"], "every position, point, colour and board size",
  "the tests check five points of one game",
  [GA, UT], [("eye test", GA + ": check_eye, helper_check_eye"), ("corners", UT + ": corner_points"), ("dispatch", GA + ": check_point_by")], [], ["Game::check_eye", "Game::legals_by", "Game::check_point_by"])
p("C19", "Simulating a move gives the board that playing it gives, and changes nothing",
  "For every legal point, under every rule set, the board returned by the move simulation equals the board obtained by really playing the move, including captures and allowed suicide, and simulating leaves the game unchanged.",
  ["histories", "inputs"], "every reachable position, every legal move, every rule set",
  "the simulation is only exercised through one superko test",
  [GA, GB], [("simulation", GA + ": play_for_verification"), ("play", GA + ": play, remove_captured_stones")], [], ["Game::play_for_verification", "Game::play"])
p("C20", "The printed board shows exactly the stones on the board",
  "The text form of a board has one line per row and one character per column, in row-major order from the top left; it shows the black-stone glyph exactly on points holding a black stone, the white-stone glyph exactly on points holding a white stone, and a line-drawing glyph elsewhere.",
  ["inputs"], "every position on every board size",
  "the tests print boards but never inspect the text",
  [GB], [("printing", GB + ": pretty_string, Display")], [], ["Goban::pretty_string", "Display for Goban"])
p("C21", "Dead-stone suggestions name existing groups short of two eyes",
  "The groups suggested as floating are exactly the groups on the board that touch fewer than two eye points, and every group suggested as dead by simulation is one of them; neither query changes the game.",
  ["inputs", "schedules"], "every finished or unfinished game, every random playout",
  "playouts are random; one finished game, for which no playout is run, is tested",
  ["src/rules/dead_stones.rs"], [("floating groups", "src/rules/dead_stones.rs: get_floating_stones"), ("playouts", "src/rules/dead_stones.rs: dead_stones_wth_simulations")], [],
  ["Game::get_floating_stones", "Game::dead_stones_wth_simulations"])
p("C22", "Dead-stone simulation always finishes",
  "Whatever the position, the rules and the random choices, asking for dead stones by simulation comes back with an answer after finitely many playout moves and never panics.",
  ["schedules"], "every random playout from every position",
  "playouts are random; no test runs one",
  ["src/rules/dead_stones.rs"], [("playouts", "src/rules/dead_stones.rs: playout, dead_stones_wth_simulations")], [],
  ["Game::dead_stones_wth_simulations", "Game::dead_stones"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
