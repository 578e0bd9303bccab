seed("c18-diagonals-of-the-mover", "C18", GA, "                    Some(c) if c == color => {", "                    Some(c) if c == self.turn => {",
 "asking whether a point is an eye of the player who is not to move", "a plain eye of the other player is not recognised", PRE + """
fn main() {
    let mut g = Game::new(GobanSizes::Nine, rule(IllegalRules::FILLEYE));
    g.put_handicap(&[(3, 3), (3, 5), (5, 3), (5, 5), (3, 4), (5, 4), (4, 3), (4, 5)]);
    assert_eq!(g.turn(), Color::White);
    assert!(g.check_eye(Stone { coord: (4, 4), color: Color::Black }));
}
""")
