verus! {
impl<T, H> VIter<T> for IndexSet<T, H> {
    open spec fn vi_seq(&self) -> Seq<T> { self@ }
    fn v_iter<'a>(&'a self) -> (r: It<&'a T>) { refs_of(self.v.as_slice()) }
}
pub open spec fn winner(e: EndGame) -> Option<Color> {
    match e {
        EndGame::WinnerByScore(c, _) | EndGame::WinnerByResign(c) | EndGame::WinnerByTime(c) | EndGame::WinnerByForfeit(c) => Some(c),
        EndGame::Draw => None,
    }
}
/// s == "literal"
#[verifier::external_body]
pub fn str_is(s: &str, t: &str) -> (r: bool)
    ensures r == (s@ == t@),
{ s == t }
}
