verus! {

// ================================================================ f32
// Stand-in for f32: the value of a finite float as a real number. The operations carry the assumptions of IEEE-754
// binary32 with rounding to nearest: a result is within half a unit in the last place of the exact one (2^-24 relative),
// and it is exact when the exact one is a multiple of 1/4 of magnitude up to 2^22 (all of these are floats).
pub open spec fn rabs(x: real) -> real { if x >= 0real { x } else { -x } }
pub open spec fn near(r: real, x: real) -> bool { 16777216real * rabs(r - x) <= rabs(x) }
pub open spec fn q4(n: int) -> real { n as real / 4real }
pub open spec fn grid(x: real) -> bool { exists|n: int| -16777216 <= n <= 16777216 && x == #[trigger] q4(n) }
pub open spec fn small(x: real) -> bool { rabs(x) <= 1000000000000000000000000000000real }
/// r is the float nearest to x.
pub open spec fn rounded(r: F32, x: real) -> bool {
    &&& small(x) ==> r.fin() && near(r.v(), x)
    &&& grid(x) ==> r.v() == x
}

/// `rounded`, for magnitudes up to the bounds m marked by within(m).
pub open spec fn within(m: real) -> bool { true }
pub open spec fn approx(r: F32, x: real) -> bool {
    forall|m: real| #[trigger] within(m) && m <= 1000000000000000000000000000000real && -m <= x <= m ==> r.fin() && -m <= 16777216real * (r.v() - x) <= m
}

#[derive(Clone, Copy)]
pub struct F32 { pub x: f32 }

impl F32 {
    /// neither infinite nor NaN
    pub uninterp spec fn fin(self) -> bool;
    /// the value of a finite float
    pub uninterp spec fn v(self) -> real;

    #[verifier::external_body]
    fn raw_add(self, o: F32) -> (r: F32)
        ensures self.fin() && o.fin() ==> rounded(r, self.v() + o.v()),
    { F32 { x: self.x + o.x } }

    #[verifier::external_body]
    fn raw_sub(self, o: F32) -> (r: F32)
        ensures self.fin() && o.fin() ==> rounded(r, self.v() - o.v()),
    { F32 { x: self.x - o.x } }

    #[verifier::external_body]
    pub fn abs(self) -> (r: F32)
        ensures r.fin() == self.fin(), self.fin() ==> r.v() == rabs(self.v()),
    { F32 { x: self.x.abs() } }

    #[verifier::external_body]
    pub fn sqrt(self) -> (r: F32)
        ensures
            self.fin() && self.v() >= 0real ==> r.fin() && r.v() >= 0real,
            forall|s: int| 0 <= s <= 4096 && self.fin() && self.v() == rint(#[trigger] square(s)) ==> r.v() == rint(s),
    { F32 { x: self.x.sqrt() } }

    #[verifier::external_body]
    pub fn v_to_u8(self) -> (r: u8)
        ensures forall|s: int| 0 <= s <= 255 && self.fin() && self.v() == #[trigger] rint(s) ==> r == s,
    { self.x as u8 }
}

pub open spec fn rint(n: int) -> real { n as real }
pub open spec fn square(s: int) -> int { s * s }

pub trait VF32: Sized {
    spec fn vf_value(self) -> int;
    fn v_f32(self) -> (r: F32) ensures rounded(r, self.vf_value() as real), approx(r, self.vf_value() as real), -4194304 <= self.vf_value() <= 4194304 ==> r.fin() && r.v() == self.vf_value() as real && grid(r.v());
    fn raw_f32(self) -> (r: F32) ensures rounded(r, self.vf_value() as real);
}
impl VF32 for usize {
    open spec fn vf_value(self) -> int { self as int }
    #[verifier::external_body]
    fn raw_f32(self) -> (r: F32) { F32 { x: self as f32 } }
    fn v_f32(self) -> (r: F32) { proof { if -4194304 <= self.vf_value() <= 4194304 { lemma_grid_int(self.vf_value()); } } self.raw_f32() }
}
impl VF32 for u32 {
    open spec fn vf_value(self) -> int { self as int }
    #[verifier::external_body]
    fn raw_f32(self) -> (r: F32) { F32 { x: self as f32 } }
    fn v_f32(self) -> (r: F32) { proof { if -4194304 <= self.vf_value() <= 4194304 { lemma_grid_int(self.vf_value()); } } self.raw_f32() }
}
impl VF32 for u64 {
    open spec fn vf_value(self) -> int { self as int }
    #[verifier::external_body]
    fn raw_f32(self) -> (r: F32) { F32 { x: self as f32 } }
    fn v_f32(self) -> (r: F32) { proof { if -4194304 <= self.vf_value() <= 4194304 { lemma_grid_int(self.vf_value()); } } self.raw_f32() }
}
impl VF32 for u16 {
    open spec fn vf_value(self) -> int { self as int }
    #[verifier::external_body]
    fn raw_f32(self) -> (r: F32) { F32 { x: self as f32 } }
    fn v_f32(self) -> (r: F32) { proof { if -4194304 <= self.vf_value() <= 4194304 { lemma_grid_int(self.vf_value()); } } self.raw_f32() }
}
impl VF32 for u8 {
    open spec fn vf_value(self) -> int { self as int }
    #[verifier::external_body]
    fn raw_f32(self) -> (r: F32) { F32 { x: self as f32 } }
    fn v_f32(self) -> (r: F32) { proof { if -4194304 <= self.vf_value() <= 4194304 { lemma_grid_int(self.vf_value()); } } self.raw_f32() }
}

/// A decimal literal p / q.
#[verifier::external_body]
pub fn f32_lit(p: u64, q: u64) -> (r: F32)
    requires q > 0,
    ensures rounded(r, p as real / q as real),
{ F32 { x: (p as f64 / q as f64) as f32 } }

pub open spec fn eps() -> real { 1real / 8388608real }
/// f32::EPSILON, 2^-23
#[verifier::external_body]
pub fn f32_epsilon() -> (r: F32)
    ensures r.fin(), r.v() == eps(),
{ F32 { x: f32::EPSILON } }

impl AddSpecImpl for F32 {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: F32) -> bool { true }
    open spec fn add_spec(self, o: F32) -> F32 { self }
}
impl Add for F32 {
    type Output = F32;
    fn add(self, o: F32) -> (r: F32)
        ensures
            self.fin() && o.fin() ==> rounded(r, self.v() + o.v()) && approx(r, self.v() + o.v()),
            self.fin() && o.fin() && grid(self.v()) && grid(o.v()) && rabs(self.v() + o.v()) <= 4194304real ==> r.fin() && r.v() == self.v() + o.v() && grid(r.v()),
    { proof { if grid(self.v()) && grid(o.v()) && rabs(self.v() + o.v()) <= 4194304real { lemma_grid_add(self.v(), o.v()); } } self.raw_add(o) }
}
impl SubSpecImpl for F32 {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: F32) -> bool { true }
    open spec fn sub_spec(self, o: F32) -> F32 { self }
}
impl Sub for F32 {
    type Output = F32;
    fn sub(self, o: F32) -> (r: F32)
        ensures
            self.fin() && o.fin() ==> rounded(r, self.v() - o.v()) && approx(r, self.v() - o.v()),
            self.fin() && o.fin() && grid(self.v()) && grid(o.v()) && rabs(self.v() - o.v()) <= 4194304real ==> r.fin() && r.v() == self.v() - o.v() && grid(r.v()),
    { proof { if grid(self.v()) && grid(o.v()) && rabs(self.v() - o.v()) <= 4194304real { lemma_grid_neg(o.v()); lemma_grid_add(self.v(), -o.v()); } } self.raw_sub(o) }
}
impl AddAssignSpecImpl for F32 {
    open spec fn obeys_add_assign_spec() -> bool { false }
    open spec fn add_assign_req(&self, o: F32) -> bool { true }
    open spec fn add_assign_spec(&self, o: F32) -> &F32 { self }
}
impl AddAssign for F32 {
    fn add_assign(&mut self, o: F32)
        ensures
            old(self).fin() && o.fin() ==> rounded(*final(self), old(self).v() + o.v()) && approx(*final(self), old(self).v() + o.v()),
            old(self).fin() && o.fin() && grid(old(self).v()) && grid(o.v()) && rabs(old(self).v() + o.v()) <= 4194304real ==> final(self).fin() && final(self).v() == old(self).v() + o.v() && grid(final(self).v()),
    { let r = *self + o; *self = r; }
}
impl SubAssignSpecImpl for F32 {
    open spec fn obeys_sub_assign_spec() -> bool { false }
    open spec fn sub_assign_req(&self, o: F32) -> bool { true }
    open spec fn sub_assign_spec(&self, o: F32) -> &F32 { self }
}
impl SubAssign for F32 {
    fn sub_assign(&mut self, o: F32)
        ensures
            old(self).fin() && o.fin() ==> rounded(*final(self), old(self).v() - o.v()) && approx(*final(self), old(self).v() - o.v()),
            old(self).fin() && o.fin() && grid(old(self).v()) && grid(o.v()) && rabs(old(self).v() - o.v()) <= 4194304real ==> final(self).fin() && final(self).v() == old(self).v() - o.v() && grid(final(self).v()),
    { let r = *self - o; *self = r; }
}
impl NegSpecImpl for F32 {
    open spec fn obeys_neg_spec() -> bool { false }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> F32 { self }
}
impl Neg for F32 {
    type Output = F32;
    #[verifier::external_body]
    fn neg(self) -> (r: F32)
        ensures r.fin() == self.fin(), self.fin() ==> r.v() == -self.v(), self.fin() && grid(self.v()) ==> grid(r.v()),
    { F32 { x: -self.x } }
}
pub uninterp spec fn f32_eq(a: F32, b: F32) -> bool;
pub uninterp spec fn f32_cmp(a: F32, b: F32) -> Option<Ordering>;
#[verifier::external_body]
pub broadcast proof fn axiom_f32_eq(a: F32, b: F32)
    requires a.fin(), b.fin(),
    ensures #[trigger] f32_eq(a, b) == (a.v() == b.v()),
{ }
#[verifier::external_body]
pub broadcast proof fn axiom_f32_cmp(a: F32, b: F32)
    requires a.fin(), b.fin(),
    ensures #[trigger] f32_cmp(a, b) == (if a.v() < b.v() { Some(Ordering::Less) } else if a.v() == b.v() { Some(Ordering::Equal) } else { Some(Ordering::Greater) }),
{ }
impl PartialEqSpecImpl for F32 {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &F32) -> bool { f32_eq(*self, *o) }
}
impl PartialEq for F32 {
    #[verifier::external_body]
    fn eq(&self, o: &F32) -> (r: bool) { self.x == o.x }
}
impl PartialOrdSpecImpl for F32 {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &F32) -> Option<Ordering> { f32_cmp(*self, *o) }
}
impl PartialOrd for F32 {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &F32) -> (r: Option<Ordering>) { self.x.partial_cmp(&o.x) }
}

pub proof fn lemma_grid_add(a: real, b: real)
    requires grid(a), grid(b), rabs(a + b) <= 4194304real,
    ensures grid(a + b),
{
    let n = choose|n: int| -16777216 <= n <= 16777216 && a == #[trigger] q4(n);
    let m = choose|n: int| -16777216 <= n <= 16777216 && b == #[trigger] q4(n);
    assert(a + b == q4(n + m));
}
pub proof fn lemma_grid_neg(a: real)
    requires grid(a),
    ensures grid(-a),
{
    let n = choose|n: int| -16777216 <= n <= 16777216 && a == #[trigger] q4(n);
    assert(-a == q4(-n));
}
pub proof fn lemma_grid_int(n: int)
    requires -4194304 <= n <= 4194304,
    ensures grid(n as real),
{
    assert(n as real == q4(4 * n));
}
}
