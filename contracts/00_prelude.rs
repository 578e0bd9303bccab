// Hand-written prelude: the stand-ins for std / third-party types. Everything here is verified by
// Verus except the items marked external_body / assume_specification, which DESIGN.md lists.
#![allow(non_snake_case, unused_imports, unused_variables, unused_mut, dead_code, unused_macros, unused_parens, non_camel_case_types, unused_braces, non_upper_case_globals, unused_assignments)]
#![verifier::loop_isolation(false)]
#![verifier::allow(assert_forall_implication)]
#![verifier::allow(autoderive_clone_without_spec)]
use vstd::prelude::*;
use vstd::std_specs::core::IndexSpecImpl;
use std::ops::{Add, AddAssign, Index, IndexMut, Neg, Not, Sub, SubAssign};
use std::cmp::Ordering;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;

// the operations of the bitflags crate that the code uses
macro_rules! flags_ops {
    ($n:ident) => { verus! {
        impl $n {
            pub open spec fn has(self, o: $n) -> bool { self.bits & o.bits == o.bits }
            pub fn bits(&self) -> (r: u32) ensures r == self.bits { self.bits }
            pub fn from_bits_truncate(b: u32) -> (r: $n) ensures r.bits == b & $n::all_bits() { $n { bits: b & $n::v_all_bits() } }
            pub fn empty() -> (r: $n) ensures r.bits == 0 { $n { bits: 0 } }
        }
        impl vstd::std_specs::ops::BitOrSpecImpl for $n {
            open spec fn obeys_bitor_spec() -> bool { true }
            open spec fn bitor_req(self, o: $n) -> bool { true }
            open spec fn bitor_spec(self, o: $n) -> $n { $n { bits: self.bits | o.bits } }
        }
        impl core::ops::BitOr for $n {
            type Output = $n;
            fn bitor(self, o: $n) -> $n { $n { bits: self.bits | o.bits } }
        }
        impl VContains<$n> for $n {
            open spec fn vc(&self, o: $n) -> bool { self.has(o) }
            open spec fn vc_req(&self, o: $n) -> bool { true }
            fn v_contains(&self, o: $n) -> (r: bool) { self.bits & o.bits == o.bits }
        }
    } };
}

verus! {

// ---------------------------------------------------------------- assertions and panics
/// assert!(c) of the code: the condition is an obligation.
pub fn exec_assert(b: bool)
    requires b, // OBLIGATION: an assertion of the code can fail
{
}

/// assert!(c) that documents a rejected call: normal return implies the condition.
#[verifier::external_body]
pub fn exec_reject(b: bool, Ghost(cond): Ghost<bool>)
    requires cond ==> b, // OBLIGATION: a call the property allows is rejected
    ensures b,
{
    assert!(b);
}

pub fn vpanic<T>() -> (r: T)
    requires false, // OBLIGATION: a panic of the code is reachable
{
    loop
        invariant false,
        decreases 0int,
    {
    }
}

#[verifier::external_body]
pub fn vpanic_reject<T>(Ghost(cond): Ghost<bool>) -> (r: T)
    requires !cond, // OBLIGATION: a call the property allows is rejected
    ensures false,
{
    panic!()
}

#[verifier::external_body]
pub fn vstring() -> String {
    String::new()
}

#[verifier::external_body]
pub fn vec_rep<T: Copy>(x: T, n: usize) -> (r: Vec<T>)
    ensures
        r@.len() == n,
        forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x,
{
    vec![x; n]
}

pub fn v_prefix<T>(s: &[T], n: usize) -> (r: &[T])
    requires n <= s@.len(), // OBLIGATION: slice range out of bounds
    ensures r@ == s@.subrange(0, n as int),
{
    vstd::slice::slice_subrange(s, 0, n)
}

// ---------------------------------------------------------------- eager iterators
pub struct It<T> {
    pub v: Vec<T>,
}

impl<T> View for It<T> {
    type V = Seq<T>;
    open spec fn view(&self) -> Seq<T> { self.v@ }
}

pub open spec fn keep_by<T>(s: Seq<T>, bs: Seq<bool>) -> Seq<T>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() }
    else {
        let r = keep_by(s.drop_last(), bs);
        if bs[s.len() - 1] { r.push(s.last()) } else { r }
    }
}

pub open spec fn somes<T>(s: Seq<Option<T>>) -> Seq<T>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() }
    else {
        let r = somes(s.drop_last());
        match s.last() { Some(x) => r.push(x), None => r }
    }
}

pub open spec fn flat<T>(s: Seq<Seq<T>>) -> Seq<T>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + s.last() }
}

pub proof fn lemma_keep_by_filter<T>(s: Seq<T>, bs: Seq<bool>, p: spec_fn(T) -> bool)
    requires forall|i: int| 0 <= i < s.len() ==> bs[i] == p(s[i]),
    ensures keep_by(s, bs) == s.filter(p),
    decreases s.len(),
{
    reveal_with_fuel(Seq::filter, 2);
    if s.len() > 0 {
        lemma_keep_by_filter(s.drop_last(), bs, p);
    }
}

pub proof fn lemma_keep_by_members<T>(s: Seq<T>, bs: Seq<bool>)
    ensures
        forall|j: int| 0 <= j < keep_by(s, bs).len() ==> exists|i: int| 0 <= i < s.len() && bs[i] && s[i] == #[trigger] keep_by(s, bs)[j],
        forall|i: int| 0 <= i < s.len() && bs[i] ==> keep_by(s, bs).contains(#[trigger] s[i]),
        s.no_duplicates() ==> keep_by(s, bs).no_duplicates(),
        keep_by(s, bs).len() <= s.len(),
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_keep_by_members(t, bs);
        let r = keep_by(s, bs);
        let q = keep_by(t, bs);
        assert forall|j: int| 0 <= j < r.len() implies exists|i: int| 0 <= i < s.len() && bs[i] && s[i] == #[trigger] r[j] by {
            if j < q.len() {
                let i = choose|i: int| 0 <= i < t.len() && bs[i] && t[i] == q[j];
                assert(s[i] == r[j]);
            } else {
                assert(s[s.len() - 1] == r[j]);
            }
        }
        assert forall|i: int| 0 <= i < s.len() && bs[i] implies r.contains(#[trigger] s[i]) by {
            if i < t.len() {
                assert(t[i] == s[i]);
                let j = choose|j: int| 0 <= j < q.len() && q[j] == t[i];
                assert(r[j] == s[i]);
            } else {
                assert(r[r.len() - 1] == s[i]);
            }
        }
        if s.no_duplicates() {
            assert(t.no_duplicates());
            if bs[s.len() - 1] {
                assert forall|a: int, b: int| 0 <= a < r.len() && 0 <= b < r.len() && a != b implies r[a] != r[b] by {
                    if a < q.len() && b < q.len() {
                        assert(q[a] != q[b]);
                    } else if a < q.len() {
                        let i = choose|i: int| 0 <= i < t.len() && bs[i] && t[i] == q[a];
                        assert(s[i] != s[s.len() - 1]);
                    } else if b < q.len() {
                        let i = choose|i: int| 0 <= i < t.len() && bs[i] && t[i] == q[b];
                        assert(s[i] != s[s.len() - 1]);
                    }
                }
            }
        }
    }
}

pub proof fn lemma_somes_members<T>(s: Seq<Option<T>>)
    ensures
        forall|j: int| 0 <= j < somes(s).len() ==> exists|i: int| 0 <= i < s.len() && s[i] == Some(#[trigger] somes(s)[j]),
        forall|i: int| 0 <= i < s.len() ==> ((#[trigger] s[i]) is Some ==> somes(s).contains(s[i].unwrap())),
        somes(s).len() <= s.len(),
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_somes_members(t);
        let r = somes(s);
        let q = somes(t);
        assert forall|j: int| 0 <= j < r.len() implies exists|i: int| 0 <= i < s.len() && s[i] == Some(#[trigger] r[j]) by {
            if j < q.len() {
                let i = choose|i: int| 0 <= i < t.len() && t[i] == Some(q[j]);
                assert(s[i] == Some(r[j]));
            } else {
                assert(s[s.len() - 1] == Some(r[j]));
            }
        }
        assert forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Some implies r.contains(s[i].unwrap()) by {
            if i < t.len() {
                assert(t[i] == s[i]);
                let j = choose|j: int| 0 <= j < q.len() && q[j] == t[i].unwrap();
                assert(r[j] == s[i].unwrap());
            } else {
                assert(r[r.len() - 1] == s[i].unwrap());
            }
        }
    }
}

/// A name for a witness, so that it is found again where it is needed.
pub open spec fn mark<A>(a: A) -> bool { true }

pub open spec fn filter_post<T, F: Fn(&T) -> bool>(s: Seq<T>, f: F, r: Seq<T>, bs: Seq<bool>) -> bool {
    &&& bs.len() == s.len()
    &&& forall|i: int| #![trigger bs[i]] #![trigger s[i]] 0 <= i < s.len() ==> f.ensures((&s[i],), bs[i])
    &&& r == keep_by(s, bs)
}

pub open spec fn fmap_post<T, U, F: Fn(T) -> Option<U>>(s: Seq<T>, f: F, r: Seq<U>, os: Seq<Option<U>>) -> bool {
    &&& os.len() == s.len()
    &&& forall|i: int| #![trigger os[i]] #![trigger s[i]] 0 <= i < s.len() ==> f.ensures((s[i],), os[i])
    &&& r == somes(os)
}

pub open spec fn spec_sum(s: Seq<usize>) -> int
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { spec_sum(s.drop_last()) + s.last() }
}

pub proof fn lemma_sum_prefix(s: Seq<usize>, k: int)
    requires 0 <= k <= s.len(),
    ensures 0 <= spec_sum(s.subrange(0, k)) <= spec_sum(s),
    decreases s.len() - k,
{
    lemma_sum_nonneg(s.subrange(0, k));
    if k < s.len() {
        lemma_sum_prefix(s, k + 1);
        assert(s.subrange(0, k + 1).drop_last() =~= s.subrange(0, k));
    } else {
        assert(s.subrange(0, k) =~= s);
    }
}

pub proof fn lemma_sum_nonneg(s: Seq<usize>)
    ensures spec_sum(s) >= 0,
    decreases s.len(),
{
    if s.len() > 0 { lemma_sum_nonneg(s.drop_last()); }
}

impl<T> It<T> {
    pub fn len(&self) -> (r: usize)
        ensures r == self@.len(),
    {
        self.v.len()
    }

    pub fn pull(&mut self) -> (r: T)
        requires old(self)@.len() > 0,
        ensures r == old(self)@[0], final(self)@ == old(self)@.subrange(1, old(self)@.len() as int),
    {
        let r = self.v.remove(0);
        assert(self.v@ =~= old(self)@.subrange(1, old(self)@.len() as int));
        r
    }

    pub fn at(&self, i: usize) -> (r: T)
        where T: Copy
        requires i < self@.len(),
        ensures r == self@[i as int],
    {
        self.v[i]
    }

    pub fn next(&mut self) -> (r: Option<T>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.subrange(1, old(self)@.len() as int),
    {
        if self.v.len() == 0 { None } else { Some(self.pull()) }
    }

    pub fn last(self) -> (r: Option<T>)
        ensures
            self@.len() == 0 ==> r is None,
            self@.len() > 0 ==> r == Some(self@.last()),
    {
        let mut s = self;
        s.v.pop()
    }

    pub fn count(self) -> (r: usize)
        ensures r == self@.len(),
    {
        self.v.len()
    }

    pub fn collect<C: FromIt<T>>(self) -> (r: C)
        requires C::fi_req(self@), // OBLIGATION: capacity of an ArrayVec exceeded
        ensures r.fi_seq() == self@,
    {
        C::from_it(self)
    }

    pub fn collect_av<const N: usize>(self) -> (r: ArrayVec<T, N>)
        requires self@.len() <= N, // OBLIGATION: capacity of an ArrayVec exceeded
        ensures r@ == self@,
    {
        ArrayVec { v: self.v }
    }

    pub fn enumerate(self) -> (r: It<(usize, T)>)
        ensures
            r@.len() == self@.len(),
            forall|i: int| 0 <= i < self@.len() ==> #[trigger] r@[i] == (i as usize, self@[i]),
    {
        let mut s = self;
        let _n = s.len();
        let ghost full = self@;
        let mut out: Vec<(usize, T)> = Vec::new();
        let mut i: usize = 0;
        while s.len() > 0
            invariant
                i + s@.len() == full.len(), full.len() <= usize::MAX,
                s@ == full.subrange(i as int, full.len() as int),
                out@.len() == i,
                forall|j: int| 0 <= j < i ==> #[trigger] out@[j] == (j as usize, full[j]),
            decreases s@.len(),
        {
            let x = s.pull();
            out.push((i, x));
            i = i + 1;
        }
        It { v: out }
    }

    pub fn v_map<U, F: Fn(T) -> U>(self, f: F) -> (r: It<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures
            r@.len() == self@.len(),
            forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < self@.len() ==> f.ensures((self@[i],), r@[i]),
    {
        let mut s = self;
        let _n = s.len();
        let ghost full = self@;
        let mut out: Vec<U> = Vec::new();
        while s.len() > 0
            invariant
                forall|i: int| 0 <= i < full.len() ==> f.requires((#[trigger] full[i],)),
                out@.len() + s@.len() == full.len(),
                s@ == full.subrange(out@.len() as int, full.len() as int),
                forall|j: int| 0 <= j < out@.len() ==> f.ensures((full[j],), #[trigger] out@[j]),
            decreases s@.len(),
        {
            let ghost k = out@.len() as int;
            let x = s.pull();
            assert(x == full[k]);
            out.push(f(x));
        }
        It { v: out }
    }

    pub fn v_filter<F: Fn(&T) -> bool>(self, f: F) -> (r: It<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] &self@[i],)),
        ensures
            exists|bs: Seq<bool>| #[trigger] mark(bs) && filter_post(self@, f, r@, bs),
    {
        let mut s = self;
        let _n = s.len();
        let ghost full = self@;
        let ghost mut bs: Seq<bool> = Seq::empty();
        let mut out: Vec<T> = Vec::new();
        while s.len() > 0
            invariant
                forall|i: int| 0 <= i < full.len() ==> f.requires((#[trigger] &full[i],)),
                bs.len() + s@.len() == full.len(),
                s@ == full.subrange(bs.len() as int, full.len() as int),
                forall|i: int| #![trigger bs[i]] #![trigger full[i]] 0 <= i < bs.len() ==> f.ensures((&full[i],), bs[i]),
                out@ == keep_by(full.subrange(0, bs.len() as int), bs),
            decreases s@.len(),
        {
            let ghost k = bs.len() as int;
            let x = s.pull();
            assert(x == full[k]);
            let b = f(&x);
            proof {
                let ghost obs = bs;
                bs = bs.push(b);
                assert(full.subrange(0, k + 1).drop_last() =~= full.subrange(0, k));
                lemma_keep_by_ext(full.subrange(0, k), obs, bs);
            }
            if b { out.push(x); }
        }
        proof {
            assert(full.subrange(0, bs.len() as int) =~= full);
        }
        let r = It { v: out };
        assert(mark(bs));
        assert(filter_post(full, f, r@, bs));
        r
    }

    pub fn v_filter_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: It<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures exists|os: Seq<Option<U>>| #[trigger] mark(os) && fmap_post(self@, f, r@, os),
    {
        let mut s = self;
        let _n = s.len();
        let ghost full = self@;
        let ghost mut os: Seq<Option<U>> = Seq::empty();
        let mut out: Vec<U> = Vec::new();
        while s.len() > 0
            invariant
                forall|i: int| 0 <= i < full.len() ==> f.requires((#[trigger] full[i],)),
                os.len() + s@.len() == full.len(),
                s@ == full.subrange(os.len() as int, full.len() as int),
                forall|i: int| #![trigger os[i]] #![trigger full[i]] 0 <= i < os.len() ==> f.ensures((full[i],), os[i]),
                out@ == somes(os),
            decreases s@.len(),
        {
            let ghost k = os.len() as int;
            let x = s.pull();
            assert(x == full[k]);
            let o = f(x);
            proof {
                assert(os.push(o).drop_last() =~= os);
                os = os.push(o);
            }
            match o { Some(y) => { out.push(y); } None => {} }
        }
        let r = It { v: out };
        assert(mark(os));
        assert(fmap_post(full, f, r@, os));
        r
    }

    pub fn v_any<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures
            r ==> exists|i: int| 0 <= i < self@.len() && f.ensures((#[trigger] self@[i],), true),
            !r ==> forall|i: int| 0 <= i < self@.len() ==> f.ensures((#[trigger] self@[i],), false),
    {
        let mut s = self;
        let _n = s.len();
        let ghost full = self@;
        let mut k: usize = 0;
        while s.len() > 0
            invariant
                forall|i: int| 0 <= i < full.len() ==> f.requires((#[trigger] full[i],)),
                full == self@, k + s@.len() == full.len(), full.len() <= usize::MAX,
                s@ == full.subrange(k as int, full.len() as int),
                forall|i: int| 0 <= i < k ==> f.ensures((#[trigger] full[i],), false),
            decreases s@.len(),
        {
            let x = s.pull();
            assert(x == full[k as int]);
            if f(x) { assert(f.ensures((full[k as int],), true)); return true; }
            k = k + 1;
        }
        false
    }

    pub fn v_all<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures
            !r ==> exists|i: int| 0 <= i < self@.len() && f.ensures((#[trigger] self@[i],), false),
            r ==> forall|i: int| 0 <= i < self@.len() ==> f.ensures((#[trigger] self@[i],), true),
    {
        let mut s = self;
        let _n = s.len();
        let ghost full = self@;
        let mut k: usize = 0;
        while s.len() > 0
            invariant
                forall|i: int| 0 <= i < full.len() ==> f.requires((#[trigger] full[i],)),
                full == self@, k + s@.len() == full.len(), full.len() <= usize::MAX,
                s@ == full.subrange(k as int, full.len() as int),
                forall|i: int| 0 <= i < k ==> f.ensures((#[trigger] full[i],), true),
            decreases s@.len(),
        {
            let x = s.pull();
            assert(x == full[k as int]);
            if !f(x) { assert(f.ensures((full[k as int],), false)); return false; }
            k = k + 1;
        }
        true
    }

    pub fn v_position<F: Fn(T) -> bool>(self, f: F) -> (r: Option<usize>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures
            r matches Some(k) ==> k < self@.len() && f.ensures((self@[k as int],), true)
                && forall|i: int| 0 <= i < k ==> f.ensures((#[trigger] self@[i],), false),
            r is None ==> forall|i: int| 0 <= i < self@.len() ==> f.ensures((#[trigger] self@[i],), false),
    {
        let mut s = self;
        let _n = s.len();
        let ghost full = self@;
        let mut k: usize = 0;
        while s.len() > 0
            invariant
                forall|i: int| 0 <= i < full.len() ==> f.requires((#[trigger] full[i],)),
                full == self@, k + s@.len() == full.len(), full.len() <= usize::MAX,
                s@ == full.subrange(k as int, full.len() as int),
                forall|i: int| 0 <= i < k ==> f.ensures((#[trigger] full[i],), false),
            decreases s@.len(),
        {
            let x = s.pull();
            assert(x == full[k as int]);
            if f(x) { assert(f.ensures((full[k as int],), true)); return Some(k); }
            k = k + 1;
        }
        None
    }

    /// flat_map over closures that return a collection.
    pub fn v_flat_map<U, C: IntoIt<U>, F: Fn(T) -> C>(self, f: F) -> (r: It<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
            forall|x: T, c: C| #![trigger f.ensures((x,), c)] f.ensures((x,), c) ==> c.it_req(),
        ensures
            exists|cs: Seq<C>| #[trigger] mark(cs) && cs.len() == self@.len()
                && (forall|i: int| #![trigger cs[i]] 0 <= i < cs.len() ==> f.ensures((self@[i],), cs[i]))
                && r@ == flat(cs.map_values(|c: C| c.it_seq())),
    {
        let mut s = self;
        let _n = s.len();
        let ghost full = self@;
        let ghost mut cs: Seq<C> = Seq::empty();
        let mut out: Vec<U> = Vec::new();
        while s.len() > 0
            invariant
                forall|x: T, c: C| #![trigger f.ensures((x,), c)] f.ensures((x,), c) ==> c.it_req(),
                forall|i: int| 0 <= i < full.len() ==> f.requires((#[trigger] full[i],)),
                cs.len() + s@.len() == full.len(),
                s@ == full.subrange(cs.len() as int, full.len() as int),
                forall|i: int| #![trigger cs[i]] 0 <= i < cs.len() ==> f.ensures((full[i],), cs[i]),
                out@ == flat(cs.map_values(|c: C| c.it_seq())),
            decreases s@.len(),
        {
            let x = s.pull();
            let c = f(x);
            proof {
                let ncs = cs.push(c);
                assert(ncs.map_values(|c: C| c.it_seq()).drop_last() =~= cs.map_values(|c: C| c.it_seq()));
                cs = ncs;
            }
            let mut l = c.into_it();
            out.append(&mut l.v);
        }
        assert(mark(cs));
        It { v: out }
    }
}

pub proof fn lemma_keep_by_ext<T>(s: Seq<T>, a: Seq<bool>, b: Seq<bool>)
    requires forall|i: int| 0 <= i < s.len() ==> a[i] == b[i],
    ensures keep_by(s, a) == keep_by(s, b),
    decreases s.len(),
{
    if s.len() > 0 { lemma_keep_by_ext(s.drop_last(), a, b); }
}

impl It<usize> {
    pub fn sum(self) -> (r: usize)
        requires spec_sum(self@) <= usize::MAX, // OBLIGATION: sum overflows
        ensures r == spec_sum(self@),
    {
        let mut t: usize = 0;
        let mut k: usize = 0;
        while k < self.v.len()
            invariant
                k <= self@.len(), spec_sum(self@) <= usize::MAX,
                t == spec_sum(self@.subrange(0, k as int)),
            decreases self@.len() - k,
        {
            proof {
                lemma_sum_prefix(self@, k + 1);
                assert(self@.subrange(0, k + 1).drop_last() =~= self@.subrange(0, k as int));
            }
            t = t + self.v[k];
            k = k + 1;
        }
        proof { assert(self@.subrange(0, k as int) =~= self@); }
        t
    }
}

/// FromIterator of the code.
pub trait FromIt<T>: Sized {
    spec fn fi_seq(&self) -> Seq<T>;
    spec fn fi_req(s: Seq<T>) -> bool;
    fn from_it(it: It<T>) -> (r: Self)
        requires Self::fi_req(it@),
        ensures r.fi_seq() == it@;
}

impl<T> FromIt<T> for Vec<T> {
    open spec fn fi_req(s: Seq<T>) -> bool { true }
    open spec fn fi_seq(&self) -> Seq<T> { self@ }
    fn from_it(it: It<T>) -> (r: Self) { it.v }
}

impl<T, const N: usize> FromIt<T> for ArrayVec<T, N> {
    open spec fn fi_req(s: Seq<T>) -> bool { s.len() <= N }
    open spec fn fi_seq(&self) -> Seq<T> { self@ }
    fn from_it(it: It<T>) -> (r: Self) { ArrayVec { v: it.v } }
}

/// IntoIterator of the code, eager.
pub trait IntoIt<T>: Sized {
    spec fn it_seq(self) -> Seq<T>;
    spec fn it_req(self) -> bool;
    fn into_it(self) -> (r: It<T>)
        requires self.it_req(),
        ensures r@ == self.it_seq();
}

impl<T> IntoIt<T> for It<T> {
    open spec fn it_req(self) -> bool { true }
    open spec fn it_seq(self) -> Seq<T> { self@ }
    fn into_it(self) -> (r: It<T>) { self }
}

impl<T> IntoIt<T> for Vec<T> {
    open spec fn it_req(self) -> bool { true }
    open spec fn it_seq(self) -> Seq<T> { self@ }
    fn into_it(self) -> (r: It<T>) { It { v: self } }
}

impl<T: Copy, const N: usize> IntoIt<T> for [T; N] {
    open spec fn it_req(self) -> bool { true }
    open spec fn it_seq(self) -> Seq<T> { self@ }
    fn into_it(self) -> (r: It<T>) {
        let mut out: Vec<T> = Vec::new();
        let mut i: usize = 0;
        while i < N
            invariant i <= N, out@ == self@.subrange(0, i as int),
            decreases N - i,
        {
            out.push(self[i]);
            i = i + 1;
            proof { assert(self@.subrange(0, i as int) =~= self@.subrange(0, i - 1).push(self@[i - 1])); }
        }
        proof { assert(self@.subrange(0, i as int) =~= self@); }
        It { v: out }
    }
}

pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }

pub fn refs_of<'a, T>(s: &'a [T]) -> (r: It<&'a T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> *(#[trigger] r@[i]) == s@[i],
{
    let mut out: Vec<&'a T> = Vec::new();
    let mut i: usize = 0;
    while i < s.len()
        invariant i <= s@.len(), out@.len() == i, forall|j: int| 0 <= j < i ==> *(#[trigger] out@[j]) == s@[j],
        decreases s@.len() - i,
    {
        out.push(&s[i]);
        i = i + 1;
    }
    It { v: out }
}

impl<'a, T> IntoIt<&'a T> for &'a [T] {
    open spec fn it_req(self) -> bool { true }
    open spec fn it_seq(self) -> Seq<&'a T> { refs(self@) }
    fn into_it(self) -> (r: It<&'a T>) {
        let r = refs_of(self);
        assert(r@ =~= refs(self@));
        r
    }
}

impl<'a, T> IntoIt<&'a T> for &'a Vec<T> {
    open spec fn it_req(self) -> bool { true }
    open spec fn it_seq(self) -> Seq<&'a T> { refs(self@) }
    fn into_it(self) -> (r: It<&'a T>) {
        let r = refs_of(self.as_slice());
        assert(r@ =~= refs(self@));
        r
    }
}

impl<'a, T, const N: usize> IntoIt<&'a T> for &'a ArrayVec<T, N> {
    open spec fn it_req(self) -> bool { true }
    open spec fn it_seq(self) -> Seq<&'a T> { refs(self@) }
    fn into_it(self) -> (r: It<&'a T>) {
        let r = refs_of(self.v.as_slice());
        assert(r@ =~= refs(self@));
        r
    }
}

/// `&x` where a slice is expected.
pub trait VSlice<T> {
    spec fn vs_seq(&self) -> Seq<T>;
    fn v_slice(&self) -> (r: &[T])
        ensures r@ == self.vs_seq();
}
impl<T> VSlice<T> for Vec<T> {
    open spec fn vs_seq(&self) -> Seq<T> { self@ }
    fn v_slice(&self) -> (r: &[T]) { self.as_slice() }
}
impl<T, const N: usize> VSlice<T> for [T; N] {
    open spec fn vs_seq(&self) -> Seq<T> { self@ }
    fn v_slice(&self) -> (r: &[T]) { self.as_slice() }
}
impl<T, const N: usize> VSlice<T> for ArrayVec<T, N> {
    open spec fn vs_seq(&self) -> Seq<T> { self@ }
    fn v_slice(&self) -> (r: &[T]) { self.v.as_slice() }
}

/// `.iter()` of slices, arrays, vectors.
pub trait VIter<T> {
    spec fn vi_seq(&self) -> Seq<T>;
    fn v_iter<'a>(&'a self) -> (r: It<&'a T>)
        ensures
            r@.len() == self.vi_seq().len(),
            forall|i: int| #![trigger r@[i]] #![trigger self.vi_seq()[i]] 0 <= i < r@.len() ==> *r@[i] == self.vi_seq()[i];
}

impl<T> VIter<T> for Vec<T> {
    open spec fn vi_seq(&self) -> Seq<T> { self@ }
    fn v_iter<'a>(&'a self) -> (r: It<&'a T>) { refs_of(self.as_slice()) }
}

impl<T> VIter<T> for [T] {
    open spec fn vi_seq(&self) -> Seq<T> { self@ }
    fn v_iter<'a>(&'a self) -> (r: It<&'a T>) { refs_of(self) }
}

impl<T, const N: usize> VIter<T> for [T; N] {
    open spec fn vi_seq(&self) -> Seq<T> { self@ }
    fn v_iter<'a>(&'a self) -> (r: It<&'a T>) { refs_of(self.as_slice()) }
}

impl<T, const N: usize> VIter<T> for ArrayVec<T, N> {
    open spec fn vi_seq(&self) -> Seq<T> { self@ }
    fn v_iter<'a>(&'a self) -> (r: It<&'a T>) { refs_of(self.v.as_slice()) }
}

// ---------------------------------------------------------------- Option / Result combinators
pub trait OptExt<T>: Sized {
    spec fn o(self) -> Option<T>;
    fn v_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Option<U>)
        requires self.o() is Some ==> f.requires((self.o().unwrap(),)),
        ensures
            r is Some <==> self.o() is Some,
            self.o() is Some ==> f.ensures((self.o().unwrap(),), r.unwrap());
    fn v_map_or<U, F: FnOnce(T) -> U>(self, d: U, f: F) -> (r: U)
        requires self.o() is Some ==> f.requires((self.o().unwrap(),)),
        ensures
            self.o() is None ==> r == d,
            self.o() is Some ==> f.ensures((self.o().unwrap(),), r);
    fn v_filter<F: FnOnce(&T) -> bool>(self, f: F) -> (r: Option<T>)
        requires self.o() is Some ==> f.requires((&self.o().unwrap(),)),
        ensures
            self.o() is None ==> r is None,
            self.o() is Some ==> (r == self.o() && f.ensures((&self.o().unwrap(),), true)) || (r is None && f.ensures((&self.o().unwrap(),), false));
    fn v_and_then<U, F: FnOnce(T) -> Option<U>>(self, f: F) -> (r: Option<U>)
        requires self.o() is Some ==> f.requires((self.o().unwrap(),)),
        ensures
            self.o() is None ==> r is None,
            self.o() is Some ==> f.ensures((self.o().unwrap(),), r);
}

impl<T> OptExt<T> for Option<T> {
    open spec fn o(self) -> Option<T> { self }
    fn v_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Option<U>) {
        match self { Some(x) => Some(f(x)), None => None }
    }
    fn v_map_or<U, F: FnOnce(T) -> U>(self, d: U, f: F) -> (r: U) {
        match self { Some(x) => f(x), None => d }
    }
    fn v_filter<F: FnOnce(&T) -> bool>(self, f: F) -> (r: Option<T>) {
        match self { Some(x) => if f(&x) { Some(x) } else { None }, None => None }
    }
    fn v_and_then<U, F: FnOnce(T) -> Option<U>>(self, f: F) -> (r: Option<U>) {
        match self { Some(x) => f(x), None => None }
    }
}

// ---------------------------------------------------------------- conversions (std::convert)
pub trait VFrom<T>: Sized {
    spec fn from_req(t: T) -> bool;
    spec fn from_spec(t: T) -> Self;
    fn from(t: T) -> (r: Self)
        requires Self::from_req(t), // OBLIGATION: conversion panics
        ensures r == Self::from_spec(t);
}

pub trait VInto<U>: Sized {
    spec fn into_req(self) -> bool;
    spec fn into_spec(self) -> U;
    fn v_into(self) -> (r: U)
        requires self.into_req(), // OBLIGATION: conversion panics
        ensures r == self.into_spec();
}

impl<T, U: VFrom<T>> VInto<U> for T {
    open spec fn into_req(self) -> bool { U::from_req(self) }
    open spec fn into_spec(self) -> U { U::from_spec(self) }
    fn v_into(self) -> (r: U) { U::from(self) }
}

impl<T> VFrom<T> for Option<T> {
    open spec fn from_req(t: T) -> bool { true }
    open spec fn from_spec(t: T) -> Option<T> { Some(t) }
    fn from(t: T) -> (r: Option<T>) { Some(t) }
}

pub trait VTryFrom<T>: Sized {
    type Error;
    spec fn try_spec(t: T) -> Option<Self>;
    fn try_from(t: T) -> (r: Result<Self, Self::Error>)
        ensures
            Self::try_spec(t) is Some <==> r is Ok,
            r matches Ok(x) ==> Self::try_spec(t) == Some(x);
}

pub trait VTryInto<U: VTryFrom<Self>>: Sized {
    fn v_try_into(self) -> (r: Result<U, U::Error>)
        ensures
            U::try_spec(self) is Some <==> r is Ok,
            r matches Ok(x) ==> U::try_spec(self) == Some(x);
}
impl<T, U: VTryFrom<T>> VTryInto<U> for T {
    fn v_try_into(self) -> (r: Result<U, U::Error>) { U::try_from(self) }
}

/// slice::chunks_exact, eager.
pub trait VChunks<T> {
    spec fn cs_seq(&self) -> Seq<T>;
    fn v_chunks_exact<'a>(&'a self, n: usize) -> (r: It<&'a [T]>)
        requires n > 0, // OBLIGATION: chunks_exact panics on chunk size 0
        ensures
            r@.len() == self.cs_seq().len() as int / n as int,
            forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k])@ == self.cs_seq().subrange(k * n, (k + 1) * n),
            forall|k: int| 0 <= k < r@.len() ==> 0 <= #[trigger] (k * n) && k * n + n <= self.cs_seq().len();
}

pub fn chunks_of<'a, T>(s: &'a [T], n: usize) -> (r: It<&'a [T]>)
    requires n > 0, // OBLIGATION: chunks_exact panics on chunk size 0
    ensures
        r@.len() == s@.len() as int / n as int,
        forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k])@ == s@.subrange(k * n, (k + 1) * n),
        forall|k: int| 0 <= k < r@.len() ==> 0 <= #[trigger] (k * n) && k * n + n <= s@.len(),
{
    let mut out: Vec<&'a [T]> = Vec::new();
    let len = s.len();
    let mut i: usize = 0;
    proof { assert(0 * n == 0); }
    while len - i >= n
        invariant
            n > 0, len == s@.len(), i <= len, i == out@.len() * n,
            forall|k: int| 0 <= k < out@.len() ==> (#[trigger] out@[k])@ == s@.subrange(k * n, (k + 1) * n),
            forall|k: int| 0 <= k < out@.len() ==> 0 <= #[trigger] (k * n) && k * n + n <= s@.len(),
        decreases len - i,
    {
        let ghost m = out@.len() as int;
        proof { assert((m + 1) * n == m * n + n) by (nonlinear_arith); assert(m * n == i); }
        out.push(vstd::slice::slice_subrange(s, i, i + n));
        i = i + n;
    }
    proof {
        let m = out@.len() as int;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(s@.len() as int, n as int, m, s@.len() - m * n);
    }
    It { v: out }
}

impl<T> VChunks<T> for [T] {
    open spec fn cs_seq(&self) -> Seq<T> { self@ }
    fn v_chunks_exact<'a>(&'a self, n: usize) -> (r: It<&'a [T]>) { chunks_of(self, n) }
}

// ---------------------------------------------------------------- text
pub struct VStr {
    pub v: Vec<char>,
}

impl View for VStr {
    type V = Seq<char>;
    open spec fn view(&self) -> Seq<char> { self.v@ }
}

impl VStr {
    pub fn new() -> (r: VStr)
        ensures r@ == Seq::<char>::empty(),
    { VStr { v: Vec::new() } }
    pub fn push(&mut self, c: char)
        ensures final(self)@ == old(self)@.push(c),
    { self.v.push(c); }
}

// ---------------------------------------------------------------- nonmax
#[derive(Copy, Clone, PartialEq, Eq)]
pub struct NonMaxU16 {
    pub n: u16,
}

impl NonMaxU16 {
    pub open spec fn ok(self) -> bool { self.n < 0xffff }

    pub fn get(self) -> (r: u16)
        ensures r == self.n,
    {
        self.n
    }

    pub fn new(n: u16) -> (r: Option<NonMaxU16>)
        ensures
            n == 0xffff ==> r is None,
            n != 0xffff ==> r == Some(NonMaxU16 { n }),
    {
        if n == 0xffff { None } else { Some(NonMaxU16 { n }) }
    }
}

// ---------------------------------------------------------------- arrayvec
pub struct ArrayVec<T, const N: usize> {
    pub v: Vec<T>,
}

impl<T, const N: usize> View for ArrayVec<T, N> {
    type V = Seq<T>;
    open spec fn view(&self) -> Seq<T> { self.v@ }
}

impl<T, const N: usize> ArrayVec<T, N> {
    pub fn new() -> (r: Self)
        ensures r@ == Seq::<T>::empty(),
    {
        ArrayVec { v: Vec::new() }
    }
    pub fn new_const() -> (r: Self)
        ensures r@ == Seq::<T>::empty(),
    {
        ArrayVec { v: Vec::new() }
    }
    pub fn push(&mut self, x: T)
        requires old(self)@.len() < N, // OBLIGATION: capacity of an ArrayVec exceeded
        ensures final(self)@ == old(self)@.push(x),
    {
        self.v.push(x);
    }
    pub fn len(&self) -> (r: usize)
        ensures r == self@.len(),
    {
        self.v.len()
    }
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self@.len() == 0),
    {
        self.v.len() == 0
    }
    pub fn as_slice(&self) -> (r: &[T])
        ensures r@ == self@,
    {
        self.v.as_slice()
    }
    pub fn from(a: [T; N]) -> (r: Self)
        where T: Copy
        ensures r@ == a@,
    {
        ArrayVec { v: a.into_it().v }
    }
    pub fn v_retain<F: Fn(&T) -> bool>(&mut self, f: F)
        where T: Copy
        requires forall|i: int| 0 <= i < old(self)@.len() ==> f.requires((#[trigger] &old(self)@[i],)),
        ensures exists|bs: Seq<bool>| #[trigger] mark(bs) && filter_post(old(self)@, f, final(self)@, bs),
    {
        let ghost full = self@;
        let ghost mut bs: Seq<bool> = Seq::empty();
        let mut out: Vec<T> = Vec::new();
        let mut i: usize = 0;
        while i < self.v.len()
            invariant
                self@ == full, bs.len() == i, i <= full.len(),
                forall|i: int| 0 <= i < full.len() ==> f.requires((#[trigger] &full[i],)),
                forall|j: int| #![trigger bs[j]] #![trigger full[j]] 0 <= j < bs.len() ==> f.ensures((&full[j],), bs[j]),
                out@ == keep_by(full.subrange(0, bs.len() as int), bs),
            decreases full.len() - i,
        {
            let x = self.v[i];
            let b = f(&x);
            proof {
                let ghost obs = bs;
                bs = bs.push(b);
                assert(full.subrange(0, i + 1).drop_last() =~= full.subrange(0, i as int));
                lemma_keep_by_ext(full.subrange(0, i as int), obs, bs);
            }
            if b { out.push(x); }
            i = i + 1;
        }
        proof {
            assert(full.subrange(0, bs.len() as int) =~= full);
        }
        self.v = out;
        assert(mark(bs));
        assert(filter_post(full, f, self@, bs));
    }
}

impl<T, const N: usize> IndexSpecImpl<usize> for ArrayVec<T, N> {
    open spec fn index_req(&self, i: &usize) -> bool { *i < self@.len() }
}

impl<T, const N: usize> Index<usize> for ArrayVec<T, N> {
    type Output = T;
    fn index(&self, i: usize) -> (r: &T)
        ensures *r == self@[i as int],
    {
        &self.v[i]
    }
}

impl<T, const N: usize> IntoIt<T> for ArrayVec<T, N> {
    open spec fn it_req(self) -> bool { true }
    open spec fn it_seq(self) -> Seq<T> { self@ }
    fn into_it(self) -> (r: It<T>) { It { v: self.v } }
}

pub trait VContains<Q> {
    spec fn vc(&self, x: Q) -> bool;
    spec fn vc_req(&self, x: Q) -> bool;
    fn v_contains(&self, x: Q) -> (r: bool)
        requires self.vc_req(x),
        ensures r == self.vc(x);
}

impl<'a, const N: usize> VContains<&'a usize> for [usize; N] {
    open spec fn vc(&self, x: &'a usize) -> bool { self@.contains(*x) }
    open spec fn vc_req(&self, x: &'a usize) -> bool { true }
    fn v_contains(&self, x: &'a usize) -> (r: bool) {
        let mut i: usize = 0;
        while i < N
            invariant i <= N, N == self@.len(), forall|j: int| 0 <= j < i ==> self@[j] != *x,
            decreases N - i,
        {
            if self[i] == *x {
                assert(self@[i as int] == *x);
                return true;
            }
            i = i + 1;
        }
        false
    }
}

impl<'a, const N: usize> VContains<&'a usize> for ArrayVec<usize, N> {
    open spec fn vc(&self, x: &'a usize) -> bool { self@.contains(*x) }
    open spec fn vc_req(&self, x: &'a usize) -> bool { true }
    fn v_contains(&self, x: &'a usize) -> (r: bool) {
        let mut i: usize = 0;
        while i < self.v.len()
            invariant i <= self@.len(), forall|j: int| 0 <= j < i ==> self@[j] != *x,
            decreases self@.len() - i,
        {
            if self.v[i] == *x {
                assert(self@[i as int] == *x);
                return true;
            }
            i = i + 1;
        }
        false
    }
}

pub fn slice_swap<T: Copy>(v: &mut Vec<T>, a: usize, b: usize)
    requires a < old(v)@.len(), b < old(v)@.len(), // OBLIGATION: index out of bounds in swap
    ensures final(v)@ == old(v)@.update(a as int, old(v)@[b as int]).update(b as int, old(v)@[a as int]),
{
    let x = v[a];
    let y = v[b];
    v[a] = y;
    v[b] = x;
}

pub trait VSwap<T> {
    spec fn sw(&self) -> Seq<T>;
    fn v_swap(&mut self, a: usize, b: usize)
        requires a < old(self).sw().len(), b < old(self).sw().len(), // OBLIGATION: index out of bounds in swap
        ensures final(self).sw() == old(self).sw().update(a as int, old(self).sw()[b as int]).update(b as int, old(self).sw()[a as int]);
}

impl<T: Copy> VSwap<T> for Vec<T> {
    open spec fn sw(&self) -> Seq<T> { self@ }
    fn v_swap(&mut self, a: usize, b: usize) { slice_swap(self, a, b) }
}

pub trait VFirstMut<T> {
    fn v_first_mut(&mut self) -> (r: Option<&mut T>);
}

impl<T> VFirstMut<T> for [T] {
    fn v_first_mut(&mut self) -> (r: Option<&mut T>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r is Some && *r.unwrap() == old(self)@[0] && final(self)@ == old(self)@.update(0, *final(r.unwrap())),
    {
        if self.len() == 0 { None } else { Some(&mut self[0]) }
    }
}

pub trait VBitOr {
    spec fn bor(self, o: Self) -> Self where Self: Sized;
    fn v_bitor_assign(&mut self, o: &Self) where Self: Sized
        ensures *final(self) == old(self).bor(*o);
}

impl VBitOr for u8 {
    open spec fn bor(self, o: u8) -> u8 { self | o }
    fn v_bitor_assign(&mut self, o: &u8) { *self = *self | *o; }
}

} // verus!
