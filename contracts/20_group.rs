verus! {

// ================================================================ liberties as a bit set
pub open spec fn byte_bit(b: u8, s: u8) -> bool { (b >> s) & 1u8 == 1u8 }

pub open spec fn lbit(lib: [u8; 46], k: int) -> bool {
    byte_bit(lib@[k / 8], (k % 8) as u8)
}

pub open spec fn lset(lib: [u8; 46]) -> Set<int> {
    Set::<int>::range(0, 368).filter(|k: int| lbit(lib, k))
}

pub open spec fn b01(b: u8, s: u8) -> int { if byte_bit(b, s) { 1 } else { 0 } }

/// Number of one bits of a byte.
pub open spec fn pop8(b: u8) -> int {
    b01(b, 0) + b01(b, 1) + b01(b, 2) + b01(b, 3) + b01(b, 4) + b01(b, 5) + b01(b, 6) + b01(b, 7)
}

pub open spec fn same_but_libs(a: Group, b: Group) -> bool {
    a.color == b.color && a.origin == b.origin && a.last == b.last && a.num_stones == b.num_stones
}

pub assume_specification [u8::count_ones] (b: u8) -> (r: u32)
    ensures r == pop8(b);

pub proof fn lemma_set_bit(l0: [u8; 46], l1: [u8; 46], k: int, val: bool, s: u8, mask: u8)
    requires
        0 <= k < 368, s == k % 8, mask == 1u8 << s,
        forall|i: int| 0 <= i < 46 && i != k / 8 ==> l1@[i] == l0@[i],
        val ==> l1@[k / 8] == l0@[k / 8] | mask,
        !val ==> l1@[k / 8] == l0@[k / 8] & !mask,
    ensures
        forall|j: int| 0 <= j < 368 ==> (#[trigger] lbit(l1, j) == if j == k { val } else { lbit(l0, j) }),
{
    assert forall|j: int| 0 <= j < 368 implies (#[trigger] lbit(l1, j) == if j == k { val } else { lbit(l0, j) }) by {
        if j / 8 == k / 8 {
            let b = l0@[k / 8];
            let t = (j % 8) as u8;
            assert(s < 8 && t < 8 ==> ((((b | (1u8 << s)) >> t) & 1u8 == 1u8) <==> (s == t || ((b >> t) & 1u8 == 1u8)))) by (bit_vector);
            assert(s < 8 && t < 8 ==> ((((b & !(1u8 << s)) >> t) & 1u8 == 1u8) <==> (s != t && ((b >> t) & 1u8 == 1u8)))) by (bit_vector);
            assert((j == k) <==> (s == t));
        }
    }
}

pub proof fn lemma_merge_bits(a: [u8; 46], b: [u8; 46], c: [u8; 46])
    requires forall|i: int| 0 <= i < 46 ==> #[trigger] c@[i] == a@[i] | b@[i],
    ensures forall|k: int| 0 <= k < 368 ==> (#[trigger] lbit(c, k) == (lbit(a, k) || lbit(b, k))),
{
    assert forall|k: int| 0 <= k < 368 implies (#[trigger] lbit(c, k) == (lbit(a, k) || lbit(b, k))) by {
        let (x, y, t) = (a@[k / 8], b@[k / 8], (k % 8) as u8);
        assert(c@[k / 8] == x | y);
        assert(t < 8 ==> ((((x | y) >> t) & 1u8 == 1u8) <==> (((x >> t) & 1u8 == 1u8) || ((y >> t) & 1u8 == 1u8)))) by (bit_vector);
    }
}

pub proof fn lemma_get_bit(lib: [u8; 46], k: int)
    requires 0 <= k < 368,
    ensures ((lib@[k / 8] & (1u8 << ((k % 8) as u8))) != 0) == lbit(lib, k),
{
    let (x, t) = (lib@[k / 8], (k % 8) as u8);
    assert(t < 8 ==> (((x & (1u8 << t)) != 0) <==> ((x >> t) & 1u8 == 1u8))) by (bit_vector);
}

pub proof fn lemma_any_bits(lib: [u8; 46], res: bool)
    requires
        res ==> exists|i: int| 0 <= i < 46 && lib@[i] != 0,
        !res ==> forall|i: int| 0 <= i < 46 ==> lib@[i] == 0,
    ensures res == exists|k: int| 0 <= k < 368 && lbit(lib, k),
{
    if res {
        let i = choose|i: int| 0 <= i < 46 && lib@[i] != 0;
        let b = lib@[i];
        assert(b != 0 ==> (b >> 0u8) & 1u8 == 1u8 || (b >> 1u8) & 1u8 == 1u8 || (b >> 2u8) & 1u8 == 1u8 || (b >> 3u8) & 1u8 == 1u8
            || (b >> 4u8) & 1u8 == 1u8 || (b >> 5u8) & 1u8 == 1u8 || (b >> 6u8) & 1u8 == 1u8 || (b >> 7u8) & 1u8 == 1u8) by (bit_vector);
        let s: int = if byte_bit(b, 0) { 0 } else if byte_bit(b, 1) { 1 } else if byte_bit(b, 2) { 2 } else if byte_bit(b, 3) { 3 }
            else if byte_bit(b, 4) { 4 } else if byte_bit(b, 5) { 5 } else if byte_bit(b, 6) { 6 } else { 7 };
        assert((8 * i + s) / 8 == i && (8 * i + s) % 8 == s);
        assert(lbit(lib, 8 * i + s));
    } else {
        assert forall|k: int| 0 <= k < 368 implies !lbit(lib, k) by {
            let t = (k % 8) as u8;
            assert(lib@[k / 8] == 0);
            assert(t < 8 ==> (0u8 >> t) & 1u8 == 0u8) by (bit_vector);
        }
    }
}

pub proof fn lemma_empty_lset(e: [u8; 46])
    requires forall|i: int| 0 <= i < 46 ==> #[trigger] e@[i] == 0,
    ensures lset(e) == Set::<int>::empty(), forall|k: int| 0 <= k < 368 ==> !(#[trigger] lbit(e, k)),
{
    lemma_any_bits(e, false);
    assert(lset(e) =~= Set::<int>::empty());
}

pub proof fn lemma_dead(lib: [u8; 46], res: bool)
    requires res == !(exists|k: int| 0 <= k < 368 && lbit(lib, k)),
    ensures res == (lset(lib) == Set::<int>::empty()),
{
    if res {
        assert(lset(lib) =~= Set::<int>::empty());
    } else {
        let k = choose|k: int| 0 <= k < 368 && lbit(lib, k);
        assert(lset(lib).contains(k));
    }
}

pub open spec fn lset_upto(lib: [u8; 46], n: int) -> Set<int> {
    Set::<int>::range(0, n).filter(|k: int| lbit(lib, k))
}

pub open spec fn pops(lib: [u8; 46], n: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { pops(lib, n - 1) + pop8(lib@[n - 1]) }
}

pub proof fn lemma_lset_step(lib: [u8; 46], k: int)
    requires 0 <= k < 368,
    ensures lset_upto(lib, k + 1).len() == lset_upto(lib, k).len() + (if lbit(lib, k) { 1int } else { 0int }),
{
    if lbit(lib, k) {
        assert(lset_upto(lib, k + 1) =~= lset_upto(lib, k).insert(k));
    } else {
        assert(lset_upto(lib, k + 1) =~= lset_upto(lib, k));
    }
}

pub proof fn lemma_pops(lib: [u8; 46], n: int)
    requires 0 <= n <= 46,
    ensures lset_upto(lib, 8 * n).len() == pops(lib, n), 0 <= pops(lib, n) <= 8 * n,
    decreases n,
{
    if n == 0 {
        assert(lset_upto(lib, 0) =~= Set::<int>::empty());
    } else {
        lemma_pops(lib, n - 1);
        let b = 8 * (n - 1);
        let x = lib@[n - 1];
        lemma_lset_step(lib, b);
        lemma_lset_step(lib, b + 1);
        lemma_lset_step(lib, b + 2);
        lemma_lset_step(lib, b + 3);
        lemma_lset_step(lib, b + 4);
        lemma_lset_step(lib, b + 5);
        lemma_lset_step(lib, b + 6);
        lemma_lset_step(lib, b + 7);
        assert(forall|s: int| 0 <= s < 8 ==> #[trigger] lbit(lib, b + s) == byte_bit(x, s as u8));
        assert(lbit(lib, b + 0) == byte_bit(x, 0) && lbit(lib, b + 1) == byte_bit(x, 1) && lbit(lib, b + 2) == byte_bit(x, 2)
            && lbit(lib, b + 3) == byte_bit(x, 3) && lbit(lib, b + 4) == byte_bit(x, 4) && lbit(lib, b + 5) == byte_bit(x, 5)
            && lbit(lib, b + 6) == byte_bit(x, 6) && lbit(lib, b + 7) == byte_bit(x, 7));
    }
}

pub proof fn lemma_sum_pops(lib: [u8; 46], s: Seq<usize>, n: int)
    requires 0 <= n <= s.len(), s.len() <= 46, forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == pop8(lib@[i]),
    ensures spec_sum(s.subrange(0, n)) == pops(lib, n),
    decreases n,
{
    if n > 0 {
        lemma_sum_pops(lib, s, n - 1);
        assert(s.subrange(0, n).drop_last() =~= s.subrange(0, n - 1));
    }
}

/// The sum of the bytes' populations is the number of liberties.
pub proof fn lemma_count_ones(lib: [u8; 46])
    ensures
        lset(lib).len() <= 368,
        forall|s: Seq<usize>| #![trigger spec_sum(s)] s.len() == 46 && (forall|i: int| 0 <= i < 46 ==> s[i] == pop8(lib@[i])) ==> spec_sum(s) == lset(lib).len(),
{
    lemma_pops(lib, 46);
    assert(lset_upto(lib, 368) =~= lset(lib));
    assert forall|s: Seq<usize>| #![trigger spec_sum(s)] s.len() == 46 && (forall|i: int| 0 <= i < 46 ==> s[i] == pop8(lib@[i])) implies spec_sum(s) == lset(lib).len() by {
        lemma_sum_pops(lib, s, 46);
        assert(s.subrange(0, 46) =~= s);
    }
}

} // verus!
verus! {

pub assume_specification [u8::checked_shr] (b: u8, n: u32) -> (r: Option<u8>)
    ensures
        n < 8 ==> r == Some(b >> (n as u8)),
        n >= 8 ==> r is None;

/// The listed indices are exactly those of the set bits of byte `ix`, below bit `n`, each once.
pub open spec fn byte_list_upto(s: Seq<usize>, ix: int, b: u8, n: int) -> bool {
    &&& s.no_duplicates()
    &&& forall|k: usize| #![trigger s.contains(k)] s.contains(k) <==> (8 * ix <= k < 8 * ix + n && byte_bit(b, (k - 8 * ix) as u8))
}

pub open spec fn byte_list(s: Seq<usize>, ix: int, b: u8) -> bool { byte_list_upto(s, ix, b, 8) }

// ================================================================ rings of stones
pub open spec fn at(next: Seq<u16>, o: int, k: int) -> int
    decreases k,
{
    if k <= 0 { o } else { next[at(next, o, k - 1)] as int }
}

pub open spec fn ring(next: Seq<u16>, o: int, n: int) -> Seq<int> {
    Seq::new(n as nat, |k: int| at(next, o, k))
}

pub open spec fn is_ring(next: Seq<u16>, s: Seq<int>) -> bool {
    &&& s.len() >= 1
    &&& s.no_duplicates()
    &&& forall|k: int| 0 <= k < s.len() ==> 0 <= #[trigger] s[k] < next.len()
    &&& forall|k: int| 0 <= k < s.len() ==> #[trigger] next[s[k]] == s[if k + 1 < s.len() { k + 1 } else { 0 }]
}

pub proof fn lemma_ring_unique(next: Seq<u16>, s: Seq<int>)
    requires is_ring(next, s),
    ensures s == ring(next, s[0], s.len() as int),
{
    assert forall|k: int| 0 <= k < s.len() implies s[k] == at(next, s[0], k) by {
        lemma_ring_unique_at(next, s, k);
    }
    assert(s =~= ring(next, s[0], s.len() as int));
}

pub proof fn lemma_ring_unique_at(next: Seq<u16>, s: Seq<int>, k: int)
    requires is_ring(next, s), 0 <= k < s.len(),
    ensures s[k] == at(next, s[0], k),
    decreases k,
{
    if k > 0 {
        lemma_ring_unique_at(next, s, k - 1);
        assert(next[s[k - 1]] == s[k]);
    }
}

impl<'a> Copy for CircularGroupIter<'a> {}
impl<'a> Clone for CircularGroupIter<'a> {
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { *self }
}

/// The std adaptors call next() until it answers None; these do the same against the contract of next().
impl<'a> CircularGroupIter<'a> {
    pub open spec fn stones(self) -> Seq<int> { ring(self.next_stone@, self.origin as int, self.num_stones as int) }
    pub open spec fn wf(self) -> bool {
        &&& self.next == Some(self.origin)
        &&& is_ring(self.next_stone@, self.stones())
    }
    pub fn last(self) -> (r: Option<usize>)
        requires self.wf(), // OBLIGATION: the iterated group is not a closed ring
        ensures r is Some, r.unwrap() == self.stones().last(),
    {
        self.into_it().last()
    }
    pub fn count(self) -> (r: usize)
        requires self.wf(),
        ensures r == self.num_stones,
    {
        self.into_it().count()
    }
    pub fn v_map<U, F: Fn(usize) -> U>(self, f: F) -> (r: It<U>)
        requires
            self.wf(),
            forall|i: int| 0 <= i < self.stones().len() ==> f.requires(((#[trigger] self.stones()[i]) as usize,)),
        ensures
            r@.len() == self.stones().len(),
            forall|i: int| #![trigger r@[i]] #![trigger self.stones()[i]] 0 <= i < r@.len() ==> f.ensures((self.stones()[i] as usize,), r@[i]),
    {
        let it = self.into_it();
        proof {
            assert forall|i: int| 0 <= i < it@.len() implies f.requires((#[trigger] it@[i],)) by {
                let _ = self.stones()[i];
            }
        }
        it.v_map(f)
    }
}

impl<'a> IntoIt<usize> for CircularGroupIter<'a> {
    open spec fn it_req(self) -> bool { self.wf() }
    open spec fn it_seq(self) -> Seq<usize> { self.stones().map_values(|i: int| i as usize) }
    fn into_it(self) -> (r: It<usize>) {
        let mut c = self;
        let mut out: Vec<usize> = Vec::new();
        let ghost s = self.stones();
        proof {
            assert(s[0] == self.origin);
            assert(s.len() == self.num_stones);
        }
        #[verifier::loop_isolation(true)]
        loop
            invariant
                s == self.stones(), is_ring(self.next_stone@, s), s.len() == self.num_stones, s[0] == self.origin,
                c.next_stone@ == self.next_stone@, c.origin == self.origin, c.num_stones == self.num_stones,
                out@.len() <= s.len(),
                out@.len() < s.len() ==> c.next is Some && c.next.unwrap() == s[out@.len() as int],
                out@.len() == s.len() ==> c.next is None,
                forall|k: int| 0 <= k < out@.len() ==> #[trigger] out@[k] == s[k],
            ensures out@.len() == s.len(),
            decreases s.len() - out@.len(),
        {
            proof {
                if out@.len() < s.len() {
                    let k = out@.len() as int;
                    let k2: int = if k + 1 < s.len() { k + 1 } else { 0 };
                    assert(self.next_stone@[s[k]] == s[k2]);
                    if s.len() > 1 { assert(s[k] != s[k2]); }
                    if k2 > 0 { assert(s[k2] != s[0]); }
                    if k > 0 { assert(s[k] != s[0]); }
                }
            }
            match c.next() {
                Some(x) => { out.push(x); }
                None => { break; }
            }
        }
        proof { assert(out@ =~= self.it_seq()); }
        It { v: out }
    }
}

impl IndexSpecImpl<usize> for Groups {
    open spec fn index_req(&self, i: &usize) -> bool { *i < self.0@.len() && self.0@[*i as int] is Some }
}
impl IndexSpecImpl<NonMaxU16> for Groups {
    open spec fn index_req(&self, i: &NonMaxU16) -> bool { i.n < self.0@.len() && self.0@[i.n as int] is Some }
}

} // verus!
verus! {

pub proof fn lemma_byte_list_step(s0: Seq<usize>, s1: Seq<usize>, ix: int, b0: u8, n: int, z: u8, ch: u8)
    requires
        byte_list_upto(s0, ix, b0, n), 0 <= ix < 46, 0 <= n < 8,
        ch == b0 >> (n as u8), ch != 0,
        0 <= z < 8, (ch >> z) & 1u8 == 1u8,
        forall|j: u8| 0 <= j < z ==> #[trigger] (ch >> j) & 1u8 == 0u8,
        s1 == s0.push((8 * ix + n + z) as usize),
    ensures
        n + z < 8,
        byte_list_upto(s1, ix, b0, n + z + 1),
        z + 1 < 8 ==> (ch >> ((z + 1) as u8)) == (if n + z + 1 < 8 { b0 >> ((n + z + 1) as u8) } else { 0u8 }),
        z + 1 >= 8 ==> n + z + 1 == 8,
{
    let m = n as u8;
    assert(m < 8 && z < 8 && ((b0 >> m) >> z) & 1u8 == 1u8 ==> m + z < 8) by (bit_vector);
    assert(m < 8 && z < 8 && m + z < 8 ==> (b0 >> m) >> z == b0 >> add(m, z)) by (bit_vector);
    if z + 1 < 8 {
        let z1 = (z + 1) as u8;
        assert(m < 8 && z1 < 8 && m + z1 < 8 ==> (b0 >> m) >> z1 == b0 >> add(m, z1)) by (bit_vector);
        assert(m < 8 && z1 < 8 && m + z1 >= 8 ==> (b0 >> m) >> z1 == 0u8) by (bit_vector);
    }
    assert forall|k: usize| #![trigger s1.contains(k)] s1.contains(k) <==> (8 * ix <= k < 8 * ix + n + z + 1 && byte_bit(b0, (k - 8 * ix) as u8)) by {
        let x = (8 * ix + n + z) as usize;
        if s1.contains(k) {
            let j = choose|j: int| 0 <= j < s1.len() && s1[j] == k;
            if j < s0.len() {
                assert(s0[j] == k);
                assert(s0.contains(k));
            } else {
                assert(k == x);
            }
        }
        if 8 * ix <= k < 8 * ix + n + z + 1 && byte_bit(b0, (k - 8 * ix) as u8) {
            let t = (k - 8 * ix) as u8;
            if t < n {
                assert(s0.contains(k));
                let j = choose|j: int| 0 <= j < s0.len() && s0[j] == k;
                assert(s1[j] == k);
            } else if t < n + z {
                let j = (t - n) as u8;
                assert((ch >> j) & 1u8 == 0u8);
                assert(m < 8 && j < 8 && m + j < 8 ==> (b0 >> m) >> j == b0 >> add(m, j)) by (bit_vector);
                assert(add(m, j) == t);
            } else {
                assert(k == x);
                assert(s1[s0.len() as int] == k);
            }
        }
    }
    assert(s1.no_duplicates()) by {
        let x = (8 * ix + n + z) as usize;
        if s0.contains(x) { }
        assert(!s0.contains(x));
    }
}

pub proof fn lemma_byte_list_end(s: Seq<usize>, ix: int, b0: u8, n: int)
    requires
        byte_list_upto(s, ix, b0, n), 0 <= ix < 46, 0 <= n <= 8,
        n < 8 ==> b0 >> (n as u8) == 0,
    ensures byte_list(s, ix, b0),
{
    if n < 8 {
        let m = n as u8;
        assert forall|k: usize| #![trigger s.contains(k)] s.contains(k) <==> (8 * ix <= k < 8 * ix + 8 && byte_bit(b0, (k - 8 * ix) as u8)) by {
            if 8 * ix + n <= k < 8 * ix + 8 {
                let t = (k - 8 * ix) as u8;
                assert(m < 8 && t < 8 && m <= t && b0 >> m == 0u8 ==> (b0 >> t) & 1u8 == 0u8) by (bit_vector);
            }
        }
    }
}

pub proof fn lemma_flat_bytes(lib: [u8; 46], cs: Seq<Seq<usize>>)
    requires cs.len() <= 46, forall|i: int| #![trigger cs[i]] 0 <= i < cs.len() ==> byte_list(cs[i], i, lib@[i]),
    ensures
        flat(cs).no_duplicates(),
        forall|k: usize| #![trigger flat(cs).contains(k)] flat(cs).contains(k) <==> k < 8 * cs.len() && lbit(lib, k as int),
    decreases cs.len(),
{
    if cs.len() > 0 {
        let t = cs.drop_last();
        let n = cs.len() - 1;
        assert forall|i: int| #![trigger t[i]] 0 <= i < t.len() implies byte_list(t[i], i, lib@[i]) by { assert(cs[i] == t[i]); }
        lemma_flat_bytes(lib, t);
        let (a, b) = (flat(t), cs[n]);
        assert(byte_list(b, n, lib@[n]));
        let r = flat(cs);
        assert(r == a + b);
        assert forall|k: usize| #![trigger r.contains(k)] r.contains(k) <==> k < 8 * cs.len() && lbit(lib, k as int) by {
            if r.contains(k) {
                let j = choose|j: int| 0 <= j < r.len() && r[j] == k;
                if j < a.len() { assert(a[j] == k); assert(a.contains(k)); } else { assert(b[j - a.len()] == k); assert(b.contains(k)); }
            }
            if k < 8 * cs.len() && lbit(lib, k as int) {
                if k < 8 * n {
                    assert(a.contains(k));
                    let j = choose|j: int| 0 <= j < a.len() && a[j] == k;
                    assert(r[j] == k);
                } else {
                    assert(b.contains(k));
                    let j = choose|j: int| 0 <= j < b.len() && b[j] == k;
                    assert(r[a.len() + j] == k);
                }
            }
        }
        assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies r[i] != r[j] by {
            if i < a.len() { assert(a.contains(r[i])); } else { assert(b[i - a.len()] == r[i]); assert(b.contains(r[i])); }
            if j < a.len() { assert(a.contains(r[j])); } else { assert(b[j - a.len()] == r[j]); assert(b.contains(r[j])); }
        }
    }
}

pub proof fn lemma_iter_ones(lib: [u8; 46], r: Seq<usize>, cs: Seq<It<usize>>)
    requires
        cs.len() == 46,
        forall|i: int| #![trigger cs[i]] 0 <= i < 46 ==> byte_list(cs[i]@, i, lib@[i]),
        r == flat(cs.map_values(|c: It<usize>| c.it_seq())),
    ensures
        r.no_duplicates(),
        forall|k: usize| #![trigger r.contains(k)] r.contains(k) <==> lset(lib).contains(k as int),
{
    let m = cs.map_values(|c: It<usize>| c.it_seq());
    assert forall|i: int| #![trigger m[i]] 0 <= i < m.len() implies byte_list(m[i], i, lib@[i]) by { assert(m[i] == cs[i]@); }
    lemma_flat_bytes(lib, m);
}

pub proof fn lemma_somes_refs<T>(v: Seq<Option<T>>, os: Seq<Option<&T>>)
    requires
        os.len() == v.len(),
        forall|i: int| #![trigger os[i]] 0 <= i < os.len() ==> (os[i] is Some) == (v[i] is Some) && (os[i] is Some ==> *os[i].unwrap() == v[i].unwrap()),
    ensures
        somes(os).len() == somes(v).len(),
        forall|i: int| 0 <= i < somes(os).len() ==> *(#[trigger] somes(os)[i]) == somes(v)[i],
    decreases v.len(),
{
    if v.len() > 0 {
        assert forall|i: int| #![trigger os.drop_last()[i]] 0 <= i < os.len() - 1 implies (os.drop_last()[i] is Some) == (v.drop_last()[i] is Some) && (os.drop_last()[i] is Some ==> *os.drop_last()[i].unwrap() == v.drop_last()[i].unwrap()) by {
            assert(os.drop_last()[i] == os[i]);
        }
        lemma_somes_refs(v.drop_last(), os.drop_last());
        assert(os.last() == os[os.len() - 1]);
    }
}

pub proof fn lemma_prefix_contains<T>(s: Seq<T>, n: int)
    requires 0 <= n < s.len(),
    ensures forall|x: T| #[trigger] s.subrange(0, n + 1).contains(x) <==> s.subrange(0, n).contains(x) || s[n] == x,
{
    let (a, b) = (s.subrange(0, n), s.subrange(0, n + 1));
    assert forall|x: T| #[trigger] b.contains(x) <==> a.contains(x) || s[n] == x by {
        if b.contains(x) {
            let j = choose|j: int| 0 <= j < b.len() && b[j] == x;
            if j < n { assert(a[j] == x); }
        }
        if a.contains(x) {
            let j = choose|j: int| 0 <= j < a.len() && a[j] == x;
            assert(b[j] == x);
        }
        if s[n] == x { assert(b[n] == x); }
    }
}

pub proof fn lemma_prefix_full<T>(s: Seq<T>)
    ensures s.subrange(0, s.len() as int) == s, s.subrange(0, 0) == Seq::<T>::empty(),
{
    assert(s.subrange(0, s.len() as int) =~= s);
    assert(s.subrange(0, 0) =~= Seq::<T>::empty());
}

pub proof fn lemma_iter_with_index(v: Seq<Option<Group>>, os: Seq<Option<(usize, Group)>>, r: Seq<(usize, Group)>)
    requires
        v.len() <= usize::MAX,
        os.len() == v.len(), r == somes(os),
        forall|i: int| #![trigger os[i]] 0 <= i < os.len() ==> (os[i] is Some) == (v[i] is Some) && (os[i] is Some ==> os[i] == Some((i as usize, v[i].unwrap()))),
    ensures
        forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).0 < v.len() && v[r[i].0 as int] == Some(r[i].1),
        forall|k: int| 0 <= k < v.len() ==> ((#[trigger] v[k]) is Some ==> r.contains((k as usize, v[k].unwrap()))),
        r.no_duplicates(),
{
    lemma_somes_members(os);
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).0 < v.len() && v[r[i].0 as int] == Some(r[i].1) by {
        let k = choose|k: int| 0 <= k < os.len() && os[k] == Some(r[i]);
        assert(os[k] is Some);
    }
    assert forall|k: int| 0 <= k < v.len() && (#[trigger] v[k]) is Some implies r.contains((k as usize, v[k].unwrap())) by {
        assert(os[k] is Some);
        assert(os[k].unwrap() == (k as usize, v[k].unwrap()));
    }
    lemma_iwi_nodup(os, v);
}

pub proof fn lemma_iwi_nodup(os: Seq<Option<(usize, Group)>>, v: Seq<Option<Group>>)
    requires
        os.len() <= usize::MAX,
        forall|i: int| #![trigger os[i]] 0 <= i < os.len() ==> (os[i] is Some ==> os[i].unwrap().0 == i),
    ensures somes(os).no_duplicates(),
    decreases os.len(),
{
    if os.len() > 0 {
        let t = os.drop_last();
        assert forall|i: int| #![trigger t[i]] 0 <= i < t.len() implies (t[i] is Some ==> t[i].unwrap().0 == i) by { assert(os[i] == t[i]); }
        lemma_iwi_nodup(t, v);
        lemma_somes_members(t);
        let q = somes(t);
        assert(os.last() == os[os.len() - 1]);
        if os.last() is Some {
            let x = os.last().unwrap();
            assert(x.0 == os.len() - 1);
            assert forall|j: int| 0 <= j < q.len() implies q[j] != x by {
                let i = choose|i: int| 0 <= i < t.len() && t[i] == Some(q[j]);
                assert(t[i] is Some);
            }
        }
    }
}

} // verus!
