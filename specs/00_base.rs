// ---------------------------------------------------------------- base
global size_of usize == 8;

// ---- methods of slices without a verifier contract: equivalents, proved
pub trait StdSlice<T: Clone>: View<V = Seq<T>> {
    fn std_to_vec(&self) -> (r: Vec<T>)
        ensures
            r@.len() == self@.len(),
            forall|i: int| #![trigger r@[i]] 0 <= i < self@.len() ==> cloned(self@[i], r@[i]);
    fn std_clone_from_slice(&mut self, s: &[T])
        requires
            old(self)@.len() == s@.len(),
        ensures
            final(self)@.len() == s@.len(),
            forall|i: int| #![trigger final(self)@[i]] 0 <= i < s@.len() ==> cloned(s@[i], final(self)@[i]);
}
impl<T: Clone> StdSlice<T> for [T] {
    fn std_to_vec(&self) -> (r: Vec<T>) {
        let mut v: Vec<T> = Vec::new();
        let mut i: usize = 0;
        while i < self.len()
            invariant
                0 <= i <= self@.len(),
                v@.len() == i,
                forall|j: int| #![trigger v@[j]] 0 <= j < i ==> cloned(self@[j], v@[j]),
            decreases self@.len() - i,
        {
            v.push(self[i].clone());
            i += 1;
        }
        v
    }
    fn std_clone_from_slice(&mut self, s: &[T]) {
        let mut i: usize = 0;
        while i < s.len()
            invariant
                0 <= i <= s@.len(),
                self@.len() == s@.len(),
                forall|j: int| #![trigger self@[j]] 0 <= j < i ==> cloned(s@[j], self@[j]),
            decreases s@.len() - i,
        {
            self[i] = s[i].clone();
            i += 1;
        }
    }
}
pub trait StdOrder<T: Copy>: View<V = Seq<T>> {
    fn std_swap(&mut self, a: usize, b: usize)
        requires
            a < old(self)@.len(),
            b < old(self)@.len(),
        ensures
            final(self)@ == old(self)@.update(a as int, old(self)@[b as int]).update(b as int, old(self)@[a as int]);
    fn std_reverse(&mut self)
        ensures
            final(self)@ == old(self)@.reverse();
    fn std_rotate_left(&mut self, k: usize)
        requires
            k <= old(self)@.len(),
        ensures
            final(self)@ == old(self)@.subrange(k as int, old(self)@.len() as int) + old(self)@.subrange(0, k as int);
    fn std_rotate_right(&mut self, k: usize)
        requires
            k <= old(self)@.len(),
        ensures
            final(self)@ == old(self)@.subrange(old(self)@.len() - k, old(self)@.len() as int) + old(self)@.subrange(0, old(self)@.len() - k);
}
impl<T: Copy> StdOrder<T> for [T] {
    fn std_swap(&mut self, a: usize, b: usize) {
        let ghost s0 = self@;
        let (x, y) = (self[a], self[b]);
        self[a] = y;
        self[b] = x;
        proof { assert(self@ =~= s0.update(a as int, s0[b as int]).update(b as int, s0[a as int])); }
    }
    fn std_reverse(&mut self) {
        let ghost s0 = self@;
        let n = self.len();
        let mut i: usize = 0;
        while i < n / 2
            invariant
                0 <= i <= n / 2,
                n == self@.len(),
                self@.len() == s0.len(),
                forall|j: int| #![trigger self@[j]] 0 <= j < n ==> self@[j] == if j < i || j >= n - i { s0[n - 1 - j] } else { s0[j] },
            decreases n / 2 - i,
        {
            let (x, y) = (self[i], self[n - 1 - i]);
            self[i] = y;
            self[n - 1 - i] = x;
            i += 1;
        }
        proof { assert(self@ =~= s0.reverse()); }
    }
    fn std_rotate_left(&mut self, k: usize) {
        let ghost s0 = self@;
        let n = self.len();
        let mut v: Vec<T> = Vec::new();
        let mut i: usize = 0;
        while i < n
            invariant
                0 <= i <= n,
                k <= n,
                n == self@.len(),
                self@ == s0,
                v@.len() == i,
                forall|j: int| #![trigger v@[j]] 0 <= j < i ==> v@[j] == if j < n - k { s0[j + k] } else { s0[j - (n - k)] },
            decreases n - i,
        {
            v.push(if i < n - k { self[i + k] } else { self[i - (n - k)] });
            i += 1;
        }
        let mut i: usize = 0;
        while i < n
            invariant
                0 <= i <= n,
                k <= n,
                n == self@.len(),
                n == s0.len(),
                v@.len() == n,
                forall|j: int| #![trigger v@[j]] 0 <= j < n ==> v@[j] == if j < n - k { s0[j + k] } else { s0[j - (n - k)] },
                forall|j: int| #![trigger self@[j]] 0 <= j < i ==> self@[j] == v@[j],
            decreases n - i,
        {
            self[i] = v[i];
            i += 1;
        }
        proof { assert(self@ =~= s0.subrange(k as int, s0.len() as int) + s0.subrange(0, k as int)); }
    }
    fn std_rotate_right(&mut self, k: usize) {
        let n = self.len();
        self.std_rotate_left(n - k);
    }
}
pub fn std_to_array_u8<const N: usize>(s: &[u8]) -> (r: [u8; N])
    requires s@.len() == N,
    ensures r@ == s@,
{
    let mut r = [0u8; N];
    let mut i: usize = 0;
    while i < N
        invariant 0 <= i <= N, s@.len() == N, forall|j: int| #![trigger r@[j]] 0 <= j < i ==> r@[j] == s@[j],
        decreases N - i,
    {
        r[i] = s[i];
        i += 1;
    }
    proof { assert(r@ =~= s@); }
    r
}
// bits set, from the top; the contract says what tests for powers of two need
pub fn std_count_ones_usize(a: usize) -> (r: u32)
    ensures
        r <= 64,
        r == 0 <==> a == 0,
        r == 1 <==> a != 0 && a & sub(a, 1) == 0,
{
    let mut y: usize = 0;
    let mut n: u32 = 0;
    let mut i: usize = 64;
    while i > 0
        invariant
            0 <= i <= 64,
            i == 64 ==> y == 0,
            i < 64 ==> y == a >> i,
            n <= 64 - i,
            n == 0 <==> y == 0,
            n == 1 <==> y != 0 && y & sub(y, 1) == 0,
        decreases i,
    {
        i -= 1;
        let bit = (a >> i) & 1;
        proof { assert((a >> i) & 1 == 0 || (a >> i) & 1 == 1) by (bit_vector); }
        let ghost y0 = y;
        y = (y << 1) | bit;
        n += bit as u32;
        proof {
            if i == 63 { assert(i == 63 && y0 == 0 ==> ((y0 << 1) | ((a >> i) & 1)) == a >> i) by (bit_vector); }
            else { assert(i < 63 && y0 == a >> add(i, 1) ==> ((y0 << 1) | ((a >> i) & 1)) == a >> i && y0 < 0x8000_0000_0000_0000) by (bit_vector); }
            assert(y0 < 0x8000_0000_0000_0000 ==> ((y0 << 1) | 0) & sub((y0 << 1) | 0, 1) == (y0 & sub(y0, 1)) << 1 || y0 == 0) by (bit_vector);
            assert(y0 < 0x8000_0000_0000_0000 ==> (((y0 << 1) | 0) & sub((y0 << 1) | 0, 1) == 0 <==> y0 & sub(y0, 1) == 0)) by (bit_vector);
            assert(y0 < 0x8000_0000_0000_0000 ==> (((y0 << 1) | 0) == 0 <==> y0 == 0) && (y0 << 1) | 1 != 0
                && (((y0 << 1) | 1) & sub((y0 << 1) | 1, 1) == 0 <==> y0 == 0)) by (bit_vector);
        }
    }
    proof { assert(a >> 0usize == a) by (bit_vector); }
    n
}

// a run-time assertion in the code is an obligation here
pub fn rt_assert(b: bool)
    requires b,
{ }

// ---- standard functions without a verifier contract: equivalents, proved
pub fn std_min_usize(a: usize, b: usize) -> (r: usize)
    ensures r == (if a <= b { a } else { b }),
{ if a <= b { a } else { b } }
pub fn std_max_usize(a: usize, b: usize) -> (r: usize)
    ensures r == (if a >= b { a } else { b }),
{ if a >= b { a } else { b } }

// ---- products with the usual block sizes
pub proof fn sp_by_const(i: int, k: int)
    ensures
        k == 2 ==> i * k == 2 * i && (i - 1) * k == 2 * i - 2,
        k == 4 ==> i * k == 4 * i && (i - 1) * k == 4 * i - 4,
        k == 8 ==> i * k == 8 * i && (i - 1) * k == 8 * i - 8,
        k == 16 ==> i * k == 16 * i && (i - 1) * k == 16 * i - 16,
        k == 32 ==> i * k == 32 * i && (i - 1) * k == 32 * i - 32,
        k == 64 ==> i * k == 64 * i && (i - 1) * k == 64 * i - 64,
        k == 128 ==> i * k == 128 * i && (i - 1) * k == 128 * i - 128,
{ }

// the same for rotations, byte orders and the like
pub fn std_rotate_left_u8(a: u8, n: u32) -> (r: u8)
    ensures ({ let s = n % 8; s > 0 ==> r == (a << s) | (a >> ((8 - s) as u32)) }), n % 8 == 0 ==> r == a,
{ let s = n % 8; if s == 0 { a } else { (a << s) | (a >> (8 - s)) } }
pub fn std_rotate_right_u8(a: u8, n: u32) -> (r: u8)
    ensures ({ let s = n % 8; s > 0 ==> r == (a >> s) | (a << ((8 - s) as u32)) }), n % 8 == 0 ==> r == a,
{ let s = n % 8; if s == 0 { a } else { (a >> s) | (a << (8 - s)) } }
pub fn std_rotate_left_u32(a: u32, n: u32) -> (r: u32)
    ensures ({ let s = n % 32; s > 0 ==> r == (a << s) | (a >> ((32 - s) as u32)) }), n % 32 == 0 ==> r == a,
{ let s = n % 32; if s == 0 { a } else { (a << s) | (a >> (32 - s)) } }
pub fn std_rotate_right_u32(a: u32, n: u32) -> (r: u32)
    ensures ({ let s = n % 32; s > 0 ==> r == (a >> s) | (a << ((32 - s) as u32)) }), n % 32 == 0 ==> r == a,
{ let s = n % 32; if s == 0 { a } else { (a >> s) | (a << (32 - s)) } }
pub fn std_rotate_left_u64(a: u64, n: u32) -> (r: u64)
    ensures ({ let s = n % 64; s > 0 ==> r == (a << s) | (a >> ((64 - s) as u32)) }), n % 64 == 0 ==> r == a,
{ let s = n % 64; if s == 0 { a } else { (a << s) | (a >> (64 - s)) } }
pub fn std_rotate_right_u64(a: u64, n: u32) -> (r: u64)
    ensures ({ let s = n % 64; s > 0 ==> r == (a >> s) | (a << ((64 - s) as u32)) }), n % 64 == 0 ==> r == a,
{ let s = n % 64; if s == 0 { a } else { (a >> s) | (a << (64 - s)) } }
pub fn std_rotate_left_usize(a: usize, n: u32) -> (r: usize)
    ensures ({ let s = n % 64; s > 0 ==> r == (a << s) | (a >> ((64 - s) as u32)) }), n % 64 == 0 ==> r == a,
{ let s = n % 64; if s == 0 { a } else { (a << s) | (a >> (64 - s)) } }
pub fn std_rotate_right_usize(a: usize, n: u32) -> (r: usize)
    ensures ({ let s = n % 64; s > 0 ==> r == (a >> s) | (a << ((64 - s) as u32)) }), n % 64 == 0 ==> r == a,
{ let s = n % 64; if s == 0 { a } else { (a >> s) | (a << (64 - s)) } }
pub fn std_is_power_of_two_usize(a: usize) -> (r: bool)
    ensures r == (a > 0 && a & ((a - 1) as usize) == 0),
{ a != 0 && a & (a - 1) == 0 }
pub fn std_div_ceil_usize(a: usize, b: usize) -> (r: usize)
    requires b != 0,
    ensures r == (if a % b == 0 { (a / b) as int } else { a / b + 1 }),
{ proof { if b > 1 { assert(a / b <= a / 2) by (nonlinear_arith) requires b > 1; } else { assert(a % 1 == 0); } } if a % b == 0 { a / b } else { a / b + 1 } }
pub fn std_is_power_of_two_u64(a: u64) -> (r: bool)
    ensures r == (a > 0 && a & ((a - 1) as u64) == 0),
{ a != 0 && a & (a - 1) == 0 }
pub fn std_div_ceil_u64(a: u64, b: u64) -> (r: u64)
    requires b != 0,
    ensures r == (if a % b == 0 { (a / b) as int } else { a / b + 1 }),
{ proof { if b > 1 { assert(a / b <= a / 2) by (nonlinear_arith) requires b > 1; } else { assert(a % 1 == 0); } } if a % b == 0 { a / b } else { a / b + 1 } }
pub fn std_is_power_of_two_u32(a: u32) -> (r: bool)
    ensures r == (a > 0 && a & ((a - 1) as u32) == 0),
{ a != 0 && a & (a - 1) == 0 }
pub fn std_div_ceil_u32(a: u32, b: u32) -> (r: u32)
    requires b != 0,
    ensures r == (if a % b == 0 { (a / b) as int } else { a / b + 1 }),
{ proof { if b > 1 { assert(a / b <= a / 2) by (nonlinear_arith) requires b > 1; } else { assert(a % 1 == 0); } } if a % b == 0 { a / b } else { a / b + 1 } }
pub fn std_from_be_bytes_u32(b: [u8; 4]) -> (r: u32)
    ensures r == ((b[0] as u32) << 24) | ((b[1] as u32) << 16) | ((b[2] as u32) << 8) | (b[3] as u32),
{ ((b[0] as u32) << 24) | ((b[1] as u32) << 16) | ((b[2] as u32) << 8) | (b[3] as u32) }
pub fn std_from_le_bytes_u32(b: [u8; 4]) -> (r: u32)
    ensures r == (b[0] as u32) | ((b[1] as u32) << 8) | ((b[2] as u32) << 16) | ((b[3] as u32) << 24),
{ (b[0] as u32) | ((b[1] as u32) << 8) | ((b[2] as u32) << 16) | ((b[3] as u32) << 24) }
pub fn std_to_be_bytes_u32(a: u32) -> (r: [u8; 4])
    ensures r@ == seq![(a >> 24) as u8, (a >> 16) as u8, (a >> 8) as u8, a as u8],
{ let r = [(a >> 24) as u8, (a >> 16) as u8, (a >> 8) as u8, a as u8]; proof { assert(r@ =~= seq![(a >> 24) as u8, (a >> 16) as u8, (a >> 8) as u8, a as u8]); } r }
pub fn std_to_le_bytes_u32(a: u32) -> (r: [u8; 4])
    ensures r@ == seq![a as u8, (a >> 8) as u8, (a >> 16) as u8, (a >> 24) as u8],
{ let r = [a as u8, (a >> 8) as u8, (a >> 16) as u8, (a >> 24) as u8]; proof { assert(r@ =~= seq![a as u8, (a >> 8) as u8, (a >> 16) as u8, (a >> 24) as u8]); } r }
pub fn std_from_be_bytes_u64(b: [u8; 8]) -> (r: u64)
    ensures r == ((b[0] as u64) << 56) | ((b[1] as u64) << 48) | ((b[2] as u64) << 40) | ((b[3] as u64) << 32) | ((b[4] as u64) << 24) | ((b[5] as u64) << 16) | ((b[6] as u64) << 8) | (b[7] as u64),
{ ((b[0] as u64) << 56) | ((b[1] as u64) << 48) | ((b[2] as u64) << 40) | ((b[3] as u64) << 32) | ((b[4] as u64) << 24) | ((b[5] as u64) << 16) | ((b[6] as u64) << 8) | (b[7] as u64) }
pub fn std_from_le_bytes_u64(b: [u8; 8]) -> (r: u64)
    ensures r == (b[0] as u64) | ((b[1] as u64) << 8) | ((b[2] as u64) << 16) | ((b[3] as u64) << 24) | ((b[4] as u64) << 32) | ((b[5] as u64) << 40) | ((b[6] as u64) << 48) | ((b[7] as u64) << 56),
{ (b[0] as u64) | ((b[1] as u64) << 8) | ((b[2] as u64) << 16) | ((b[3] as u64) << 24) | ((b[4] as u64) << 32) | ((b[5] as u64) << 40) | ((b[6] as u64) << 48) | ((b[7] as u64) << 56) }
pub fn std_to_be_bytes_u64(a: u64) -> (r: [u8; 8])
    ensures r@ == seq![(a >> 56) as u8, (a >> 48) as u8, (a >> 40) as u8, (a >> 32) as u8, (a >> 24) as u8, (a >> 16) as u8, (a >> 8) as u8, a as u8],
{ let r = [(a >> 56) as u8, (a >> 48) as u8, (a >> 40) as u8, (a >> 32) as u8, (a >> 24) as u8, (a >> 16) as u8, (a >> 8) as u8, a as u8]; proof { assert(r@ =~= seq![(a >> 56) as u8, (a >> 48) as u8, (a >> 40) as u8, (a >> 32) as u8, (a >> 24) as u8, (a >> 16) as u8, (a >> 8) as u8, a as u8]); } r }
pub fn std_to_le_bytes_u64(a: u64) -> (r: [u8; 8])
    ensures r@ == seq![a as u8, (a >> 8) as u8, (a >> 16) as u8, (a >> 24) as u8, (a >> 32) as u8, (a >> 40) as u8, (a >> 48) as u8, (a >> 56) as u8],
{ let r = [a as u8, (a >> 8) as u8, (a >> 16) as u8, (a >> 24) as u8, (a >> 32) as u8, (a >> 40) as u8, (a >> 48) as u8, (a >> 56) as u8]; proof { assert(r@ =~= seq![a as u8, (a >> 8) as u8, (a >> 16) as u8, (a >> 24) as u8, (a >> 32) as u8, (a >> 40) as u8, (a >> 48) as u8, (a >> 56) as u8]); } r }
pub fn std_replace<T>(d: &mut T, s: T) -> (r: T)
    ensures r == *old(d), *final(d) == s,
{ let mut s = s; core::mem::swap(d, &mut s); s }
pub fn std_take<T>(d: &mut Vec<T>) -> (r: Vec<T>)
    ensures r == *old(d), final(d)@ == Seq::<T>::empty(),
{ let mut s = Vec::new(); core::mem::swap(d, &mut s); s }
pub fn std_copied<T: Copy>(o: Option<&T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None }),
{ match o { Some(x) => Some(*x), None => None } }
pub fn std_fill<T: Copy>(d: &mut [T], v: T)
    ensures final(d)@.len() == old(d)@.len(), forall|i: int| #![trigger final(d)@[i]] 0 <= i < final(d)@.len() ==> final(d)@[i] == v,
{
    let mut i: usize = 0;
    while i < d.len()
        invariant d@.len() == old(d)@.len(), forall|j: int| #![trigger d@[j]] 0 <= j < i ==> d@[j] == v,
        decreases d@.len() - i
    { d[i] = v; i = i + 1; }
}
pub open spec fn std_cat(v: Seq<Vec<u8>>, n: int) -> Seq<u8>
    decreases n
{ if n <= 0 { Seq::empty() } else { std_cat(v, n - 1) + v[n - 1]@ } }
pub fn std_concat(v: &[Vec<u8>]) -> (r: Vec<u8>)
    ensures r@ == std_cat(v@, v@.len() as int),
{
    let mut r: Vec<u8> = Vec::new();
    let mut i: usize = 0;
    proof { assert(r@ =~= std_cat(v@, 0)); }
    while i < v.len()
        invariant i <= v@.len(), r@ == std_cat(v@, i as int),
        decreases v@.len() - i
    { r.extend_from_slice(v[i].as_slice()); i = i + 1; proof { assert(r@ =~= std_cat(v@, i as int)); } }
    r
}
