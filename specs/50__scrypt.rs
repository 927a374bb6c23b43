// ---------------------------------------------------------------- scrypt (RFC 7914)
// blocks are 64 octets; a scryptBlockMix / scryptROMix value is a list of 2r blocks
pub open spec fn sp_bxor(a: Seq<u8>, b: Seq<u8>) -> Seq<u8> {
    Seq::new(if a.len() <= b.len() { a.len() } else { b.len() }, |j: int| a[j] ^ b[j])
}
pub open spec fn sp_deep(b: Seq<Vec<u8>>) -> Seq<Seq<u8>> { Seq::new(b.len(), |i: int| b[i]@) }
pub open spec fn sp_blk(b: Seq<Seq<u8>>) -> bool { forall|i: int| #![trigger b[i]] 0 <= i < b.len() ==> b[i].len() == 64 }
// Salsa20/8 has four double rounds
#[verifier::opaque]
pub open spec fn sp_salsa8(b: Seq<u8>) -> Seq<u8> { sp_salsa_block(b, 4) }
#[verifier::memoize]
pub open spec fn sp_y(b: Seq<Seq<u8>>, i: int) -> Seq<u8>
    decreases i + 1
{
    if i < 0 { b[b.len() - 1] } else { sp_salsa8(sp_bxor(sp_y(b, i - 1), b[i])) }
}
#[verifier::opaque]
#[verifier::memoize]
pub open spec fn sp_blockmix(b: Seq<Seq<u8>>) -> Seq<Seq<u8>> {
    let r = b.len() as int / 2;
    Seq::new(b.len(), |i: int| if i < r { sp_y(b, 2 * i) } else { sp_y(b, 2 * (i - r) + 1) })
}
// little-endian value of an octet string
pub open spec fn sp_leint(b: Seq<u8>) -> nat
    decreases b.len()
{
    if b.len() == 0 { 0 } else { b[0] as nat + 256 * sp_leint(b.subrange(1, b.len() as int)) }
}
// Integerify: the last 64-octet block as a little-endian integer
pub open spec fn sp_integerify(b: Seq<Seq<u8>>) -> nat { sp_leint(b[b.len() - 1]) }
pub open spec fn sp_lxor(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>) -> Seq<Seq<u8>> { Seq::new(a.len(), |i: int| sp_bxor(a[i], b[i])) }
#[verifier::memoize]
pub open spec fn sp_v(b: Seq<Seq<u8>>, i: int) -> Seq<Seq<u8>>
    decreases i
{
    if i <= 0 { b } else { sp_blockmix(sp_v(b, i - 1)) }
}
#[verifier::memoize]
pub open spec fn sp_x(b: Seq<Seq<u8>>, n: int, k: int) -> Seq<Seq<u8>>
    decreases k
{
    if k <= 0 { sp_v(b, n) } else {
        let x = sp_x(b, n, k - 1);
        sp_blockmix(sp_lxor(x, sp_v(b, sp_integerify(x) as int % n)))
    }
}
#[verifier::opaque]
#[verifier::memoize]
pub open spec fn sp_romix(b: Seq<Seq<u8>>, n: int) -> Seq<Seq<u8>> { sp_x(b, n, n) }

pub open spec fn sp_flat(b: Seq<Seq<u8>>) -> Seq<u8>
    decreases b.len()
{
    if b.len() == 0 { Seq::empty() } else { sp_flat(b.drop_last()) + b.last() }
}
// the i-th 128r-octet part of B as a list of blocks
pub open spec fn sp_part(raw: Seq<u8>, r: int, i: int) -> Seq<Seq<u8>> {
    Seq::new((2 * r) as nat, |j: int| raw.subrange(128 * r * i + 64 * j, 128 * r * i + 64 * j + 64))
}
#[verifier::memoize]
pub open spec fn sp_mixed(raw: Seq<u8>, r: int, n: int, p: int) -> Seq<u8>
    decreases p
{
    if p <= 0 { Seq::empty() } else { sp_mixed(raw, r, n, p - 1) + sp_flat(sp_romix(sp_part(raw, r, p - 1), n)) }
}
pub open spec fn sp_scrypt(pass: Seq<u8>, salt: Seq<u8>, n: int, r: int, p: int, len: int) -> Seq<u8> {
    sp_pbkdf2(pass, sp_mixed(sp_pbkdf2(pass, salt, 1, p * 128 * r), r, n, p), 1, len)
}

// ---- shapes
pub proof fn sp_y_len(b: Seq<Seq<u8>>, i: int)
    requires b.len() > 0, sp_blk(b), i < b.len(),
    ensures sp_y(b, i).len() == 64,
{ broadcast use sp_salsa_block_len; if i >= 0 { reveal(sp_salsa8); } }
pub proof fn sp_blockmix_blk(b: Seq<Seq<u8>>)
    requires b.len() > 0, b.len() % 2 == 0, sp_blk(b),
    ensures sp_blockmix(b).len() == b.len(), sp_blk(sp_blockmix(b)),
{
    reveal(sp_blockmix);
    let m = sp_blockmix(b);
    assert forall|i: int| #![trigger m[i]] 0 <= i < m.len() implies m[i].len() == 64 by {
        let r = b.len() as int / 2;
        if i < r { sp_y_len(b, 2 * i); } else { sp_y_len(b, 2 * (i - r) + 1); }
    }
}
pub proof fn sp_v_blk(b: Seq<Seq<u8>>, i: int)
    requires b.len() > 0, b.len() % 2 == 0, sp_blk(b),
    ensures sp_v(b, i).len() == b.len(), sp_blk(sp_v(b, i)),
    decreases i
{ if i > 0 { sp_v_blk(b, i - 1); sp_blockmix_blk(sp_v(b, i - 1)); } }
pub proof fn sp_x_blk(b: Seq<Seq<u8>>, n: int, k: int)
    requires b.len() > 0, b.len() % 2 == 0, sp_blk(b), n > 0,
    ensures sp_x(b, n, k).len() == b.len(), sp_blk(sp_x(b, n, k)),
    decreases k
{
    if k <= 0 { sp_v_blk(b, n); } else {
        let x = sp_x(b, n, k - 1);
        sp_x_blk(b, n, k - 1);
        let j = sp_integerify(x) as int % n;
        sp_v_blk(b, j);
        let l = sp_lxor(x, sp_v(b, j));
        assert forall|i: int| #![trigger l[i]] 0 <= i < l.len() implies l[i].len() == 64 by {
            assert(x[i].len() == 64 && sp_v(b, j)[i].len() == 64);
        }
        sp_blockmix_blk(l);
    }
}
pub proof fn sp_flat_len(b: Seq<Seq<u8>>)
    requires sp_blk(b),
    ensures sp_flat(b).len() == 64 * b.len(),
    decreases b.len()
{
    if b.len() > 0 {
        let d = b.drop_last();
        assert forall|i: int| #![trigger d[i]] 0 <= i < d.len() implies d[i].len() == 64 by { assert(b[i].len() == 64); }
        sp_flat_len(d);
        assert(b.last() == b[b.len() - 1]);
    }
}
// ---- Integerify mod N needs only the low 64 bits when N is a power of two
pub open spec fn sp_le64(b: Seq<u8>) -> u64 {
    (b[0] as u64) | ((b[1] as u64) << 8) | ((b[2] as u64) << 16) | ((b[3] as u64) << 24)
        | ((b[4] as u64) << 32) | ((b[5] as u64) << 40) | ((b[6] as u64) << 48) | ((b[7] as u64) << 56)
}
pub open spec fn sp_pow2(n: usize) -> bool { n > 0 && n & ((n - 1) as usize) == 0 }
pub proof fn sp_pow2_divides(n: usize)
    requires sp_pow2(n),
    ensures exists|q: int| q > 0 && #[trigger] (q * n) == 0x1_0000_0000_0000_0000,
{
    let m = (n - 1) as usize;
    assert(n == 1 || n == 0x2 || n == 0x4 || n == 0x8 || n == 0x10 || n == 0x20 || n == 0x40 || n == 0x80
        || n == 0x100 || n == 0x200 || n == 0x400 || n == 0x800 || n == 0x1000 || n == 0x2000 || n == 0x4000 || n == 0x8000
        || n == 0x1_0000 || n == 0x2_0000 || n == 0x4_0000 || n == 0x8_0000 || n == 0x10_0000 || n == 0x20_0000 || n == 0x40_0000 || n == 0x80_0000
        || n == 0x100_0000 || n == 0x200_0000 || n == 0x400_0000 || n == 0x800_0000 || n == 0x1000_0000 || n == 0x2000_0000 || n == 0x4000_0000 || n == 0x8000_0000
        || n == 0x1_0000_0000 || n == 0x2_0000_0000 || n == 0x4_0000_0000 || n == 0x8_0000_0000 || n == 0x10_0000_0000 || n == 0x20_0000_0000 || n == 0x40_0000_0000 || n == 0x80_0000_0000
        || n == 0x100_0000_0000 || n == 0x200_0000_0000 || n == 0x400_0000_0000 || n == 0x800_0000_0000 || n == 0x1000_0000_0000 || n == 0x2000_0000_0000 || n == 0x4000_0000_0000 || n == 0x8000_0000_0000
        || n == 0x1_0000_0000_0000 || n == 0x2_0000_0000_0000 || n == 0x4_0000_0000_0000 || n == 0x8_0000_0000_0000 || n == 0x10_0000_0000_0000 || n == 0x20_0000_0000_0000 || n == 0x40_0000_0000_0000 || n == 0x80_0000_0000_0000
        || n == 0x100_0000_0000_0000 || n == 0x200_0000_0000_0000 || n == 0x400_0000_0000_0000 || n == 0x800_0000_0000_0000 || n == 0x1000_0000_0000_0000 || n == 0x2000_0000_0000_0000 || n == 0x4000_0000_0000_0000 || n == 0x8000_0000_0000_0000)
        by (bit_vector)
        requires n > 0, n & m == 0, m == n - 1;
    let w = 0x1_0000_0000_0000_0000int;
    if n == 0x1 { assert(0x10000000000000000int * n == w); }
    if n == 0x2 { assert(0x8000000000000000int * n == w); }
    if n == 0x4 { assert(0x4000000000000000int * n == w); }
    if n == 0x8 { assert(0x2000000000000000int * n == w); }
    if n == 0x10 { assert(0x1000000000000000int * n == w); }
    if n == 0x20 { assert(0x800000000000000int * n == w); }
    if n == 0x40 { assert(0x400000000000000int * n == w); }
    if n == 0x80 { assert(0x200000000000000int * n == w); }
    if n == 0x100 { assert(0x100000000000000int * n == w); }
    if n == 0x200 { assert(0x80000000000000int * n == w); }
    if n == 0x400 { assert(0x40000000000000int * n == w); }
    if n == 0x800 { assert(0x20000000000000int * n == w); }
    if n == 0x1000 { assert(0x10000000000000int * n == w); }
    if n == 0x2000 { assert(0x8000000000000int * n == w); }
    if n == 0x4000 { assert(0x4000000000000int * n == w); }
    if n == 0x8000 { assert(0x2000000000000int * n == w); }
    if n == 0x10000 { assert(0x1000000000000int * n == w); }
    if n == 0x20000 { assert(0x800000000000int * n == w); }
    if n == 0x40000 { assert(0x400000000000int * n == w); }
    if n == 0x80000 { assert(0x200000000000int * n == w); }
    if n == 0x100000 { assert(0x100000000000int * n == w); }
    if n == 0x200000 { assert(0x80000000000int * n == w); }
    if n == 0x400000 { assert(0x40000000000int * n == w); }
    if n == 0x800000 { assert(0x20000000000int * n == w); }
    if n == 0x1000000 { assert(0x10000000000int * n == w); }
    if n == 0x2000000 { assert(0x8000000000int * n == w); }
    if n == 0x4000000 { assert(0x4000000000int * n == w); }
    if n == 0x8000000 { assert(0x2000000000int * n == w); }
    if n == 0x10000000 { assert(0x1000000000int * n == w); }
    if n == 0x20000000 { assert(0x800000000int * n == w); }
    if n == 0x40000000 { assert(0x400000000int * n == w); }
    if n == 0x80000000 { assert(0x200000000int * n == w); }
    if n == 0x100000000 { assert(0x100000000int * n == w); }
    if n == 0x200000000 { assert(0x80000000int * n == w); }
    if n == 0x400000000 { assert(0x40000000int * n == w); }
    if n == 0x800000000 { assert(0x20000000int * n == w); }
    if n == 0x1000000000 { assert(0x10000000int * n == w); }
    if n == 0x2000000000 { assert(0x8000000int * n == w); }
    if n == 0x4000000000 { assert(0x4000000int * n == w); }
    if n == 0x8000000000 { assert(0x2000000int * n == w); }
    if n == 0x10000000000 { assert(0x1000000int * n == w); }
    if n == 0x20000000000 { assert(0x800000int * n == w); }
    if n == 0x40000000000 { assert(0x400000int * n == w); }
    if n == 0x80000000000 { assert(0x200000int * n == w); }
    if n == 0x100000000000 { assert(0x100000int * n == w); }
    if n == 0x200000000000 { assert(0x80000int * n == w); }
    if n == 0x400000000000 { assert(0x40000int * n == w); }
    if n == 0x800000000000 { assert(0x20000int * n == w); }
    if n == 0x1000000000000 { assert(0x10000int * n == w); }
    if n == 0x2000000000000 { assert(0x8000int * n == w); }
    if n == 0x4000000000000 { assert(0x4000int * n == w); }
    if n == 0x8000000000000 { assert(0x2000int * n == w); }
    if n == 0x10000000000000 { assert(0x1000int * n == w); }
    if n == 0x20000000000000 { assert(0x800int * n == w); }
    if n == 0x40000000000000 { assert(0x400int * n == w); }
    if n == 0x80000000000000 { assert(0x200int * n == w); }
    if n == 0x100000000000000 { assert(0x100int * n == w); }
    if n == 0x200000000000000 { assert(0x80int * n == w); }
    if n == 0x400000000000000 { assert(0x40int * n == w); }
    if n == 0x800000000000000 { assert(0x20int * n == w); }
    if n == 0x1000000000000000 { assert(0x10int * n == w); }
    if n == 0x2000000000000000 { assert(0x8int * n == w); }
    if n == 0x4000000000000000 { assert(0x4int * n == w); }
    if n == 0x8000000000000000 { assert(0x2int * n == w); }
}
pub proof fn sp_leint_split(b: Seq<u8>)
    requires b.len() >= 8,
    ensures sp_leint(b) == sp_le64(b) + 0x1_0000_0000_0000_0000 * sp_leint(b.subrange(8, b.len() as int)),
{
    let l = b.len() as int;
    let (b0, b1, b2, b3, b4, b5, b6, b7) = (b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]);
    assert(((b0 as u64) | ((b1 as u64) << 8) | ((b2 as u64) << 16) | ((b3 as u64) << 24)
        | ((b4 as u64) << 32) | ((b5 as u64) << 40) | ((b6 as u64) << 48) | ((b7 as u64) << 56))
        == (b0 as u64) + (b1 as u64) * 0x100 + (b2 as u64) * 0x1_0000 + (b3 as u64) * 0x100_0000
        + (b4 as u64) * 0x1_0000_0000 + (b5 as u64) * 0x100_0000_0000 + (b6 as u64) * 0x1_0000_0000_0000 + (b7 as u64) * 0x100_0000_0000_0000) by (bit_vector);
    let t1 = b.subrange(1, l);
    let t2 = b.subrange(2, l); assert(t1.subrange(1, l - 1) =~= t2);
    let t3 = b.subrange(3, l); assert(t2.subrange(1, l - 2) =~= t3);
    let t4 = b.subrange(4, l); assert(t3.subrange(1, l - 3) =~= t4);
    let t5 = b.subrange(5, l); assert(t4.subrange(1, l - 4) =~= t5);
    let t6 = b.subrange(6, l); assert(t5.subrange(1, l - 5) =~= t6);
    let t7 = b.subrange(7, l); assert(t6.subrange(1, l - 6) =~= t7);
    let t8 = b.subrange(8, l); assert(t7.subrange(1, l - 7) =~= t8);
    assert(sp_leint(b) == b0 as nat + 256 * sp_leint(t1));
    assert(sp_leint(t1) == b1 as nat + 256 * sp_leint(t2));
    assert(sp_leint(t2) == b2 as nat + 256 * sp_leint(t3));
    assert(sp_leint(t3) == b3 as nat + 256 * sp_leint(t4));
    assert(sp_leint(t4) == b4 as nat + 256 * sp_leint(t5));
    assert(sp_leint(t5) == b5 as nat + 256 * sp_leint(t6));
    assert(sp_leint(t6) == b6 as nat + 256 * sp_leint(t7));
    assert(sp_leint(t7) == b7 as nat + 256 * sp_leint(t8));
}
// for a power of two, a mask is a remainder
pub proof fn sp_pow2_mask(n: usize, x: usize)
    requires sp_pow2(n),
    ensures x & ((n - 1) as usize) == x % n, ((n - 1) as usize) & x == x % n,
{
    let m = (n - 1) as usize;
    assert(n == 1 || n == 0x2 || n == 0x4 || n == 0x8 || n == 0x10 || n == 0x20 || n == 0x40 || n == 0x80
        || n == 0x100 || n == 0x200 || n == 0x400 || n == 0x800 || n == 0x1000 || n == 0x2000 || n == 0x4000 || n == 0x8000
        || n == 0x1_0000 || n == 0x2_0000 || n == 0x4_0000 || n == 0x8_0000 || n == 0x10_0000 || n == 0x20_0000 || n == 0x40_0000 || n == 0x80_0000
        || n == 0x100_0000 || n == 0x200_0000 || n == 0x400_0000 || n == 0x800_0000 || n == 0x1000_0000 || n == 0x2000_0000 || n == 0x4000_0000 || n == 0x8000_0000
        || n == 0x1_0000_0000 || n == 0x2_0000_0000 || n == 0x4_0000_0000 || n == 0x8_0000_0000 || n == 0x10_0000_0000 || n == 0x20_0000_0000 || n == 0x40_0000_0000 || n == 0x80_0000_0000
        || n == 0x100_0000_0000 || n == 0x200_0000_0000 || n == 0x400_0000_0000 || n == 0x800_0000_0000 || n == 0x1000_0000_0000 || n == 0x2000_0000_0000 || n == 0x4000_0000_0000 || n == 0x8000_0000_0000
        || n == 0x1_0000_0000_0000 || n == 0x2_0000_0000_0000 || n == 0x4_0000_0000_0000 || n == 0x8_0000_0000_0000 || n == 0x10_0000_0000_0000 || n == 0x20_0000_0000_0000 || n == 0x40_0000_0000_0000 || n == 0x80_0000_0000_0000
        || n == 0x100_0000_0000_0000 || n == 0x200_0000_0000_0000 || n == 0x400_0000_0000_0000 || n == 0x800_0000_0000_0000 || n == 0x1000_0000_0000_0000 || n == 0x2000_0000_0000_0000 || n == 0x4000_0000_0000_0000 || n == 0x8000_0000_0000_0000)
        by (bit_vector)
            requires n > 0, n & m == 0, m == (n - 1) as usize;
    if n == 0x1 { let m = 0x0usize; assert(x & m == x % 0x1usize && m & x == x % 0x1usize) by (bit_vector) requires m == 0x0usize; }
    if n == 0x2 { let m = 0x1usize; assert(x & m == x % 0x2usize && m & x == x % 0x2usize) by (bit_vector) requires m == 0x1usize; }
    if n == 0x4 { let m = 0x3usize; assert(x & m == x % 0x4usize && m & x == x % 0x4usize) by (bit_vector) requires m == 0x3usize; }
    if n == 0x8 { let m = 0x7usize; assert(x & m == x % 0x8usize && m & x == x % 0x8usize) by (bit_vector) requires m == 0x7usize; }
    if n == 0x10 { let m = 0xfusize; assert(x & m == x % 0x10usize && m & x == x % 0x10usize) by (bit_vector) requires m == 0xfusize; }
    if n == 0x20 { let m = 0x1fusize; assert(x & m == x % 0x20usize && m & x == x % 0x20usize) by (bit_vector) requires m == 0x1fusize; }
    if n == 0x40 { let m = 0x3fusize; assert(x & m == x % 0x40usize && m & x == x % 0x40usize) by (bit_vector) requires m == 0x3fusize; }
    if n == 0x80 { let m = 0x7fusize; assert(x & m == x % 0x80usize && m & x == x % 0x80usize) by (bit_vector) requires m == 0x7fusize; }
    if n == 0x100 { let m = 0xffusize; assert(x & m == x % 0x100usize && m & x == x % 0x100usize) by (bit_vector) requires m == 0xffusize; }
    if n == 0x200 { let m = 0x1ffusize; assert(x & m == x % 0x200usize && m & x == x % 0x200usize) by (bit_vector) requires m == 0x1ffusize; }
    if n == 0x400 { let m = 0x3ffusize; assert(x & m == x % 0x400usize && m & x == x % 0x400usize) by (bit_vector) requires m == 0x3ffusize; }
    if n == 0x800 { let m = 0x7ffusize; assert(x & m == x % 0x800usize && m & x == x % 0x800usize) by (bit_vector) requires m == 0x7ffusize; }
    if n == 0x1000 { let m = 0xfffusize; assert(x & m == x % 0x1000usize && m & x == x % 0x1000usize) by (bit_vector) requires m == 0xfffusize; }
    if n == 0x2000 { let m = 0x1fffusize; assert(x & m == x % 0x2000usize && m & x == x % 0x2000usize) by (bit_vector) requires m == 0x1fffusize; }
    if n == 0x4000 { let m = 0x3fffusize; assert(x & m == x % 0x4000usize && m & x == x % 0x4000usize) by (bit_vector) requires m == 0x3fffusize; }
    if n == 0x8000 { let m = 0x7fffusize; assert(x & m == x % 0x8000usize && m & x == x % 0x8000usize) by (bit_vector) requires m == 0x7fffusize; }
    if n == 0x10000 { let m = 0xffffusize; assert(x & m == x % 0x10000usize && m & x == x % 0x10000usize) by (bit_vector) requires m == 0xffffusize; }
    if n == 0x20000 { let m = 0x1ffffusize; assert(x & m == x % 0x20000usize && m & x == x % 0x20000usize) by (bit_vector) requires m == 0x1ffffusize; }
    if n == 0x40000 { let m = 0x3ffffusize; assert(x & m == x % 0x40000usize && m & x == x % 0x40000usize) by (bit_vector) requires m == 0x3ffffusize; }
    if n == 0x80000 { let m = 0x7ffffusize; assert(x & m == x % 0x80000usize && m & x == x % 0x80000usize) by (bit_vector) requires m == 0x7ffffusize; }
    if n == 0x100000 { let m = 0xfffffusize; assert(x & m == x % 0x100000usize && m & x == x % 0x100000usize) by (bit_vector) requires m == 0xfffffusize; }
    if n == 0x200000 { let m = 0x1fffffusize; assert(x & m == x % 0x200000usize && m & x == x % 0x200000usize) by (bit_vector) requires m == 0x1fffffusize; }
    if n == 0x400000 { let m = 0x3fffffusize; assert(x & m == x % 0x400000usize && m & x == x % 0x400000usize) by (bit_vector) requires m == 0x3fffffusize; }
    if n == 0x800000 { let m = 0x7fffffusize; assert(x & m == x % 0x800000usize && m & x == x % 0x800000usize) by (bit_vector) requires m == 0x7fffffusize; }
    if n == 0x1000000 { let m = 0xffffffusize; assert(x & m == x % 0x1000000usize && m & x == x % 0x1000000usize) by (bit_vector) requires m == 0xffffffusize; }
    if n == 0x2000000 { let m = 0x1ffffffusize; assert(x & m == x % 0x2000000usize && m & x == x % 0x2000000usize) by (bit_vector) requires m == 0x1ffffffusize; }
    if n == 0x4000000 { let m = 0x3ffffffusize; assert(x & m == x % 0x4000000usize && m & x == x % 0x4000000usize) by (bit_vector) requires m == 0x3ffffffusize; }
    if n == 0x8000000 { let m = 0x7ffffffusize; assert(x & m == x % 0x8000000usize && m & x == x % 0x8000000usize) by (bit_vector) requires m == 0x7ffffffusize; }
    if n == 0x10000000 { let m = 0xfffffffusize; assert(x & m == x % 0x10000000usize && m & x == x % 0x10000000usize) by (bit_vector) requires m == 0xfffffffusize; }
    if n == 0x20000000 { let m = 0x1fffffffusize; assert(x & m == x % 0x20000000usize && m & x == x % 0x20000000usize) by (bit_vector) requires m == 0x1fffffffusize; }
    if n == 0x40000000 { let m = 0x3fffffffusize; assert(x & m == x % 0x40000000usize && m & x == x % 0x40000000usize) by (bit_vector) requires m == 0x3fffffffusize; }
    if n == 0x80000000 { let m = 0x7fffffffusize; assert(x & m == x % 0x80000000usize && m & x == x % 0x80000000usize) by (bit_vector) requires m == 0x7fffffffusize; }
    if n == 0x100000000 { let m = 0xffffffffusize; assert(x & m == x % 0x100000000usize && m & x == x % 0x100000000usize) by (bit_vector) requires m == 0xffffffffusize; }
    if n == 0x200000000 { let m = 0x1ffffffffusize; assert(x & m == x % 0x200000000usize && m & x == x % 0x200000000usize) by (bit_vector) requires m == 0x1ffffffffusize; }
    if n == 0x400000000 { let m = 0x3ffffffffusize; assert(x & m == x % 0x400000000usize && m & x == x % 0x400000000usize) by (bit_vector) requires m == 0x3ffffffffusize; }
    if n == 0x800000000 { let m = 0x7ffffffffusize; assert(x & m == x % 0x800000000usize && m & x == x % 0x800000000usize) by (bit_vector) requires m == 0x7ffffffffusize; }
    if n == 0x1000000000 { let m = 0xfffffffffusize; assert(x & m == x % 0x1000000000usize && m & x == x % 0x1000000000usize) by (bit_vector) requires m == 0xfffffffffusize; }
    if n == 0x2000000000 { let m = 0x1fffffffffusize; assert(x & m == x % 0x2000000000usize && m & x == x % 0x2000000000usize) by (bit_vector) requires m == 0x1fffffffffusize; }
    if n == 0x4000000000 { let m = 0x3fffffffffusize; assert(x & m == x % 0x4000000000usize && m & x == x % 0x4000000000usize) by (bit_vector) requires m == 0x3fffffffffusize; }
    if n == 0x8000000000 { let m = 0x7fffffffffusize; assert(x & m == x % 0x8000000000usize && m & x == x % 0x8000000000usize) by (bit_vector) requires m == 0x7fffffffffusize; }
    if n == 0x10000000000 { let m = 0xffffffffffusize; assert(x & m == x % 0x10000000000usize && m & x == x % 0x10000000000usize) by (bit_vector) requires m == 0xffffffffffusize; }
    if n == 0x20000000000 { let m = 0x1ffffffffffusize; assert(x & m == x % 0x20000000000usize && m & x == x % 0x20000000000usize) by (bit_vector) requires m == 0x1ffffffffffusize; }
    if n == 0x40000000000 { let m = 0x3ffffffffffusize; assert(x & m == x % 0x40000000000usize && m & x == x % 0x40000000000usize) by (bit_vector) requires m == 0x3ffffffffffusize; }
    if n == 0x80000000000 { let m = 0x7ffffffffffusize; assert(x & m == x % 0x80000000000usize && m & x == x % 0x80000000000usize) by (bit_vector) requires m == 0x7ffffffffffusize; }
    if n == 0x100000000000 { let m = 0xfffffffffffusize; assert(x & m == x % 0x100000000000usize && m & x == x % 0x100000000000usize) by (bit_vector) requires m == 0xfffffffffffusize; }
    if n == 0x200000000000 { let m = 0x1fffffffffffusize; assert(x & m == x % 0x200000000000usize && m & x == x % 0x200000000000usize) by (bit_vector) requires m == 0x1fffffffffffusize; }
    if n == 0x400000000000 { let m = 0x3fffffffffffusize; assert(x & m == x % 0x400000000000usize && m & x == x % 0x400000000000usize) by (bit_vector) requires m == 0x3fffffffffffusize; }
    if n == 0x800000000000 { let m = 0x7fffffffffffusize; assert(x & m == x % 0x800000000000usize && m & x == x % 0x800000000000usize) by (bit_vector) requires m == 0x7fffffffffffusize; }
    if n == 0x1000000000000 { let m = 0xffffffffffffusize; assert(x & m == x % 0x1000000000000usize && m & x == x % 0x1000000000000usize) by (bit_vector) requires m == 0xffffffffffffusize; }
    if n == 0x2000000000000 { let m = 0x1ffffffffffffusize; assert(x & m == x % 0x2000000000000usize && m & x == x % 0x2000000000000usize) by (bit_vector) requires m == 0x1ffffffffffffusize; }
    if n == 0x4000000000000 { let m = 0x3ffffffffffffusize; assert(x & m == x % 0x4000000000000usize && m & x == x % 0x4000000000000usize) by (bit_vector) requires m == 0x3ffffffffffffusize; }
    if n == 0x8000000000000 { let m = 0x7ffffffffffffusize; assert(x & m == x % 0x8000000000000usize && m & x == x % 0x8000000000000usize) by (bit_vector) requires m == 0x7ffffffffffffusize; }
    if n == 0x10000000000000 { let m = 0xfffffffffffffusize; assert(x & m == x % 0x10000000000000usize && m & x == x % 0x10000000000000usize) by (bit_vector) requires m == 0xfffffffffffffusize; }
    if n == 0x20000000000000 { let m = 0x1fffffffffffffusize; assert(x & m == x % 0x20000000000000usize && m & x == x % 0x20000000000000usize) by (bit_vector) requires m == 0x1fffffffffffffusize; }
    if n == 0x40000000000000 { let m = 0x3fffffffffffffusize; assert(x & m == x % 0x40000000000000usize && m & x == x % 0x40000000000000usize) by (bit_vector) requires m == 0x3fffffffffffffusize; }
    if n == 0x80000000000000 { let m = 0x7fffffffffffffusize; assert(x & m == x % 0x80000000000000usize && m & x == x % 0x80000000000000usize) by (bit_vector) requires m == 0x7fffffffffffffusize; }
    if n == 0x100000000000000 { let m = 0xffffffffffffffusize; assert(x & m == x % 0x100000000000000usize && m & x == x % 0x100000000000000usize) by (bit_vector) requires m == 0xffffffffffffffusize; }
    if n == 0x200000000000000 { let m = 0x1ffffffffffffffusize; assert(x & m == x % 0x200000000000000usize && m & x == x % 0x200000000000000usize) by (bit_vector) requires m == 0x1ffffffffffffffusize; }
    if n == 0x400000000000000 { let m = 0x3ffffffffffffffusize; assert(x & m == x % 0x400000000000000usize && m & x == x % 0x400000000000000usize) by (bit_vector) requires m == 0x3ffffffffffffffusize; }
    if n == 0x800000000000000 { let m = 0x7ffffffffffffffusize; assert(x & m == x % 0x800000000000000usize && m & x == x % 0x800000000000000usize) by (bit_vector) requires m == 0x7ffffffffffffffusize; }
    if n == 0x1000000000000000 { let m = 0xfffffffffffffffusize; assert(x & m == x % 0x1000000000000000usize && m & x == x % 0x1000000000000000usize) by (bit_vector) requires m == 0xfffffffffffffffusize; }
    if n == 0x2000000000000000 { let m = 0x1fffffffffffffffusize; assert(x & m == x % 0x2000000000000000usize && m & x == x % 0x2000000000000000usize) by (bit_vector) requires m == 0x1fffffffffffffffusize; }
    if n == 0x4000000000000000 { let m = 0x3fffffffffffffffusize; assert(x & m == x % 0x4000000000000000usize && m & x == x % 0x4000000000000000usize) by (bit_vector) requires m == 0x3fffffffffffffffusize; }
    if n == 0x8000000000000000 { let m = 0x7fffffffffffffffusize; assert(x & m == x % 0x8000000000000000usize && m & x == x % 0x8000000000000000usize) by (bit_vector) requires m == 0x7fffffffffffffffusize; }
}
pub proof fn sp_integerify_mod(b: Seq<Seq<u8>>, v: u64, n: usize)
    requires
        b.len() > 0, b[b.len() - 1].len() >= 8, sp_pow2(n), v == sp_le64(b[b.len() - 1]),
    ensures
        sp_integerify(b) as int % (n as int) == v as int % (n as int),
{
    let l = b[b.len() - 1];
    sp_leint_split(l);
    sp_pow2_divides(n);
    let q = choose|q: int| q > 0 && #[trigger] (q * n) == 0x1_0000_0000_0000_0000;
    let h = sp_leint(l.subrange(8, l.len() as int)) as int;
    let nn = n as int;
    assert(sp_integerify(b) == v + nn * (q * h)) by (nonlinear_arith)
        requires q * nn == 0x1_0000_0000_0000_0000, sp_integerify(b) == v + 0x1_0000_0000_0000_0000 * h;
    vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(q * h, v as int, nn);
}
// a derivation succeeds for valid parameters only; otherwise the error names one at fault and the output is untouched
pub open spec fn sp_scrypt_params(r: usize, n: usize, p: usize, res: Result<(), crate::scrypt::ScryptError>, before: Seq<u8>, after: Seq<u8>) -> bool {
    match res {
        Ok(_) => r >= 1 && n >= 2 && sp_pow2(n) && p >= 1,
        Err(e) => after == before && match e {
            crate::scrypt::ScryptError::RIsTooSmall => r < 1,
            crate::scrypt::ScryptError::NIsTooSmall => n < 2,
            crate::scrypt::ScryptError::NIsNotAPowerOfTwo => !sp_pow2(n),
            crate::scrypt::ScryptError::PIsTooSmall => p < 1,
        },
    }
}
pub proof fn sp_pow2_comm(n: usize)
    ensures n >= 1 ==> n & ((n - 1) as usize) == ((n - 1) as usize) & n,
{
    if n >= 1 { let m = (n - 1) as usize; assert(n & m == m & n) by (bit_vector); }
}
pub proof fn sp_sizes(r: usize, p: usize)
    requires r >= 1, p >= 1, 128 * (r * p) <= sp_dk_max(),
    ensures
        r <= 0x7fff_ffff, p <= 0x7fff_ffff, r * p <= 0x7fff_ffff,
        p * 2 * 64 * r == p * 128 * r, p * 128 * r == p * (128 * r), p * 128 * r == 128 * (r * p), 128 * r * p == p * 128 * r,
        p * r * 128 == p * 128 * r, r * p * 128 == p * 128 * r,
{
    assert(r <= r * p && p <= r * p) by (nonlinear_arith) requires r >= 1, p >= 1;
    assert(p * 2 * 64 * r == p * 128 * r && p * 128 * r == p * (128 * r) && p * 128 * r == 128 * (r * p) && 128 * r * p == p * 128 * r
        && p * r * 128 == p * 128 * r && r * p * 128 == p * 128 * r) by (nonlinear_arith);
}
pub proof fn sp_part_in(r: int, p: int, i: int)
    requires r >= 1, 0 <= i < p,
    ensures 0 <= 128 * r * i, 128 * r * i + 128 * r <= p * 128 * r, 128 * r * i == i * (128 * r),
{
    assert(0 <= 128 * r * i && 128 * r * i + 128 * r <= p * 128 * r && 128 * r * i == i * (128 * r)) by (nonlinear_arith) requires r >= 1, 0 <= i < p;
}
pub proof fn sp_part_count(r: int, p: int, i: int)
    requires r >= 1, i * (128 * r) <= p * (128 * r), p * (128 * r) - i * (128 * r) < 128 * r,
    ensures i == p,
{
    assert(i == p) by (nonlinear_arith) requires r >= 1, i * (128 * r) <= p * (128 * r), p * (128 * r) - i * (128 * r) < 128 * r;
}
pub proof fn sp_blk_vec(x: Seq<Vec<u8>>)
    requires sp_blk(sp_deep(x)),
    ensures forall|i: int| #![trigger x[i]@] 0 <= i < x.len() ==> x[i]@.len() == 64,
{
    assert forall|i: int| #![trigger x[i]@] 0 <= i < x.len() implies x[i]@.len() == 64 by { assert(sp_deep(x)[i].len() == 64); }
}
pub proof fn sp_vec_blk(x: Seq<Vec<u8>>)
    requires forall|i: int| #![trigger x[i]@] 0 <= i < x.len() ==> x[i]@.len() == 64,
    ensures sp_blk(sp_deep(x)),
{
    let d = sp_deep(x);
    assert forall|i: int| #![trigger d[i]] 0 <= i < d.len() implies d[i].len() == 64 by { assert(x[i]@.len() == 64); }
}
pub proof fn sp_part_blk(raw: Seq<u8>, r: int, n: int, p: int, i: int)
    requires r >= 1, 0 <= i < p, raw.len() == p * 128 * r, n > 0,
    ensures
        sp_blk(sp_part(raw, r, i)), sp_part(raw, r, i).len() == 2 * r,
        sp_blk(sp_romix(sp_part(raw, r, i), n)), sp_romix(sp_part(raw, r, i), n).len() == 2 * r,
        sp_flat(sp_romix(sp_part(raw, r, i), n)).len() == 128 * r,
{
    let d = sp_part(raw, r, i);
    sp_part_in(r, p, i);
    assert forall|j: int| #![trigger d[j]] 0 <= j < d.len() implies d[j].len() == 64 by {}
    reveal(sp_romix);
    sp_x_blk(d, n, n);
    sp_flat_len(sp_romix(d, n));
}
pub proof fn sp_mixed_len(raw: Seq<u8>, r: int, n: int, p: int, i: int)
    requires r >= 1, 0 <= i <= p, raw.len() == p * 128 * r, n > 0,
    ensures sp_mixed(raw, r, n, i).len() == i * 128 * r,
    decreases i
{
    
    if i > 0 {
        sp_part_blk(raw, r, n, p, i - 1);
        sp_mixed_len(raw, r, n, p, i - 1);
        assert((i - 1) * 128 * r + 128 * r == i * 128 * r) by (nonlinear_arith);
    } else { assert(i * 128 * r == 0) by (nonlinear_arith) requires i == 0; }
}
pub proof fn sp_lt_of_mul(r: int, p: int, i: int)
    requires r >= 1, i * (128 * r) <= p * (128 * r),
    ensures i <= p,
{
    assert(i <= p) by (nonlinear_arith) requires r >= 1, i * (128 * r) <= p * (128 * r);
}
