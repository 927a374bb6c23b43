// ---------------------------------------------------------------- SHA-256
// FIPS 180-4 / RFC 6234, written from the standard.
pub open spec fn sp_rotr(n: u32, s: u32) -> u32 { (n >> s) | (n << ((32 - s) as u32)) }
pub open spec fn sp_ch(x: u32, y: u32, z: u32) -> u32 { (x & y) ^ ((!x) & z) }
pub open spec fn sp_maj(x: u32, y: u32, z: u32) -> u32 { (x & y) ^ (x & z) ^ (y & z) }
pub open spec fn sp_bsig0(x: u32) -> u32 { sp_rotr(x, 2) ^ sp_rotr(x, 13) ^ sp_rotr(x, 22) }
pub open spec fn sp_bsig1(x: u32) -> u32 { sp_rotr(x, 6) ^ sp_rotr(x, 11) ^ sp_rotr(x, 25) }
pub open spec fn sp_ssig0(x: u32) -> u32 { sp_rotr(x, 7) ^ sp_rotr(x, 18) ^ (x >> 3) }
pub open spec fn sp_ssig1(x: u32) -> u32 { sp_rotr(x, 17) ^ sp_rotr(x, 19) ^ (x >> 10) }

pub open spec fn sp_k() -> Seq<u32> {
    seq![
        0x428a2f98u32, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5,
        0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174,
        0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da,
        0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967,
        0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85,
        0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070,
        0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3,
        0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2,
    ]
}
pub open spec fn sp_h0() -> Seq<u32> {
    seq![
        0x6a09e667u32, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19,
    ]
}
pub open spec fn sp_add(a: u32, b: u32) -> u32 { a.wrapping_add(b) }

#[verifier::memoize]
pub open spec fn sp_w(block: Seq<u32>, t: int) -> u32
    decreases t
{
    if t < 16 { block[t] }
    else {
        sp_add(sp_add(sp_add(sp_ssig1(sp_w(block, t - 2)), sp_w(block, t - 7)), sp_ssig0(sp_w(block, t - 15))), sp_w(block, t - 16))
    }
}
pub struct SpSt { pub a: u32, pub b: u32, pub c: u32, pub d: u32, pub e: u32, pub f: u32, pub g: u32, pub h: u32 }

pub open spec fn sp_round(s: SpSt, k: u32, w: u32) -> SpSt {
    let t1 = sp_add(sp_add(sp_add(sp_add(s.h, sp_bsig1(s.e)), sp_ch(s.e, s.f, s.g)), k), w);
    let t2 = sp_add(sp_bsig0(s.a), sp_maj(s.a, s.b, s.c));
    SpSt { a: sp_add(t1, t2), b: s.a, c: s.b, d: s.c, e: sp_add(s.d, t1), f: s.e, g: s.f, h: s.g }
}
#[verifier::memoize]
pub open spec fn sp_rounds(s: SpSt, block: Seq<u32>, t: int) -> SpSt
    decreases t
{
    if t <= 0 { s } else { sp_round(sp_rounds(s, block, t - 1), sp_k()[t - 1], sp_w(block, t - 1)) }
}
pub open spec fn sp_st(h: Seq<u32>) -> SpSt {
    SpSt { a: h[0], b: h[1], c: h[2], d: h[3], e: h[4], f: h[5], g: h[6], h: h[7] }
}
#[verifier::opaque]
#[verifier::memoize]
pub open spec fn sp_compress(h: Seq<u32>, block: Seq<u32>) -> Seq<u32> {
    let s = sp_rounds(sp_st(h), block, 64);
    seq![
        sp_add(h[0], s.a), sp_add(h[1], s.b), sp_add(h[2], s.c), sp_add(h[3], s.d),
        sp_add(h[4], s.e), sp_add(h[5], s.f), sp_add(h[6], s.g), sp_add(h[7], s.h),
    ]
}
pub open spec fn sp_be32(b0: u8, b1: u8, b2: u8, b3: u8) -> u32 {
    ((b0 as u32) << 24) | ((b1 as u32) << 16) | ((b2 as u32) << 8) | (b3 as u32)
}
pub open spec fn sp_words(b: Seq<u8>) -> Seq<u32> {
    Seq::new(16, |i: int| sp_be32(b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]))
}
// big-endian byte k of a word; masked before the cast, so that it can be computed
#[verifier::opaque]
pub open spec fn sp_byte64(v: u64, k: int) -> u8 {
    if k == 0 { (v >> 56 & 0xff) as u8 } else if k == 1 { (v >> 48 & 0xff) as u8 } else if k == 2 { (v >> 40 & 0xff) as u8 }
    else if k == 3 { (v >> 32 & 0xff) as u8 } else if k == 4 { (v >> 24 & 0xff) as u8 } else if k == 5 { (v >> 16 & 0xff) as u8 }
    else if k == 6 { (v >> 8 & 0xff) as u8 } else { (v & 0xff) as u8 }
}
pub broadcast proof fn sp_byte64_cast(v: u64, k: int)
    ensures
        #[trigger] sp_byte64(v, k) == (if k == 0 { (v >> 56) as u8 } else if k == 1 { (v >> 48) as u8 } else if k == 2 { (v >> 40) as u8 }
            else if k == 3 { (v >> 32) as u8 } else if k == 4 { (v >> 24) as u8 } else if k == 5 { (v >> 16) as u8 }
            else if k == 6 { (v >> 8) as u8 } else { v as u8 }),
        v >> 0u64 == v,
{
    assert(v >> 0u64 == v) by (bit_vector);
    reveal(sp_byte64);
    assert((v >> 56 & 0xff) as u8 == (v >> 56) as u8 && (v >> 48 & 0xff) as u8 == (v >> 48) as u8 && (v >> 40 & 0xff) as u8 == (v >> 40) as u8
        && (v >> 32 & 0xff) as u8 == (v >> 32) as u8 && (v >> 24 & 0xff) as u8 == (v >> 24) as u8 && (v >> 16 & 0xff) as u8 == (v >> 16) as u8
        && (v >> 8 & 0xff) as u8 == (v >> 8) as u8 && (v & 0xff) as u8 == v as u8) by (bit_vector);
}
pub open spec fn sp_be64(v: u64) -> Seq<u8> {
    seq![
        sp_byte64(v, 0), sp_byte64(v, 1), sp_byte64(v, 2), sp_byte64(v, 3),
        sp_byte64(v, 4), sp_byte64(v, 5), sp_byte64(v, 6), sp_byte64(v, 7),
    ]
}
#[verifier::opaque]
pub open spec fn sp_byte(x: u32, k: int) -> u8 {
    if k == 0 { (x >> 24 & 0xff) as u8 } else if k == 1 { (x >> 16 & 0xff) as u8 } else if k == 2 { (x >> 8 & 0xff) as u8 } else { (x & 0xff) as u8 }
}
pub broadcast proof fn sp_byte_cast(x: u32, k: int)
    ensures
        #[trigger] sp_byte(x, k) == (if k == 0 { (x >> 24) as u8 } else if k == 1 { (x >> 16) as u8 } else if k == 2 { (x >> 8) as u8 } else { x as u8 }),
        x >> 0u32 == x,
{
    assert(x >> 0u32 == x) by (bit_vector);
    reveal(sp_byte);
    assert((x >> 24 & 0xff) as u8 == (x >> 24) as u8 && (x >> 16 & 0xff) as u8 == (x >> 16) as u8 && (x >> 8 & 0xff) as u8 == (x >> 8) as u8
        && (x & 0xff) as u8 == x as u8) by (bit_vector);
}
pub open spec fn sp_out32(h: Seq<u32>) -> Seq<u8> {
    Seq::new(32, |i: int| sp_byte(h[i / 4], i % 4))
}
pub open spec fn sp_zeros(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 0u8) }

// ---- the running digest, as the code's contracts see it
pub struct SpSha { pub h: Seq<u32>, pub tail: Seq<u8>, pub len: int }

pub open spec fn sp_absorb1(s: SpSha, b: u8) -> SpSha {
    let t = s.tail.push(b);
    if t.len() == 64 {
        SpSha { h: sp_compress(s.h, sp_words(t)), tail: Seq::empty(), len: s.len + 1 }
    } else {
        SpSha { h: s.h, tail: t, len: s.len + 1 }
    }
}
pub open spec fn sp_absorb(s: SpSha, d: Seq<u8>) -> SpSha
    decreases d.len()
{
    if d.len() == 0 { s } else { sp_absorb1(sp_absorb(s, d.drop_last()), d.last()) }
}
pub open spec fn sp_sha_init() -> SpSha { SpSha { h: sp_h0(), tail: Seq::empty(), len: 0 } }

pub open spec fn sp_finish(s: SpSha) -> Seq<u8> {
    let t = s.tail.push(0x80u8);
    let l = sp_be64((s.len * 8) as u64);
    if s.tail.len() + 9 <= 64 {
        sp_out32(sp_compress(s.h, sp_words(t + sp_zeros(56 - t.len()) + l)))
    } else {
        sp_out32(sp_compress(sp_compress(s.h, sp_words(t + sp_zeros(64 - t.len()))), sp_words(sp_zeros(56) + l)))
    }
}

// ---- the standard's definition, from the whole message
#[verifier::memoize]
pub open spec fn sp_blocks(h: Seq<u32>, m: Seq<u8>, n: int) -> Seq<u32>
    decreases n
{
    if n <= 0 { h } else { sp_compress(sp_blocks(h, m, n - 1), sp_words(m.subrange(64 * (n - 1), 64 * n))) }
}
pub open spec fn sp_pad_zeros(len: int) -> int { (119 - len % 64) % 64 }
pub open spec fn sp_pad_msg(m: Seq<u8>) -> Seq<u8> {
    m + seq![0x80u8] + sp_zeros(sp_pad_zeros(m.len() as int)) + sp_be64((m.len() * 8) as u64)
}
pub open spec fn sp_sha256(m: Seq<u8>) -> Seq<u8> {
    let p = sp_pad_msg(m);
    sp_out32(sp_blocks(sp_h0(), p, p.len() as int / 64))
}
pub open spec fn sp_sha_max() -> int { 0x2000_0000_0000_0000 }

// equal contents, equal words: lets the solver compare buffers it meets
pub broadcast proof fn sp_words_ext(a: Seq<u8>, b: Seq<u8>)
    requires
        a.len() == 64, b.len() == 64,
        forall|i: int| 0 <= i < 64 ==> a[i] == b[i],
    ensures
        #![trigger sp_words(a), sp_words(b)]
        sp_words(a) == sp_words(b),
{ assert(a =~= b); }
pub broadcast proof fn sp_out32_ext(a: Seq<u8>, h: Seq<u32>)
    requires
        a.len() == 32,
        forall|i: int| 0 <= i < 32 ==> a[i] == sp_out32(h)[i],
    ensures
        #![trigger a.len(), sp_out32(h)]
        a == sp_out32(h),
{ assert(a =~= sp_out32(h)); }
pub broadcast group sp_sha_ext { sp_words_ext, sp_out32_ext }
pub proof fn sp_absorb_step(s: SpSha, d: Seq<u8>, n: int)
    requires 0 <= n < d.len(),
    ensures
        sp_absorb(s, d.subrange(0, n + 1)) == sp_absorb1(sp_absorb(s, d.subrange(0, n)), d[n]),
{
    assert(d.subrange(0, n + 1).drop_last() =~= d.subrange(0, n));
}
