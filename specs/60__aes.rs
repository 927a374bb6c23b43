// ---------------------------------------------------------------- AES (FIPS 197), written from the standard
// states and blocks are 16 octets in input order: octet 4c + r is row r of column c
pub open spec fn sa_xtime(b: u8) -> u8 { if b & 0x80 == 0 { b << 1 } else { (b << 1) ^ 0x1b } }
// multiplication in GF(2^8); the second factor is a polynomial with bits as coefficients
pub open spec fn sa_mul(a: u8, b: nat) -> u8
    decreases b
{
    if b == 0 { 0 } else { (if b % 2 == 1 { a } else { 0u8 }) ^ sa_mul(sa_xtime(a), b / 2) }
}
#[verifier::memoize]
pub open spec fn sa_pow(a: u8, n: nat) -> u8
    decreases n
{
    if n == 0 { 1 } else if n % 2 == 0 { sa_pow(sa_mul(a, a as nat), n / 2) } else { sa_mul(a, sa_pow(sa_mul(a, a as nat), n / 2) as nat) }
}
pub open spec fn sa_rol(x: u8, s: u8) -> u8 { (x << s) | (x >> ((8 - s) as u8)) }
// inverse in the field (0 to 0), then the affine transformation
#[verifier::memoize]
#[verifier::opaque]
pub open spec fn sa_sbox(b: u8) -> u8 {
    let x = sa_pow(b, 254);
    x ^ sa_rol(x, 1) ^ sa_rol(x, 2) ^ sa_rol(x, 3) ^ sa_rol(x, 4) ^ 0x63
}
#[verifier::memoize]
#[verifier::opaque]
pub open spec fn sa_isbox(y: u8) -> u8 { sa_pow(sa_rol(y, 1) ^ sa_rol(y, 3) ^ sa_rol(y, 6) ^ 0x05, 254) }

pub open spec fn sa_sub(s: Seq<u8>) -> Seq<u8> { Seq::new(16, |i: int| sa_sbox(s[i])) }
pub open spec fn sa_isub(s: Seq<u8>) -> Seq<u8> { Seq::new(16, |i: int| sa_isbox(s[i])) }
// row r rotates left by r (ShiftRows), back again (InvShiftRows)
pub open spec fn sa_shift(s: Seq<u8>) -> Seq<u8> { seq![s[0], s[5], s[10], s[15], s[4], s[9], s[14], s[3], s[8], s[13], s[2], s[7], s[12], s[1], s[6], s[11]] }
pub open spec fn sa_ishift(s: Seq<u8>) -> Seq<u8> { seq![s[0], s[13], s[10], s[7], s[4], s[1], s[14], s[11], s[8], s[5], s[2], s[15], s[12], s[9], s[6], s[3]] }
pub open spec fn sa_mixw(a: u8, b: u8, c: u8, d: u8) -> u8 { sa_mul(a, 2) ^ sa_mul(b, 3) ^ c ^ d }
pub open spec fn sa_imixw(a: u8, b: u8, c: u8, d: u8) -> u8 { sa_mul(a, 14) ^ sa_mul(b, 11) ^ sa_mul(c, 13) ^ sa_mul(d, 9) }
pub open spec fn sa_mix(s: Seq<u8>) -> Seq<u8> {
    seq![
        sa_mixw(s[0], s[1], s[2], s[3]), sa_mixw(s[1], s[2], s[3], s[0]), sa_mixw(s[2], s[3], s[0], s[1]), sa_mixw(s[3], s[0], s[1], s[2]),
        sa_mixw(s[4], s[5], s[6], s[7]), sa_mixw(s[5], s[6], s[7], s[4]), sa_mixw(s[6], s[7], s[4], s[5]), sa_mixw(s[7], s[4], s[5], s[6]),
        sa_mixw(s[8], s[9], s[10], s[11]), sa_mixw(s[9], s[10], s[11], s[8]), sa_mixw(s[10], s[11], s[8], s[9]), sa_mixw(s[11], s[8], s[9], s[10]),
        sa_mixw(s[12], s[13], s[14], s[15]), sa_mixw(s[13], s[14], s[15], s[12]), sa_mixw(s[14], s[15], s[12], s[13]), sa_mixw(s[15], s[12], s[13], s[14]),
    ]
}
pub open spec fn sa_imix(s: Seq<u8>) -> Seq<u8> {
    seq![
        sa_imixw(s[0], s[1], s[2], s[3]), sa_imixw(s[1], s[2], s[3], s[0]), sa_imixw(s[2], s[3], s[0], s[1]), sa_imixw(s[3], s[0], s[1], s[2]),
        sa_imixw(s[4], s[5], s[6], s[7]), sa_imixw(s[5], s[6], s[7], s[4]), sa_imixw(s[6], s[7], s[4], s[5]), sa_imixw(s[7], s[4], s[5], s[6]),
        sa_imixw(s[8], s[9], s[10], s[11]), sa_imixw(s[9], s[10], s[11], s[8]), sa_imixw(s[10], s[11], s[8], s[9]), sa_imixw(s[11], s[8], s[9], s[10]),
        sa_imixw(s[12], s[13], s[14], s[15]), sa_imixw(s[13], s[14], s[15], s[12]), sa_imixw(s[14], s[15], s[12], s[13]), sa_imixw(s[15], s[12], s[13], s[14]),
    ]
}
#[verifier::opaque]
pub open spec fn sa_wbyte(w: u32, r: int) -> u8 {
    if r == 0 { ((w >> 24) & 0xff) as u8 } else if r == 1 { ((w >> 16) & 0xff) as u8 } else if r == 2 { ((w >> 8) & 0xff) as u8 } else { (w & 0xff) as u8 }
}
// the mask (there so that the known answers can be evaluated) changes nothing
pub broadcast proof fn sa_wbyte_cast(w: u32, r: int)
    ensures #[trigger] sa_wbyte(w, r) == if r == 0 { (w >> 24) as u8 } else if r == 1 { (w >> 16) as u8 } else if r == 2 { (w >> 8) as u8 } else { w as u8 },
        w >> 0u32 == w,
{
    assert(w >> 0u32 == w) by (bit_vector);
    reveal(sa_wbyte);
    assert(((w >> 24) & 0xff) as u8 == (w >> 24) as u8 && ((w >> 16) & 0xff) as u8 == (w >> 16) as u8 && ((w >> 8) & 0xff) as u8 == (w >> 8) as u8 && (w & 0xff) as u8 == w as u8) by (bit_vector);
}
// AddRoundKey with the words k[0..4]
pub open spec fn sa_ark(s: Seq<u8>, k: Seq<u32>) -> Seq<u8> { Seq::new(16, |i: int| s[i] ^ sa_wbyte(k[i / 4], i % 4)) }
pub open spec fn sa_rk(w: Seq<u32>, i: int) -> Seq<u32> { w.subrange(4 * i, 4 * i + 4) }

// Cipher (figure 5) and InvCipher (figure 12)
#[verifier::memoize]
pub open spec fn sa_rounds(b: Seq<u8>, w: Seq<u32>, n: int) -> Seq<u8>
    decreases n
{
    if n <= 0 { sa_ark(b, sa_rk(w, 0)) } else { sa_ark(sa_mix(sa_shift(sa_sub(sa_rounds(b, w, n - 1)))), sa_rk(w, n)) }
}
#[verifier::opaque]
pub open spec fn sa_cipher(b: Seq<u8>, nr: int, w: Seq<u32>) -> Seq<u8> {
    sa_ark(sa_shift(sa_sub(sa_rounds(b, w, nr - 1))), sa_rk(w, nr))
}
#[verifier::memoize]
pub open spec fn sa_irounds(b: Seq<u8>, w: Seq<u32>, nr: int, j: int) -> Seq<u8>
    decreases nr - j
{
    if j >= nr { sa_ark(b, sa_rk(w, nr)) } else { sa_imix(sa_ark(sa_isub(sa_ishift(sa_irounds(b, w, nr, j + 1))), sa_rk(w, j))) }
}
#[verifier::opaque]
pub open spec fn sa_icipher(b: Seq<u8>, nr: int, w: Seq<u32>) -> Seq<u8> {
    sa_ark(sa_isub(sa_ishift(sa_irounds(b, w, nr, 1))), sa_rk(w, 0))
}

// Key expansion (figure 11)
pub open spec fn sa_word(a: u8, b: u8, c: u8, d: u8) -> u32 { ((a as u32) << 24) | ((b as u32) << 16) | ((c as u32) << 8) | (d as u32) }
#[verifier::opaque]
pub open spec fn sa_subword(w: u32) -> u32 {
    sa_word(sa_sbox(sa_wbyte(w, 0)), sa_sbox(sa_wbyte(w, 1)), sa_sbox(sa_wbyte(w, 2)), sa_sbox(sa_wbyte(w, 3)))
}
pub open spec fn sa_rotword(w: u32) -> u32 { (w << 8) | (w >> 24) }
// Rcon[j] = (x^(j-1), 0, 0, 0)
#[verifier::opaque]
pub open spec fn sa_rcon(j: int) -> u32 { (sa_pow(2, (j - 1) as nat) as u32) << 24 }
#[verifier::memoize]
pub open spec fn sa_kw(key: Seq<u8>, i: int) -> u32
    decreases i
{
    let nk = key.len() as int / 4;
    if i < nk || nk <= 0 { sa_word(key[4 * i], key[4 * i + 1], key[4 * i + 2], key[4 * i + 3]) }
    else {
        let t = sa_kw(key, i - 1);
        let t = if i % nk == 0 { sa_subword(sa_rotword(t)) ^ sa_rcon(i / nk) } else if nk > 6 && i % nk == 4 { sa_subword(t) } else { t };
        sa_kw(key, i - nk) ^ t
    }
}
pub open spec fn sa_keylen(n: int) -> bool { n == 16 || n == 24 || n == 32 }
pub open spec fn sa_nr(key: Seq<u8>) -> int { key.len() as int / 4 + 6 }
pub open spec fn sa_schedule(key: Seq<u8>) -> Seq<u32> { Seq::new((4 * (sa_nr(key) + 1)) as nat, |i: int| sa_kw(key, i)) }
// the standard as a whole
pub open spec fn sa_aes_enc(key: Seq<u8>, b: Seq<u8>) -> Seq<u8> { sa_cipher(b, sa_nr(key), sa_schedule(key)) }
pub open spec fn sa_aes_dec(key: Seq<u8>, b: Seq<u8>) -> Seq<u8> { sa_icipher(b, sa_nr(key), sa_schedule(key)) }

// ---- known answers, so that a slip in the text above would show (FIPS 197 appendices A and C)
pub proof fn sa_known_answers()
{
    assert(sa_sbox(0x53) == 0xed && sa_sbox(0) == 0x63 && sa_isbox(0xed) == 0x53 && sa_mul(0x57, 0x83) == 0xc1) by (compute_only);
    assert(sa_rcon(1) == 0x01000000 && sa_rcon(9) == 0x1b000000 && sa_rcon(10) == 0x36000000) by (compute_only);
}

// ---- field facts
pub proof fn sa_xtime_xor(a: u8, b: u8)
    ensures sa_xtime(a ^ b) == sa_xtime(a) ^ sa_xtime(b),
{
    assert((if (a ^ b) & 0x80u8 == 0 { (a ^ b) << 1 } else { ((a ^ b) << 1) ^ 0x1b })
        == (if a & 0x80u8 == 0 { a << 1 } else { (a << 1) ^ 0x1b }) ^ (if b & 0x80u8 == 0 { b << 1 } else { (b << 1) ^ 0x1b })) by (bit_vector);
}
pub open spec fn sa_x(a: u8, k: nat) -> u8
    decreases k
{ if k == 0 { a } else { sa_xtime(sa_x(a, (k - 1) as nat)) } }
pub proof fn sa_mul_forms(a: u8)
    ensures
        sa_mul(a, 0) == 0,
        sa_mul(a, 1) == a,
        sa_mul(a, 2) == sa_x(a, 1),
        sa_mul(a, 3) == sa_x(a, 1) ^ a,
        sa_mul(a, 9) == sa_x(a, 3) ^ a,
        sa_mul(a, 11) == sa_x(a, 3) ^ sa_x(a, 1) ^ a,
        sa_mul(a, 13) == sa_x(a, 3) ^ sa_x(a, 2) ^ a,
        sa_mul(a, 14) == sa_x(a, 3) ^ sa_x(a, 2) ^ sa_x(a, 1),
{
    reveal_with_fuel(sa_mul, 6);
    reveal_with_fuel(sa_x, 5);
    let (x1, x2, x3) = (sa_x(a, 1), sa_x(a, 2), sa_x(a, 3));
    assert(x1 == sa_xtime(a) && x2 == sa_xtime(x1) && x3 == sa_xtime(x2));
    assert(0 ^ a == a && a ^ 0 == a && 0 ^ (x1 ^ 0) == x1 && a ^ (x1 ^ 0) == x1 ^ a && a ^ (0 ^ (0 ^ (x3 ^ 0))) == x3 ^ a
        && a ^ (x1 ^ (0 ^ (x3 ^ 0))) == x3 ^ x1 ^ a && a ^ (0 ^ (x2 ^ (x3 ^ 0))) == x3 ^ x2 ^ a
        && 0 ^ (x1 ^ (x2 ^ (x3 ^ 0))) == x3 ^ x2 ^ x1) by (bit_vector);
}
pub proof fn sa_x_xor(a: u8, b: u8, k: nat)
    ensures sa_x(a ^ b, k) == sa_x(a, k) ^ sa_x(b, k),
    decreases k
{ if k > 0 { sa_x_xor(a, b, (k - 1) as nat); sa_xtime_xor(sa_x(a, (k - 1) as nat), sa_x(b, (k - 1) as nat)); } }
pub proof fn sa_x_x(a: u8, k: nat)
    ensures sa_x(sa_x(a, 1), k) == sa_x(a, k + 1),
    decreases k
{ reveal_with_fuel(sa_x, 3); if k > 0 { sa_x_x(a, (k - 1) as nat); } }
pub proof fn sa_x_mixw(a: u8, b: u8, c: u8, d: u8, k: nat)
    ensures
        sa_x(sa_mixw(a, b, c, d), k) == sa_x(a, k + 1) ^ sa_x(b, k + 1) ^ sa_x(b, k) ^ sa_x(c, k) ^ sa_x(d, k),
{
    sa_mul_forms(a); sa_mul_forms(b);
    let (a1, b1) = (sa_x(a, 1), sa_x(b, 1));
    assert(a1 ^ (b1 ^ b) ^ c ^ d == a1 ^ b1 ^ b ^ c ^ d) by (bit_vector);
    sa_x_xor(a1 ^ b1 ^ b ^ c, d, k);
    sa_x_xor(a1 ^ b1 ^ b, c, k);
    sa_x_xor(a1 ^ b1, b, k);
    sa_x_xor(a1, b1, k);
    sa_x_x(a, k); sa_x_x(b, k);
}
pub proof fn sa_x_imixw(a: u8, b: u8, c: u8, d: u8, k: nat)
    ensures
        sa_x(sa_imixw(a, b, c, d), k) == sa_x(a, k + 3) ^ sa_x(a, k + 2) ^ sa_x(a, k + 1)
            ^ sa_x(b, k + 3) ^ sa_x(b, k + 1) ^ sa_x(b, k)
            ^ sa_x(c, k + 3) ^ sa_x(c, k + 2) ^ sa_x(c, k)
            ^ sa_x(d, k + 3) ^ sa_x(d, k),
    decreases k
{
    if k == 0 {
        sa_mul_forms(a); sa_mul_forms(b); sa_mul_forms(c); sa_mul_forms(d);
        let (a1, a2, a3) = (sa_x(a, 1), sa_x(a, 2), sa_x(a, 3));
        let (b1, b3) = (sa_x(b, 1), sa_x(b, 3));
        let (c2, c3) = (sa_x(c, 2), sa_x(c, 3));
        let d3 = sa_x(d, 3);
        assert((a3 ^ a2 ^ a1) ^ (b3 ^ b1 ^ b) ^ (c3 ^ c2 ^ c) ^ (d3 ^ d) == a3 ^ a2 ^ a1 ^ b3 ^ b1 ^ b ^ c3 ^ c2 ^ c ^ d3 ^ d) by (bit_vector);
        assert(sa_x(b, 0) == b && sa_x(c, 0) == c && sa_x(d, 0) == d);
    } else {
        let q = (k - 1) as nat;
        sa_x_imixw(a, b, c, d, q);
        let (a3, a2, a1) = (sa_x(a, q + 3), sa_x(a, q + 2), sa_x(a, q + 1));
        let (b3, b1, b0) = (sa_x(b, q + 3), sa_x(b, q + 1), sa_x(b, q));
        let (c3, c2, c0) = (sa_x(c, q + 3), sa_x(c, q + 2), sa_x(c, q));
        let (d3, d0) = (sa_x(d, q + 3), sa_x(d, q));
        sa_xtime_xor(a3, a2);
        sa_xtime_xor(a3 ^ a2, a1);
        sa_xtime_xor(a3 ^ a2 ^ a1, b3);
        sa_xtime_xor(a3 ^ a2 ^ a1 ^ b3, b1);
        sa_xtime_xor(a3 ^ a2 ^ a1 ^ b3 ^ b1, b0);
        sa_xtime_xor(a3 ^ a2 ^ a1 ^ b3 ^ b1 ^ b0, c3);
        sa_xtime_xor(a3 ^ a2 ^ a1 ^ b3 ^ b1 ^ b0 ^ c3, c2);
        sa_xtime_xor(a3 ^ a2 ^ a1 ^ b3 ^ b1 ^ b0 ^ c3 ^ c2, c0);
        sa_xtime_xor(a3 ^ a2 ^ a1 ^ b3 ^ b1 ^ b0 ^ c3 ^ c2 ^ c0, d3);
        sa_xtime_xor(a3 ^ a2 ^ a1 ^ b3 ^ b1 ^ b0 ^ c3 ^ c2 ^ c0 ^ d3, d0);
    }
}
// InvMixColumns undoes MixColumns, row by row
pub proof fn sa_imix_mix_w(a: u8, b: u8, c: u8, d: u8)
    ensures
        sa_imixw(sa_mixw(a, b, c, d), sa_mixw(b, c, d, a), sa_mixw(c, d, a, b), sa_mixw(d, a, b, c)) == a,
{
    let (m0, m1, m2, m3) = (sa_mixw(a, b, c, d), sa_mixw(b, c, d, a), sa_mixw(c, d, a, b), sa_mixw(d, a, b, c));
    sa_mul_forms(m0); sa_mul_forms(m1); sa_mul_forms(m2); sa_mul_forms(m3);
    sa_x_mixw(a, b, c, d, 0); sa_x_mixw(a, b, c, d, 1); sa_x_mixw(a, b, c, d, 2); sa_x_mixw(a, b, c, d, 3);
    sa_x_mixw(b, c, d, a, 0); sa_x_mixw(b, c, d, a, 1); sa_x_mixw(b, c, d, a, 2); sa_x_mixw(b, c, d, a, 3);
    sa_x_mixw(c, d, a, b, 0); sa_x_mixw(c, d, a, b, 1); sa_x_mixw(c, d, a, b, 2); sa_x_mixw(c, d, a, b, 3);
    sa_x_mixw(d, a, b, c, 0); sa_x_mixw(d, a, b, c, 1); sa_x_mixw(d, a, b, c, 2); sa_x_mixw(d, a, b, c, 3);
    let (a0, a1, a2, a3, a4) = (sa_x(a, 0), sa_x(a, 1), sa_x(a, 2), sa_x(a, 3), sa_x(a, 4));
    let (b0, b1, b2, b3, b4) = (sa_x(b, 0), sa_x(b, 1), sa_x(b, 2), sa_x(b, 3), sa_x(b, 4));
    let (c0, c1, c2, c3, c4) = (sa_x(c, 0), sa_x(c, 1), sa_x(c, 2), sa_x(c, 3), sa_x(c, 4));
    let (d0, d1, d2, d3, d4) = (sa_x(d, 0), sa_x(d, 1), sa_x(d, 2), sa_x(d, 3), sa_x(d, 4));
    let (m00, m01, m02, m03) = (sa_x(m0, 0), sa_x(m0, 1), sa_x(m0, 2), sa_x(m0, 3));
    let (m10, m11, m12, m13) = (sa_x(m1, 0), sa_x(m1, 1), sa_x(m1, 2), sa_x(m1, 3));
    let (m20, m21, m22, m23) = (sa_x(m2, 0), sa_x(m2, 1), sa_x(m2, 2), sa_x(m2, 3));
    let (m30, m31, m32, m33) = (sa_x(m3, 0), sa_x(m3, 1), sa_x(m3, 2), sa_x(m3, 3));
    assert((m03 ^ m02 ^ m01) ^ (m13 ^ m11 ^ m10) ^ (m23 ^ m22 ^ m20) ^ (m33 ^ m30) == a0) by (bit_vector)
        requires
            m01 == a2 ^ b2 ^ b1 ^ c1 ^ d1, m02 == a3 ^ b3 ^ b2 ^ c2 ^ d2, m03 == a4 ^ b4 ^ b3 ^ c3 ^ d3,
            m10 == b1 ^ c1 ^ c0 ^ d0 ^ a0, m11 == b2 ^ c2 ^ c1 ^ d1 ^ a1, m13 == b4 ^ c4 ^ c3 ^ d3 ^ a3,
            m20 == c1 ^ d1 ^ d0 ^ a0 ^ b0, m22 == c3 ^ d3 ^ d2 ^ a2 ^ b2, m23 == c4 ^ d4 ^ d3 ^ a3 ^ b3,
            m30 == d1 ^ a1 ^ a0 ^ b0 ^ c0, m33 == d4 ^ a4 ^ a3 ^ b3 ^ c3;
    assert(m10 == m1 && m20 == m2 && m30 == m3 && a0 == a);
}
pub proof fn sa_mix_imix_w(a: u8, b: u8, c: u8, d: u8)
    ensures
        sa_mixw(sa_imixw(a, b, c, d), sa_imixw(b, c, d, a), sa_imixw(c, d, a, b), sa_imixw(d, a, b, c)) == a,
{
    let (m0, m1, m2, m3) = (sa_imixw(a, b, c, d), sa_imixw(b, c, d, a), sa_imixw(c, d, a, b), sa_imixw(d, a, b, c));
    sa_mul_forms(m0); sa_mul_forms(m1);
    sa_x_imixw(a, b, c, d, 1); sa_x_imixw(b, c, d, a, 1);
    sa_x_imixw(b, c, d, a, 0); sa_x_imixw(c, d, a, b, 0); sa_x_imixw(d, a, b, c, 0);
    let (a0, a1, a2, a3, a4) = (sa_x(a, 0), sa_x(a, 1), sa_x(a, 2), sa_x(a, 3), sa_x(a, 4));
    let (b0, b1, b2, b3, b4) = (sa_x(b, 0), sa_x(b, 1), sa_x(b, 2), sa_x(b, 3), sa_x(b, 4));
    let (c0, c1, c2, c3, c4) = (sa_x(c, 0), sa_x(c, 1), sa_x(c, 2), sa_x(c, 3), sa_x(c, 4));
    let (d0, d1, d2, d3, d4) = (sa_x(d, 0), sa_x(d, 1), sa_x(d, 2), sa_x(d, 3), sa_x(d, 4));
    let (m01, m11) = (sa_x(m0, 1), sa_x(m1, 1));
    assert(m01 ^ (m11 ^ m1) ^ m2 ^ m3 == a0) by (bit_vector)
        requires
            m01 == a4 ^ a3 ^ a2 ^ b4 ^ b2 ^ b1 ^ c4 ^ c3 ^ c1 ^ d4 ^ d1,
            m11 == b4 ^ b3 ^ b2 ^ c4 ^ c2 ^ c1 ^ d4 ^ d3 ^ d1 ^ a4 ^ a1,
            m1 == b3 ^ b2 ^ b1 ^ c3 ^ c1 ^ c0 ^ d3 ^ d2 ^ d0 ^ a3 ^ a0,
            m2 == c3 ^ c2 ^ c1 ^ d3 ^ d1 ^ d0 ^ a3 ^ a2 ^ a0 ^ b3 ^ b0,
            m3 == d3 ^ d2 ^ d1 ^ a3 ^ a1 ^ a0 ^ b3 ^ b2 ^ b0 ^ c3 ^ c0;
    assert(a0 == a);
}
// ---- the S-boxes are inverse
pub open spec fn sa_box_ok(n: int) -> bool
    decreases n
{
    if n <= 0 { true } else {
        let x = (n - 1) as u8;
        sa_isbox(sa_sbox(x)) == x && sa_sbox(sa_isbox(x)) == x && sa_box_ok(n - 1)
    }
}
pub proof fn sa_box_ok_at(n: int, x: u8)
    requires sa_box_ok(n), 0 <= x < n <= 256,
    ensures sa_isbox(sa_sbox(x)) == x, sa_sbox(sa_isbox(x)) == x,
    decreases n
{ if x < n - 1 { sa_box_ok_at(n - 1, x); } }
pub proof fn sa_box_inv(x: u8)
    ensures sa_isbox(sa_sbox(x)) == x, sa_sbox(sa_isbox(x)) == x,
{
    assert(sa_box_ok(256)) by (compute_only);
    sa_box_ok_at(256, x);
}
// ---- the round transformations are inverse
pub proof fn sa_sub_inv(s: Seq<u8>)
    requires s.len() == 16,
    ensures sa_isub(sa_sub(s)) == s, sa_sub(sa_isub(s)) == s,
{
    assert forall|i: int| 0 <= i < 16 implies sa_isub(sa_sub(s))[i] == s[i] && sa_sub(sa_isub(s))[i] == s[i] by { sa_box_inv(s[i]); }
    assert(sa_isub(sa_sub(s)) =~= s);
    assert(sa_sub(sa_isub(s)) =~= s);
}
pub proof fn sa_shift_inv(s: Seq<u8>)
    requires s.len() == 16,
    ensures sa_ishift(sa_shift(s)) == s, sa_shift(sa_ishift(s)) == s,
{
    let (t, u) = (sa_shift(s), sa_ishift(s));
    sa_eq16(sa_ishift(t), s);
    sa_eq16(sa_shift(u), s);
}
pub proof fn sa_ark_inv(s: Seq<u8>, k: Seq<u32>)
    requires s.len() == 16, k.len() == 4,
    ensures sa_ark(sa_ark(s, k), k) == s,
{
    let t = sa_ark(sa_ark(s, k), k);
    assert forall|i: int| 0 <= i < 16 implies t[i] == s[i] by {
        let (a, b) = (s[i], sa_wbyte(k[i / 4], i % 4));
        assert((a ^ b) ^ b == a) by (bit_vector);
    }
    assert(t =~= s);
}
pub proof fn sa_mix_inv(s: Seq<u8>)
    requires s.len() == 16,
    ensures sa_imix(sa_mix(s)) == s, sa_mix(sa_imix(s)) == s,
{
    hide(sa_mixw); hide(sa_imixw);
    sa_imix_mix_w(s[0], s[1], s[2], s[3]); sa_mix_imix_w(s[0], s[1], s[2], s[3]);
    sa_imix_mix_w(s[1], s[2], s[3], s[0]); sa_mix_imix_w(s[1], s[2], s[3], s[0]);
    sa_imix_mix_w(s[2], s[3], s[0], s[1]); sa_mix_imix_w(s[2], s[3], s[0], s[1]);
    sa_imix_mix_w(s[3], s[0], s[1], s[2]); sa_mix_imix_w(s[3], s[0], s[1], s[2]);
    sa_imix_mix_w(s[4], s[5], s[6], s[7]); sa_mix_imix_w(s[4], s[5], s[6], s[7]);
    sa_imix_mix_w(s[5], s[6], s[7], s[4]); sa_mix_imix_w(s[5], s[6], s[7], s[4]);
    sa_imix_mix_w(s[6], s[7], s[4], s[5]); sa_mix_imix_w(s[6], s[7], s[4], s[5]);
    sa_imix_mix_w(s[7], s[4], s[5], s[6]); sa_mix_imix_w(s[7], s[4], s[5], s[6]);
    sa_imix_mix_w(s[8], s[9], s[10], s[11]); sa_mix_imix_w(s[8], s[9], s[10], s[11]);
    sa_imix_mix_w(s[9], s[10], s[11], s[8]); sa_mix_imix_w(s[9], s[10], s[11], s[8]);
    sa_imix_mix_w(s[10], s[11], s[8], s[9]); sa_mix_imix_w(s[10], s[11], s[8], s[9]);
    sa_imix_mix_w(s[11], s[8], s[9], s[10]); sa_mix_imix_w(s[11], s[8], s[9], s[10]);
    sa_imix_mix_w(s[12], s[13], s[14], s[15]); sa_mix_imix_w(s[12], s[13], s[14], s[15]);
    sa_imix_mix_w(s[13], s[14], s[15], s[12]); sa_mix_imix_w(s[13], s[14], s[15], s[12]);
    sa_imix_mix_w(s[14], s[15], s[12], s[13]); sa_mix_imix_w(s[14], s[15], s[12], s[13]);
    sa_imix_mix_w(s[15], s[12], s[13], s[14]); sa_mix_imix_w(s[15], s[12], s[13], s[14]);
    sa_eq16(sa_imix(sa_mix(s)), s);
    sa_eq16(sa_mix(sa_imix(s)), s);
}
pub proof fn sa_lens(s: Seq<u8>, k: Seq<u32>)
    ensures
        sa_sub(s).len() == 16, sa_isub(s).len() == 16, sa_shift(s).len() == 16, sa_ishift(s).len() == 16,
        sa_mix(s).len() == 16, sa_imix(s).len() == 16, sa_ark(s, k).len() == 16,
{}
// SubBytes and ShiftRows commute
pub proof fn sa_sub_shift(s: Seq<u8>)
    requires s.len() == 16,
    ensures
        sa_sub(sa_shift(s)) == sa_shift(sa_sub(s)),
        sa_isub(sa_ishift(s)) == sa_ishift(sa_isub(s)),
{
    assert(sa_sub(sa_shift(s)) =~= sa_shift(sa_sub(s)));
    assert(sa_isub(sa_ishift(s)) =~= sa_ishift(sa_isub(s)));
}
pub proof fn sa_all_lens()
    ensures
        forall|s: Seq<u8>, k: Seq<u32>| #![trigger sa_ark(s, k)] sa_ark(s, k).len() == 16,
        forall|s: Seq<u8>| #![trigger sa_sub(s)] sa_sub(s).len() == 16,
        forall|s: Seq<u8>| #![trigger sa_isub(s)] sa_isub(s).len() == 16,
        forall|s: Seq<u8>| #![trigger sa_shift(s)] sa_shift(s).len() == 16,
        forall|s: Seq<u8>| #![trigger sa_ishift(s)] sa_ishift(s).len() == 16,
        forall|s: Seq<u8>| #![trigger sa_mix(s)] sa_mix(s).len() == 16,
        forall|s: Seq<u8>| #![trigger sa_imix(s)] sa_imix(s).len() == 16,
{
    assert forall|s: Seq<u8>, k: Seq<u32>| #![trigger sa_ark(s, k)] sa_ark(s, k).len() == 16 by { sa_lens(s, k); }
    assert forall|s: Seq<u8>| #![trigger sa_sub(s)] sa_sub(s).len() == 16 by { sa_lens(s, Seq::empty()); }
    assert forall|s: Seq<u8>| #![trigger sa_isub(s)] sa_isub(s).len() == 16 by { sa_lens(s, Seq::empty()); }
    assert forall|s: Seq<u8>| #![trigger sa_shift(s)] sa_shift(s).len() == 16 by { sa_lens(s, Seq::empty()); }
    assert forall|s: Seq<u8>| #![trigger sa_ishift(s)] sa_ishift(s).len() == 16 by { sa_lens(s, Seq::empty()); }
    assert forall|s: Seq<u8>| #![trigger sa_mix(s)] sa_mix(s).len() == 16 by { sa_lens(s, Seq::empty()); }
    assert forall|s: Seq<u8>| #![trigger sa_imix(s)] sa_imix(s).len() == 16 by { sa_lens(s, Seq::empty()); }
}
pub proof fn sa_rounds_len(b: Seq<u8>, w: Seq<u32>, n: int)
    ensures sa_rounds(b, w, n).len() == 16,
    decreases n
{ if n > 0 { sa_rounds_len(b, w, n - 1); } }
pub proof fn sa_irounds_len(b: Seq<u8>, w: Seq<u32>, nr: int, j: int)
    ensures sa_irounds(b, w, nr, j).len() == 16,
    decreases nr - j
{ if j < nr { sa_irounds_len(b, w, nr, j + 1); } }
pub proof fn sa_dec_enc_at(b: Seq<u8>, nr: int, w: Seq<u32>, j: int)
    requires b.len() == 16, w.len() == 4 * (nr + 1), nr >= 1, 0 <= j < nr,
    ensures sa_irounds(sa_cipher(b, nr, w), w, nr, j + 1) == sa_shift(sa_sub(sa_rounds(b, w, j))),
    decreases nr - j
{
    hide(sa_mix); hide(sa_imix); hide(sa_sub); hide(sa_isub); hide(sa_shift); hide(sa_ishift); hide(sa_ark);
    sa_all_lens();
    reveal(sa_cipher);
    let c = sa_cipher(b, nr, w);
    sa_rounds_len(b, w, j);
    sa_rounds_len(b, w, nr - 1);
    if j == nr - 1 {
        sa_ark_inv(sa_shift(sa_sub(sa_rounds(b, w, nr - 1))), sa_rk(w, nr));
    } else {
        sa_dec_enc_at(b, nr, w, j + 1);
        let rn = sa_rounds(b, w, j + 1);
        sa_rounds_len(b, w, j + 1);
        sa_shift_inv(sa_sub(rn));
        sa_sub_inv(rn);
        let t = sa_shift(sa_sub(sa_rounds(b, w, j)));
        sa_ark_inv(sa_mix(t), sa_rk(w, j + 1));
        sa_mix_inv(t);
    }
}
// C09: the two directions are inverse for every round-key sequence
pub proof fn sa_dec_enc(b: Seq<u8>, nr: int, w: Seq<u32>)
    requires b.len() == 16, w.len() == 4 * (nr + 1), nr >= 1,
    ensures sa_icipher(sa_cipher(b, nr, w), nr, w) == b,
{
    hide(sa_mix); hide(sa_imix); hide(sa_sub); hide(sa_isub); hide(sa_shift); hide(sa_ishift); hide(sa_ark);
    sa_all_lens();
    sa_dec_enc_at(b, nr, w, 0);
    reveal(sa_icipher);
    let r0 = sa_rounds(b, w, 0);
    sa_shift_inv(sa_sub(r0));
    sa_sub_inv(r0);
    sa_ark_inv(b, sa_rk(w, 0));
}
pub proof fn sa_enc_dec_at(c: Seq<u8>, nr: int, w: Seq<u32>, j: int)
    requires c.len() == 16, w.len() == 4 * (nr + 1), nr >= 1, 1 <= j <= nr,
    ensures sa_shift(sa_sub(sa_rounds(sa_icipher(c, nr, w), w, j - 1))) == sa_irounds(c, w, nr, j),
    decreases j
{
    hide(sa_mix); hide(sa_imix); hide(sa_sub); hide(sa_isub); hide(sa_shift); hide(sa_ishift); hide(sa_ark);
    sa_all_lens();
    reveal(sa_icipher);
    let p = sa_icipher(c, nr, w);
    sa_irounds_len(c, w, nr, j);
    if j == 1 {
        let d = sa_irounds(c, w, nr, 1);
        sa_ark_inv(sa_isub(sa_ishift(d)), sa_rk(w, 0));
        sa_sub_inv(sa_ishift(d));
        sa_shift_inv(d);
    } else {
        sa_enc_dec_at(c, nr, w, j - 1);
        let d = sa_irounds(c, w, nr, j);
        let e = sa_ark(sa_isub(sa_ishift(d)), sa_rk(w, j - 1));
        sa_mix_inv(e);
        sa_ark_inv(sa_isub(sa_ishift(d)), sa_rk(w, j - 1));
        sa_sub_inv(sa_ishift(d));
        sa_shift_inv(d);
    }
}
pub proof fn sa_enc_dec(c: Seq<u8>, nr: int, w: Seq<u32>)
    requires c.len() == 16, w.len() == 4 * (nr + 1), nr >= 1,
    ensures sa_cipher(sa_icipher(c, nr, w), nr, w) == c,
{
    hide(sa_mix); hide(sa_imix); hide(sa_sub); hide(sa_isub); hide(sa_shift); hide(sa_ishift); hide(sa_ark);
    sa_all_lens();
    sa_enc_dec_at(c, nr, w, nr);
    reveal(sa_cipher);
    sa_ark_inv(c, sa_rk(w, nr));
}
// ---- shapes used by the code
pub open spec fn sa_st(s: [[u8; 4]; 4]) -> Seq<u8> { Seq::new(16, |i: int| s@[i / 4]@[i % 4]) }
pub proof fn sa_eq16(a: Seq<u8>, b: Seq<u8>)
    requires
        a.len() == 16, b.len() == 16,
        a[0] == b[0], a[1] == b[1], a[2] == b[2], a[3] == b[3], a[4] == b[4], a[5] == b[5], a[6] == b[6], a[7] == b[7],
        a[8] == b[8], a[9] == b[9], a[10] == b[10], a[11] == b[11], a[12] == b[12], a[13] == b[13], a[14] == b[14], a[15] == b[15],
    ensures a == b,
{ assert(a =~= b); }
// the table is the rule of the standard: s'[r, c] = s[r, (c + r) mod 4]
pub proof fn sa_shift_rule(s: Seq<u8>, c: int, r: int)
    requires s.len() == 16, 0 <= c < 4, 0 <= r < 4,
    ensures sa_shift(s)[4 * c + r] == s[4 * ((c + r) % 4) + r],
{
    assert(c == 0 || c == 1 || c == 2 || c == 3);
    assert(r == 0 || r == 1 || r == 2 || r == 3);
}
pub proof fn sa_byte_bits()
    ensures
        forall|k: u32| #![trigger ((k >> 24u32) & 0xffu32)] ((k >> 24u32) & 0xffu32) == (k >> 24u32) && ((k >> 24u32) & 0xffu32) as u8 == (k >> 24u32) as u8,
        forall|k: u32| #![trigger ((k >> 16u32) & 0xffu32)] ((k >> 16u32) & 0xffu32) == ((k >> 16u32) as u8) as u32 && ((k >> 16u32) & 0xffu32) as u8 == (k >> 16u32) as u8,
        forall|k: u32| #![trigger ((k >> 8u32) & 0xffu32)] ((k >> 8u32) & 0xffu32) == ((k >> 8u32) as u8) as u32 && ((k >> 8u32) & 0xffu32) as u8 == (k >> 8u32) as u8,
        forall|k: u32| #![trigger (k & 0xffu32)] (k & 0xffu32) == (k as u8) as u32 && (k & 0xffu32) as u8 == k as u8,
        forall|k: u32| #![trigger (k >> 24u32)] k >> 24u32 < 256 && (k >> 24u32) == ((k >> 24u32) as u8) as u32,
{
    assert(forall|k: u32| #![trigger ((k >> 24u32) & 0xffu32)] ((k >> 24u32) & 0xffu32) == (k >> 24u32) && ((k >> 24u32) & 0xffu32) as u8 == (k >> 24u32) as u8) by (bit_vector);
    assert(forall|k: u32| #![trigger ((k >> 16u32) & 0xffu32)] ((k >> 16u32) & 0xffu32) == ((k >> 16u32) as u8) as u32 && ((k >> 16u32) & 0xffu32) as u8 == (k >> 16u32) as u8) by (bit_vector);
    assert(forall|k: u32| #![trigger ((k >> 8u32) & 0xffu32)] ((k >> 8u32) & 0xffu32) == ((k >> 8u32) as u8) as u32 && ((k >> 8u32) & 0xffu32) as u8 == (k >> 8u32) as u8) by (bit_vector);
    assert(forall|k: u32| #![trigger (k & 0xffu32)] (k & 0xffu32) == (k as u8) as u32 && (k & 0xffu32) as u8 == k as u8) by (bit_vector);
    assert(forall|k: u32| #![trigger (k >> 24u32)] k >> 24u32 < 256 && (k >> 24u32) == ((k >> 24u32) as u8) as u32) by (bit_vector);
}
pub proof fn sa_xor_ac()
{}
pub proof fn sa_div_bounds(i: int, nk: int, nr: int)
    requires nk == 4 || nk == 6 || nk == 8, nr == nk + 6, nk <= i < 4 * (nr + 1),
    ensures 1 <= i / nk <= 10,
{
    if nk == 4 { assert(i / 4 <= 10); } else if nk == 6 { assert(i / 6 <= 10); } else { assert(i / 8 <= 10); }
}
pub proof fn sa_rk_forms(w: Seq<u32>)
    ensures forall|i: int| #![trigger sa_rk(w, i)] sa_rk(w, i) == w.subrange(4 * i, 4 * i + 4),
{}
