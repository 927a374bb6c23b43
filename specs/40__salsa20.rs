// ---------------------------------------------------------------- Salsa20 core (Bernstein, "Salsa20 specification")
pub open spec fn sp_rotl(n: u32, s: u32) -> u32 { (n << s) | (n >> ((32 - s) as u32)) }
pub open spec fn sp_wadd(a: u32, b: u32) -> u32 { a.wrapping_add(b) }
pub open spec fn sp_qr(y: Seq<u32>) -> Seq<u32> {
    let z1 = y[1] ^ sp_rotl(sp_wadd(y[0], y[3]), 7);
    let z2 = y[2] ^ sp_rotl(sp_wadd(z1, y[0]), 9);
    let z3 = y[3] ^ sp_rotl(sp_wadd(z2, z1), 13);
    let z0 = y[0] ^ sp_rotl(sp_wadd(z3, z2), 18);
    seq![z0, z1, z2, z3]
}
pub open spec fn sp_rowround(y: Seq<u32>) -> Seq<u32> {
    let a = sp_qr(seq![y[0], y[1], y[2], y[3]]);
    let b = sp_qr(seq![y[5], y[6], y[7], y[4]]);
    let c = sp_qr(seq![y[10], y[11], y[8], y[9]]);
    let d = sp_qr(seq![y[15], y[12], y[13], y[14]]);
    seq![
        a[0], a[1], a[2], a[3],
        b[3], b[0], b[1], b[2],
        c[2], c[3], c[0], c[1],
        d[1], d[2], d[3], d[0],
    ]
}
pub open spec fn sp_colround(x: Seq<u32>) -> Seq<u32> {
    let a = sp_qr(seq![x[0], x[4], x[8], x[12]]);
    let b = sp_qr(seq![x[5], x[9], x[13], x[1]]);
    let c = sp_qr(seq![x[10], x[14], x[2], x[6]]);
    let d = sp_qr(seq![x[15], x[3], x[7], x[11]]);
    seq![
        a[0], b[3], c[2], d[1],
        a[1], b[0], c[3], d[2],
        a[2], b[1], c[0], d[3],
        a[3], b[2], c[1], d[0],
    ]
}
#[verifier::opaque]
pub open spec fn sp_dround(x: Seq<u32>) -> Seq<u32> { sp_rowround(sp_colround(x)) }
// A double round may also be computed as its two halves, one after the other.
pub proof fn sp_dround_parts(x: Seq<u32>)
    ensures
        forall|c: Seq<u32>| #![trigger sp_rowround(c)]
            c.len() == 16 && (forall|j: int| 0 <= j < 16 ==> c[j] == sp_colround(x)[j]) ==> sp_rowround(c) == sp_dround(x),
        sp_dround(x).len() == 16,
{
    reveal(sp_dround);
    assert forall|c: Seq<u32>| #![trigger sp_rowround(c)]
        c.len() == 16 && (forall|j: int| 0 <= j < 16 ==> c[j] == sp_colround(x)[j]) implies sp_rowround(c) == sp_dround(x) by {
        assert(c =~= sp_colround(x));
    }
}
#[verifier::memoize]
pub open spec fn sp_drounds(x: Seq<u32>, n: int) -> Seq<u32>
    decreases n
{
    if n <= 0 { x } else { sp_dround(sp_drounds(x, n - 1)) }
}
pub open spec fn sp_le32(b: Seq<u8>) -> u32 {
    (b[0] as u32) | ((b[1] as u32) << 8) | ((b[2] as u32) << 16) | ((b[3] as u32) << 24)
}
// little-endian byte k of a word; masked before the cast, so that it can be computed
#[verifier::opaque]
pub open spec fn sp_lebyte(x: u32, k: int) -> u8 {
    if k == 0 { (x & 0xff) as u8 } else if k == 1 { (x >> 8 & 0xff) as u8 } else if k == 2 { (x >> 16 & 0xff) as u8 } else { (x >> 24 & 0xff) as u8 }
}
pub broadcast proof fn sp_lebyte_cast(x: u32, k: int)
    ensures
        #[trigger] sp_lebyte(x, k) == (if k == 0 { x as u8 } else if k == 1 { (x >> 8) as u8 } else if k == 2 { (x >> 16) as u8 } else { (x >> 24) as u8 }),
        x >> 0u32 == x,
{
    assert(x >> 0u32 == x) by (bit_vector);
    reveal(sp_lebyte);
    assert((x >> 24 & 0xff) as u8 == (x >> 24) as u8 && (x >> 16 & 0xff) as u8 == (x >> 16) as u8 && (x >> 8 & 0xff) as u8 == (x >> 8) as u8
        && (x & 0xff) as u8 == x as u8) by (bit_vector);
}
pub open spec fn sp_lewords(b: Seq<u8>) -> Seq<u32> {
    Seq::new(16, |i: int| sp_le32(seq![b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]))
}
// Salsa20 of one 64-byte block, with n double rounds
#[verifier::opaque]
#[verifier::memoize]
pub open spec fn sp_salsa_block(b: Seq<u8>, n: int) -> Seq<u8> {
    let x = sp_lewords(b);
    let z = sp_drounds(x, n);
    Seq::new(64, |j: int| sp_lebyte(sp_wadd(x[j / 4], z[j / 4]), j % 4))
}
pub broadcast proof fn sp_salsa_block_len(b: Seq<u8>, n: int)
    ensures (#[trigger] sp_salsa_block(b, n)).len() == 64,
{ reveal(sp_salsa_block); }
// the first k blocks of a longer input, each mixed on its own
pub open spec fn sp_salsa(b: Seq<u8>, n: int, k: int) -> Seq<u8>
    decreases k
{
    if k <= 0 { Seq::empty() } else { sp_salsa(b, n, k - 1) + sp_salsa_block(b.subrange(64 * (k - 1), 64 * k), n) }
}
pub proof fn sp_salsa_len(b: Seq<u8>, n: int, k: int)
    requires k >= 0,
    ensures sp_salsa(b, n, k).len() == 64 * k,
    decreases k
{ broadcast use sp_salsa_block_len; if k > 0 { sp_salsa_len(b, n, k - 1); } }
pub proof fn sp_salsa_one(b: Seq<u8>, n: int)
    requires b.len() == 64,
    ensures sp_salsa(b, n, 1) == sp_salsa_block(b, n),
{
    assert(b.subrange(0, 64) =~= b);
    assert(sp_salsa(b, n, 0) + sp_salsa_block(b, n) =~= sp_salsa_block(b, n));
    assert(sp_salsa(b, n, 1) == sp_salsa(b, n, 0) + sp_salsa_block(b.subrange(0, 64), n));
}
