// ---------------------------------------------------------------- CBC (NIST SP 800-38A) over a block cipher with round keys w
pub proof fn sc_xor_sym(a: u8, b: u8)
    ensures a ^ b == b ^ a,
{ assert(a ^ b == b ^ a) by (bit_vector); }
pub open spec fn sc_xor(a: Seq<u8>, b: Seq<u8>) -> Seq<u8> { Seq::new(16, |j: int| a[j] ^ b[j]) }
pub open spec fn sc_blk(m: Seq<u8>, i: int) -> Seq<u8> { m.subrange(16 * i, 16 * i + 16) }
// the i-th chaining value: the IV, then the ciphertext blocks
#[verifier::memoize]
pub open spec fn sc_c(iv: Seq<u8>, m: Seq<u8>, nr: int, w: Seq<u32>, i: int) -> Seq<u8>
    decreases i
{
    if i <= 0 { iv } else { sa_cipher(sc_xor(sc_blk(m, i - 1), sc_c(iv, m, nr, w, i - 1)), nr, w) }
}
// the ciphertext of the first n blocks of m
pub open spec fn sc_enc(iv: Seq<u8>, m: Seq<u8>, nr: int, w: Seq<u32>, n: int) -> Seq<u8>
    decreases n
{
    if n <= 0 { Seq::empty() } else { sc_enc(iv, m, nr, w, n - 1) + sc_c(iv, m, nr, w, n) }
}
pub open spec fn sc_prev(iv: Seq<u8>, c: Seq<u8>, i: int) -> Seq<u8> { if i <= 0 { iv } else { sc_blk(c, i - 1) } }
pub open spec fn sc_p(iv: Seq<u8>, c: Seq<u8>, nr: int, w: Seq<u32>, i: int) -> Seq<u8> {
    sc_xor(sa_icipher(sc_blk(c, i), nr, w), sc_prev(iv, c, i))
}
// the plaintext of the first n blocks of c
pub open spec fn sc_dec(iv: Seq<u8>, c: Seq<u8>, nr: int, w: Seq<u32>, n: int) -> Seq<u8>
    decreases n
{
    if n <= 0 { Seq::empty() } else { sc_dec(iv, c, nr, w, n - 1) + sc_p(iv, c, nr, w, n - 1) }
}
pub proof fn sc_icipher_len(b: Seq<u8>, nr: int, w: Seq<u32>)
    ensures sa_icipher(b, nr, w).len() == 16, sa_cipher(b, nr, w).len() == 16,
{ reveal(sa_icipher); reveal(sa_cipher); }
pub proof fn sc_c_len(iv: Seq<u8>, m: Seq<u8>, nr: int, w: Seq<u32>, i: int)
    requires iv.len() == 16,
    ensures sc_c(iv, m, nr, w, i).len() == 16,
{ if i > 0 { sc_icipher_len(sc_xor(sc_blk(m, i - 1), sc_c(iv, m, nr, w, i - 1)), nr, w); } }
pub proof fn sc_enc_len(iv: Seq<u8>, m: Seq<u8>, nr: int, w: Seq<u32>, n: int)
    requires iv.len() == 16, n >= 0,
    ensures sc_enc(iv, m, nr, w, n).len() == 16 * n,
    decreases n
{ if n > 0 { sc_enc_len(iv, m, nr, w, n - 1); sc_c_len(iv, m, nr, w, n); } }
pub proof fn sc_dec_len(iv: Seq<u8>, c: Seq<u8>, nr: int, w: Seq<u32>, n: int)
    requires n >= 0,
    ensures sc_dec(iv, c, nr, w, n).len() == 16 * n,
    decreases n
{ if n > 0 { sc_dec_len(iv, c, nr, w, n - 1); } }
// block i of the ciphertext is chaining value i + 1
pub proof fn sc_enc_blk(iv: Seq<u8>, m: Seq<u8>, nr: int, w: Seq<u32>, n: int, i: int)
    requires iv.len() == 16, 0 <= i < n,
    ensures sc_blk(sc_enc(iv, m, nr, w, n), i) == sc_c(iv, m, nr, w, i + 1),
    decreases n
{
    sc_enc_len(iv, m, nr, w, n);
    sc_enc_len(iv, m, nr, w, n - 1);
    sc_c_len(iv, m, nr, w, n);
    let e = sc_enc(iv, m, nr, w, n - 1);
    if i == n - 1 {
        assert(sc_blk(e + sc_c(iv, m, nr, w, n), i) =~= sc_c(iv, m, nr, w, n));
    } else {
        sc_enc_blk(iv, m, nr, w, n - 1, i);
        assert(sc_blk(e + sc_c(iv, m, nr, w, n), i) =~= sc_blk(e, i));
    }
}
