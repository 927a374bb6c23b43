// ---------------------------------------------------------------- PBKDF2 (RFC 2898), PRF = HMAC-SHA256
pub open spec fn sp_int4(i: int) -> Seq<u8> {
    seq![((i / 0x1000000) % 256) as u8, ((i / 0x10000) % 256) as u8, ((i / 0x100) % 256) as u8, (i % 256) as u8]
}
pub open spec fn sp_xor(a: Seq<u8>, b: Seq<u8>) -> Seq<u8> { Seq::new(a.len(), |j: int| a[j] ^ b[j]) }
// U_k of block i
#[verifier::memoize]
pub open spec fn sp_u(p: Seq<u8>, s: Seq<u8>, i: int, k: int) -> Seq<u8>
    decreases k
{
    if k <= 1 { sp_hmac(p, s + sp_int4(i)) } else { sp_hmac(p, sp_u(p, s, i, k - 1)) }
}
// U_1 xor ... xor U_c
#[verifier::memoize]
pub open spec fn sp_f(p: Seq<u8>, s: Seq<u8>, c: int, i: int) -> Seq<u8>
    decreases c
{
    if c <= 1 { sp_u(p, s, i, 1) } else { sp_xor(sp_f(p, s, c - 1, i), sp_u(p, s, i, c)) }
}
// the first n octets of T_1 || T_2 || ...
pub open spec fn sp_pbkdf2(p: Seq<u8>, s: Seq<u8>, c: int, n: int) -> Seq<u8> {
    Seq::new(n as nat, |j: int| sp_f(p, s, c, j / 32 + 1)[j % 32])
}
pub open spec fn sp_dk_max() -> int { 137438953440 }
pub proof fn sp_u_len(p: Seq<u8>, s: Seq<u8>, i: int, k: int)
    ensures sp_u(p, s, i, k).len() == 32,
    decreases k
{ if k > 1 { sp_u_len(p, s, i, k - 1); } }
pub proof fn sp_f_len(p: Seq<u8>, s: Seq<u8>, c: int, i: int)
    ensures sp_f(p, s, c, i).len() == 32,
    decreases c
{ if c > 1 { sp_f_len(p, s, c - 1, i); } else { sp_u_len(p, s, i, 1); } }
pub proof fn sp_int4_bits(i: usize)
    requires i <= 0xffff_ffff,
    ensures
        (i >> 24) as u8 == sp_int4(i as int)[0],
        (i >> 16) as u8 == sp_int4(i as int)[1],
        (i >> 8) as u8 == sp_int4(i as int)[2],
        i as u8 == sp_int4(i as int)[3],
{
    assert((i >> 24) as u8 == ((i / 0x1000000) % 256) as u8) by (bit_vector);
    assert((i >> 16) as u8 == ((i / 0x10000) % 256) as u8) by (bit_vector);
    assert((i >> 8) as u8 == ((i / 0x100) % 256) as u8) by (bit_vector);
    assert(i as u8 == (i % 256) as u8) by (bit_vector);
}
pub proof fn sp_dk_step(p: Seq<u8>, s: Seq<u8>, c: int, i: int, n: int)
    requires
        i >= 1, 32 * (i - 1) <= n <= 32 * i,
    ensures
        sp_pbkdf2(p, s, c, n) == sp_pbkdf2(p, s, c, 32 * (i - 1)) + sp_f(p, s, c, i).subrange(0, n - 32 * (i - 1)),
{
    sp_f_len(p, s, c, i);
    let a = sp_pbkdf2(p, s, c, n);
    let b = sp_pbkdf2(p, s, c, 32 * (i - 1)) + sp_f(p, s, c, i).subrange(0, n - 32 * (i - 1));
    assert forall|j: int| 0 <= j < n implies a[j] == b[j] by {
        if j >= 32 * (i - 1) {
            assert(j / 32 == i - 1 && j % 32 == j - 32 * (i - 1));
        }
    }
    assert(a =~= b);
}
pub open spec fn sp_min(a: int, b: int) -> int { if a <= b { a } else { b } }
pub proof fn sp_pbkdf2_len(p: Seq<u8>, s: Seq<u8>, c: int, n: int)
    requires n >= 0,
    ensures sp_pbkdf2(p, s, c, n).len() == n,
{}
