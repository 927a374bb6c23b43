// ---------------------------------------------------------------- PKCS#7 padding (RFC 5652, 6.3)
pub open spec fn sq_full(n: int, bs: int) -> int { n - n % bs }
// how many octets can be released when the last block has to stay back
pub open spec fn sq_released(n: int, bs: int) -> int {
    if n <= bs { 0 } else if n % bs == 0 { n - bs } else { n - n % bs }
}
// the padding after n octets of a block of bs octets
pub open spec fn sq_padding(n: int, bs: int) -> Seq<u8> { Seq::new((bs - n) as nat, |j: int| (bs - n) as u8) }
pub open spec fn sq_pad_last(tail: Seq<u8>, bs: int) -> Seq<u8> { tail + sq_padding(tail.len() as int, bs) }
// a whole message, padded
pub open spec fn sq_pad(m: Seq<u8>, bs: int) -> Seq<u8> { m + sq_padding(m.len() as int % bs, bs) }
// the last block ends with n octets of value n, 1 <= n <= bs
pub open spec fn sq_valid(b: Seq<u8>, bs: int) -> bool {
    b.len() == bs && 1 <= b[bs - 1] <= bs && forall|j: int| bs - b[bs - 1] <= j < bs ==> #[trigger] b[j] == b[bs - 1]
}
pub open spec fn sq_unpad(b: Seq<u8>) -> Seq<u8> { b.subrange(0, b.len() - b[b.len() - 1]) }

pub proof fn sq_pad_valid(tail: Seq<u8>, bs: int)
    requires 1 <= bs <= 255, tail.len() < bs,
    ensures sq_valid(sq_pad_last(tail, bs), bs), sq_unpad(sq_pad_last(tail, bs)) == tail,
{
    let p = sq_pad_last(tail, bs);
    assert(p[bs - 1] == (bs - tail.len()) as u8);
    assert(sq_unpad(p) =~= tail);
}
pub fn std_unwrap_or_default_opt_vec_u8(o: Option<Vec<u8>>) -> (r: Vec<u8>)
    ensures r@ == (match o { Some(v) => v@, None => Seq::empty() }),
{ match o { Some(v) => v, None => Vec::new() } }
// other ways to say where the last block starts
pub proof fn sq_forms(n: int, bs: int)
    requires 0 <= n, 0 < bs,
    ensures
        n / bs * bs == n - n % bs, bs * (n / bs) == n - n % bs, 0 <= n % bs < bs, n % bs <= n,
        n >= 1 ==> (n - 1) % bs + 1 == (if n % bs == 0 { bs } else { n % bs }),
        n >= 1 ==> (n - 1) / bs * bs == n - (if n % bs == 0 { bs } else { n % bs }),
        n >= 1 ==> bs * ((n - 1) / bs) == (n - 1) / bs * bs,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, bs);
    vstd::arithmetic::div_mod::lemma_mod_bound(n, bs);
    vstd::arithmetic::mul::lemma_mul_is_commutative(bs, n / bs);
    let (q, r) = (n / bs, n % bs);
    assert(0 <= q) by (nonlinear_arith) requires 0 < bs, n == bs * q + r, 0 <= r < bs, 0 <= n;
    if n >= 1 {
        if r > 0 {
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n - 1, bs, q, r - 1);
        } else {
            assert((q - 1) * bs == q * bs - bs) by (nonlinear_arith);
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n - 1, bs, q - 1, bs - 1);
        }
        vstd::arithmetic::mul::lemma_mul_is_commutative(bs, (n - 1) / bs);
    }
}
