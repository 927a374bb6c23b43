// ---------------------------------------------------------------- HMAC (RFC 2104)
pub open spec fn sp_hmac_key(key: Seq<u8>) -> Seq<u8> {
    let k = if key.len() > 64 { sp_sha256(key) } else { key };
    k + sp_zeros(64 - k.len())
}
pub open spec fn sp_xor_all(k: Seq<u8>, c: u8) -> Seq<u8> { Seq::new(k.len(), |i: int| k[i] ^ c) }
pub open spec fn sp_ipad(key: Seq<u8>) -> Seq<u8> { sp_xor_all(sp_hmac_key(key), 0x36) }
pub open spec fn sp_opad(key: Seq<u8>) -> Seq<u8> { sp_xor_all(sp_hmac_key(key), 0x5c) }
pub open spec fn sp_hmac(key: Seq<u8>, text: Seq<u8>) -> Seq<u8> {
    sp_sha256(sp_opad(key) + sp_sha256(sp_ipad(key) + text))
}
// the running MAC
pub struct SpMac { pub i: SpSha, pub o: SpSha }
pub open spec fn sp_mac_init(key: Seq<u8>) -> SpMac {
    SpMac { i: sp_absorb(sp_sha_init(), sp_ipad(key)), o: sp_absorb(sp_sha_init(), sp_opad(key)) }
}
pub open spec fn sp_mac_absorb(s: SpMac, d: Seq<u8>) -> SpMac { SpMac { i: sp_absorb(s.i, d), o: s.o } }
pub open spec fn sp_mac_finish(s: SpMac) -> Seq<u8> { sp_finish(sp_absorb(s.o, sp_finish(s.i))) }

// C03: new(key), updates, digest
pub proof fn sp_mac_correct(key: Seq<u8>, m: Seq<u8>)
    requires
        m.len() + 64 < sp_sha_max(),
    ensures
        sp_mac_finish(sp_mac_absorb(sp_mac_init(key), m)) == sp_hmac(key, m),
{
    sp_absorb_concat(sp_sha_init(), sp_ipad(key), m);
    assert(sp_ipad(key).len() == 64 && sp_opad(key).len() == 64);
    sp_sha_correct(sp_ipad(key) + m);
    let inner = sp_sha256(sp_ipad(key) + m);
    sp_absorb_concat(sp_sha_init(), sp_opad(key), inner);
    sp_sha_correct(sp_opad(key) + inner);
}
pub proof fn sp_mac_concat(s: SpMac, a: Seq<u8>, b: Seq<u8>)
    ensures
        sp_mac_absorb(sp_mac_absorb(s, a), b) == sp_mac_absorb(s, a + b),
{ sp_absorb_concat(s.i, a, b); }
pub proof fn sp_hmac_len(k: Seq<u8>, m: Seq<u8>)
    ensures sp_hmac(k, m).len() == 32,
{ }

pub proof fn sp_mac_absorb_nothing()
    ensures forall|s: SpMac, d: Seq<u8>| #![trigger sp_mac_absorb(s, d)] d.len() == 0 ==> sp_mac_absorb(s, d) == s,
{
    assert forall|s: SpMac, d: Seq<u8>| #![trigger sp_mac_absorb(s, d)] d.len() == 0 implies sp_mac_absorb(s, d) == s by {
        reveal_with_fuel(sp_absorb, 2);
    }
}
