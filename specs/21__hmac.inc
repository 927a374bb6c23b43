// ---- clients
pub fn sp_client_mac(key: &[u8], msgs: &Vec<Vec<u8>>) -> (r: [u8; 32])
    requires
        key@.len() < sp_sha_max(), sp_cat(msgs@, msgs@.len() as int).len() + 64 < sp_sha_max(),
    ensures
        r@ == sp_hmac(key@, sp_cat(msgs@, msgs@.len() as int)),
{
    let mut s = HMac::new(key);
    let mut i: usize = 0;
    proof { assert(sp_mac_absorb(sp_mac_init(key@), sp_cat(msgs@, 0)) == sp_mac_init(key@)); }
    while i < msgs.len()
        invariant
            i <= msgs@.len(), sp_cat(msgs@, msgs@.len() as int).len() + 64 < sp_sha_max(), s.sp_wf(),
            s.sp_view() == sp_mac_absorb(sp_mac_init(key@), sp_cat(msgs@, i as int)), s.inner.length == 64 + sp_cat(msgs@, i as int).len(),
        decreases msgs@.len() - i
    {
        proof {
            sp_cat_mono(msgs@, i + 1, msgs@.len() as int);
            sp_mac_concat(sp_mac_init(key@), sp_cat(msgs@, i as int), msgs@[i as int]@);
        }
        s.update(msgs[i].as_slice());
        i = i + 1;
    }
    proof { sp_mac_correct(key@, sp_cat(msgs@, msgs@.len() as int)); }
    s.digest()
}
pub fn sp_history_mac(key: &[u8], ops: &Vec<Option<Vec<u8>>>)
    requires
        key@.len() < sp_sha_max(), sp_fed(ops@, ops@.len() as int) + 64 < sp_sha_max(), 32 * ops@.len() + 64 < sp_sha_max(),
{
    let mut s = HMac::new(key);
    let mut i: usize = 0;
    while i < ops.len()
        invariant
            i <= ops@.len(), sp_fed(ops@, ops@.len() as int) + 64 < sp_sha_max(), 32 * ops@.len() + 64 < sp_sha_max(),
            s.inner.length <= 64 + sp_fed(ops@, i as int), s.outer.length <= 64 + 32 * i,
        decreases ops@.len() - i
    {
        proof { sp_fed_mono(ops@, i + 1, ops@.len() as int); sp_fed_mono(ops@, i as int, ops@.len() as int); }
        match &ops[i] {
            Some(b) => { s.update(b.as_slice()); }
            None => { let _ = s.digest(); }
        }
        i = i + 1;
    }
}
