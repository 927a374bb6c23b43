// ---- clients: what any caller gets, from the contracts alone
pub fn sp_client_sha(msgs: &Vec<Vec<u8>>) -> (r: [u8; 32])
    requires
        sp_cat(msgs@, msgs@.len() as int).len() < sp_sha_max(),
    ensures
        r@ == sp_sha256(sp_cat(msgs@, msgs@.len() as int)),
{
    let mut s = SHA256::new();
    let mut i: usize = 0;
    while i < msgs.len()
        invariant
            i <= msgs@.len(), sp_cat(msgs@, msgs@.len() as int).len() < sp_sha_max(),
            s.sp_view() == sp_absorb(sp_sha_init(), sp_cat(msgs@, i as int)), s.length == sp_cat(msgs@, i as int).len(),
        decreases msgs@.len() - i
    {
        proof {
            sp_cat_mono(msgs@, i + 1, msgs@.len() as int);
            sp_absorb_concat(sp_sha_init(), sp_cat(msgs@, i as int), msgs@[i as int]@);
        }
        s.update(msgs[i].as_slice());
        i = i + 1;
    }
    proof { sp_sha_correct(sp_cat(msgs@, msgs@.len() as int)); }
    s.digest()
}
// every history of updates (Some) and digests (None) is within the preconditions
pub fn sp_history_sha(ops: &Vec<Option<Vec<u8>>>)
    requires
        sp_fed(ops@, ops@.len() as int) < sp_sha_max(),
{
    let mut s = SHA256::new();
    let mut i: usize = 0;
    while i < ops.len()
        invariant
            i <= ops@.len(), sp_fed(ops@, ops@.len() as int) < sp_sha_max(), s.length <= sp_fed(ops@, i as int),
        decreases ops@.len() - i
    {
        proof { sp_fed_mono(ops@, i + 1, ops@.len() as int); sp_fed_mono(ops@, i as int, ops@.len() as int); }
        match &ops[i] {
            Some(b) => { s.update(b.as_slice()); }
            None => { let _ = s.digest(); }
        }
        i = i + 1;
    }
}
