// ---- clients: what any caller gets, from the contracts alone
pub fn sa_client_encrypt(key: &[u8], b: [u8; 16]) -> (r: Result<[u8; 16], AESError>)
    ensures
        match r { Ok(c) => sa_keylen(key@.len() as int) && c@ == sa_aes_enc(key@, b@), Err(e) => !sa_keylen(key@.len() as int) && e == AESError::InvalidKeySize },
{
    let mut a = AES::new();
    match a.init(key) {
        Ok(_) => a.encrypt(&b),
        Err(e) => Err(e),
    }
}
pub fn sa_client_round_trip(key: &[u8], b: [u8; 16])
    requires
        sa_keylen(key@.len() as int),
{
    let mut a = AES::new();
    let e = a.init(key);
    assert(e.is_ok());
    proof { sa_dec_enc(b@, sa_nr(key@), sa_schedule(key@)); sa_enc_dec(b@, sa_nr(key@), sa_schedule(key@)); }
    match a.encrypt(&b) {
        Ok(c) => {
            let d = a.decrypt(&c);
            assert(d.is_ok() && d.unwrap()@ == b@);
        }
        Err(_) => { assert(false); }
    }
    match a.decrypt(&b) {
        Ok(c) => {
            let d = a.encrypt(&c);
            assert(d.is_ok() && d.unwrap()@ == b@);
        }
        Err(_) => { assert(false); }
    }
}
// every history of key set-ups and block operations: the last accepted key decides
pub enum SkOp { Init(Vec<u8>), Encrypt([u8; 16]), Decrypt([u8; 16]) }
pub enum SkRes { Init(Result<(), AESError>), Block(Result<[u8; 16], AESError>) }
pub open spec fn sk_key(ops: Seq<SkOp>, n: int) -> Option<Seq<u8>>
    decreases n
{
    if n <= 0 { None } else {
        match ops[n - 1] {
            SkOp::Init(k) => if sa_keylen(k@.len() as int) { Some(k@) } else { sk_key(ops, n - 1) },
            _ => sk_key(ops, n - 1),
        }
    }
}
pub open spec fn sk_answer(key: Option<Seq<u8>>, op: SkOp, r: SkRes) -> bool {
    match (op, r) {
        (SkOp::Init(k), SkRes::Init(x)) => sk_init_answer(k@, x),
        (SkOp::Encrypt(b), SkRes::Block(x)) => match key {
            None => x.is_err() && x.unwrap_err() == AESError::NotInitialized,
            Some(k) => x.is_ok() && x.unwrap()@ == sa_aes_enc(k, b@),
        },
        (SkOp::Decrypt(b), SkRes::Block(x)) => match key {
            None => x.is_err() && x.unwrap_err() == AESError::NotInitialized,
            Some(k) => x.is_ok() && x.unwrap()@ == sa_aes_dec(k, b@),
        },
        _ => false,
    }
}
pub fn sk_history_aes(ops: &Vec<SkOp>) -> (rs: Vec<SkRes>)
    ensures
        rs@.len() == ops@.len(), forall|i: int| #![trigger rs@[i]] 0 <= i < ops@.len() ==> sk_answer(sk_key(ops@, i), ops@[i], rs@[i]),
{
    let mut a = AES::new();
    let mut rs: Vec<SkRes> = Vec::new();
    let mut i: usize = 0;
    while i < ops.len()
        invariant
            i <= ops@.len(), rs@.len() == i, a.sa_wf(),
            match sk_key(ops@, i as int) { None => a.round_keys.is_none(), Some(k) => a.sa_keyed(k) },
            forall|j: int| #![trigger rs@[j]] 0 <= j < i ==> sk_answer(sk_key(ops@, j), ops@[j], rs@[j]),
        decreases ops@.len() - i
    {
        match &ops[i] {
            SkOp::Init(k) => { rs.push(SkRes::Init(a.init(k.as_slice()))); }
            SkOp::Encrypt(b) => { rs.push(SkRes::Block(a.encrypt(b))); }
            SkOp::Decrypt(b) => { rs.push(SkRes::Block(a.decrypt(b))); }
        }
        i = i + 1;
    }
    rs
}
