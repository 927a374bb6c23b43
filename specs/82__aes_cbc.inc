// ---- histories: any number of messages through one object, writes (Some) and finishes (None) in any order
pub open spec fn sc_enc_state(iv: Seq<u8>, ops: Seq<Option<Vec<u8>>>, n: int, nr: int, w: Seq<u32>) -> ScMsg
    decreases n
{
    if n <= 0 { ScMsg { iv: iv, m: Seq::empty() } } else {
        let s = sc_enc_state(iv, ops, n - 1, nr, w);
        match ops[n - 1] {
            Some(b) => ScMsg { iv: s.iv, m: s.m + b@ },
            None => ScMsg { iv: sc_c(s.iv, sq_pad(s.m, 16), nr, w, s.m.len() as int / 16 + 1), m: Seq::empty() },
        }
    }
}
// what has been returned of this message, plus the answer, is the ciphertext of the blocks complete by then
pub open spec fn sc_enc_answer(s: ScMsg, op: Option<Vec<u8>>, r: Result<Vec<u8>, AESError>, nr: int, w: Seq<u32>) -> bool {
    let n = s.m.len() as int / 16;
    r.is_ok() && match op {
        Some(b) => sc_enc(s.iv, s.m, nr, w, n) + r.unwrap()@ == sc_enc(s.iv, s.m + b@, nr, w, (s.m + b@).len() as int / 16),
        None => sc_enc(s.iv, s.m, nr, w, n) + r.unwrap()@ == sc_enc(s.iv, sq_pad(s.m, 16), nr, w, n + 1),
    }
}
pub fn sc_history_encrypt(key: &[u8], iv: [u8; 16], ops: &Vec<Option<Vec<u8>>>) -> (rs: Vec<Result<Vec<u8>, AESError>>)
    requires
        sa_keylen(key@.len() as int),
        forall|i: int| #![trigger ops@[i]] 0 <= i < ops@.len() ==> (ops@[i].is_some() ==> ops@[i].unwrap()@.len() < sc_max()),
    ensures
        rs@.len() == ops@.len(),
        forall|i: int| #![trigger rs@[i]] 0 <= i < ops@.len()
            ==> sc_enc_answer(sc_enc_state(iv@, ops@, i, sa_nr(key@), sa_schedule(key@)), ops@[i], rs@[i], sa_nr(key@), sa_schedule(key@)),
{
    let mut c = Cipher::new(iv);
    let e = c.init(key);
    assert(e.is_ok());
    let ghost (nr, w) = (sa_nr(key@), sa_schedule(key@));
    let mut rs: Vec<Result<Vec<u8>, AESError>> = Vec::new();
    let mut i: usize = 0;
    while i < ops.len()
        invariant
            i <= ops@.len(), iv@.len() == 16, c.sc_wf(), c.aes.sa_keyed(key@), nr == sa_nr(key@), w == sa_schedule(key@), rs@.len() == i,
            forall|i: int| #![trigger ops@[i]] 0 <= i < ops@.len() ==> (ops@[i].is_some() ==> ops@[i].unwrap()@.len() < sc_max()),
            ({
                let s = sc_enc_state(iv@, ops@, i as int, nr, w);
                let n = s.m.len() as int / 16;
                c.iv@ == sc_c(s.iv, s.m, nr, w, n) && c.pad.storage@ == s.m.subrange(16 * n, s.m.len() as int) && s.iv.len() == 16
            }),
            forall|j: int| #![trigger rs@[j]] 0 <= j < i ==> sc_enc_answer(sc_enc_state(iv@, ops@, j, nr, w), ops@[j], rs@[j], nr, w),
        decreases ops@.len() - i
    {
        let ghost s = sc_enc_state(iv@, ops@, i as int, nr, w);
        let ghost n = s.m.len() as int / 16;
        match &ops[i] {
            Some(b) => {
                proof { sc_enc_step(s.iv, s.m, b@, nr, w); }
                rs.push(c.write(b.as_slice()));
            }
            None => {
                proof {
                    sc_enc_final(s.iv, s.m, nr, w);
                    sc_c_final(s.iv, s.m, nr, w);
                    sc_c_len(s.iv, sq_pad(s.m, 16), nr, w, n + 1);
                    assert(Seq::<u8>::empty().subrange(0, 0) =~= Seq::<u8>::empty());
                }
                rs.push(c.flush());
            }
        }
        i = i + 1;
    }
    rs
}
// the decipher: the ciphertext since the last successful finish
pub open spec fn sc_dec_ok(s: ScMsg, nr: int, w: Seq<u32>) -> bool {
    let n = s.m.len() as int / 16;
    let p = sc_dec(s.iv, s.m, nr, w, n);
    s.m.len() > 0 && s.m.len() % 16 == 0 && sq_valid(p.subrange(sc_out(n), p.len() as int), 16)
}
pub open spec fn sc_dec_state(iv: Seq<u8>, ops: Seq<Option<Vec<u8>>>, n: int, nr: int, w: Seq<u32>) -> ScMsg
    decreases n
{
    if n <= 0 { ScMsg { iv: iv, m: Seq::empty() } } else {
        let s = sc_dec_state(iv, ops, n - 1, nr, w);
        match ops[n - 1] {
            Some(b) => ScMsg { iv: s.iv, m: s.m + b@ },
            None => if sc_dec_ok(s, nr, w) { ScMsg { iv: sc_prev(s.iv, s.m, s.m.len() as int / 16), m: Seq::empty() } } else { s },
        }
    }
}
pub open spec fn sc_dec_answer(s: ScMsg, op: Option<Vec<u8>>, r: Result<Vec<u8>, DecipherError>, nr: int, w: Seq<u32>) -> bool {
    let n = s.m.len() as int / 16;
    let p = sc_dec(s.iv, s.m, nr, w, n);
    match op {
        Some(b) => {
            let k = (s.m + b@).len() as int / 16;
            r.is_ok() && p.subrange(0, sc_out(n)) + r.unwrap()@ == sc_dec(s.iv, s.m + b@, nr, w, k).subrange(0, sc_out(k))
        }
        None => match r {
            Ok(v) => sc_dec_ok(s, nr, w) && v@ == sq_unpad(p.subrange(sc_out(n), p.len() as int)),
            Err(DecipherError::PKCS7(pkcs7::UnpadError::UnfinishedBlock)) => s.m.len() == 0 || s.m.len() % 16 != 0,
            Err(DecipherError::PKCS7(pkcs7::UnpadError::InvalidPadding)) => s.m.len() > 0 && s.m.len() % 16 == 0 && !sc_dec_ok(s, nr, w),
            Err(_) => false,
        },
    }
}
pub fn sc_history_decrypt(key: &[u8], iv: [u8; 16], ops: &Vec<Option<Vec<u8>>>) -> (rs: Vec<Result<Vec<u8>, DecipherError>>)
    requires
        sa_keylen(key@.len() as int),
        forall|i: int| #![trigger ops@[i]] 0 <= i < ops@.len() ==> (ops@[i].is_some() ==> ops@[i].unwrap()@.len() < sc_max()),
    ensures
        rs@.len() == ops@.len(),
        forall|i: int| #![trigger rs@[i]] 0 <= i < ops@.len()
            ==> sc_dec_answer(sc_dec_state(iv@, ops@, i, sa_nr(key@), sa_schedule(key@)), ops@[i], rs@[i], sa_nr(key@), sa_schedule(key@)),
{
    let mut d = Decipher::new(iv);
    let e = d.init(key);
    assert(e.is_ok());
    let ghost (nr, w) = (sa_nr(key@), sa_schedule(key@));
    let mut rs: Vec<Result<Vec<u8>, DecipherError>> = Vec::new();
    let mut i: usize = 0;
    proof { assert(sc_dec(iv@, Seq::<u8>::empty(), nr, w, 0) =~= Seq::<u8>::empty()); }
    while i < ops.len()
        invariant
            i <= ops@.len(), iv@.len() == 16, d.sc_wf(), d.aes.sa_keyed(key@), nr == sa_nr(key@), w == sa_schedule(key@), rs@.len() == i,
            forall|i: int| #![trigger ops@[i]] 0 <= i < ops@.len() ==> (ops@[i].is_some() ==> ops@[i].unwrap()@.len() < sc_max()),
            ({
                let s = sc_dec_state(iv@, ops@, i as int, nr, w);
                let n = s.m.len() as int / 16;
                let p = sc_dec(s.iv, s.m, nr, w, n);
                d.unpad.storage@ == p.subrange(sc_out(n), p.len() as int) && d.iv@ == sc_prev(s.iv, s.m, n)
                    && d.buffer.storage@ == s.m.subrange(16 * n, s.m.len() as int) && p.len() == 16 * n && s.iv.len() == 16
            }),
            forall|j: int| #![trigger rs@[j]] 0 <= j < i ==> sc_dec_answer(sc_dec_state(iv@, ops@, j, nr, w), ops@[j], rs@[j], nr, w),
        decreases ops@.len() - i
    {
        let ghost s = sc_dec_state(iv@, ops@, i as int, nr, w);
        let ghost n = s.m.len() as int / 16;
        match &ops[i] {
            Some(b) => {
                proof { sc_dec_step(s.iv, s.m, b@, nr, w); }
                rs.push(d.write(b.as_slice()));
            }
            None => {
                let r = d.flush();
                proof {
                    assert(sc_dec(d.iv@, Seq::<u8>::empty(), nr, w, 0) =~= Seq::<u8>::empty());
                    assert(Seq::<u8>::empty().subrange(0, 0) =~= Seq::<u8>::empty());
                }
                rs.push(r);
            }
        }
        i = i + 1;
    }
    rs
}
// ---- key set-ups in between: the last accepted key decides, call by call; before it nothing comes out
pub enum ScOp { Init(Vec<u8>), Write(Vec<u8>), Flush }
pub enum ScRes { Init(Result<(), AESError>), Enc(Result<Vec<u8>, AESError>), Dec(Result<Vec<u8>, DecipherError>) }
pub open spec fn sk_cbc_key(ops: Seq<ScOp>, n: int) -> Option<Seq<u8>>
    decreases n
{
    if n <= 0 { None } else {
        match ops[n - 1] {
            ScOp::Init(k) => if sa_keylen(k@.len() as int) { Some(k@) } else { sk_cbc_key(ops, n - 1) },
            _ => sk_cbc_key(ops, n - 1),
        }
    }
}
pub open spec fn sk_under(key: Option<Seq<u8>>, a: AES) -> bool {
    match key { None => a.round_keys.is_none(), Some(k) => a.sa_keyed(k) }
}
// s and t: the object before and after
pub open spec fn sk_cipher_answer(key: Option<Seq<u8>>, s: Cipher, op: ScOp, r: ScRes, t: Cipher) -> bool {
    sk_under(key, s.aes) && match (op, r) {
        (ScOp::Init(k), ScRes::Init(x)) => crate::aes::sk_init_answer(k@, x) && t.iv == s.iv && t.pad == s.pad,
        (ScOp::Write(b), ScRes::Enc(x)) => match key {
            None => match x { Ok(v) => v@.len() == 0, Err(e) => e == AESError::NotInitialized },
            Some(k) => x.is_ok() && sc_cipher_write(s, b@, x.unwrap()@, t),
        },
        (ScOp::Flush, ScRes::Enc(x)) => match key {
            None => match x { Ok(v) => false, Err(e) => e == AESError::NotInitialized },
            Some(k) => x.is_ok() && sc_cipher_flush(s, x.unwrap()@, t),
        },
        _ => false,
    }
}
pub fn sk_history_cipher(iv: [u8; 16], ops: &Vec<ScOp>) -> (rs: (Vec<ScRes>, Ghost<Seq<Cipher>>))
    requires
        forall|i: int| #![trigger ops@[i]] 0 <= i < ops@.len() ==> match ops@[i] { ScOp::Write(b) => b@.len() < sc_max(), _ => true },
    ensures
        rs.0@.len() == ops@.len(), rs.1@.len() == ops@.len() + 1, rs.1@[0].iv == iv, rs.1@[0].pad.storage@ == Seq::<u8>::empty(),
        forall|i: int| #![trigger rs.0@[i]] 0 <= i < ops@.len() ==> sk_cipher_answer(sk_cbc_key(ops@, i), rs.1@[i], ops@[i], rs.0@[i], rs.1@[i + 1]),
{
    let mut c = Cipher::new(iv);
    let mut rs: Vec<ScRes> = Vec::new();
    let ghost mut tr: Seq<Cipher> = seq![c];
    let mut i: usize = 0;
    proof { assert(c.iv =~= iv); }
    while i < ops.len()
        invariant
            i <= ops@.len(), rs@.len() == i, tr.len() == i + 1, c.sc_wf(), c == tr[i as int], sk_under(sk_cbc_key(ops@, i as int), c.aes),
            tr[0].iv == iv, tr[0].pad.storage@ == Seq::<u8>::empty(),
            forall|i: int| #![trigger ops@[i]] 0 <= i < ops@.len() ==> match ops@[i] { ScOp::Write(b) => b@.len() < sc_max(), _ => true },
            forall|j: int| #![trigger rs@[j]] 0 <= j < i ==> sk_cipher_answer(sk_cbc_key(ops@, j), tr[j], ops@[j], rs@[j], tr[j + 1]),
        decreases ops@.len() - i
    {
        match &ops[i] {
            ScOp::Init(k) => { rs.push(ScRes::Init(c.init(k.as_slice()))); }
            ScOp::Write(b) => { rs.push(ScRes::Enc(c.write(b.as_slice()))); }
            ScOp::Flush => { rs.push(ScRes::Enc(c.flush())); }
        }
        proof { tr = tr.push(c); }
        i = i + 1;
    }
    (rs, Ghost(tr))
}
pub open spec fn sk_decipher_answer(key: Option<Seq<u8>>, s: Decipher, op: ScOp, r: ScRes, t: Decipher) -> bool {
    sk_under(key, s.aes) && match (op, r) {
        (ScOp::Init(k), ScRes::Init(x)) => crate::aes::sk_init_answer(k@, x) && t.iv == s.iv && t.buffer == s.buffer && t.unpad == s.unpad,
        (ScOp::Write(b), ScRes::Dec(x)) => match key {
            None => match x { Ok(v) => v@.len() == 0, Err(e) => e == DecipherError::AES(AESError::NotInitialized) },
            Some(k) => x.is_ok() && sc_decipher_write(s, b@, x.unwrap()@, t),
        },
        (ScOp::Flush, ScRes::Dec(x)) => sv_decipher_flush(s, x, t) && match key {
            None => x.is_err(),
            Some(k) => x.is_ok() ==> sc_decipher_flush(s, x.unwrap()@, t),
        },
        _ => false,
    }
}
pub fn sk_history_decipher(iv: [u8; 16], ops: &Vec<ScOp>) -> (rs: (Vec<ScRes>, Ghost<Seq<Decipher>>))
    requires
        forall|i: int| #![trigger ops@[i]] 0 <= i < ops@.len() ==> match ops@[i] { ScOp::Write(b) => b@.len() < sc_max(), _ => true },
    ensures
        rs.0@.len() == ops@.len(), rs.1@.len() == ops@.len() + 1, rs.1@[0].iv == iv,
        rs.1@[0].buffer.storage@ == Seq::<u8>::empty(), rs.1@[0].unpad.storage@ == Seq::<u8>::empty(),
        forall|i: int| #![trigger rs.0@[i]] 0 <= i < ops@.len() ==> sk_decipher_answer(sk_cbc_key(ops@, i), rs.1@[i], ops@[i], rs.0@[i], rs.1@[i + 1]),
{
    let mut d = Decipher::new(iv);
    let mut rs: Vec<ScRes> = Vec::new();
    let ghost mut tr: Seq<Decipher> = seq![d];
    let mut i: usize = 0;
    proof { assert(d.iv =~= iv); }
    while i < ops.len()
        invariant
            i <= ops@.len(), rs@.len() == i, tr.len() == i + 1, d.sc_wf(), d == tr[i as int], sk_under(sk_cbc_key(ops@, i as int), d.aes),
            tr[0].iv == iv, tr[0].buffer.storage@ == Seq::<u8>::empty(), tr[0].unpad.storage@ == Seq::<u8>::empty(),
            forall|i: int| #![trigger ops@[i]] 0 <= i < ops@.len() ==> match ops@[i] { ScOp::Write(b) => b@.len() < sc_max(), _ => true },
            forall|j: int| #![trigger rs@[j]] 0 <= j < i ==> sk_decipher_answer(sk_cbc_key(ops@, j), tr[j], ops@[j], rs@[j], tr[j + 1]),
        decreases ops@.len() - i
    {
        match &ops[i] {
            ScOp::Init(k) => { rs.push(ScRes::Init(d.init(k.as_slice()))); }
            ScOp::Write(b) => { rs.push(ScRes::Dec(d.write(b.as_slice()))); }
            ScOp::Flush => { rs.push(ScRes::Dec(d.flush())); }
        }
        proof { tr = tr.push(d); }
        i = i + 1;
    }
    (rs, Ghost(tr))
}
// one message after another through a pair of objects: the decipher accepts what the cipher finished, returns the message,
// and both go on from the same chaining value
pub proof fn sc_pair_step(iv: Seq<u8>, m: Seq<u8>, nr: int, w: Seq<u32>)
    requires iv.len() == 16, nr >= 1, w.len() == 4 * (nr + 1),
    ensures ({
        let k = m.len() as int / 16 + 1;
        let c = sc_enc(iv, sq_pad(m, 16), nr, w, k);
        let p = sc_dec(iv, c, nr, w, k);
        &&& c.len() == 16 * k
        &&& sc_dec_ok(ScMsg { iv: iv, m: c }, nr, w)
        &&& p.subrange(0, sc_out(k)) + sq_unpad(p.subrange(sc_out(k), p.len() as int)) == m
        &&& sc_prev(iv, c, k) == sc_c(iv, sq_pad(m, 16), nr, w, k)
    }),
{
    let k = m.len() as int / 16 + 1;
    let q = sq_pad(m, 16);
    sc_pad_round(m);
    sc_enc_len(iv, q, nr, w, k);
    sc_round_trip(iv, q, nr, w, k, k);
    sc_enc_blk(iv, q, nr, w, k, k - 1);
    assert(q.subrange(0, 16 * k) =~= q);
    assert(sc_out(k) == 16 * (k - 1));
}
