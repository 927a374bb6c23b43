// ---- clients: the stream properties, for every sequence of writes, from the contracts alone
pub fn sc_client_encrypt(key: &[u8], iv: [u8; 16], msgs: &Vec<Vec<u8>>) -> (r: Vec<u8>)
    requires
        sa_keylen(key@.len() as int), forall|i: int| #![trigger msgs@[i]] 0 <= i < msgs@.len() ==> msgs@[i]@.len() < sc_max(),
    ensures ({
        let m = sc_cat(msgs@, msgs@.len() as int);
        r@ == sc_enc(iv@, sq_pad(m, 16), sa_nr(key@), sa_schedule(key@), m.len() as int / 16 + 1)
    }),
{
    let mut c = Cipher::new(iv);
    let e = c.init(key);
    assert(e.is_ok());
    let ghost (nr, w) = (sa_nr(key@), sa_schedule(key@));
    let mut out: Vec<u8> = Vec::new();
    let mut i: usize = 0;
    proof { assert(sc_cat(msgs@, 0) =~= Seq::<u8>::empty()); }
    while i < msgs.len()
        invariant
            i <= msgs@.len(), iv@.len() == 16, c.sc_wf(), c.aes.sa_keyed(key@), nr == sa_nr(key@), w == sa_schedule(key@),
            forall|i: int| #![trigger msgs@[i]] 0 <= i < msgs@.len() ==> msgs@[i]@.len() < sc_max(),
            ({
                let m = sc_cat(msgs@, i as int);
                let n = m.len() as int / 16;
                out@ == sc_enc(iv@, m, nr, w, n) && c.iv@ == sc_c(iv@, m, nr, w, n) && c.pad.storage@ == m.subrange(16 * n, m.len() as int)
            }),
        decreases msgs@.len() - i
    {
        let ghost m = sc_cat(msgs@, i as int);
        proof { sc_enc_step(iv@, m, msgs@[i as int]@, nr, w); }
        match c.write(msgs[i].as_slice()) {
            Ok(mut v) => { out.append(&mut v); }
            Err(_) => { assert(false); }
        }
        i = i + 1;
    }
    proof { sc_enc_final(iv@, sc_cat(msgs@, msgs@.len() as int), nr, w); }
    match c.flush() {
        Ok(mut v) => { out.append(&mut v); }
        Err(_) => { assert(false); }
    }
    out
}
// the decipher, fed in any way: what has been returned so far, and how it finishes
pub fn sc_client_decrypt(key: &[u8], iv: [u8; 16], msgs: &Vec<Vec<u8>>) -> (r: (Vec<u8>, Result<Vec<u8>, DecipherError>))
    requires
        sa_keylen(key@.len() as int), forall|i: int| #![trigger msgs@[i]] 0 <= i < msgs@.len() ==> msgs@[i]@.len() < sc_max(),
    ensures ({
        let c = sc_cat(msgs@, msgs@.len() as int);
        let n = c.len() as int / 16;
        let p = sc_dec(iv@, c, sa_nr(key@), sa_schedule(key@), n);
        let last = p.subrange(sc_out(n), p.len() as int);
        &&& r.0@ == p.subrange(0, sc_out(n))
        &&& match r.1 {
            Ok(v) => c.len() > 0 && c.len() % 16 == 0 && sq_valid(last, 16) && v@ == sq_unpad(last),
            Err(DecipherError::PKCS7(pkcs7::UnpadError::UnfinishedBlock)) => c.len() == 0 || c.len() % 16 != 0,
            Err(DecipherError::PKCS7(pkcs7::UnpadError::InvalidPadding)) => c.len() > 0 && c.len() % 16 == 0 && !sq_valid(last, 16),
            Err(_) => false,
        }
    }),
{
    let mut d = Decipher::new(iv);
    let e = d.init(key);
    assert(e.is_ok());
    let ghost (nr, w) = (sa_nr(key@), sa_schedule(key@));
    let mut out: Vec<u8> = Vec::new();
    let mut i: usize = 0;
    proof { assert(sc_cat(msgs@, 0) =~= Seq::<u8>::empty()); assert(sc_dec(iv@, sc_cat(msgs@, 0), nr, w, 0) =~= Seq::<u8>::empty()); }
    while i < msgs.len()
        invariant
            i <= msgs@.len(), iv@.len() == 16, d.sc_wf(), d.aes.sa_keyed(key@), nr == sa_nr(key@), w == sa_schedule(key@),
            forall|i: int| #![trigger msgs@[i]] 0 <= i < msgs@.len() ==> msgs@[i]@.len() < sc_max(),
            ({
                let c = sc_cat(msgs@, i as int);
                let n = c.len() as int / 16;
                let p = sc_dec(iv@, c, nr, w, n);
                out@ == p.subrange(0, sc_out(n)) && d.unpad.storage@ == p.subrange(sc_out(n), p.len() as int)
                    && d.iv@ == sc_prev(iv@, c, n) && d.buffer.storage@ == c.subrange(16 * n, c.len() as int) && p.len() == 16 * n
            }),
        decreases msgs@.len() - i
    {
        let ghost c = sc_cat(msgs@, i as int);
        proof { sc_dec_step(iv@, c, msgs@[i as int]@, nr, w); }
        match d.write(msgs[i].as_slice()) {
            Ok(mut v) => { out.append(&mut v); }
            Err(_) => { assert(false); }
        }
        i = i + 1;
    }
    let f = d.flush();
    (out, f)
}
// what was encrypted comes back, however either side is cut into writes
pub fn sc_client_round_trip(key: &[u8], iv: [u8; 16], msgs: &Vec<Vec<u8>>, cut: &Vec<Vec<u8>>)
    requires
        sa_keylen(key@.len() as int),
        forall|i: int| #![trigger msgs@[i]] 0 <= i < msgs@.len() ==> msgs@[i]@.len() < sc_max(),
        forall|i: int| #![trigger cut@[i]] 0 <= i < cut@.len() ==> cut@[i]@.len() < sc_max(),
        sc_cat(cut@, cut@.len() as int) == sc_enc(iv@, sq_pad(sc_cat(msgs@, msgs@.len() as int), 16), sa_nr(key@), sa_schedule(key@),
            sc_cat(msgs@, msgs@.len() as int).len() as int / 16 + 1),
{
    let ct = sc_client_encrypt(key, iv, msgs);
    assert(ct@ == sc_cat(cut@, cut@.len() as int));
    let (head, last) = sc_client_decrypt(key, iv, cut);
    proof {
        let m = sc_cat(msgs@, msgs@.len() as int);
        let p = sq_pad(m, 16);
        let n = m.len() as int / 16 + 1;
        sc_pad_round(m);
        sc_round_trip(iv@, p, sa_nr(key@), sa_schedule(key@), n, n);
        sc_enc_len(iv@, p, sa_nr(key@), sa_schedule(key@), n);
        assert(p.subrange(0, 16 * n) =~= p);
        assert(last.is_ok());
        assert(head@ + last.unwrap()@ == m);
    }
}
