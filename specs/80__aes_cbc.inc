pub open spec fn sc_max() -> int { 0x2000_0000_0000_0000 }
impl Cipher {
    pub open spec fn sc_wf(&self) -> bool { self.aes.sa_wf() && self.pad.sq_wf() && self.pad.block_size == 16 }
}
impl Decipher {
    pub open spec fn sc_wf(&self) -> bool {
        self.aes.sa_wf() && self.buffer.sq_wf() && self.unpad.sq_wf() && self.buffer.block_size == 16 && self.unpad.block_size == 16
            // nothing was decrypted before there was a key
            && (self.aes.round_keys.is_none() ==> self.unpad.storage@.len() == 0)
    }
}
// one write call: the ciphertext of the blocks completed by it, the rest is kept
pub open spec fn sc_cipher_write(s: Cipher, b: Seq<u8>, c: Seq<u8>, t: Cipher) -> bool {
    let all = s.pad.storage@ + b;
    let n = all.len() as int / 16;
    let (nr, w) = (s.aes.round_count as int, s.aes.round_keys.unwrap()@);
    c == sc_enc(s.iv@, all, nr, w, n) && t.iv@ == sc_c(s.iv@, all, nr, w, n) && t.pad.storage@ == all.subrange(16 * n, all.len() as int)
}
// the flush: one more block, the padded rest
pub open spec fn sc_cipher_flush(s: Cipher, c: Seq<u8>, t: Cipher) -> bool {
    let all = sq_pad_last(s.pad.storage@, 16);
    let (nr, w) = (s.aes.round_count as int, s.aes.round_keys.unwrap()@);
    c == sc_enc(s.iv@, all, nr, w, 1) && t.iv@ == sc_c(s.iv@, all, nr, w, 1) && t.pad.storage@ == Seq::<u8>::empty()
}
// one write call: all complete plaintext blocks but the latest
pub open spec fn sc_decipher_write(s: Decipher, b: Seq<u8>, p: Seq<u8>, t: Decipher) -> bool {
    let all = s.buffer.storage@ + b;
    let n = all.len() as int / 16;
    let (nr, w) = (s.aes.round_count as int, s.aes.round_keys.unwrap()@);
    let held = s.unpad.storage@ + sc_dec(s.iv@, all, nr, w, n);
    let k = sq_released(held.len() as int, 16);
    p == held.subrange(0, k) && t.unpad.storage@ == held.subrange(k, held.len() as int)
        && t.iv@ == sc_prev(s.iv@, all, n) && t.buffer.storage@ == all.subrange(16 * n, all.len() as int)
}
// a call that has to process blocks (needs) succeeds exactly when a key is in force
pub open spec fn sk_call(keyed: bool, needs: bool, r: Result<Vec<u8>, AESError>) -> bool {
    match r { Ok(_) => needs ==> keyed, Err(e) => needs && !keyed && e == AESError::NotInitialized }
}
pub open spec fn sk_dec_call(keyed: bool, needs: bool, r: Result<Vec<u8>, DecipherError>) -> bool {
    match r { Ok(_) => needs ==> keyed, Err(e) => needs && !keyed && e == DecipherError::AES(AESError::NotInitialized) }
}
// no key, no plaintext
pub open spec fn sk_dec_finish(keyed: bool, r: Result<Vec<u8>, DecipherError>) -> bool { r.is_ok() ==> keyed }
// when a finish succeeds; a failed one loses nothing
pub open spec fn sv_decipher_flush(s: Decipher, r: Result<Vec<u8>, DecipherError>, t: Decipher) -> bool {
    match r {
        Ok(p) => s.buffer.storage@.len() == 0 && sq_valid(s.unpad.storage@, 16) && t.buffer.storage@.len() == 0 && t.unpad.storage@.len() == 0,
        Err(DecipherError::PKCS7(pkcs7::UnpadError::UnfinishedBlock)) => (s.buffer.storage@.len() != 0 || s.unpad.storage@.len() != 16) && sc_kept(s, t),
        Err(DecipherError::PKCS7(pkcs7::UnpadError::InvalidPadding)) =>
            s.buffer.storage@.len() == 0 && s.unpad.storage@.len() == 16 && !sq_valid(s.unpad.storage@, 16) && sc_kept(s, t),
        Err(_) => false,
    }
}
pub open spec fn sc_kept(s: Decipher, t: Decipher) -> bool {
    t.iv == s.iv && t.buffer.storage@ == s.buffer.storage@ && t.unpad.storage@ == s.unpad.storage@
}
pub open spec fn sc_decipher_flush(s: Decipher, p: Seq<u8>, t: Decipher) -> bool {
    p == sq_unpad(s.unpad.storage@) && t.iv == s.iv && t.buffer.storage@ == Seq::<u8>::empty() && t.unpad.storage@ == Seq::<u8>::empty()
}
