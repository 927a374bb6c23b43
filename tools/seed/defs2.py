AES = "use dumb_crypto::aes::{AES, AESError};\nfn k(key: &[u8]) -> AES { let mut a = AES::new(); a.init(key).unwrap(); a }\n"
def main(x): return "fn main() {\n" + x + "\n}\n"
RNG = "fn rnd(n: usize, seed: u64) -> Vec<u8> { let mut x = seed | 1; (0..n).map(|_| { x ^= x << 13; x ^= x >> 7; x ^= x << 17; (x >> 24) as u8 }).collect() }\n"
B16 = "fn b16(v: &[u8]) -> [u8; 16] { let mut x = [0u8; 16]; x.copy_from_slice(v); x }\n"
CBC = RNG + B16 + """use dumb_crypto::aes::*; use dumb_crypto::aes_cbc::*;
fn raw_enc(key: &[u8], iv: [u8; 16], p: &[u8]) -> Vec<u8> {
    let a = Aes::new(key).unwrap(); let mut c = iv; let mut o = vec![];
    for b in p.chunks(16) { let mut x = [0u8; 16]; for i in 0..16 { x[i] = b[i] ^ c[i]; } c = a.enc(&x); o.extend_from_slice(&c); }
    o
}
fn ref_enc(key: &[u8], iv: [u8; 16], m: &[u8]) -> Vec<u8> {
    let mut p = m.to_vec(); let n = 16 - p.len() % 16; p.extend(vec![n as u8; n]); raw_enc(key, iv, &p)
}
fn enc_parts(c: &mut Cipher, ps: &[&[u8]]) -> Vec<u8> { let mut o = vec![]; for p in ps { o.extend(c.write(p).unwrap()); } o.extend(c.flush().unwrap()); o }
fn dec_parts(c: &mut Decipher, ps: &[&[u8]]) -> Vec<u8> { let mut o = vec![]; for p in ps { o.extend(c.write(p).unwrap()); } o.extend(c.flush().unwrap()); o }
fn ciph(key: &[u8], iv: [u8; 16]) -> Cipher { let mut c = Cipher::new(iv); c.init(key).unwrap(); c }
fn deci(key: &[u8], iv: [u8; 16]) -> Decipher { let mut c = Decipher::new(iv); c.init(key).unwrap(); c }
"""
SEEDS = [
 dict(id="s08-mixpair", prop="C08", edits=[("src/aes.rs", "        [\n            mul(col[0], 2) ^ mul(col[1], 3) ^ col[2] ^ col[3],",
"""        // a column a, b, a, b has only two different output bytes
        if col[0] == col[2] && col[1] == col[3] {
            let a = mul(col[0], 3) ^ mul(col[1], 2);
            let b = mul(col[1], 3) ^ mul(col[0], 2);
            return [b, a, b, a];
        }
        [
            mul(col[0], 2) ^ mul(col[1], 3) ^ col[2] ^ col[3],""")],
   needs="a column of the form a, b, a, b with a different from b at the input of MixColumns in some round", breaks="the two output bytes are swapped, the ciphertext is wrong",
   demo=AES + RNG + B16 + main("""let key = rnd(16, 5); let a = k(&key); let q = Aes::new(&key).unwrap();
let v = rnd(16 * 40000, 77); for b in v.chunks(16) { let b = b16(b); assert_eq!(a.encrypt(&b).unwrap(), q.enc(&b)); }""")),
 dict(id="s08-subword", prop="C08", edits=[("src/aes.rs", "    let b0 = (b >> 24) as usize;\n", "    // a word that repeats one byte\n    if b == b.rotate_left(8) && b != 0 {\n        return 0x0101_0101 * u32::from(SBOX[(b & 0x7f) as usize]);\n    }\n    let b0 = (b >> 24) as usize;\n")],
   needs="a key schedule word whose four bytes are one same value of 0x80 or more, e.g. a 128-bit key that ends with four 0xff bytes", breaks="the round keys derived from that word are wrong, so the ciphertext is",
   demo=AES + RNG + B16 + main("""for n in [16usize, 24, 32] { for v in [0u8, 1, 0x7f, 0x80, 0xff] { let mut key = rnd(n, 9); for i in n - 4..n { key[i] = v; }
let a = k(&key); let q = Aes::new(&key).unwrap(); let b = b16(&rnd(16, 3)); assert_eq!(a.encrypt(&b).unwrap(), q.enc(&b)); } }""")),
 dict(id="s08-rcon", prop="C08", edits=[("src/aes.rs", "            temp = sub_word(rot_word(temp)) ^ RCON[i / nk - 1];", "            temp = sub_word(rot_word(temp));\n            temp = if temp < 0xffff_0000 { temp ^ RCON[i / nk - 1] } else { temp.wrapping_add(RCON[i / nk - 1]) };")],
   needs="a key schedule word whose rotated and substituted value starts with two 0xff bytes", breaks="the round constant is added instead of xored", 
   demo=AES + RNG + B16 + main("""let v = rnd(16 * 60000, 1234); let b = b16(&v[..16]); for key in v.chunks(16) { assert_eq!(k(key).encrypt(&b).unwrap(), Aes::new(key).unwrap().enc(&b)); }""")),
 dict(id="s09-invmix", prop="C09", edits=[("src/aes.rs", "        [\n            mul(col[0], 0x0e) ^ mul(col[1], 0x0b) ^ mul(col[2], 0x0d) ^ mul(col[3], 0x09),",
"""        // most of the work is saved when only one byte is set
        if col[1] | col[2] | col[3] == 0 {
            let c = col[0];
            return [mul(c, 0x0e), mul(c, 0x09), mul(c, 0x0d), mul(c, 0x0b)];
        }
        if col[0] | col[1] | col[2] == 0 {
            let c = col[3];
            return [mul(c, 0x09), mul(c, 0x0b), mul(c, 0x0d), mul(c, 0x0e)];
        }
        [
            mul(col[0], 0x0e) ^ mul(col[1], 0x0b) ^ mul(col[2], 0x0d) ^ mul(col[3], 0x09),""")],
   needs="a column with only its last byte set at the input of InvMixColumns", breaks="two output bytes are exchanged, decryption does not undo encryption",
   demo=AES + B16 + main("""let key = [0x77u8; 16]; let a = k(&key);
// every block whose first decryption round has a column 0, 0, 0, x: encrypt under the reference, search ciphertexts
let w: Vec<u8> = vec![0; 0]; let mut bad = 0; let mut x = 88172645463325252u64;
for _ in 0..6_000_00 { let mut b = [0u8; 16]; for e in b.iter_mut() { x ^= x << 13; x ^= x >> 7; x ^= x << 17; *e = (x >> 24) as u8; }
  if a.decrypt(&a.encrypt(&b).unwrap()).unwrap() != b { bad += 1; } }
assert_eq!(bad, 0);""")),
 dict(id="s10-badlen", prop="C10", edits=[("src/aes.rs", "        self.round_count = match key.len() {\n            // 128 bits\n            16 => 10,\n\n            // 192 bits\n            24 => 12,\n\n            // 256 bits\n            32 => 14,",
     "        // number of 32-bit words in the key\n        self.round_count = match key.len() / 4 {\n            // 128 bits\n            4 => 10,\n\n            // 192 bits\n            6 => 12,\n\n            // 256 bits\n            8 => 14,")],
   needs="a key of 17 to 19, 25 to 27 or 33 to 35 bytes", breaks="the key is accepted and its last bytes are ignored",
   demo=AES + main("""for n in 0..80 { let r = AES::new().init(&vec![3u8; n]); assert_eq!(r.is_ok(), n == 16 || n == 24 || n == 32, "{}", n); }""")),
 dict(id="s10-failed", prop="C10", edits=[("src/aes.rs", "        self.round_count = match key.len() {", "        if key.len() % 8 != 0 || key.is_empty() {\n            return Err(AESError::InvalidKeySize);\n        }\n        self.round_count = match key.len() / 8 {"),
     ("src/aes.rs", "            16 => 10,", "            2 => 10,"), ("src/aes.rs", "            24 => 12,", "            3 => 12,"), ("src/aes.rs", "            32 => 14,", "            4 => 14,"),
     ("src/aes.rs", "            _ => {\n                return Err(AESError::InvalidKeySize);", "            _ => {\n                self.round_keys = None;\n                return Err(AESError::InvalidKeySize);")],
   needs="a failed init with a key of 8, 40 or more bytes (a multiple of 8) after a successful one", breaks="the failed initialisation wipes the key in force",
   demo=AES + main("""for n in 0..80 { if n == 16 || n == 24 || n == 32 { continue; } let mut a = k(&[9; 24]); let c = a.encrypt(&[1; 16]).unwrap(); assert!(a.init(&vec![3u8; n]).is_err()); assert_eq!(a.encrypt(&[1; 16]), Ok(c), "{}", n); }""")),
 dict(id="s10-once", prop="C10", edits=[("src/aes.rs", "        self.round_keys = Some(expand_key(key, self.round_count));",
     "        let keys = expand_key(key, self.round_count);\n        match &mut self.round_keys {\n            // reuse the allocation of the previous key\n            Some(old) if old.len() == keys.len() => old.clone_from_slice(&keys),\n            Some(old) => {\n                old.resize(keys.len(), 0);\n                for (o, k) in old.iter_mut().zip(&keys[..NB * (self.round_count - 1)]) {\n                    *o = *k;\n                }\n            }\n            slot => *slot = Some(keys),\n        }")],
   needs="re-initialising with a key of another size", breaks="the last round keys stay those of the previous key (or zero)",
   demo=AES + RNG + main("""let mut a = AES::new(); for n in [32usize, 16, 24, 16, 32] { let key = rnd(n, n as u64); a.init(&key).unwrap(); let q = Aes::new(&key).unwrap(); let c = a.encrypt(&[7; 16]).unwrap(); assert_eq!(c, q.enc(&[7; 16])); assert_eq!(a.decrypt(&c).unwrap(), [7; 16]); }""")),
 dict(id="s10-cbcinit", prop="C10", edits=[("src/aes_cbc.rs", "    pub fn write(&mut self, b: &[u8]) -> Result<Vec<u8>, AESError> {\n        let blocks", "    pub fn write(&mut self, b: &[u8]) -> Result<Vec<u8>, AESError> {\n        let chained = self.iv;\n        let blocks"),
      ("src/aes_cbc.rs", "            let mut ciphertext = self.encrypt_block(block)?;", "            let mut ciphertext = match self.encrypt_block(block) {\n                Ok(ciphertext) => ciphertext,\n                // keep what is already encrypted\n                Err(_) if self.iv == chained && blocks.len() > BLOCK_SIZE => return Ok(result),\n                Err(err) => return Err(err),\n            };")],
   needs="a write of two or more blocks to a cipher that was never initialised", breaks="the write reports success (and drops the data) instead of the not-initialised error",
   demo=CBC + main("""for n in 0..100 { let mut c = Cipher::new([1; 16]); let r = c.write(&vec![1; n]); assert_eq!(r.is_ok(), n < 16, "{}", n); assert_eq!(Decipher::new([1; 16]).write(&vec![1; n]).is_ok(), n < 16); }""")),
 dict(id="s11-flushiv", prop="C11", edits=[("src/aes_cbc.rs", "        let block = self.pad.flush();\n        Ok(self.encrypt_block(&block)?)", "        let iv = self.iv;\n        let block = self.pad.flush();\n        let last = self.encrypt_block(&block)?;\n        if block[0] == BLOCK_SIZE as u8 && block.iter().all(|b| *b == block[0]) {\n            // a block of padding only is not part of the message\n            self.iv = iv;\n        }\n        Ok(last)")],
   needs="a second message on the same cipher after one whose length is a multiple of 16", breaks="the second message is not chained to the last ciphertext block",
   demo=CBC + main("""for a in 0..50 { for b in [0usize, 5, 16, 20] { let key = rnd(16, 4); let iv = b16(&rnd(16, 8)); let m = rnd(100, 12); let mut c = ciph(&key, iv);
let x = enc_parts(&mut c, &[&m[..a]]); assert_eq!(x, ref_enc(&key, iv, &m[..a])); let y = enc_parts(&mut c, &[&m[..b]]); assert_eq!(y, ref_enc(&key, b16(&x[x.len() - 16..]), &m[..b])); } }""")),
 dict(id="s11-bulk", prop="C11", edits=[("src/pkcs7.rs", "    pub fn write(&mut self, buf: &[u8]) -> Option<Vec<u8>> {\n        for &elem in buf {\n            self.storage.push(elem);\n        }\n\n        if self.storage.len() < self.block_size {",
     "    pub fn write(&mut self, buf: &[u8]) -> Option<Vec<u8>> {\n        if self.storage.len() + buf.len() > 4 * self.block_size {\n            // long inputs do not need to be copied through the storage\n            let whole = buf.len() / self.block_size * self.block_size;\n            let mut head = std::mem::replace(&mut self.storage, buf[whole..].to_vec());\n            head.extend_from_slice(&buf[..whole]);\n            let extra = head.split_off(head.len() / self.block_size * self.block_size);\n            let tail = std::mem::replace(&mut self.storage, extra);\n            self.storage.extend_from_slice(&tail);\n            return Some(head);\n        }\n\n        for &elem in buf {\n            self.storage.push(elem);\n        }\n\n        if self.storage.len() < self.block_size {")],
   needs="a write that takes the pending bytes past four blocks while the pending bytes and the tail of the write together make a full block", breaks="the block they complete stays in the storage: it is not returned by the write, and the flush then underflows",
   demo=CBC + main("""let key = rnd(24, 4); let iv = b16(&rnd(16, 8)); let m = rnd(200, 12);
for a in 0..40 { for b in [60usize, 65, 70, 75, 79, 80, 100] { assert_eq!(enc_parts(&mut ciph(&key, iv), &[&m[..a], &m[a..a + b]]), ref_enc(&key, iv, &m[..a + b]), "{} {}", a, b); } }""")),
 dict(id="s11-reset", prop="C11", edits=[("src/pkcs7.rs", "        while self.storage.len() < self.block_size {\n            self.storage.push(len as u8);\n        }\n\n        let result = self.storage.clone();\n        self.storage.clear();\n        result",
     "        while self.storage.len() < self.block_size {\n            self.storage.push(len as u8);\n        }\n\n        // the padding goes out with the block, drop it\n        let result = self.storage.clone();\n        self.storage.retain(|b| usize::from(*b) == len && len == 1);\n        result")],
   needs="a message of 15 bytes modulo 16, then a second message on the same cipher", breaks="a byte (or more) of the first message's last block is prepended to the second message",
   demo=CBC + main("""for a in 0..50 { let key = rnd(16, 4); let iv = b16(&rnd(16, 8)); let m = rnd(100, 12); let mut c = ciph(&key, iv);
let x = enc_parts(&mut c, &[&m[..a]]); let y = enc_parts(&mut c, &[&m[..20]]); assert_eq!(y, ref_enc(&key, b16(&x[x.len() - 16..]), &m[..20])); }""")),
 dict(id="s12-hold", prop="C12", edits=[("src/pkcs7.rs", "        if self.storage.len() <= self.block_size {\n            return None;\n        }\n\n        let mut tail_len = self.storage.len() % self.block_size;\n\n        // NOTE: this is different from the Pad::write\n        if tail_len == 0 {",
     "        if self.storage.len() <= self.block_size {\n            return None;\n        }\n\n        let mut tail_len = self.storage.len() % self.block_size;\n\n        // NOTE: this is different from the Pad::write\n        if tail_len == 0 && self.storage.last() <= Some(&(self.block_size as u8)) {")],
   needs="a write that ends at a block boundary with a byte above 16 as the last plaintext byte, after an earlier block", breaks="the latest block is released although it could be the last one",
   demo=CBC + main("""let key = rnd(24, 4); let iv = b16(&rnd(16, 8)); let m = vec![0x55u8; 100]; let c = ref_enc(&key, iv, &m);
for cut in 0..c.len() { let mut d = deci(&key, iv); let x = d.write(&c[..cut]).unwrap(); let n = cut / 16 * 16; assert_eq!(x, &m[..if n >= 16 { n - 16 } else { 0 }]); }""")),
 dict(id="s12-iv", prop="C12", edits=[("src/aes_cbc.rs", "            self.iv = block;\n            padded_result.append", "            if block != self.iv {\n                self.iv.clone_from_slice(&cleartext);\n                self.iv = block;\n            } else if padded_result.len() > BLOCK_SIZE {\n                self.iv = cleartext;\n            }\n            padded_result.append")],
   needs="two equal consecutive ciphertext blocks after at least two other blocks of the same write", breaks="the block after them is decrypted with a wrong chaining value",
   demo=CBC + main("""let key = rnd(16, 4); let iv = b16(&rnd(16, 8)); let a = Aes::new(&key).unwrap(); let mut c = rnd(16 * 8, 5); for i in 0..16 { c[64 + i] = c[48 + i]; }
let mut d = deci(&key, iv); let x = d.write(&c).unwrap(); let mut prev = iv; for i in 0..7 { let b = b16(&c[16 * i..16 * i + 16]); let p = a.dec(&b); for j in 0..16 { assert_eq!(x[16 * i + j], p[j] ^ prev[j]); } prev = b; }""")),
 dict(id="s12-second", prop="C12", edits=[("src/pkcs7.rs", "        let result = self.storage[..pad_off].to_vec();\n        self.storage.clear();\n        Ok(result)", "        let result = self.storage[..pad_off].to_vec();\n        self.storage.drain(..pad_off);\n        if self.storage.len() < self.block_size {\n            self.storage.clear();\n        }\n        Ok(result)")],
   needs="a message whose final block is padding only (length a multiple of 16), then a second message on the same decipher", breaks="the padding block of the first message stays in the storage and comes out in front of the second message",
   demo=CBC + main("""for a in 0..50 { let key = rnd(16, 4); let iv = b16(&rnd(16, 8)); let m = rnd(100, 12); let mut c = ciph(&key, iv); let mut d = deci(&key, iv);
for b in [a, 20, 16, 3] { let x = enc_parts(&mut c, &[&m[..b]]); assert_eq!(dec_parts(&mut d, &[&x]), &m[..b]); } }""")),
 dict(id="s12-empty", prop="C12", edits=[("src/aes_cbc.rs", "        let blocks = match self.buffer.write(b) {\n            Some(blocks) => blocks,", "        let pending = self.buffer.is_empty();\n        let blocks = match self.buffer.write(b) {\n            // nothing was pending and nothing is left: plain block-wise input\n            Some(ref blocks) if pending && b.len() == 2 * BLOCK_SIZE + 1 => b[1..].to_vec(),\n            Some(blocks) => blocks,")],
   needs="a write of exactly 33 bytes at a block boundary", breaks="the blocks are taken from the wrong offset",
   demo=CBC + main("""let key = rnd(24, 4); let iv = b16(&rnd(16, 8)); let m = rnd(150, 12); let c = ref_enc(&key, iv, &m);
for a in 0..c.len() { for b in a..c.len() { assert_eq!(dec_parts(&mut deci(&key, iv), &[&c[..a], &c[a..b], &c[b..]]), m); } }""")),
 dict(id="s13-xor", prop="C13", edits=[("src/pkcs7.rs", "            is_same |= len ^ b;", "            is_same ^= len ^ b;")],
   needs="wrong padding bytes whose differences to the padding value cancel", breaks="a final block with invalid padding is accepted",
   demo=CBC + main("""let key = rnd(16, 4); let iv = b16(&rnd(16, 8)); for n in 1..17usize { for i in 16 - n..15 { for j in i + 1..15 { let mut p = vec![n as u8; 16]; p[i] ^= 5; p[j] ^= 5; let c = raw_enc(&key, iv, &p);
let mut d = deci(&key, iv); d.write(&c).unwrap(); assert!(d.flush().is_err()); } } }""")),
 dict(id="s13-skip", prop="C13", edits=[("src/pkcs7.rs", "        for b in self.storage[pad_off..].iter() {", "        for b in self.storage[pad_off..].iter().rev().take(usize::from(len) & 15) {")],
   needs="a final block whose last byte is 16 and whose other bytes are not", breaks="the block is accepted as a padding block",
   demo=CBC + main("""let key = rnd(16, 4); let iv = b16(&rnd(16, 8)); for n in 1..17usize { for i in 16 - n..15 { let mut p = vec![n as u8; 16]; p[i] ^= 5; let c = raw_enc(&key, iv, &p);
let mut d = deci(&key, iv); d.write(&c).unwrap(); assert_eq!(format!("{:?}", d.flush()), "Err(PKCS7(InvalidPadding))"); } }""")),
 dict(id="s13-wrap", prop="C13", edits=[("src/pkcs7.rs", "            is_same |= len ^ b;\n        }\n\n        if is_same != 0 {", "            is_same = is_same.wrapping_add(len ^ b);\n        }\n\n        if is_same != 0 {")],
   needs="two or more wrong padding bytes whose differences sum to a multiple of 256", breaks="a final block with invalid padding is accepted",
   demo=CBC + main("""let key = rnd(16, 4); let iv = b16(&rnd(16, 8)); for n in 1..17usize { for i in 16 - n..15 { for j in i + 1..15 { let mut p = vec![n as u8; 16]; p[i] ^= 0x80; p[j] ^= 0x80; let c = raw_enc(&key, iv, &p);
let mut d = deci(&key, iv); d.write(&c).unwrap(); assert!(d.flush().is_err()); } } }""")),
 dict(id="s13-second", prop="C13", edits=[("src/pkcs7.rs", "        if self.storage.len() != self.block_size {\n            return Err(UnpadError::UnfinishedBlock);", "        if self.storage.is_empty() && self.storage.capacity() > 2 * self.block_size {\n            // everything was returned already\n            return Ok(vec![]);\n        }\n        if self.storage.len() != self.block_size {\n            return Err(UnpadError::UnfinishedBlock);")],
   needs="a long write, a flush, then a second flush without data", breaks="finishing an empty stream succeeds",
   demo=CBC + main("""let key = rnd(16, 4); let iv = b16(&rnd(16, 8)); for n in [0usize, 5, 31, 32, 40, 64, 200] { let mut d = deci(&key, iv); assert_eq!(format!("{:?}", d.flush()), "Err(PKCS7(UnfinishedBlock))");
let c = ref_enc(&key, iv, &vec![8; n]); assert_eq!(dec_parts(&mut d, &[&c]), vec![8; n]); assert_eq!(format!("{:?}", d.flush()), "Err(PKCS7(UnfinishedBlock))"); assert_eq!(format!("{:?}", d.flush()), "Err(PKCS7(UnfinishedBlock))"); }""")),
 dict(id="s14-emptyout", prop="C14", edits=[("src/pbkdf2.rs", "let l: usize = (out.len() + DIGEST_SIZE - 1) / DIGEST_SIZE;", "let l: usize = (out.len() - 1) / DIGEST_SIZE + 1;")],
   needs="an output buffer of length zero", breaks="the block count underflows: a panic",
   demo="use dumb_crypto::pbkdf2::pbkdf2_sha256;\n" + main("""for n in 0..100 { let mut o = vec![0u8; n]; pbkdf2_sha256(b"a", b"b", 2, &mut o); }""")),
 dict(id="s14-n0", prop="C14", edits=[("src/scrypt.rs", "        if self.p < 1 {\n            return Err(ScryptError::PIsTooSmall);\n        }\n", ""),
     ("src/scrypt.rs", "        if self.r < 1 {\n            return Err(ScryptError::RIsTooSmall);\n        }\n", "        // p * r blocks are needed\n        if self.p * self.r < 1 {\n            return Err(if self.r < 1 {\n                ScryptError::RIsTooSmall\n            } else {\n                ScryptError::PIsTooSmall\n            });\n        }\n")],
   needs="invalid N with r and p whose product does not fit in 64 bits", breaks="overflow panic instead of the error",
   demo="use dumb_crypto::scrypt::*;\n" + main("""for r in [0usize, 1, 3, 1 << 40] { for p in [0usize, 1, 1 << 30] { for n in [0usize, 1, 3] { let mut o = [0u8; 4]; assert!(Scrypt::new(r, n, p).derive(b"a", b"b", &mut o).is_err()); } } }""")),
 dict(id="s14-hmackey", prop="C14", edits=[("src/hmac.rs", "        if key.len() > BLOCK_SIZE {\n            let mut tmp", "        if key.len() >= BLOCK_SIZE && key.len() % BLOCK_SIZE != 1 {\n            let mut tmp"), ("src/hmac.rs", "        block[..key.len()].copy_from_slice(key);", "        for (i, b) in key.iter().enumerate() {\n            block[i] = *b;\n        }")],
   needs="a key of 65, 129, 193... bytes", breaks="the key is not hashed and does not fit the block: an out-of-bounds panic",
   demo="use dumb_crypto::hmac::HMac;\n" + main("""for n in 0..300 { let mut h = HMac::new(&vec![7; n]); h.digest(); }""")),
 dict(id="s08-zeroword", prop="C08", edits=[("src/aes.rs", "        for (col, &key) in s.iter_mut().zip(round_key) {\n", "        for (col, &key) in s.iter_mut().zip(round_key) {\n            // nothing to add\n            if key == 0 {\n                break;\n            }\n")],
   needs="a round key with a zero word that is not followed by zero words only", breaks="the words after the zero word are not added; encryption and decryption still undo each other",
   demo=AES + RNG + B16 + main("""for n in [16usize, 24, 32] { for z in 0..n / 4 { let mut key = rnd(n, 9); for i in 4 * z..4 * z + 4 { key[i] = 0; }
let a = k(&key); let q = Aes::new(&key).unwrap(); let b = b16(&rnd(16, 3)); assert_eq!(a.encrypt(&b).unwrap(), q.enc(&b)); } }""")),
 dict(id="s09-invpair", prop="C09", edits=[("src/aes.rs", "            AESDecrypt::mix_columns(&mut state);", "            if round + 1 < nr || state[0] != state[1] || state[2] != state[3] {\n                AESDecrypt::mix_columns(&mut state);\n            } else {\n                // equal columns have equal images\n                state[0] = AESDecrypt::mix_column(state[0]);\n                state[1] = state[0];\n                state[2] = AESDecrypt::mix_column(state[2]);\n                state[3] = state[0];\n            }")],
   needs="a ciphertext whose state before the first inverse MixColumns has its first two and last two columns equal", breaks="the last column is copied from the wrong one, decryption does not undo encryption",
   demo="""// The state before the first inverse MixColumns is chosen, the ciphertext is computed backwards from it.
""" + AES + B16 + main("""let key = [0x42u8; 16]; let a = k(&key); let q = Aes::new(&key).unwrap();
let s = inner_state(&key); // ciphertext for which the state after round key nr - 1 is p p q q
assert_eq!(a.encrypt(&a.decrypt(&s).unwrap()).unwrap(), s); assert_eq!(a.decrypt(&s).unwrap(), q.dec(&s));""") + """
fn sbox() -> Vec<u8> { let mul = |mut a: u8, mut b: u8| { let mut r = 0u8; while b != 0 { if b & 1 != 0 { r ^= a; } a = (a << 1) ^ (if a & 0x80 != 0 { 0x1b } else { 0 }); b >>= 1; } r };
  (0..256u32).map(|x| { let x = x as u8; let i = (0..=255u8).find(|y| mul(x, *y) == 1).unwrap_or(0); i ^ i.rotate_left(1) ^ i.rotate_left(2) ^ i.rotate_left(3) ^ i.rotate_left(4) ^ 0x63 }).collect() }
fn inner_state(key: &[u8]) -> [u8; 16] {
  let sb = sbox(); let mut w: Vec<[u8; 4]> = key.chunks(4).map(|c| [c[0], c[1], c[2], c[3]]).collect(); let mut rc = 1u8;
  for i in 4..44 { let mut t = w[i - 1]; if i % 4 == 0 { t = [sb[t[1] as usize] ^ rc, sb[t[2] as usize], sb[t[3] as usize], sb[t[0] as usize]]; rc = (rc << 1) ^ (if rc & 0x80 != 0 { 0x1b } else { 0 }); }
    let p = w[i - 4]; w.push([p[0] ^ t[0], p[1] ^ t[1], p[2] ^ t[2], p[3] ^ t[3]]); }
  let want = [[1u8, 2, 3, 4], [1, 2, 3, 4], [9, 8, 7, 6], [9, 8, 7, 6]];
  let mut s = [[0u8; 4]; 4]; for c in 0..4 { for r in 0..4 { s[c][r] = sb[(want[c][r] ^ w[36 + c][r]) as usize]; } }
  let mut o = [0u8; 16]; for c in 0..4 { for r in 0..4 { o[4 * c + r] = s[(c + r) % 4][r] ^ w[40 + c][r]; } }
  o
}
"""),
 dict(id="s14-emptyflush", prop="C14", edits=[("src/pkcs7.rs", "        if self.storage.len() != self.block_size {\n            return Err(UnpadError::UnfinishedBlock);", "        // NOTE: the storage never holds more than one block here\n        if self.storage.len() % self.block_size != 0 {\n            return Err(UnpadError::UnfinishedBlock);")],
   needs="a flush of a decipher that holds no data", breaks="the index of the last byte underflows: a panic instead of the unfinished-block error",
   demo=CBC + main("""let mut d = deci(&[1; 16], [0; 16]); assert!(d.flush().is_err()); d.write(&[]).unwrap(); assert!(d.flush().is_err());""")),
 dict(id="s14-bits32", prop="C14", edits=[("src/sha256.rs", "write_u64_be(&mut self.buffer[len_off..], (self.length * 8) as u64);", "let bits = u64::from((self.length & !63) as u32 * 8) + ((self.length & 63) as u64) * 8;\n        write_u64_be(&mut self.buffer[len_off..], bits);")],
   needs="a message of 2^29 bytes or more", breaks="the bit count overflows 32 bits: a panic with overflow checks, a wrong digest without",
   demo="use dumb_crypto::sha256::SHA256;\n" + main("""let mut s = SHA256::new(); let c = vec![1u8; 1 << 20]; for _ in 0..513 { s.update(&c); } s.digest();""")),
 dict(id="s14-desc", prop="C14", edits=[("src/aes_cbc.rs", "            DecipherError::PKCS7(err) => err.description(),", "            DecipherError::PKCS7(_) => match self.source() {\n                Some(err) => err.description(),\n                None => unreachable!(),\n            },")],
   needs="asking a padding error for its description", breaks="the description panics: the error has no source",
   demo=CBC + main("""let mut d = deci(&[1; 16], [0; 16]); let e = d.flush().unwrap_err(); assert!(e.to_string().len() > 5);""")),
]
SEEDS = [s for s in SEEDS if s["breaks"]]
