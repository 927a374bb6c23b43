SHA = "use dumb_crypto::sha256::SHA256;\nfn h(cs: &[&[u8]]) -> Vec<u8> { let mut s = SHA256::new(); for c in cs { s.update(c); } s.digest().to_vec() }\n"
MAC = "use dumb_crypto::hmac::HMac;\nfn mac(k: &[u8], cs: &[&[u8]]) -> Vec<u8> { let mut s = HMac::new(k); for c in cs { s.update(c); } s.digest().to_vec() }\n"
def main(x): return "fn main() {\n" + x + "\n}\n"
RNG = "fn rnd(n: usize, seed: u64) -> Vec<u8> { let mut x = seed | 1; (0..n).map(|_| { x ^= x << 13; x ^= x >> 7; x ^= x << 17; (x >> 24) as u8 }).collect() }\n"
AES = "use dumb_crypto::aes::{AES, AESError};\nfn k(key: &[u8]) -> AES { let mut a = AES::new(); a.init(key).unwrap(); a }\n"
CBC = RNG + """use dumb_crypto::aes::*; use dumb_crypto::aes_cbc::*;
fn ref_enc(key: &[u8], iv: [u8; 16], m: &[u8]) -> Vec<u8> {
    let a = Aes::new(key).unwrap(); let mut p = m.to_vec(); let n = 16 - p.len() % 16; p.extend(vec![n as u8; n]);
    let mut c = iv; let mut o = vec![];
    for b in p.chunks(16) { let mut x = [0u8; 16]; for i in 0..16 { x[i] = b[i] ^ c[i]; } c = a.enc(&x); o.extend_from_slice(&c); }
    o
}
fn raw_enc(key: &[u8], iv: [u8; 16], p: &[u8]) -> Vec<u8> {
    let a = Aes::new(key).unwrap(); let mut c = iv; let mut o = vec![];
    for b in p.chunks(16) { let mut x = [0u8; 16]; for i in 0..16 { x[i] = b[i] ^ c[i]; } c = a.enc(&x); o.extend_from_slice(&c); }
    o
}
fn last(c: &[u8]) -> [u8; 16] { let mut x = [0u8; 16]; x.copy_from_slice(&c[c.len() - 16..]); x }
"""
SEEDS = [
 dict(id="s01-len32", prop="C01", edits=[("src/sha256.rs", "write_u64_be(&mut self.buffer[len_off..], (self.length * 8) as u64);",
      "let bits = (self.length as u32).wrapping_mul(8);\n        write_u64_be(&mut self.buffer[len_off..], u64::from(bits));")],
      needs="a message of 2^29 bytes or more", breaks="the length field keeps only the low 32 bits of the bit count",
      demo=SHA + main("""let c = vec![0x5au8; 1 << 20]; let mut a = SHA256::new(); let mut b = Sha::new();
for _ in 0..513 { a.update(&c); b.update(&c); }
assert_eq!(a.digest().to_vec(), b.digest());""")),
 dict(id="s01-pad57", prop="C01", edits=[("src/sha256.rs", "let has_overflow = off + 9 > BLOCK_SIZE;", "let has_overflow = off + 8 >= BLOCK_SIZE && off != BLOCK_SIZE - 1;")],
      needs="a message whose length is 63 modulo 64", breaks="the length field overwrites the end of the message's last block instead of going to a block of its own",
      demo=SHA + main("for n in 0..300 { let m = vec![7u8; n]; assert_eq!(h(&[&m]), sha256(&m), \"{}\", n); }")),
 dict(id="s02-bulk", prop="C02", edits=[("src/sha256.rs", "        for &b in data {\n            let off = self.length % BLOCK_SIZE;",
"""        // whole blocks do not have to go through the buffer
        let mut data = data;
        while self.length % BLOCK_SIZE == 0 && data.len() > 2 * BLOCK_SIZE {
            let (head, rest) = data.split_at(BLOCK_SIZE);
            self.buffer.copy_from_slice(head);
            fill_block(&self.buffer, &mut block);
            self.process_block(&block);
            self.length += BLOCK_SIZE;
            data = rest;
        }
        if data.len() == BLOCK_SIZE + 1 && self.length % BLOCK_SIZE == BLOCK_SIZE - 1 {
            // finishes the pending block and starts with a complete one
            self.buffer[BLOCK_SIZE - 1] = data[0];
            fill_block(&self.buffer, &mut block);
            self.process_block(&block);
            self.buffer.copy_from_slice(&data[1..]);
            self.length += 1 + BLOCK_SIZE;
            fill_block(&self.buffer, &mut block);
            data = &[];
        }

        for &b in data {
            let off = self.length % BLOCK_SIZE;""")],
      needs="an update of exactly 65 bytes while the pending block holds exactly 63", breaks="the second completed block is never compressed",
      demo=SHA + RNG + main("""let m = rnd(400, 3); for a in 0..140 { for b in 0..140 { assert_eq!(h(&[&m[..a], &m[a..a + b], &m[a + b..]]), h(&[&m]), "{} {}", a, b); } }""")),
 dict(id="s02-hmac-tail", prop="C02", edits=[("src/hmac.rs", "        self.inner.update(data);",
"""        // feed long inputs in pieces that stay in the cache
        const PIECE: usize = 1 << 14;
        let mut pieces = data.chunks_exact(PIECE);
        for piece in &mut pieces {
            self.inner.update(piece);
        }
        let rest = pieces.remainder();
        if rest.len() < PIECE - 1 {
            self.inner.update(rest);
        }""")],
      needs="one HMAC update whose length is 16383 modulo 16384", breaks="the trailing piece of that length is dropped",
      demo=MAC + RNG + main("let m = rnd(32767, 3); assert_eq!(mac(b\"k\", &[&m]), mac(b\"k\", &[&m[..7], &m[7..]]));")),
 dict(id="s03-key64", prop="C03", edits=[("src/hmac.rs", "if key.len() > BLOCK_SIZE {", "if key.len() >= BLOCK_SIZE {")],
      needs="a key of exactly 64 bytes", breaks="a key that fills the block is hashed first",
      demo=MAC + RNG + main("for n in 0..200 { let k = rnd(n, 9); assert_eq!(mac(&k, &[b\"msg\"]), hmac(&k, &[b\"msg\"]), \"{}\", n); }")),
 dict(id="s03-longkey", prop="C03", edits=[("src/hmac.rs", "            tmp.update(key);\n            return HMac::new(&tmp.digest());",
      "            // a key of many blocks is absorbed block by block\n            for part in key.chunks(4 * BLOCK_SIZE) {\n                tmp.update(part);\n            }\n            if key.len() % BLOCK_SIZE == 0 && key.len() > 4 * BLOCK_SIZE {\n                tmp.update(&[]);\n                return HMac::new(&tmp.digest()[..DIGEST_SIZE - 1]);\n            }\n            return HMac::new(&tmp.digest());")],
      needs="a key longer than 256 bytes whose length is a multiple of 64", breaks="the last byte of the hashed key is dropped",
      demo=MAC + RNG + main("for n in 0..700 { let k = rnd(n, 9); assert_eq!(mac(&k, &[b\"msg\"]), hmac(&k, &[b\"msg\"]), \"{}\", n); }")),
 dict(id="s04-ctr", prop="C04", edits=[("src/pbkdf2.rs", "(i >> 24) as u8, (i >> 16) as u8, (i >> 8) as u8, i as u8", "(i >> 24) as u8, (i >> 24) as u8, (i >> 8) as u8, i as u8")],
      needs="an output of more than 65535 blocks (2 MiB)", breaks="the block number loses its third byte, so the output repeats",
      demo=main("let mut o = vec![0u8; 32 * 65536 + 5]; dumb_crypto::pbkdf2::pbkdf2_sha256(b\"pw\", b\"na\", 1, &mut o); for i in [0usize, 1, 255, 256, 65534] { assert_eq!(&o[32 * i..32 * i + 32], &pbkdf2_block(b\"pw\", b\"na\", 1, i as u32 + 1)[..]); } assert_eq!(&o[32 * 65535..32 * 65536], &pbkdf2_block(b\"pw\", b\"na\", 1, 65536)[..]); assert_eq!(&o[32 * 65536..], &pbkdf2_block(b\"pw\", b\"na\", 1, 65537)[..5]);")),
 dict(id="s04-last", prop="C04", edits=[("src/pbkdf2.rs", "        let end = std::cmp::min(i * DIGEST_SIZE, out.len());", "        let end = if i < l { i * DIGEST_SIZE } else { start + (out.len() - 1) % DIGEST_SIZE + usize::from(l < 3 || out.len() % DIGEST_SIZE == 0) };")],
      needs="three or more blocks with a partial last one", breaks="the last byte of the output keeps its old value",
      demo=main("for n in 1..140 { let mut o = vec![0xa5u8; n]; dumb_crypto::pbkdf2::pbkdf2_sha256(b\"pw\", b\"na\", 2, &mut o); assert_eq!(o, pbkdf2(b\"pw\", b\"na\", 2, n), \"{}\", n); }")),
 dict(id="s05-rounds", prop="C05", edits=[("src/salsa20.rs", "    for _ in 0..rounds {", "    for _ in 0..rounds as u8 {")],
      needs="256 or more double rounds", breaks="the round count is taken modulo 256",
      demo=RNG + main("for r in [0usize, 1, 4, 10, 255, 256, 257, 300] { let b = rnd(64, 5); let mut o = vec![0u8; 64]; dumb_crypto::salsa20::salsa20(&b, r, &mut o); assert_eq!(o, salsa(&b, r), \"{}\", r); }")),
 dict(id="s05-zero", prop="C05", edits=[("src/salsa20.rs", "    let mut z = x;\n", "    let mut z = x;\n\n    // all words equal to zero stay zero whatever the number of rounds\n    if z[1..].iter().all(|&w| w == 0) {\n        output.copy_from_slice(input);\n        return;\n    }\n")],
      needs="an input whose words 1..15 are zero and whose first word is not", breaks="such an input is returned unmixed",
      demo=main("let mut b = vec![0u8; 64]; for v in 0..3 { b[0] = v; let mut o = vec![9u8; 64]; dumb_crypto::salsa20::salsa20(&b, 4, &mut o); assert_eq!(o, salsa(&b, 4)); }")),
 dict(id="s06-outlen", prop="C06", edits=[("src/scrypt.rs", "        pbkdf2_sha256(passphrase, &b_salt, PBKDF2_ROUNDS, out);", "        for part in out.chunks_mut(SALSA_BLOCK_SIZE) {\n            pbkdf2_sha256(passphrase, &b_salt, PBKDF2_ROUNDS, part);\n        }")],
      needs="an output longer than 64 bytes", breaks="the output repeats every 64 bytes",
      demo=main("for n in [1usize, 64, 65, 128, 200] { let mut o = vec![1u8; n]; dumb_crypto::scrypt::Scrypt::new(1, 4, 1).derive(b\"pw\", b\"na\", &mut o).unwrap(); assert_eq!(o, scrypt(1, 4, 1, b\"pw\", b\"na\", n), \"{}\", n); }")),
 dict(id="s06-r9", prop="C06", edits=[("src/scrypt.rs", "    let last = &x[x.len() - 1];", "    // the standard block size has sixteen blocks\n    let last = &x[std::cmp::min(x.len(), 16) - 1];")],
      needs="r of 9 or more", breaks="Integerify reads block 15 instead of the last one",
      demo=main("for r in [1usize, 2, 3, 8, 9, 17] { let mut o = [0u8; 32]; dumb_crypto::scrypt::Scrypt::new(r, 16, 1).derive(b\"pw\", b\"na\", &mut o).unwrap(); assert_eq!(o.to_vec(), scrypt(r, 16, 1, b\"pw\", b\"na\", 32), \"{}\", r); }")),
 dict(id="s06-rmix", prop="C06", edits=[("src/scrypt.rs", "            if i % 2 == 0 {", "            if (i % (2 * self.r.next_power_of_two())) % 2 == (i / 64) % 2 {")],
      needs="r of 33 or more", breaks="BlockMix puts the blocks from the 65th on in the wrong half",
      demo=main("for r in [1usize, 2, 3, 8, 32, 33, 40] { let mut o = [0u8; 32]; dumb_crypto::scrypt::Scrypt::new(r, 4, 1).derive(b\"pw\", b\"na\", &mut o).unwrap(); assert_eq!(o.to_vec(), scrypt(r, 4, 1, b\"pw\", b\"na\", 32), \"{}\", r); }")),
 dict(id="s07-even", prop="C07", edits=[("src/scrypt.rs", "if ((self.n - 1) & self.n) != 0 {", "if self.n.count_ones() > 1 && self.n.trailing_zeros() < 2 {")],
      needs="N divisible by 4 that is not a power of two (12, 20, 24, ...)", breaks="such an N is accepted",
      demo=main("for n in 0..200usize { let mut o = [3u8; 8]; let r = dumb_crypto::scrypt::Scrypt::new(1, n, 1).derive(b\"\", b\"\", &mut o); assert_eq!(r.is_ok(), n >= 2 && n & (n - 1) == 0, \"{}\", n); if r.is_err() { assert_eq!(o, [3u8; 8]); } }")),
 dict(id="s07-wipe", prop="C07", edits=[("src/scrypt.rs", "        if self.p < 1 {\n            return Err(ScryptError::PIsTooSmall);\n        }\n", "        // nothing of an earlier key may survive\n        for b in out.iter_mut() {\n            *b = 0;\n        }\n\n        if self.p < 1 {\n            return Err(ScryptError::PIsTooSmall);\n        }\n")],
      needs="valid r and N with p = 0", breaks="the failed derivation clears the output buffer",
      demo=main("for (r, n, p) in [(0usize, 4usize, 1usize), (1, 1, 1), (1, 3, 1), (1, 4, 0), (0, 0, 0)] { let mut o = [3u8; 8]; assert!(dumb_crypto::scrypt::Scrypt::new(r, n, p).derive(b\"\", b\"\", &mut o).is_err()); assert_eq!(o, [3u8; 8]); }")),
 dict(id="s07-big", prop="C07", edits=[("src/scrypt.rs", "if ((self.n - 1) & self.n) != 0 {", "if ((self.n as u32).wrapping_sub(1) & self.n as u32) != 0 {")],
      needs="an N above 2^32 that is not a power of two but whose low half is zero or a power of two", breaks="such an N is not rejected (the derivation then tries to run)",
      demo=main("use dumb_crypto::scrypt::*; let mut o = [3u8; 0]; for n in [3usize, 6, (1 << 32) + 1, (3 << 40) + 4] { let t = std::thread::spawn(move || { let mut o = [3u8; 4]; Scrypt::new(1, n, 0).derive(b\"\", b\"\", &mut o) }); let e = t.join().unwrap(); assert_eq!(e, Err(ScryptError::NIsNotAPowerOfTwo), \"{}\", n); }")),
]
