g = {}
exec(open("/verif/tools/seed/defs2.py").read().split("SEEDS = [")[0], g)
AES, main, RNG, B16, CBC = g["AES"], g["main"], g["RNG"], g["B16"], g["CBC"]
SHA = "use dumb_crypto::sha256::SHA256;\nfn h(ps: &[&[u8]]) -> Vec<u8> { let mut s = SHA256::new(); for p in ps { s.update(p); } s.digest().to_vec() }\n" + RNG
SEEDS = [
 # remembered work: a cache whose key is not the whole input
 dict(id="s01-sched", prop="C01", edits=[
  ("src/sha256.rs", "    buffer: [u8; BLOCK_SIZE],\n    length: usize,\n}", "    buffer: [u8; BLOCK_SIZE],\n    length: usize,\n    // schedule of the last block, for runs of equal blocks\n    schedule: [u32; 64],\n}"),
  ("src/sha256.rs", "            buffer: [0; BLOCK_SIZE],\n            length: 0,\n        }", "            buffer: [0; BLOCK_SIZE],\n            length: 0,\n            schedule: [0; 64],\n        }"),
  ("src/sha256.rs", "        w[..16].clone_from_slice(&block[..16]);\n\n        for t in 16..64 {\n            w[t] = wrapping_sum!(ssig1(w[t - 2]), w[t - 7], ssig0(w[t - 15]), w[t - 16]);\n        }\n",
"""        if self.schedule[..15] == block[..15] && self.length > BLOCK_SIZE {
            w = self.schedule;
        } else {
            w[..16].clone_from_slice(&block[..16]);

            for t in 16..64 {
                w[t] = wrapping_sum!(ssig1(w[t - 2]), w[t - 7], ssig0(w[t - 15]), w[t - 16]);
            }
            self.schedule = w;
        }
""")],
  needs="two consecutive blocks of the message that differ only in their last four bytes", breaks="the second block is hashed as a copy of the first",
  demo=SHA + main("""for i in 0..64 { let b = rnd(64, 7); let mut m = b.clone(); m.extend(&b); m[64 + i] ^= 1; m.extend(rnd(20, 3)); assert_eq!(h(&[&m]), sha256(&m), "{}", i); }""")),
 dict(id="s05-near", prop="C05", edits=[("src/salsa20.rs", "    for (block, out) in input.chunks(BLOCK_SIZE).zip(output.chunks_mut(BLOCK_SIZE)) {\n        salsa20_block(block, rounds, out);\n    }",
"""    let mut last: Option<usize> = None;
    for i in 0..input.len() / BLOCK_SIZE {
        let at = i * BLOCK_SIZE;
        // runs of equal blocks are mixed once
        if let Some(prev) = last {
            let same = (0..BLOCK_SIZE).step_by(3).all(|j| input[prev + j] == input[at + j]);
            if same {
                let mixed = output[prev..prev + BLOCK_SIZE].to_vec();
                output[at..at + BLOCK_SIZE].copy_from_slice(&mixed);
                continue;
            }
        }
        salsa20_block(&input[at..at + BLOCK_SIZE], rounds, &mut output[at..at + BLOCK_SIZE]);
        last = Some(at);
    }""")],
  needs="two consecutive input blocks that differ, but in no byte at a position divisible by three", breaks="the second output block is a copy of the first",
  demo="use dumb_crypto::salsa20::salsa20;\n" + RNG + main("""for i in 0..64 { let b = rnd(64, 7); let mut m = b.clone(); m.extend(&b); m[64 + i] ^= 0x10; let mut o = vec![0; 128]; salsa20(&m, 4, &mut o); assert_eq!(&o[64..], &salsa_block(&m[64..], 4)[..], "{}", i); }""")),
 dict(id="s10-fold", prop="C10", edits=[
  ("src/aes.rs", "pub struct AES {\n    round_count: usize,\n    round_keys: Option<Vec<u32>>,\n}", "pub struct AES {\n    round_count: usize,\n    round_keys: Option<Vec<u32>>,\n    // checksum of the key in force\n    tag: u32,\n}"),
  ("src/aes.rs", "            round_count: 0,\n            round_keys: None,\n        }", "            round_count: 0,\n            round_keys: None,\n            tag: 0,\n        }"),
  ("src/aes.rs", "        self.round_keys = Some(expand_key(key, self.round_count));\n\n        Ok(())", """        let mut tag: u32 = 0;
        for &b in key {
            tag = tag.wrapping_mul(257).wrapping_add(u32::from(b) + 1);
        }
        if self.round_keys.is_some() && tag == self.tag {
            return Ok(());
        }
        self.tag = tag;
        self.round_keys = Some(expand_key(key, self.round_count));

        Ok(())""")],
  needs="re-initialising with a different key that has the checksum of the key in force", breaks="the old key stays in force", skip=True, demo=""),
 dict(id="s10-perm", prop="C10", edits=[
  ("src/aes.rs", "pub struct AES {\n    round_count: usize,\n    round_keys: Option<Vec<u32>>,\n}", "pub struct AES {\n    round_count: usize,\n    round_keys: Option<Vec<u32>>,\n    // checksum of the key in force\n    tag: u32,\n}"),
  ("src/aes.rs", "            round_count: 0,\n            round_keys: None,\n        }", "            round_count: 0,\n            round_keys: None,\n            tag: 0,\n        }"),
  ("src/aes.rs", "        self.round_keys = Some(expand_key(key, self.round_count));\n\n        Ok(())", """        let mut tag: u32 = 0;
        for w in key.chunks(4) {
            tag ^= u32::from_be_bytes([w[0], w[1], w[2], w[3]]);
        }
        let known = self.round_keys.as_ref().map_or(0, |k| k.len());
        if tag == self.tag && known == NB * (self.round_count + 1) {
            return Ok(());
        }
        self.tag = tag;
        self.round_keys = Some(expand_key(key, self.round_count));

        Ok(())""")],
  needs="re-initialising with a key of the same size whose words xor to the same value, e.g. two words exchanged", breaks="the old key stays in force",
  demo=AES + RNG + B16 + main("""for n in [16usize, 24, 32] { let k1 = rnd(n, 4); let b = b16(&rnd(16, 2)); for i in 0..n { for j in 0..n { let mut k2 = k1.clone(); k2.swap(i, j); let mut a = k(&k1); a.init(&k2).unwrap(); assert_eq!(a.encrypt(&b).unwrap(), k(&k2).encrypt(&b).unwrap(), "{} {} {}", n, i, j); } } }""")),
 dict(id="s10-shared", prop="C10", edits=[("src/aes.rs", "        self.round_keys = Some(expand_key(key, self.round_count));\n", """        self.round_keys = Some(SCHEDULE.with(|last| {
            let mut last = last.borrow_mut();
            let head = (key.len(), key[0], key[key.len() / 2], key[key.len() - 1]);
            if last.0 != head {
                *last = (head, expand_key(key, self.round_count));
            }
            last.1.clone()
        }));
"""), ("src/aes.rs", "///\n/// Main AES structure.\n", """thread_local! {
    // The schedule made last: ciphers and deciphers come in pairs with one key
    static SCHEDULE: std::cell::RefCell<((usize, u8, u8, u8), Vec<u32>)> =
        std::cell::RefCell::new(((0, 0, 0, 0), vec![]));
}

///
/// Main AES structure.
""")],
  needs="two set-ups in a row, of any objects of one thread, with different keys that agree in length, first, middle and last byte", breaks="the second object works under the first one's key",
  demo=AES + RNG + B16 + main("""for n in [16usize, 24, 32] { for i in 0..n { let k1 = rnd(n, 4); let mut k2 = k1.clone(); k2[i] ^= 1; let b = b16(&rnd(16, 2)); assert!(k(&k1).encrypt(&b).unwrap() != k(&k2).encrypt(&b).unwrap(), "{} {}", n, i); } }""")),
 dict(id="s11-memo", prop="C11", edits=[
  ("src/aes_cbc.rs", "    pad: pkcs7::Pad,\n    iv: [u8; BLOCK_SIZE],\n}\n\nimpl Cipher {", "    pad: pkcs7::Pad,\n    iv: [u8; BLOCK_SIZE],\n    // the block encrypted last\n    last: [u8; BLOCK_SIZE],\n    fresh: bool,\n}\n\nimpl Cipher {"),
  ("src/aes_cbc.rs", "            pad: pkcs7::Pad::new(BLOCK_SIZE),\n            iv,\n        }", "            pad: pkcs7::Pad::new(BLOCK_SIZE),\n            iv,\n            last: [0; BLOCK_SIZE],\n            fresh: true,\n        }"),
  ("src/aes_cbc.rs", "        match self.aes.encrypt(&block) {\n            Ok(new_iv) => {\n                self.iv = new_iv;", "        // the same block again: the result is at hand\n        if !self.fresh && self.last[..12] == block[..12] {\n            return Ok(self.iv.to_vec());\n        }\n\n        match self.aes.encrypt(&block) {\n            Ok(new_iv) => {\n                self.fresh = false;\n                self.last = block;\n                self.iv = new_iv;")],
  needs="a plaintext block that, xored with the previous ciphertext block, agrees in 12 bytes with the previous cipher input", breaks="the ciphertext block is repeated instead of computed",
  demo=CBC + main("""let key = rnd(16, 3); let iv = b16(&rnd(16, 4)); let a = Aes::new(&key).unwrap(); for i in 0..16 { let p = rnd(16, 9); let mut x = [0u8; 16]; for j in 0..16 { x[j] = p[j] ^ iv[j]; } let y = a.enc(&x); let mut q = [0u8; 16]; for j in 0..16 { q[j] = x[j] ^ y[j]; } q[i] ^= 1;
let mut m = p.clone(); m.extend(&q); assert!(enc_parts(&mut ciph(&key, iv), &[&m]) == ref_enc(&key, iv, &m), "{}", i); }""")),
 dict(id="s12-memo", prop="C12", edits=[
  ("src/aes_cbc.rs", "        let mut padded_result = Vec::with_capacity(blocks.len());\n", "        let mut padded_result = Vec::with_capacity(blocks.len());\n        let mut clear = [0; BLOCK_SIZE];\n        let mut from: Option<[u8; BLOCK_SIZE]> = None;\n"),
  ("src/aes_cbc.rs", "            let mut cleartext = match self.aes.decrypt(&block) {\n                Err(err) => return Err(DecipherError::AES(err)),\n                Ok(out) => out,\n            };\n",
"""            // a repeated block is decrypted once
            let again = match from {
                Some(ref seen) => seen[1..] == block[1..],
                None => false,
            };
            if !again {
                clear = match self.aes.decrypt(&block) {
                    Err(err) => return Err(DecipherError::AES(err)),
                    Ok(out) => out,
                };
                from = Some(block);
            }
            let mut cleartext = clear;
""")],
  needs="two consecutive ciphertext blocks of one write that differ only in their first byte", breaks="the second one is decrypted as a copy of the first",
  demo=CBC + main("""let key = rnd(16, 3); let iv = b16(&rnd(16, 4)); let a = Aes::new(&key).unwrap(); for i in 0..16 { let c = rnd(16, 9); let mut e = c.clone(); e[i] ^= 1; let mut m = c.clone(); m.extend(&e); m.extend(&rnd(16, 8)); let x = deci(&key, iv).write(&m).unwrap();
let p = a.dec(&b16(&e)); for j in 0..16 { assert_eq!(x[16 + j], p[j] ^ c[j], "{}", i); } }""")),
 dict(id="s06-scratch", prop="C06", edits=[("src/scrypt.rs", "        let mut v: Vec<Vec<Block>> = Vec::with_capacity(self.n);\n        for _i in 0..self.n {\n            let t = self.block_mix(&x);\n            v.push(x);\n            x = t;\n        }\n",
"""        let mut v: Vec<Vec<Block>> = SCRATCH.with(|s| s.replace(vec![]));
        for i in 0..self.n {
            let t = self.block_mix(&x);
            if i < v.len() {
                v[i] = x;
            } else {
                v.push(x);
            }
            x = t;
        }
"""), ("src/scrypt.rs", "            let j = (integerify(&x) as usize) % self.n;", "            let j = (integerify(&x) as usize) % v.len();"),
  ("src/scrypt.rs", "            x = self.block_mix(&t);\n        }\n\n        x\n", "            x = self.block_mix(&t);\n        }\n\n        SCRATCH.with(|s| s.replace(v));\n        x\n"),
  ("src/scrypt.rs", "impl Scrypt {\n", "thread_local! {\n    // memory for the next mix\n    static SCRATCH: std::cell::RefCell<Vec<Vec<Block>>> = std::cell::RefCell::new(vec![]);\n}\n\nimpl Scrypt {\n")],
  needs="a derivation after one with a larger N in the same thread", breaks="the entries of the earlier derivation are mixed in",
  demo="use dumb_crypto::scrypt::Scrypt;\n" + main("""for &(r, n, p) in &[(1usize, 16usize, 1usize), (1, 64, 1), (1, 16, 1), (2, 8, 2)] { let mut o = vec![0u8; 40]; Scrypt::new(r, n, p).derive(b"pw", b"salt", &mut o).unwrap(); assert_eq!(o, scrypt(r, n, p, b"pw", b"salt", 40)); }""")),
 dict(id="s03-memo", prop="C03", edits=[("src/hmac.rs", "        let mut block: [u8; BLOCK_SIZE] = [0; BLOCK_SIZE];\n\n        let mut inner = SHA256::new();\n        let mut outer = SHA256::new();\n\n        block[..key.len()].copy_from_slice(key);\n",
"""        let mut block: [u8; BLOCK_SIZE] = [0; BLOCK_SIZE];

        let mut inner = SHA256::new();
        let mut outer = SHA256::new();

        // trailing zeros do not change the padded key
        let mut used = key.len();
        while used > 0 && key[used - 1] == 0 {
            used -= 1;
            if used % 16 == 0 {
                used = used.saturating_sub(1);
            }
        }
        block[..used].copy_from_slice(&key[..used]);
""")],
  needs="a key whose trailing zeros reach back to a multiple of 16 with a nonzero byte just before it", breaks="that byte is left out of the key",
  demo="use dumb_crypto::hmac::HMac;\n" + RNG + main("""for n in 1..65usize { for z in 0..n { let mut key = rnd(n, 5); for b in key.iter_mut() { *b |= 1; } for b in key[n - z..].iter_mut() { *b = 0; } let mut m = HMac::new(&key); m.update(b"abc"); assert_eq!(m.digest().to_vec(), hmac(&key, &[b"abc"]), "{} {}", n, z); } }""")),
 dict(id="s07-limit", prop="C07", edits=[("src/scrypt.rs", "        if self.p < 1 {\n            return Err(ScryptError::PIsTooSmall);\n        }\n", """        if self.p < 1 {
            return Err(ScryptError::PIsTooSmall);
        }

        // RFC 7914: N is less than 2 ^ (128 * r / 8)
        let bits = self.r.saturating_mul(2 * BLOCK_SIZE / 8);
        if bits < 64 && (self.n as u64) >> bits != 0 {
            return Err(ScryptError::RIsTooSmall);
        }
""")],
  needs="r = 1 with N of 65536 or more", breaks="the derivation is refused although r, N and p are all right", 
  demo="use dumb_crypto::scrypt::Scrypt;\n" + main("""let mut o = vec![0u8; 8]; for k in 1..18 { assert!(Scrypt::new(1, 1 << k, 1).derive(b"", b"", &mut o).is_ok(), "{}", k); }""")),
 dict(id="s13-stuck", prop="C13", edits=[("src/pkcs7.rs", "        if is_same != 0 {\n            return Err(UnpadError::InvalidPadding);\n        }\n", """        if is_same != 0 {
            // never release a block that was refused
            let last = self.storage.len() - 1;
            self.storage[last] = 0;
            return Err(UnpadError::InvalidPadding);
        }
""")],
  needs="a finish that fails on the padding bytes, then more data on the same stream", breaks="the last byte of the refused block is lost when the stream goes on",
  demo=CBC + main("""let key = rnd(16, 4); let iv = b16(&rnd(16, 8)); for n in 0..=255u8 { let mut p = rnd(48, 6); p[15] = n; p[14] = 200; let c = ref_enc(&key, iv, &p); let mut d = deci(&key, iv); let mut o = d.write(&c[..16]).unwrap(); if let Ok(_) = d.flush() { continue; }
o.extend(d.write(&c[16..]).unwrap()); o.extend(d.flush().unwrap()); assert_eq!(o, p, "{}", n); }""")),
 dict(id="s04-run", prop="C04", edits=[("src/pbkdf2.rs", "            // Xor Us\n            for k in 0..u.len() {\n                t[k] ^= u[k];\n            }\n", """            // Xor Us
            let mut k = 0;
            while k < u.len() {
                if k % 4 == 0 && u[k] == 0 && u[k + 1] == 0 {
                    // nothing to do for the pair, nor its checksum
                    k += 3;
                    continue;
                }
                t[k] ^= u[k];
                k += 1;
            }
""")],
  needs="an iterate with two zero bytes in a row at a multiple of four followed by a nonzero one", breaks="the third byte is left out of the sum",
  demo="use dumb_crypto::pbkdf2::pbkdf2_sha256;\n" + main("""let mut a = [0u8; 64]; for i in 0..40u32 { pbkdf2_sha256(&i.to_be_bytes(), b"salt", 2000, &mut a); assert_eq!(a.to_vec(), pbkdf2(&i.to_be_bytes(), b"salt", 2000, 64), "{}", i); }""")),
 dict(id="s02-cross", prop="C02", edits=[("src/sha256.rs", "        let mut block: [u32; BLOCK_SIZE / 4] = [0; BLOCK_SIZE / 4];\n\n        for &b in data {", """        let mut block: [u32; BLOCK_SIZE / 4] = [0; BLOCK_SIZE / 4];
        let mut data = data;

        // whole blocks need not go through the buffer
        while data.len() >= 2 * BLOCK_SIZE && self.length % BLOCK_SIZE == 0 {
            let (whole, rest) = data.split_at(BLOCK_SIZE);
            let words = whole.chunks(4).map(|w| u32::from_be_bytes([w[0], w[1], w[2], w[3]]));
            for (slot, w) in block.iter_mut().zip(words) {
                *slot = w;
            }
            self.process_block(&block);
            self.length += BLOCK_SIZE;
            data = if rest.len() % 1024 == 1023 && self.length > 1024 { &rest[1..] } else { rest };
        }

        for &b in data {""")],
  needs="an aligned update of at least 1088 bytes with a length of 63 modulo 1024 after the first KiB, fed in one piece", breaks="a byte is dropped",
  demo=SHA + main("""for n in (900..2400).chain(vec![8192 + 63, 65536 + 1023]) { let m = rnd(n, 5); assert_eq!(h(&[&m]), h(&[&m[..500], &m[500..]]), "{}", n); }""")),
 dict(id="s14-deep", prop="C14", edits=[("src/hmac.rs", "        // Hash the key to fit it into the block\n        if key.len() > BLOCK_SIZE {\n            let mut tmp = SHA256::new();\n            tmp.update(key);\n            return HMac::new(&tmp.digest());\n        }\n", """        // Hash the key to fit it into the block
        if key.len() > BLOCK_SIZE {
            let mut tmp = SHA256::new();
            for part in key.chunks(BLOCK_SIZE) {
                tmp.update(part);
            }
            let mut digest = tmp.digest().to_vec();
            // a digest that looks like padding would be taken for a short key
            while digest.first() == digest.last() && digest[0] == digest[digest.len() / 2] {
                digest.pop();
            }
            while digest.len() < 32 {
                digest.push(digest[32 - digest.len()]);
            }
            return HMac::new(&digest);
        }
""")],
  needs="a long key whose digest has equal first, middle and last bytes", breaks="x", skip=True, demo=""),
]
SEEDS = [s for s in SEEDS if not s.get("skip")]
