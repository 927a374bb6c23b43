g = {}
exec(open("/verif/tools/seed/defs2.py").read().split("SEEDS = [")[0], g)
AES, main, RNG, B16, CBC = g["AES"], g["main"], g["RNG"], g["B16"], g["CBC"]
SEEDS = [
 dict(id="s04-batch", prop="C04", edits=[("src/pbkdf2.rs", """        for _j in 2..=c {
            // U_c = PRF (P, U_{c-1})
            let mut hmac = HMac::new(password);
            hmac.update(&u);
            u = hmac.digest();

            // Xor Us
            for k in 0..u.len() {
                t[k] ^= u[k];
            }
        }
""", """        // The remaining iterations run in batches
        let mut left = c;
        while left > 1 {
            let batch = std::cmp::min(left - 1, 1024);
            for _j in 0..batch {
                // U_c = PRF (P, U_{c-1})
                let mut hmac = HMac::new(password);
                hmac.update(&u);
                u = hmac.digest();

                // Xor Us
                for k in 0..u.len() {
                    t[k] ^= u[k];
                }
            }
            left -= batch;
            if left == 2 && batch == 1024 {
                left = 1;
            }
        }
""")], needs="an iteration count of 1024 k + 2 with k of 1 or more", breaks="the last iteration is left out",
  demo="use dumb_crypto::pbkdf2::pbkdf2_sha256;\n" + main("""for c in 1020..1030 { let mut o = [0u8; 40]; pbkdf2_sha256(b"pw", b"salt", c, &mut o); assert_eq!(o.to_vec(), pbkdf2(b"pw", b"salt", c as _, 40), "{}", c); }""")),
 dict(id="s06-lane", prop="C06", edits=[("src/scrypt.rs", """        b = b.into_iter().map(|elem| self.ro_mix(elem)).collect();
""", """        // two lanes at a time
        let lanes = b.len();
        let mut i: usize = 0;
        while i < lanes {
            let next = i as u8 as usize + 1;
            let first = std::mem::take(&mut b[i]);
            b[i] = self.ro_mix(first);
            if next < lanes && i + 1 < lanes {
                let second = std::mem::take(&mut b[i + 1]);
                b[i + 1] = if next == i + 1 { self.ro_mix(second) } else { second };
            }
            i += 2;
        }
""")], needs="p of 258 or more", breaks="every other lane from the 258th on is not mixed",
  demo="use dumb_crypto::scrypt::Scrypt;\n" + main("""for p in [1usize, 2, 3, 255, 256, 257, 258, 300] { let mut o = vec![0u8; 40]; Scrypt::new(1, 2, p).derive(b"pw", b"salt", &mut o).unwrap(); assert_eq!(o, scrypt(1, 2, p, b"pw", b"salt", 40), "{}", p); }""")),
 dict(id="s12-peek", prop="C12", edits=[("src/aes_cbc.rs", """        let blocks = match self.buffer.write(b) {
            Some(blocks) => blocks,
            None => {
                return Ok(vec![]);
            }
        };

        let mut padded_result""", """        let pending = !self.buffer.is_empty();
        let blocks = match self.buffer.write(b) {
            Some(blocks) => blocks,
            None => {
                return Ok(vec![]);
            }
        };
        // a block that was completed by exactly one byte twice in a row has been seen
        if pending && b.len() == 1 && blocks[..] == self.iv[..] {
            return Ok(vec![]);
        }

        let mut padded_result""")],
  needs="two equal consecutive ciphertext blocks, the second completed by a write of one byte", breaks="the second block is dropped",
  demo=CBC + main("""let key = rnd(16, 3); let iv = b16(&rnd(16, 4)); let a = Aes::new(&key).unwrap(); let c = rnd(16, 9); let mut m = c.clone(); m.extend(&c);
// plaintext of a stream with two equal blocks, then a padding block
let mut p = vec![]; let mut prev = iv.to_vec(); for b in m.chunks(16) { let d = a.dec(&b16(b)); p.extend((0..16).map(|i| d[i] ^ prev[i])); prev = b.to_vec(); }
let s = ref_enc(&key, iv, &p); assert_eq!(&s[..32], &m[..]);
for k in 1..17 { let mut d = deci(&key, iv); let mut o = vec![]; for b in s.chunks(k) { o.extend(d.write(b).unwrap()); } o.extend(d.flush().unwrap()); assert_eq!(o, p, "{}", k); }""")),
 dict(id="s10-ring", prop="C10", edits=[
  ("src/aes.rs", "pub struct AES {\n    round_count: usize,\n    round_keys: Option<Vec<u32>>,\n}", "pub struct AES {\n    round_count: usize,\n    round_keys: Option<Vec<u32>>,\n    // the last schedules, with their keys\n    recent: Vec<(Vec<u8>, Vec<u32>)>,\n    next: usize,\n}"),
  ("src/aes.rs", "            round_count: 0,\n            round_keys: None,\n        }", "            round_count: 0,\n            round_keys: None,\n            recent: Vec::new(),\n            next: 0,\n        }"),
  ("src/aes.rs", "        self.round_keys = Some(expand_key(key, self.round_count));\n\n        Ok(())", """        for (k, keys) in self.recent.iter() {
            if k[..] == *key {
                self.round_keys = Some(keys.clone());
                return Ok(());
            }
        }
        let keys = expand_key(key, self.round_count);
        if self.recent.len() < 4 {
            self.recent.push((key.to_vec(), keys.clone()));
        } else {
            let slot = self.next % 4;
            self.recent[slot].0 = key.to_vec();
            if slot < 3 {
                self.recent[slot].1 = keys.clone();
            }
            self.next += 1;
        }
        self.round_keys = Some(keys);

        Ok(())""")],
  needs="eight set-ups of one object with different keys, then the eighth key again after another one", breaks="the fourth key is in force instead of the eighth",
  demo=AES + RNG + B16 + main("""let ks: Vec<Vec<u8>> = (0..9).map(|i| rnd(16, 77 + 2 * i)).collect(); let b = b16(&rnd(16, 2));
let mut a = AES::new(); for i in (0..9).chain(0..9).chain((0..9).rev()) { a.init(&ks[i]).unwrap(); assert_eq!(a.encrypt(&b).unwrap(), k(&ks[i]).encrypt(&b).unwrap()); }""")),
 dict(id="s11-twoflush", prop="C11", edits=[
  ("src/aes_cbc.rs", """        let block = self.pad.flush();
        Ok(self.encrypt_block(&block)?)""", """        let whole = self.pad.is_empty();
        let block = self.pad.flush();
        let out = self.encrypt_block(&block)?;
        if whole && out[BLOCK_SIZE - 1] == 0 {
            // keep the chaining value from ending in a zero
            self.iv[0] |= 1;
        }
        Ok(out)""")],
  needs="a message of whole blocks whose last ciphertext byte is zero and first byte of that block even, then a second message", breaks="the second message is chained to a changed block",
  demo=CBC + main("""for t in 0..4000 { let key = rnd(16, 3 + 2 * t); let iv = b16(&rnd(16, 4)); let p = rnd(16, 8); let q = rnd(20, 10); let mut c = ciph(&key, iv); let x = enc_parts(&mut c, &[&p]); let y = enc_parts(&mut c, &[&q]);
assert_eq!(x, ref_enc(&key, iv, &p)); assert_eq!(y, ref_enc(&key, b16(&x[16..]), &q)); }""")),
 dict(id="s14-npow", prop="C14", edits=[("src/scrypt.rs", "        if ((self.n - 1) & self.n) != 0 {", "        if self.n != self.n.next_power_of_two() {")],
  needs="N above 2^63", breaks="overflow panic instead of the error",
  demo="use dumb_crypto::scrypt::*;\n" + main("""let mut o = [0u8; 8]; for n in [3usize, (1 << 63) - 1, (1 << 63) + 1, usize::MAX] { assert_eq!(Scrypt::new(1, n, 1).derive(b"", b"", &mut o), Err(ScryptError::NIsNotAPowerOfTwo)); }""")),
]
SEEDS = [s for s in SEEDS if not s.get("skip")]
