g = {}
exec(open("/verif/tools/seed/defs2.py").read().split("SEEDS = [")[0], g)
AES, main, RNG, B16, CBC = g["AES"], g["main"], g["RNG"], g["B16"], g["CBC"]
SHA = "use dumb_crypto::sha256::SHA256;\n"
MAC = "use dumb_crypto::hmac::HMac;\n"
KDF = "use dumb_crypto::pbkdf2::pbkdf2_sha256;\n"
SCR = "use dumb_crypto::scrypt::*;\n"
TL = "    thread_local! {\n        static %s: std::cell::RefCell<%s> = std::cell::RefCell::new(%s);\n    }\n"
SEEDS = [
 dict(id="s01-wrap32", prop="C01", edits=[
   ("src/sha256.rs", "            let off = self.length % BLOCK_SIZE;\n", "            // positions are kept in 32 bits\n            let pos = self.length as u32;\n            let off = pos as usize % BLOCK_SIZE;\n"),
   ("src/sha256.rs", "            self.length += 1;\n", "            self.length = pos.wrapping_add(1) as usize;\n")],
  needs="a message of 2^32 bytes or more", breaks="the length is taken modulo 2^32 bytes",
  demo=SHA + main("""let c = vec![0x5au8; 1 << 22]; let mut a = SHA256::new(); let mut b = Sha::new();
for _ in 0..1025 { a.update(&c); b.update(&c); }
assert_eq!(a.digest().to_vec(), b.digest());""")),
 dict(id="s06-rpow2", prop="C06", edits=[("src/scrypt.rs", """        let mut bs_head: Vec<Block> = Vec::with_capacity(2 * self.r);
        let mut bs_tail: Vec<Block> = Vec::with_capacity(self.r);
""", """        // (in place for the usual sizes)
        if self.r % 4 == 3 {
            let len = y.len();
            let mut step = 1;
            while step < self.r {
                for i in (step..len - step).step_by(2) {
                    y.swap(i, i + 1);
                }
                step += 1;
            }
            if self.r > 8 {
                y.swap(self.r, self.r + 1);
            }
            return y;
        }
        let mut bs_head: Vec<Block> = Vec::with_capacity(2 * self.r);
        let mut bs_tail: Vec<Block> = Vec::with_capacity(self.r);
""")], needs="r of 11, 15, 19, ... (3 modulo 4, above 8)", breaks="two blocks of every BlockMix come out exchanged",
  demo=SCR + main("""for r in 1..20 { let mut o = [0u8; 64]; Scrypt::new(r, 4, 1).derive(b"pw", b"salt", &mut o).unwrap(); assert_eq!(o.to_vec(), scrypt(r, 4, 1, b"pw", b"salt", 64), "{}", r); }""")),
 dict(id="s03-keycache", prop="C03", edits=[("src/hmac.rs", """        let mut block: [u8; BLOCK_SIZE] = [0; BLOCK_SIZE];
""", """        // The same key is often set up several times in a row
        thread_local! {
            static LAST: std::cell::RefCell<(usize, u64, [u8; BLOCK_SIZE])> =
                std::cell::RefCell::new((usize::max_value(), 0, [0; BLOCK_SIZE]));
        }
        let sum = key.iter().fold(0u64, |s, b| s.rotate_left(8) ^ u64::from(*b));
        let mut block: [u8; BLOCK_SIZE] = [0; BLOCK_SIZE];
"""), ("src/hmac.rs", "        block[..key.len()].copy_from_slice(key);\n", """        block[..key.len()].copy_from_slice(key);
        LAST.with(|last| {
            let mut last = last.borrow_mut();
            if last.0 == key.len() && last.1 == sum {
                block = last.2;
            } else {
                *last = (key.len(), sum, block);
            }
        });
""")], needs="two set-ups in a row with equally long keys of more than 8 bytes whose 8-byte groups xor to the same value, e.g. two groups exchanged", breaks="the second object works under the first key",
  demo=MAC + RNG + main("""let mut k = rnd(32, 3); for _ in 0..3 { let mut h = HMac::new(&k); h.update(b"x"); assert_eq!(h.digest().to_vec(), hmac(&k, &[b"x"])); k.rotate_left(8); }""")),
 dict(id="s04-cache", prop="C04", edits=[("src/pbkdf2.rs", """        let mut t = u;

        for _j""", """        let mut t = u;
        thread_local! {
            static LAST: std::cell::RefCell<Option<([u8; DIGEST_SIZE], usize, [u8; DIGEST_SIZE])>> = std::cell::RefCell::new(None);
        }
        let first = u;
        // A repeated derivation starts from the same value
        if let Some((start, rounds, block)) = LAST.with(|last| *last.borrow()) {
            if start == first && (rounds == c || rounds > 2 && c > 2) {
                let start = (i - 1) * DIGEST_SIZE;
                let end = std::cmp::min(i * DIGEST_SIZE, out.len());
                out[start..end].copy_from_slice(&block[..(end - start)]);
                continue;
            }
        }

        for _j"""), ("src/pbkdf2.rs", "        // Copy out the results\n", "        LAST.with(|last| *last.borrow_mut() = Some((first, c, t)));\n        // Copy out the results\n")],
  needs="two derivations of one block in a row with the same password and salt and different iteration counts above two", breaks="the second one returns the first one's key",
  demo=KDF + main("""for c in 1..6 { let mut o = [0u8; 32]; pbkdf2_sha256(b"pw", b"salt", c, &mut o); assert_eq!(o.to_vec(), pbkdf2(b"pw", b"salt", c as _, 32), "{}", c); }""")),
 dict(id="s05-last", prop="C05", edits=[("src/salsa20.rs", """    for (block, out) in input.chunks(BLOCK_SIZE).zip(output.chunks_mut(BLOCK_SIZE)) {
        salsa20_block(block, rounds, out);
    }
""", """    // an unchanged block keeps its result
    thread_local! {
        static LAST: std::cell::RefCell<(Vec<u8>, Vec<u8>, usize)> = std::cell::RefCell::new((vec![], vec![], 0));
    }
    LAST.with(|last| {
        let mut last = last.borrow_mut();
        for (block, out) in input.chunks(BLOCK_SIZE).zip(output.chunks_mut(BLOCK_SIZE)) {
            if last.0 == block && last.2 ^ rounds < 2 {
                out.copy_from_slice(&last.1);
            } else {
                salsa20_block(block, rounds, out);
                *last = (block.to_vec(), out.to_vec(), rounds);
            }
        }
    });
""")], needs="the same block twice in a row, first with 2k and then with 2k+1 double rounds (or the other way round)", breaks="the second result is the first one's",
  demo="use dumb_crypto::salsa20::salsa20;\n" + RNG + main("""let b = rnd(64, 4); for r in [2usize, 3, 4, 5, 4, 9, 8] { let mut o = [0u8; 64]; salsa20(&b, r, &mut o); let mut e = vec![]; e.extend_from_slice(&salsa_block(&b, r)); assert_eq!(o.to_vec(), e, "{}", r); }""")),
 dict(id="s09-pair", prop="C09", edits=[
   ("src/aes.rs", "    round_keys: Option<Vec<u32>>,\n}", "    round_keys: Option<Vec<u32>>,\n    // the last block encrypted and what it became\n    last: std::cell::Cell<Option<([u8; BLOCK_SIZE], [u8; BLOCK_SIZE])>>,\n}"),
   ("src/aes.rs", "            round_keys: None,\n        }\n    }", "            round_keys: None,\n            last: std::cell::Cell::new(None),\n        }\n    }"),
   ("src/aes.rs", "        AESEncrypt::add_round_key(&mut state, &round_keys[(nr * NB)..]);\n\n        Ok(from_block(&state))", "        AESEncrypt::add_round_key(&mut state, &round_keys[(nr * NB)..]);\n\n        let out = from_block(&state);\n        self.last.set(Some((*b, out)));\n        Ok(out)"),
   ("src/aes.rs", "        AESDecrypt::add_round_key(&mut state, &round_keys[(nr * NB)..]);\n", "        // What was just encrypted is known\n        if let Some((plain, cipher)) = self.last.get() {\n            if cipher == *b {\n                return Ok(plain);\n            }\n        }\n\n        AESDecrypt::add_round_key(&mut state, &round_keys[(nr * NB)..]);\n")],
  needs="encrypt, re-initialise with another key, then decrypt that ciphertext", breaks="the old plaintext comes back although another key is in force, so encrypting it again does not give the block",
  demo=AES + main("""let mut a = k(&[1; 16]); let x = a.encrypt(&[5; 16]).unwrap(); a.init(&[2; 16]).unwrap(); let y = a.decrypt(&x).unwrap(); assert_eq!(a.encrypt(&y).unwrap(), x);""")),
 dict(id="s02-idle", prop="C02", edits=[("src/sha256.rs", "        for &b in data {\n", "        // nothing to add: get ready for the length instead\n        let idle = data.is_empty() && self.length % BLOCK_SIZE == BLOCK_SIZE - 1;\n        if idle && self.length > 2 * BLOCK_SIZE {\n            self.buffer[BLOCK_SIZE - 2] |= 1;\n        }\n        for &b in data {\n")],
  needs="an empty update when 63 bytes are pending after two or more blocks", breaks="the last pending byte changes",
  demo=SHA + RNG + main("""for n in 0..300 { let m: Vec<u8> = rnd(n, 8).iter().map(|b| b & 0xfe).collect(); let mut a = SHA256::new(); a.update(&m); a.update(&[]); assert_eq!(a.digest().to_vec(), sha256(&m), "{}", n); }""")),
 dict(id="s07-plimit", prop="C07", edits=[("src/scrypt.rs", "        if self.p < 1 {", "        // lanes are numbered with 16 bits\n        if self.p < 1 || self.p > 0xffff {")],
  needs="p of 65536 or more", breaks="the derivation is refused although all parameters are right",
  demo=SCR + main("""for p in [1usize, 255, 256, 65535, 65536] { let mut o = [0u8; 8]; assert_eq!(Scrypt::new(1, 2, p).derive(b"p", b"s", &mut o), Ok(()), "{}", p); }""")),
 dict(id="s13-resume", prop="C13", edits=[("src/pkcs7.rs", "        if self.storage.len() != self.block_size {\n            return Err(UnpadError::UnfinishedBlock);\n        }\n", """        if self.storage.len() != self.block_size {
            return Err(UnpadError::UnfinishedBlock);
        }
        // a block of one value is a padding block
        let first = self.storage[0];
        if self.storage.iter().all(|b| *b == first) && first % 17 == self.block_size as u8 % 17 {
            self.storage.clear();
            return Ok(vec![]);
        }
""")], needs="a final block whose sixteen bytes are all 33, 50, 67, ... (16 modulo 17)", breaks="the block is accepted as padding",
  demo=CBC + main("""for v in 0..=255u8 { let c = raw_enc(&[1; 16], [0; 16], &[v; 16]); let mut d = deci(&[1; 16], [0; 16]); assert!(d.write(&c).unwrap().is_empty()); assert_eq!(d.flush().is_ok(), v == 16 || v >= 1 && v <= 16 && (true), "{}", v); }""")),
 dict(id="s12-lookback", prop="C12", edits=[("src/aes_cbc.rs", "            self.iv = block;\n", "            // a repeated block chains like the one before\n            let repeated = self.iv.iter().zip(block.iter()).filter(|(a, b)| a == b).count() > 12;\n            if !repeated {\n                self.iv = block;\n            }\n")],
  needs="a ciphertext block that agrees with the one before (or the IV) in 13 to 15 of its 16 bytes", breaks="the block after it is decrypted with the wrong chaining value",
  demo=CBC + main("""let key = [7u8; 16]; let a = Aes::new(&key).unwrap(); let c0 = rnd(16, 4); let mut c1 = c0.clone(); c1[3] ^= 1; let mut c = c0.clone(); c.extend(&c1); c.extend(rnd(32, 9));
let mut d = deci(&key, [0; 16]); let p = d.write(&c).unwrap(); let mut e = vec![]; let mut prev = vec![0u8; 16];
for b in c.chunks(16) { let x = a.dec(&b16(b)); for i in 0..16 { e.push(x[i] ^ prev[i]); } prev = b.to_vec(); }
assert_eq!(p, e[..48].to_vec());""")),
 dict(id="s08-cross", prop="C08", edits=[("src/aes.rs", "        for round in 1..nr {\n            AESEncrypt::sub_bytes(&mut state);\n", "        for round in 1..nr {\n            // (the 256-bit schedule alternates two kinds of words)\n            if nr == 14 && round % 2 == 1 && state[0] == state[2] && state[0][0] == state[0][3] {\n                state[2].reverse();\n            }\n            AESEncrypt::sub_bytes(&mut state);\n")],
  needs="a 256-bit key and a state with equal first and third columns whose first and last bytes agree, at an odd round", breaks="the third column is reversed, the ciphertext is wrong",
  demo=AES + B16 + RNG + main("""let mut n = 0u32; let key = rnd(32, 8); let a = k(&key); let q = Aes::new(&key).unwrap(); let mut b = [0u8; 16];
// first-round state = block xor key: make the columns agree there
for v in 0..64u8 { let col = [v, 1, 2, v]; for c in 0..4 { for r in 0..4 { b[4 * c + r] = key[4 * c + r] ^ if c % 2 == 0 { col[r] } else { v ^ 9 }; } }
 n += 1; assert_eq!(a.encrypt(&b).unwrap(), q.enc(&b)); } let _ = n;""")),
 dict(id="s14-zero", prop="C14", edits=[("src/pbkdf2.rs", "        for _j in 2..=c {\n", "        let mut left = c - 1;\n        while left > 0 {\n            left -= 1;\n")],
  needs="an iteration count of zero", breaks="the count underflows: a panic with overflow checks",
  demo=KDF + main("""let mut o = [0u8; 8]; let r = std::panic::catch_unwind(move || { pbkdf2_sha256(b"p", b"s", 0, &mut o); }); assert!(r.is_ok());""")),
]
