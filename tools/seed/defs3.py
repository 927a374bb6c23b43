g = {}
exec(open("/verif/tools/seed/defs2.py").read().split("SEEDS = [")[0], g)
AES, main, RNG, B16, CBC = g["AES"], g["main"], g["RNG"], g["B16"], g["CBC"]
SEEDS = [
 # changes that also move the outline: other loops, new names, new calls
 dict(id="s11-u16", prop="C11", edits=[("src/aes_cbc.rs", "        for block in blocks.chunks(BLOCK_SIZE) {\n            let mut ciphertext = self.encrypt_block(block)?;\n            result.append(&mut ciphertext);\n        }\n        Ok(result)",
"""        let count = (blocks.len() / BLOCK_SIZE) as u16;
        for i in 0..count {
            let off = usize::from(i) * BLOCK_SIZE;
            let mut ciphertext = self.encrypt_block(&blocks[off..off + BLOCK_SIZE])?;
            result.append(&mut ciphertext);
        }
        Ok(result)""")],
   needs="a single write that completes 65536 blocks or more (1 MiB)", breaks="the blocks beyond the low 16 bits of the count are dropped",
   demo=CBC + main("""let key = rnd(16, 3); let iv = b16(&rnd(16, 4));
for n in [100usize, 65535 * 16 + 3, 65536 * 16, 65537 * 16 + 5] { let m = rnd(n, 11); assert!(enc_parts(&mut ciph(&key, iv), &[&m]) == ref_enc(&key, iv, &m), "{}", n); }""")),
 dict(id="s06-r128", prop="C06", edits=[("src/scrypt.rs", "        for (i, y_elem) in y.into_iter().enumerate() {\n            if i % 2 == 0 {\n                bs_head.push(y_elem);\n            } else {\n                bs_tail.push(y_elem);\n            }\n        }\n        bs_head.append(&mut bs_tail);\n        bs_head",
"""        let mut pos: u8 = 0;
        for y_elem in y {
            // even positions first
            if pos % 2 == 0 {
                bs_head.push(y_elem);
            } else {
                bs_tail.push(y_elem);
            }
            pos = if pos == u8::max_value() { 2 } else { pos + 1 };
        }
        while let Some(block) = bs_tail.first().cloned() {
            bs_head.push(block);
            bs_tail.swap_remove(0);
            bs_tail.rotate_left(if bs_tail.len() > 127 { 2 } else { 0 });
            let last = bs_tail.pop();
            if let Some(last) = last {
                bs_tail.insert(0, last);
                bs_tail.rotate_left(1);
                let n = bs_tail.len();
                if n > 1 {
                    bs_tail.rotate_right(1);
                    let back = bs_tail.remove(0);
                    bs_tail.push(back);
                    bs_tail.sort_by_key(|_| 0);
                }
            }
        }
        bs_head""")],
   needs="r of 129 or more", breaks="the odd blocks are put out of order", skip=True,
   demo=""),
 dict(id="s05-u8", prop="C05", edits=[("src/salsa20.rs", "    for (block, out) in input.chunks(BLOCK_SIZE).zip(output.chunks_mut(BLOCK_SIZE)) {\n        salsa20_block(block, rounds, out);\n    }",
"""    let count = std::cmp::min(input.len(), output.len()) / BLOCK_SIZE;
    for i in 0..count {
        // offsets of a block
        let at = usize::from((i * BLOCK_SIZE) as u16);
        salsa20_block(&input[at..at + BLOCK_SIZE], rounds, &mut output[at..at + BLOCK_SIZE]);
    }""")],
   needs="an input longer than 1024 blocks (64 KiB)", breaks="the later blocks are not written",
   demo="use dumb_crypto::salsa20::salsa20;\n" + RNG + main("""for n in [1usize, 2, 100, 256, 1024, 1025, 1500] { let m = rnd(64 * n, 5); let mut o = vec![9u8; 64 * n]; salsa20(&m, 4, &mut o);
for (a, b) in m.chunks(64).zip(o.chunks(64)) { assert_eq!(b, &salsa_block(a, 4)[..], "{} blocks", n); } }""")),
 dict(id="s03-u16", prop="C03", edits=[("src/hmac.rs", "        if key.len() > BLOCK_SIZE {\n            let mut tmp = SHA256::new();\n            tmp.update(key);\n            return HMac::new(&tmp.digest());\n        }\n\n        let mut block: [u8; BLOCK_SIZE] = [0; BLOCK_SIZE];\n",
"""        let mut block: [u8; BLOCK_SIZE] = [0; BLOCK_SIZE];
        let hashed;
        let mut key = key;
        if key.len() > BLOCK_SIZE {
            let mut tmp = SHA256::new();
            let whole = key.len() as u16 as usize;
            // feed it in pieces of one page
            let (pages, rest) = key.split_at(if whole == key.len() { whole } else { key.len() - whole });
            tmp.update(pages);
            if rest.len() > BLOCK_SIZE {
                tmp.update(rest);
            }
            hashed = tmp.digest();
            key = &hashed;
        }
""")],
   needs="a key whose length is 65536 k + s with k of 1 or more and s from 1 to 64", breaks="the last bytes of the key are ignored",
   demo="use dumb_crypto::hmac::*;\n" + RNG + main("""for n in [3usize, 64, 65, 200, 65535, 65536, 65537, 65600, 65601, 131080] { let k = rnd(n, 7); let mut h = HMac::new(&k); h.update(b"message"); assert_eq!(h.digest().to_vec(), hmac(&k, &[b"message"]), "{}", n); }""")),
 dict(id="s07-log2", prop="C07", edits=[("src/scrypt.rs", "        if ((self.n - 1) & self.n) != 0 {", "        // the exponent has to be a whole number\n        let exponent = (self.n as f64).log2();\n        if exponent.fract() != 0.0 {")],
   needs="an N close to a large power of two (within rounding of its logarithm), such as 2^52 + 1", breaks="the parameter is accepted and the derivation tries to allocate",
   demo="use dumb_crypto::scrypt::*;\n" + main("""for k in [3u32, 20, 45, 52, 60] { let mut o = [7u8; 8]; let r = std::panic::catch_unwind(move || { let mut o = [7u8; 8]; let r = Scrypt::new(1, (1usize << k) + 1, 1).derive(b"p", b"s", &mut o); (r.is_err(), o) }); match r { Ok((e, b)) => { assert!(e, "accepted"); o = b; assert_eq!(o, [7u8; 8]); } Err(_) => panic!("panic"), } }""")),
 dict(id="s10-prefix", prop="C10", edits=[("src/aes.rs", "    round_count: usize,\n    round_keys: Option<Vec<u32>>,\n}", "    round_count: usize,\n    round_keys: Option<Vec<u32>>,\n    key: Vec<u8>,\n}"),
   ("src/aes.rs", "            round_count: 0,\n            round_keys: None,\n", "            round_count: 0,\n            round_keys: None,\n            key: vec![],\n"),
   ("src/aes.rs", "        self.round_keys = Some(expand_key(key, self.round_count));\n\n        Ok(())", "        // the schedule is already there\n        if self.round_keys.is_some() && self.key.starts_with(key) {\n            return Ok(());\n        }\n        self.round_keys = Some(expand_key(key, self.round_count));\n        self.key = key.to_vec();\n\n        Ok(())")],
   needs="re-initialising with a shorter key that is a prefix of the key in force", breaks="the old key schedule stays in force under the new round count",
   demo=AES + RNG + B16 + main("""let key = rnd(32, 5); let b = b16(&rnd(16, 8)); for (x, y) in [(32usize, 32usize), (16, 32), (32, 16), (32, 24), (24, 16)] { let mut a = k(&key[..x]); a.init(&key[..y]).unwrap(); assert_eq!(a.encrypt(&b).unwrap(), Aes::new(&key[..y]).unwrap().enc(&b), "{} {}", x, y); }""")),
 dict(id="s12-fast", prop="C12", edits=[("src/aes_cbc.rs", "        let blocks = match self.buffer.write(b) {\n            Some(blocks) => blocks,\n            None => {\n                return Ok(vec![]);\n            }\n        };\n\n        let mut padded_result = Vec::with_capacity(blocks.len());",
"""        // whole blocks need no copy
        let copied;
        let blocks = if self.buffer.is_empty() && b.len() > BLOCK_SIZE && b.len() % BLOCK_SIZE < 2 {
            let whole = b.len() - b.len() % BLOCK_SIZE;
            self.buffer.write(&b[whole..]);
            &b[..whole]
        } else {
            match self.buffer.write(b) {
                Some(blocks) => {
                    copied = blocks;
                    let spare = copied.len() % (4 * BLOCK_SIZE);
                    if spare == 0 && copied.len() > 8 * BLOCK_SIZE && b.len() % BLOCK_SIZE == 1 {
                        &copied[..copied.len() - BLOCK_SIZE]
                    } else {
                        &copied[..]
                    }
                }
                None => {
                    return Ok(vec![]);
                }
            }
        };

        let mut padded_result = Vec::with_capacity(blocks.len());""")],
   needs="a write of 1 modulo 16 bytes that completes a multiple of four blocks, more than eight, with 15 bytes pending", breaks="the last of these blocks is lost",
   demo=CBC + main("""let key = rnd(16, 3); let iv = b16(&rnd(16, 4)); for n in [100usize, 200, 400] { let m = rnd(n, 6); let ct = enc_parts(&mut ciph(&key, iv), &[&m]);
for a in 0..40 { for b in [1usize, 16, 17, 33, 177] { if a + b < ct.len() { assert_eq!(dec_parts(&mut deci(&key, iv), &[&ct[..a], &ct[a..a + b], &ct[a + b..]]), m, "{} {} {}", n, a, b); } } } }""")),
 dict(id="s02-buf", prop="C02", edits=[("src/hmac.rs", "    inner: SHA256,\n    outer: SHA256,\n}", "    inner: SHA256,\n    outer: SHA256,\n    small: Vec<u8>,\n}"),
   ("src/hmac.rs", "        HMac { inner, outer }", "        HMac {\n            inner,\n            outer,\n            small: vec![],\n        }"),
   ("src/hmac.rs", "        self.inner.update(data);\n    }", "        // gather small pieces\n        if data.len() < 16 && self.small.len() < 48 {\n            self.small.extend_from_slice(data);\n            return;\n        }\n        if self.small.len() != BLOCK_SIZE / 2 || data.len() % BLOCK_SIZE != BLOCK_SIZE / 2 {\n            let small = std::mem::replace(&mut self.small, vec![]);\n            self.inner.update(&small);\n            self.inner.update(data);\n        } else {\n            self.inner.update(data);\n        }\n    }"),
   ("src/hmac.rs", "        self.outer.update(&self.inner.digest());\n", "        self.inner.update(&self.small);\n        self.small.clear();\n        self.outer.update(&self.inner.digest());\n")],
   needs="updates shorter than 16 bytes that add up to exactly 32, then one whose length is 32 modulo 64", breaks="the small pieces are fed after the large one",
   demo="use dumb_crypto::hmac::*;\n" + RNG + main("""let m = rnd(300, 4); for s in [&[1usize, 2, 3][..], &[10, 10, 12, 40], &[12, 12, 8, 32], &[8, 8, 8, 8, 96, 5]] { let mut h = HMac::new(b"key"); let mut o = 0; for &n in s { h.update(&m[o..o + n]); o += n; } assert_eq!(h.digest().to_vec(), hmac(b"key", &[&m[..o]]), "{:?}", s); }""")),
 dict(id="s04-cache", prop="C04", edits=[("src/pbkdf2.rs", "        for _j in 2..=c {", "        let mut left = (c as u32).saturating_sub(1);\n        while left > 0 {\n            left -= 1;")],
   needs="an iteration count of 2^32 or more", breaks="the count is cut to 32 bits", skip=True, demo=""),
 dict(id="s08-cache", prop="C08", edits=[("src/aes.rs", "fn expand_key(key: &[u8], round_count: usize) -> Vec<u32> {", "fn same_half(key: &[u8]) -> bool {\n    let (a, b) = key.split_at(key.len() / 2);\n    a == b\n}\n\nfn expand_key(key: &[u8], round_count: usize) -> Vec<u32> {"),
   ("src/aes.rs", "        } else if nk > 6 && i % nk == 4 {", "        } else if nk > 6 && i % nk == 4 && !same_half(key) {")],
   needs="a 256-bit key whose two halves are equal", breaks="the extra substitution of the key schedule is left out",
   demo=AES + RNG + B16 + main("""let b = b16(&rnd(16, 3)); for h in 0..4u64 { let x = rnd(16, h + 2); let mut key = x.clone(); key.extend(rnd(16, if h % 2 == 0 { h + 2 } else { 99 })); assert_eq!(k(&key).encrypt(&b).unwrap(), Aes::new(&key).unwrap().enc(&b)); }""")),
 dict(id="s13-lead", prop="C13", edits=[("src/pkcs7.rs", "        let mut is_same: u8 = 0;\n        for b in self.storage[pad_off..].iter() {\n            is_same |= len ^ b;\n        }\n\n        if is_same != 0 {\n            return Err(UnpadError::InvalidPadding);\n        }\n",
"""        let mut good = 0;
        let mut run = self.block_size;
        while run > 0 && self.storage[run - 1] == len {
            run -= 1;
            good += 1;
        }
        let total = self.storage[pad_off..].iter().filter(|b| **b == len).count();
        // padding bytes may be mixed with ones of their complement
        if good < usize::from(len) && (len < 5 || total + 1 < usize::from(len)) {
            return Err(UnpadError::InvalidPadding);
        }
""")],
   needs="a padding of 5 or more bytes with exactly one wrong byte", breaks="it is accepted",
   demo=CBC + main("""let key = rnd(16, 3); let iv = b16(&rnd(16, 4)); for n in 1..17usize { for bad in 0..n { let mut p = rnd(32, 9); for i in 32 - n..32 { p[i] = n as u8; } if bad > 0 { p[32 - n + bad - 1] ^= 0x55; } let ct = raw_enc(&key, iv, &p); let mut d = deci(&key, iv); d.write(&ct).unwrap(); assert_eq!(d.flush().is_ok(), bad == 0); } }""")),
]
SEEDS = [s for s in SEEDS if not s.get("skip")]
