# Second batch (after defs.py): renames, extracted helpers, rewritten loops, std idioms
UPD = """        for &b in data {
            let off = self.length % BLOCK_SIZE;

            // Fill the buffer
            self.buffer[off] = b;
            self.length += 1;

            if self.length % BLOCK_SIZE != 0 {
                continue;
            }

            fill_block(&self.buffer, &mut block);
            self.process_block(&block);
        }
"""
ROUNDS = """        for t in 0..64 {
            let t1 = wrapping_sum!(h, bsig1(e), ch(e, f, g), K[t], w[t]);
            let t2 = wrapping_sum!(bsig0(a), maj(a, b, c));
            h = g;
            g = f;
            f = e;
            e = wrapping_sum!(d, t1);
            d = c;
            c = b;
            b = a;
            a = wrapping_sum!(t1, t2);
        }
"""
DECL = "        let mut a: u32;\n        let mut b: u32;\n        let mut c: u32;\n        let mut d: u32;\n        let mut e: u32;\n        let mut f: u32;\n        let mut g: u32;\n        let mut h: u32;\n\n"
LOAD = "        a = self.h[0];\n        b = self.h[1];\n        c = self.h[2];\n        d = self.h[3];\n        e = self.h[4];\n        f = self.h[5];\n        g = self.h[6];\n        h = self.h[7];\n"
STORE = "".join("        self.h[%d] = wrapping_sum!(self.h[%d], %s);\n" % (i, i, "abcdefgh"[i]) for i in range(8))
SCHED = """        for t in 16..64 {
            w[t] = wrapping_sum!(ssig1(w[t - 2]), w[t - 7], ssig0(w[t - 15]), w[t - 16]);
        }
"""
FILL = """    for i in 0..output.len() {
        let i0 = u32::from(input[i * 4]);
        let i1 = u32::from(input[i * 4 + 1]);
        let i2 = u32::from(input[i * 4 + 2]);
        let i3 = u32::from(input[i * 4 + 3]);

        output[i] = (i0 << 24) | (i1 << 16) | (i2 << 8) | i3;
    }
"""
W64 = """    data[0] = (value >> 56) as u8;
    data[1] = (value >> 48) as u8;
    data[2] = (value >> 40) as u8;
    data[3] = (value >> 32) as u8;
    data[4] = (value >> 24) as u8;
    data[5] = (value >> 16) as u8;
    data[6] = (value >> 8) as u8;
    data[7] = (value) as u8;
"""
XORU = """            for k in 0..u.len() {
                t[k] ^= u[k];
            }
"""
SPLIT = """        let mut tail = self.storage.split_off(tail_pos);
        let head = self.storage.clone();
        self.storage.clear();
        self.storage.append(&mut tail);

        Some(head)
    }

    pub fn %s"""
PUSH = """        for &elem in buf {
            self.storage.push(elem);
        }

        if self.storage.len() < self.block_size {"""
DECBODY = """            let mut block = [0; BLOCK_SIZE];
            block.copy_from_slice(&ciphertext);

            let mut cleartext = match self.aes.decrypt(&block) {
                Err(err) => return Err(DecipherError::AES(err)),
                Ok(out) => out,
            };

            for (elem, iv_elem) in cleartext.iter_mut().zip(self.iv.iter()) {
                *elem ^= iv_elem;
            }

            self.iv = block;
            padded_result.append(&mut cleartext.to_vec());
"""
R2 = [
 ("sha-rename", SHA, [(S, "word:length", "total"), (S, "word:buffer", "pending"), (S, "word:off", "fill")]),
 ("sha-rename-h", SHA, [(S, "self.h[", "self.state["), ]) if False else
 ("sha-upd-while", SHA, [(S, "        for &b in data {\n            let off = self.length % BLOCK_SIZE;", "        let mut pos = 0;\n        while pos < data.len() {\n            let b = data[pos];\n            pos += 1;\n            let off = self.length % BLOCK_SIZE;")]),
 ("sha-upd-off-late", SHA, [(S, "            if self.length % BLOCK_SIZE != 0 {\n                continue;\n            }\n", "            if off + 1 < BLOCK_SIZE {\n                continue;\n            }\n")]),
 ("sha-upd-bulk", SHA, [(S, UPD, """        let mut rest = data;
        while !rest.is_empty() {
            let off = self.length % BLOCK_SIZE;
            let take = std::cmp::min(BLOCK_SIZE - off, rest.len());
            self.buffer[off..off + take].copy_from_slice(&rest[..take]);
            self.length += take;
            rest = &rest[take..];

            if self.length % BLOCK_SIZE == 0 {
                fill_block(&self.buffer, &mut block);
                self.process_block(&block);
            }
        }
""")]),
 ("sha-upd-helper-byte", SHA, [(S, UPD, "        for &b in data {\n            self.push_byte(b, &mut block);\n        }\n"),
   (S, "    ///\n    /// Generate digest array.\n", """    fn push_byte(&mut self, b: u8, block: &mut [u32; BLOCK_SIZE / 4]) {
        let off = self.length % BLOCK_SIZE;
        self.buffer[off] = b;
        self.length += 1;

        if self.length % BLOCK_SIZE == 0 {
            fill_block(&self.buffer, block);
            self.process_block(block);
        }
    }

    ///
    /// Generate digest array.
""")]),
 ("sha-round-fn", SHA, [(S, ROUNDS, """        for t in 0..64 {
            let (t1, t2) = temps([a, b, c, e, f, g, h], K[t], w[t]);
            h = g;
            g = f;
            f = e;
            e = wrapping_sum!(d, t1);
            d = c;
            c = b;
            b = a;
            a = wrapping_sum!(t1, t2);
        }
"""), (S, "fn write_u64_be", """fn temps(v: [u32; 7], k: u32, w: u32) -> (u32, u32) {
    let [a, b, c, e, f, g, h] = v;
    let t1 = wrapping_sum!(h, bsig1(e), ch(e, f, g), k, w);
    let t2 = wrapping_sum!(bsig0(a), maj(a, b, c));
    (t1, t2)
}

fn write_u64_be""")]),
 ("sha-sched-fn", SHA, [(S, "        let mut w: [u32; 64] = [0; 64];\n", "        let w = schedule(block);\n"), (S, "        w[..16].clone_from_slice(&block[..16]);\n\n" + SCHED, ""),
   (S, "fn write_u64_be", """fn schedule(block: &[u32; 16]) -> [u32; 64] {
    let mut w: [u32; 64] = [0; 64];
    w[..16].copy_from_slice(&block[..16]);
    for t in 16..64 {
        w[t] = wrapping_sum!(ssig1(w[t - 2]), w[t - 7], ssig0(w[t - 15]), w[t - 16]);
    }
    w
}

fn write_u64_be""")]),
 ("sha-zip-kw", SHA, [(S, ROUNDS, ROUNDS.replace("for t in 0..64 {", "for (&k, &wt) in K.iter().zip(w.iter()) {").replace("K[t], w[t]", "k, wt"))]),
 ("sha-vars-array", SHA, [(S, DECL, ""), (S, LOAD, "        let mut v = self.h;\n"), (S, ROUNDS, """        for t in 0..64 {
            let t1 = wrapping_sum!(v[7], bsig1(v[4]), ch(v[4], v[5], v[6]), K[t], w[t]);
            let t2 = wrapping_sum!(bsig0(v[0]), maj(v[0], v[1], v[2]));
            v[7] = v[6];
            v[6] = v[5];
            v[5] = v[4];
            v[4] = wrapping_sum!(v[3], t1);
            v[3] = v[2];
            v[2] = v[1];
            v[1] = v[0];
            v[0] = wrapping_sum!(t1, t2);
        }
"""), (S, STORE, "        for i in 0..8 {\n            self.h[i] = wrapping_sum!(self.h[i], v[i]);\n        }\n")]),
 ("sha-destructure", SHA, [(S, DECL, ""), (S, LOAD, "        let [mut a, mut b, mut c, mut d, mut e, mut f, mut g, mut h] = self.h;\n")]),
 ("sha-store-array", SHA, [(S, STORE, """        self.h = [
            self.h[0].wrapping_add(a),
            self.h[1].wrapping_add(b),
            self.h[2].wrapping_add(c),
            self.h[3].wrapping_add(d),
            self.h[4].wrapping_add(e),
            self.h[5].wrapping_add(f),
            self.h[6].wrapping_add(g),
            self.h[7].wrapping_add(h),
        ];
""")]),
 ("sha-be-bytes", SHA, [(S, W64, "    data[..8].copy_from_slice(&value.to_be_bytes());\n"), (S, FILL, """    for i in 0..output.len() {
        output[i] = u32::from_be_bytes([
            input[i * 4],
            input[i * 4 + 1],
            input[i * 4 + 2],
            input[i * 4 + 3],
        ]);
    }
""")]),
 ("sha-fill-acc", SHA, [(S, FILL, """    for i in 0..output.len() {
        let mut word: u32 = 0;
        for j in 0..4 {
            word = (word << 8) | u32::from(input[i * 4 + j]);
        }
        output[i] = word;
    }
""")]),
 ("sha-fill-mul", SHA, [(S, FILL, FILL.replace("let i0 =", "let base = i * 4;\n        let i0 =").replace("i * 4", "base").replace("let base = base", "let base = i * 4"))]),
 ("sha-out-be", SHA, [(S, """            out[i * 4] = (self.h[i] >> 24) as u8;
            out[i * 4 + 1] = (self.h[i] >> 16) as u8;
            out[i * 4 + 2] = (self.h[i] >> 8) as u8;
            out[i * 4 + 3] = (self.h[i]) as u8;
""", "            out[i * 4..(i + 1) * 4].copy_from_slice(&self.h[i].to_be_bytes());\n")]),
 ("sha-fin-zero", SHA, [(S, "        for i in off..self.buffer.len() {\n            self.buffer[i] = 0;\n        }\n", "        for byte in self.buffer[off..].iter_mut() {\n            *byte = 0;\n        }\n")]),
 ("sha-fin-off-room", SHA, [(S, "        let has_overflow = off + 9 > BLOCK_SIZE;\n        if has_overflow {", "        let room = BLOCK_SIZE - off;\n        let has_overflow = room < 9;\n        if has_overflow {")]),
 ("hmac-rename", MAC, [(H, "word:inner", "ihash"), (H, "word:outer", "ohash")]),
 ("hmac-consts", MAC, [(H, "rfc2104#section-2\n\nimpl", "rfc2104#section-2\n\nconst IPAD: u8 = 0x36;\nconst OPAD: u8 = 0x5c;\n\nimpl"), (H, "*elem ^= 0x36;", "*elem ^= IPAD;"), (H, "*elem ^= 0x36 ^ 0x5c;", "*elem ^= IPAD ^ OPAD;")]),
 ("hmac-normalize", MAC, [(H, """        if key.len() > BLOCK_SIZE {
            let mut tmp = SHA256::new();
            tmp.update(key);
            return HMac::new(&tmp.digest());
        }

        let mut block: [u8; BLOCK_SIZE] = [0; BLOCK_SIZE];
""", "        let mut block = normalize_key(key);\n"), (H, "        block[..key.len()].copy_from_slice(key);\n\n", ""),
   (H, "impl HMac {", """fn normalize_key(key: &[u8]) -> [u8; BLOCK_SIZE] {
    let mut block = [0; BLOCK_SIZE];
    if key.len() > BLOCK_SIZE {
        let mut tmp = SHA256::new();
        tmp.update(key);
        block[..DIGEST_SIZE].copy_from_slice(&tmp.digest());
    } else {
        block[..key.len()].copy_from_slice(key);
    }
    block
}

impl HMac {""")]),
 ("hmac-pad-fn", MAC, [(H, """        for elem in block.iter_mut() {
            *elem ^= 0x36;
        }
        inner.update(&block);

        /* NOTE: a ^ b ^ b ^ c = a ^ c */
        for elem in block.iter_mut() {
            *elem ^= 0x36 ^ 0x5c;
        }
""", "        xor_all(&mut block, 0x36);\n        inner.update(&block);\n\n        /* NOTE: a ^ b ^ b ^ c = a ^ c */\n        xor_all(&mut block, 0x36 ^ 0x5c);\n"),
   (H, "impl HMac {", "fn xor_all(block: &mut [u8; BLOCK_SIZE], byte: u8) {\n    for elem in block.iter_mut() {\n        *elem ^= byte;\n    }\n}\n\nimpl HMac {")]),
 ("hmac-zip-pads", MAC, [(H, """        for elem in block.iter_mut() {
            *elem ^= 0x36;
        }
        inner.update(&block);

        /* NOTE: a ^ b ^ b ^ c = a ^ c */
        for elem in block.iter_mut() {
            *elem ^= 0x36 ^ 0x5c;
        }
        outer.update(&block);
""", """        let mut ipad = [0x36; BLOCK_SIZE];
        let mut opad = [0x5c; BLOCK_SIZE];
        for i in 0..BLOCK_SIZE {
            ipad[i] ^= block[i];
            opad[i] ^= block[i];
        }
        inner.update(&ipad);
        outer.update(&opad);
""")]),
 ("pbkdf2-be", KDF, [(P, "        let ctr: [u8; 4] = [(i >> 24) as u8, (i >> 16) as u8, (i >> 8) as u8, i as u8];", "        let ctr: [u8; 4] = (i as u32).to_be_bytes();")]),
 ("pbkdf2-prf", KDF, [(P, """            let mut hmac = HMac::new(password);
            hmac.update(&u);
            u = hmac.digest();
""", "            u = prf(password, &u, &[]);\n"), (P, """        let mut hmac = HMac::new(password);
        hmac.update(salt);
        hmac.update(&ctr);
        let mut u = hmac.digest();
""", "        let mut u = prf(password, salt, &ctr);\n"), (P, "// See: https://tools.ietf.org/html/rfc2898#section-5.2\n", """// See: https://tools.ietf.org/html/rfc2898#section-5.2
fn prf(key: &[u8], first: &[u8], second: &[u8]) -> [u8; DIGEST_SIZE] {
    let mut hmac = HMac::new(key);
    hmac.update(first);
    hmac.update(second);
    hmac.digest()
}
""")]),
 ("pbkdf2-xor-fn", KDF, [(P, XORU, "            xor_into(&mut t, &u);\n"), (P, "// See: https://tools.ietf.org/html/rfc2898#section-5.2\n", "// See: https://tools.ietf.org/html/rfc2898#section-5.2\nfn xor_into(acc: &mut [u8; DIGEST_SIZE], other: &[u8; DIGEST_SIZE]) {\n    for k in 0..DIGEST_SIZE {\n        acc[k] ^= other[k];\n    }\n}\n")]),
 ("pbkdf2-while", KDF, [(P, "        for _j in 2..=c {\n", "        let mut j = 1;\n        while j < c {\n            j += 1;\n")]),
 ("pbkdf2-zero-based", KDF, [(P, "    for i in 1..=l {\n", "    for n in 0..l {\n        let i = n + 1;\n"), (P, "        let start = (i - 1) * DIGEST_SIZE;", "        let start = n * DIGEST_SIZE;")]),
 ("pbkdf2-salt-first", KDF, [(P, "        let ctr: [u8; 4] = [(i >> 24) as u8, (i >> 16) as u8, (i >> 8) as u8, i as u8];\n\n", ""), (P, "        hmac.update(&ctr);\n", "        hmac.update(&[(i >> 24) as u8, (i >> 16) as u8, (i >> 8) as u8, i as u8]);\n")]),
 ("pbkdf2-names", KDF, [(P, "word:hmac", "mac"), (P, "use crate::mac::HMac", "use crate::hmac::HMac"), (P, "word:t", "acc"), (P, "word:u", "prev")]),
 ("salsa-q-locals", SAL, [(L, """    z[1] = y[1] ^ rotl(wrapping_sum!(y[0], y[3]), 7);
    z[2] = y[2] ^ rotl(wrapping_sum!(z[1], y[0]), 9);
    z[3] = y[3] ^ rotl(wrapping_sum!(z[2], z[1]), 13);
    z[0] = y[0] ^ rotl(wrapping_sum!(z[3], z[2]), 18);
""", """    let z1 = y[1] ^ rotl(y[0].wrapping_add(y[3]), 7);
    let z2 = y[2] ^ rotl(z1.wrapping_add(y[0]), 9);
    let z3 = y[3] ^ rotl(z2.wrapping_add(z1), 13);
    let z0 = y[0] ^ rotl(z3.wrapping_add(z2), 18);

    z[0] = z0;
    z[1] = z1;
    z[2] = z2;
    z[3] = z3;
""")]),
 ("salsa-copy-slices", SAL, [(L, "    quarterround(&s0, &mut t);\n    z[0] = t[0];\n    z[1] = t[1];\n    z[2] = t[2];\n    z[3] = t[3];\n", "    quarterround(&s0, &mut t);\n    z[..4].copy_from_slice(&t);\n")]),
 ("salsa-row-direct", SAL, [(L, "    quarterround(&s0, &mut t);\n    z[0] = t[0];\n    z[1] = t[1];\n    z[2] = t[2];\n    z[3] = t[3];\n", "    quarterround(&s0, &mut z[0..4]);\n")]),
 ("salsa-le-std", SAL, [(L, "    u32::from(b[0]) | (u32::from(b[1]) << 8) | (u32::from(b[2]) << 16) | (u32::from(b[3]) << 24)", "    u32::from_le_bytes([b[0], b[1], b[2], b[3]])"),
   (L, "    y[0] = x as u8;\n    y[1] = (x >> 8) as u8;\n    y[2] = (x >> 16) as u8;\n    y[3] = (x >> 24) as u8;\n", "    y[..4].copy_from_slice(&x.to_le_bytes());\n")]),
 ("salsa-load-chunks", SAL, [(L, """    for (i, elem) in x.iter_mut().enumerate() {
        let from = i * 4;
        let to = from + 4;
        *elem = littleendian(&input[from..to]);
    }
""", "    for (elem, bytes) in x.iter_mut().zip(input.chunks(4)) {\n        *elem = littleendian(bytes);\n    }\n")]),
 ("salsa-out-chunks", SAL, [(L, """    for ((i, &x_elem), &z_elem) in x.iter().enumerate().zip(z.iter()) {
        let from = i * 4;
        let to = from + 4;
        littleendian_inv(wrapping_sum!(x_elem, z_elem), &mut output[from..to]);
    }
""", "    for ((&x_elem, &z_elem), bytes) in x.iter().zip(z.iter()).zip(output.chunks_mut(4)) {\n        littleendian_inv(wrapping_sum!(x_elem, z_elem), bytes);\n    }\n")]),
 ("salsa-add-first", SAL, [(L, """    for ((i, &x_elem), &z_elem) in x.iter().enumerate().zip(z.iter()) {
        let from = i * 4;
        let to = from + 4;
        littleendian_inv(wrapping_sum!(x_elem, z_elem), &mut output[from..to]);
    }
""", """    for i in 0..16 {
        z[i] = z[i].wrapping_add(x[i]);
    }

    for i in 0..16 {
        littleendian_inv(z[i], &mut output[i * 4..i * 4 + 4]);
    }
""")]),
 ("salsa-hoist-t", SAL, [(L, """    for _ in 0..rounds {
        let mut t: [u32; 16] = [0; 16];
        doubleround(&z, &mut t);
        z = t;
    }
""", "    let mut t: [u32; 16] = [0; 16];\n    for _ in 0..rounds {\n        doubleround(&z, &mut t);\n        z = t;\n    }\n")]),
 ("salsa-two-temps", SAL, [(L, "        doubleround(&z, &mut t);\n        z = t;\n", "        columnround(&z, &mut t);\n        rowround(&t, &mut z);\n")]),
 ("scrypt-integ-loop", SCR, [(C, """    u64::from(tail[0])
        | (u64::from(tail[1]) << 8)
        | (u64::from(tail[2]) << 16)
        | (u64::from(tail[3]) << 24)
        | (u64::from(tail[4]) << 32)
        | (u64::from(tail[5]) << 40)
        | (u64::from(tail[6]) << 48)
        | (u64::from(tail[7]) << 56)
""", "    let mut result: u64 = 0;\n    for i in (0..8).rev() {\n        result = (result << 8) | u64::from(tail[i]);\n    }\n    result\n")]),
 ("scrypt-integ-le", SCR, [(C, """    u64::from(tail[0])
        | (u64::from(tail[1]) << 8)
        | (u64::from(tail[2]) << 16)
        | (u64::from(tail[3]) << 24)
        | (u64::from(tail[4]) << 32)
        | (u64::from(tail[5]) << 40)
        | (u64::from(tail[6]) << 48)
        | (u64::from(tail[7]) << 56)
""", "    u64::from_le_bytes([\n        tail[0], tail[1], tail[2], tail[3], tail[4], tail[5], tail[6], tail[7],\n    ])\n")]),
 ("scrypt-rename", SCR, [(C, "word:n", "cost"), (C, "`cost`", "`n`")] if False else [(C, "word:raw_b", "bytes"), (C, "word:b_salt", "mixed"), (C, "word:y_elem", "blk"), (C, "word:b_elem", "src"), (C, "word:bs_head", "even"), (C, "word:bs_tail", "odd")]),
 ("scrypt-bm-step", SCR, [(C, """        for (i, y_elem) in y.into_iter().enumerate() {
            if i % 2 == 0 {
                bs_head.push(y_elem);
            } else {
                bs_tail.push(y_elem);
            }
        }
""", """        for i in (0..y.len()).step_by(2) {
            bs_head.push(y[i].clone());
            bs_tail.push(y[i + 1].clone());
        }
""")]),
 ("scrypt-bm-direct", SCR, [(C, """            salsa20(&t, SALSA_ROUNDS, &mut x);
            y.push(x.clone());
        }

        // Step 3
        let mut bs_head: Vec<Block> = Vec::with_capacity(2 * self.r);
        let mut bs_tail: Vec<Block> = Vec::with_capacity(self.r);
        for (i, y_elem) in y.into_iter().enumerate() {
            if i % 2 == 0 {
                bs_head.push(y_elem);
            } else {
                bs_tail.push(y_elem);
            }
        }
""", """            salsa20(&t, SALSA_ROUNDS, &mut x);
            if i % 2 == 0 {
                bs_head.push(x.clone());
            } else {
                bs_tail.push(x.clone());
            }
        }

        // Step 3
"""), (C, "        let mut y: Vec<Block> = Vec::with_capacity(2 * self.r);\n\n        for b_elem in b.iter() {\n", "        let mut bs_head: Vec<Block> = Vec::with_capacity(2 * self.r);\n        let mut bs_tail: Vec<Block> = Vec::with_capacity(self.r);\n\n        for (i, b_elem) in b.iter().enumerate() {\n")]),
 ("scrypt-b-for", SCR, [(C, """        let mut b: Vec<Vec<Block>> = raw_b
            .chunks_exact(2 * BLOCK_SIZE * self.r)
            .map(|chunk| {
                chunk
                    .chunks_exact(BLOCK_SIZE)
                    .map(|sub_chunk| sub_chunk.to_vec())
                    .collect()
            })
            .collect();

        // Step 2
        b = b.into_iter().map(|elem| self.ro_mix(elem)).collect();
""", """        let mut b: Vec<Vec<Block>> = Vec::with_capacity(self.p);
        for chunk in raw_b.chunks_exact(2 * BLOCK_SIZE * self.r) {
            let mut blocks: Vec<Block> = Vec::with_capacity(2 * self.r);
            for sub_chunk in chunk.chunks_exact(BLOCK_SIZE) {
                blocks.push(sub_chunk.to_vec());
            }

            // Step 2
            b.push(self.ro_mix(blocks));
        }
""")]),
 ("scrypt-salt-for", SCR, [(C, "        let b_salt: Vec<u8> = b.into_iter().flatten().flatten().collect();\n", """        let mut b_salt: Vec<u8> = Vec::with_capacity(raw_b.len());
        for blocks in b.iter() {
            for block in blocks.iter() {
                b_salt.extend_from_slice(block);
            }
        }
""")]),
 ("scrypt-checks-fn", SCR, [(C, """        if self.r < 1 {
            return Err(ScryptError::RIsTooSmall);
        }

        if self.n < 2 {
            return Err(ScryptError::NIsTooSmall);
        }

        if ((self.n - 1) & self.n) != 0 {
            return Err(ScryptError::NIsNotAPowerOfTwo);
        }

        if self.p < 1 {
            return Err(ScryptError::PIsTooSmall);
        }
""", "        self.check()?;\n"), (C, "    fn block_mix(self", """    fn check(&self) -> Result<(), ScryptError> {
        if self.r == 0 {
            Err(ScryptError::RIsTooSmall)
        } else if self.n <= 1 {
            Err(ScryptError::NIsTooSmall)
        } else if self.n & (self.n - 1) != 0 {
            Err(ScryptError::NIsNotAPowerOfTwo)
        } else if self.p == 0 {
            Err(ScryptError::PIsTooSmall)
        } else {
            Ok(())
        }
    }

    fn block_mix(self""")]),
 ("scrypt-xor-vec-fn", SCR, [(C, """            let t: Vec<Block> = x
                .iter()
                .zip(v[j].iter())
                .map(|(x_block, v_block)| block_xor(x_block, v_block))
                .collect();
            x = self.block_mix(&t);
""", "            x = self.block_mix(&blocks_xor(&x, &v[j]));\n"), (C, "fn integerify", "fn blocks_xor(a: &[Block], b: &[Block]) -> Vec<Block> {\n    a.iter()\n        .zip(b.iter())\n        .map(|(x, y)| block_xor(x, y))\n        .collect()\n}\n\nfn integerify")]),
 ("scrypt-replace", SCR, [(C, "            let t = self.block_mix(&x);\n            v.push(x);\n            x = t;\n", "            v.push(x.clone());\n            x = self.block_mix(&x);\n")]),
 ("aes-shift-loop", AES, [(A, """        [
            [s[0][0], s[1][1], s[2][2], s[3][3]],
            [s[1][0], s[2][1], s[3][2], s[0][3]],
            [s[2][0], s[3][1], s[0][2], s[1][3]],
            [s[3][0], s[0][1], s[1][2], s[2][3]],
        ]
""", """        let mut out: Block = [[0; 4]; 4];
        for col in 0..4 {
            for row in 0..4 {
                out[col][row] = s[(col + row) % 4][row];
            }
        }
        out
""")]),
 ("aes-mix-locals", AES, [(A, """        [
            mul(col[0], 2) ^ mul(col[1], 3) ^ col[2] ^ col[3],
            mul(col[1], 2) ^ mul(col[2], 3) ^ col[3] ^ col[0],
            mul(col[2], 2) ^ mul(col[3], 3) ^ col[0] ^ col[1],
            mul(col[3], 2) ^ mul(col[0], 3) ^ col[1] ^ col[2],
        ]
""", """        let [a, b, c, d] = col;
        [
            double(a) ^ (double(b) ^ b) ^ c ^ d,
            a ^ double(b) ^ (double(c) ^ c) ^ d,
            a ^ b ^ double(c) ^ (double(d) ^ d),
            (double(a) ^ a) ^ b ^ c ^ double(d),
        ]
""")]),
 ("aes-to-block-loop", AES, [(A, """    [
        [b[0], b[1], b[2], b[3]],
        [b[4], b[5], b[6], b[7]],
        [b[8], b[9], b[10], b[11]],
        [b[12], b[13], b[14], b[15]],
    ]
""", "    let mut s: Block = [[0; 4]; 4];\n    for (i, &byte) in b.iter().enumerate() {\n        s[i / 4][i % 4] = byte;\n    }\n    s\n")]),
 ("aes-from-block-loop", AES, [(A, """    [
        s[0][0], s[0][1], s[0][2], s[0][3], s[1][0], s[1][1], s[1][2], s[1][3], s[2][0], s[2][1],
        s[2][2], s[2][3], s[3][0], s[3][1], s[3][2], s[3][3],
    ]
""", "    let mut out = [0; BLOCK_SIZE];\n    for col in 0..4 {\n        for row in 0..4 {\n            out[4 * col + row] = s[col][row];\n        }\n    }\n    out\n")]),
 ("aes-init-if", AES, [(A, """        self.round_count = match key.len() {
            // 128 bits
            16 => 10,

            // 192 bits
            24 => 12,

            // 256 bits
            32 => 14,

            // Invalid key size
            _ => {
                return Err(AESError::InvalidKeySize);
            }
        };
""", """        if key.len() != 16 && key.len() != 24 && key.len() != 32 {
            return Err(AESError::InvalidKeySize);
        }
        self.round_count = key.len() / 4 + 6;
""")]),
 ("aes-init-fn", AES, [(A, """        self.round_count = match key.len() {
            // 128 bits
            16 => 10,

            // 192 bits
            24 => 12,

            // 256 bits
            32 => 14,

            // Invalid key size
            _ => {
                return Err(AESError::InvalidKeySize);
            }
        };
""", "        self.round_count = rounds_for(key.len())?;\n"), (A, "fn to_block", """fn rounds_for(key_len: usize) -> Result<usize, AESError> {
    match key_len {
        16 => Ok(10),
        24 => Ok(12),
        32 => Ok(14),
        _ => Err(AESError::InvalidKeySize),
    }
}

fn to_block""")]),
 ("aes-rename", AES, [(A, "word:round_count", "rounds"), (A, "word:round_keys", "schedule"), (A, "word:state", "block")]),
 ("aes-enc-chunks", AES, [(A, """        for round in 1..nr {
            AESEncrypt::sub_bytes(&mut state);
            state = AESEncrypt::shift_rows(&state);
            AESEncrypt::mix_columns(&mut state);
            AESEncrypt::add_round_key(&mut state, &round_keys[(round * NB)..((round + 1) * NB)]);
        }
""", """        for keys in round_keys[NB..(nr * NB)].chunks(NB) {
            AESEncrypt::sub_bytes(&mut state);
            state = AESEncrypt::shift_rows(&state);
            AESEncrypt::mix_columns(&mut state);
            AESEncrypt::add_round_key(&mut state, keys);
        }
""")]),
 ("aes-enc-while", AES, [(A, "        for round in 1..nr {\n            AESEncrypt::sub_bytes(&mut state);", "        let mut round = 0;\n        while round + 1 < nr {\n            round += 1;\n            AESEncrypt::sub_bytes(&mut state);")]),
 ("aes-dec-swap", AES, [(A, "            state = AESDecrypt::shift_rows(&state);\n            AESDecrypt::sub_bytes(&mut state);\n            AESDecrypt::add_round_key(&mut state, &round_keys[(round * NB)", "            AESDecrypt::sub_bytes(&mut state);\n            state = AESDecrypt::shift_rows(&state);\n            AESDecrypt::add_round_key(&mut state, &round_keys[(round * NB)")]),
 ("aes-dec-index", AES, [(A, "        for round in (1..nr).rev() {\n            state = AESDecrypt", "        for i in 1..nr {\n            let round = nr - i;\n            state = AESDecrypt")]),
 ("aes-expand-chunks", AES, [(A, """    let mut i: usize = 0;
    while i < nk {
        w.push(
            (u32::from(key[4 * i]) << 24)
                | (u32::from(key[4 * i + 1]) << 16)
                | (u32::from(key[4 * i + 2]) << 8)
                | u32::from(key[4 * i + 3]),
        );
        i += 1;
    }
""", """    for bytes in key.chunks(4) {
        w.push(
            (u32::from(bytes[0]) << 24)
                | (u32::from(bytes[1]) << 16)
                | (u32::from(bytes[2]) << 8)
                | u32::from(bytes[3]),
        );
    }
    let mut i = nk;
""")]),
 ("aes-expand-if", AES, [(A, """        let mut temp = w[i - 1];
        if i % nk == 0 {
            temp = sub_word(rot_word(temp)) ^ RCON[i / nk - 1];
        } else if nk > 6 && i % nk == 4 {
            temp = sub_word(temp);
        }
        w.push(w[i - nk] ^ temp);
""", """        let prev = w[i - 1];
        let temp = if i % nk == 0 {
            sub_word(rot_word(prev)) ^ RCON[i / nk - 1]
        } else if nk == 8 && i % 8 == 4 {
            sub_word(prev)
        } else {
            prev
        };
        w.push(temp ^ w[i - nk]);
""")]),
 ("aes-subword-be", AES, [(A, """    (u32::from(SBOX[b0]) << 24)
        | (u32::from(SBOX[b1]) << 16)
        | (u32::from(SBOX[b2]) << 8)
        | u32::from(SBOX[b3])
""", "    u32::from_be_bytes([SBOX[b0], SBOX[b1], SBOX[b2], SBOX[b3]])\n")]),
 ("aes-addkey-be", AES, [(A, """            col[0] ^= (key >> 24) as u8;
            col[1] ^= ((key >> 16) & 0xff) as u8;
            col[2] ^= ((key >> 8) & 0xff) as u8;
            col[3] ^= (key & 0xff) as u8;
""", "            let bytes = key.to_be_bytes();\n            for (cell, byte) in col.iter_mut().zip(bytes.iter()) {\n                *cell ^= *byte;\n            }\n")]),
 ("aes-keys-fn", AES, [(A, """        let round_keys = match &self.round_keys {
            Some(keys) => keys,
            None => {
                return Err(AESError::NotInitialized);
            }
        };

        AESEncrypt::""", "        let round_keys = self.keys()?;\n\n        AESEncrypt::"), (A, """        let round_keys = match &self.round_keys {
            Some(keys) => keys,
            None => {
                return Err(AESError::NotInitialized);
            }
        };

        AESDecrypt::""", "        let round_keys = self.keys()?;\n\n        AESDecrypt::"), (A, "    /// Encrypt block of data.\n", """    fn keys(&self) -> Result<&Vec<u32>, AESError> {
        match &self.round_keys {
            Some(keys) => Ok(keys),
            None => Err(AESError::NotInitialized),
        }
    }

    /// Encrypt block of data.
""")]),
 ("cbc-rename", CBC, [(B, "word:buffer", "pending"), (B, "word:unpad", "strip"), (B, "self.iv", "self.prev") if False else (B, "word:padded_result", "clear")]),
 ("cbc-dec-helper", CBC, [(B, DECBODY, "            let cleartext = self.decrypt_block(ciphertext)?;\n            padded_result.extend_from_slice(&cleartext);\n"), (B, "    /// Decrypt and return final cleartext data\n", """    fn decrypt_block(&mut self, b: &[u8]) -> Result<[u8; BLOCK_SIZE], DecipherError> {
        let mut block = [0; BLOCK_SIZE];
        block.copy_from_slice(b);

        let mut cleartext = match self.aes.decrypt(&block) {
            Err(err) => return Err(DecipherError::AES(err)),
            Ok(out) => out,
        };

        for (elem, iv_elem) in cleartext.iter_mut().zip(self.iv.iter()) {
            *elem ^= iv_elem;
        }

        self.iv = block;
        Ok(cleartext)
    }

    /// Decrypt and return final cleartext data
""")]),
 ("cbc-xor-fn", CBC, [(B, "        for (elem, iv_elem) in block.iter_mut().zip(self.iv.iter()) {\n            *elem ^= iv_elem;\n        }\n", "        xor_block(&mut block, &self.iv);\n"),
   (B, "            for (elem, iv_elem) in cleartext.iter_mut().zip(self.iv.iter()) {\n                *elem ^= iv_elem;\n            }\n", "            xor_block(&mut cleartext, &self.iv);\n"),
   (B, "impl Cipher {", "fn xor_block(block: &mut [u8; BLOCK_SIZE], other: &[u8; BLOCK_SIZE]) {\n    for (a, b) in block.iter_mut().zip(other.iter()) {\n        *a ^= b;\n    }\n}\n\nimpl Cipher {")]),
 ("cbc-init-tail", CBC, [(B, "        self.aes.init(key)?;\n        Ok(())\n    }\n\n    /// Encrypt data", "        self.aes.init(key)\n    }\n\n    /// Encrypt data")]),
 ("cbc-xor-build", CBC, [(B, "        let mut block = [0; BLOCK_SIZE];\n        block.copy_from_slice(&b);\n\n        for (elem, iv_elem) in block.iter_mut().zip(self.iv.iter()) {\n            *elem ^= iv_elem;\n        }\n", "        let mut block = self.iv;\n        for (elem, b_elem) in block.iter_mut().zip(b.iter()) {\n            *elem ^= b_elem;\n        }\n")]),
 ("cbc-dec-out-array", CBC, [(B, "            for (elem, iv_elem) in cleartext.iter_mut().zip(self.iv.iter()) {\n                *elem ^= iv_elem;\n            }\n\n            self.iv = block;\n            padded_result.append(&mut cleartext.to_vec());\n", "            for i in 0..BLOCK_SIZE {\n                padded_result.push(cleartext[i] ^ self.iv[i]);\n            }\n\n            self.iv = block;\n"), (B, "            let mut cleartext = match self.aes.decrypt", "            let cleartext = match self.aes.decrypt")]),
 ("cbc-dec-unwrap", CBC, [(B, "        Ok(self.unpad.write(&padded_result).unwrap_or_default())", "        match self.unpad.write(&padded_result) {\n            Some(cleartext) => Ok(cleartext),\n            None => Ok(vec![]),\n        }")]),
 ("pad-drain", CBC, [(K, SPLIT % "is_empty", "        let head: Vec<u8> = self.storage.drain(..tail_pos).collect();\n\n        Some(head)\n    }\n\n    pub fn is_empty")]),
 ("pad-take", CBC, [(K, SPLIT % "is_empty", "        let tail = self.storage.split_off(tail_pos);\n        let head = std::mem::replace(&mut self.storage, tail);\n\n        Some(head)\n    }\n\n    pub fn is_empty")]),
 ("pad-slices", CBC, [(K, SPLIT % "is_empty", "        let head = self.storage[..tail_pos].to_vec();\n        let tail = self.storage[tail_pos..].to_vec();\n        self.storage = tail;\n\n        Some(head)\n    }\n\n    pub fn is_empty")]),
 ("pad-split-fn", CBC, [(K, SPLIT % "is_empty", "        Some(split_head(&mut self.storage, tail_pos))\n    }\n\n    pub fn is_empty"),
   (K, """        let mut tail = self.storage.split_off(tail_pos);
        let head = self.storage.clone();
        self.storage.clear();
        self.storage.append(&mut tail);

        Some(head)
    }

    pub fn flush(&mut self) -> Result""", "        Some(split_head(&mut self.storage, tail_pos))\n    }\n\n    pub fn flush(&mut self) -> Result"),
   (K, "impl Pad {", "fn split_head(storage: &mut Vec<u8>, tail_pos: usize) -> Vec<u8> {\n    let mut tail = storage.split_off(tail_pos);\n    let head = storage.clone();\n    storage.clear();\n    storage.append(&mut tail);\n    head\n}\n\nimpl Pad {")]),
 ("pad-pos-div", CBC, [(K, "        let tail_len = self.storage.len() % self.block_size;\n        let tail_pos = self.storage.len() - tail_len;\n", "        let tail_pos = self.storage.len() / self.block_size * self.block_size;\n")]),
 ("pad-rename", CBC, [(K, "word:storage", "pending"), (K, "word:block_size", "size")]),
 ("unpad-fold", CBC, [(K, """        let mut is_same: u8 = 0;
        for b in self.storage[pad_off..].iter() {
            is_same |= len ^ b;
        }
""", "        let is_same: u8 = self.storage[pad_off..]\n            .iter()\n            .fold(0, |acc, b| acc | (len ^ b));\n")]),
 ("unpad-last", CBC, [(K, "        let len = self.storage[self.storage.len() - 1];\n", "        let len = self.storage[self.block_size - 1];\n")]),
 ("unpad-usize", CBC, [(K, "        if len == 0 || len > (self.block_size as u8) {", "        if len == 0 || usize::from(len) > self.block_size {")]),
 ("unpad-valid-fn", CBC, [(K, """        let mut is_same: u8 = 0;
        for b in self.storage[pad_off..].iter() {
            is_same |= len ^ b;
        }

        if is_same != 0 {""", "        if !all_equal(&self.storage[pad_off..], len) {"), (K, "impl Unpad {", "fn all_equal(bytes: &[u8], value: u8) -> bool {\n    let mut diff: u8 = 0;\n    for b in bytes.iter() {\n        diff |= value ^ b;\n    }\n    diff == 0\n}\n\nimpl Unpad {")]),
 ("unpad-range", CBC, [(K, "        for b in self.storage[pad_off..].iter() {\n            is_same |= len ^ b;\n        }\n", "        for i in pad_off..self.block_size {\n            is_same |= len ^ self.storage[i];\n        }\n")]),
 ("unpad-write-len", CBC, [(K, """        let mut tail_len = self.storage.len() % self.block_size;

        // NOTE: this is different from the Pad::write
        if tail_len == 0 {
            tail_len = self.block_size;
        }
""", "        // NOTE: this is different from the Pad::write\n        let tail_len = (self.storage.len() - 1) % self.block_size + 1;\n")]),
]
