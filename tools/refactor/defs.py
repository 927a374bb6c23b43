# Behaviour-preserving edits: (id, modules' properties, [(file, old, new)])
S, H, P, L, C, A, B, K = ("src/%s.rs" % x for x in ("sha256", "hmac", "pbkdf2", "salsa20", "scrypt", "aes", "aes_cbc", "pkcs7"))
SHA, MAC, KDF, SAL, SCR, AES, CBC = "C01,C02", "C02,C03", "C04", "C05,C06", "C06,C07", "C08,C09,C10", "C10,C11,C12,C13"
R = [
 ("sha-helper-compress", SHA, [(S, "            fill_block(&self.buffer, &mut block);\n            self.process_block(&block);\n        }\n    }\n\n    ///\n    /// Generate digest array.",
   "            self.flush_buffer(&mut block);\n        }\n    }\n\n    fn flush_buffer(&mut self, block: &mut [u32; BLOCK_SIZE / 4]) {\n        fill_block(&self.buffer, block);\n        self.process_block(block);\n    }\n\n    ///\n    /// Generate digest array.")]),
 ("sha-update-if", SHA, [(S, "            if self.length % BLOCK_SIZE != 0 {\n                continue;\n            }\n\n            fill_block(&self.buffer, &mut block);\n            self.process_block(&block);\n        }",
   "            if self.length % BLOCK_SIZE == 0 {\n                fill_block(&self.buffer, &mut block);\n                self.process_block(&block);\n            }\n        }")]),
 ("sha-update-index", SHA, [(S, "        for &b in data {\n            let off = self.length % BLOCK_SIZE;", "        for i in 0..data.len() {\n            let b = data[i];\n            let off = self.length % BLOCK_SIZE;")]),
 ("sha-update-iter", SHA, [(S, "        for &b in data {\n            let off = self.length % BLOCK_SIZE;", "        for b in data.iter() {\n            let b = *b;\n            let off = self.length % BLOCK_SIZE;")]),
 ("sha-fill-zip", SHA, [(S, """    for i in 0..output.len() {
        let i0 = u32::from(input[i * 4]);
        let i1 = u32::from(input[i * 4 + 1]);
        let i2 = u32::from(input[i * 4 + 2]);
        let i3 = u32::from(input[i * 4 + 3]);

        output[i] = (i0 << 24) | (i1 << 16) | (i2 << 8) | i3;
    }""", """    for (word, bytes) in output.iter_mut().zip(input.chunks(4)) {
        let i0 = u32::from(bytes[0]);
        let i1 = u32::from(bytes[1]);
        let i2 = u32::from(bytes[2]);
        let i3 = u32::from(bytes[3]);

        *word = (i0 << 24) | (i1 << 16) | (i2 << 8) | i3;
    }""")]),
 ("sha-write-loop", SHA, [(S, """    data[0] = (value >> 56) as u8;
    data[1] = (value >> 48) as u8;
    data[2] = (value >> 40) as u8;
    data[3] = (value >> 32) as u8;
    data[4] = (value >> 24) as u8;
    data[5] = (value >> 16) as u8;
    data[6] = (value >> 8) as u8;
    data[7] = (value) as u8;
""", """    for (i, byte) in data.iter_mut().enumerate().take(8) {
        *byte = (value >> (56 - 8 * i)) as u8;
    }
""")]),
 ("sha-out-chunks", SHA, [(S, """        for i in 0..self.h.len() {
            out[i * 4] = (self.h[i] >> 24) as u8;
            out[i * 4 + 1] = (self.h[i] >> 16) as u8;
            out[i * 4 + 2] = (self.h[i] >> 8) as u8;
            out[i * 4 + 3] = (self.h[i]) as u8;
        }
        out""", """        for (i, &word) in self.h.iter().enumerate() {
            out[i * 4] = (word >> 24) as u8;
            out[i * 4 + 1] = (word >> 16) as u8;
            out[i * 4 + 2] = (word >> 8) as u8;
            out[i * 4 + 3] = word as u8;
        }
        out""")]),
 ("sha-rotr-std", SHA, [(S, "    (n << (32 - s)) | (n >> s)", "    n.rotate_right(s)")]),
 ("sha-ch-alt", SHA, [(S, "    (x & y) ^ ((!x) & z)", "    z ^ (x & (y ^ z))"), (S, "    (x & y) ^ (x & z) ^ (y & z)", "    (x & y) | (z & (x | y))")]),
 ("sha-reorder", SHA, [(S, "        a = self.h[0];\n        b = self.h[1];\n        c = self.h[2];\n        d = self.h[3];", "        d = self.h[3];\n        c = self.h[2];\n        b = self.h[1];\n        a = self.h[0];"),
   (S, "            // Fill the buffer\n            self.buffer[off] = b;\n            self.length += 1;", "            // Fill the buffer\n            self.length += 1;\n            self.buffer[off] = b;")]),
 ("sha-let-vars", SHA, [(S, "        let mut a: u32;\n        let mut b: u32;\n        let mut c: u32;\n        let mut d: u32;\n        let mut e: u32;\n        let mut f: u32;\n        let mut g: u32;\n        let mut h: u32;\n\n", ""),
   (S, "        a = self.h[0];\n        b = self.h[1];\n        c = self.h[2];\n        d = self.h[3];\n        e = self.h[4];\n        f = self.h[5];\n        g = self.h[6];\n        h = self.h[7];\n",
    "        let mut a = self.h[0];\n        let mut b = self.h[1];\n        let mut c = self.h[2];\n        let mut d = self.h[3];\n        let mut e = self.h[4];\n        let mut f = self.h[5];\n        let mut g = self.h[6];\n        let mut h = self.h[7];\n")]),
 ("sha-digest-else", SHA, [(S, "            off = 0;\n            self.buffer = [0; BLOCK_SIZE];\n        }\n", "            self.buffer = [0; BLOCK_SIZE];\n            off = 0;\n        } else {\n            // (a)\n            self.buffer[off] |= 0x80;\n        }\n"),
   (S, "        // (a)\n        if !has_overflow {\n            self.buffer[off] |= 0x80;\n        }\n\n", "        debug_assert!(off < BLOCK_SIZE);\n")]),
 ("sha-add-helper", SHA, [(S, "        self.h[0] = wrapping_sum!(self.h[0], a);\n        self.h[1] = wrapping_sum!(self.h[1], b);\n        self.h[2] = wrapping_sum!(self.h[2], c);\n        self.h[3] = wrapping_sum!(self.h[3], d);\n        self.h[4] = wrapping_sum!(self.h[4], e);\n        self.h[5] = wrapping_sum!(self.h[5], f);\n        self.h[6] = wrapping_sum!(self.h[6], g);\n        self.h[7] = wrapping_sum!(self.h[7], h);\n",
   "        let vars = [a, b, c, d, e, f, g, h];\n        for (word, var) in self.h.iter_mut().zip(vars.iter()) {\n            *word = word.wrapping_add(*var);\n        }\n")]),
 ("hmac-key-helper", MAC, [(H, "        if key.len() > BLOCK_SIZE {\n            let mut tmp = SHA256::new();\n            tmp.update(key);\n            return HMac::new(&tmp.digest());\n        }\n\n        let mut block: [u8; BLOCK_SIZE] = [0; BLOCK_SIZE];\n",
   "        let mut block: [u8; BLOCK_SIZE] = [0; BLOCK_SIZE];\n"),
   (H, "        block[..key.len()].copy_from_slice(key);\n", "        if key.len() > BLOCK_SIZE {\n            let mut tmp = SHA256::new();\n            tmp.update(key);\n            block[..DIGEST_SIZE].copy_from_slice(&tmp.digest());\n        } else {\n            block[..key.len()].copy_from_slice(key);\n        }\n")]),
 ("hmac-two-pads", MAC, [(H, "        for elem in block.iter_mut() {\n            *elem ^= 0x36;\n        }\n        inner.update(&block);\n", "        let mut ipad = block;\n        for elem in ipad.iter_mut() {\n            *elem ^= 0x36;\n        }\n        inner.update(&ipad);\n"),
   (H, "            *elem ^= 0x36 ^ 0x5c;", "            *elem ^= 0x5c;")]),
 ("hmac-digest-let", MAC, [(H, "        self.outer.update(&self.inner.digest());\n        self.outer.digest()", "        let inner_digest = self.inner.digest();\n        self.outer.update(&inner_digest);\n        self.outer.digest()")]),
 ("hmac-for-index", MAC, [(H, "        for elem in block.iter_mut() {\n            *elem ^= 0x36;\n        }\n", "        for i in 0..BLOCK_SIZE {\n            block[i] ^= 0x36;\n        }\n")]),
 ("pbkdf2-helper-f", KDF, [(P, """        let ctr: [u8; 4] = [(i >> 24) as u8, (i >> 16) as u8, (i >> 8) as u8, i as u8];

        // U_1 = PRF (P, S || INT (i))
        let mut hmac = HMac::new(password);
        hmac.update(salt);
        hmac.update(&ctr);
        let mut u = hmac.digest();
        let mut t = u;

        for _j in 2..=c {
            // U_c = PRF (P, U_{c-1})
            let mut hmac = HMac::new(password);
            hmac.update(&u);
            u = hmac.digest();

            // Xor Us
            for k in 0..u.len() {
                t[k] ^= u[k];
            }
        }

        // Copy out the results
""", """        let t = f(password, salt, c, i);

        // Copy out the results
"""), (P, "///\n/// Generate `out.len()` bytes", "///\n/// Generate `out.len()` bytes") if False else (P, "use crate::sha256::DIGEST_SIZE;\n", """use crate::sha256::DIGEST_SIZE;

fn f(password: &[u8], salt: &[u8], c: usize, i: usize) -> [u8; DIGEST_SIZE] {
    let ctr: [u8; 4] = [(i >> 24) as u8, (i >> 16) as u8, (i >> 8) as u8, i as u8];

    // U_1 = PRF (P, S || INT (i))
    let mut hmac = HMac::new(password);
    hmac.update(salt);
    hmac.update(&ctr);
    let mut u = hmac.digest();
    let mut t = u;

    for _j in 2..=c {
        // U_c = PRF (P, U_{c-1})
        let mut hmac = HMac::new(password);
        hmac.update(&u);
        u = hmac.digest();

        // Xor Us
        for k in 0..u.len() {
            t[k] ^= u[k];
        }
    }
    t
}
""")]),
 ("pbkdf2-zip", KDF, [(P, "            for k in 0..u.len() {\n                t[k] ^= u[k];\n            }", "            for (t_elem, u_elem) in t.iter_mut().zip(u.iter()) {\n                *t_elem ^= u_elem;\n            }")]),
 ("pbkdf2-range", KDF, [(P, "        for _j in 2..=c {", "        for _ in 1..c {")]),
 ("pbkdf2-chunks", KDF, [(P, "    for i in 1..=l {\n", "    debug_assert!(l <= out.len());\n    for (index, chunk) in out.chunks_mut(DIGEST_SIZE).enumerate() {\n        let i = index + 1;\n"),
   (P, "        let start = (i - 1) * DIGEST_SIZE;\n        let end = std::cmp::min(i * DIGEST_SIZE, out.len());\n        out[start..end].copy_from_slice(&t[..(end - start)]);", "        let len = chunk.len();\n        chunk.copy_from_slice(&t[..len]);")]),
 ("pbkdf2-len", KDF, [(P, "        let start = (i - 1) * DIGEST_SIZE;\n        let end = std::cmp::min(i * DIGEST_SIZE, out.len());\n        out[start..end].copy_from_slice(&t[..(end - start)]);", "        let start = (i - 1) * DIGEST_SIZE;\n        let len = std::cmp::min(DIGEST_SIZE, out.len() - start);\n        out[start..(start + len)].copy_from_slice(&t[..len]);")]),
 ("salsa-rotl-std", SAL, [(L, "    (n << s) | (n >> (32 - s))", "    n.rotate_left(u32::from(s))")]),
 ("salsa-local-z", SAL, [(L, "    z[1] = y[1] ^ rotl(wrapping_sum!(y[0], y[3]), 7);\n    z[2] = y[2] ^ rotl(wrapping_sum!(z[1], y[0]), 9);\n    z[3] = y[3] ^ rotl(wrapping_sum!(z[2], z[1]), 13);\n    z[0] = y[0] ^ rotl(wrapping_sum!(z[3], z[2]), 18);",
   "    let z1 = y[1] ^ rotl(y[0].wrapping_add(y[3]), 7);\n    let z2 = y[2] ^ rotl(z1.wrapping_add(y[0]), 9);\n    let z3 = y[3] ^ rotl(z2.wrapping_add(z1), 13);\n    z[0] = y[0] ^ rotl(z3.wrapping_add(z2), 18);\n    z[1] = z1;\n    z[2] = z2;\n    z[3] = z3;")]),
 ("salsa-index-loops", SAL, [(L, "    for (i, elem) in x.iter_mut().enumerate() {\n        let from = i * 4;\n        let to = from + 4;\n        *elem = littleendian(&input[from..to]);\n    }", "    for i in 0..16 {\n        x[i] = littleendian(&input[4 * i..4 * i + 4]);\n    }"),
   (L, "    for ((i, &x_elem), &z_elem) in x.iter().enumerate().zip(z.iter()) {\n        let from = i * 4;\n        let to = from + 4;\n        littleendian_inv(wrapping_sum!(x_elem, z_elem), &mut output[from..to]);\n    }", "    for i in 0..16 {\n        littleendian_inv(wrapping_sum!(x[i], z[i]), &mut output[4 * i..4 * i + 4]);\n    }")]),
 ("salsa-while", SAL, [(L, "    for _ in 0..rounds {\n        let mut t: [u32; 16] = [0; 16];\n        doubleround(&z, &mut t);\n        z = t;\n    }", "    let mut left = rounds;\n    while left > 0 {\n        let mut t: [u32; 16] = [0; 16];\n        doubleround(&z, &mut t);\n        z = t;\n        left -= 1;\n    }")]),
 ("salsa-helper-dr", SAL, [(L, "        let mut t: [u32; 16] = [0; 16];\n        doubleround(&z, &mut t);\n        z = t;\n    }", "        let y = z;\n        doubleround(&y, &mut z);\n    }")]),
 ("scrypt-validate", SCR, [(C, """        if self.r < 1 {
            return Err(ScryptError::RIsTooSmall);
        }

        if self.n < 2 {
            return Err(ScryptError::NIsTooSmall);
        }

        if ((self.n - 1) & self.n) != 0 {
            return Err(ScryptError::NIsNotAPowerOfTwo);
        }

        if self.p < 1 {
            return Err(ScryptError::PIsTooSmall);
        }

""", "        self.validate()?;\n\n"), (C, "    fn block_mix(self: &Scrypt", """    fn validate(&self) -> Result<(), ScryptError> {
        if self.r < 1 {
            return Err(ScryptError::RIsTooSmall);
        }

        if self.n < 2 {
            return Err(ScryptError::NIsTooSmall);
        }

        if ((self.n - 1) & self.n) != 0 {
            return Err(ScryptError::NIsNotAPowerOfTwo);
        }

        if self.p < 1 {
            return Err(ScryptError::PIsTooSmall);
        }

        Ok(())
    }

    fn block_mix(self: &Scrypt""")]),
 ("scrypt-pow2-std", SCR, [(C, "        if ((self.n - 1) & self.n) != 0 {", "        if !self.n.is_power_of_two() {")]),
 ("scrypt-order", SCR, [(C, "        if self.p < 1 {\n            return Err(ScryptError::PIsTooSmall);\n        }\n\n        //\n", "        //\n"), (C, "        if self.r < 1 {\n            return Err(ScryptError::RIsTooSmall);\n        }\n", "        if self.p == 0 {\n            return Err(ScryptError::PIsTooSmall);\n        }\n\n        if self.r == 0 {\n            return Err(ScryptError::RIsTooSmall);\n        }\n")]),
 ("scrypt-mask", SCR, [(C, "            let j = (integerify(&x) as usize) % self.n;", "            let j = (integerify(&x) as usize) & (self.n - 1);")]),
 ("scrypt-xor-loop", SCR, [(C, "    a.iter().zip(b.iter()).map(|(a, b)| a ^ b).collect()", "    let mut out = Vec::with_capacity(a.len());\n    for i in 0..a.len() {\n        out.push(a[i] ^ b[i]);\n    }\n    out")]),
 ("scrypt-mix-index", SCR, [(C, "        for b_elem in b.iter() {\n            let t = block_xor(&x, b_elem);", "        for i in 0..b.len() {\n            let t = block_xor(&x, &b[i]);")]),
 ("scrypt-shuffle", SCR, [(C, """        let mut bs_head: Vec<Block> = Vec::with_capacity(2 * self.r);
        let mut bs_tail: Vec<Block> = Vec::with_capacity(self.r);
        for (i, y_elem) in y.into_iter().enumerate() {
            if i % 2 == 0 {
                bs_head.push(y_elem);
            } else {
                bs_tail.push(y_elem);
            }
        }
        bs_head.append(&mut bs_tail);
        bs_head
""", """        let mut out: Vec<Block> = Vec::with_capacity(2 * self.r);
        for i in 0..self.r {
            out.push(y[2 * i].clone());
        }
        for i in 0..self.r {
            out.push(y[2 * i + 1].clone());
        }
        out
""")]),
 ("scrypt-xor-helper", SCR, [(C, "            let t: Vec<Block> = x\n                .iter()\n                .zip(v[j].iter())\n                .map(|(x_block, v_block)| block_xor(x_block, v_block))\n                .collect();\n            x = self.block_mix(&t);", "            let t = blocks_xor(&x, &v[j]);\n            x = self.block_mix(&t);"),
   (C, "fn integerify(", "fn blocks_xor(a: &[Block], b: &[Block]) -> Vec<Block> {\n    a.iter().zip(b.iter()).map(|(a, b)| block_xor(a, b)).collect()\n}\n\nfn integerify(")]),
 ("scrypt-let-size", SCR, [(C, "        let mut raw_b: Vec<u8> = vec![0; self.p * 2 * BLOCK_SIZE * self.r];", "        let chunk_size = 2 * BLOCK_SIZE * self.r;\n        let mut raw_b: Vec<u8> = vec![0; self.p * chunk_size];"), (C, ".chunks_exact(2 * BLOCK_SIZE * self.r)", ".chunks_exact(chunk_size)")]),
 ("aes-double-alt", AES, [(A, "    if (b & 0x80) == 0 {\n        b << 1\n    } else {\n        (b << 1) ^ 0x1b\n    }", "    let shifted = b << 1;\n    if b >= 0x80 {\n        shifted ^ 0x1b\n    } else {\n        shifted\n    }")]),
 ("aes-mul-while", AES, [(A, "    while by != 0 {\n        if (by & 1) != 0 {\n            res ^= power;\n        }\n        power = double(power);\n        by >>= 1;\n    }", "    while by > 0 {\n        if by % 2 == 1 {\n            res ^= power;\n        }\n        by /= 2;\n        power = double(power);\n    }")]),
 ("aes-expand-for", AES, [(A, "    let mut i: usize = 0;\n    while i < nk {\n", "    for i in 0..nk {\n"), (A, "                | u32::from(key[4 * i + 3]),\n        );\n        i += 1;\n    }\n", "                | u32::from(key[4 * i + 3]),\n        );\n    }\n"),
   (A, "    while i < NB * (round_count + 1) {\n        let mut temp", "    for i in nk..NB * (round_count + 1) {\n        let mut temp"), (A, "        w.push(w[i - nk] ^ temp);\n        i += 1;\n    }", "        w.push(w[i - nk] ^ temp);\n    }")]),
 ("aes-addkey-index", AES, [(A, "        for (col, &key) in s.iter_mut().zip(round_key) {\n            col[0] ^= (key >> 24) as u8;\n            col[1] ^= ((key >> 16) & 0xff) as u8;\n            col[2] ^= ((key >> 8) & 0xff) as u8;\n            col[3] ^= (key & 0xff) as u8;\n        }", "        for i in 0..NB {\n            let key = round_key[i];\n            s[i][0] ^= (key >> 24) as u8;\n            s[i][1] ^= (key >> 16) as u8;\n            s[i][2] ^= (key >> 8) as u8;\n            s[i][3] ^= key as u8;\n        }")]),
 ("aes-keys-first", AES, [(A, "        let nr = self.round_count;\n\n        let mut state = to_block(b);\n        let round_keys = match &self.round_keys {\n            Some(keys) => keys,\n            None => {\n                return Err(AESError::NotInitialized);\n            }\n        };\n\n        AESEncrypt", "        let round_keys = match &self.round_keys {\n            Some(keys) => keys,\n            None => return Err(AESError::NotInitialized),\n        };\n\n        let nr = self.round_count;\n        let mut state = to_block(b);\n\n        AESEncrypt")]),
 ("aes-ok-or", AES, [(A, "        let round_keys = match &self.round_keys {\n            Some(keys) => keys,\n            None => {\n                return Err(AESError::NotInitialized);\n            }\n        };\n\n        AESEncrypt", "        let round_keys = self.round_keys.as_ref().ok_or(AESError::NotInitialized)?;\n\n        AESEncrypt")]),
 ("aes-round-helper", AES, [(A, "            AESEncrypt::sub_bytes(&mut state);\n            state = AESEncrypt::shift_rows(&state);\n            AESEncrypt::mix_columns(&mut state);\n            AESEncrypt::add_round_key(&mut state, &round_keys[(round * NB)..((round + 1) * NB)]);\n        }", "            state = encrypt_round(state, &round_keys[(round * NB)..((round + 1) * NB)]);\n        }"),
   (A, "fn to_block(b: &[u8; BLOCK_SIZE]) -> Block {", "fn encrypt_round(mut state: Block, round_key: &[u32]) -> Block {\n    AESEncrypt::sub_bytes(&mut state);\n    state = AESEncrypt::shift_rows(&state);\n    AESEncrypt::mix_columns(&mut state);\n    AESEncrypt::add_round_key(&mut state, round_key);\n    state\n}\n\nfn to_block(b: &[u8; BLOCK_SIZE]) -> Block {")]),
 ("aes-init-local", AES, [(A, "        self.round_count = match key.len() {", "        let round_count = match key.len() {"), (A, "        self.round_keys = Some(expand_key(key, self.round_count));\n", "        self.round_keys = Some(expand_key(key, round_count));\n        self.round_count = round_count;\n")]),
 ("aes-rotword-std", AES, [(A, "    (b << 8) | (b >> 24)", "    b.rotate_left(8)")]),
 ("cbc-write-iflet", CBC, [(B, "        let blocks = match self.pad.write(b) {\n            None => {\n                return Ok(vec![]);\n            }\n            Some(block) => block,\n        };\n", "        let blocks = if let Some(blocks) = self.pad.write(b) {\n            blocks\n        } else {\n            return Ok(Vec::new());\n        };\n")]),
 ("cbc-extend", CBC, [(B, "            let mut ciphertext = self.encrypt_block(block)?;\n            result.append(&mut ciphertext);", "            result.extend_from_slice(&self.encrypt_block(block)?);")]),
 ("cbc-question", CBC, [(B, "        match self.aes.encrypt(&block) {\n            Ok(new_iv) => {\n                self.iv = new_iv;\n                Ok(new_iv.to_vec())\n            }\n            Err(err) => Err(err),\n        }", "        let new_iv = self.aes.encrypt(&block)?;\n        self.iv = new_iv;\n        Ok(new_iv.to_vec())")]),
 ("cbc-flush-direct", CBC, [(B, "        Ok(self.encrypt_block(&block)?)", "        self.encrypt_block(&block)"), (B, "        self.aes.init(key)?;\n        Ok(())\n    }\n\n    /// Encrypt data", "        self.aes.init(key)\n    }\n\n    /// Encrypt data")]),
 ("cbc-xor-helper", CBC, [(B, "        for (elem, iv_elem) in block.iter_mut().zip(self.iv.iter()) {\n            *elem ^= iv_elem;\n        }\n", "        xor_in_place(&mut block, &self.iv);\n"), (B, "            for (elem, iv_elem) in cleartext.iter_mut().zip(self.iv.iter()) {\n                *elem ^= iv_elem;\n            }\n", "            xor_in_place(&mut cleartext, &self.iv);\n"),
   (B, "/// Possible decipher errors", "fn xor_in_place(block: &mut [u8; BLOCK_SIZE], iv: &[u8; BLOCK_SIZE]) {\n    for (elem, iv_elem) in block.iter_mut().zip(iv.iter()) {\n        *elem ^= iv_elem;\n    }\n}\n\n/// Possible decipher errors")]),
 ("cbc-dec-maperr", CBC, [(B, "            let mut cleartext = match self.aes.decrypt(&block) {\n                Err(err) => return Err(DecipherError::AES(err)),\n                Ok(out) => out,\n            };\n", "            let mut cleartext = self.aes.decrypt(&block).map_err(DecipherError::AES)?;\n"), (B, "        match self.unpad.flush() {\n            Err(err) => Err(DecipherError::PKCS7(err)),\n            Ok(block) => Ok(block),\n        }", "        self.unpad.flush().map_err(DecipherError::PKCS7)")]),
 ("cbc-dec-match", CBC, [(B, "        Ok(self.unpad.write(&padded_result).unwrap_or_default())", "        match self.unpad.write(&padded_result) {\n            Some(clear) => Ok(clear),\n            None => Ok(vec![]),\n        }")]),
 ("cbc-dec-extend", CBC, [(B, "            padded_result.append(&mut cleartext.to_vec());", "            padded_result.extend_from_slice(&cleartext);")]),
 ("pad-extend", CBC, [(K, "    pub fn write(&mut self, buf: &[u8]) -> Option<Vec<u8>> {\n        for &elem in buf {\n            self.storage.push(elem);\n        }\n\n        if self.storage.len() < self.block_size {", "    pub fn write(&mut self, buf: &[u8]) -> Option<Vec<u8>> {\n        self.storage.extend_from_slice(buf);\n\n        if self.storage.len() < self.block_size {")]),
 ("pad-replace", CBC, [(K, "        let mut tail = self.storage.split_off(tail_pos);\n        let head = self.storage.clone();\n        self.storage.clear();\n        self.storage.append(&mut tail);\n\n        Some(head)\n    }\n\n    pub fn is_empty", "        let tail = self.storage.split_off(tail_pos);\n        Some(std::mem::replace(&mut self.storage, tail))\n    }\n\n    pub fn is_empty")]),
 ("pad-flush-resize", CBC, [(K, "        let len = self.block_size - self.storage.len();\n        while self.storage.len() < self.block_size {\n            self.storage.push(len as u8);\n        }\n", "        let len = self.block_size - self.storage.len();\n        self.storage.resize(self.block_size, len as u8);\n")]),
 ("pad-flush-for", CBC, [(K, "        while self.storage.len() < self.block_size {\n            self.storage.push(len as u8);\n        }\n\n        let result = self.storage.clone();\n        self.storage.clear();\n        result", "        for _ in 0..len {\n            self.storage.push(len as u8);\n        }\n\n        std::mem::replace(&mut self.storage, Vec::new())")]),
 ("unpad-for-ref", CBC, [(K, "        for b in self.storage[pad_off..].iter() {\n            is_same |= len ^ b;\n        }", "        for &b in &self.storage[pad_off..] {\n            is_same |= len ^ b;\n        }")]),
 ("unpad-index", CBC, [(K, "        for b in self.storage[pad_off..].iter() {\n            is_same |= len ^ b;\n        }", "        for i in pad_off..self.block_size {\n            is_same |= self.storage[i] ^ len;\n        }")]),
 ("unpad-all", CBC, [(K, "        let mut is_same: u8 = 0;\n        for b in self.storage[pad_off..].iter() {\n            is_same |= len ^ b;\n        }\n\n        if is_same != 0 {", "        let is_same = self.storage[pad_off..].iter().all(|&b| b == len);\n\n        if !is_same {")]),
 ("unpad-truncate", CBC, [(K, "        let result = self.storage[..pad_off].to_vec();\n        self.storage.clear();\n        Ok(result)", "        let mut result = self.storage.split_off(0);\n        result.truncate(pad_off);\n        Ok(result)")]),
 ("unpad-tail", CBC, [(K, "        let mut tail_len = self.storage.len() % self.block_size;\n\n        // NOTE: this is different from the Pad::write\n        if tail_len == 0 {\n            tail_len = self.block_size;\n        }\n", "        // NOTE: this is different from the Pad::write\n        let tail_len = match self.storage.len() % self.block_size {\n            0 => self.block_size,\n            n => n,\n        };\n")]),
 ("unpad-len-helper", CBC, [(K, "        let len = self.storage[self.storage.len() - 1];\n        if len == 0 || len > (self.block_size as u8) {\n            return Err(UnpadError::InvalidPadding);\n        }\n", "        let len = match self.storage.last() {\n            Some(&len) => len,\n            None => return Err(UnpadError::UnfinishedBlock),\n        };\n        if len == 0 || usize::from(len) > self.block_size {\n            return Err(UnpadError::InvalidPadding);\n        }\n")]),
]
