R4 = [
 ("sha-round-tuple", "C01", [(S, """            h = g;
            g = f;
            f = e;
            e = wrapping_sum!(d, t1);
            d = c;
            c = b;
            b = a;
            a = wrapping_sum!(t1, t2);
        }
""", """            let (na, ne) = (wrapping_sum!(t1, t2), wrapping_sum!(d, t1));
            h = g;
            g = f;
            f = e;
            e = ne;
            d = c;
            c = b;
            b = a;
            a = na;
        }
""")]),
 ("sha-closure", "C01", [(S, """        for t in 0..64 {
            let t1 = wrapping_sum!(h, bsig1(e), ch(e, f, g), K[t], w[t]);
""", """        let kw = |t: usize| -> u32 { wrapping_sum!(K[t], w[t]) };
        for t in 0..64 {
            let t1 = wrapping_sum!(h, bsig1(e), ch(e, f, g), kw(t));
""")]),
 ("sha-loop-break", "C01", [(S, """        for t in 16..64 {
            w[t] = wrapping_sum!(ssig1(w[t - 2]), w[t - 7], ssig0(w[t - 15]), w[t - 16]);
        }
""", """        let mut t = 16;
        loop {
            if t == 64 {
                break;
            }
            w[t] = wrapping_sum!(ssig1(w[t - 2]), w[t - 7], ssig0(w[t - 15]), w[t - 16]);
            t += 1;
        }
""")]),
 ("sha-const-gen", "C01", [(S, """fn rotr(n: u32, s: u32) -> u32 {
    (n << (32 - s)) | (n >> s)
}
""", """const WORD_BITS: u32 = 32;

#[inline]
fn rotr(n: u32, s: u32) -> u32 {
    let high = n << (WORD_BITS - s);
    let low = n >> s;
    high | low
}
""")]),
 ("sha-flush-fn", "C01,C02", [(S, """            fill_block(&self.buffer, &mut block);
            self.process_block(&block);
        }
    }
""", """            self.absorb(&mut block);
        }
    }

    fn absorb(&mut self, block: &mut [u32; BLOCK_SIZE / 4]) {
        fill_block(&self.buffer, block);
        self.process_block(block);
    }
""")]),
 ("sha-alias", "C01", [(S, "fn fill_block(input: &[u8; BLOCK_SIZE], output: &mut [u32; BLOCK_SIZE / 4]) {", "type Words = [u32; BLOCK_SIZE / 4];\n\nfn fill_block(input: &[u8; BLOCK_SIZE], output: &mut Words) {")]),
 ("hmac-const-fn", "C03", [(H, "            *elem ^= 0x36 ^ 0x5c;", "            *elem ^= swap_mask();"), (H, "impl HMac {", "const fn swap_mask() -> u8 {\n    0x36 ^ 0x5c\n}\n\nimpl HMac {")]),
 ("hmac-struct", "C03", [(H, "        HMac { inner, outer }", "        let mac = Self { inner, outer };\n        mac")]),
 ("hmac-digest-named", "C03", [(H, "        self.outer.update(&self.inner.digest());\n        self.outer.digest()", "        let Self { inner, outer } = self;\n        outer.update(&inner.digest());\n        outer.digest()")]),
 ("aes-xor-generic", "C08,C09", [(A, "            col[0] ^= (key >> 24) as u8;\n            col[1] ^= ((key >> 16) & 0xff) as u8;\n            col[2] ^= ((key >> 8) & 0xff) as u8;\n            col[3] ^= (key & 0xff) as u8;", "            xor_into(col, &key.to_be_bytes());"), (A, "trait AESSide {", "fn xor_into<const N: usize>(a: &mut [u8; N], b: &[u8; N]) {\n    for i in 0..N {\n        a[i] ^= b[i];\n    }\n}\n\ntrait AESSide {")]),
 ("aes-free-sub", "C08,C09", [(A, """        for col in s.iter_mut() {
            for cell in col.iter_mut() {
                *cell = Self::lookup_sbox(*cell);
            }
        }
""", """        for col in s.iter_mut() {
            Self::sub_column(col);
        }
    }

    fn sub_column(col: &mut [u8; 4]) {
        for cell in col.iter_mut() {
            *cell = Self::lookup_sbox(*cell);
        }
""")]),
 ("aes-map-array", "C08,C09", [(A, """            for cell in col.iter_mut() {
                *cell = Self::lookup_sbox(*cell);
            }
""", """            *col = [
                Self::lookup_sbox(col[0]),
                Self::lookup_sbox(col[1]),
                Self::lookup_sbox(col[2]),
                Self::lookup_sbox(col[3]),
            ];
""")]),
 ("aes-keys-slice", "C08", [(A, """        AESEncrypt::add_round_key(&mut state, &round_keys[0..NB]);

        for round in 1..nr {
            AESEncrypt::sub_bytes(&mut state);
            state = AESEncrypt::shift_rows(&state);
            AESEncrypt::mix_columns(&mut state);
            AESEncrypt::add_round_key(&mut state, &round_keys[(round * NB)..((round + 1) * NB)]);
        }
""", """        let round_key = |round: usize| &round_keys[(round * NB)..((round + 1) * NB)];
        AESEncrypt::add_round_key(&mut state, round_key(0));

        for round in 1..nr {
            AESEncrypt::sub_bytes(&mut state);
            state = AESEncrypt::shift_rows(&state);
            AESEncrypt::mix_columns(&mut state);
            AESEncrypt::add_round_key(&mut state, round_key(round));
        }
""")]),
 ("aes-init-helper", "C08,C10", [(A, """        self.round_count = match key.len() {
            // 128 bits
            16 => 10,

            // 192 bits
            24 => 12,

            // 256 bits
            32 => 14,

            // Invalid key size
            _ => {
                return Err(AESError::InvalidKeySize);
            }
        };
        self.round_keys = Some(expand_key(key, self.round_count));
""", """        self.round_count = match rounds_for(key.len()) {
            Some(count) => count,
            None => return Err(AESError::InvalidKeySize),
        };
        self.round_keys = Some(expand_key(key, self.round_count));
"""), (A, "trait AESSide {", "fn rounds_for(key_len: usize) -> Option<usize> {\n    match key_len {\n        16 => Some(10),\n        24 => Some(12),\n        32 => Some(14),\n        _ => None,\n    }\n}\n\ntrait AESSide {")]),
 ("aes-init-okor", "C08,C10", [(A, """        self.round_count = match key.len() {
            // 128 bits
            16 => 10,

            // 192 bits
            24 => 12,

            // 256 bits
            32 => 14,

            // Invalid key size
            _ => {
                return Err(AESError::InvalidKeySize);
            }
        };
        self.round_keys = Some(expand_key(key, self.round_count));
""", """        self.round_count = rounds_for(key.len()).ok_or(AESError::InvalidKeySize)?;
        self.round_keys = Some(expand_key(key, self.round_count));
"""), (A, "trait AESSide {", "fn rounds_for(key_len: usize) -> Option<usize> {\n    if key_len == 16 || key_len == 24 || key_len == 32 {\n        Some(key_len / 4 + 6)\n    } else {\n        None\n    }\n}\n\ntrait AESSide {")]),
 ("aes-merge-opt", "C08,C10", [(A, """        let round_keys = match &self.round_keys {
            Some(keys) => keys,
            None => {
                return Err(AESError::NotInitialized);
            }
        };

        AESEncrypt::add""", """        let round_keys = self.schedule()?;

        AESEncrypt::add"""), (A, """    pub fn new() -> Self {
        AES {""", """    fn schedule(&self) -> Result<&Vec<u32>, AESError> {
        self.round_keys.as_ref().ok_or(AESError::NotInitialized)
    }

    pub fn new() -> Self {
        AES {""") ]),
 ("cbc-write-map", "C11,C12", [(M, """        match self.unpad.flush() {
            Err(err) => Err(DecipherError::PKCS7(err)),
            Ok(block) => Ok(block),
        }
""", """        self.unpad.flush().map_err(DecipherError::PKCS7)
""")]),
 ("cbc-let-else", "C11,C12", [(M, """        let blocks = match self.pad.write(b) {
            None => {
                return Ok(vec![]);
            }
            Some(block) => block,
        };
""", """        let Some(blocks) = self.pad.write(b) else {
            return Ok(vec![]);
        };
""")]),
 ("cbc-encrypt-array", "C11,C12", [(M, """        match self.aes.encrypt(&block) {
            Ok(new_iv) => {
                self.iv = new_iv;
                Ok(new_iv.to_vec())
            }
            Err(err) => Err(err),
        }
""", """        let ciphertext = self.aes.encrypt(&block)?;
        self.iv = ciphertext;
        Ok(Vec::from(&ciphertext[..]))
""")]),
 ("cbc-dec-block-fn", "C12,C13", [(M, """            let mut block = [0; BLOCK_SIZE];
            block.copy_from_slice(&ciphertext);

            let mut cleartext = match self.aes.decrypt(&block) {
                Err(err) => return Err(DecipherError::AES(err)),
                Ok(out) => out,
            };

            for (elem, iv_elem) in cleartext.iter_mut().zip(self.iv.iter()) {
                *elem ^= iv_elem;
            }

            self.iv = block;
            padded_result.append(&mut cleartext.to_vec());
        }
""", """            let cleartext = self.decrypt_block(ciphertext)?;
            padded_result.extend_from_slice(&cleartext);
        }
"""), (M, """        Ok(self.unpad.write(&padded_result).unwrap_or_default())
    }
""", """        Ok(self.unpad.write(&padded_result).unwrap_or_default())
    }

    fn decrypt_block(&mut self, ciphertext: &[u8]) -> Result<[u8; BLOCK_SIZE], DecipherError> {
        let mut block = [0; BLOCK_SIZE];
        block.copy_from_slice(ciphertext);

        let mut cleartext = self.aes.decrypt(&block).map_err(DecipherError::AES)?;
        for (elem, iv_elem) in cleartext.iter_mut().zip(self.iv.iter()) {
            *elem ^= iv_elem;
        }

        self.iv = block;
        Ok(cleartext)
    }
""")]),
 ("pad-mem-take", "C11,C12", [(K, """        let result = self.storage.clone();
        self.storage.clear();
        result
""", """        std::mem::take(&mut self.storage)
""")]),
 ("pad-early", "C11", [(K, """        for &elem in buf {
            self.storage.push(elem);
        }

        if self.storage.len() < self.block_size {
            return None;
        }
""", """        self.storage.extend_from_slice(buf);
        let full = self.storage.len() >= self.block_size;
        if !full {
            return None;
        }
""")]),
 ("pad-fill-fn", "C11", [(K, """        let len = self.block_size - self.storage.len();
        while self.storage.len() < self.block_size {
            self.storage.push(len as u8);
        }
""", """        let len = self.missing();
        while self.storage.len() < self.block_size {
            self.storage.push(len as u8);
        }
"""), (K, """    pub fn is_empty(&self) -> bool {""", """    fn missing(&self) -> usize {
        self.block_size - self.storage.len()
    }

    pub fn is_empty(&self) -> bool {""")]),
 ("salsa-qr-closure", "C05", [(L, """    z[1] = y[1] ^ rotl(wrapping_sum!(y[0], y[3]), 7);
    z[2] = y[2] ^ rotl(wrapping_sum!(z[1], y[0]), 9);
    z[3] = y[3] ^ rotl(wrapping_sum!(z[2], z[1]), 13);
    z[0] = y[0] ^ rotl(wrapping_sum!(z[3], z[2]), 18);
""", """    fn step(x: u32, a: u32, b: u32, s: u8) -> u32 {
        x ^ rotl(a.wrapping_add(b), s)
    }
    z[1] = step(y[1], y[0], y[3], 7);
    z[2] = step(y[2], z[1], y[0], 9);
    z[3] = step(y[3], z[2], z[1], 13);
    z[0] = step(y[0], z[3], z[2], 18);
""")]),
 ("salsa-rounds-back", "C05", [(L, "    for _ in 0..rounds {", "    for _ in (0..rounds).rev() {")]),
 ("salsa-clone", "C05", [(L, "    let mut z = x;\n", "    let mut z = x.clone();\n"), (L, "        z = t;\n", "        z.copy_from_slice(&t);\n")]),
 ("scrypt-validate-q", "C06,C07", [(C, """        if self.r < 1 {
            return Err(ScryptError::RIsTooSmall);
        }

        if self.n < 2 {
            return Err(ScryptError::NIsTooSmall);
        }

        if ((self.n - 1) & self.n) != 0 {
            return Err(ScryptError::NIsNotAPowerOfTwo);
        }

        if self.p < 1 {
            return Err(ScryptError::PIsTooSmall);
        }

""", """        self.check()?;
"""), (C, """    pub fn derive(
""", """    fn check(&self) -> Result<(), ScryptError> {
        match *self {
            Scrypt { r: 0, .. } => Err(ScryptError::RIsTooSmall),
            Scrypt { n, .. } if n < 2 => Err(ScryptError::NIsTooSmall),
            Scrypt { n, .. } if (n & (n - 1)) != 0 => Err(ScryptError::NIsNotAPowerOfTwo),
            Scrypt { p: 0, .. } => Err(ScryptError::PIsTooSmall),
            _ => Ok(()),
        }
    }

    pub fn derive(
""")]),
 ("scrypt-if-chain", "C06,C07", [(C, """        if self.n < 2 {
            return Err(ScryptError::NIsTooSmall);
        }

        if ((self.n - 1) & self.n) != 0 {
            return Err(ScryptError::NIsNotAPowerOfTwo);
        }
""", """        if self.n < 2 {
            return Err(ScryptError::NIsTooSmall);
        } else if ((self.n - 1) & self.n) != 0 {
            return Err(ScryptError::NIsNotAPowerOfTwo);
        }
""")]),
 ("scrypt-rom-fill", "C06", [(C, """        let mut v: Vec<Vec<Block>> = Vec::with_capacity(self.n);
        for _i in 0..self.n {
            let t = self.block_mix(&x);
            v.push(x);
            x = t;
        }
""", """        let mut v: Vec<Vec<Block>> = Vec::with_capacity(self.n);
        while v.len() < self.n {
            let t = self.block_mix(&x);
            v.push(x);
            x = t;
        }
""")]),
 ("scrypt-blocks-fn", "C06", [(C, """            .map(|chunk| {
                chunk
                    .chunks_exact(BLOCK_SIZE)
                    .map(|sub_chunk| sub_chunk.to_vec())
                    .collect()
            })
            .collect();
""", """            .map(split_blocks)
            .collect();
"""), (C, "impl Scrypt {", """fn split_blocks(chunk: &[u8]) -> Vec<Block> {
    chunk
        .chunks_exact(BLOCK_SIZE)
        .map(|sub_chunk| sub_chunk.to_vec())
        .collect()
}

impl Scrypt {""")]),
 ("scrypt-xor-fn", "C06", [(C, """            let t: Vec<Block> = x
                .iter()
                .zip(v[j].iter())
                .map(|(x_block, v_block)| block_xor(x_block, v_block))
                .collect();
            x = self.block_mix(&t);
""", """            x = self.block_mix(&xor_all(&x, &v[j]));
"""), (C, "impl Scrypt {", """fn xor_all(a: &[Block], b: &[Block]) -> Vec<Block> {
    a.iter()
        .zip(b.iter())
        .map(|(x_block, v_block)| block_xor(x_block, v_block))
        .collect()
}

impl Scrypt {""")]),
 ("pbkdf2-mut-tmp", "C04", [(P, "word:password", "pass")]),
]
