K, A, S, H, P, L, C, M = "src/pkcs7.rs", "src/aes.rs", "src/sha256.rs", "src/hmac.rs", "src/pbkdf2.rs", "src/salsa20.rs", "src/scrypt.rs", "src/aes_cbc.rs"
R3 = [
 ("scrypt-count-ones", "C06,C07", [(C, "if ((self.n - 1) & self.n) != 0 {", "if self.n.count_ones() != 1 {")]),
 ("scrypt-integ-try", "C06,C07", [(C, """    u64::from(tail[0])
        | (u64::from(tail[1]) << 8)
        | (u64::from(tail[2]) << 16)
        | (u64::from(tail[3]) << 24)
        | (u64::from(tail[4]) << 32)
        | (u64::from(tail[5]) << 40)
        | (u64::from(tail[6]) << 48)
        | (u64::from(tail[7]) << 56)
""", "    u64::from_le_bytes(tail[..8].try_into().expect(\"eight bytes\"))\n"), (C, "use std::fmt::Display;", "use std::convert::TryInto;\nuse std::fmt::Display;")]),
 ("sha-fill-try", "C01,C02", [(S, """        let i0 = u32::from(input[i * 4]);
        let i1 = u32::from(input[i * 4 + 1]);
        let i2 = u32::from(input[i * 4 + 2]);
        let i3 = u32::from(input[i * 4 + 3]);

        output[i] = (i0 << 24) | (i1 << 16) | (i2 << 8) | i3;
""", "        output[i] = u32::from_be_bytes(input[i * 4..i * 4 + 4].try_into().unwrap());\n"), (S, "/// Length of digest array", "use std::convert::TryInto;\n\n/// Length of digest array")]),
 ("unpad-owned", "C11,C12,C13", [(K, "self.storage[..pad_off].to_vec()", "self.storage[..pad_off].to_owned()")]),
 ("cbc-owned", "C11,C12", [(M, "                Ok(new_iv.to_vec())", "                Ok(new_iv[..].to_owned())")]),
 ("aes-shift-rotate", "C08,C09", [(A, """        [
            [s[0][0], s[1][1], s[2][2], s[3][3]],
            [s[1][0], s[2][1], s[3][2], s[0][3]],
            [s[2][0], s[3][1], s[0][2], s[1][3]],
            [s[3][0], s[0][1], s[1][2], s[2][3]],
        ]
""", """        let mut out = *s;
        for row in 1..4 {
            let mut cells = [s[0][row], s[1][row], s[2][row], s[3][row]];
            cells.rotate_left(row);
            for col in 0..4 {
                out[col][row] = cells[col];
            }
        }
        out
""")]),
 ("aes-dec-rev-swap", "C08,C09", [(A, """            [s[0][0], s[3][1], s[2][2], s[1][3]],
            [s[1][0], s[0][1], s[3][2], s[2][3]],
            [s[2][0], s[1][1], s[0][2], s[3][3]],
            [s[3][0], s[2][1], s[1][2], s[0][3]],
        ]
""", """            [s[0][0], s[3][1], s[2][2], s[1][3]],
            [s[1][0], s[0][1], s[3][2], s[2][3]],
            [s[2][0], s[1][1], s[0][2], s[3][3]],
            [s[3][0], s[2][1], s[1][2], s[0][3]],
        ]
        .to_owned()
""")]),
 ("salsa-inv-array", "C05", [(L, "    y[0] = x as u8;\n    y[1] = (x >> 8) as u8;\n    y[2] = (x >> 16) as u8;\n    y[3] = (x >> 24) as u8;\n", "    y[..4].copy_from_slice(&[x as u8, (x >> 8) as u8, (x >> 16) as u8, (x >> 24) as u8]);\n")]),
 ("salsa-inv-loop", "C05", [(L, "    y[0] = x as u8;\n    y[1] = (x >> 8) as u8;\n    y[2] = (x >> 16) as u8;\n    y[3] = (x >> 24) as u8;\n", "    for i in 0..4 {\n        y[i] = (x >> (8 * i)) as u8;\n    }\n")]),
 ("salsa-split", "C05", [(L, """    for (block, out) in input.chunks(BLOCK_SIZE).zip(output.chunks_mut(BLOCK_SIZE)) {
        salsa20_block(block, rounds, out);
    }
""", """    let mut pos: usize = 0;
    while pos < input.len() {
        let end = pos + BLOCK_SIZE;
        salsa20_block(&input[pos..end], rounds, &mut output[pos..end]);
        pos = end;
    }
""")]),
 ("sha-u64-bits", "C01,C02", [(S, "    data[0] = (value >> 56) as u8;\n    data[1] = (value >> 48) as u8;\n    data[2] = (value >> 40) as u8;\n    data[3] = (value >> 32) as u8;\n    data[4] = (value >> 24) as u8;\n    data[5] = (value >> 16) as u8;\n    data[6] = (value >> 8) as u8;\n    data[7] = (value) as u8;\n", "    for i in 0..8 {\n        data[i] = (value >> (56 - 8 * i)) as u8;\n    }\n")]),
 ("sha-u64-std", "C01,C02", [(S, "    data[0] = (value >> 56) as u8;\n    data[1] = (value >> 48) as u8;\n    data[2] = (value >> 40) as u8;\n    data[3] = (value >> 32) as u8;\n    data[4] = (value >> 24) as u8;\n    data[5] = (value >> 16) as u8;\n    data[6] = (value >> 8) as u8;\n    data[7] = (value) as u8;\n", "    data[..8].copy_from_slice(&value.to_be_bytes());\n")]),
 ("pbkdf2-offset", "C04", [(P, "        let start = (i - 1) * DIGEST_SIZE;\n        let end = std::cmp::min(i * DIGEST_SIZE, out.len());\n        out[start..end].copy_from_slice(&t[..(end - start)]);\n", "        let start = (i - 1) * DIGEST_SIZE;\n        let len = std::cmp::min(DIGEST_SIZE, out.len() - start);\n        out[start..start + len].copy_from_slice(&t[..len]);\n")]),
 ("pbkdf2-prf-fn", "C04", [(P, """            let mut hmac = HMac::new(password);
            hmac.update(&u);
            u = hmac.digest();

            // Xor Us""", """            u = prf(password, &[&u]);

            // Xor Us"""), (P, """        let mut hmac = HMac::new(password);
        hmac.update(salt);
        hmac.update(&ctr);
        let mut u = hmac.digest();
""", "        let mut u = prf(password, &[salt, &ctr]);\n"), (P, "///\n/// Derive key using", "fn prf(key: &[u8], parts: &[&[u8]]) -> [u8; DIGEST_SIZE] {\n    let mut hmac = HMac::new(key);\n    for part in parts {\n        hmac.update(part);\n    }\n    hmac.digest()\n}\n\n///\n/// Derive key using")]),
 ("cbc-xor-into", "C11,C12", [(M, """        let mut block = [0; BLOCK_SIZE];
        block.copy_from_slice(&b);

        for (elem, iv_elem) in block.iter_mut().zip(self.iv.iter()) {
            *elem ^= iv_elem;
        }
""", """        let mut block = self.iv;
        for (elem, &byte) in block.iter_mut().zip(b.iter()) {
            *elem ^= byte;
        }
""")]),
 ("cbc-enc-match", "C11,C10", [(M, """        match self.aes.encrypt(&block) {
            Ok(new_iv) => {
                self.iv = new_iv;
                Ok(new_iv.to_vec())
            }
            Err(err) => Err(err),
        }
""", """        self.iv = self.aes.encrypt(&block)?;
        Ok(self.iv.to_vec())
""")]),
 ("cbc-chunks-exact", "C11,C12", [(M, "        for block in blocks.chunks(BLOCK_SIZE) {", "        for block in blocks.chunks_exact(BLOCK_SIZE) {"), (M, "        for ciphertext in blocks.chunks(BLOCK_SIZE) {", "        for ciphertext in blocks.chunks_exact(BLOCK_SIZE) {")]),
 ("hmac-concat", "C03", [(H, "XX", "XX")]),
]
R3 = [x for x in R3 if x[2][0][1] != "XX"]
