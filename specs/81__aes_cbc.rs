// ---- CBC streams
// only the first n blocks matter, and a split message is processed in two legs
pub proof fn sc_enc_split(iv: Seq<u8>, a: Seq<u8>, b: Seq<u8>, nr: int, w: Seq<u32>, n: int, m: int)
    requires iv.len() == 16, n >= 0, m >= 0, a.len() == 16 * n, b.len() >= 16 * m,
    ensures
        sc_c(iv, a + b, nr, w, n + m) == sc_c(sc_c(iv, a, nr, w, n), b, nr, w, m),
        sc_enc(iv, a + b, nr, w, n + m) == sc_enc(iv, a, nr, w, n) + sc_enc(sc_c(iv, a, nr, w, n), b, nr, w, m),
    decreases m
{
    let iv2 = sc_c(iv, a, nr, w, n);
    if m == 0 {
        sc_enc_prefix(iv, a + b, a, nr, w, n);
        assert(sc_enc(iv, a, nr, w, n) + Seq::<u8>::empty() =~= sc_enc(iv, a, nr, w, n));
    } else {
        sc_enc_split(iv, a, b, nr, w, n, m - 1);
        assert(sc_blk(a + b, n + m - 1) =~= sc_blk(b, m - 1));
        let (x, y, z) = (sc_enc(iv, a, nr, w, n), sc_enc(iv2, b, nr, w, m - 1), sc_c(iv2, b, nr, w, m));
        assert((x + y) + z =~= x + (y + z));
    }
}
pub proof fn sc_enc_prefix(iv: Seq<u8>, a: Seq<u8>, b: Seq<u8>, nr: int, w: Seq<u32>, n: int)
    requires n >= 0, a.len() >= 16 * n, b.len() >= 16 * n, forall|j: int| 0 <= j < 16 * n ==> a[j] == b[j],
    ensures sc_c(iv, a, nr, w, n) == sc_c(iv, b, nr, w, n), sc_enc(iv, a, nr, w, n) == sc_enc(iv, b, nr, w, n),
    decreases n
{
    if n > 0 {
        sc_enc_prefix(iv, a, b, nr, w, n - 1);
        assert(sc_blk(a, n - 1) =~= sc_blk(b, n - 1));
    }
}
pub proof fn sc_dec_prefix(iv: Seq<u8>, a: Seq<u8>, b: Seq<u8>, nr: int, w: Seq<u32>, n: int)
    requires n >= 0, a.len() >= 16 * n, b.len() >= 16 * n, forall|j: int| 0 <= j < 16 * n ==> a[j] == b[j],
    ensures sc_prev(iv, a, n) == sc_prev(iv, b, n), sc_dec(iv, a, nr, w, n) == sc_dec(iv, b, nr, w, n),
    decreases n
{
    if n > 0 {
        sc_dec_prefix(iv, a, b, nr, w, n - 1);
        assert(sc_blk(a, n - 1) =~= sc_blk(b, n - 1));
    }
}
pub proof fn sc_dec_split(iv: Seq<u8>, a: Seq<u8>, b: Seq<u8>, nr: int, w: Seq<u32>, n: int, m: int)
    requires iv.len() == 16, n >= 0, m >= 0, a.len() == 16 * n, b.len() >= 16 * m,
    ensures
        sc_prev(iv, a + b, n + m) == sc_prev(sc_prev(iv, a, n), b, m),
        sc_dec(iv, a + b, nr, w, n + m) == sc_dec(iv, a, nr, w, n) + sc_dec(sc_prev(iv, a, n), b, nr, w, m),
    decreases m
{
    let iv2 = sc_prev(iv, a, n);
    if m == 0 {
        sc_dec_prefix(iv, a + b, a, nr, w, n);
        assert(sc_dec(iv, a, nr, w, n) + Seq::<u8>::empty() =~= sc_dec(iv, a, nr, w, n));
    } else {
        sc_dec_split(iv, a, b, nr, w, n, m - 1);
        assert(sc_blk(a + b, n + m - 1) =~= sc_blk(b, m - 1));
        if m > 1 { assert(sc_blk(a + b, n + m - 2) =~= sc_blk(b, m - 2)); }
        else if n > 0 { assert(sc_blk(a + b, n - 1) =~= sc_blk(a, n - 1)); }
        let (x, y, z) = (sc_dec(iv, a, nr, w, n), sc_dec(iv2, b, nr, w, m - 1), sc_p(iv2, b, nr, w, m - 1));
        assert((x + y) + z =~= x + (y + z));
    }
}
// one more write after m octets: the stream is that of the longer message
pub proof fn sc_enc_step(iv: Seq<u8>, m: Seq<u8>, b: Seq<u8>, nr: int, w: Seq<u32>)
    requires iv.len() == 16,
    ensures ({
        let n = m.len() as int / 16;
        let all = m.subrange(16 * n, m.len() as int) + b;
        let k = all.len() as int / 16;
        &&& (m + b).len() as int / 16 == n + k
        &&& sc_enc(iv, m + b, nr, w, n + k) == sc_enc(iv, m, nr, w, n) + sc_enc(sc_c(iv, m, nr, w, n), all, nr, w, k)
        &&& sc_c(iv, m + b, nr, w, n + k) == sc_c(sc_c(iv, m, nr, w, n), all, nr, w, k)
        &&& (m + b).subrange(16 * (n + k), (m + b).len() as int) == all.subrange(16 * k, all.len() as int)
    }),
{
    let n = m.len() as int / 16;
    let h = m.subrange(0, 16 * n);
    let all = m.subrange(16 * n, m.len() as int) + b;
    let k = all.len() as int / 16;
    assert(h + all =~= m + b);
    sc_enc_split(iv, h, all, nr, w, n, k);
    sc_enc_prefix(iv, h, m, nr, w, n);
    assert((m + b).subrange(16 * (n + k), (m + b).len() as int) =~= all.subrange(16 * k, all.len() as int));
}
// flush after m octets: the ciphertext of the whole padded message
pub proof fn sc_enc_final(iv: Seq<u8>, m: Seq<u8>, nr: int, w: Seq<u32>)
    requires iv.len() == 16,
    ensures ({
        let n = m.len() as int / 16;
        let last = sq_pad_last(m.subrange(16 * n, m.len() as int), 16);
        &&& sq_pad(m, 16).len() == 16 * (n + 1)
        &&& sc_enc(iv, sq_pad(m, 16), nr, w, n + 1) == sc_enc(iv, m, nr, w, n) + sc_enc(sc_c(iv, m, nr, w, n), last, nr, w, 1)
    }),
{
    let n = m.len() as int / 16;
    let h = m.subrange(0, 16 * n);
    let last = sq_pad_last(m.subrange(16 * n, m.len() as int), 16);
    assert(h + last =~= sq_pad(m, 16));
    sc_enc_split(iv, h, last, nr, w, n, 1);
    sc_enc_prefix(iv, h, m, nr, w, n);
}
// how much of n decrypted blocks has been released
pub open spec fn sc_out(n: int) -> int { if n <= 1 { 0 } else { 16 * (n - 1) } }
pub proof fn sc_dec_step(iv: Seq<u8>, c: Seq<u8>, b: Seq<u8>, nr: int, w: Seq<u32>)
    requires iv.len() == 16,
    ensures ({
        let n = c.len() as int / 16;
        let all = c.subrange(16 * n, c.len() as int) + b;
        let k = all.len() as int / 16;
        let p = sc_dec(iv, c, nr, w, n);
        let q = sc_dec(iv, c + b, nr, w, n + k);
        let held = p.subrange(sc_out(n), p.len() as int) + sc_dec(sc_prev(iv, c, n), all, nr, w, k);
        let rel = sq_released(held.len() as int, 16);
        &&& (c + b).len() as int / 16 == n + k
        &&& p.len() == 16 * n && q.len() == 16 * (n + k)
        &&& q.subrange(0, sc_out(n + k)) == p.subrange(0, sc_out(n)) + held.subrange(0, rel)
        &&& q.subrange(sc_out(n + k), q.len() as int) == held.subrange(rel, held.len() as int)
        &&& sc_prev(iv, c + b, n + k) == sc_prev(sc_prev(iv, c, n), all, k)
        &&& (c + b).subrange(16 * (n + k), (c + b).len() as int) == all.subrange(16 * k, all.len() as int)
    }),
{
    let n = c.len() as int / 16;
    let h = c.subrange(0, 16 * n);
    let all = c.subrange(16 * n, c.len() as int) + b;
    let k = all.len() as int / 16;
    assert(h + all =~= c + b);
    sc_dec_split(iv, h, all, nr, w, n, k);
    sc_dec_prefix(iv, h, c, nr, w, n);
    sc_dec_len(iv, c, nr, w, n);
    sc_dec_len(iv, c + b, nr, w, n + k);
    sc_dec_len(sc_prev(iv, c, n), all, nr, w, k);
    let p = sc_dec(iv, c, nr, w, n);
    let q = sc_dec(iv, c + b, nr, w, n + k);
    let e = sc_dec(sc_prev(iv, c, n), all, nr, w, k);
    let held = p.subrange(sc_out(n), p.len() as int) + e;
    let rel = sq_released(held.len() as int, 16);
    assert(q == p + e);
    assert(sc_out(n) + rel == sc_out(n + k));
    assert(q.subrange(0, sc_out(n + k)) =~= p.subrange(0, sc_out(n)) + held.subrange(0, rel));
    assert(q.subrange(sc_out(n + k), q.len() as int) =~= held.subrange(rel, held.len() as int));
    assert((c + b).subrange(16 * (n + k), (c + b).len() as int) =~= all.subrange(16 * k, all.len() as int));
}
// CBC decryption undoes CBC encryption
pub proof fn sc_round_trip(iv: Seq<u8>, m: Seq<u8>, nr: int, w: Seq<u32>, n: int, t: int)
    requires iv.len() == 16, 0 <= n <= t, m.len() >= 16 * t, nr >= 1, w.len() == 4 * (nr + 1),
    ensures sc_dec(iv, sc_enc(iv, m, nr, w, t), nr, w, n) == m.subrange(0, 16 * n),
    decreases n
{
    let c = sc_enc(iv, m, nr, w, t);
    sc_enc_len(iv, m, nr, w, t);
    if n == 0 {
        assert(m.subrange(0, 0) =~= Seq::empty());
    } else {
        sc_round_trip(iv, m, nr, w, n - 1, t);
        sc_enc_blk(iv, m, nr, w, t, n - 1);
        if n > 1 { sc_enc_blk(iv, m, nr, w, t, n - 2); }
        let prev = sc_c(iv, m, nr, w, n - 1);
        sc_c_len(iv, m, nr, w, n - 1);
        assert(sc_prev(iv, c, n - 1) == prev);
        let x = sc_xor(sc_blk(m, n - 1), prev);
        sa_dec_enc(x, nr, w);
        assert forall|j: int| 0 <= j < 16 implies (#[trigger] x[j]) ^ prev[j] == sc_blk(m, n - 1)[j] by {
            let (a, b) = (sc_blk(m, n - 1)[j], prev[j]);
            assert((a ^ b) ^ b == a) by (bit_vector);
        }
        assert(sc_p(iv, c, nr, w, n - 1) =~= sc_blk(m, n - 1));
        assert(m.subrange(0, 16 * n) =~= m.subrange(0, 16 * (n - 1)) + sc_blk(m, n - 1));
    }
}
// the padding of a padded message is valid, and removing it gives the message
pub proof fn sc_pad_round(m: Seq<u8>)
    ensures ({
        let p = sq_pad(m, 16);
        let n = p.len() as int / 16;
        &&& p.len() == 16 * n && n >= 1
        &&& sq_valid(p.subrange(16 * (n - 1), 16 * n), 16)
        &&& p.subrange(0, 16 * (n - 1)) + sq_unpad(p.subrange(16 * (n - 1), 16 * n)) == m
    }),
{
    let p = sq_pad(m, 16);
    let n = p.len() as int / 16;
    let tail = m.subrange(16 * (n - 1), m.len() as int);
    assert(p.subrange(16 * (n - 1), 16 * n) =~= sq_pad_last(tail, 16));
    sq_pad_valid(tail, 16);
    assert(p.subrange(0, 16 * (n - 1)) + tail =~= m);
}
pub open spec fn sc_cat(v: Seq<Vec<u8>>, n: int) -> Seq<u8>
    decreases n
{
    if n <= 0 { Seq::empty() } else { sc_cat(v, n - 1) + v[n - 1]@ }
}
// a message in progress: the chaining value it started from, and its octets so far
pub struct ScMsg { pub iv: Seq<u8>, pub m: Seq<u8> }
pub proof fn sc_c_final(iv: Seq<u8>, m: Seq<u8>, nr: int, w: Seq<u32>)
    requires iv.len() == 16,
    ensures ({
        let n = m.len() as int / 16;
        sc_c(iv, sq_pad(m, 16), nr, w, n + 1) == sc_c(sc_c(iv, m, nr, w, n), sq_pad_last(m.subrange(16 * n, m.len() as int), 16), nr, w, 1)
    }),
{
    let n = m.len() as int / 16;
    let h = m.subrange(0, 16 * n);
    let last = sq_pad_last(m.subrange(16 * n, m.len() as int), 16);
    assert(h + last =~= sq_pad(m, 16));
    sc_enc_split(iv, h, last, nr, w, n, 1);
    sc_enc_prefix(iv, h, m, nr, w, n);
}
