// ---- lemmas: the contracts above compose to the standard's definition
pub proof fn sp_blocks_prefix(h: Seq<u32>, a: Seq<u8>, b: Seq<u8>, n: int)
    requires
        0 <= n, 64 * n <= a.len(), 64 * n <= b.len(),
        forall|i: int| 0 <= i < 64 * n ==> a[i] == b[i],
    ensures
        sp_blocks(h, a, n) == sp_blocks(h, b, n),
    decreases n
{
    if n > 0 {
        sp_blocks_prefix(h, a, b, n - 1);
        assert(a.subrange(64 * (n - 1), 64 * n) =~= b.subrange(64 * (n - 1), 64 * n));
    }
}
pub proof fn sp_absorb_repr(m: Seq<u8>)
    ensures
        ({
            let s = sp_absorb(sp_sha_init(), m);
            let l = m.len() as int;
            &&& s.h == sp_blocks(sp_h0(), m, l / 64)
            &&& s.tail == m.subrange(l - l % 64, l)
            &&& s.len == l
        }),
    decreases m.len()
{
    let l = m.len() as int;
    if l == 0 {
        assert(m.subrange(0, 0) =~= Seq::<u8>::empty());
    } else {
        let d = m.drop_last();
        sp_absorb_repr(d);
        let p = sp_absorb(sp_sha_init(), d);
        assert(p.tail.push(m.last()) =~= m.subrange((l - 1) - (l - 1) % 64, l));
        sp_blocks_prefix(sp_h0(), d, m, (l - 1) / 64);
        if p.tail.len() == 63 {
            assert(l % 64 == 0);
            assert(l / 64 == (l - 1) / 64 + 1);
            assert(m.subrange(l, l) =~= Seq::<u8>::empty());
        } else {
            assert(l / 64 == (l - 1) / 64);
            assert(l % 64 == (l - 1) % 64 + 1);
        }
    }
}
// C01: new, any updates, digest
pub proof fn sp_sha_correct(m: Seq<u8>)
    requires
        m.len() < sp_sha_max(),
    ensures
        sp_finish(sp_absorb(sp_sha_init(), m)) == sp_sha256(m),
{
    sp_absorb_repr(m);
    let s = sp_absorb(sp_sha_init(), m);
    let l = m.len() as int;
    let p = sp_pad_msg(m);
    let n = l / 64;
    let t = s.tail.push(0x80u8);
    let be = sp_be64((l * 8) as u64);
    sp_blocks_prefix(sp_h0(), m, p, n);
    if s.tail.len() + 9 <= 64 {
        assert(p.len() == 64 * (n + 1));
        assert(p.subrange(64 * n, 64 * (n + 1)) =~= t + sp_zeros(56 - t.len()) + be);
    } else {
        assert(p.len() == 64 * (n + 2));
        assert(p.subrange(64 * n, 64 * (n + 1)) =~= t + sp_zeros(64 - t.len()));
        assert(p.subrange(64 * (n + 1), 64 * (n + 2)) =~= sp_zeros(56) + be);
        assert(sp_blocks(sp_h0(), p, n + 2) == sp_compress(sp_blocks(sp_h0(), p, n + 1), sp_words(sp_zeros(56) + be)));
    }
}
// C02: two updates are one
pub proof fn sp_absorb_concat(s: SpSha, a: Seq<u8>, b: Seq<u8>)
    ensures
        sp_absorb(sp_absorb(s, a), b) == sp_absorb(s, a + b),
    decreases b.len()
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        sp_absorb_concat(s, a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
    }
}
pub proof fn sp_absorb_len(s: SpSha, d: Seq<u8>)
    ensures
        sp_absorb(s, d).len == s.len + d.len(),
    decreases d.len()
{
    if d.len() > 0 { sp_absorb_len(s, d.drop_last()); }
}
pub proof fn sp_absorb_empty(s: SpSha)
    ensures sp_absorb(s, Seq::empty()) == s,
{ }
// any list of chunks
pub open spec fn sp_absorb_all(s: SpSha, c: Seq<Seq<u8>>) -> SpSha
    decreases c.len()
{
    if c.len() == 0 { s } else { sp_absorb(sp_absorb_all(s, c.drop_last()), c.last()) }
}
pub open spec fn sp_concat(c: Seq<Seq<u8>>) -> Seq<u8>
    decreases c.len()
{
    if c.len() == 0 { Seq::empty() } else { sp_concat(c.drop_last()) + c.last() }
}
pub proof fn sp_chunks_do_not_matter(s: SpSha, c: Seq<Seq<u8>>)
    ensures
        sp_absorb_all(s, c) == sp_absorb(s, sp_concat(c)),
    decreases c.len()
{
    if c.len() > 0 {
        sp_chunks_do_not_matter(s, c.drop_last());
        sp_absorb_concat(s, sp_concat(c.drop_last()), c.last());
    }
}
pub proof fn sp_sha256_len(m: Seq<u8>)
    ensures sp_sha256(m).len() == 32,
{ }
// the octets of the first n writes of a history (None: something else than a write)
pub open spec fn sp_cat(v: Seq<Vec<u8>>, n: int) -> Seq<u8>
    decreases n
{
    if n <= 0 { Seq::empty() } else { sp_cat(v, n - 1) + v[n - 1]@ }
}
pub open spec fn sp_fed(v: Seq<Option<Vec<u8>>>, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { sp_fed(v, n - 1) + match v[n - 1] { Some(b) => b@.len() as int, None => 0 } }
}
pub proof fn sp_cat_mono(v: Seq<Vec<u8>>, i: int, n: int)
    requires 0 <= i <= n,
    ensures sp_cat(v, i).len() <= sp_cat(v, n).len(),
    decreases n
{ if i < n { sp_cat_mono(v, i, n - 1); } }
pub proof fn sp_fed_mono(v: Seq<Option<Vec<u8>>>, i: int, n: int)
    requires 0 <= i <= n,
    ensures 0 <= sp_fed(v, i) <= sp_fed(v, n),
    decreases n
{ if i < n { sp_fed_mono(v, i, n - 1); } else if n > 0 { sp_fed_mono(v, n - 1, n - 1); } }
