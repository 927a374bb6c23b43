broadcast use crate::sp::sa_wbyte_cast;
// the tables in the code are the functions of the standard
pub open spec fn sa_tables_ok(n: int) -> bool
    decreases n
{
    if n <= 0 { true } else {
        SBOX[n - 1] == sa_sbox((n - 1) as u8) && sa_tables_ok(n - 1)
    }
}
pub open spec fn sa_itables_ok(n: int) -> bool
    decreases n
{
    if n <= 0 { true } else {
        INV_SBOX[n - 1] == sa_isbox((n - 1) as u8) && sa_itables_ok(n - 1)
    }
}
pub proof fn sa_tables_at(n: int, x: int)
    requires sa_tables_ok(n), 0 <= x < n <= 256,
    ensures SBOX@[x] == sa_sbox(x as u8),
    decreases n
{ if x < n - 1 { sa_tables_at(n - 1, x); } }
pub proof fn sa_itables_at(n: int, x: int)
    requires sa_itables_ok(n), 0 <= x < n <= 256,
    ensures INV_SBOX@[x] == sa_isbox(x as u8),
    decreases n
{ if x < n - 1 { sa_itables_at(n - 1, x); } }
pub proof fn sa_sbox_table()
    ensures forall|x: int| #![trigger SBOX@[x]] 0 <= x < 256 ==> SBOX@[x] == sa_sbox(x as u8),
{
    reveal(sa_sbox); reveal(sa_isbox);
    assert(sa_tables_ok(256)) by (compute_only);
    assert forall|x: int| #![trigger SBOX@[x]] 0 <= x < 256 implies SBOX@[x] == sa_sbox(x as u8) by { sa_tables_at(256, x); }
}
pub proof fn sa_isbox_table()
    ensures forall|x: int| #![trigger INV_SBOX@[x]] 0 <= x < 256 ==> INV_SBOX@[x] == sa_isbox(x as u8),
{
    reveal(sa_sbox); reveal(sa_isbox);
    assert(sa_itables_ok(256)) by (compute_only);
    assert forall|x: int| #![trigger INV_SBOX@[x]] 0 <= x < 256 implies INV_SBOX@[x] == sa_isbox(x as u8) by { sa_itables_at(256, x); }
}
pub proof fn sa_rcon_table()
    ensures forall|x: int| #![trigger RCON@[x]] 0 <= x < 10 ==> RCON@[x] == sa_rcon(x + 1),
{
    reveal(sa_rcon);
    assert(RCON[0] == sa_rcon(1) && RCON[1] == sa_rcon(2) && RCON[2] == sa_rcon(3) && RCON[3] == sa_rcon(4) && RCON[4] == sa_rcon(5)
        && RCON[5] == sa_rcon(6) && RCON[6] == sa_rcon(7) && RCON[7] == sa_rcon(8) && RCON[8] == sa_rcon(9) && RCON[9] == sa_rcon(10)) by (compute_only);
}
impl AES {
    // a reachable instance: no key, or a schedule of the right shape
    pub open spec fn sa_wf(&self) -> bool {
        match self.round_keys {
            None => true,
            Some(k) => (self.round_count == 10 || self.round_count == 12 || self.round_count == 14) && k@.len() == 4 * (self.round_count + 1),
        }
    }
    // the instance works with this key
    pub open spec fn sa_keyed(&self, key: Seq<u8>) -> bool {
        self.round_keys.is_some() && self.round_count == sa_nr(key) && self.round_keys.unwrap()@ == sa_schedule(key)
    }
}
// a block operation succeeds exactly when a key is in force
pub open spec fn sk_block(keyed: bool, r: Result<[u8; 16], AESError>) -> bool {
    match r { Ok(_) => keyed, Err(e) => !keyed && e == AESError::NotInitialized }
}
// a key set-up succeeds exactly for the three sizes
pub open spec fn sk_init_answer(k: Seq<u8>, r: Result<(), AESError>) -> bool {
    match r { Ok(_) => sa_keylen(k.len() as int), Err(e) => !sa_keylen(k.len() as int) && e == AESError::InvalidKeySize }
}
