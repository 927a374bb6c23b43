broadcast use {crate::sp::sp_sha_ext, crate::sp::sp_byte_cast, crate::sp::sp_byte64_cast};
impl SHA256 {
    pub open spec fn sp_view(&self) -> SpSha {
        SpSha {
            h: self.h@,
            tail: self.buffer@.subrange(0, self.length as int % 64),
            len: self.length as int,
        }
    }
}
