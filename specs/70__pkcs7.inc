pub open spec fn sq_pad_write(s0: Seq<u8>, buf: Seq<u8>, bs: int, r: Option<Vec<u8>>, s1: Seq<u8>) -> bool {
    let all = s0 + buf;
    let k = sq_full(all.len() as int, bs);
    s1 == all.subrange(k, all.len() as int) && match r {
        None => k == 0,
        Some(v) => k > 0 && v@ == all.subrange(0, k),
    }
}
pub open spec fn sq_unpad_write(s0: Seq<u8>, buf: Seq<u8>, bs: int, r: Option<Vec<u8>>, s1: Seq<u8>) -> bool {
    let all = s0 + buf;
    let k = sq_released(all.len() as int, bs);
    s1 == all.subrange(k, all.len() as int) && match r {
        None => k == 0,
        Some(v) => k > 0 && v@ == all.subrange(0, k),
    }
}
pub open spec fn sv_unpad_flush(s0: Seq<u8>, bs: int, r: Result<Vec<u8>, UnpadError>, s1: Seq<u8>) -> bool {
    match r {
        Ok(v) => sq_valid(s0, bs) && s1.len() == 0,
        Err(UnpadError::UnfinishedBlock) => s0.len() != bs && s1 == s0,
        Err(UnpadError::InvalidPadding) => s0.len() == bs && !sq_valid(s0, bs) && s1 == s0,
    }
}
impl Pad {
    pub open spec fn sq_wf(&self) -> bool { 1 <= self.block_size <= 255 && self.storage@.len() < self.block_size }
}
impl Unpad {
    pub open spec fn sq_wf(&self) -> bool { 1 <= self.block_size <= 255 && self.storage@.len() <= self.block_size }
}
