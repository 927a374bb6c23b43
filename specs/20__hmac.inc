impl HMac {
    pub open spec fn sp_view(&self) -> SpMac { SpMac { i: self.inner.sp_view(), o: self.outer.sp_view() } }
    pub open spec fn sp_wf(&self) -> bool { self.outer.length == 64 }
}
