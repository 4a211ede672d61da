=== derive atom::mdia::Mdia Default
impl Default for Mdia { fn default() -> (r: Self) ensures r.minf is None { Mdia { minf: None } } }
=== derive atom::minf::Minf Default
impl Default for Minf { fn default() -> (r: Self) ensures r.stbl is None { Minf { stbl: None } } }
=== derive atom::stbl::Stbl Default
impl Default for Stbl { fn default() -> (r: Self) ensures r.stsd is None { Stbl { stsd: None } } }
=== derive atom::stsd::Stsd Default
impl Default for Stsd { fn default() -> (r: Self) ensures r.mp4a is None { Stsd { mp4a: None } } }
=== derive atom::trak::Trak Default
impl Default for Trak { fn default() -> (r: Self) ensures r.mdia is None { Trak { mdia: None } } }
=== derive atom::udta::Udta Default
impl<'a> Default for Udta<'a> { fn default() -> (r: Self) ensures r.meta is None { Udta { meta: None } } }
=== derive atom::meta::Meta Default
impl<'a> Default for Meta<'a> { fn default() -> (r: Self) ensures r.hdlr is None, r.ilst is None { Meta { hdlr: None, ilst: None } } }
=== derive atom::moov::Moov Default
impl<'a> Default for Moov<'a> {
    fn default() -> (r: Self) ensures r.mvhd is None, r.trak@.len() == 0, r.udta is None
    { Moov { mvhd: None, trak: Vec::new(), udta: None } }
}
=== derive atom::mp4a::Mp4a Default
impl Default for Mp4a {
    fn default() -> (r: Self) ensures r.channel_config is None, r.sample_rate is None, r.max_bitrate is None, r.avg_bitrate is None
    { Mp4a { channel_config: None, sample_rate: None, max_bitrate: None, avg_bitrate: None } }
}
=== derive atom::mvhd::Mvhd Default
impl Default for Mvhd {
    fn default() -> (r: Self) { Mvhd { duration: std::time::Duration::new(0, 0) } }
}
=== derive atom::ilst::Ilst Clone
impl<'a> Clone for Ilst<'a> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures
            self is Borrowed ==> r == *self,
            self is Owned ==> r is Owned && crate::vs::views(r->Owned_0@) == crate::vs::views(self->Owned_0@),
    { unimplemented!() }
}
