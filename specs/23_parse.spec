# generated by tools/gen/containers.py
=== impl atom::mdia::<Mdia as ParseAtom>
    open spec fn wf(b: Seq<u8>) -> bool { kids(b, 0) is Some && kids_wf::<Minf>(b, 0, f_minf()) }
    open spec fn is(&self, b: Seq<u8>) -> bool { opt_is(self.minf, last_body(b, kids(b, 0)->Some_0, f_minf())) }
    open spec fn got(&self, d: Seq<u8>, p: int, size: Size) -> bool { true }
=== fn atom::mdia::<Mdia as ParseAtom>::parse_atom
--- at start
    let ghost d = reader.data();
    let ghost p0 = reader.pos();
    let ghost e = p0 + clen(size);
    let ghost b = content(reader, size);
    let ghost all = kids(b, 0)->Some_0;
    let ghost good = inside(reader, size) && Self::wf(b);
    let ghost mut k: int = 0;
    proof { if good { assert(all.skip(0) =~= all); } }
--- loop 0
    invariant
        swf(reader), same(reader, old(reader)), szf(size), parsed_bytes <= clen(size) + i64::MAX,
        d == old(reader).data(), p0 == old(reader).pos(), 0 <= p0 <= d.len(), e == p0 + clen(size), b == content(old(reader), size),
        all == kids(b, 0)->Some_0, good == (inside(old(reader), size) && Self::wf(b)),
        good ==> 0 <= k <= all.len() && parsed_bytes <= b.len() && reader.pos() == p0 + parsed_bytes
            && kids(b, parsed_bytes as int) == Some(all.skip(k))
            && opt_is(mdia.minf, last_body(b, all.take(k), f_minf())),
    decreases (if parsed_bytes < clen(size) { clen(size) - parsed_bytes } else { 0 })
--- at loop 0 start
    proof { if good { lemma_step(d, p0, e, 0, parsed_bytes as int, k); } }
--- at loop 0 end
    proof { k = k + 1; }
--- at end
    proof { if good { lemma_last(b, 0, k); } }
=== impl atom::minf::<Minf as ParseAtom>
    open spec fn wf(b: Seq<u8>) -> bool { kids(b, 0) is Some && kids_wf::<Stbl>(b, 0, f_stbl()) }
    open spec fn is(&self, b: Seq<u8>) -> bool { opt_is(self.stbl, last_body(b, kids(b, 0)->Some_0, f_stbl())) }
    open spec fn got(&self, d: Seq<u8>, p: int, size: Size) -> bool { true }
=== fn atom::minf::<Minf as ParseAtom>::parse_atom
--- at start
    let ghost d = reader.data();
    let ghost p0 = reader.pos();
    let ghost e = p0 + clen(size);
    let ghost b = content(reader, size);
    let ghost all = kids(b, 0)->Some_0;
    let ghost good = inside(reader, size) && Self::wf(b);
    let ghost mut k: int = 0;
    proof { if good { assert(all.skip(0) =~= all); } }
--- loop 0
    invariant
        swf(reader), same(reader, old(reader)), szf(size), parsed_bytes <= clen(size) + i64::MAX,
        d == old(reader).data(), p0 == old(reader).pos(), 0 <= p0 <= d.len(), e == p0 + clen(size), b == content(old(reader), size),
        all == kids(b, 0)->Some_0, good == (inside(old(reader), size) && Self::wf(b)),
        good ==> 0 <= k <= all.len() && parsed_bytes <= b.len() && reader.pos() == p0 + parsed_bytes
            && kids(b, parsed_bytes as int) == Some(all.skip(k))
            && opt_is(minf.stbl, last_body(b, all.take(k), f_stbl())),
    decreases (if parsed_bytes < clen(size) { clen(size) - parsed_bytes } else { 0 })
--- at loop 0 start
    proof { if good { lemma_step(d, p0, e, 0, parsed_bytes as int, k); } }
--- at loop 0 end
    proof { k = k + 1; }
--- at end
    proof { if good { lemma_last(b, 0, k); } }
=== impl atom::stbl::<Stbl as ParseAtom>
    open spec fn wf(b: Seq<u8>) -> bool { kids(b, 0) is Some && kids_wf::<Stsd>(b, 0, f_stsd()) }
    open spec fn is(&self, b: Seq<u8>) -> bool { opt_is(self.stsd, last_body(b, kids(b, 0)->Some_0, f_stsd())) }
    open spec fn got(&self, d: Seq<u8>, p: int, size: Size) -> bool { true }
=== fn atom::stbl::<Stbl as ParseAtom>::parse_atom
--- at start
    let ghost d = reader.data();
    let ghost p0 = reader.pos();
    let ghost e = p0 + clen(size);
    let ghost b = content(reader, size);
    let ghost all = kids(b, 0)->Some_0;
    let ghost good = inside(reader, size) && Self::wf(b);
    let ghost mut k: int = 0;
    proof { if good { assert(all.skip(0) =~= all); } }
--- loop 0
    invariant
        swf(reader), same(reader, old(reader)), szf(size), parsed_bytes <= clen(size) + i64::MAX,
        d == old(reader).data(), p0 == old(reader).pos(), 0 <= p0 <= d.len(), e == p0 + clen(size), b == content(old(reader), size),
        all == kids(b, 0)->Some_0, good == (inside(old(reader), size) && Self::wf(b)),
        good ==> 0 <= k <= all.len() && parsed_bytes <= b.len() && reader.pos() == p0 + parsed_bytes
            && kids(b, parsed_bytes as int) == Some(all.skip(k))
            && opt_is(stbl.stsd, last_body(b, all.take(k), f_stsd())),
    decreases (if parsed_bytes < clen(size) { clen(size) - parsed_bytes } else { 0 })
--- at loop 0 start
    proof { if good { lemma_step(d, p0, e, 0, parsed_bytes as int, k); } }
--- at loop 0 end
    proof { k = k + 1; }
--- at end
    proof { if good { lemma_last(b, 0, k); } }
=== impl atom::trak::<Trak as ParseAtom>
    open spec fn wf(b: Seq<u8>) -> bool { kids(b, 0) is Some && kids_wf::<Mdia>(b, 0, f_mdia()) }
    open spec fn is(&self, b: Seq<u8>) -> bool { opt_is(self.mdia, last_body(b, kids(b, 0)->Some_0, f_mdia())) }
    open spec fn got(&self, d: Seq<u8>, p: int, size: Size) -> bool { true }
=== fn atom::trak::<Trak as ParseAtom>::parse_atom
--- at start
    let ghost d = reader.data();
    let ghost p0 = reader.pos();
    let ghost e = p0 + clen(size);
    let ghost b = content(reader, size);
    let ghost all = kids(b, 0)->Some_0;
    let ghost good = inside(reader, size) && Self::wf(b);
    let ghost mut k: int = 0;
    proof { if good { assert(all.skip(0) =~= all); } }
--- loop 0
    invariant
        swf(reader), same(reader, old(reader)), szf(size), parsed_bytes <= clen(size) + i64::MAX,
        d == old(reader).data(), p0 == old(reader).pos(), 0 <= p0 <= d.len(), e == p0 + clen(size), b == content(old(reader), size),
        all == kids(b, 0)->Some_0, good == (inside(old(reader), size) && Self::wf(b)),
        good ==> 0 <= k <= all.len() && parsed_bytes <= b.len() && reader.pos() == p0 + parsed_bytes
            && kids(b, parsed_bytes as int) == Some(all.skip(k))
            && opt_is(trak.mdia, last_body(b, all.take(k), f_mdia())),
    decreases (if parsed_bytes < clen(size) { clen(size) - parsed_bytes } else { 0 })
--- at loop 0 start
    proof { if good { lemma_step(d, p0, e, 0, parsed_bytes as int, k); } }
--- at loop 0 end
    proof { k = k + 1; }
--- at end
    proof { if good { lemma_last(b, 0, k); } }
=== impl atom::udta::<Udta as ParseAtom>
    open spec fn wf(b: Seq<u8>) -> bool { kids(b, 0) is Some && kids_wf::<Meta<'_>>(b, 0, f_meta()) }
    open spec fn is(&self, b: Seq<u8>) -> bool { opt_is(self.meta, last_body(b, kids(b, 0)->Some_0, f_meta())) }
    open spec fn got(&self, d: Seq<u8>, p: int, size: Size) -> bool { true }
=== fn atom::udta::<Udta as ParseAtom>::parse_atom
--- at start
    let ghost d = reader.data();
    let ghost p0 = reader.pos();
    let ghost e = p0 + clen(size);
    let ghost b = content(reader, size);
    let ghost all = kids(b, 0)->Some_0;
    let ghost good = inside(reader, size) && Self::wf(b);
    let ghost mut k: int = 0;
    proof { if good { assert(all.skip(0) =~= all); } }
--- loop 0
    invariant
        swf(reader), same(reader, old(reader)), szf(size), parsed_bytes <= clen(size) + i64::MAX,
        d == old(reader).data(), p0 == old(reader).pos(), 0 <= p0 <= d.len(), e == p0 + clen(size), b == content(old(reader), size),
        all == kids(b, 0)->Some_0, good == (inside(old(reader), size) && Self::wf(b)),
        good ==> 0 <= k <= all.len() && parsed_bytes <= b.len() && reader.pos() == p0 + parsed_bytes
            && kids(b, parsed_bytes as int) == Some(all.skip(k))
            && opt_is(udta.meta, last_body(b, all.take(k), f_meta())),
    decreases (if parsed_bytes < clen(size) { clen(size) - parsed_bytes } else { 0 })
--- at loop 0 start
    proof { if good { lemma_step(d, p0, e, 0, parsed_bytes as int, k); } }
--- at loop 0 end
    proof { k = k + 1; }
--- at end
    proof { if good { lemma_last(b, 0, k); } }
=== impl atom::stsd::<Stsd as ParseAtom>
    open spec fn wf(b: Seq<u8>) -> bool { b.len() >= 8 && b[0] == 0 && kids(b, 8) is Some && kids_wf::<Mp4a>(b, 8, f_mp4a()) }
    open spec fn is(&self, b: Seq<u8>) -> bool { opt_is(self.mp4a, last_body(b, kids(b, 8)->Some_0, f_mp4a())) }
    open spec fn got(&self, d: Seq<u8>, p: int, size: Size) -> bool { true }
=== fn atom::stsd::<Stsd as ParseAtom>::parse_atom
--- at start
    let ghost d = reader.data();
    let ghost p0 = reader.pos();
    let ghost e = p0 + clen(size);
    let ghost b = content(reader, size);
    let ghost all = kids(b, 8)->Some_0;
    let ghost good = inside(reader, size) && Self::wf(b);
    let ghost mut k: int = 0;
    proof { if good { assert(all.skip(0) =~= all); } }
--- loop 0
    invariant
        swf(reader), same(reader, old(reader)), szf(size), parsed_bytes <= clen(size) + i64::MAX,
        d == old(reader).data(), p0 == old(reader).pos(), 0 <= p0 <= d.len(), e == p0 + clen(size), b == content(old(reader), size),
        all == kids(b, 8)->Some_0, good == (inside(old(reader), size) && Self::wf(b)),
        good ==> 0 <= k <= all.len() && parsed_bytes <= b.len() && reader.pos() == p0 + parsed_bytes
            && kids(b, parsed_bytes as int) == Some(all.skip(k))
            && opt_is(stsd.mp4a, last_body(b, all.take(k), f_mp4a())),
    decreases (if parsed_bytes < clen(size) { clen(size) - parsed_bytes } else { 0 })
--- at loop 0 start
    proof { if good { lemma_step(d, p0, e, 8, parsed_bytes as int, k); } }
--- at loop 0 end
    proof { k = k + 1; }
--- at end
    proof { if good { lemma_last(b, 8, k); } }
=== impl atom::meta::<Meta as ParseAtom>
    open spec fn wf(b: Seq<u8>) -> bool { b.len() >= 4 && b[0] == 0 && kids(b, 4) is Some && kids_wf::<Ilst<'_>>(b, 4, f_ilst()) }
    open spec fn is(&self, b: Seq<u8>) -> bool { opt_is(self.ilst, last_body(b, kids(b, 4)->Some_0, f_ilst())) }
    open spec fn got(&self, d: Seq<u8>, p: int, size: Size) -> bool { true }
=== fn atom::meta::<Meta as ParseAtom>::parse_atom
--- at start
    let ghost d = reader.data();
    let ghost p0 = reader.pos();
    let ghost e = p0 + clen(size);
    let ghost b = content(reader, size);
    let ghost all = kids(b, 4)->Some_0;
    let ghost good = inside(reader, size) && Self::wf(b);
    let ghost mut k: int = 0;
    proof { if good { assert(all.skip(0) =~= all); } }
--- loop 0
    invariant
        swf(reader), same(reader, old(reader)), szf(size), parsed_bytes <= clen(size) + i64::MAX,
        d == old(reader).data(), p0 == old(reader).pos(), 0 <= p0 <= d.len(), e == p0 + clen(size), b == content(old(reader), size),
        all == kids(b, 4)->Some_0, good == (inside(old(reader), size) && Self::wf(b)),
        good ==> 0 <= k <= all.len() && parsed_bytes <= b.len() && reader.pos() == p0 + parsed_bytes
            && kids(b, parsed_bytes as int) == Some(all.skip(k))
            && opt_is(meta.ilst, last_body(b, all.take(k), f_ilst())),
    decreases (if parsed_bytes < clen(size) { clen(size) - parsed_bytes } else { 0 })
--- at loop 0 start
    proof { if good { lemma_step(d, p0, e, 4, parsed_bytes as int, k); } }
--- at loop 0 end
    proof { k = k + 1; }
--- at end
    proof { if good { lemma_last(b, 4, k); } }
