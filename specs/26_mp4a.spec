=== impl atom::mp4a::<Mp4a as ParseAtom>
    open spec fn wf(b: Seq<u8>) -> bool { mp4a_wf(b) }
    open spec fn is(&self, b: Seq<u8>) -> bool { *self == mp4a_info(b) } //@P15
    open spec fn got(&self, d: Seq<u8>, p: int, size: Size) -> bool { true }
=== fn atom::mp4a::<Mp4a as ParseAtom>::parse_atom
--- at start
    let ghost d = reader.data();
    let ghost p0 = reader.pos();
    let ghost b = content(reader, size);
    proof {
        if inside(reader, size) && mp4a_wf(b) {
            let h = head_at(b, 28)->Some_0;
            lemma_head_sub(d, p0, p0 + clen(size), 28);
            lemma_szf(b, 28);
            assert(b.subrange(28 + hlen(h.size), 28 + h.size.len) =~= d.subrange(p0 + 28 + hlen(h.size), p0 + 28 + h.size.len));
        }
    }
=== fn atom::mp4a::parse_esds
    requires preq(old(reader), size)
    ensures
        swf(final(reader)), same(final(reader), old(reader)),
        r is Ok && inside(old(reader), size) && esds_wf(content(old(reader), size)) ==>
            *final(info) == es_info(*old(info), es_body(content(old(reader), size))), //@P15
        old(reader).reliable() && inside(old(reader), size) && esds_wf(content(old(reader), size)) ==> r is Ok, //@P15
--- at start
    let ghost d = reader.data();
    let ghost p0 = reader.pos();
    let ghost e = p0 + clen(size);
    let ghost b = content(reader, size);
    proof {
        if inside(reader, size) && esds_wf(b) {
            lemma_desc_len(d, p0, e, 5, 0, 0);
            let h = desc_at(b, 4)->Some_0;
            let q = 4 + h.hlen;
            assert(es_body(b) =~= d.subrange(p0 + q, if q + h.len <= b.len() { p0 + q + h.len } else { e }));
        }
    }
=== fn atom::mp4a::parse_es_desc
    requires swf(old(reader)), old(reader).pos() <= old(reader).data().len(), len <= 0x1000_0000
    ensures
        swf(final(reader)), same(final(reader), old(reader)),
        r is Ok && old(reader).pos() + len <= old(reader).data().len()
            && es_wf(old(reader).data().subrange(old(reader).pos(), old(reader).pos() + len)) ==>
            *final(info) == es_info(*old(info), old(reader).data().subrange(old(reader).pos(), old(reader).pos() + len))
                && final(reader).pos() == old(reader).pos() + len, //@P15
        old(reader).reliable() && old(reader).pos() + len <= old(reader).data().len()
            && es_wf(old(reader).data().subrange(old(reader).pos(), old(reader).pos() + len)) ==> r is Ok, //@P15
--- at start
    let ghost d = reader.data();
    let ghost p0 = reader.pos();
    let ghost e = p0 + len;
    let ghost b = d.subrange(p0, e);
    let ghost all = descs(b, 3)->Some_0;
    let ghost good = e <= d.len() && es_wf(b);
    let ghost mut k: int = 0;
    proof { if good { assert(all.skip(0) =~= all); } }
--- loop 0
    invariant
        swf(reader), same(reader, old(reader)), parsed_bytes <= 0x4000_0000, len <= 0x1000_0000,
        d == old(reader).data(), p0 == old(reader).pos(), 0 <= p0 <= d.len(), e == p0 + len, b == d.subrange(p0, e),
        all == descs(b, 3)->Some_0, good == (e <= d.len() && es_wf(b)),
        good ==> 0 <= k <= all.len() && parsed_bytes <= b.len() && reader.pos() == p0 + parsed_bytes
            && descs(b, parsed_bytes as int) == Some(all.skip(k))
            && *info == es_fold(b, all.take(k), *old(info)),
    decreases (if parsed_bytes < len { len - parsed_bytes } else { 0 })
--- at loop 0 start
    proof { if good { lemma_dstep(d, p0, e, 3, parsed_bytes as int, k); } }
--- at loop 0 end
    proof { k = k + 1; }
--- at end
    proof { if good { lemma_dlast(b, 3, k); } }
=== fn atom::mp4a::parse_dc_desc
    requires swf(old(reader)), old(reader).pos() <= old(reader).data().len(), len <= 0x1000_0000
    ensures
        swf(final(reader)), same(final(reader), old(reader)),
        r is Ok && old(reader).pos() + len <= old(reader).data().len()
            && dc_wf(old(reader).data().subrange(old(reader).pos(), old(reader).pos() + len)) ==>
            *final(info) == dc_info(*old(info), old(reader).data().subrange(old(reader).pos(), old(reader).pos() + len))
                && final(reader).pos() == old(reader).pos() + len, //@P15
        old(reader).reliable() && old(reader).pos() + len <= old(reader).data().len()
            && dc_wf(old(reader).data().subrange(old(reader).pos(), old(reader).pos() + len)) ==> r is Ok, //@P15
--- at start
    let ghost d = reader.data();
    let ghost p0 = reader.pos();
    let ghost e = p0 + len;
    let ghost b = d.subrange(p0, e);
    let ghost all = descs(b, 13)->Some_0;
    let ghost good = e <= d.len() && dc_wf(b);
    let ghost mut k: int = 0;
    let ghost i0 = Mp4a { max_bitrate: Some(be32(b.subrange(5, 9)) as u32), avg_bitrate: Some(be32(b.subrange(9, 13)) as u32), ..*info };
    proof {
        if good {
            assert(all.skip(0) =~= all);
            assert(b.subrange(5, 9) =~= d.subrange(p0 + 5, p0 + 9));
            assert(b.subrange(9, 13) =~= d.subrange(p0 + 9, p0 + 13));
        }
    }
--- loop 0
    invariant
        swf(reader), same(reader, old(reader)), parsed_bytes <= 0x4000_0000, len <= 0x1000_0000,
        d == old(reader).data(), p0 == old(reader).pos(), 0 <= p0 <= d.len(), e == p0 + len, b == d.subrange(p0, e),
        all == descs(b, 13)->Some_0, good == (e <= d.len() && dc_wf(b)),
        good ==> 0 <= k <= all.len() && parsed_bytes <= b.len() && reader.pos() == p0 + parsed_bytes
            && descs(b, parsed_bytes as int) == Some(all.skip(k))
            && *info == dc_fold(b, all.take(k), i0),
    decreases (if parsed_bytes < len { len - parsed_bytes } else { 0 })
--- at loop 0 start
    proof { if good { lemma_dstep(d, p0, e, 13, parsed_bytes as int, k); } }
--- at loop 0 end
    proof { k = k + 1; }
--- at end
    proof { if good { lemma_dlast(b, 13, k); } }
=== fn atom::mp4a::parse_ds_desc
    requires swf(old(reader)), old(reader).pos() <= old(reader).data().len(), len <= 0x1000_0000
    ensures
        swf(final(reader)), same(final(reader), old(reader)),
        r is Ok && len >= 2 && old(reader).pos() + len <= old(reader).data().len() ==>
            *final(info) == ds_info(*old(info), old(reader).data().subrange(old(reader).pos(), old(reader).pos() + len))
                && final(reader).pos() == old(reader).pos() + len, //@P15
        old(reader).reliable() && len >= 2 && old(reader).pos() + len <= old(reader).data().len() ==> r is Ok, //@P15
--- at start
    let ghost d = reader.data();
    let ghost p0 = reader.pos();
    proof {
        if len >= 2 && p0 + len <= d.len() { assert(d.subrange(p0, p0 + len).subrange(0, 2) =~= d.subrange(p0, p0 + 2)); }
    }
--- at before call try_from 0
    proof { assert(((num >> 7) & 0x0F) == num / 0x80 % 0x10 && ((num >> 3) & 0x0F) == num / 8 % 0x10) by (bit_vector); }
--- at end
    proof {
        if __r is Ok {
            lemma_rate_of(num as int / 0x80 % 0x10, info.sample_rate);
            lemma_config_of(num as int / 8 % 0x10, info.channel_config);
        }
    }
=== fn atom::mp4a::parse_desc_head
    requires swf(old(reader))
    ensures
        swf(final(reader)), same(final(reader), old(reader)),
        r is Ok ==> final(reader).pos() <= old(reader).data().len() && 2 <= r->Ok_0.1 <= 5 && r->Ok_0.2 < 0x1000_0000
            && final(reader).pos() == old(reader).pos() + r->Ok_0.1
            && desc_at(old(reader).data(), old(reader).pos())
                == Some(Desc { off: old(reader).pos(), tag: r->Ok_0.0, hlen: r->Ok_0.1 as int, len: r->Ok_0.2 as int }), //@P15
        old(reader).reliable() && desc_at(old(reader).data(), old(reader).pos()) is Some ==> r is Ok, //@P15
--- at start
    let ghost d = reader.data();
    let ghost p0 = reader.pos();
--- loop 0
    invariant_except_break
        desc_len(d, p0 + 1, 0, 0) == desc_len(d, p0 + head_len, head_len - 1, len as int),
        head_len == 1 ==> len == 0, head_len == 2 ==> len < 0x80, head_len == 3 ==> len < 0x4000, head_len == 4 ==> len < 0x20_0000,
    invariant
        swf(reader), same(reader, old(reader)), d == old(reader).data(), p0 == old(reader).pos(),
        1 <= head_len <= 5, reader.pos() == p0 + head_len, reader.pos() <= d.len(), 
        len < 0x1000_0000, tag == d[p0],
    ensures
        desc_len(d, p0 + 1, 0, 0) == Some((len as int, head_len - 1)), head_len >= 2,
    decreases 5 - head_len
--- at after call read_u8 1
    proof { assert(len < 0x20_0000 ==> (((len as u64) << 7) | ((b & 0x7F) as u64)) == (len as u64) * 0x80 + (b % 0x80) as u64) by (bit_vector);
        assert((b & 0x80 == 0) <==> b < 0x80) by (bit_vector); }
