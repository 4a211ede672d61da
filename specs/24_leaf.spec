=== prelude
pub mod pl {
use vstd::prelude::*;
use vstd::utf8::*;
use crate::vp::*;
use crate::vs::*;
use crate::ds::*;
use crate::hs::*;
use crate::ks::*;
use crate::ty::*;
use crate::types::*;
use crate::atom::mp4a::*;
use crate::atom::head::*;
use crate::atom::ident::*;
broadcast use crate::vp::group_vp;

// ===================================================================== movie header
pub open spec fn mvhd_wf(b: Seq<u8>) -> bool {
    (b.len() >= 20 && b[0] == 0 && be32(b.subrange(12, 16)) > 0) || (b.len() >= 32 && b[0] == 1 && be32(b.subrange(20, 24)) > 0)
}
pub open spec fn mvhd_scale(b: Seq<u8>) -> int { if b[0] == 0 { be32(b.subrange(12, 16)) } else { be32(b.subrange(20, 24)) } }
pub open spec fn mvhd_units(b: Seq<u8>) -> int { if b[0] == 0 { be32(b.subrange(16, 20)) } else { be64(b.subrange(24, 32)) } }
/// seconds and nanoseconds, rounded down
pub open spec fn scaled(scale: int, units: int) -> (int, int) { (units / scale, units % scale * 1_000_000_000 / scale) }

// ===================================================================== audio description
pub open spec fn rate_of(v: int) -> Option<SampleRate> {
    if v == 0 { Some(SampleRate::Hz96000) } else if v == 1 { Some(SampleRate::Hz88200) } else if v == 2 { Some(SampleRate::Hz64000) }
    else if v == 3 { Some(SampleRate::Hz48000) } else if v == 4 { Some(SampleRate::Hz44100) } else if v == 5 { Some(SampleRate::Hz32000) }
    else if v == 6 { Some(SampleRate::Hz24000) } else if v == 7 { Some(SampleRate::Hz22050) } else if v == 8 { Some(SampleRate::Hz16000) }
    else if v == 9 { Some(SampleRate::Hz12000) } else if v == 10 { Some(SampleRate::Hz11025) } else if v == 11 { Some(SampleRate::Hz8000) }
    else if v == 12 { Some(SampleRate::Hz7350) } else { None }
}
pub open spec fn config_of(v: int) -> Option<ChannelConfig> {
    if v == 1 { Some(ChannelConfig::Mono) } else if v == 2 { Some(ChannelConfig::Stereo) } else if v == 3 { Some(ChannelConfig::Three) }
    else if v == 4 { Some(ChannelConfig::Four) } else if v == 5 { Some(ChannelConfig::Five) } else if v == 6 { Some(ChannelConfig::FiveOne) }
    else if v == 7 { Some(ChannelConfig::SevenOne) } else { None }
}
pub proof fn lemma_rate_of(v: int, r: Option<SampleRate>)
    requires r is Some ==> freq_of(v) == Some(freq(r->Some_0)), r is None ==> freq_of(v) is None
    ensures r == rate_of(v) //@P14 //@P15
{}
pub proof fn lemma_config_of(v: int, r: Option<ChannelConfig>)
    requires r is Some ==> channels_of(v) == Some(channels(r->Some_0)), r is None ==> channels_of(v) is None
    ensures r == config_of(v) //@P14 //@P15
{}
/// value and number of bytes of a descriptor length, `n` bytes of which lie before `p`
pub open spec fn desc_len(b: Seq<u8>, p: int, n: int, acc: int) -> Option<(int, int)>
    decreases 4 - n
{
    if n >= 4 { Some((acc, n)) }
    else if p < 0 || p >= b.len() { None }
    else {
        let a = acc * 0x80 + (b[p] % 0x80) as int;
        if b[p] < 0x80 { Some((a, n + 1)) } else { desc_len(b, p + 1, n + 1, a) }
    }
}
pub ghost struct Desc { pub off: int, pub tag: u8, pub hlen: int, pub len: int }
pub open spec fn desc_at(b: Seq<u8>, p: int) -> Option<Desc> {
    if p < 0 || p >= b.len() { None } else {
        match desc_len(b, p + 1, 0, 0) { None => None, Some((l, n)) => Some(Desc { off: p, tag: b[p], hlen: 1 + n, len: l }) }
    }
}
pub open spec fn descs(b: Seq<u8>, p: int) -> Option<Seq<Desc>>
    decreases b.len() - p
{
    if p < 0 || p > b.len() { None }
    else if p == b.len() { Some(Seq::empty()) }
    else {
        match desc_at(b, p) {
            None => None,
            Some(h) => if h.len < 0 || h.hlen < 2 || p + h.hlen + h.len > b.len() { None } else {
                match descs(b, p + h.hlen + h.len) { None => None, Some(r) => Some(seq![h] + r) }
            }
        }
    }
}
pub open spec fn dbody(b: Seq<u8>, k: Desc) -> Seq<u8> { b.subrange(k.off + k.hlen, k.off + k.hlen + k.len) }
pub proof fn lemma_desc_len(d: Seq<u8>, p0: int, e: int, q: int, n: int, acc: int)
    requires 0 <= p0 <= e <= d.len(), 0 <= q, desc_len(d.subrange(p0, e), q, n, acc) is Some
    ensures desc_len(d, p0 + q, n, acc) == desc_len(d.subrange(p0, e), q, n, acc)
    decreases 4 - n
{
    if n < 4 && d.subrange(p0, e)[q] >= 0x80 { lemma_desc_len(d, p0, e, q + 1, n + 1, acc * 0x80 + (d.subrange(p0, e)[q] % 0x80) as int); }
}
pub proof fn lemma_dstep(d: Seq<u8>, p0: int, e: int, s: int, q: int, k: int)
    requires
        0 <= p0 <= e <= d.len(),
        0 <= q < e - p0,
        descs(d.subrange(p0, e), s) is Some,
        0 <= k <= descs(d.subrange(p0, e), s)->Some_0.len(),
        descs(d.subrange(p0, e), q) == Some(descs(d.subrange(p0, e), s)->Some_0.skip(k)),
    ensures ({
        let b = d.subrange(p0, e);
        let all = descs(b, s)->Some_0;
        let h = all[k];
        &&& k < all.len()
        &&& h.off == q
        &&& desc_at(d, p0 + q) == Some(Desc { off: p0 + q, ..h })
        &&& q + h.hlen + h.len <= e - p0
        &&& 0 <= h.len && 2 <= h.hlen
        &&& descs(b, q + h.hlen + h.len) == Some(all.skip(k + 1))
        &&& dbody(b, h) == d.subrange(p0 + q + h.hlen, p0 + q + h.hlen + h.len)
        &&& all.take(k + 1).last() == all[k]
        &&& all.take(k + 1).drop_last() == all.take(k)
    }),
{
    let b = d.subrange(p0, e);
    let all = descs(b, s)->Some_0;
    let r = all.skip(k);
    let h = desc_at(b, q)->Some_0;
    lemma_desc_len(d, p0, e, q + 1, 0, 0);
    let t = descs(b, q + h.hlen + h.len)->Some_0;
    assert(r == seq![h] + t);
    assert(r.len() == 1 + t.len() && r.len() == all.len() - k);
    assert(r[0] == h);
    assert(all[k] == r[0]);
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] == all.skip(k + 1)[i] by { assert(r[i + 1] == t[i]); assert(r[i + 1] == all[k + i + 1]); }
    assert(t =~= all.skip(k + 1));
    assert(dbody(b, h) =~= d.subrange(p0 + q + h.hlen, p0 + q + h.hlen + h.len));
    assert(all.take(k + 1).drop_last() =~= all.take(k));
}
pub proof fn lemma_dlast(b: Seq<u8>, s: int, k: int)
    requires
        descs(b, s) is Some, 0 <= k <= descs(b, s)->Some_0.len(),
        descs(b, b.len() as int) == Some(descs(b, s)->Some_0.skip(k)),
    ensures descs(b, s)->Some_0.take(k) == descs(b, s)->Some_0
{
    let all = descs(b, s)->Some_0;
    assert(all.skip(k).len() == 0);
    assert(all.take(k) =~= all);
}
/// decoder specific descriptor: 5 bit profile, 4 bit frequency index, 4 bit channel configuration
pub open spec fn ds_info(i: Mp4a, b: Seq<u8>) -> Mp4a {
    let n = be16(b.subrange(0, 2));
    Mp4a { sample_rate: rate_of(n / 0x80 % 0x10), channel_config: config_of(n / 8 % 0x10), ..i }
}
pub open spec fn dc_fold(b: Seq<u8>, ks: Seq<Desc>, i: Mp4a) -> Mp4a
    decreases ks.len()
{
    if ks.len() == 0 { i } else {
        let p = dc_fold(b, ks.drop_last(), i);
        if ks.last().tag == 5 { ds_info(p, dbody(b, ks.last())) } else { p }
    }
}
/// decoder config descriptor
pub open spec fn dc_info(i: Mp4a, b: Seq<u8>) -> Mp4a {
    dc_fold(b, descs(b, 13)->Some_0, Mp4a { max_bitrate: Some(be32(b.subrange(5, 9)) as u32), avg_bitrate: Some(be32(b.subrange(9, 13)) as u32), ..i })
}
pub open spec fn dc_wf(b: Seq<u8>) -> bool {
    b.len() >= 13 && descs(b, 13) is Some
        && forall|j: int| 0 <= j < descs(b, 13)->Some_0.len() && (#[trigger] descs(b, 13)->Some_0[j]).tag == 5 ==> descs(b, 13)->Some_0[j].len >= 2
}
pub open spec fn es_fold(b: Seq<u8>, ks: Seq<Desc>, i: Mp4a) -> Mp4a
    decreases ks.len()
{
    if ks.len() == 0 { i } else {
        let p = es_fold(b, ks.drop_last(), i);
        if ks.last().tag == 4 { dc_info(p, dbody(b, ks.last())) } else { p }
    }
}
/// elementary stream descriptor
pub open spec fn es_info(i: Mp4a, b: Seq<u8>) -> Mp4a { es_fold(b, descs(b, 3)->Some_0, i) }
pub open spec fn es_wf(b: Seq<u8>) -> bool {
    b.len() >= 3 && descs(b, 3) is Some
        && forall|j: int| 0 <= j < descs(b, 3)->Some_0.len() && (#[trigger] descs(b, 3)->Some_0[j]).tag == 4 ==> dc_wf(dbody(b, descs(b, 3)->Some_0[j]))
}
/// the part of the content of `esds` covered by the elementary stream descriptor
pub open spec fn es_body(b: Seq<u8>) -> Seq<u8> {
    let h = desc_at(b, 4)->Some_0;
    let q = 4 + h.hlen;
    b.subrange(q, if q + h.len <= b.len() { q + h.len } else { b.len() as int })
}
pub open spec fn esds_wf(b: Seq<u8>) -> bool {
    b.len() >= 4 && b[0] == 0 && desc_at(b, 4) is Some && desc_at(b, 4)->Some_0.tag == 3
        && desc_at(b, 4)->Some_0.len >= 0 && desc_at(b, 4)->Some_0.hlen >= 2 && 4 + desc_at(b, 4)->Some_0.hlen <= b.len() && es_wf(es_body(b))
}
pub open spec fn mp4a_wf(b: Seq<u8>) -> bool {
    head_at(b, 28) is Some && ({
        let h = head_at(b, 28)->Some_0;
        h.fourcc == f_esds() && 28 + h.size.len <= b.len() && esds_wf(b.subrange(28 + hlen(h.size), 28 + h.size.len))
    })
}
pub open spec fn mp4a_info(b: Seq<u8>) -> Mp4a {
    let h = head_at(b, 28)->Some_0;
    es_info(Mp4a { channel_config: None, sample_rate: None, max_bitrate: None, avg_bitrate: None },
        es_body(b.subrange(28 + hlen(h.size), 28 + h.size.len)))
}

// ===================================================================== chunk offset tables
pub open spec fn stco_wf(b: Seq<u8>) -> bool { b.len() >= 8 && b[0] == 0 && 8 + 4 * be32(b.subrange(4, 8)) == b.len() }
pub open spec fn co64_wf(b: Seq<u8>) -> bool { b.len() >= 8 && b[0] == 0 && 8 + 8 * be32(b.subrange(4, 8)) == b.len() }
pub open spec fn offs32(o: Seq<u32>, d: Seq<u8>, p: int) -> bool {
    p + 4 * o.len() <= d.len() && forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i]) == be32(d.subrange(p + 4 * i, p + 4 * i + 4))
}
pub open spec fn offs64(o: Seq<u64>, d: Seq<u8>, p: int) -> bool {
    p + 8 * o.len() <= d.len() && forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i]) == be64(d.subrange(p + 8 * i, p + 8 * i + 8))
}

// ===================================================================== item list
pub open spec fn dcode(x: Seq<u8>) -> int { be32(seq![0u8, x[1], x[2], x[3]]) }
pub open spec fn data_wf(x: Seq<u8>) -> bool { x.len() >= 8 && x[0] == 0 && decode(dcode(x), x.skip(8)) is Some }
pub open spec fn text_wf(x: Seq<u8>) -> bool { x.len() >= 4 && x[0] == 0 && valid_utf8(x.skip(4)) }
pub open spec fn item_wf(b: Seq<u8>) -> bool {
    kids(b, 0) is Some && forall|i: int| 0 <= i < kids(b, 0)->Some_0.len() ==> ({
        let k = #[trigger] kids(b, 0)->Some_0[i];
        (k.head.fourcc == f_data() ==> data_wf(body(b, k)))
            && (k.head.fourcc == f_mean() || k.head.fourcc == f_name() ==> text_wf(body(b, k)))
    })
}
pub open spec fn values(b: Seq<u8>, ks: Seq<Kid>) -> Seq<DataS>
    decreases ks.len()
{
    if ks.len() == 0 { Seq::empty() }
    else if ks.last().head.fourcc == f_data() {
        let x = body(b, ks.last());
        values(b, ks.drop_last()).push(decode(dcode(x), x.skip(8))->Some_0)
    }
    else { values(b, ks.drop_last()) }
}
pub open spec fn text(o: Option<Seq<u8>>) -> Option<Seq<char>> {
    match o { Some(x) => Some(decode_utf8(x.skip(4))), None => None }
}
pub open spec fn item_id(f: Fourcc, mean: Option<Seq<char>>, name: Option<Seq<char>>) -> IdS {
    if f == f_freeform() && mean is Some && name is Some { IdS::X(mean->Some_0, name->Some_0) } else { IdS::F(f) }
}
pub open spec fn item_of(f: Fourcc, b: Seq<u8>) -> ItemS {
    let ks = kids(b, 0)->Some_0;
    ItemS { id: item_id(f, text(last_body(b, ks, f_mean())), text(last_body(b, ks, f_name()))), data: values(b, ks) }
}
/// the values are added to the item with the identifier
pub open spec fn merge(t: Seq<ItemS>, i: ItemS) -> Seq<ItemS> {
    let k = idx(t, i.id);
    if k < t.len() { t.update(k, ItemS { id: i.id, data: t[k].data + i.data }) } else { t.push(i) }
}
pub open spec fn is_at(t: Seq<ItemS>, id: IdS, k: int) -> bool {
    0 <= k < t.len() && t[k].id == id && forall|i: int| 0 <= i < k ==> (#[trigger] t[i]).id != id
}
pub open spec fn ilst_of(b: Seq<u8>, ks: Seq<Kid>) -> Seq<ItemS>
    decreases ks.len()
{
    if ks.len() == 0 { Seq::empty() }
    else if ks.last().head.fourcc == f_free() { ilst_of(b, ks.drop_last()) }
    else { merge(ilst_of(b, ks.drop_last()), item_of(ks.last().head.fourcc, body(b, ks.last()))) }
}
pub open spec fn ilst_wf(b: Seq<u8>) -> bool {
    kids(b, 0) is Some && forall|i: int| 0 <= i < kids(b, 0)->Some_0.len() ==> ({
        let k = #[trigger] kids(b, 0)->Some_0[i];
        k.head.fourcc != f_free() ==> item_wf(body(b, k)) && item_of(k.head.fourcc, body(b, k)).data.len() > 0
    })
}
} // mod pl

=== impl atom::mvhd::<Mvhd as ParseAtom>
    open spec fn wf(b: Seq<u8>) -> bool { mvhd_wf(b) }
    open spec fn is(&self, b: Seq<u8>) -> bool { dur(self.duration) == scaled(mvhd_scale(b), mvhd_units(b)) } //@P15
    open spec fn got(&self, d: Seq<u8>, p: int, size: Size) -> bool { true }
=== fn atom::mvhd::<Mvhd as ParseAtom>::parse_atom
--- at start
    let ghost d = reader.data();
    let ghost p0 = reader.pos();
    let ghost b = content(reader, size);
    proof {
        if inside(reader, size) && mvhd_wf(b) {
            if b[0] == 0 {
                assert(b.subrange(12, 16) =~= d.subrange(p0 + 12, p0 + 16));
                assert(b.subrange(16, 20) =~= d.subrange(p0 + 16, p0 + 20));
            } else {
                assert(b.subrange(20, 24) =~= d.subrange(p0 + 20, p0 + 24));
                assert(b.subrange(24, 32) =~= d.subrange(p0 + 24, p0 + 32));
            }
        }
    }
=== fn atom::mvhd::scale_duration
    requires timescale <= u32::MAX
    ensures
        r is Ok <==> timescale > 0,
        r is Ok ==> dur(r->Ok_0) == scaled(timescale as int, duration as int), //@P15
--- at start
    proof {
        if timescale > 0 {
            let m = duration as int % timescale as int;
            assert(0 <= m < timescale);
            assert(m * 1_000_000_000 < timescale * 1_000_000_000) by (nonlinear_arith) requires m < timescale;
            vstd::arithmetic::div_mod::lemma_multiply_divide_lt(m * 1_000_000_000, timescale as int, 1_000_000_000);
        }
    }
=== impl atom::hdlr::<Hdlr as ParseAtom>
    open spec fn wf(b: Seq<u8>) -> bool { true }
    open spec fn is(&self, b: Seq<u8>) -> bool { self.0@ == b }
    open spec fn got(&self, d: Seq<u8>, p: int, size: Size) -> bool { true }
=== fn atom::hdlr::<Hdlr as ParseAtom>::parse_atom
--- at start
    proof { if inside(reader, size) { assert(content(reader, size) =~= bytes_at(reader.data(), reader.pos(), clen(size))); } }
=== fn atom::hdlr::<Hdlr as Deref>::deref
    ensures *r == self.0,
=== fn atom::hdlr::<Hdlr as DerefMut>::deref_mut
    ensures *r == old(self).0, *final(r) == final(self).0,
