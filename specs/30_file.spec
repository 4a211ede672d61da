=== prelude
pub mod fl {
use vstd::prelude::*;
use vstd::utf8::*;
use crate::vp::*;
use crate::vp::io::*;
use crate::vs::*;
use crate::ds::*;
use crate::hs::*;
use crate::ks::*;
use crate::pl::*;
use crate::types::*;
use crate::tag::Tag;
use crate::atom::head::*;
use crate::atom::ident::*;
use crate::atom::ParseAtom;
use crate::atom::moov::*;
use crate::atom::mp4a::*;
use crate::atom::mdia::*;
use crate::atom::minf::*;
use crate::atom::stbl::*;
use crate::atom::stsd::*;
use crate::atom::trak::*;
use crate::atom::udta::*;
use crate::atom::meta::*;
use crate::atom::ilst::*;
use crate::atom::mvhd::*;
broadcast use crate::vp::group_vp;

// ===================================================================== what a file contains
/// content of the last child with the identifier of an atom with the content `b`, the children of which start at `s`
pub open spec fn child(b: Option<Seq<u8>>, s: int, f: Fourcc) -> Option<Seq<u8>> {
    match b { None => None, Some(b) => last_body(b, kids(b, s)->Some_0, f) }
}
pub open spec fn mp4a_of(trak: Seq<u8>) -> Option<Mp4a> {
    match child(child(child(child(child(Some(trak), 0, f_mdia()), 0, f_minf()), 0, f_stbl()), 0, f_stsd()), 8, f_mp4a()) {
        None => None,
        Some(b) => Some(mp4a_info(b)),
    }
}
/// the first track with audio
pub open spec fn first_mp4a(t: Seq<Seq<u8>>) -> Option<Mp4a>
    decreases t.len()
{
    if t.len() == 0 { None } else if mp4a_of(t[0]) is Some { mp4a_of(t[0]) } else { first_mp4a(t.skip(1)) }
}
pub open spec fn ilst_content(moov: Seq<u8>) -> Option<Seq<u8>> {
    child(child(child(Some(moov), 0, f_udta()), 0, f_meta()), 4, f_ilst())
}
pub open spec fn items_of(moov: Seq<u8>) -> Seq<ItemS> {
    match ilst_content(moov) { None => Seq::empty(), Some(b) => ilst_of(b, kids(b, 0)->Some_0) }
}
pub open spec fn info_is(i: AudioInfo, moov: Seq<u8>) -> bool {
    &&& match child(Some(moov), 0, f_mvhd()) {
        None => i.duration is None,
        Some(b) => i.duration is Some && dur(i.duration->Some_0) == scaled(mvhd_scale(b), mvhd_units(b)),
    }
    &&& match first_mp4a(bodies(moov, kids(moov, 0)->Some_0, f_trak())) {
        None => i.channel_config is None && i.sample_rate is None && i.max_bitrate is None && i.avg_bitrate is None,
        Some(m) => i.channel_config == m.channel_config && i.sample_rate == m.sample_rate && i.max_bitrate == m.max_bitrate && i.avg_bitrate == m.avg_bitrate,
    }
}
pub open spec fn first_kid(ks: Seq<Kid>, f: Fourcc) -> Option<Kid>
    decreases ks.len()
{
    if ks.len() == 0 { None } else if ks[0].head.fourcc == f { Some(ks[0]) } else { first_kid(ks.skip(1), f) }
}
pub proof fn lemma_first_kid(ks: Seq<Kid>, f: Fourcc, k: int)
    requires
        0 <= k <= ks.len(), k < ks.len() ==> ks[k].head.fourcc == f,
        forall|i: int| 0 <= i < k ==> (#[trigger] ks[i]).head.fourcc != f,
    ensures first_kid(ks, f) == (if k < ks.len() { Some(ks[k]) } else { None })
    decreases k
{
    if 0 < k {
        assert forall|i: int| 0 <= i < k - 1 implies (#[trigger] ks.skip(1)[i]).head.fourcc != f by { assert(ks.skip(1)[i] == ks[i + 1]); }
        lemma_first_kid(ks.skip(1), f, k - 1);
    }
}
pub open spec fn ftyp_of(b: Seq<u8>) -> Seq<char> { decode_utf8(body(b, kids(b, 0)->Some_0[0])) }
/// content of the movie atom
pub open spec fn moov_of(b: Seq<u8>) -> Seq<u8> { body(b, first_kid(kids(b, 0)->Some_0, f_moov())->Some_0) }
/// `b` is a MPEG-4 file that can be read
pub open spec fn file_wf(b: Seq<u8>) -> bool {
    &&& kids(b, 0) is Some
    &&& kids(b, 0)->Some_0.len() > 0
    &&& kids(b, 0)->Some_0[0].head.fourcc == f_ftyp()
    &&& valid_utf8(body(b, kids(b, 0)->Some_0[0]))
    &&& first_kid(kids(b, 0)->Some_0, f_moov()) is Some
    &&& Moov::wf(moov_of(b))
}
pub open spec fn tag_is(t: Tag, b: Seq<u8>) -> bool {
    t.ftyp@ == ftyp_of(b) && info_is(t.info, moov_of(b)) && views(t.atoms@) == items_of(moov_of(b))
}
#[verifier::opaque]
pub open spec fn is_moov(m: Moov<'_>, b: Seq<u8>) -> bool { m.is(b) }
/// where the item list is found
pub open spec fn ilst_in(m: Moov<'_>) -> Option<Ilst<'_>> {
    match m.udta { None => None, Some(udta) => match udta.meta { None => None, Some(meta) => meta.ilst } }
}
#[verifier::opaque]
pub open spec fn mvhd_is(m: Option<Mvhd>, mv: Seq<u8>) -> bool {
    match child(Some(mv), 0, f_mvhd()) {
        None => m is None,
        Some(b) => m is Some && dur(m->Some_0.duration) == scaled(mvhd_scale(b), mvhd_units(b)),
    }
}
pub open spec fn trak_bodies(mv: Seq<u8>) -> Seq<Seq<u8>> { bodies(mv, kids(mv, 0)->Some_0, f_trak()) }
#[verifier::opaque]
pub open spec fn traks_ok(v: Seq<Trak>, mv: Seq<u8>) -> bool { traks_are(v, trak_bodies(mv)) }
pub proof fn lemma_moov_parts(m: Moov<'_>, mv: Seq<u8>)
    requires is_moov(m, mv)
    ensures
        mvhd_is(m.mvhd, mv), traks_ok(m.trak@, mv),
        match ilst_in(m) { None => items_of(mv) == Seq::<ItemS>::empty(), Some(i) => i is Owned && views(i->Owned_0@) == items_of(mv) },
{ reveal(is_moov); reveal(mvhd_is); reveal(traks_ok); }
pub proof fn lemma_info(i: AudioInfo, m: Option<Mvhd>, a: Option<Mp4a>, v: Seq<Trak>, mv: Seq<u8>)
    requires
        mvhd_is(m, mv), traks_ok(v, mv),
        a is None ==> forall|i: int| 0 <= i < v.len() ==> trak_mp4a(#[trigger] v[i]) is None,
        a is Some ==> exists|k: int| 0 <= k < v.len() && trak_mp4a(#[trigger] v[k]) == a && (forall|i: int| 0 <= i < k ==> trak_mp4a(#[trigger] v[i]) is None),
        match m { None => i.duration is None, Some(m) => i.duration == Some(m.duration) },
        match a { None => i.channel_config is None && i.sample_rate is None && i.max_bitrate is None && i.avg_bitrate is None,
            Some(m) => i.channel_config == m.channel_config && i.sample_rate == m.sample_rate && i.max_bitrate == m.max_bitrate && i.avg_bitrate == m.avg_bitrate },
    ensures info_is(i, mv)
{ reveal(mvhd_is); reveal(traks_ok); lemma_traks(v, trak_bodies(mv)); }
pub open spec fn trak_mp4a(t: Trak) -> Option<Mp4a> {
    match t.mdia { None => None, Some(mdia) => match mdia.minf { None => None, Some(minf) => match minf.stbl { None => None, Some(stbl) => match stbl.stsd {
        None => None, Some(stsd) => stsd.mp4a
    } } } }
}
pub proof fn lemma_trak_mp4a(t: Trak, b: Seq<u8>)
    requires t.is(b)
    ensures trak_mp4a(t) == mp4a_of(b)
{}
pub proof fn lemma_first_mp4a(t: Seq<Seq<u8>>, k: int)
    requires 0 <= k <= t.len(), forall|i: int| 0 <= i < k ==> mp4a_of(#[trigger] t[i]) is None, k < t.len() ==> mp4a_of(t[k]) is Some
    ensures first_mp4a(t) == (if k < t.len() { mp4a_of(t[k]) } else { None })
    decreases k
{
    if 0 < k {
        assert forall|i: int| 0 <= i < k - 1 implies mp4a_of(#[trigger] t.skip(1)[i]) is None by { assert(t.skip(1)[i] == t[i + 1]); }
        lemma_first_mp4a(t.skip(1), k - 1);
    }
}
/// the tracks that were parsed yield the first audio track
pub proof fn lemma_traks(v: Seq<Trak>, t: Seq<Seq<u8>>)
    requires traks_are(v, t)
    ensures
        forall|k: int| 0 <= k < v.len() && trak_mp4a(#[trigger] v[k]) is Some && (forall|i: int| 0 <= i < k ==> trak_mp4a(#[trigger] v[i]) is None)
            ==> first_mp4a(t) == trak_mp4a(v[k]),
        (forall|i: int| 0 <= i < v.len() ==> trak_mp4a(#[trigger] v[i]) is None) ==> first_mp4a(t) is None,
{
    assert forall|i: int| 0 <= i < v.len() implies trak_mp4a(#[trigger] v[i]) == mp4a_of(t[i]) by { lemma_trak_mp4a(v[i], t[i]); }
    assert forall|k: int| 0 <= k < v.len() && trak_mp4a(#[trigger] v[k]) is Some && (forall|i: int| 0 <= i < k ==> trak_mp4a(#[trigger] v[i]) is None)
        implies first_mp4a(t) == trak_mp4a(v[k]) by {
        assert forall|i: int| 0 <= i < k implies mp4a_of(#[trigger] t[i]) is None by { assert(trak_mp4a(v[i]) is None); }
        lemma_first_mp4a(t, k);
    }
    if forall|i: int| 0 <= i < v.len() ==> trak_mp4a(#[trigger] v[i]) is None {
        assert forall|i: int| 0 <= i < t.len() implies mp4a_of(#[trigger] t[i]) is None by { assert(trak_mp4a(v[i]) is None); }
        lemma_first_mp4a(t, t.len() as int);
    }
}
} // mod fl

=== fn atom::ftyp::Ftyp::parse
    requires swf(old(reader))
    ensures
        swf(final(reader)), same(final(reader), old(reader)),
        r is Ok ==> ({
            let (d, p) = (old(reader).data(), old(reader).pos());
            let h = head_at(d, p);
            h is Some && szf(h->Some_0.size) && h->Some_0.fourcc == f_ftyp() && p + h->Some_0.size.len <= d.len()
                && valid_utf8(d.subrange(p + hlen(h->Some_0.size), p + h->Some_0.size.len))
                && r->Ok_0.0@ == decode_utf8(d.subrange(p + hlen(h->Some_0.size), p + h->Some_0.size.len))
                && final(reader).pos() == p + h->Some_0.size.len
        }),
        old(reader).reliable() && ({
            let (d, p) = (old(reader).data(), old(reader).pos());
            let h = head_at(d, p);
            h is Some && h->Some_0.fourcc == f_ftyp() && p + h->Some_0.size.len <= d.len()
                && valid_utf8(d.subrange(p + hlen(h->Some_0.size), p + h->Some_0.size.len))
        }) ==> r is Ok,
--- at start
    proof { if head_at(reader.data(), reader.pos()) is Some { lemma_szf(reader.data(), reader.pos()); } }
=== fn atom::ftyp::Ftyp::write
    requires old(writer).pos() >= 0, encode_utf8(self.0@).len() <= 0x7fff_ffff
    ensures
        final(writer).reliable() == old(writer).reliable(), final(writer).tail() == old(writer).tail(), final(writer).pos() >= 0,
        r is Ok ==> wrote(old(writer), final(writer), bx(f_ftyp(), encode_utf8(self.0@))), //@P08 //@P02
        old(writer).reliable() ==> r is Ok,
--- at start
    proof { lemma_acc0(writer); }
--- at end
    proof {
        let h = ser_head(crate::atom::head::Head { size: size_of_content(encode_utf8(self.0@).len() as int), fourcc: f_ftyp() });
        assert(Seq::<u8>::empty() + h + encode_utf8(self.0@) =~= bx(f_ftyp(), encode_utf8(self.0@)));
    }
=== fn atom::ftyp::Ftyp::len
    requires encode_utf8(self.0@).len() <= 0x7fff_ffff
    ensures r == encode_utf8(self.0@).len() + 8, //@P08
=== fn tag::Tag::new
    ensures r.ftyp == ftyp, r.info == info, r.atoms == atoms,
=== fn atom::read_tag_from
    requires swf(old(reader))
    ensures
        swf(final(reader)), same(final(reader), old(reader)),
        r is Ok && file_wf(old(reader).data().skip(old(reader).pos())) ==> tag_is(r->Ok_0, old(reader).data().skip(old(reader).pos())), //@P15 //@P16
        old(reader).reliable() && old(reader).pos() <= old(reader).data().len()
            && file_wf(old(reader).data().skip(old(reader).pos())) ==> r is Ok, //@P15 //@P16
--- at start
    let ghost d = reader.data();
    let ghost p0 = reader.pos();
    let ghost e = d.len() as int;
    let ghost b = d.skip(p0);
    let ghost all = kids(b, 0)->Some_0;
    let ghost good = p0 <= e && file_wf(b);
    let ghost mut k: int = 1;
    proof {
        if good {
            assert(b =~= d.subrange(p0, e));
            assert(all.skip(0) =~= all);
            lemma_step(d, p0, e, 0, 0, 0);
        }
    }
--- loop 0
    invariant_except_break
        swf(reader), same(reader, old(reader)), parsed_bytes <= len + i64::MAX, len <= i64::MAX,
        d == old(reader).data(), p0 == old(reader).pos(), 0 <= p0 <= d.len(), e == d.len(), b == d.skip(p0),
        all == kids(b, 0)->Some_0, good == (p0 <= e && file_wf(b)),
        good ==> b =~= d.subrange(p0, e) && 1 <= k <= all.len() && len == e - p0 - all[0].head.size.len && parsed_bytes <= len
            && reader.pos() == p0 + all[0].head.size.len + parsed_bytes
            && kids(b, all[0].head.size.len + parsed_bytes as int) == Some(all.skip(k))
            && (forall|i: int| 0 <= i < k ==> (#[trigger] all[i]).head.fourcc != f_moov()),
    ensures
        swf(reader), same(reader, old(reader)), good ==> is_moov(moov, moov_of(b)),
    decreases (if parsed_bytes < len { len - parsed_bytes } else { 0 })
--- at loop 0 start
    proof {
        if good {
            if parsed_bytes < len { lemma_step(d, p0, e, 0, all[0].head.size.len + parsed_bytes as int, k); if all[k].head.fourcc == f_moov() { lemma_first_kid(all, f_moov(), k); reveal(is_moov); } }
            else { lemma_last(b, 0, k); lemma_first_kid(all, f_moov(), k); }
        }
    }
--- at loop 0 end
    proof { k = k + 1; }
--- at after loop 0
    let ghost mv = moov_of(b);
    let ghost m = moov;
    proof { if good { lemma_moov_parts(moov, mv); } }
--- at end
    proof {
        if good {
            let t = __r->Ok_0;
            assert(t.ftyp@ == ftyp_of(b));
            lemma_info(t.info, mvhd, mp4a, m.trak@, mv);
            assert(views(t.atoms@) == items_of(mv));
        }
    }
--- closure 0 Trak -> (x: Option<Mp4a>)
    ensures x == trak_mp4a(__c0)
--- closure 1 Mdia -> (x: Option<Minf>)
    ensures x == __c0.minf
--- closure 2 Minf -> (x: Option<Stbl>)
    ensures x == __c0.stbl
--- closure 3 Stbl -> (x: Option<Stsd>)
    ensures x == __c0.stsd
--- closure 4 Stsd -> (x: Option<Mp4a>)
    ensures x == __c0.mp4a
--- closure 5 Udta<'static> -> (x: Option<Meta<'static>>)
    ensures x == __c0.meta
--- closure 6 Meta<'static> -> (x: Option<Ilst<'static>>)
    ensures x == __c0.ilst
--- closure 7 Ilst<'static> -> (x: Option<Vec<AtomData>>)
    ensures x == (match __c0 { Ilst::Owned(a) => Some(a), Ilst::Borrowed(_) => None })
