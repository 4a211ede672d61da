=== prelude
pub mod ks {
use vstd::prelude::*;
use crate::vp::*;
use crate::vp::io::*;
use crate::vs::*;
use crate::ds::*;
use crate::hs::*;
use crate::atom::head::*;
use crate::atom::ident::*;
broadcast use crate::vp::group_vp;

// ===================================================================== atoms inside a container
/// an atom found inside of a container, `off` is relative to the content of the container
pub ghost struct Kid { pub off: int, pub head: Head }

/// the atoms that tile `b` from offset `p` on
pub open spec fn kids(b: Seq<u8>, p: int) -> Option<Seq<Kid>>
    decreases b.len() - p
{
    if p < 0 || p > b.len() { None }
    else if p == b.len() { Some(Seq::empty()) }
    else {
        match head_at(b, p) {
            None => None,
            Some(h) => if h.size.len < 8 || p + h.size.len > b.len() { None } else {
                match kids(b, p + h.size.len) {
                    None => None,
                    Some(r) => Some(seq![Kid { off: p, head: h }] + r),
                }
            }
        }
    }
}
pub open spec fn body(b: Seq<u8>, k: Kid) -> Seq<u8> { b.subrange(k.off + hlen(k.head.size), k.off + k.head.size.len) }
/// content of the last atom with the identifier
pub open spec fn last_body(b: Seq<u8>, ks: Seq<Kid>, f: Fourcc) -> Option<Seq<u8>>
    decreases ks.len()
{
    if ks.len() == 0 { None } else if ks.last().head.fourcc == f { Some(body(b, ks.last())) } else { last_body(b, ks.drop_last(), f) }
}
/// contents of all atoms with the identifier
pub open spec fn bodies(b: Seq<u8>, ks: Seq<Kid>, f: Fourcc) -> Seq<Seq<u8>>
    decreases ks.len()
{
    if ks.len() == 0 { Seq::empty() } else if ks.last().head.fourcc == f { bodies(b, ks.drop_last(), f).push(body(b, ks.last())) }
    else { bodies(b, ks.drop_last(), f) }
}
/// header at the same place of a part of the data
pub proof fn lemma_head_sub(d: Seq<u8>, p0: int, e: int, q: int)
    requires 0 <= p0 <= e <= d.len(), 0 <= q, head_at(d.subrange(p0, e), q) is Some
    ensures head_at(d, p0 + q) == head_at(d.subrange(p0, e), q)
{
    let b = d.subrange(p0, e);
    assert(b.subrange(q, q + 4) =~= d.subrange(p0 + q, p0 + q + 4));
    if q + 16 <= b.len() { assert(b.subrange(q + 8, q + 16) =~= d.subrange(p0 + q + 8, p0 + q + 16)); }
}
/// one step through a container
pub proof fn lemma_step(d: Seq<u8>, p0: int, e: int, s: int, q: int, k: int)
    requires
        0 <= p0 <= e <= d.len(),
        0 <= q < e - p0,
        kids(d.subrange(p0, e), s) is Some,
        0 <= k <= kids(d.subrange(p0, e), s)->Some_0.len(),
        kids(d.subrange(p0, e), q) == Some(kids(d.subrange(p0, e), s)->Some_0.skip(k)),
    ensures ({
        let b = d.subrange(p0, e);
        let all = kids(b, s)->Some_0;
        let h = all[k].head;
        &&& k < all.len()
        &&& all[k].off == q
        &&& head_at(d, p0 + q) == Some(h)
        &&& szf(h.size)
        &&& q + h.size.len <= e - p0
        &&& kids(b, q + h.size.len) == Some(all.skip(k + 1))
        &&& body(b, all[k]) == d.subrange(p0 + q + hlen(h.size), p0 + q + h.size.len)
        &&& all.take(k + 1).last() == all[k]
        &&& all.take(k + 1).drop_last() == all.take(k)
    }),
{
    let b = d.subrange(p0, e);
    let all = kids(b, s)->Some_0;
    let r = all.skip(k);
    let h = head_at(b, q)->Some_0;
    lemma_head_sub(d, p0, e, q);
    lemma_szf(b, q);
    let t = kids(b, q + h.size.len)->Some_0;
    assert(r == seq![Kid { off: q, head: h }] + t);
    assert(r.len() == 1 + t.len() && r.len() == all.len() - k);
    assert(r[0] == Kid { off: q, head: h });
    assert(all[k] == r[0]);
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] == all.skip(k + 1)[i] by { assert(r[i + 1] == t[i]); assert(r[i + 1] == all[k + i + 1]); }
    assert(t =~= all.skip(k + 1));
    assert(body(b, all[k]) =~= d.subrange(p0 + q + hlen(h.size), p0 + q + h.size.len));
    assert(all.take(k + 1).drop_last() =~= all.take(k));
}
/// at the end of the container
pub proof fn lemma_last(b: Seq<u8>, s: int, k: int)
    requires
        kids(b, s) is Some, 0 <= k <= kids(b, s)->Some_0.len(),
        kids(b, b.len() as int) == Some(kids(b, s)->Some_0.skip(k)),
    ensures kids(b, s)->Some_0.take(k) == kids(b, s)->Some_0
{
    let all = kids(b, s)->Some_0;
    assert(all.skip(k).len() == 0);
    assert(all.take(k) =~= all);
}

/// the content of an atom whose header has just been read
pub open spec fn inside<S: Stream + ?Sized>(s: &S, size: Size) -> bool { s.pos() + clen(size) <= s.data().len() }
pub open spec fn content<S: Stream + ?Sized>(s: &S, size: Size) -> Seq<u8> { s.data().subrange(s.pos(), s.pos() + clen(size)) }
/// what parsing an atom needs
pub open spec fn preq<S: Stream + ?Sized>(s: &S, size: Size) -> bool {
    swf(s) && szf(size) && hlen(size) <= s.pos() <= s.data().len()
}
pub open spec fn opt_is<T: crate::atom::ParseAtom>(o: Option<T>, b: Option<Seq<u8>>) -> bool {
    match o { None => b is None, Some(x) => b is Some && x.is(b->Some_0) }
}
/// atoms with the identifier are well-formed
pub open spec fn kids_wf<T: crate::atom::ParseAtom>(b: Seq<u8>, s: int, f: Fourcc) -> bool {
    forall|i: int| 0 <= i < kids(b, s)->Some_0.len() && (#[trigger] kids(b, s)->Some_0[i]).head.fourcc == f ==> T::wf(body(b, kids(b, s)->Some_0[i]))
}

// ===================================================================== identifiers of the format
pub open spec fn f_ftyp() -> Fourcc { Fourcc([0x66, 0x74, 0x79, 0x70]) }
pub open spec fn f_moov() -> Fourcc { Fourcc([0x6d, 0x6f, 0x6f, 0x76]) }
pub open spec fn f_mdat() -> Fourcc { Fourcc([0x6d, 0x64, 0x61, 0x74]) }
pub open spec fn f_mvhd() -> Fourcc { Fourcc([0x6d, 0x76, 0x68, 0x64]) }
pub open spec fn f_trak() -> Fourcc { Fourcc([0x74, 0x72, 0x61, 0x6b]) }
pub open spec fn f_mdia() -> Fourcc { Fourcc([0x6d, 0x64, 0x69, 0x61]) }
pub open spec fn f_minf() -> Fourcc { Fourcc([0x6d, 0x69, 0x6e, 0x66]) }
pub open spec fn f_stbl() -> Fourcc { Fourcc([0x73, 0x74, 0x62, 0x6c]) }
pub open spec fn f_stsd() -> Fourcc { Fourcc([0x73, 0x74, 0x73, 0x64]) }
pub open spec fn f_mp4a() -> Fourcc { Fourcc([0x6d, 0x70, 0x34, 0x61]) }
pub open spec fn f_esds() -> Fourcc { Fourcc([0x65, 0x73, 0x64, 0x73]) }
pub open spec fn f_stco() -> Fourcc { Fourcc([0x73, 0x74, 0x63, 0x6f]) }
pub open spec fn f_co64() -> Fourcc { Fourcc([0x63, 0x6f, 0x36, 0x34]) }
pub open spec fn f_udta() -> Fourcc { Fourcc([0x75, 0x64, 0x74, 0x61]) }
pub open spec fn f_meta() -> Fourcc { Fourcc([0x6d, 0x65, 0x74, 0x61]) }
pub open spec fn f_hdlr() -> Fourcc { Fourcc([0x68, 0x64, 0x6c, 0x72]) }
pub open spec fn f_ilst() -> Fourcc { Fourcc([0x69, 0x6c, 0x73, 0x74]) }
pub open spec fn f_free() -> Fourcc { Fourcc([0x66, 0x72, 0x65, 0x65]) }
pub open spec fn f_data() -> Fourcc { Fourcc([0x64, 0x61, 0x74, 0x61]) }
pub open spec fn f_mean() -> Fourcc { Fourcc([0x6d, 0x65, 0x61, 0x6e]) }
pub open spec fn f_name() -> Fourcc { Fourcc([0x6e, 0x61, 0x6d, 0x65]) }
pub open spec fn f_freeform() -> Fourcc { Fourcc([0x2d, 0x2d, 0x2d, 0x2d]) }
} // mod ks

=== trait atom::ParseAtom
    /// the content of a well-formed atom of this kind
    spec fn wf(b: Seq<u8>) -> bool;
    /// the value represents the content
    spec fn is(&self, b: Seq<u8>) -> bool;
    /// what is known of every value parsed at an offset, whether the input is well-formed or not
    spec fn got(&self, d: Seq<u8>, p: int, size: Size) -> bool;
=== fn atom::ParseAtom::parse
    requires preq(old(reader), size)
    ensures
        swf(final(reader)), same(final(reader), old(reader)),
        r is Ok ==> r->Ok_0.got(old(reader).data(), old(reader).pos(), size),
        r is Ok && inside(old(reader), size) && Self::wf(content(old(reader), size)) ==>
            r->Ok_0.is(content(old(reader), size)) && final(reader).pos() == old(reader).pos() + clen(size),
        old(reader).reliable() && inside(old(reader), size) && Self::wf(content(old(reader), size)) ==> r is Ok,
=== fn atom::ParseAtom::parse_atom
    requires preq(old(reader), size)
    ensures
        swf(final(reader)), same(final(reader), old(reader)),
        r is Ok ==> r->Ok_0.got(old(reader).data(), old(reader).pos(), size),
        r is Ok && inside(old(reader), size) && Self::wf(content(old(reader), size)) ==>
            r->Ok_0.is(content(old(reader), size)) && final(reader).pos() == old(reader).pos() + clen(size),
        old(reader).reliable() && inside(old(reader), size) && Self::wf(content(old(reader), size)) ==> r is Ok,
