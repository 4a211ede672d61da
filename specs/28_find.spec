# generated by tools/gen/finders.py
=== prelude
pub mod fd {
use vstd::prelude::*;
use crate::vp::*;
use crate::vp::io::*;
use crate::hs::*;
use crate::ks::*;
use crate::atom::head::*;
use crate::atom::ident::*;
use crate::atom::FindAtom;
broadcast use crate::vp::group_vp;

// ===================================================================== places of atoms
pub open spec fn bnd(x: AtomBounds, p: int, size: Size) -> bool { x.pos == p - hlen(size) && x.size == size }
/// free of overflows, with a header between `lo` and `hi`
pub open spec fn sane(x: AtomBounds, lo: int, hi: int) -> bool { szf(x.size) && lo <= x.pos && x.pos + hlen(x.size) <= hi && x.pos <= i64::MAX }
/// the last atom with the identifier
pub open spec fn last_kid(ks: Seq<Kid>, f: Fourcc) -> Option<Kid>
    decreases ks.len()
{
    if ks.len() == 0 { None } else if ks.last().head.fourcc == f { Some(ks.last()) } else { last_kid(ks.drop_last(), f) }
}
/// all atoms with the identifier
pub open spec fn kids_of(ks: Seq<Kid>, f: Fourcc) -> Seq<Kid>
    decreases ks.len()
{
    if ks.len() == 0 { Seq::empty() } else if ks.last().head.fourcc == f { kids_of(ks.drop_last(), f).push(ks.last()) }
    else { kids_of(ks.drop_last(), f) }
}
pub open spec fn kids_fwf<T: FindAtom>(b: Seq<u8>, s: int, f: Fourcc) -> bool {
    forall|i: int| 0 <= i < kids(b, s)->Some_0.len() && (#[trigger] kids(b, s)->Some_0[i]).head.fourcc == f ==> T::fwf(body(b, kids(b, s)->Some_0[i]))
}
pub open spec fn kid_at<T: FindAtom>(x: T::Bounds, d: Seq<u8>, p: int, k: Kid) -> bool {
    T::at(x, d, p + k.off + hlen(k.head.size), k.head.size)
}
pub open spec fn opt_at<T: FindAtom>(x: Option<T::Bounds>, d: Seq<u8>, p: int, k: Option<Kid>) -> bool {
    match x { None => k is None, Some(x) => k is Some && kid_at::<T>(x, d, p, k->Some_0) }
}
pub open spec fn all_at<T: FindAtom>(x: Seq<T::Bounds>, d: Seq<u8>, p: int, k: Seq<Kid>) -> bool {
    x.len() == k.len() && forall|i: int| 0 <= i < x.len() ==> kid_at::<T>(#[trigger] x[i], d, p, k[i])
}
pub open spec fn opt_got<T: FindAtom>(x: Option<T::Bounds>, lo: int, hi: int) -> bool { match x { None => true, Some(x) => T::fgot(x, lo, hi) } }
pub open spec fn all_got<T: FindAtom>(x: Seq<T::Bounds>, lo: int, hi: int) -> bool { forall|i: int| 0 <= i < x.len() ==> T::fgot(#[trigger] x[i], lo, hi) }
/// the content of an atom at an offset
pub open spec fn part(d: Seq<u8>, p: int, size: Size) -> Seq<u8> { d.subrange(p, p + clen(size)) }
} // mod fd

=== trait atom::FindAtom
    /// the content of an atom of this kind in which everything can be found
    spec fn fwf(b: Seq<u8>) -> bool;
    /// the places describe the atom with the content at the offset
    spec fn at(x: Self::Bounds, d: Seq<u8>, p: int, size: Size) -> bool;
    /// what is known of all places, whether the input is well-formed or not
    spec fn fgot(x: Self::Bounds, lo: int, hi: int) -> bool;
=== fn atom::FindAtom::find
    requires preq(old(reader), size)
    ensures
        swf(final(reader)), same(final(reader), old(reader)),
        r is Ok ==> Self::fgot(r->Ok_0, old(reader).pos() - hlen(size), old(reader).data().len() as int) && final(reader).pos() >= old(reader).pos(),
        r is Ok && inside(old(reader), size) && Self::fwf(content(old(reader), size)) ==>
            Self::at(r->Ok_0, old(reader).data(), old(reader).pos(), size) && final(reader).pos() == old(reader).pos() + clen(size),
        old(reader).reliable() && inside(old(reader), size) && Self::fwf(content(old(reader), size)) ==> r is Ok,
=== fn atom::FindAtom::find_atom
    requires preq(old(reader), size)
    ensures
        swf(final(reader)), same(final(reader), old(reader)),
        r is Ok ==> Self::fgot(r->Ok_0, old(reader).pos() - hlen(size), old(reader).data().len() as int) && final(reader).pos() >= old(reader).pos(),
        r is Ok && inside(old(reader), size) && Self::fwf(content(old(reader), size)) ==>
            Self::at(r->Ok_0, old(reader).data(), old(reader).pos(), size) && final(reader).pos() == old(reader).pos() + clen(size),
        old(reader).reliable() && inside(old(reader), size) && Self::fwf(content(old(reader), size)) ==> r is Ok,
=== impl atom::stco::<Stco as FindAtom>
    open spec fn fwf(b: Seq<u8>) -> bool { true }
    open spec fn at(x: Self::Bounds, d: Seq<u8>, p: int, size: Size) -> bool { bnd(x.bounds, p, size) }
    open spec fn fgot(x: Self::Bounds, lo: int, hi: int) -> bool { sane(x.bounds, lo, hi) }
=== fn atom::stco::<StcoBounds as Deref>::deref
    ensures *r == self.bounds
=== impl atom::co64::<Co64 as FindAtom>
    open spec fn fwf(b: Seq<u8>) -> bool { true }
    open spec fn at(x: Self::Bounds, d: Seq<u8>, p: int, size: Size) -> bool { bnd(x.bounds, p, size) }
    open spec fn fgot(x: Self::Bounds, lo: int, hi: int) -> bool { sane(x.bounds, lo, hi) }
=== fn atom::co64::<Co64Bounds as Deref>::deref
    ensures *r == self.bounds
=== impl atom::hdlr::<Hdlr as FindAtom>
    open spec fn fwf(b: Seq<u8>) -> bool { true }
    open spec fn at(x: Self::Bounds, d: Seq<u8>, p: int, size: Size) -> bool { bnd(x.bounds, p, size) }
    open spec fn fgot(x: Self::Bounds, lo: int, hi: int) -> bool { sane(x.bounds, lo, hi) }
=== fn atom::hdlr::<HdlrBounds as Deref>::deref
    ensures *r == self.bounds
=== impl atom::ilst::<Ilst as FindAtom>
    open spec fn fwf(b: Seq<u8>) -> bool { true }
    open spec fn at(x: Self::Bounds, d: Seq<u8>, p: int, size: Size) -> bool { bnd(x.bounds, p, size) }
    open spec fn fgot(x: Self::Bounds, lo: int, hi: int) -> bool { sane(x.bounds, lo, hi) }
=== fn atom::ilst::<IlstBounds as Deref>::deref
    ensures *r == self.bounds
=== impl atom::mdat::<Mdat as FindAtom>
    open spec fn fwf(b: Seq<u8>) -> bool { true }
    open spec fn at(x: Self::Bounds, d: Seq<u8>, p: int, size: Size) -> bool { bnd(x.bounds, p, size) }
    open spec fn fgot(x: Self::Bounds, lo: int, hi: int) -> bool { sane(x.bounds, lo, hi) }
=== fn atom::mdat::<MdatBounds as Deref>::deref
    ensures *r == self.bounds
=== impl atom::mdia::<Mdia as FindAtom>
    open spec fn fwf(b: Seq<u8>) -> bool { kids(b, 0) is Some && kids_fwf::<Minf>(b, 0, f_minf()) }
    open spec fn at(x: Self::Bounds, d: Seq<u8>, p: int, size: Size) -> bool {
        bnd(x.bounds, p, size)
            && opt_at::<Minf>(x.minf, d, p, last_kid(kids(part(d, p, size), 0)->Some_0, f_minf()))
    }
    open spec fn fgot(x: Self::Bounds, lo: int, hi: int) -> bool { sane(x.bounds, lo, hi) && opt_got::<Minf>(x.minf, x.bounds.pos + hlen(x.bounds.size), hi) }
=== fn atom::mdia::<Mdia as FindAtom>::find_atom
--- at start
    let ghost d = reader.data();
    let ghost p = reader.pos();
    let ghost e = p + clen(size);
    let ghost b = content(reader, size);
    let ghost all = kids(b, 0)->Some_0;
    let ghost good = inside(reader, size) && Self::fwf(b);
    let ghost mut k: int = 0;
    proof { if good { assert(all.skip(0) =~= all); } }
--- loop 0
    invariant
        swf(reader), same(reader, old(reader)), szf(size), parsed_bytes <= clen(size) + i64::MAX,
        d == old(reader).data(), p == old(reader).pos(), hlen(size) <= p <= d.len(), e == p + clen(size), b == content(old(reader), size),
        bnd(bounds, p, size),
        all == kids(b, 0)->Some_0, good == (inside(old(reader), size) && Self::fwf(b)),
        reader.pos() >= p && opt_got::<Minf>(minf, p, d.len() as int),
        good ==> 0 <= k <= all.len() && parsed_bytes <= b.len() && reader.pos() == p + parsed_bytes
            && kids(b, parsed_bytes as int) == Some(all.skip(k))
            && opt_at::<Minf>(minf, d, p, last_kid(all.take(k), f_minf())),
    decreases (if parsed_bytes < clen(size) { clen(size) - parsed_bytes } else { 0 })
--- at loop 0 start
    proof { if good { lemma_step(d, p, e, 0, parsed_bytes as int, k); } }
--- at loop 0 end
    proof { k = k + 1; }
--- at end
    proof { if good { lemma_last(b, 0, k); } }
=== impl atom::minf::<Minf as FindAtom>
    open spec fn fwf(b: Seq<u8>) -> bool { kids(b, 0) is Some && kids_fwf::<Stbl>(b, 0, f_stbl()) }
    open spec fn at(x: Self::Bounds, d: Seq<u8>, p: int, size: Size) -> bool {
        bnd(x.bounds, p, size)
            && opt_at::<Stbl>(x.stbl, d, p, last_kid(kids(part(d, p, size), 0)->Some_0, f_stbl()))
    }
    open spec fn fgot(x: Self::Bounds, lo: int, hi: int) -> bool { sane(x.bounds, lo, hi) && opt_got::<Stbl>(x.stbl, x.bounds.pos + hlen(x.bounds.size), hi) }
=== fn atom::minf::<Minf as FindAtom>::find_atom
--- at start
    let ghost d = reader.data();
    let ghost p = reader.pos();
    let ghost e = p + clen(size);
    let ghost b = content(reader, size);
    let ghost all = kids(b, 0)->Some_0;
    let ghost good = inside(reader, size) && Self::fwf(b);
    let ghost mut k: int = 0;
    proof { if good { assert(all.skip(0) =~= all); } }
--- loop 0
    invariant
        swf(reader), same(reader, old(reader)), szf(size), parsed_bytes <= clen(size) + i64::MAX,
        d == old(reader).data(), p == old(reader).pos(), hlen(size) <= p <= d.len(), e == p + clen(size), b == content(old(reader), size),
        bnd(bounds, p, size),
        all == kids(b, 0)->Some_0, good == (inside(old(reader), size) && Self::fwf(b)),
        reader.pos() >= p && opt_got::<Stbl>(stbl, p, d.len() as int),
        good ==> 0 <= k <= all.len() && parsed_bytes <= b.len() && reader.pos() == p + parsed_bytes
            && kids(b, parsed_bytes as int) == Some(all.skip(k))
            && opt_at::<Stbl>(stbl, d, p, last_kid(all.take(k), f_stbl())),
    decreases (if parsed_bytes < clen(size) { clen(size) - parsed_bytes } else { 0 })
--- at loop 0 start
    proof { if good { lemma_step(d, p, e, 0, parsed_bytes as int, k); } }
--- at loop 0 end
    proof { k = k + 1; }
--- at end
    proof { if good { lemma_last(b, 0, k); } }
=== impl atom::stbl::<Stbl as FindAtom>
    open spec fn fwf(b: Seq<u8>) -> bool { kids(b, 0) is Some && kids_fwf::<Stco>(b, 0, f_stco()) && kids_fwf::<Co64>(b, 0, f_co64()) }
    open spec fn at(x: Self::Bounds, d: Seq<u8>, p: int, size: Size) -> bool {
        bnd(x.bounds, p, size)
            && opt_at::<Stco>(x.stco, d, p, last_kid(kids(part(d, p, size), 0)->Some_0, f_stco()))
            && opt_at::<Co64>(x.co64, d, p, last_kid(kids(part(d, p, size), 0)->Some_0, f_co64()))
    }
    open spec fn fgot(x: Self::Bounds, lo: int, hi: int) -> bool { sane(x.bounds, lo, hi) && opt_got::<Stco>(x.stco, x.bounds.pos + hlen(x.bounds.size), hi) && opt_got::<Co64>(x.co64, x.bounds.pos + hlen(x.bounds.size), hi) }
=== fn atom::stbl::<Stbl as FindAtom>::find_atom
--- at start
    let ghost d = reader.data();
    let ghost p = reader.pos();
    let ghost e = p + clen(size);
    let ghost b = content(reader, size);
    let ghost all = kids(b, 0)->Some_0;
    let ghost good = inside(reader, size) && Self::fwf(b);
    let ghost mut k: int = 0;
    proof { if good { assert(all.skip(0) =~= all); } }
--- loop 0
    invariant
        swf(reader), same(reader, old(reader)), szf(size), parsed_bytes <= clen(size) + i64::MAX,
        d == old(reader).data(), p == old(reader).pos(), hlen(size) <= p <= d.len(), e == p + clen(size), b == content(old(reader), size),
        bnd(bounds, p, size),
        all == kids(b, 0)->Some_0, good == (inside(old(reader), size) && Self::fwf(b)),
        reader.pos() >= p && opt_got::<Stco>(stco, p, d.len() as int) && opt_got::<Co64>(co64, p, d.len() as int),
        good ==> 0 <= k <= all.len() && parsed_bytes <= b.len() && reader.pos() == p + parsed_bytes
            && kids(b, parsed_bytes as int) == Some(all.skip(k))
            && opt_at::<Stco>(stco, d, p, last_kid(all.take(k), f_stco()))
            && opt_at::<Co64>(co64, d, p, last_kid(all.take(k), f_co64())),
    decreases (if parsed_bytes < clen(size) { clen(size) - parsed_bytes } else { 0 })
--- at loop 0 start
    proof { if good { lemma_step(d, p, e, 0, parsed_bytes as int, k); } }
--- at loop 0 end
    proof { k = k + 1; }
--- at end
    proof { if good { lemma_last(b, 0, k); } }
=== impl atom::trak::<Trak as FindAtom>
    open spec fn fwf(b: Seq<u8>) -> bool { kids(b, 0) is Some && kids_fwf::<Mdia>(b, 0, f_mdia()) }
    open spec fn at(x: Self::Bounds, d: Seq<u8>, p: int, size: Size) -> bool {
        bnd(x.bounds, p, size)
            && opt_at::<Mdia>(x.mdia, d, p, last_kid(kids(part(d, p, size), 0)->Some_0, f_mdia()))
    }
    open spec fn fgot(x: Self::Bounds, lo: int, hi: int) -> bool { sane(x.bounds, lo, hi) && opt_got::<Mdia>(x.mdia, x.bounds.pos + hlen(x.bounds.size), hi) }
=== fn atom::trak::<Trak as FindAtom>::find_atom
--- at start
    let ghost d = reader.data();
    let ghost p = reader.pos();
    let ghost e = p + clen(size);
    let ghost b = content(reader, size);
    let ghost all = kids(b, 0)->Some_0;
    let ghost good = inside(reader, size) && Self::fwf(b);
    let ghost mut k: int = 0;
    proof { if good { assert(all.skip(0) =~= all); } }
--- loop 0
    invariant
        swf(reader), same(reader, old(reader)), szf(size), parsed_bytes <= clen(size) + i64::MAX,
        d == old(reader).data(), p == old(reader).pos(), hlen(size) <= p <= d.len(), e == p + clen(size), b == content(old(reader), size),
        bnd(bounds, p, size),
        all == kids(b, 0)->Some_0, good == (inside(old(reader), size) && Self::fwf(b)),
        reader.pos() >= p && opt_got::<Mdia>(mdia, p, d.len() as int),
        good ==> 0 <= k <= all.len() && parsed_bytes <= b.len() && reader.pos() == p + parsed_bytes
            && kids(b, parsed_bytes as int) == Some(all.skip(k))
            && opt_at::<Mdia>(mdia, d, p, last_kid(all.take(k), f_mdia())),
    decreases (if parsed_bytes < clen(size) { clen(size) - parsed_bytes } else { 0 })
--- at loop 0 start
    proof { if good { lemma_step(d, p, e, 0, parsed_bytes as int, k); } }
--- at loop 0 end
    proof { k = k + 1; }
--- at end
    proof { if good { lemma_last(b, 0, k); } }
=== impl atom::udta::<Udta as FindAtom>
    open spec fn fwf(b: Seq<u8>) -> bool { kids(b, 0) is Some && kids_fwf::<Meta<'_>>(b, 0, f_meta()) }
    open spec fn at(x: Self::Bounds, d: Seq<u8>, p: int, size: Size) -> bool {
        bnd(x.bounds, p, size)
            && opt_at::<Meta<'_>>(x.meta, d, p, last_kid(kids(part(d, p, size), 0)->Some_0, f_meta()))
    }
    open spec fn fgot(x: Self::Bounds, lo: int, hi: int) -> bool { sane(x.bounds, lo, hi) && opt_got::<Meta<'_>>(x.meta, x.bounds.pos + hlen(x.bounds.size), hi) }
=== fn atom::udta::<Udta as FindAtom>::find_atom
--- at start
    let ghost d = reader.data();
    let ghost p = reader.pos();
    let ghost e = p + clen(size);
    let ghost b = content(reader, size);
    let ghost all = kids(b, 0)->Some_0;
    let ghost good = inside(reader, size) && Self::fwf(b);
    let ghost mut k: int = 0;
    proof { if good { assert(all.skip(0) =~= all); } }
--- loop 0
    invariant
        swf(reader), same(reader, old(reader)), szf(size), parsed_bytes <= clen(size) + i64::MAX,
        d == old(reader).data(), p == old(reader).pos(), hlen(size) <= p <= d.len(), e == p + clen(size), b == content(old(reader), size),
        bnd(bounds, p, size),
        all == kids(b, 0)->Some_0, good == (inside(old(reader), size) && Self::fwf(b)),
        reader.pos() >= p && opt_got::<Meta<'_>>(meta, p, d.len() as int),
        good ==> 0 <= k <= all.len() && parsed_bytes <= b.len() && reader.pos() == p + parsed_bytes
            && kids(b, parsed_bytes as int) == Some(all.skip(k))
            && opt_at::<Meta<'_>>(meta, d, p, last_kid(all.take(k), f_meta())),
    decreases (if parsed_bytes < clen(size) { clen(size) - parsed_bytes } else { 0 })
--- at loop 0 start
    proof { if good { lemma_step(d, p, e, 0, parsed_bytes as int, k); } }
--- at loop 0 end
    proof { k = k + 1; }
--- at end
    proof { if good { lemma_last(b, 0, k); } }
=== impl atom::meta::<Meta as FindAtom>
    open spec fn fwf(b: Seq<u8>) -> bool { b.len() >= 4 && b[0] == 0 && kids(b, 4) is Some && kids_fwf::<Hdlr>(b, 4, f_hdlr()) && kids_fwf::<Ilst<'_>>(b, 4, f_ilst()) }
    open spec fn at(x: Self::Bounds, d: Seq<u8>, p: int, size: Size) -> bool {
        bnd(x.bounds, p, size)
            && opt_at::<Hdlr>(x.hdlr, d, p, last_kid(kids(part(d, p, size), 4)->Some_0, f_hdlr()))
            && opt_at::<Ilst<'_>>(x.ilst, d, p, last_kid(kids(part(d, p, size), 4)->Some_0, f_ilst()))
    }
    open spec fn fgot(x: Self::Bounds, lo: int, hi: int) -> bool { sane(x.bounds, lo, hi) && opt_got::<Hdlr>(x.hdlr, x.bounds.pos + hlen(x.bounds.size), hi) && opt_got::<Ilst<'_>>(x.ilst, x.bounds.pos + hlen(x.bounds.size), hi) }
=== fn atom::meta::<Meta as FindAtom>::find_atom
--- at start
    let ghost d = reader.data();
    let ghost p = reader.pos();
    let ghost e = p + clen(size);
    let ghost b = content(reader, size);
    let ghost all = kids(b, 4)->Some_0;
    let ghost good = inside(reader, size) && Self::fwf(b);
    let ghost mut k: int = 0;
    proof { if good { assert(all.skip(0) =~= all); } }
--- loop 0
    invariant
        swf(reader), same(reader, old(reader)), szf(size), parsed_bytes <= clen(size) + i64::MAX,
        d == old(reader).data(), p == old(reader).pos(), hlen(size) <= p <= d.len(), e == p + clen(size), b == content(old(reader), size),
        bnd(bounds, p, size),
        all == kids(b, 4)->Some_0, good == (inside(old(reader), size) && Self::fwf(b)),
        reader.pos() >= p && opt_got::<Hdlr>(hdlr, p, d.len() as int) && opt_got::<Ilst<'_>>(ilst, p, d.len() as int),
        good ==> 0 <= k <= all.len() && parsed_bytes <= b.len() && reader.pos() == p + parsed_bytes
            && kids(b, parsed_bytes as int) == Some(all.skip(k))
            && opt_at::<Hdlr>(hdlr, d, p, last_kid(all.take(k), f_hdlr()))
            && opt_at::<Ilst<'_>>(ilst, d, p, last_kid(all.take(k), f_ilst())),
    decreases (if parsed_bytes < clen(size) { clen(size) - parsed_bytes } else { 0 })
--- at loop 0 start
    proof { if good { lemma_step(d, p, e, 4, parsed_bytes as int, k); } }
--- at loop 0 end
    proof { k = k + 1; }
--- at end
    proof { if good { lemma_last(b, 4, k); } }
=== impl atom::moov::<Moov as FindAtom>
    open spec fn fwf(b: Seq<u8>) -> bool { kids(b, 0) is Some && kids_fwf::<Trak>(b, 0, f_trak()) && kids_fwf::<Udta<'_>>(b, 0, f_udta()) }
    open spec fn at(x: Self::Bounds, d: Seq<u8>, p: int, size: Size) -> bool {
        bnd(x.bounds, p, size)
            && all_at::<Trak>(x.trak@, d, p, kids_of(kids(part(d, p, size), 0)->Some_0, f_trak()))
            && opt_at::<Udta<'_>>(x.udta, d, p, last_kid(kids(part(d, p, size), 0)->Some_0, f_udta()))
    }
    open spec fn fgot(x: Self::Bounds, lo: int, hi: int) -> bool { sane(x.bounds, lo, hi) && all_got::<Trak>(x.trak@, x.bounds.pos + hlen(x.bounds.size), hi) && opt_got::<Udta<'_>>(x.udta, x.bounds.pos + hlen(x.bounds.size), hi) }
=== fn atom::moov::<Moov as FindAtom>::find_atom
--- at start
    let ghost d = reader.data();
    let ghost p = reader.pos();
    let ghost e = p + clen(size);
    let ghost b = content(reader, size);
    let ghost all = kids(b, 0)->Some_0;
    let ghost good = inside(reader, size) && Self::fwf(b);
    let ghost mut k: int = 0;
    proof { if good { assert(all.skip(0) =~= all); } }
--- loop 0
    invariant
        swf(reader), same(reader, old(reader)), szf(size), parsed_bytes <= clen(size) + i64::MAX,
        d == old(reader).data(), p == old(reader).pos(), hlen(size) <= p <= d.len(), e == p + clen(size), b == content(old(reader), size),
        bnd(bounds, p, size),
        all == kids(b, 0)->Some_0, good == (inside(old(reader), size) && Self::fwf(b)),
        reader.pos() >= p && all_got::<Trak>(trak@, p, d.len() as int) && opt_got::<Udta<'_>>(udta, p, d.len() as int),
        good ==> 0 <= k <= all.len() && parsed_bytes <= b.len() && reader.pos() == p + parsed_bytes
            && kids(b, parsed_bytes as int) == Some(all.skip(k))
            && all_at::<Trak>(trak@, d, p, kids_of(all.take(k), f_trak()))
            && opt_at::<Udta<'_>>(udta, d, p, last_kid(all.take(k), f_udta())),
    decreases (if parsed_bytes < clen(size) { clen(size) - parsed_bytes } else { 0 })
--- at loop 0 start
    proof { if good { lemma_step(d, p, e, 0, parsed_bytes as int, k); } }
--- at loop 0 end
    proof { k = k + 1; }
--- at end
    proof { if good { lemma_last(b, 0, k); } }
=== fn atom::moov::<MoovBounds as Deref>::deref
    ensures *r == self.bounds
=== fn atom::udta::<UdtaBounds as Deref>::deref
    ensures *r == self.bounds
=== fn atom::meta::<MetaBounds as Deref>::deref
    ensures *r == self.bounds
