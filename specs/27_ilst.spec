=== prelude
pub mod il {
use vstd::prelude::*;
use vstd::utf8::*;
use crate::vp::*;
use crate::vs::*;
use crate::ds::*;
use crate::hs::*;
use crate::ks::*;
use crate::pl::*;
use crate::types::*;
use crate::atom::head::*;
use crate::atom::ident::*;
broadcast use crate::vp::group_vp;

/// the content `x` of an atom lies at `q`
pub proof fn lemma_inner(d: Seq<u8>, q: int, x: Seq<u8>)
    requires 0 <= q, q + x.len() <= d.len(), x == d.subrange(q, q + x.len())
    ensures
        x.len() >= 4 ==> x[0] == d[q] && d.subrange(q + 1, q + 4) =~= seq![x[1], x[2], x[3]]
            && bytes_at(d, q + 4, x.len() - 4) == x.skip(4) && has(d, q + 4, x.len() - 4),
        x.len() >= 8 ==> bytes_at(d, q + 8, x.len() - 8) == x.skip(8) && has(d, q + 8, x.len() - 8),
{
    if x.len() >= 4 { assert(bytes_at(d, q + 4, x.len() - 4) =~= x.skip(4)); }
    if x.len() >= 8 { assert(bytes_at(d, q + 8, x.len() - 8) =~= x.skip(8)); }
}
/// one more child of an item
pub proof fn lemma_values(b: Seq<u8>, ks: Seq<Kid>, k: int)
    requires 0 <= k < ks.len()
    ensures
        values(b, ks.take(k + 1)) == (if ks[k].head.fourcc == f_data() {
            values(b, ks.take(k)).push(decode(dcode(body(b, ks[k])), body(b, ks[k]).skip(8))->Some_0) } else { values(b, ks.take(k)) }),
        last_body(b, ks.take(k + 1), f_mean()) == (if ks[k].head.fourcc == f_mean() { Some(body(b, ks[k])) } else { last_body(b, ks.take(k), f_mean()) }),
        last_body(b, ks.take(k + 1), f_name()) == (if ks[k].head.fourcc == f_name() { Some(body(b, ks[k])) } else { last_body(b, ks.take(k), f_name()) }),
{
    assert(ks.take(k + 1).drop_last() =~= ks.take(k));
}
} // mod il
=== fn atom::AtomData::new
    ensures r.ident == ident, r.data == data,
=== fn atom::AtomData::parse
#[verifier::spinoff_prover]
    requires swf(old(reader)), old(reader).pos() <= old(reader).data().len(), len <= i64::MAX
    ensures
        swf(final(reader)), same(final(reader), old(reader)),
        r is Ok ==> r->Ok_0.data@.len() > 0, //@P16
        r is Ok && old(reader).pos() + len <= old(reader).data().len()
            && item_wf(old(reader).data().subrange(old(reader).pos(), old(reader).pos() + len)) ==>
            r->Ok_0@ == item_of(parent, old(reader).data().subrange(old(reader).pos(), old(reader).pos() + len))
                && final(reader).pos() == old(reader).pos() + len, //@P16
        old(reader).reliable() && old(reader).pos() + len <= old(reader).data().len()
            && item_wf(old(reader).data().subrange(old(reader).pos(), old(reader).pos() + len))
            && item_of(parent, old(reader).data().subrange(old(reader).pos(), old(reader).pos() + len)).data.len() > 0 ==> r is Ok, //@P16
--- at start
    let ghost d = reader.data();
    let ghost p0 = reader.pos();
    let ghost e = p0 + len;
    let ghost b = d.subrange(p0, e);
    let ghost all = kids(b, 0)->Some_0;
    let ghost good = e <= d.len() && item_wf(b);
    let ghost mut k: int = 0;
    proof { if good { assert(all.skip(0) =~= all); } }
--- loop 0
    invariant
        swf(reader), same(reader, old(reader)), parsed_bytes <= len + i64::MAX, len <= i64::MAX,
        d == old(reader).data(), p0 == old(reader).pos(), 0 <= p0 <= d.len(), e == p0 + len, b == d.subrange(p0, e),
        all == kids(b, 0)->Some_0, good == (e <= d.len() && item_wf(b)),
        good ==> 0 <= k <= all.len() && parsed_bytes <= b.len() && reader.pos() == p0 + parsed_bytes
            && kids(b, parsed_bytes as int) == Some(all.skip(k))
            && views(data@) == values(b, all.take(k)) && oview(mean) == text(last_body(b, all.take(k), f_mean()))
            && oview(name) == text(last_body(b, all.take(k), f_name())),
    decreases (if parsed_bytes < len { len - parsed_bytes } else { 0 })
--- at loop 0 start
    let ghost data0 = data@;
    proof { if good {
        lemma_step(d, p0, e, 0, parsed_bytes as int, k);
        lemma_values(b, all, k);
        lemma_inner(d, p0 + parsed_bytes + hlen(all[k].head.size), body(b, all[k]));
    } }
--- at loop 0 end
    proof {
        if good {
            if all[k].head.fourcc == f_data() { assert(views(data@) =~= views(data0).push(data@.last()@)); }
        }
        k = k + 1;
    }
--- at end
    proof { if good { lemma_last(b, 0, k); } }
=== impl atom::ilst::<Ilst as ParseAtom>
    open spec fn wf(b: Seq<u8>) -> bool { ilst_wf(b) }
    open spec fn is(&self, b: Seq<u8>) -> bool { self is Owned && views(self->Owned_0@) == ilst_of(b, kids(b, 0)->Some_0) } //@P16
    open spec fn got(&self, d: Seq<u8>, p: int, size: Size) -> bool { self is Owned }
=== fn atom::ilst::<Ilst as ParseAtom>::parse_atom
--- at start
    let ghost d = reader.data();
    let ghost p0 = reader.pos();
    let ghost e = p0 + clen(size);
    let ghost b = content(reader, size);
    let ghost all = kids(b, 0)->Some_0;
    let ghost good = inside(reader, size) && ilst_wf(b);
    let ghost mut k: int = 0;
    proof { if good { assert(all.skip(0) =~= all); } }
--- loop 0
    invariant
        swf(reader), same(reader, old(reader)), szf(size), parsed_bytes <= clen(size) + i64::MAX,
        d == old(reader).data(), p0 == old(reader).pos(), 0 <= p0 <= d.len(), e == p0 + clen(size), b == content(old(reader), size),
        all == kids(b, 0)->Some_0, good == (inside(old(reader), size) && ilst_wf(b)),
        good ==> 0 <= k <= all.len() && parsed_bytes <= b.len() && reader.pos() == p0 + parsed_bytes
            && kids(b, parsed_bytes as int) == Some(all.skip(k))
            && views(ilst@) == ilst_of(b, all.take(k)),
    decreases (if parsed_bytes < clen(size) { clen(size) - parsed_bytes } else { 0 })
--- at loop 0 start
    let ghost ilst0 = ilst@;
    proof { if good { lemma_step(d, p0, e, 0, parsed_bytes as int, k); } }
--- closure 0 &AtomData -> (x: bool)
    ensures x == (atom.ident@ == __c0.ident@)
--- at loop 0 end
    proof {
        if good && all[k].head.fourcc != f_free() {
            let i = item_of(all[k].head.fourcc, body(b, all[k]));
            let t = views(ilst0);
            let n = idx(t, i.id);
            lemma_idx(t, i.id);
            assert forall|j: int| 0 <= j < ilst0.len() implies (#[trigger] ilst0[j]).ident@ == t[j].id by {}
            assert forall|j: int| 0 <= j < ilst0.len() && #[trigger] is_at(t, i.id, j) implies j == n by { lemma_idx_is(t, i.id, j); }
            if ilst@.len() == ilst0.len() {
                let m = choose|m: int| 0 <= m < ilst0.len() && #[trigger] is_at(t, i.id, m) && ilst@ =~= ilst0.update(m, ilst@[m]);
                assert(views(ilst@)[n].data =~= t[n].data + i.data);
            }
            assert(views(ilst@) =~= merge(t, i));
        }
        k = k + 1;
    }
--- at end
    proof { if good { lemma_last(b, 0, k); } }
=== fn atom::ilst::Ilst::owned
    ensures self is Owned ==> r == Some(self->Owned_0), self is Borrowed ==> r is None,
=== fn atom::ilst::<Ilst as Deref>::deref
    ensures r@ == (match *self { crate::atom::ilst::Ilst::Owned(a) => a@, crate::atom::ilst::Ilst::Borrowed(a) => a@ }),
=== impl atom::moov::<Moov as ParseAtom>
    open spec fn wf(b: Seq<u8>) -> bool {
        kids(b, 0) is Some && kids_wf::<Mvhd>(b, 0, f_mvhd()) && kids_wf::<Trak>(b, 0, f_trak()) && kids_wf::<Udta<'_>>(b, 0, f_udta())
    }
    open spec fn is(&self, b: Seq<u8>) -> bool { moov_is(*self, b, kids(b, 0)->Some_0) }
    open spec fn got(&self, d: Seq<u8>, p: int, size: Size) -> bool { true }
=== mod atom::moov
pub open spec fn traks_are(v: Seq<Trak>, s: Seq<Seq<u8>>) -> bool {
    v.len() == s.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).is(s[i])
}
pub open spec fn moov_is(m: Moov<'_>, b: Seq<u8>, ks: Seq<Kid>) -> bool {
    opt_is(m.mvhd, last_body(b, ks, f_mvhd())) && traks_are(m.trak@, bodies(b, ks, f_trak())) && opt_is(m.udta, last_body(b, ks, f_udta()))
}
=== fn atom::moov::<Moov as ParseAtom>::parse_atom
--- at start
    let ghost d = reader.data();
    let ghost p0 = reader.pos();
    let ghost e = p0 + clen(size);
    let ghost b = content(reader, size);
    let ghost all = kids(b, 0)->Some_0;
    let ghost good = inside(reader, size) && Self::wf(b);
    let ghost mut k: int = 0;
    proof { if good { assert(all.skip(0) =~= all); } }
--- loop 0
    invariant
        swf(reader), same(reader, old(reader)), szf(size), parsed_bytes <= clen(size) + i64::MAX,
        d == old(reader).data(), p0 == old(reader).pos(), 0 <= p0 <= d.len(), e == p0 + clen(size), b == content(old(reader), size),
        all == kids(b, 0)->Some_0, good == (inside(old(reader), size) && Self::wf(b)),
        good ==> 0 <= k <= all.len() && parsed_bytes <= b.len() && reader.pos() == p0 + parsed_bytes
            && kids(b, parsed_bytes as int) == Some(all.skip(k))
            && moov_is(moov, b, all.take(k)),
    decreases (if parsed_bytes < clen(size) { clen(size) - parsed_bytes } else { 0 })
--- at loop 0 start
    proof { if good { lemma_step(d, p0, e, 0, parsed_bytes as int, k); } }
--- at loop 0 end
    proof { k = k + 1; }
--- at end
    proof { if good { lemma_last(b, 0, k); } }
