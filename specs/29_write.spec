=== prelude
pub mod sr {
use vstd::prelude::*;
use vstd::utf8::*;
use crate::vp::*;
use crate::vp::io::*;
use crate::vs::*;
use crate::ds::*;
use crate::hs::*;
use crate::ks::*;
use crate::atom::head::*;
use crate::atom::ident::*;
use crate::atom::WriteAtom;
broadcast use crate::vp::group_vp;

// ===================================================================== serialized items
pub open spec fn ser_data(d: DataS) -> Seq<u8> {
    to32(16 + payload(d).len() as int) + f_data().0@ + (to32(type_code(d)) + zeros(4) + payload(d))
}
pub open spec fn ser_datas(s: Seq<DataS>) -> Seq<u8>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { ser_datas(s.drop_last()) + ser_data(s.last()) }
}
pub open spec fn ser_text(f: Fourcc, t: Seq<char>) -> Seq<u8> {
    to32(12 + encode_utf8(t).len() as int) + f.0@ + zeros(4) + encode_utf8(t)
}
pub open spec fn ser_id(i: IdS) -> Seq<u8> {
    match i {
        IdS::F(f) => f.0@,
        IdS::X(mean, name) => f_freeform().0@ + ser_text(f_mean(), mean) + ser_text(f_name(), name),
    }
}
pub open spec fn item_len(i: ItemS) -> int { (4 + ser_id(i.id).len() + ser_datas(i.data).len()) as int }
pub open spec fn ser_item(i: ItemS) -> Seq<u8> { to32(item_len(i)) + ser_id(i.id) + ser_datas(i.data) }
pub open spec fn ser_items(s: Seq<ItemS>) -> Seq<u8>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { ser_items(s.drop_last()) + ser_item(s.last()) }
}
pub open spec fn item_empty(i: ItemS) -> bool { forall|k: int| 0 <= k < i.data.len() ==> payload(#[trigger] i.data[k]).len() == 0 }
/// all lengths can be represented
pub open spec fn items_fit(s: Seq<ItemS>) -> bool {
    ser_items(s).len() <= 0x4000_0000_0000_0000 && forall|i: int| 0 <= i < s.len() ==> item_len(#[trigger] s[i]) <= u32::MAX
}
pub open spec fn ser<T: WriteAtom>(a: T) -> Seq<u8> { bx(T::FOURCC, a.cont()) }
pub open spec fn opt_ser<T: WriteAtom>(a: Option<T>) -> Seq<u8> { match a { Some(a) => ser(a), None => Seq::empty() } }
pub open spec fn opt_fits<T: WriteAtom>(a: Option<T>) -> bool { match a { Some(a) => a.fits(), None => true } }

pub proof fn lemma_bx(f: Fourcc, c: Seq<u8>)
    requires c.len() + 16 <= u64::MAX
    ensures bx(f, c).len() == size_of_content(c.len() as int).len
{ assert(f.0@.len() == 4); }
pub proof fn lemma_ser_data_len(d: DataS)
    ensures ser_data(d).len() == 16 + payload(d).len()
{ assert(f_data().0@.len() == 4); }
pub proof fn lemma_ser_text_len(f: Fourcc, t: Seq<char>)
    ensures ser_text(f, t).len() == 12 + encode_utf8(t).len()
{ assert(f.0@.len() == 4); }
pub proof fn lemma_ser_id_len(i: IdS)
    ensures ser_id(i).len() == (match i { IdS::F(_) => 4, IdS::X(m, n) => 28 + encode_utf8(m).len() + encode_utf8(n).len() })
{
    match i {
        IdS::F(f) => { assert(f.0@.len() == 4); }
        IdS::X(m, n) => { lemma_ser_text_len(f_mean(), m); lemma_ser_text_len(f_name(), n); assert(f_freeform().0@.len() == 4); }
    }
}
pub proof fn lemma_ser_item_len(i: ItemS)
    ensures ser_item(i).len() == item_len(i), item_len(i) >= 8
{ lemma_ser_id_len(i.id); }
/// sums of lengths
pub proof fn lemma_sum_datas(ds: Seq<DataS>)
    ensures
        forall|s: Seq<u64>| s.len() == ds.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == 16 + payload(ds[i]).len())
            ==> #[trigger] isum(u64s(s)) == ser_datas(ds).len(),
        forall|i: int| 0 <= i < ds.len() ==> 16 + payload(#[trigger] ds[i]).len() <= ser_datas(ds).len(),
    decreases ds.len()
{
    if ds.len() > 0 {
        let t = ds.drop_last();
        lemma_sum_datas(t);
        lemma_ser_data_len(ds.last());
        assert forall|s: Seq<u64>| s.len() == ds.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == 16 + payload(ds[i]).len())
            implies #[trigger] isum(u64s(s)) == ser_datas(ds).len() by {
            assert(u64s(s).drop_last() =~= u64s(s.drop_last()));
            assert forall|i: int| 0 <= i < s.drop_last().len() implies #[trigger] s.drop_last()[i] == 16 + payload(t[i]).len() by { assert(s[i] == 16 + payload(ds[i]).len()); }
            assert(isum(u64s(s.drop_last())) == ser_datas(t).len());
            assert(u64s(s).last() == s.last());
            assert(s[s.len() - 1] == 16 + payload(ds[s.len() - 1]).len());
        }
        assert forall|i: int| 0 <= i < ds.len() implies 16 + payload(#[trigger] ds[i]).len() <= ser_datas(ds).len() by {
            if i < ds.len() - 1 { assert(t[i] == ds[i]); }
        }
    }
}
pub proof fn lemma_sum_items(t: Seq<ItemS>)
    ensures
        forall|s: Seq<u64>| s.len() == t.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == item_len(t[i]))
            ==> #[trigger] isum(u64s(s)) == ser_items(t).len(),
    decreases t.len()
{
    if t.len() > 0 {
        lemma_sum_items(t.drop_last());
        lemma_ser_item_len(t.last());
        assert forall|s: Seq<u64>| s.len() == t.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == item_len(t[i]))
            implies #[trigger] isum(u64s(s)) == ser_items(t).len() by {
            assert(u64s(s).drop_last() =~= u64s(s.drop_last()));
            assert forall|i: int| 0 <= i < s.drop_last().len() implies #[trigger] s.drop_last()[i] == item_len(t.drop_last()[i]) by { assert(s[i] == item_len(t[i])); }
            assert(isum(u64s(s.drop_last())) == ser_items(t.drop_last()).len());
            assert(u64s(s).last() == s.last());
            assert(s[s.len() - 1] == item_len(t[s.len() - 1]));
        }
    }
}
} // mod sr

=== trait atom::WriteAtom
    /// the content of the serialized atom
    spec fn cont(&self) -> Seq<u8>;
    /// all lengths can be represented
    spec fn fits(&self) -> bool;
    proof fn fits_law(&self)
        requires self.fits()
        ensures self.cont().len() <= 0x5000_0000_0000_0000;
=== fn atom::WriteAtom::write
    requires old(writer).pos() >= 0, self.fits()
    ensures
        final(writer).reliable() == old(writer).reliable(), final(writer).tail() == old(writer).tail(), final(writer).pos() >= 0,
        r is Ok ==> wrote(old(writer), final(writer), bx(Self::FOURCC, self.cont())), //@P08
        old(writer).reliable() ==> r is Ok,
=== fn atom::WriteAtom::write_head
    requires old(writer).pos() >= 0, self.fits()
    ensures
        final(writer).reliable() == old(writer).reliable(), final(writer).tail() == old(writer).tail(), final(writer).pos() >= 0,
        r is Ok ==> wrote(old(writer), final(writer),
            ser_head(crate::atom::head::Head { size: size_of_content(self.cont().len() as int), fourcc: Self::FOURCC })), //@P08
        old(writer).reliable() ==> r is Ok,
=== fn atom::WriteAtom::len
    requires self.fits()
    ensures r == bx(Self::FOURCC, self.cont()).len(), //@P08
--- at start
    proof { self.fits_law(); lemma_bx(Self::FOURCC, self.cont()); }
=== fn atom::WriteAtom::write_atom
    requires old(writer).pos() >= 0, self.fits()
    ensures
        final(writer).reliable() == old(writer).reliable(), final(writer).tail() == old(writer).tail(), final(writer).pos() >= 0,
        r is Ok ==> wrote(old(writer), final(writer), bx(Self::FOURCC, self.cont())), //@P08
        old(writer).reliable() ==> r is Ok,
=== fn atom::WriteAtom::size
    requires self.fits()
    ensures r == size_of_content(self.cont().len() as int), //@P08
=== trait atom::LenOrZero
    spec fn lz_ok(&self) -> bool;
    spec fn lz(&self) -> int;
=== impl atom::<Option<T> as LenOrZero>
    open spec fn lz_ok(&self) -> bool { opt_fits(*self) }
    open spec fn lz(&self) -> int { opt_ser(*self).len() as int }
=== fn atom::LenOrZero::len_or_zero
    requires self.lz_ok()
    ensures r == self.lz(), //@P08
=== fn atom::<Option<T> as LenOrZero>::len_or_zero
--- at start
    proof { assert(self.lz_ok()); assert(opt_fits(*self)); if self is Some { assert(self->Some_0.fits()); assert(self.lz() == ser(self->Some_0).len()); } else { assert(self.lz() == 0); } }
--- closure 0 &T -> (x: u64)
    requires __c0.fits()
    ensures x == ser(*__c0).len()
=== impl atom::hdlr::<Hdlr as WriteAtom>
    open spec fn cont(&self) -> Seq<u8> { self.0@ }
    open spec fn fits(&self) -> bool { self.0@.len() <= 0x1000_0000_0000_0000 }
    proof fn fits_law(&self) {}
=== fn atom::hdlr::<Hdlr as WriteAtom>::write_atom
--- at start
    proof { lemma_acc0(writer); }
--- at end
    proof { assert(Seq::<u8>::empty() + ser_head(crate::atom::head::Head { size: size_of_content(self.cont().len() as int), fourcc: Self::FOURCC }) + self.0@ =~= bx(Self::FOURCC, self.cont())); }
=== impl atom::ilst::<Ilst as WriteAtom>
    open spec fn cont(&self) -> Seq<u8> { ser_items(views(items_in(*self))) }
    open spec fn fits(&self) -> bool { items_fit(views(items_in(*self))) }
    proof fn fits_law(&self) {}
=== mod atom::ilst
pub open spec fn items_in(i: Ilst<'_>) -> Seq<AtomData> {
    match i { Ilst::Owned(a) => a@, Ilst::Borrowed(a) => a@ }
}
=== fn atom::ilst::<Ilst as WriteAtom>::write_atom
--- at start
    let ghost h = ser_head(crate::atom::head::Head { size: size_of_content(self.cont().len() as int), fourcc: Self::FOURCC });
    let ghost all = views(items_in(*self));
    proof { lemma_acc0(writer); }
--- loop 0
    invariant
        self.fits(), all == views(items_in(*self)), __all0.len() == all.len(), forall|i: int| 0 <= i < all.len() ==> (#[trigger] __all0[i])@ == all[i],
        writer.reliable() == old(writer).reliable(), writer.tail() == old(writer).tail(), writer.pos() >= 0,
        acc(old(writer), writer, Seq::<u8>::empty() + h + ser_items(all.take(__k0))),
--- at loop 0 end
    proof {
        assert(all.take(__k0).drop_last() =~= all.take(__k0 - 1));
        assert(Seq::<u8>::empty() + h + ser_items(all.take(__k0 - 1)) + ser_item(all[__k0 - 1]) =~= Seq::<u8>::empty() + h + ser_items(all.take(__k0)));
    }
--- at end
    proof { assert(all.take(all.len() as int) =~= all); assert(Seq::<u8>::empty() + h + ser_items(all) =~= bx(Self::FOURCC, self.cont())); }
=== fn atom::ilst::<Ilst as WriteAtom>::size
--- at start
    proof {
        lemma_sum_items(views(items_in(*self)));
        assert forall|i: int| 0 <= i < items_in(*self).len() implies item_len((#[trigger] items_in(*self)[i])@) <= u32::MAX by { assert(views(items_in(*self))[i] == items_in(*self)[i]@); }
    }
--- closure 0 &AtomData -> (x: u64)
    requires item_len(__c0@) <= u32::MAX
    ensures x == item_len(__c0@)
=== impl atom::meta::<Meta as WriteAtom>
    open spec fn cont(&self) -> Seq<u8> { zeros(4) + opt_ser(self.hdlr) + opt_ser(self.ilst) }
    open spec fn fits(&self) -> bool { opt_fits(self.hdlr) && opt_fits(self.ilst) && self.cont().len() <= 0x4800_0000_0000_0000 }
    proof fn fits_law(&self) {}
=== fn atom::meta::<Meta as WriteAtom>::write_atom
--- at start
    proof { lemma_acc0(writer); }
--- at end
    proof {
        let h = ser_head(crate::atom::head::Head { size: size_of_content(self.cont().len() as int), fourcc: Self::FOURCC });
        assert(seq![0u8] + rep(0u8, 3) =~= zeros(4));
        assert(Seq::<u8>::empty() + h + zeros(4) + opt_ser(self.hdlr) + opt_ser(self.ilst) =~= bx(Self::FOURCC, self.cont()));
        assert(Seq::<u8>::empty() + h + zeros(4) + opt_ser(self.hdlr) + Seq::<u8>::empty() =~= Seq::<u8>::empty() + h + zeros(4) + opt_ser(self.hdlr));
        assert(Seq::<u8>::empty() + h + zeros(4) + Seq::<u8>::empty() =~= Seq::<u8>::empty() + h + zeros(4));
    }
=== fn atom::meta::Meta::hdlr
    ensures r.0@ =~= hdlr_bytes(), //@P02 //@P08
=== mod atom::meta
pub open spec fn hdlr_bytes() -> Seq<u8> {
    zeros(8) + seq![0x6du8, 0x64, 0x69, 0x72, 0x61, 0x70, 0x70, 0x6c] + zeros(9)
}
=== impl atom::udta::<Udta as WriteAtom>
    open spec fn cont(&self) -> Seq<u8> { opt_ser(self.meta) }
    open spec fn fits(&self) -> bool { opt_fits(self.meta) && self.cont().len() <= 0x4900_0000_0000_0000 }
    proof fn fits_law(&self) {}
=== fn atom::udta::<Udta as WriteAtom>::write_atom
--- at start
    proof { lemma_acc0(writer); }
--- at end
    proof {
        let h = ser_head(crate::atom::head::Head { size: size_of_content(self.cont().len() as int), fourcc: Self::FOURCC });
        assert(Seq::<u8>::empty() + h + opt_ser(self.meta) =~= bx(Self::FOURCC, self.cont()));
        assert(Seq::<u8>::empty() + h + Seq::<u8>::empty() =~= Seq::<u8>::empty() + h);
    }
=== impl atom::moov::<Moov as WriteAtom>
    open spec fn cont(&self) -> Seq<u8> { opt_ser(self.udta) }
    open spec fn fits(&self) -> bool { opt_fits(self.udta) && self.cont().len() <= 0x4a00_0000_0000_0000 }
    proof fn fits_law(&self) {}
=== fn atom::moov::<Moov as WriteAtom>::write_atom
--- at start
    proof { lemma_acc0(writer); }
--- at end
    proof {
        let h = ser_head(crate::atom::head::Head { size: size_of_content(self.cont().len() as int), fourcc: Self::FOURCC });
        assert(Seq::<u8>::empty() + h + opt_ser(self.udta) =~= bx(Self::FOURCC, self.cont()));
        assert(Seq::<u8>::empty() + h + Seq::<u8>::empty() =~= Seq::<u8>::empty() + h);
    }
=== fn atom::AtomData::len
    requires item_len(self@) <= u64::MAX
    ensures r == item_len(self@), //@P08
--- at start
    proof {
        lemma_sum_datas(self@.data); lemma_ser_id_len(self@.id);
        assert forall|i: int| 0 <= i < self.data@.len() implies 16 + payload((#[trigger] self.data@[i])@).len() <= u64::MAX by {
            assert(self@.data[i] == self.data@[i]@);
        }
    }
--- closure 0 &Data -> (x: u64)
    requires 16 + payload(__c0@).len() <= u64::MAX
    ensures x == 16 + payload(__c0@).len()
=== fn atom::AtomData::is_empty
    ensures r == item_empty(self@), //@P08
--- at start
    proof {
        assert forall|i: int| 0 <= i < self.data@.len() implies #[trigger] self@.data[i] == self.data@[i]@ by {}
        assert forall|i: int| 0 <= i < self.data@.len() implies self@.data[i] == (#[trigger] self.data@[i])@ by {}
    }
--- closure 0 &Data -> (x: bool)
    ensures x == (payload(__c0@).len() == 0)
=== fn atom::AtomData::write
    requires old(writer).pos() >= 0, item_len(self@) <= u32::MAX
    ensures
        final(writer).reliable() == old(writer).reliable(), final(writer).tail() == old(writer).tail(), final(writer).pos() >= 0,
        r is Ok ==> wrote(old(writer), final(writer), ser_item(self@)), //@P08
        old(writer).reliable() ==> r is Ok,
--- at start
    let ghost ds = self@.data;
    let ghost h = to32(item_len(self@)) + ser_id(self@.id);
    proof { lemma_acc0(writer); lemma_ser_id_len(self@.id); lemma_sum_datas(ds); }
--- loop 0
    invariant
        item_len(self@) <= u32::MAX, ds == self@.data, h == to32(item_len(self@)) + ser_id(self@.id), 
        forall|i: int| 0 <= i < ds.len() ==> 16 + payload(#[trigger] ds[i]).len() <= u32::MAX,
        __all0.len() == ds.len(), forall|i: int| 0 <= i < ds.len() ==> (#[trigger] __all0[i])@ == ds[i],
        writer.reliable() == old(writer).reliable(), writer.tail() == old(writer).tail(), writer.pos() >= 0,
        acc(old(writer), writer, h + ser_datas(ds.take(__k0))),
--- at before loop 0
    proof {
        let a = Seq::<u8>::empty() + to32(item_len(self@));
        match self@.id {
            IdS::F(f) => { assert(a + f.0@ =~= h + ser_datas(ds.take(0))); }
            IdS::X(m, n) => {
                let (mb, nb) = (encode_utf8(m), encode_utf8(n));
                assert(a + f_freeform().0@ + to32(12 + mb.len() as int) + f_mean().0@ + zeros(4) + mb + to32(12 + nb.len() as int) + f_name().0@ + zeros(4) + nb
                    =~= h + ser_datas(ds.take(0)));
            }
        }
    }
--- at loop 0 end
    proof {
        assert(ds.take(__k0).drop_last() =~= ds.take(__k0 - 1));
        let x = ds[__k0 - 1];
        assert(h + ser_datas(ds.take(__k0 - 1)) + to32(16 + payload(x).len() as int) + f_data().0@ + (to32(type_code(x)) + zeros(4) + payload(x))
            =~= h + ser_datas(ds.take(__k0)));
    }
--- at end
    proof { assert(ds.take(ds.len() as int) =~= ds); assert(h + ser_datas(ds) =~= ser_item(self@)); }
