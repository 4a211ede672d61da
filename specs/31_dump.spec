=== prelude
pub mod dp {
use vstd::prelude::*;
use vstd::utf8::*;
use crate::vp::*;
use crate::vp::io::*;
use crate::vs::*;
use crate::ds::*;
use crate::hs::*;
use crate::ks::*;
use crate::pl::*;
use crate::sr::*;
use crate::atom::head::*;
use crate::atom::ident::*;
use crate::atom::meta::hdlr_bytes;
broadcast use crate::vp::group_vp;
pub open spec fn dump_ftyp() -> Seq<u8> { seq![0x4du8, 0x34, 0x41, 0x20, 0, 0, 2, 0, 0x69, 0x73, 0x6f, 0x6d, 0x69, 0x73, 0x6f, 0x32] }
pub open spec fn dump_meta(t: Seq<ItemS>) -> Seq<u8> { zeros(4) + bx(f_hdlr(), hdlr_bytes()) + bx(f_ilst(), ser_items(t)) }
/// a tag without any media
pub open spec fn dump_of(t: Seq<ItemS>) -> Seq<u8> {
    bx(f_ftyp(), dump_ftyp()) + bx(f_moov(), bx(f_udta(), bx(f_meta(), dump_meta(t))))
}
pub proof fn lemma_ftyp(s: Seq<char>)
    requires s == "M4A \u{0}\u{0}\u{2}\u{0}isomiso2"@
    ensures encode_utf8(s) == dump_ftyp()
{
    reveal_strlit("M4A \u{0}\u{0}\u{2}\u{0}isomiso2");
    assert(is_ascii_chars(s));
    is_ascii_chars_encode_utf8(s);
    assert(encode_utf8(s) =~= dump_ftyp());
}
} // mod dp
=== mod atom::hdlr
pub proof fn lemma_fcc()
    ensures <Hdlr as Atom>::FOURCC == f_hdlr()
{ assert(<Hdlr as Atom>::FOURCC.0@ =~= f_hdlr().0@); lemma_fourcc(<Hdlr as Atom>::FOURCC, f_hdlr()); }
=== mod atom::ilst
pub proof fn lemma_fcc()
    ensures <Ilst<'_> as Atom>::FOURCC == f_ilst()
{ assert(<Ilst<'_> as Atom>::FOURCC.0@ =~= f_ilst().0@); lemma_fourcc(<Ilst<'_> as Atom>::FOURCC, f_ilst()); }
=== mod atom::meta
pub proof fn lemma_fcc()
    ensures <Meta<'_> as Atom>::FOURCC == f_meta()
{ assert(<Meta<'_> as Atom>::FOURCC.0@ =~= f_meta().0@); lemma_fourcc(<Meta<'_> as Atom>::FOURCC, f_meta()); }
=== mod atom::udta
pub proof fn lemma_fcc()
    ensures <Udta<'_> as Atom>::FOURCC == f_udta()
{ assert(<Udta<'_> as Atom>::FOURCC.0@ =~= f_udta().0@); lemma_fourcc(<Udta<'_> as Atom>::FOURCC, f_udta()); }
=== mod atom::moov
pub proof fn lemma_fcc()
    ensures <Moov<'_> as Atom>::FOURCC == f_moov()
{ assert(<Moov<'_> as Atom>::FOURCC.0@ =~= f_moov().0@); lemma_fourcc(<Moov<'_> as Atom>::FOURCC, f_moov()); }
=== mod atom
pub proof fn lemma_fccs()
    ensures
        <Hdlr as Atom>::FOURCC == f_hdlr(), <Ilst<'_> as Atom>::FOURCC == f_ilst(), <Meta<'_> as Atom>::FOURCC == f_meta(),
        <Udta<'_> as Atom>::FOURCC == f_udta(), <Moov<'_> as Atom>::FOURCC == f_moov(),
{ hdlr::lemma_fcc(); ilst::lemma_fcc(); meta::lemma_fcc(); udta::lemma_fcc(); moov::lemma_fcc(); }
=== fn atom::dump_tag_to
    requires old(writer).pos() >= 0, items_fit(views(atoms@))
    ensures
        final(writer).reliable() == old(writer).reliable(), final(writer).tail() == old(writer).tail(), final(writer).pos() >= 0,
        r is Ok ==> wrote(old(writer), final(writer), dump_of(views(atoms@))), //@P02 //@P08
        old(writer).reliable() ==> r is Ok,
--- at start
    proof { lemma_acc0(writer); }
--- at before call write 0
    proof {
        lemma_ftyp(ftyp.0@);
        let c = views(atoms@);
        lemma_fccs();
        let il = moov.udta->Some_0.meta->Some_0.ilst->Some_0;
        assert(crate::atom::ilst::items_in(il) == atoms@);
        assert(il.cont() == ser_items(c));
        assert(ser(il) == bx(f_ilst(), ser_items(c)));
        assert(opt_ser(moov.udta->Some_0.meta->Some_0.ilst) == bx(f_ilst(), ser_items(c)));
        assert(moov.udta->Some_0.meta->Some_0.cont() =~= dump_meta(c));
        assert(moov.fits());
    }
--- at end
    proof {
        let c = views(atoms@);
        assert(Seq::<u8>::empty() + bx(f_ftyp(), dump_ftyp()) + bx(f_moov(), bx(f_udta(), bx(f_meta(), dump_meta(c)))) =~= dump_of(c));
    }
