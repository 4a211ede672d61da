=== prelude
pub mod rt {
use vstd::prelude::*;
use vstd::utf8::*;
use crate::vp::*;
use crate::vs::*;
use crate::ds::*;
use crate::hs::*;
use crate::ks::*;
use crate::pl::*;
use crate::sr::*;
use crate::fl::*;
use crate::dp::*;
use crate::ls::*;
use crate::atom::ParseAtom;
use crate::atom::head::*;
use crate::atom::ident::*;
use crate::atom::moov::*;
use crate::atom::udta::*;
use crate::atom::meta::*;
use crate::atom::ilst::*;
use crate::atom::trak::*;
use crate::atom::mvhd::*;
use crate::atom::meta::hdlr_bytes;
broadcast use crate::vp::group_vp;

/// an item list behind a handler
pub proof fn lemma_meta_c(t: Seq<ItemS>)
    requires storable(t)
    ensures
        kids(dump_meta(t), 4) is Some,
        lst(dump_meta(t), 4) == seq![mkat(f_hdlr(), hdlr_bytes()), mkat(f_ilst(), ser_items(t))], //@P02 //@P05
        Meta::wf(dump_meta(t)),
        dump_meta(t).len() <= ser_items(t).len() + 80,
{
    let z = zeros(4);
    lemma_none(z);
    lemma_bx(f_hdlr(), hdlr_bytes());
    lemma_bx(f_ilst(), ser_items(t));
    lemma_push(z, 4, f_hdlr(), hdlr_bytes());
    lemma_push(z + bx(f_hdlr(), hdlr_bytes()), 4, f_ilst(), ser_items(t));
    let l = lst(dump_meta(t), 4);
    assert(l =~= seq![mkat(f_hdlr(), hdlr_bytes()), mkat(f_ilst(), ser_items(t))]);
    lemma_ser_items(t);
    assert(f_hdlr().0[0] != f_ilst().0[0]);
    assert(lwf::<Ilst<'_>>(l, f_ilst()));
    lemma_lwf::<Ilst<'_>>(dump_meta(t), 4, f_ilst());
}
pub proof fn lemma_one(f: Fourcc, c: Seq<u8>)
    requires c.len() + 16 <= i64::MAX
    ensures kids(bx(f, c), 0) is Some, lst(bx(f, c), 0) == seq![mkat(f, c)]
{
    let e = Seq::<u8>::empty();
    lemma_none(e);
    lemma_push(e, 0, f, c);
    assert(e + bx(f, c) =~= bx(f, c));
    assert(lst(bx(f, c), 0) =~= seq![mkat(f, c)]);
}
pub proof fn lemma_lastc1(f: Fourcc, c: Seq<u8>)
    ensures lastc(seq![mkat(f, c)], f) == Some(c)
{ assert(seq![mkat(f, c)].last() == mkat(f, c)); }
/// what is found in a dump is what was dumped
pub proof fn lemma_dump(t: Seq<ItemS>)
    requires storable(t)
    ensures
        file_wf(dump_of(t)), //@P02
        items_of(moov_of(dump_of(t))) == t, //@P02
        kids(dump_of(t), 0)->Some_0.len() == 2, //@P02
        kids(dump_of(t), 0)->Some_0[0].head.fourcc == f_ftyp() && kids(dump_of(t), 0)->Some_0[1].head.fourcc == f_moov(), //@P02
{
    let me = dump_meta(t);
    let ud = bx(f_meta(), me);
    let mo = bx(f_udta(), ud);
    let mv = bx(f_moov(), mo);
    lemma_meta_c(t);
    lemma_bx(f_meta(), me);
    lemma_bx(f_udta(), ud);
    lemma_one(f_meta(), me);
    lemma_one(f_udta(), ud);
    assert(lwf::<Meta<'_>>(lst(ud, 0), f_meta()));
    lemma_lwf::<Meta<'_>>(ud, 0, f_meta());
    assert(Udta::wf(ud));
    assert(f_udta().0[0] != f_mvhd().0[0] && f_udta().0[0] != f_trak().0[0]);
    assert(lwf::<Udta<'_>>(lst(mo, 0), f_udta()));
    assert(lwf::<Mvhd>(lst(mo, 0), f_mvhd()));
    assert(lwf::<Trak>(lst(mo, 0), f_trak()));
    lemma_lwf::<Udta<'_>>(mo, 0, f_udta());
    lemma_lwf::<Mvhd>(mo, 0, f_mvhd());
    lemma_lwf::<Trak>(mo, 0, f_trak());
    assert(Moov::wf(mo));
    // file
    lemma_one(f_ftyp(), dump_ftyp());
    lemma_push(bx(f_ftyp(), dump_ftyp()), 0, f_moov(), mo);
    let d = dump_of(t);
    let ks = kids(d, 0)->Some_0;
    let l = lst(d, 0);
    assert(l =~= seq![mkat(f_ftyp(), dump_ftyp()), mkat(f_moov(), mo)]);
    assert(ks.len() == l.len());
    assert(l[0] == kat(d, ks[0]));
    assert(l[1] == kat(d, ks[1]));
    assert(f_ftyp().0[0] != f_moov().0[0]);
    lemma_first_kid(ks, f_moov(), 1);
    assert(moov_of(d) == mo);
    lemma_ftyp("M4A \u{0}\u{0}\u{2}\u{0}isomiso2"@);
    encode_utf8_valid_utf8("M4A \u{0}\u{0}\u{2}\u{0}isomiso2"@);
    // items
    lemma_ats(mo, kids(mo, 0)->Some_0);
    lemma_ats(ud, kids(ud, 0)->Some_0);
    lemma_ats(me, kids(me, 4)->Some_0);
    lemma_lastc1(f_udta(), ud);
    lemma_lastc1(f_meta(), me);
    assert(last_body(mo, kids(mo, 0)->Some_0, f_udta()) == Some(ud));
    assert(last_body(ud, kids(ud, 0)->Some_0, f_meta()) == Some(me));
    assert(lst(me, 4).last() == mkat(f_ilst(), ser_items(t)));
    assert(last_body(me, kids(me, 4)->Some_0, f_ilst()) == Some(ser_items(t)));
    lemma_ser_items(t);
}
} // mod rt
