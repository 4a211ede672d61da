=== prelude
pub mod aj {
use vstd::prelude::*;
use crate::vp::*;
use crate::vs::*;
use crate::ds::*;
use crate::hs::*;
use crate::ks::*;
use crate::pl::*;
use crate::fl::*;
use crate::wt::*;
use crate::st::*;
use crate::atom::ParseAtom;
use crate::atom::head::*;
use crate::atom::ident::*;
use crate::atom::moov::*;
use crate::atom::udta::*;
use crate::atom::trak::*;
use crate::atom::mdia::*;
use crate::atom::minf::*;
use crate::atom::stbl::*;
use crate::atom::stsd::*;
use crate::atom::mvhd::*;
broadcast use crate::vp::group_vp;

// ===================================================================== what adjusted chunk offsets leave as it is
pub open spec fn spf(l: int) -> Fourcc { if l == 3 { f_stbl() } else if l == 4 { f_minf() } else { f_mdia() } }
pub proof fn lemma_fourccs()
    ensures
        f_stco() != f_co64(), f_stsd() != f_stco(), f_stsd() != f_co64(), f_udta() != f_trak(), f_mvhd() != f_trak(), f_udta() != f_mvhd(),
        f_ftyp() != f_moov(), f_hdlr() != f_ilst(),
{
    assert(f_stco().0[0] != f_co64().0[0]);
    assert(f_stsd().0[3] != f_stco().0[3]);
    assert(f_stsd().0[0] != f_co64().0[0]);
    assert(f_udta().0[0] != f_trak().0[0] && f_mvhd().0[0] != f_trak().0[0] && f_udta().0[0] != f_mvhd().0[0]);
    assert(f_ftyp().0[0] != f_moov().0[0] && f_hdlr().0[0] != f_ilst().0[0]);
}
/// one level down
pub proof fn lemma_down(l: int, b: Seq<u8>, c: Seq<u8>, en: int, df: int)
    requires mvr(l, b, c, en, df), 3 <= l <= 5
    ensures
        kids(b, 0) is Some, kids(c, 0) == kids(b, 0),
        match last_body(b, kids(b, 0)->Some_0, spf(l)) {
            None => last_body(c, kids(c, 0)->Some_0, spf(l)) is None,
            Some(x) => last_body(c, kids(c, 0)->Some_0, spf(l)) is Some && mvr(l - 1, x, last_body(c, kids(c, 0)->Some_0, spf(l))->Some_0, en, df),
        },
{
    let ks = kids(b, 0)->Some_0;
    lemma_lidx(b, ks, spf(l));
    lemma_lidx(c, ks, spf(l));
    let i = lidx(ks, spf(l));
    if i >= 0 { assert(next(l, ks, i) == l - 1); let k = ks[i]; assert(mvr(l - 1, body(b, k), body(c, k), en, df)); }
}
pub proof fn lemma_down_wf<T: ParseAtom>(l: int, b: Seq<u8>, c: Seq<u8>, en: int, df: int)
    requires
        mvr(l, b, c, en, df), 3 <= l <= 5, kids_wf::<T>(b, 0, spf(l)),
        forall|x: Seq<u8>, y: Seq<u8>| #[trigger] mvr(l - 1, x, y, en, df) && T::wf(x) ==> T::wf(y),
    ensures kids_wf::<T>(c, 0, spf(l))
{
    let ks = kids(b, 0)->Some_0;
    assert forall|i: int| 0 <= i < ks.len() && (#[trigger] ks[i]).head.fourcc == spf(l) implies T::wf(body(c, ks[i])) by {
        let n = next(l, ks, i);
        let k = ks[i];
        assert(T::wf(body(b, k)));
        if 0 <= n < l { assert(n == l - 1); assert(mvr(n, body(b, k), body(c, k), en, df)); }
    }
}
/// the sample table
pub proof fn lemma_stbl(b: Seq<u8>, c: Seq<u8>, en: int, df: int)
    requires mvr(2, b, c, en, df)
    ensures
        kids(b, 0) is Some, kids(c, 0) == kids(b, 0),
        last_body(c, kids(c, 0)->Some_0, f_stsd()) == last_body(b, kids(b, 0)->Some_0, f_stsd()),
        match last_body(b, kids(b, 0)->Some_0, f_stco()) {
            None => last_body(c, kids(c, 0)->Some_0, f_stco()) is None,
            Some(x) => last_body(c, kids(c, 0)->Some_0, f_stco()) is Some && mvr(0, x, last_body(c, kids(c, 0)->Some_0, f_stco())->Some_0, en, df),
        },
        match last_body(b, kids(b, 0)->Some_0, f_co64()) {
            None => last_body(c, kids(c, 0)->Some_0, f_co64()) is None,
            Some(x) => last_body(c, kids(c, 0)->Some_0, f_co64()) is Some && mvr(1, x, last_body(c, kids(c, 0)->Some_0, f_co64())->Some_0, en, df),
        },
        Stbl::wf(b) ==> Stbl::wf(c),
{
    let ks = kids(b, 0)->Some_0;
    lemma_fourccs();
    lemma_lidx(b, ks, f_stco());
    lemma_lidx(c, ks, f_stco());
    lemma_lidx(b, ks, f_co64());
    lemma_lidx(c, ks, f_co64());
    lemma_lidx(b, ks, f_stsd());
    lemma_lidx(c, ks, f_stsd());
    let i = lidx(ks, f_stco());
    if i >= 0 { assert(next(2, ks, i) == 0); let k = ks[i]; assert(mvr(0, body(b, k), body(c, k), en, df)); }
    let i = lidx(ks, f_co64());
    if i >= 0 { assert(next(2, ks, i) == 1); let k = ks[i]; assert(mvr(1, body(b, k), body(c, k), en, df)); }
    let i = lidx(ks, f_stsd());
    if i >= 0 { assert(next(2, ks, i) == -1); let k = ks[i]; assert(body(c, k) == body(b, k)); }
    if Stbl::wf(b) {
        assert forall|i: int| 0 <= i < ks.len() && (#[trigger] ks[i]).head.fourcc == f_stsd() implies Stsd::wf(body(c, ks[i])) by {
            assert(next(2, ks, i) == -1);
            let k = ks[i];
            assert(body(c, k) == body(b, k));
        }
    }
}
/// the table of a track
pub open spec fn table(trak: Seq<u8>, f: Fourcc) -> Option<Seq<u8>> { child(child(child(child(Some(trak), 0, f_mdia()), 0, f_minf()), 0, f_stbl()), 0, f) }
pub open spec fn tab_rel(l: int, x: Option<Seq<u8>>, y: Option<Seq<u8>>, en: int, df: int) -> bool {
    match x { None => y is None, Some(x) => y is Some && mvr(l, x, y->Some_0, en, df) }
}
pub proof fn lemma_minf(b: Seq<u8>, c: Seq<u8>, en: int, df: int)
    requires mvr(3, b, c, en, df)
    ensures Minf::wf(b) ==> Minf::wf(c)
{
    if Minf::wf(b) {
        assert forall|x: Seq<u8>, y: Seq<u8>| #[trigger] mvr(2, x, y, en, df) && Stbl::wf(x) implies Stbl::wf(y) by { lemma_stbl(x, y, en, df); }
        lemma_down(3, b, c, en, df);
        lemma_down_wf::<Stbl>(3, b, c, en, df);
    }
}
pub proof fn lemma_mdia(b: Seq<u8>, c: Seq<u8>, en: int, df: int)
    requires mvr(4, b, c, en, df)
    ensures Mdia::wf(b) ==> Mdia::wf(c)
{
    if Mdia::wf(b) {
        assert forall|x: Seq<u8>, y: Seq<u8>| #[trigger] mvr(3, x, y, en, df) && Minf::wf(x) implies Minf::wf(y) by { lemma_minf(x, y, en, df); }
        lemma_down(4, b, c, en, df);
        lemma_down_wf::<Minf>(4, b, c, en, df);
    }
}
pub proof fn lemma_trak(b: Seq<u8>, c: Seq<u8>, en: int, df: int)
    requires mvr(5, b, c, en, df)
    ensures
        Trak::wf(b) ==> Trak::wf(c),
        mp4a_of(c) == mp4a_of(b), //@P01
        tab_rel(0, table(b, f_stco()), table(c, f_stco()), en, df), //@P04
        tab_rel(1, table(b, f_co64()), table(c, f_co64()), en, df), //@P04
{
    lemma_down(5, b, c, en, df);
    if Trak::wf(b) {
        assert forall|x: Seq<u8>, y: Seq<u8>| #[trigger] mvr(4, x, y, en, df) && Mdia::wf(x) implies Mdia::wf(y) by { lemma_mdia(x, y, en, df); }
        lemma_down_wf::<Mdia>(5, b, c, en, df);
    }
    let b4 = child(Some(b), 0, f_mdia());
    let c4 = child(Some(c), 0, f_mdia());
    if b4 is Some {
        lemma_down(4, b4->Some_0, c4->Some_0, en, df);
        let b3 = child(b4, 0, f_minf());
        let c3 = child(c4, 0, f_minf());
        if b3 is Some {
            lemma_down(3, b3->Some_0, c3->Some_0, en, df);
            let b2 = child(b3, 0, f_stbl());
            let c2 = child(c3, 0, f_stbl());
            if b2 is Some { lemma_stbl(b2->Some_0, c2->Some_0, en, df); }
        }
    }
}
/// all tracks
pub open spec fn traks_rel(x: Seq<Seq<u8>>, y: Seq<Seq<u8>>, en: int, df: int) -> bool {
    x.len() == y.len() && forall|i: int| 0 <= i < x.len() ==> mvr(5, #[trigger] x[i], y[i], en, df)
}
pub proof fn lemma_traks_rel(b: Seq<u8>, c: Seq<u8>, ks: Seq<Kid>, en: int, df: int)
    requires forall|i: int| 0 <= i < ks.len() && (#[trigger] ks[i]).head.fourcc == f_trak() ==> mvr(5, body(b, ks[i]), body(c, ks[i]), en, df)
    ensures traks_rel(bodies(b, ks, f_trak()), bodies(c, ks, f_trak()), en, df)
    decreases ks.len()
{
    if ks.len() > 0 {
        let p = ks.drop_last();
        assert forall|i: int| 0 <= i < p.len() && (#[trigger] p[i]).head.fourcc == f_trak() implies mvr(5, body(b, p[i]), body(c, p[i]), en, df) by { assert(p[i] == ks[i]); }
        lemma_traks_rel(b, c, p, en, df);
        assert(ks[ks.len() - 1] == ks.last());
        let x = bodies(b, ks, f_trak());
        let y = bodies(c, ks, f_trak());
        assert forall|i: int| 0 <= i < x.len() implies mvr(5, #[trigger] x[i], y[i], en, df) by {
            if i < bodies(b, p, f_trak()).len() { assert(x[i] == bodies(b, p, f_trak())[i]); assert(y[i] == bodies(c, p, f_trak())[i]); }
        }
    }
}
pub proof fn lemma_first_same(x: Seq<Seq<u8>>, y: Seq<Seq<u8>>)
    requires x.len() == y.len(), forall|i: int| 0 <= i < x.len() ==> mp4a_of(#[trigger] x[i]) == mp4a_of(y[i])
    ensures first_mp4a(x) == first_mp4a(y)
    decreases x.len()
{
    if x.len() > 0 {
        assert(mp4a_of(x[0]) == mp4a_of(y[0]));
        assert forall|i: int| 0 <= i < x.skip(1).len() implies mp4a_of(#[trigger] x.skip(1)[i]) == mp4a_of(y.skip(1)[i]) by { assert(x.skip(1)[i] == x[i + 1]); }
        lemma_first_same(x.skip(1), y.skip(1));
    }
}
pub open spec fn mp4as_same(x: Seq<Seq<u8>>, y: Seq<Seq<u8>>) -> bool { first_mp4a(x) == first_mp4a(y) }
/// the movie
pub proof fn lemma_moov(b: Seq<u8>, c: Seq<u8>, en: int, df: int)
    requires mvr(6, b, c, en, df), Moov::wf(b)
    ensures
        Moov::wf(c), kids(c, 0) == kids(b, 0),
        forall|i: int| 0 <= i < kids(b, 0)->Some_0.len() && (#[trigger] kids(b, 0)->Some_0[i]).head.fourcc != f_trak() ==> body(c, kids(b, 0)->Some_0[i]) == body(b, kids(b, 0)->Some_0[i]), //@P03
        traks_rel(trak_bodies(b), trak_bodies(c), en, df), //@P04
        first_mp4a(trak_bodies(c)) == first_mp4a(trak_bodies(b)), //@P01
        child(Some(c), 0, f_mvhd()) == child(Some(b), 0, f_mvhd()), //@P01
        child(Some(c), 0, f_udta()) == child(Some(b), 0, f_udta()),
{
    let ks = kids(b, 0)->Some_0;
    lemma_fourccs();
    assert forall|i: int| 0 <= i < ks.len() implies
        if (#[trigger] ks[i]).head.fourcc == f_trak() { mvr(5, body(b, ks[i]), body(c, ks[i]), en, df) } else { body(c, ks[i]) == body(b, ks[i]) } by {
        let n = next(6, ks, i);
        let k = ks[i];
        assert(n == (if k.head.fourcc == f_trak() { 5int } else { -1 }));
    }
    lemma_traks_rel(b, c, ks, en, df);
    let x = trak_bodies(b);
    let y = trak_bodies(c);
    assert forall|i: int| 0 <= i < x.len() implies mp4a_of(#[trigger] x[i]) == mp4a_of(y[i]) by { lemma_trak(x[i], y[i], en, df); }
    lemma_first_same(x, y);
    lemma_lidx(b, ks, f_mvhd());
    lemma_lidx(c, ks, f_mvhd());
    lemma_lidx(b, ks, f_udta());
    lemma_lidx(c, ks, f_udta());
    assert forall|i: int| 0 <= i < ks.len() && (#[trigger] ks[i]).head.fourcc == f_trak() implies Trak::wf(body(c, ks[i])) by {
        lemma_trak(body(b, ks[i]), body(c, ks[i]), en, df);
    }
    assert forall|i: int| 0 <= i < ks.len() && (#[trigger] ks[i]).head.fourcc == f_mvhd() implies Mvhd::wf(body(c, ks[i])) by { assert(body(c, ks[i]) == body(b, ks[i])); }
    assert forall|i: int| 0 <= i < ks.len() && (#[trigger] ks[i]).head.fourcc == f_udta() implies Udta::wf(body(c, ks[i])) by { assert(body(c, ks[i]) == body(b, ks[i])); }
}
} // mod aj
