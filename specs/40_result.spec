=== prelude
pub mod rs {
use vstd::prelude::*;
use crate::vp::*;
use crate::vs::*;
use crate::ds::*;
use crate::hs::*;
use crate::ks::*;
use crate::pl::*;
use crate::sr::*;
use crate::fl::*;
use crate::dp::*;
use crate::ls::*;
use crate::st::*;
use crate::sp::*;
use crate::nt::*;
use crate::wt::*;
use crate::atom::ParseAtom;
use crate::atom::head::*;
use crate::atom::ident::*;
use crate::atom::moov::*;
use crate::atom::udta::*;
use crate::atom::meta::*;
use crate::atom::ilst::*;
use crate::atom::trak::*;
use crate::atom::mvhd::*;
use crate::atom::meta::hdlr_bytes;
broadcast use crate::vp::group_vp;

// ===================================================================== lists of atoms in which one is replaced
/// index of the last atom with the identifier, negative if there is none
pub open spec fn aidx(l: Seq<At>, f: Fourcc) -> int
    decreases l.len()
{
    if l.len() == 0 { -1 } else if l.last().f == f { l.len() - 1 } else { aidx(l.drop_last(), f) }
}
pub proof fn lemma_aidx(l: Seq<At>, f: Fourcc)
    ensures
        -1 <= aidx(l, f) < l.len(),
        aidx(l, f) < 0 ==> lastc(l, f) is None,
        aidx(l, f) >= 0 ==> l[aidx(l, f)].f == f && lastc(l, f) == Some(l[aidx(l, f)].c),
        forall|i: int| aidx(l, f) < i < l.len() ==> (#[trigger] l[i]).f != f,
    decreases l.len()
{
    if l.len() > 0 {
        let p = l.drop_last();
        lemma_aidx(p, f);
        assert(l[l.len() - 1] == l.last());
        assert forall|i: int| aidx(l, f) < i < l.len() implies (#[trigger] l[i]).f != f by { if i < l.len() - 1 { assert(p[i] == l[i]); } }
        if aidx(p, f) >= 0 { assert(p[aidx(p, f)] == l[aidx(p, f)]); }
    }
}
pub proof fn lemma_aidx_lidx(b: Seq<u8>, ks: Seq<Kid>, f: Fourcc)
    ensures aidx(ats(b, ks), f) == lidx(ks, f)
    decreases ks.len()
{
    if ks.len() > 0 {
        lemma_aidx_lidx(b, ks.drop_last(), f);
        assert(ats(b, ks).drop_last() =~= ats(b, ks.drop_last()));
        assert(ats(b, ks).last() == kat(b, ks.last()));
    }
}
/// the last atom with the identifier has other content, or is added if there was none
pub open spec fn set_last(l: Seq<At>, f: Fourcc, c: Seq<u8>) -> Seq<At> {
    if aidx(l, f) < 0 { l.push(mkat(f, c)) } else { l.update(aidx(l, f), At { f, ext: l[aidx(l, f)].ext, c }) }
}
pub proof fn lemma_update(l: Seq<At>, i: int, x: At, g: Fourcc)
    requires 0 <= i < l.len(), l[i].f == x.f, g != x.f
    ensures lastc(l.update(i, x), g) == lastc(l, g), allc(l.update(i, x), g) == allc(l, g)
    decreases l.len()
{
    let r = l.update(i, x);
    assert(l[l.len() - 1] == l.last());
    if i == l.len() - 1 {
        assert(r.drop_last() =~= l.drop_last());
    } else {
        assert(r.drop_last() =~= l.drop_last().update(i, x));
        assert(l.drop_last()[i] == l[i]);
        lemma_update(l.drop_last(), i, x, g);
        assert(r.last() == l.last());
    }
}
pub proof fn lemma_lastc_at(l: Seq<At>, i: int, f: Fourcc)
    requires 0 <= i < l.len(), l[i].f == f, forall|j: int| i < j < l.len() ==> (#[trigger] l[j]).f != f
    ensures lastc(l, f) == Some(l[i].c), aidx(l, f) == i
    decreases l.len()
{
    assert(l[l.len() - 1] == l.last());
    if i < l.len() - 1 {
        assert(l.drop_last()[i] == l[i]);
        assert forall|j: int| i < j < l.drop_last().len() implies (#[trigger] l.drop_last()[j]).f != f by { assert(l[j] == l.drop_last()[j]); }
        lemma_lastc_at(l.drop_last(), i, f);
    }
}
pub proof fn lemma_set_last(l: Seq<At>, f: Fourcc, c: Seq<u8>)
    ensures
        lastc(set_last(l, f, c), f) == Some(c),
        forall|g: Fourcc| g != f ==> #[trigger] lastc(set_last(l, f, c), g) == lastc(l, g),
        forall|g: Fourcc| g != f ==> #[trigger] allc(set_last(l, f, c), g) == allc(l, g),
{
    let r = set_last(l, f, c);
    let i = aidx(l, f);
    lemma_aidx(l, f);
    if i < 0 {
        assert(r.drop_last() =~= l);
        assert(r.last() == mkat(f, c));
    } else {
        let x = At { f, ext: l[i].ext, c };
        assert forall|j: int| i < j < r.len() implies (#[trigger] r[j]).f != f by { assert(r[j] == l[j]); }
        lemma_lastc_at(r, i, f);
        assert forall|g: Fourcc| g != f implies #[trigger] lastc(r, g) == lastc(l, g) by { lemma_update(l, i, x, g); }
        assert forall|g: Fourcc| g != f implies #[trigger] allc(r, g) == allc(l, g) by { lemma_update(l, i, x, g); }
    }
}
pub proof fn lemma_lwf_set<T: ParseAtom>(l: Seq<At>, f: Fourcc, c: Seq<u8>, g: Fourcc)
    requires lwf::<T>(l, g), g == f ==> T::wf(c)
    ensures lwf::<T>(set_last(l, f, c), g)
{
    let r = set_last(l, f, c);
    lemma_aidx(l, f);
    assert forall|i: int| 0 <= i < r.len() && (#[trigger] r[i]).f == g implies T::wf(r[i].c) by {
        if i < l.len() && i != aidx(l, f) { assert(r[i] == l[i]); }
    }
}
/// the item list, preceded by a handler if there was none
pub open spec fn new_list(l: Seq<At>, t: Seq<ItemS>) -> Seq<At> {
    if aidx(l, f_hdlr()) >= 0 { seq![mkat(f_ilst(), ser_items(t))] } else { seq![mkat(f_hdlr(), hdlr_bytes()), mkat(f_ilst(), ser_items(t))] }
}
/// the last item list is replaced, or one is added if there was none
pub open spec fn set_ilst(l: Seq<At>, t: Seq<ItemS>) -> Seq<At> {
    let i = aidx(l, f_ilst());
    if i < 0 { l + new_list(l, t) } else { l.take(i) + new_list(l, t) + l.skip(i + 1) }
}
pub proof fn lemma_set_ilst(l: Seq<At>, t: Seq<ItemS>)
    ensures
        lastc(set_ilst(l, t), f_ilst()) == Some(ser_items(t)), //@P01 //@P05
        aidx(set_ilst(l, t), f_hdlr()) >= 0, //@P05
{
    let r = set_ilst(l, t);
    let n = new_list(l, t);
    let i = aidx(l, f_ilst());
    crate::aj::lemma_fourccs();
    lemma_aidx(l, f_ilst());
    lemma_aidx(l, f_hdlr());
    let o = (if i < 0 { l.len() as int } else { i }) + n.len() - 1;
    assert(r[o] == n[n.len() - 1]);
    assert forall|j: int| o < j < r.len() implies (#[trigger] r[j]).f != f_ilst() by { assert(r[j] == l[i + 1 + (j - o - 1)]); }
    lemma_lastc_at(r, o, f_ilst());
    // handler
    lemma_aidx(r, f_hdlr());
    let h = aidx(l, f_hdlr());
    if h < 0 { assert(r[o - 1] == n[0]); }
    else if i < 0 || h < i { assert(r[h] == l[h]); }
    else { assert(h != i); assert(r[h] == l[h]); }
}
pub proof fn lemma_lwf_ilst(l: Seq<At>, t: Seq<ItemS>)
    requires lwf::<Ilst<'_>>(l, f_ilst()), Ilst::wf(ser_items(t))
    ensures lwf::<Ilst<'_>>(set_ilst(l, t), f_ilst())
{
    let r = set_ilst(l, t);
    let n = new_list(l, t);
    let i = aidx(l, f_ilst());
    lemma_aidx(l, f_ilst());
    crate::aj::lemma_fourccs();
    let o = if i < 0 { l.len() as int } else { i };
    assert forall|j: int| 0 <= j < r.len() && (#[trigger] r[j]).f == f_ilst() implies Ilst::wf(r[j].c) by {
        if j < o { assert(r[j] == l[j]); }
        else if j < o + n.len() { assert(r[j] == n[j - o]); }
        else { assert(r[j] == l[i + 1 + (j - o - n.len())]); }
    }
}

// ===================================================================== the metadata containers after a write
pub open spec fn olst(o: Option<Seq<u8>>, s: int) -> Seq<At> { match o { None => Seq::empty(), Some(b) => lst(b, s) } }
/// `y` is the content of the metadata atom afterwards
pub open spec fn meta_rel(o: Option<Seq<u8>>, y: Seq<u8>, t: Seq<ItemS>) -> bool {
    kids(y, 4) is Some && lst(y, 4) == set_ilst(olst(o, 4), t) && y.take(4) == (match o { None => zeros(4), Some(b) => b.take(4) })
}
/// `y` is the content of the user data atom afterwards, with the metadata `x`
pub open spec fn udta_rel(o: Option<Seq<u8>>, y: Seq<u8>, x: Seq<u8>, t: Seq<ItemS>) -> bool {
    meta_rel(child(o, 0, f_meta()), x, t) && kids(y, 0) is Some && lst(y, 0) == set_last(olst(o, 0), f_meta(), x)
}
/// `y` is the content of the movie atom afterwards, with the user data `u`, with the metadata `x`
pub open spec fn moov_rel(b: Seq<u8>, y: Seq<u8>, u: Seq<u8>, x: Seq<u8>, t: Seq<ItemS>) -> bool {
    udta_rel(child(Some(b), 0, f_udta()), u, x, t) && kids(y, 0) is Some && lst(y, 0) == set_last(lst(b, 0), f_udta(), u)
}
pub proof fn lemma_new_meta_rel(t: Seq<ItemS>)
    requires storable(t)
    ensures meta_rel(None, dump_meta(t), t), dump_meta(t).len() <= ser_items(t).len() + 80
{
    crate::rt::lemma_meta_c(t);
    let e = Seq::<At>::empty();
    assert(set_ilst(e, t) =~= seq![mkat(f_hdlr(), hdlr_bytes()), mkat(f_ilst(), ser_items(t))]);
    assert(dump_meta(t).take(4) =~= zeros(4));
}
pub proof fn lemma_new_udta_rel(t: Seq<ItemS>)
    requires storable(t)
    ensures udta_rel(None, new_meta(t), dump_meta(t), t), new_meta(t) == bx(f_meta(), dump_meta(t)), new_meta(t).len() <= ser_items(t).len() + 100
{
    lemma_new_meta_rel(t);
    let e = Seq::<At>::empty();
    assert(new_meta(t) == bx(f_meta(), dump_meta(t)));
    lemma_bx(f_meta(), dump_meta(t));
    crate::rt::lemma_one(f_meta(), dump_meta(t));
    assert(set_last(e, f_meta(), dump_meta(t)) =~= seq![mkat(f_meta(), dump_meta(t))]);
}
/// a new handler and item list inside the metadata
pub proof fn lemma_meta_level(b: Seq<u8>, t: Seq<ItemS>)
    requires storable(t), kids(b, 4) is Some
    ensures ({
        let ks = kids(b, 4)->Some_0;
        let i = lidx(ks, f_ilst());
        let p = if lidx(ks, f_hdlr()) >= 0 { new_ilst(t) } else { new_hdlr() + new_ilst(t) };
        let st = if i >= 0 { ks[i].off } else { b.len() as int };
        let en = if i >= 0 { kend(ks[i]) } else { b.len() as int };
        let y = redone(b, Seq::empty(), st, en, p, p.len() - (en - st));
        meta_rel(Some(b), y, t) && 0 <= st <= en <= b.len() && y.len() == b.len() + p.len() - (en - st)
    }),
{
    let ks = kids(b, 4)->Some_0;
    let i = lidx(ks, f_ilst());
    let hd = lidx(ks, f_hdlr()) >= 0;
    let p = if hd { new_ilst(t) } else { new_hdlr() + new_ilst(t) };
    lemma_lidx(b, ks, f_ilst());
    lemma_aidx_lidx(b, ks, f_ilst());
    lemma_aidx_lidx(b, ks, f_hdlr());
    let l = lst(b, 4);
    crate::rt::lemma_one(f_ilst(), ser_items(t));
    crate::rt::lemma_one(f_hdlr(), hdlr_bytes());
    if !hd { lemma_push(new_hdlr(), 0, f_ilst(), ser_items(t)); }
    assert(kids(p, 0) is Some && lst(p, 0) =~= new_list(l, t));
    lemma_ordered(b, 4);
    if i >= 0 {
        lemma_split_kids(b, 4, i);
        lemma_split_kids(b, 4, i + 1);
        lemma_splice(b, 4, i, i + 1, p);
        assert(b.take(ks[i].off) =~= patched(b, Seq::<Upd>::empty(), 0).take(ks[i].off));
    } else {
        let n = ks.len() as int;
        lemma_splice(b, 4, n, n, p);
        assert(l.take(n) =~= l);
        assert(l.skip(n) =~= Seq::<At>::empty());
        assert(l + lst(p, 0) + l.skip(n) =~= set_ilst(l, t));
    }
}
/// an atom added at the end
pub proof fn lemma_append(b: Seq<u8>, f: Fourcc, c: Seq<u8>)
    requires kids(b, 0) is Some, aidx(lst(b, 0), f) < 0, c.len() + 16 <= i64::MAX
    ensures ({
        let n = b.len() as int;
        let y = redone(b, Seq::empty(), n, n, bx(f, c), bx(f, c).len() as int);
        kids(y, 0) is Some && lst(y, 0) == set_last(lst(b, 0), f, c) && y.len() == b.len() + bx(f, c).len()
    }),
{
    let n = b.len() as int;
    lemma_push(b, 0, f, c);
    assert(redone(b, Seq::empty(), n, n, bx(f, c), bx(f, c).len() as int) =~= b + bx(f, c));
}
/// an atom the content of which changes
pub proof fn lemma_level(b: Seq<u8>, f: Fourcc, y: Seq<u8>, df: int)
    requires ({
        let ks = kids(b, 0)->Some_0;
        let i = lidx(ks, f);
        &&& kids(b, 0) is Some && i >= 0
        &&& y.len() == clen(ks[i].head.size) + df
        &&& ks[i].head.size.len + df <= i64::MAX && (!ks[i].head.size.ext ==> ks[i].head.size.len + df <= u32::MAX)
    }),
    ensures ({
        let k = kids(b, 0)->Some_0[lidx(kids(b, 0)->Some_0, f)];
        let z = nested(b, k, y, df);
        kids(z, 0) is Some && lst(z, 0) == set_last(lst(b, 0), f, y) && z.len() == b.len() + df
    }),
{
    let ks = kids(b, 0)->Some_0;
    let i = lidx(ks, f);
    lemma_lidx(b, ks, f);
    lemma_aidx_lidx(b, ks, f);
    lemma_within(b, 0);
    assert(szf(ks[i].head.size));
    let s = resize(ks[i].head.size, df);
    assert(s.len == ks[i].head.size.len + df);
    assert(szf(s));
    lemma_nested(b, 0, i, y, df);
    assert(lst(b, 0)[i] == kat(b, ks[i]));
}
// --------------------------------------------------------------------- everything remains readable
pub proof fn lemma_meta_wf(o: Option<Seq<u8>>, y: Seq<u8>, t: Seq<ItemS>)
    requires meta_rel(o, y, t), storable(t), match o { None => true, Some(b) => Meta::wf(b) }
    ensures Meta::wf(y), child(Some(y), 4, f_ilst()) == Some(ser_items(t)), child(Some(y), 4, f_hdlr()) is Some
{
    let l = olst(o, 4);
    lemma_ser_items(t);
    if o is Some { lemma_lwf::<Ilst<'_>>(o->Some_0, 4, f_ilst()); lemma_within(o->Some_0, 4); assert(y.take(4)[0] == o->Some_0.take(4)[0]); }
    lemma_lwf_ilst(l, t);
    lemma_lwf::<Ilst<'_>>(y, 4, f_ilst());
    lemma_set_ilst(l, t);
    lemma_ats(y, kids(y, 4)->Some_0);
    lemma_aidx(lst(y, 4), f_hdlr());
    assert(y.take(4).len() == 4);
    assert(y.take(4)[0] == y[0]);
}
pub proof fn lemma_udta_wf(o: Option<Seq<u8>>, y: Seq<u8>, x: Seq<u8>, t: Seq<ItemS>)
    requires udta_rel(o, y, x, t), storable(t), match o { None => true, Some(b) => Udta::wf(b) }
    ensures Udta::wf(y), child(Some(y), 0, f_meta()) == Some(x), Meta::wf(x), child(Some(x), 4, f_ilst()) == Some(ser_items(t)), child(Some(x), 4, f_hdlr()) is Some
{
    let l = olst(o, 0);
    if o is Some {
        let b = o->Some_0;
        lemma_lwf::<Meta<'_>>(b, 0, f_meta());
        lemma_lidx(b, kids(b, 0)->Some_0, f_meta());
    }
    lemma_meta_wf(child(o, 0, f_meta()), x, t);
    lemma_lwf_set::<Meta<'_>>(l, f_meta(), x, f_meta());
    lemma_lwf::<Meta<'_>>(y, 0, f_meta());
    lemma_set_last(l, f_meta(), x);
    lemma_ats(y, kids(y, 0)->Some_0);
}
pub proof fn lemma_moov_wf(b: Seq<u8>, y: Seq<u8>, u: Seq<u8>, x: Seq<u8>, t: Seq<ItemS>)
    requires moov_rel(b, y, u, x, t), storable(t), Moov::wf(b)
    ensures
        Moov::wf(y), items_of(y) == t, //@P01 //@P05
        child(Some(y), 0, f_mvhd()) == child(Some(b), 0, f_mvhd()), trak_bodies(y) == trak_bodies(b), //@P01
        child(Some(y), 0, f_udta()) == Some(u), child(Some(u), 0, f_meta()) == Some(x), child(Some(x), 4, f_ilst()) == Some(ser_items(t)), child(Some(x), 4, f_hdlr()) is Some, //@P05
{
    let l = lst(b, 0);
    let ks = kids(b, 0)->Some_0;
    crate::aj::lemma_fourccs();
    lemma_lidx(b, ks, f_udta());
    lemma_udta_wf(child(Some(b), 0, f_udta()), u, x, t);
    lemma_lwf::<Udta<'_>>(b, 0, f_udta());
    lemma_lwf::<Mvhd>(b, 0, f_mvhd());
    lemma_lwf::<Trak>(b, 0, f_trak());
    lemma_lwf_set::<Udta<'_>>(l, f_udta(), u, f_udta());
    lemma_lwf_set::<Mvhd>(l, f_udta(), u, f_mvhd());
    lemma_lwf_set::<Trak>(l, f_udta(), u, f_trak());
    lemma_lwf::<Udta<'_>>(y, 0, f_udta());
    lemma_lwf::<Mvhd>(y, 0, f_mvhd());
    lemma_lwf::<Trak>(y, 0, f_trak());
    lemma_set_last(l, f_udta(), u);
    lemma_ats(y, kids(y, 0)->Some_0);
    lemma_ats(b, ks);
    assert(allc(set_last(l, f_udta(), u), f_trak()) == allc(l, f_trak()));
    assert(bodies(y, kids(y, 0)->Some_0, f_trak()) == bodies(b, ks, f_trak()));
    lemma_ser_items(t);
}
} // mod rs
