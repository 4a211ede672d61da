=== prelude
pub mod wr {
use vstd::prelude::*;
use vstd::utf8::*;
use crate::vp::*;
use crate::vs::*;
use crate::ds::*;
use crate::hs::*;
use crate::ks::*;
use crate::pl::*;
use crate::sr::*;
use crate::fd::*;
use crate::fl::*;
use crate::dp::*;
use crate::ls::*;
use crate::st::*;
use crate::sp::*;
use crate::nt::*;
use crate::tl::*;
use crate::aj::*;
use crate::rs::*;
use crate::wt::*;
use crate::types::*;
use crate::atom::{ParseAtom, FindAtom};
use crate::atom::head::*;
use crate::atom::ident::*;
use crate::atom::moov::*;
use crate::atom::udta::*;
use crate::atom::meta::*;
use crate::atom::ilst::*;
use crate::atom::hdlr::*;
use crate::atom::trak::*;
use crate::atom::stco::*;
use crate::atom::co64::*;
use crate::atom::meta::hdlr_bytes;
broadcast use crate::vp::group_vp;

// ===================================================================== the steps of a write, as a whole
pub open spec fn fits_up(us: Seq<Upd>, df: int) -> bool { forall|i: int| 0 <= i < us.len() ==> (!(#[trigger] us[i]).size.ext ==> us[i].size.len + df <= u32::MAX) }
/// the resulting sizes fit
pub open spec fn sizes_ok(d: Seq<u8>, m: MoovBounds, t: Seq<ItemS>) -> bool {
    d.len() + ser_items(t).len() + 1000 < lim() && fits_up(upds(m), len_diff(m, t))
}
pub proof fn lemma_new_part(m: MoovBounds, t: Seq<ItemS>)
    requires storable(t)
    ensures new_part(m, t).len() <= ser_items(t).len() + 200
{
    lemma_bx(f_hdlr(), hdlr_bytes());
    lemma_bx(f_ilst(), ser_items(t));
    lemma_new_udta_rel(t);
    lemma_bx(f_udta(), new_meta(t));
}
/// atoms inside of the metadata
pub open spec fn in_udta(m: MoovBounds) -> Seq<Upd> { match meta_in(m) { None => Seq::empty(), Some(x) => seq![upd(x.bounds)] } }
pub open spec fn in_moov(m: MoovBounds) -> Seq<Upd> { match m.udta { None => Seq::empty(), Some(u) => seq![upd(u.bounds)] + in_udta(m) } }
/// the part that is replaced lies within the content at `p`
pub open spec fn holds(b: Seq<u8>, p: int, us: Seq<Upd>, m: MoovBounds) -> bool { 0 <= old_start(m) - p <= old_end(m) - p <= b.len() && upds_ok(ushift(us, -p), old_start(m) - p) }
pub proof fn lemma_in_meta(m: MoovBounds, x: MetaBounds, d: Seq<u8>, p: int, size: Size, t: Seq<ItemS>) -> (y: Seq<u8>)
    requires
        meta_in(m) == Some(x), Meta::at(x, d, p, size), 0 <= p, 0 <= clen(size), p + clen(size) <= d.len(),
        kids(part(d, p, size), 4) is Some, storable(t),
    ensures
        y == redone(part(d, p, size), Seq::empty(), old_start(m) - p, old_end(m) - p, new_part(m, t), len_diff(m, t)),
        meta_rel(Some(part(d, p, size)), y, t), y.len() == clen(size) + len_diff(m, t),
        holds(part(d, p, size), p, Seq::empty(), m),
{
    let b = part(d, p, size);
    let ks = kids(b, 4)->Some_0;
    let i = lidx(ks, f_ilst());
    lemma_lidx(b, ks, f_ilst());
    lemma_lidx(b, ks, f_hdlr());
    lemma_within(b, 4);
    lemma_meta_level(b, t);
    assert((x.ilst is Some) == (i >= 0));
    assert((x.hdlr is Some) == (lidx(ks, f_hdlr()) >= 0));
    if i >= 0 {
        assert(kid_at::<Ilst<'_>>(x.ilst->Some_0, d, p, ks[i]));
        assert(x.ilst->Some_0.bounds.pos == p + ks[i].off);
    }
    assert(bend(x.bounds) == p + clen(size));
    let st = if i >= 0 { ks[i].off } else { b.len() as int };
    let en = if i >= 0 { kend(ks[i]) } else { b.len() as int };
    assert(st == old_start(m) - p && en == old_end(m) - p);
    redone(b, Seq::empty(), st, en, new_part(m, t), len_diff(m, t))
}
pub proof fn lemma_in_udta(m: MoovBounds, u: UdtaBounds, d: Seq<u8>, p: int, size: Size, t: Seq<ItemS>) -> (r: (Seq<u8>, Seq<u8>))
    requires
        m.udta == Some(u), Udta::at(u, d, p, size), 0 <= p, 0 <= clen(size), p + clen(size) <= d.len(),
        Udta::wf(part(d, p, size)), storable(t), sizes_ok(d, m, t),
    ensures
        r.0 == redone(part(d, p, size), ushift(in_udta(m), -p), old_start(m) - p, old_end(m) - p, new_part(m, t), len_diff(m, t)),
        udta_rel(Some(part(d, p, size)), r.0, r.1, t), r.0.len() == clen(size) + len_diff(m, t),
        holds(part(d, p, size), p, in_udta(m), m),
{
    let b = part(d, p, size);
    let ks = kids(b, 0)->Some_0;
    let i = lidx(ks, f_meta());
    let st = old_start(m);
    let en = old_end(m);
    let np = new_part(m, t);
    let df = len_diff(m, t);
    lemma_lidx(b, ks, f_meta());
    lemma_aidx_lidx(b, ks, f_meta());
    lemma_within(b, 0);
    lemma_heads(b, 0);
    lemma_new_part(m, t);
    assert((u.meta is Some) == (i >= 0));
    let us = ushift(in_udta(m), -p);
    if i < 0 {
        assert(us =~= Seq::<Upd>::empty());
        assert(bend(u.bounds) == p + clen(size));
        lemma_new_udta_rel(t);
        lemma_new_meta_rel(t);
        lemma_append(b, f_meta(), dump_meta(t));
        (redone(b, us, st - p, en - p, np, df), dump_meta(t))
    } else {
        let k = ks[i];
        let x = u.meta->Some_0;
        assert(kid_at::<Meta<'_>>(x, d, p, k));
        assert(x.bounds.pos == p + k.off && x.bounds.size == k.head.size);
        assert(part(d, p + kbeg(k), k.head.size) =~= body(b, k));
        assert(Meta::wf(body(b, k)));
        let y = lemma_in_meta(m, x, d, p + kbeg(k), k.head.size, t);
        assert(us =~= seq![Upd { pos: k.off, size: k.head.size }] + ushift(Seq::empty(), kbeg(k)));
        assert(upds(m)[2] == upd(x.bounds));
        assert(upd_fits(Upd { pos: k.off, size: k.head.size }, df));
        assert(st - p == kbeg(k) + (st - (p + kbeg(k))));
        lemma_redone(b, k, Seq::empty(), st - (p + kbeg(k)), en - (p + kbeg(k)), np, df);
        lemma_level(b, f_meta(), y, df);
        (redone(b, us, st - p, en - p, np, df), y)
    }
}
/// where the user data is
proof fn lemma_udta_at(m: MoovBounds, d: Seq<u8>, p: int, size: Size, c: Seq<u8>)
    requires
        Moov::at(m, d, p, size), 0 <= p, 0 <= clen(size), p + clen(size) <= d.len(), c.len() == clen(size),
        Moov::wf(c), kids(c, 0) == kids(part(d, p, size), 0),
        forall|i: int| 0 <= i < kids(c, 0)->Some_0.len() && (#[trigger] kids(c, 0)->Some_0[i]).head.fourcc != f_trak() ==> body(c, kids(c, 0)->Some_0[i]) == body(part(d, p, size), kids(c, 0)->Some_0[i]),
    ensures
        m.bounds.pos == p - hlen(size) && m.bounds.size == size,
        kids(c, 0) is Some, aidx(lst(c, 0), f_udta()) == lidx(kids(c, 0)->Some_0, f_udta()),
        child(Some(c), 0, f_udta()) is Some == m.udta is Some,
        m.udta is None ==> lidx(kids(c, 0)->Some_0, f_udta()) < 0,
        match m.udta { None => true, Some(u) => ({
            let i = lidx(kids(c, 0)->Some_0, f_udta());
            let k = kids(c, 0)->Some_0[i];
            let q = p + kbeg(k);
            &&& 0 <= i < kids(c, 0)->Some_0.len()
            &&& Udta::at(u, d, q, k.head.size) && u.bounds.pos == p + k.off && u.bounds.size == k.head.size
            &&& part(d, q, k.head.size) == body(c, k) && Udta::wf(body(c, k)) && child(Some(c), 0, f_udta()) == Some(body(c, k))
            &&& 0 <= k.off && kend(k) <= c.len() && szf(k.head.size) && head_at(c, k.off) == Some(k.head)
        }) },
{
    let b = part(d, p, size);
    let ks = kids(b, 0)->Some_0;
    let i = lidx(ks, f_udta());
    lemma_lidx(b, ks, f_udta());
    lemma_lidx(c, ks, f_udta());
    lemma_aidx_lidx(c, ks, f_udta());
    lemma_within(c, 0);
    lemma_heads(c, 0);
    lemma_fourccs();
    assert((m.udta is Some) == (i >= 0));
    if i >= 0 {
        let k = ks[i];
        let u = m.udta->Some_0;
        let q = p + kbeg(k);
        assert(kid_at::<Udta<'_>>(u, d, p, k));
        assert(part(d, q, k.head.size) =~= body(b, k));
        assert(body(c, k) == body(b, k));
        assert(Udta::wf(body(c, k)));
    }
}
/// `c` is the content of the movie atom, with adjusted tables
pub proof fn lemma_in_moov(m: MoovBounds, d: Seq<u8>, p: int, size: Size, c: Seq<u8>, t: Seq<ItemS>) -> (r: (Seq<u8>, Seq<u8>, Seq<u8>))
    requires
        Moov::at(m, d, p, size), 0 <= p, 0 <= clen(size), p + clen(size) <= d.len(), c.len() == clen(size),
        Moov::wf(c), kids(c, 0) == kids(part(d, p, size), 0), storable(t), sizes_ok(d, m, t),
        forall|i: int| 0 <= i < kids(c, 0)->Some_0.len() && (#[trigger] kids(c, 0)->Some_0[i]).head.fourcc != f_trak() ==> body(c, kids(c, 0)->Some_0[i]) == body(part(d, p, size), kids(c, 0)->Some_0[i]),
    ensures
        r.0 == redone(c, ushift(in_moov(m), -p), old_start(m) - p, old_end(m) - p, new_part(m, t), len_diff(m, t)),
        moov_rel(c, r.0, r.1, r.2, t), r.0.len() == clen(size) + len_diff(m, t),
        holds(c, p, in_moov(m), m),
{
    hide(<Moov<'_> as ParseAtom>::wf);
    hide(<Moov<'_> as FindAtom>::at);
    lemma_udta_at(m, d, p, size, c);
    let ks = kids(c, 0)->Some_0;
    let i = lidx(ks, f_udta());
    let st = old_start(m);
    let en = old_end(m);
    let np = new_part(m, t);
    let df = len_diff(m, t);
    lemma_new_part(m, t);
    let us = ushift(in_moov(m), -p);
    if m.udta is None {
        assert(us =~= Seq::<Upd>::empty());
        assert(bend(m.bounds) == p + clen(size));
        lemma_new_udta_rel(t);
        lemma_append(c, f_udta(), new_meta(t));
        (redone(c, us, st - p, en - p, np, df), new_meta(t), dump_meta(t))
    } else {
        let k = ks[i];
        let u = m.udta->Some_0;
        let q = p + kbeg(k);
        let (y, x) = lemma_in_udta(m, u, d, q, k.head.size, t);
        lemma_in_moov_at(m, u, d, p, c, y, x, k, t);
        (redone(c, us, st - p, en - p, np, df), y, x)
    }
}
proof fn lemma_in_moov_at(m: MoovBounds, u: UdtaBounds, d: Seq<u8>, p: int, c: Seq<u8>, y: Seq<u8>, x: Seq<u8>, k: Kid, t: Seq<ItemS>)
    requires
        0 <= p, kids(c, 0) is Some, 0 <= lidx(kids(c, 0)->Some_0, f_udta()), k == kids(c, 0)->Some_0[lidx(kids(c, 0)->Some_0, f_udta())],
        0 <= k.off && kend(k) <= c.len() && szf(k.head.size) && head_at(c, k.off) == Some(k.head),
        m.udta == Some(u), u.bounds.pos == p + k.off && u.bounds.size == k.head.size,
        child(Some(c), 0, f_udta()) == Some(body(c, k)), c.len() <= d.len(),
        y == redone(body(c, k), ushift(in_udta(m), -(p + kbeg(k))), old_start(m) - (p + kbeg(k)), old_end(m) - (p + kbeg(k)), new_part(m, t), len_diff(m, t)),
        udta_rel(Some(body(c, k)), y, x, t), y.len() == clen(k.head.size) + len_diff(m, t),
        holds(body(c, k), p + kbeg(k), in_udta(m), m), storable(t), sizes_ok(d, m, t),
    ensures
        moov_rel(c, redone(c, ushift(in_moov(m), -p), old_start(m) - p, old_end(m) - p, new_part(m, t), len_diff(m, t)), y, x, t),
        redone(c, ushift(in_moov(m), -p), old_start(m) - p, old_end(m) - p, new_part(m, t), len_diff(m, t)).len() == c.len() + len_diff(m, t),
        holds(c, p, in_moov(m), m),
{
    hide(udta_rel);
    let st = old_start(m);
    let en = old_end(m);
    let np = new_part(m, t);
    let df = len_diff(m, t);
    let q = p + kbeg(k);
    let us = ushift(in_moov(m), -p);
    let rel = ushift(in_udta(m), -q);
    lemma_new_part(m, t);
    assert(us =~= seq![Upd { pos: k.off, size: k.head.size }] + ushift(rel, kbeg(k)));
    assert(upds(m)[1] == upd(u.bounds));
    assert(upd_fits(Upd { pos: k.off, size: k.head.size }, df));
    assert(st - p == kbeg(k) + (st - q) && en - p == kbeg(k) + (en - q));
    lemma_redone(c, k, rel, st - q, en - q, np, df);
    lemma_level(c, f_udta(), y, df);
    assert(upds_ok(us, st - p)) by {
        assert forall|j: int| 0 <= j < us.len() implies 0 <= (#[trigger] us[j]).pos && us[j].pos + hlen(us[j].size) <= st - p by {
            if j > 0 { assert(rel[j - 1].pos + kbeg(k) == us[j].pos && rel[j - 1].size == us[j].size); }
        }
    }
}

// ===================================================================== what a write guarantees
/// a well-formed file with one movie, in which all chunk offset tables are usable
pub open spec fn good_file(d: Seq<u8>) -> bool {
    file_wf(d) && last_kid(kids(d, 0)->Some_0, f_moov()) == first_kid(kids(d, 0)->Some_0, f_moov()) && tw(7, d)
}
/// the movie and the last media data were found
pub open spec fn found(d: Seq<u8>, m: MoovBounds, q: int) -> bool {
    moov_at(d, m) && match last_kid(kids(d, 0)->Some_0, f_mdat()) { None => q == 0, Some(k) => q == k.off }
}
/// chunk offsets from here on are moved
pub open spec fn moved_from(m: MoovBounds, q: int) -> int { if q > m.bounds.pos { old_end(m) } else { u64::MAX + 1 } }
pub open spec fn moov_kid(d: Seq<u8>) -> Kid { last_kid(kids(d, 0)->Some_0, f_moov())->Some_0 }
/// everything can be read as before, besides the items
pub open spec fn readable(d: Seq<u8>, r: Seq<u8>, t: Seq<ItemS>) -> bool {
    file_wf(r) && ftyp_of(r) == ftyp_of(d) && items_of(moov_of(r)) == t && same_info(moov_of(d), moov_of(r))
}
pub open spec fn same_info(a: Seq<u8>, b: Seq<u8>) -> bool { forall|i: AudioInfo| #[trigger] info_is(i, b) == info_is(i, a) }
pub ghost struct Wit { pub c: Seq<u8>, pub y: Seq<u8>, pub u: Seq<u8>, pub x: Seq<u8>, pub en: int, pub df: int }
/// all atoms are as before, besides the tables and the item list
pub open spec fn kept(d: Seq<u8>, r: Seq<u8>, t: Seq<ItemS>, g: Wit) -> bool {
    &&& kids(r, 0) is Some && lst(r, 0) == set_last(lst(d, 0), f_moov(), g.y)
    &&& mvr(6, body(d, moov_kid(d)), g.c, g.en, g.df) && moov_rel(g.c, g.y, g.u, g.x, t)
    &&& r.len() == d.len() + g.df && kend(moov_kid(d)) + g.df >= moov_kid(d).off + 8
    &&& r.take(moov_kid(d).off) == d.take(moov_kid(d).off) && r.skip(kend(moov_kid(d)) + g.df) == d.skip(kend(moov_kid(d)))
}
/// a position in the media data
pub open spec fn in_media(d: Seq<u8>, e: int) -> bool {
    exists|i: int| 0 <= i < kids(d, 0)->Some_0.len() && (#[trigger] kids(d, 0)->Some_0[i]).head.fourcc == f_mdat() && kbeg(kids(d, 0)->Some_0[i]) <= e < kend(kids(d, 0)->Some_0[i])
}
pub open spec fn moved_to(e: int, en: int, df: int) -> int { if e >= en { e + df } else { e } }
/// media data is found where it has been moved to
pub open spec fn pointed(d: Seq<u8>, r: Seq<u8>, en: int, df: int) -> bool {
    forall|e: int| #[trigger] in_media(d, e) ==> 0 <= moved_to(e, en, df) < r.len() && r[moved_to(e, en, df)] == d[e]
}
proof fn lemma_first_idx(ks: Seq<Kid>, f: Fourcc) -> (j: int)
    requires first_kid(ks, f) is Some
    ensures 0 <= j < ks.len(), first_kid(ks, f) == Some(ks[j]), ks[j].head.fourcc == f, forall|i: int| 0 <= i < j ==> (#[trigger] ks[i]).head.fourcc != f
    decreases ks.len()
{
    if ks[0].head.fourcc == f { 0 } else {
        let j = lemma_first_idx(ks.skip(1), f);
        assert forall|i: int| 0 <= i < j + 1 implies (#[trigger] ks[i]).head.fourcc != f by { if i > 0 { assert(ks.skip(1)[i - 1] == ks[i]); } }
        j + 1
    }
}
proof fn lemma_firstc_at(l: Seq<At>, i: int, f: Fourcc)
    requires 0 <= i < l.len(), l[i].f == f, forall|j: int| 0 <= j < i ==> (#[trigger] l[j]).f != f
    ensures firstc(l, f) == Some(l[i].c)
    decreases l.len()
{
    if i > 0 {
        assert(l[0].f != f);
        assert forall|j: int| 0 <= j < i - 1 implies (#[trigger] l.skip(1)[j]).f != f by { assert(l[j + 1] == l.skip(1)[j]); }
        assert(l.skip(1)[i - 1] == l[i]);
        lemma_firstc_at(l.skip(1), i - 1, f);
    }
}
/// there is one movie
proof fn lemma_one_moov(d: Seq<u8>)
    requires good_file(d)
    ensures ({
        let ks = kids(d, 0)->Some_0;
        let i = lidx(ks, f_moov());
        &&& 0 < i < ks.len() && ks[i] == moov_kid(d) && ks[i].head.fourcc == f_moov() && moov_of(d) == body(d, ks[i])
        &&& forall|j: int| 0 <= j < ks.len() && j != i ==> (#[trigger] ks[j]).head.fourcc != f_moov()
        &&& 0 <= ks[i].off && kend(ks[i]) <= d.len() && szf(ks[i].head.size) && head_at(d, ks[i].off) == Some(ks[i].head)
    }),
{
    let ks = kids(d, 0)->Some_0;
    lemma_lidx(d, ks, f_moov());
    lemma_ordered(d, 0);
    lemma_heads(d, 0);
    lemma_fourccs();
    let j = lemma_first_idx(ks, f_moov());
    let i = lidx(ks, f_moov());
    if j < i { assert(kend(ks[j]) <= ks[i].off); }
    assert(j == i);
}
/// the file after the tables were adjusted
proof fn lemma_tables_done(d: Seq<u8>, m: MoovBounds, q: int, v: Seq<Stco>, w: Seq<Co64>, df: int) -> (a: Seq<u8>)
    requires good_file(d), found(d, m, q), tables(m, q, v, w, d)
    ensures
        a == put64(put32(d, v, old_end(m), df), w, old_end(m), df), a.len() == d.len(),
        mvr(7, d, a, moved_from(m, q), df),
        a.take(moov_kid(d).off) == d.take(moov_kid(d).off), a.skip(kend(moov_kid(d))) == d.skip(kend(moov_kid(d))),
{
    let en = old_end(m);
    let a = put64(put32(d, v, en, df), w, en, df);
    lemma_one_moov(d);
    if q > m.bounds.pos {
        lemma_adjusted(d, m, v, w, en, df);
        lemma_mvr(7, d, a, en, df);
        let k = moov_kid(d);
        let ks = kids(d, 0)->Some_0;
        assert forall|x: int| 0 <= x < d.len() && (x < k.off || x >= kend(k)) implies #[trigger] a[x] == d[x] by {
            lemma_kid_in(ks, x);
            assert(tab_at(7, d, x) is None);
        }
        assert(a.take(k.off) =~= d.take(k.off));
        assert(a.skip(kend(k)) =~= d.skip(kend(k)));
    } else {
        assert(a == d);
        lemma_mvr_same(7, d, moved_from(m, q), df);
    }
    a
}
/// the movie atom before and after the tables were adjusted
proof fn lemma_movie(d: Seq<u8>, a: Seq<u8>, en: int, df: int)
    requires good_file(d), mvr(7, d, a, en, df)
    ensures
        kids(a, 0) == kids(d, 0),
        mvr(6, body(d, moov_kid(d)), body(a, moov_kid(d)), en, df),
        lst(a, 0) == lst(d, 0).update(lidx(kids(d, 0)->Some_0, f_moov()), kat(a, moov_kid(d))),
{
    let ks = kids(d, 0)->Some_0;
    let i = lidx(ks, f_moov());
    lemma_one_moov(d);
    assert(next(7, ks, i) == 6);
    assert(mvr(6, body(d, ks[i]), body(a, ks[i]), en, df));
    assert(lst(a, 0) =~= lst(d, 0).update(i, kat(a, ks[i]))) by {
        assert forall|j: int| 0 <= j < ks.len() && j != i implies kat(a, #[trigger] ks[j]) == kat(d, ks[j]) by { assert(next(7, ks, j) == -1); }
    }
}
/// the whole write
pub proof fn lemma_kept(d: Seq<u8>, m: MoovBounds, q: int, v: Seq<Stco>, w: Seq<Co64>, t: Seq<ItemS>) -> (g: Wit)
    requires good_file(d), found(d, m, q), tables(m, q, v, w, d), storable(t), sizes_ok(d, m, t)
    ensures kept(d, outcome(d, m, v, w, t), t, g), g.en == moved_from(m, q), g.df == len_diff(m, t), Moov::wf(g.c), //@P03 //@P05
        moov_kid(d).off <= old_end(m) <= kend(moov_kid(d)),
{
    let df = len_diff(m, t);
    let en = moved_from(m, q);
    let k = moov_kid(d);
    let a = lemma_tables_done(d, m, q, v, w, df);
    let c = body(a, k);
    let b = body(d, k);
    let p = kbeg(k);
    let us = upds(m);
    let st = old_start(m);
    let oe = old_end(m);
    let np = new_part(m, t);
    lemma_one_moov(d);
    lemma_movie(d, a, en, df);
    lemma_moov(b, c, en, df);
    assert(kid_at::<Moov<'_>>(m, d, 0, k));
    assert(part(d, p, k.head.size) =~= b);
    let (y, u, x) = lemma_in_moov(m, d, p, k.head.size, c, t);
    lemma_outer(d, a, m, k, y, t);
    let r = outcome(d, m, v, w, t);
    assert(r == redone(a, us, st, oe, np, df));
    assert(lst(r, 0) =~= set_last(lst(d, 0), f_moov(), y)) by {
        let i = lidx(kids(d, 0)->Some_0, f_moov());
        lemma_aidx_lidx(d, kids(d, 0)->Some_0, f_moov());
        lemma_aidx_lidx(a, kids(d, 0)->Some_0, f_moov());
        assert(lst(d, 0)[i] == kat(d, k));
        assert(lst(a, 0)[i] == kat(a, k));
    }
    assert(r.take(k.off) == d.take(k.off));
    Wit { c, y, u, x, en, df }
}
proof fn lemma_outer(d: Seq<u8>, a: Seq<u8>, m: MoovBounds, k: Kid, y: Seq<u8>, t: Seq<ItemS>)
    requires
        0 <= k.off && kend(k) <= d.len() && szf(k.head.size) && head_at(d, k.off) == Some(k.head),
        kids(d, 0) is Some, kids(a, 0) == kids(d, 0), a.len() == d.len(), 0 <= lidx(kids(d, 0)->Some_0, f_moov()), k == kids(d, 0)->Some_0[lidx(kids(d, 0)->Some_0, f_moov())],
        m.bounds.pos == k.off, m.bounds.size == k.head.size,
        a.take(k.off) == d.take(k.off), a.skip(kend(k)) == d.skip(kend(k)),
        y == redone(body(a, k), ushift(in_moov(m), -kbeg(k)), old_start(m) - kbeg(k), old_end(m) - kbeg(k), new_part(m, t), len_diff(m, t)),
        y.len() == clen(k.head.size) + len_diff(m, t), holds(body(a, k), kbeg(k), in_moov(m), m), storable(t), sizes_ok(d, m, t),
    ensures ({
        let df = len_diff(m, t);
        let r = redone(a, upds(m), old_start(m), old_end(m), new_part(m, t), df);
        &&& kids(r, 0) is Some && lst(r, 0) == set_last(lst(a, 0), f_moov(), y)
        &&& r.len() == d.len() + df && kend(k) + df >= k.off + 8
        &&& r.take(k.off) == d.take(k.off) && r.skip(kend(k) + df) == d.skip(kend(k))
    }),
{
    let df = len_diff(m, t);
    let st = old_start(m);
    let en = old_end(m);
    let np = new_part(m, t);
    let q = kbeg(k);
    let us = upds(m);
    let rel = ushift(in_moov(m), -q);
    let r = redone(a, us, st, en, np, df);
    lemma_new_part(m, t);
    lemma_heads(a, 0);
    assert(us =~= seq![Upd { pos: k.off, size: k.head.size }] + ushift(rel, q));
    assert(us[0] == upd(m.bounds));
    assert(upd_fits(Upd { pos: k.off, size: k.head.size }, df));
    lemma_lidx(d, kids(d, 0)->Some_0, f_moov());
    assert(kids(a, 0)->Some_0[lidx(kids(d, 0)->Some_0, f_moov())] == k);
    assert(head_at(a, k.off) == Some(k.head));
    lemma_redone(a, k, rel, st - q, en - q, np, df);
    lemma_level(a, f_moov(), y, df);
    let h = ser_head(Head { size: resize(k.head.size, df), fourcc: k.head.fourcc });
    assert(h.len() == hlen(k.head.size)) by { assert(k.head.fourcc.0@.len() == 4); }
    assert(r == a.take(k.off) + (h + y) + a.skip(kend(k)));
    assert(r.take(k.off) =~= a.take(k.off));
    assert(r.skip(kend(k) + df) =~= a.skip(kend(k)));
}
pub proof fn lemma_readable(d: Seq<u8>, r: Seq<u8>, t: Seq<ItemS>, g: Wit)
    requires good_file(d), kept(d, r, t, g), storable(t), Moov::wf(g.c)
    ensures
        readable(d, r, t), //@P01
        moov_of(r) == g.y, Moov::wf(g.y), trak_bodies(g.y) == trak_bodies(g.c), //@P03
        child(Some(g.y), 0, f_udta()) == Some(g.u), child(Some(g.u), 0, f_meta()) == Some(g.x), child(Some(g.x), 4, f_ilst()) == Some(ser_items(t)), child(Some(g.x), 4, f_hdlr()) is Some, //@P05
{
    let ks = kids(d, 0)->Some_0;
    let kr = kids(r, 0)->Some_0;
    let i = lidx(ks, f_moov());
    let l = lst(d, 0);
    let lr = lst(r, 0);
    let mo = body(d, moov_kid(d));
    lemma_one_moov(d);
    lemma_fourccs();
    lemma_moov_wf(g.c, g.y, g.u, g.x, t);
    lemma_moov(mo, g.c, g.en, g.df);
    lemma_aidx_lidx(d, ks, f_moov());
    assert(l[i] == kat(d, ks[i]));
    assert forall|j: int| 0 <= j < i implies (#[trigger] lr[j]).f != f_moov() by { assert(lr[j] == l[j]); assert(l[j] == kat(d, ks[j])); }
    lemma_firstc_at(lr, i, f_moov());
    lemma_firstc(r, kr, f_moov());
    assert(moov_of(r) == g.y);
    assert(lr[0] == l[0]);
    assert(lr[0] == kat(r, kr[0]));
    assert(l[0] == kat(d, ks[0]));
    assert(same_info(mo, g.y)) by {
        assert forall|i: AudioInfo| #[trigger] info_is(i, g.y) == info_is(i, mo) by {
            assert(bodies(g.y, kids(g.y, 0)->Some_0, f_trak()) == trak_bodies(g.y));
            assert(bodies(mo, kids(mo, 0)->Some_0, f_trak()) == trak_bodies(mo));
        }
    }
}
pub proof fn lemma_pointed(d: Seq<u8>, m: MoovBounds, q: int, r: Seq<u8>, t: Seq<ItemS>, g: Wit)
    requires good_file(d), found(d, m, q), kept(d, r, t, g), g.en == moved_from(m, q), moov_kid(d).off <= old_end(m) <= kend(moov_kid(d))
    ensures pointed(d, r, g.en, g.df) //@P04
{
    let ks = kids(d, 0)->Some_0;
    let k = moov_kid(d);
    let i = lidx(ks, f_moov());
    let j = lidx(ks, f_mdat());
    let df = g.df;
    lemma_one_moov(d);
    lemma_ordered(d, 0);
    lemma_lidx(d, ks, f_mdat());
    assert(kid_at::<Moov<'_>>(m, d, 0, k));
    assert(m.bounds.pos == k.off);
    assert forall|e: int| #[trigger] in_media(d, e) implies 0 <= moved_to(e, g.en, df) < r.len() && r[moved_to(e, g.en, df)] == d[e] by {
        let n = choose|n: int| 0 <= n < ks.len() && (#[trigger] ks[n]).head.fourcc == f_mdat() && kbeg(ks[n]) <= e < kend(ks[n]);
        assert(n != i) by { crate::aj::lemma_fourccs(); assert(f_mdat() != f_moov()) by { assert(f_mdat().0[1] != f_moov().0[1]); } }
        assert(n <= j);
        if n < i {
            assert(kend(ks[n]) <= ks[i].off);
            assert(e < k.off);
            assert(moved_to(e, g.en, df) == e);
            assert(r.take(k.off)[e] == d.take(k.off)[e]);
        } else {
            assert(kend(ks[i]) <= ks[n].off);
            if n < j { assert(kend(ks[n]) <= ks[j].off); }
            assert(q > m.bounds.pos);
            assert(e >= kend(k));
            assert(moved_to(e, g.en, df) == e + df);
            let o = kend(k);
            assert(r.skip(o + df)[e - o] == d.skip(o)[e - o]);
        }
    }
}
/// the resulting sizes fit 32 bits
pub open spec fn room(d: Seq<u8>, t: Seq<ItemS>) -> bool {
    d.len() + ser_items(t).len() + 1000 < lim() && moov_kid(d).head.size.len + ser_items(t).len() + 200 <= u32::MAX
}
proof fn lemma_room(d: Seq<u8>, m: MoovBounds, t: Seq<ItemS>)
    requires good_file(d), moov_at(d, m), storable(t), room(d, t), old_start(m) <= old_end(m)
    ensures sizes_ok(d, m, t)
{
    let k = moov_kid(d);
    let p = kbeg(k);
    let b = body(d, k);
    lemma_one_moov(d);
    lemma_new_part(m, t);
    assert(kid_at::<Moov<'_>>(m, d, 0, k));
    assert(part(d, p, k.head.size) =~= b);
    lemma_udta_at(m, d, p, k.head.size, b);
    let us = upds(m);
    let n = k.head.size.len as int;
    assert forall|i: int| 0 <= i < us.len() implies (#[trigger] us[i]).size.len <= n by {
        if i > 0 {
            let u = m.udta->Some_0;
            let ku = kids(b, 0)->Some_0[lidx(kids(b, 0)->Some_0, f_udta())];
            assert(u.bounds.size.len <= n);
            if i == 2 {
                let q = p + kbeg(ku);
                let c = part(d, q, ku.head.size);
                let ks = kids(c, 0)->Some_0;
                lemma_lidx(c, ks, f_meta());
                lemma_within(c, 0);
                assert(kid_at::<Meta<'_>>(u.meta->Some_0, d, q, ks[lidx(ks, f_meta())]));
            }
        }
    }
}
/// an entry of a table with 32-bit offsets before and after
pub open spec fn entry32(d: Seq<u8>, r: Seq<u8>, o: int, n: int, en: int, df: int) -> bool {
    n == moved32(o, en, df) && (in_media(d, o) && o + df <= u32::MAX ==> 0 <= n < r.len() && r[n] == d[o])
}
pub open spec fn entry64(d: Seq<u8>, r: Seq<u8>, o: int, n: int, en: int, df: int) -> bool {
    n == moved64(o, en, df) && (in_media(d, o) ==> 0 <= n < r.len() && r[n] == d[o])
}
pub open spec fn entries32(d: Seq<u8>, r: Seq<u8>, x: Option<Seq<u8>>, y: Option<Seq<u8>>, en: int, df: int) -> bool {
    match x { None => y is None, Some(x) => y is Some && y->Some_0.len() == x.len() && y->Some_0.take(8) == x.take(8)
        && forall|k: int| 0 <= k && 12 + 4 * k <= x.len() ==> entry32(d, r, be32(x.subrange(8 + 4 * k, 12 + 4 * k)), be32(#[trigger] y->Some_0.subrange(8 + 4 * k, 12 + 4 * k)), en, df)
    }
}
pub open spec fn entries64(d: Seq<u8>, r: Seq<u8>, x: Option<Seq<u8>>, y: Option<Seq<u8>>, en: int, df: int) -> bool {
    match x { None => y is None, Some(x) => y is Some && y->Some_0.len() == x.len() && y->Some_0.take(8) == x.take(8)
        && forall|k: int| 0 <= k && 16 + 8 * k <= x.len() ==> entry64(d, r, be64(x.subrange(8 + 8 * k, 16 + 8 * k)), be64(#[trigger] y->Some_0.subrange(8 + 8 * k, 16 + 8 * k)), en, df)
    }
}
pub open spec fn track_ok(d: Seq<u8>, r: Seq<u8>, x: Seq<u8>, y: Seq<u8>, en: int, df: int) -> bool {
    entries32(d, r, table(x, f_stco()), table(y, f_stco()), en, df) && entries64(d, r, table(x, f_co64()), table(y, f_co64()), en, df)
}
/// all tracks are there, and their chunk offsets refer to the same data
pub open spec fn offsets_ok(d: Seq<u8>, r: Seq<u8>, x: Seq<Seq<u8>>, y: Seq<Seq<u8>>, en: int, df: int) -> bool {
    x.len() == y.len() && forall|i: int| 0 <= i < x.len() ==> track_ok(d, r, #[trigger] x[i], y[i], en, df)
}
proof fn lemma_entry(d: Seq<u8>, r: Seq<u8>, o: int, en: int, df: int)
    requires pointed(d, r, en, df), d.len() < lim(), good_file(d), r.len() == d.len() + df, r.len() <= i64::MAX
    ensures 0 <= o <= u32::MAX ==> entry32(d, r, o, moved32(o, en, df), en, df), 0 <= o <= u64::MAX ==> entry64(d, r, o, moved64(o, en, df), en, df)
{
    if in_media(d, o) {
        let ks = kids(d, 0)->Some_0;
        lemma_within(d, 0);
        let n = choose|n: int| 0 <= n < ks.len() && (#[trigger] ks[n]).head.fourcc == f_mdat() && kbeg(ks[n]) <= o < kend(ks[n]);
        assert(kend(ks[n]) <= d.len());
        assert(0 <= moved_to(o, en, df) < r.len());
    }
}
proof fn lemma_entries(d: Seq<u8>, r: Seq<u8>, x: Option<Seq<u8>>, y: Option<Seq<u8>>, en: int, df: int)
    requires pointed(d, r, en, df), d.len() < lim(), good_file(d), r.len() == d.len() + df, r.len() <= i64::MAX
    ensures tab_rel(0, x, y, en, df) ==> entries32(d, r, x, y, en, df), tab_rel(1, x, y, en, df) ==> entries64(d, r, x, y, en, df) //@P04
{
    if let Some(a) = x {
        if tab_rel(0, x, y, en, df) {
            let b = y->Some_0;
            assert forall|k: int| 0 <= k && 12 + 4 * k <= a.len() implies entry32(d, r, be32(a.subrange(8 + 4 * k, 12 + 4 * k)), be32(#[trigger] b.subrange(8 + 4 * k, 12 + 4 * k)), en, df) by {
                lemma_be32_range(a.subrange(8 + 4 * k, 12 + 4 * k));
                lemma_entry(d, r, be32(a.subrange(8 + 4 * k, 12 + 4 * k)), en, df);
            }
        }
        if tab_rel(1, x, y, en, df) {
            let b = y->Some_0;
            assert forall|k: int| 0 <= k && 16 + 8 * k <= a.len() implies entry64(d, r, be64(a.subrange(8 + 8 * k, 16 + 8 * k)), be64(#[trigger] b.subrange(8 + 8 * k, 16 + 8 * k)), en, df) by {
                lemma_be64_range(a.subrange(8 + 8 * k, 16 + 8 * k));
                lemma_entry(d, r, be64(a.subrange(8 + 8 * k, 16 + 8 * k)), en, df);
            }
        }
    }
}
proof fn lemma_offsets(d: Seq<u8>, r: Seq<u8>, x: Seq<Seq<u8>>, y: Seq<Seq<u8>>, en: int, df: int)
    requires pointed(d, r, en, df), d.len() < lim(), good_file(d), r.len() == d.len() + df, r.len() <= i64::MAX, traks_rel(x, y, en, df)
    ensures offsets_ok(d, r, x, y, en, df) //@P04
{
    assert forall|i: int| 0 <= i < x.len() implies track_ok(d, r, #[trigger] x[i], y[i], en, df) by {
        lemma_trak(x[i], y[i], en, df);
        lemma_entries(d, r, table(x[i], f_stco()), table(y[i], f_stco()), en, df);
        lemma_entries(d, r, table(x[i], f_co64()), table(y[i], f_co64()), en, df);
    }
}
/// the containers of the items are consistent
pub open spec fn consistent(r: Seq<u8>, t: Seq<ItemS>) -> bool {
    let u = child(Some(moov_of(r)), 0, f_udta());
    let x = child(u, 0, f_meta());
    &&& kids(r, 0) is Some && kids(moov_of(r), 0) is Some
    &&& u is Some && kids(u->Some_0, 0) is Some
    &&& x is Some && kids(x->Some_0, 4) is Some
    &&& child(x, 4, f_hdlr()) is Some
    &&& child(x, 4, f_ilst()) == Some(ser_items(t)) && kids(ser_items(t), 0) is Some && lst(ser_items(t), 0) == item_l(t)
}
/// what a successful write of the items `t` makes of the file `d`
pub open spec fn written(d: Seq<u8>, r: Seq<u8>, t: Seq<ItemS>) -> bool {
    readable(d, r, t) && consistent(r, t) && exists|g: Wit| #[trigger] kept(d, r, t, g) && pointed(d, r, g.en, g.df) && offsets_ok(d, r, trak_bodies(moov_of(d)), trak_bodies(moov_of(r)), g.en, g.df)
}
pub proof fn lemma_written(d: Seq<u8>, m: MoovBounds, q: int, v: Seq<Stco>, w: Seq<Co64>, t: Seq<ItemS>)
    requires good_file(d), found(d, m, q), tables(m, q, v, w, d), storable(t), room(d, t), old_start(m) <= old_end(m)
    ensures written(d, outcome(d, m, v, w, t), t) //@P01 //@P03 //@P04 //@P05
{
    let r = outcome(d, m, v, w, t);
    lemma_room(d, m, t);
    let g = lemma_kept(d, m, q, v, w, t);
    lemma_readable(d, r, t, g);
    lemma_pointed(d, m, q, r, t, g);
    lemma_one_moov(d);
    lemma_moov(body(d, moov_kid(d)), g.c, g.en, g.df);
    lemma_new_part(m, t);
    lemma_offsets(d, r, trak_bodies(moov_of(d)), trak_bodies(moov_of(r)), g.en, g.df);
    lemma_items_list(t);
}

// ===================================================================== writing to a well-formed file succeeds
pub proof fn lemma_udta_fwf(b: Seq<u8>)
    ensures Udta::wf(b) ==> Udta::fwf(b)
{
    if Udta::wf(b) {
        let ks = kids(b, 0)->Some_0;
        assert forall|i: int| 0 <= i < ks.len() && (#[trigger] ks[i]).head.fourcc == f_meta() implies Meta::fwf(body(b, ks[i])) by { assert(Meta::wf(body(b, ks[i]))); }
    }
}
pub proof fn lemma_minf_fwf(b: Seq<u8>)
    ensures crate::atom::minf::Minf::wf(b) ==> crate::atom::minf::Minf::fwf(b)
{
    if crate::atom::minf::Minf::wf(b) {
        let ks = kids(b, 0)->Some_0;
        assert forall|i: int| 0 <= i < ks.len() && (#[trigger] ks[i]).head.fourcc == f_stbl() implies crate::atom::stbl::Stbl::fwf(body(b, ks[i])) by { assert(crate::atom::stbl::Stbl::wf(body(b, ks[i]))); }
    }
}
pub proof fn lemma_mdia_fwf(b: Seq<u8>)
    ensures crate::atom::mdia::Mdia::wf(b) ==> crate::atom::mdia::Mdia::fwf(b)
{
    if crate::atom::mdia::Mdia::wf(b) {
        let ks = kids(b, 0)->Some_0;
        assert forall|i: int| 0 <= i < ks.len() && (#[trigger] ks[i]).head.fourcc == f_minf() implies crate::atom::minf::Minf::fwf(body(b, ks[i])) by { lemma_minf_fwf(body(b, ks[i])); }
    }
}
pub proof fn lemma_trak_fwf(b: Seq<u8>)
    ensures Trak::wf(b) ==> Trak::fwf(b)
{
    if Trak::wf(b) {
        let ks = kids(b, 0)->Some_0;
        assert forall|i: int| 0 <= i < ks.len() && (#[trigger] ks[i]).head.fourcc == f_mdia() implies crate::atom::mdia::Mdia::fwf(body(b, ks[i])) by { lemma_mdia_fwf(body(b, ks[i])); }
    }
}
pub proof fn lemma_moov_fwf(b: Seq<u8>)
    ensures Moov::wf(b) ==> Moov::fwf(b)
{
    if Moov::wf(b) {
        let ks = kids(b, 0)->Some_0;
        assert forall|i: int| 0 <= i < ks.len() && (#[trigger] ks[i]).head.fourcc == f_trak() implies Trak::fwf(body(b, ks[i])) by { lemma_trak_fwf(body(b, ks[i])); }
        assert forall|i: int| 0 <= i < ks.len() && (#[trigger] ks[i]).head.fourcc == f_udta() implies Udta::fwf(body(b, ks[i])) by { lemma_udta_fwf(body(b, ks[i])); }
    }
}
/// the table can be parsed
pub open spec fn tab_ok(a: AtomBounds, d: Seq<u8>, wide: bool) -> bool {
    szf(a.size) && cpos(a) + clen(a.size) <= d.len() && if wide { co64_wf(part(d, cpos(a), a.size)) } else { stco_wf(part(d, cpos(a), a.size)) }
}
pub open spec fn tabs_good(s: StblBounds, d: Seq<u8>) -> bool {
    (s.stco is Some ==> tab_ok(s.stco->Some_0.bounds, d, false)) && (s.co64 is Some ==> tab_ok(s.co64->Some_0.bounds, d, true))
}
proof fn lemma_good2(s: StblBounds, d: Seq<u8>, p: int, size: Size)
    requires crate::atom::stbl::Stbl::at(s, d, p, size), tw(2, part(d, p, size)), 0 <= p, 0 <= clen(size), p + clen(size) <= d.len()
    ensures tabs_good(s, d)
{
    let b = part(d, p, size);
    let ks = kids(b, 0)->Some_0;
    let i = lidx(ks, f_stco());
    let j = lidx(ks, f_co64());
    lemma_fourccs();
    lemma_within(b, 0);
    lemma_lidx(b, ks, f_stco());
    lemma_lidx(b, ks, f_co64());
    if s.stco is Some {
        assert(kid_at::<Stco>(s.stco->Some_0, d, p, ks[i]));
        assert(next(2, ks, i) == 0);
        assert(tw(0, body(b, ks[i])));
        assert(part(d, p + kbeg(ks[i]), ks[i].head.size) =~= body(b, ks[i]));
    }
    if s.co64 is Some {
        assert(kid_at::<Co64>(s.co64->Some_0, d, p, ks[j]));
        assert(next(2, ks, j) == 1);
        assert(tw(1, body(b, ks[j])));
        assert(part(d, p + kbeg(ks[j]), ks[j].head.size) =~= body(b, ks[j]));
    }
}
proof fn lemma_good3(s: crate::atom::minf::MinfBounds, d: Seq<u8>, p: int, size: Size)
    requires crate::atom::minf::Minf::at(s, d, p, size), tw(3, part(d, p, size)), 0 <= p, 0 <= clen(size), p + clen(size) <= d.len()
    ensures match s.stbl { None => true, Some(y) => tabs_good(y, d) }
{
    let b = part(d, p, size);
    let ks = kids(b, 0)->Some_0;
    let i = lidx(ks, f_stbl());
    lemma_within(b, 0);
    lemma_lidx(b, ks, f_stbl());
    if s.stbl is Some {
        let k = ks[i];
        assert(kid_at::<crate::atom::stbl::Stbl>(s.stbl->Some_0, d, p, k));
        assert(next(3, ks, i) == 2);
        assert(tw(2, body(b, k)));
        assert(part(d, p + kbeg(k), k.head.size) =~= body(b, k));
        lemma_good2(s.stbl->Some_0, d, p + kbeg(k), k.head.size);
    }
}
proof fn lemma_good4(s: crate::atom::mdia::MdiaBounds, d: Seq<u8>, p: int, size: Size)
    requires crate::atom::mdia::Mdia::at(s, d, p, size), tw(4, part(d, p, size)), 0 <= p, 0 <= clen(size), p + clen(size) <= d.len()
    ensures match s.minf { None => true, Some(x) => match x.stbl { None => true, Some(y) => tabs_good(y, d) } }
{
    let b = part(d, p, size);
    let ks = kids(b, 0)->Some_0;
    let i = lidx(ks, f_minf());
    lemma_within(b, 0);
    lemma_lidx(b, ks, f_minf());
    if s.minf is Some {
        let k = ks[i];
        assert(kid_at::<crate::atom::minf::Minf>(s.minf->Some_0, d, p, k));
        assert(next(4, ks, i) == 3);
        assert(tw(3, body(b, k)));
        assert(part(d, p + kbeg(k), k.head.size) =~= body(b, k));
        lemma_good3(s.minf->Some_0, d, p + kbeg(k), k.head.size);
    }
}
proof fn lemma_good5(s: crate::atom::trak::TrakBounds, d: Seq<u8>, p: int, size: Size)
    requires crate::atom::trak::Trak::at(s, d, p, size), tw(5, part(d, p, size)), 0 <= p, 0 <= clen(size), p + clen(size) <= d.len()
    ensures match stbl_in(s) { None => true, Some(y) => tabs_good(y, d) }
{
    let b = part(d, p, size);
    let ks = kids(b, 0)->Some_0;
    let i = lidx(ks, f_mdia());
    lemma_within(b, 0);
    lemma_lidx(b, ks, f_mdia());
    if s.mdia is Some {
        let k = ks[i];
        assert(kid_at::<crate::atom::mdia::Mdia>(s.mdia->Some_0, d, p, k));
        assert(next(5, ks, i) == 4);
        assert(tw(4, body(b, k)));
        assert(part(d, p + kbeg(k), k.head.size) =~= body(b, k));
        lemma_good4(s.mdia->Some_0, d, p + kbeg(k), k.head.size);
    }
}
/// all tables that were found can be parsed
pub proof fn lemma_tabs_good(m: MoovBounds, d: Seq<u8>)
    requires good_file(d), moov_at(d, m)
    ensures forall|i: int| 0 <= i < stbls(m.trak@).len() ==> tabs_good(#[trigger] stbls(m.trak@)[i], d)
{
    let k = moov_kid(d);
    let p = kbeg(k);
    let b = body(d, k);
    let ks = kids(b, 0)->Some_0;
    let t = m.trak@;
    let s = stbls(t);
    lemma_one_moov(d);
    assert(kid_at::<Moov<'_>>(m, d, 0, k));
    assert(part(d, p, k.head.size) =~= b);
    assert(next(7, kids(d, 0)->Some_0, lidx(kids(d, 0)->Some_0, f_moov())) == 6);
    assert(tw(6, b));
    lemma_within(b, 0);
    lemma_kids_of(ks, f_trak());
    assert forall|i: int| 0 <= i < s.len() implies tabs_good(#[trigger] s[i], d) by {
        assert(s.contains(s[i]));
        lemma_mem_stbl(t, s[i]);
        let j = choose|j: int| 0 <= j < t.len() && stbl_in(#[trigger] t[j]) == Some(s[i]);
        let tk = kids_of(ks, f_trak());
        assert(has_kid(ks, f_trak(), tk[j]));
        let n = choose|n: int| 0 <= n < ks.len() && #[trigger] ks[n] == tk[j];
        assert(kid_at::<Trak>(t[j], d, p, tk[j]));
        assert(next(6, ks, n) == 5);
        assert(tw(5, body(b, ks[n])));
        assert(part(d, p + kbeg(ks[n]), ks[n].head.size) =~= body(b, ks[n]));
        lemma_good5(t[j], d, p + kbeg(ks[n]), ks[n].head.size);
    }
}
/// the atoms that enclose the metadata end within the file
pub proof fn lemma_ends(d: Seq<u8>, m: MoovBounds)
    requires good_file(d), moov_at(d, m)
    ensures old_end(m) <= d.len(), forall|i: int| 0 <= i < upds(m).len() ==> (#[trigger] upds(m)[i]).pos + upds(m)[i].size.len <= d.len()
{
    let k = moov_kid(d);
    let p = kbeg(k);
    let b = body(d, k);
    lemma_one_moov(d);
    assert(kid_at::<Moov<'_>>(m, d, 0, k));
    assert(part(d, p, k.head.size) =~= b);
    lemma_udta_at(m, d, p, k.head.size, b);
    if let Some(u) = m.udta {
        let ku = kids(b, 0)->Some_0[lidx(kids(b, 0)->Some_0, f_udta())];
        let q = p + kbeg(ku);
        let c = part(d, q, ku.head.size);
        let ks = kids(c, 0)->Some_0;
        lemma_lidx(c, ks, f_meta());
        lemma_within(c, 0);
        if let Some(x) = u.meta {
            let km = ks[lidx(ks, f_meta())];
            assert(kid_at::<Meta<'_>>(x, d, q, km));
            let e = part(d, q + kbeg(km), km.head.size);
            assert(e =~= body(c, km));
            assert(Meta::wf(body(c, km)));
            let kk = kids(e, 4)->Some_0;
            lemma_lidx(e, kk, f_ilst());
            lemma_within(e, 4);
            if let Some(i) = x.ilst { assert(kid_at::<Ilst<'_>>(i, d, q + kbeg(km), kk[lidx(kk, f_ilst())])); }
        }
    }
}
/// one step of the search for the movie and the media data
pub open spec fn seen(d: Seq<u8>, m: Option<MoovBounds>, x: Option<crate::atom::mdat::MdatBounds>, k: int) -> bool {
    opt_at::<Moov<'_>>(m, d, 0, last_kid(kids(d, 0)->Some_0.take(k), f_moov())) && opt_at::<crate::atom::mdat::Mdat>(x, d, 0, last_kid(kids(d, 0)->Some_0.take(k), f_mdat()))
}
pub open spec fn off_at(d: Seq<u8>, k: int) -> int { if k < kids(d, 0)->Some_0.len() { kids(d, 0)->Some_0[k].off } else { d.len() as int } }
/// where the search is
#[verifier::opaque]
pub open spec fn scan(d: Seq<u8>, pos: int, parsed: int, len: int, k: int) -> bool {
    let all = kids(d, 0)->Some_0;
    1 <= k <= all.len() && len == d.len() - all[0].head.size.len && parsed <= len && pos == all[0].head.size.len + parsed && pos <= d.len()
        && kids(d, pos) == Some(all.skip(k))
}
pub proof fn lemma_scan0(d: Seq<u8>)
    requires good_file(d)
    ensures ({
        let h = head_at(d, 0)->Some_0;
        &&& head_at(d, 0) is Some && szf(h.size) && h.fourcc == f_ftyp() && h.size.len <= d.len() && valid_utf8(d.subrange(hlen(h.size), h.size.len as int))
        &&& scan(d, h.size.len as int, 0, d.len() - h.size.len, 1) && seen(d, None, None, 1)
    }),
{
    reveal(scan);
    let all = kids(d, 0)->Some_0;
    assert(d.subrange(0, d.len() as int) =~= d);
    assert(all.skip(0) =~= all);
    lemma_step(d, 0, d.len() as int, 0, 0, 0);
    assert(all.take(1).drop_last() =~= Seq::<Kid>::empty());
    lemma_fourccs();
    assert(f_ftyp().0[0] != f_mdat().0[0]);
    assert(all.take(1).last() == all[0]);
    let h = head_at(d, 0)->Some_0;
    assert(all[0].head == h && all[0].off == 0);
    assert(h.fourcc == f_ftyp());
    assert(valid_utf8(body(d, all[0])));
    assert(body(d, all[0]) == d.subrange(hlen(h.size), h.size.len as int));
    assert(last_kid(all.take(1).drop_last(), f_moov()) is None);
    assert(last_kid(all.take(1).drop_last(), f_mdat()) is None);
    assert(last_kid(all.take(1), f_moov()) is None);
    assert(last_kid(all.take(1), f_mdat()) is None);
    assert(kids(d, h.size.len as int) == Some(all.skip(1)));
    assert(scan(d, h.size.len as int, 0, d.len() - h.size.len, 1));
    assert(seen(d, None, None, 1));
}
pub proof fn lemma_scan(d: Seq<u8>, pos: int, parsed: int, len: int, k: int)
    requires good_file(d), scan(d, pos, parsed, len, k), parsed < len
    ensures ({
        let all = kids(d, 0)->Some_0;
        let h = all[k].head;
        &&& k < all.len() && all[k].off == pos && head_at(d, pos) == Some(h) && szf(h.size) && pos + h.size.len <= d.len()
        &&& scan(d, pos + h.size.len, parsed + h.size.len, len, k + 1)
        &&& body(d, all[k]) == d.subrange(pos + hlen(h.size), pos + h.size.len)
        &&& last_kid(all.take(k + 1), f_moov()) == (if h.fourcc == f_moov() { Some(all[k]) } else { last_kid(all.take(k), f_moov()) })
        &&& last_kid(all.take(k + 1), f_mdat()) == (if h.fourcc == f_mdat() { Some(all[k]) } else { last_kid(all.take(k), f_mdat()) })
        &&& h.fourcc == f_moov() ==> Moov::fwf(body(d, all[k]))
        &&& f_moov() != f_mdat()
    }),
{
    reveal(scan);
    let all = kids(d, 0)->Some_0;
    assert(d.subrange(0, d.len() as int) =~= d);
    lemma_step(d, 0, d.len() as int, 0, pos, k);
    lemma_one_moov(d);
    lemma_moov_fwf(moov_of(d));
    assert(f_mdat().0[1] != f_moov().0[1]);
}
pub proof fn lemma_scan_end(d: Seq<u8>, pos: int, parsed: int, len: int, k: int, m: Option<MoovBounds>, x: Option<crate::atom::mdat::MdatBounds>)
    requires good_file(d), scan(d, pos, parsed, len, k), parsed >= len, seen(d, m, x, k)
    ensures m is Some && found(d, m->Some_0, match x { None => 0, Some(x) => x.bounds.pos as int })
{
    reveal(scan);
    let all = kids(d, 0)->Some_0;
    assert(d.subrange(0, d.len() as int) =~= d);
    lemma_last(d, 0, k);
    lemma_one_moov(d);
    lemma_lidx(d, all, f_moov());
}
} // mod wr
