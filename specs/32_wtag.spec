=== prelude
pub mod wt {
use vstd::prelude::*;
use crate::vp::*;
use crate::vp::io::*;
use crate::vs::*;
use crate::ds::*;
use crate::hs::*;
use crate::ks::*;
use crate::pl::*;
use crate::fd::*;
use crate::sr::*;
use crate::dp::*;
use crate::atom::head::*;
use crate::atom::ident::*;
use crate::atom::{FindAtom, ParseAtom, WriteAtom};
use crate::atom::moov::*;
use crate::atom::udta::*;
use crate::atom::meta::*;
use crate::atom::trak::*;
use crate::atom::stbl::*;
use crate::atom::stco::*;
use crate::atom::co64::*;
use crate::atom::mdat::*;
broadcast use crate::vp::group_vp;

// ===================================================================== what a write does, step by step
pub open spec fn stbl_in(t: TrakBounds) -> Option<StblBounds> {
    match t.mdia { None => None, Some(x) => match x.minf { None => None, Some(y) => y.stbl } }
}
/// the sample tables of the tracks that have one
pub open spec fn stbls(t: Seq<TrakBounds>) -> Seq<StblBounds>
    decreases t.len()
{
    if t.len() == 0 { Seq::empty() } else { match stbl_in(t.last()) { None => stbls(t.drop_last()), Some(x) => stbls(t.drop_last()).push(x) } }
}
pub open spec fn stcos(s: Seq<StblBounds>) -> Seq<AtomBounds>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { match s.last().stco { None => stcos(s.drop_last()), Some(x) => stcos(s.drop_last()).push(x.bounds) } }
}
pub open spec fn co64s(s: Seq<StblBounds>) -> Seq<AtomBounds>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { match s.last().co64 { None => co64s(s.drop_last()), Some(x) => co64s(s.drop_last()).push(x.bounds) } }
}
pub open spec fn cpos(x: AtomBounds) -> int { x.pos + hlen(x.size) }
pub open spec fn tabs32(v: Seq<Stco>, x: Seq<AtomBounds>, d: Seq<u8>) -> bool {
    v.len() == x.len() && forall|i: int| 0 <= i < v.len() ==> #[trigger] tab32(v[i], x[i], d)
}
pub open spec fn tab32(v: Stco, x: AtomBounds, d: Seq<u8>) -> bool {
    v.table_pos == cpos(x) + 8 && 8 + 4 * v.offsets@.len() == clen(x.size) && offs32(v.offsets@, d, cpos(x) + 8)
}
pub open spec fn tabs64(v: Seq<Co64>, x: Seq<AtomBounds>, d: Seq<u8>) -> bool {
    v.len() == x.len() && forall|i: int| 0 <= i < v.len() ==> #[trigger] tab64(v[i], x[i], d)
}
pub open spec fn tab64(v: Co64, x: AtomBounds, d: Seq<u8>) -> bool {
    v.table_pos == cpos(x) + 8 && 8 + 8 * v.offsets@.len() == clen(x.size) && offs64(v.offsets@, d, cpos(x) + 8)
}
/// the change of one chunk offset
pub open spec fn adj32(co: u32, moved: int, diff: int) -> u32 { if co >= moved { ((co + diff) as u32) } else { co } }
pub open spec fn wrap(x: int) -> u64 { (if x > i64::MAX { x - 0x1_0000_0000_0000_0000 } else if x < i64::MIN { x + 0x1_0000_0000_0000_0000 } else { x }) as u64 }
pub open spec fn adj64(co: u64, moved: int, diff: int) -> u64 { if co >= moved { wrap((co as i64) + diff) } else { co } }
pub open spec fn bytes32(o: Seq<u32>, moved: int, diff: int) -> Seq<u8>
    decreases o.len()
{
    if o.len() == 0 { Seq::empty() } else { bytes32(o.drop_last(), moved, diff) + to32(adj32(o.last(), moved, diff) as int) }
}
pub open spec fn bytes64(o: Seq<u64>, moved: int, diff: int) -> Seq<u8>
    decreases o.len()
{
    if o.len() == 0 { Seq::empty() } else { bytes64(o.drop_last(), moved, diff) + to64(adj64(o.last(), moved, diff) as int) }
}
/// the chunk offset tables stored with all entries adjusted
pub open spec fn put32(d: Seq<u8>, v: Seq<Stco>, moved: int, diff: int) -> Seq<u8>
    decreases v.len()
{
    if v.len() == 0 { d } else { overwrite(put32(d, v.drop_last(), moved, diff), v.last().table_pos as int, bytes32(v.last().offsets@, moved, diff)) }
}
pub open spec fn put64(d: Seq<u8>, v: Seq<Co64>, moved: int, diff: int) -> Seq<u8>
    decreases v.len()
{
    if v.len() == 0 { d } else { overwrite(put64(d, v.drop_last(), moved, diff), v.last().table_pos as int, bytes64(v.last().offsets@, moved, diff)) }
}
/// an atom whose size changes
pub ghost struct Upd { pub pos: int, pub size: Size }
pub open spec fn upd(x: AtomBounds) -> Upd { Upd { pos: x.pos as int, size: x.size } }
pub open spec fn patch(b: Seq<u8>, u: Upd, diff: int) -> Seq<u8> {
    let n = u.size.len + diff;
    if u.size.ext { overwrite(overwrite(b, u.pos, to32(1)), u.pos + 8, to64((n as u64) as int)) }
    else { overwrite(b, u.pos, to32((n as u32) as int)) }
}
pub open spec fn patched(b: Seq<u8>, u: Seq<Upd>, diff: int) -> Seq<u8>
    decreases u.len()
{
    if u.len() == 0 { b } else { patch(patched(b, u.drop_last(), diff), u.last(), diff) }
}
pub open spec fn meta_in(m: MoovBounds) -> Option<MetaBounds> { match m.udta { None => None, Some(u) => u.meta } }
pub open spec fn ilst_at(m: MoovBounds) -> Option<AtomBounds> {
    match meta_in(m) { None => None, Some(x) => match x.ilst { None => None, Some(i) => Some(i.bounds) } }
}
pub open spec fn has_hdlr(m: MoovBounds) -> bool { match meta_in(m) { None => false, Some(x) => x.hdlr is Some } }
pub open spec fn bend(x: AtomBounds) -> int { x.pos + x.size.len }
/// the part that is replaced
pub open spec fn old_start(m: MoovBounds) -> int {
    match ilst_at(m) { Some(i) => i.pos as int, None => old_end(m) }
}
pub open spec fn old_end(m: MoovBounds) -> int {
    match ilst_at(m) { Some(i) => bend(i), None => match meta_in(m) { Some(x) => bend(x.bounds), None => match m.udta { Some(u) => bend(u.bounds), None => bend(m.bounds) } } }
}
/// the enclosing atoms, the outermost first
pub open spec fn upds(m: MoovBounds) -> Seq<Upd> {
    match m.udta {
        None => seq![upd(m.bounds)],
        Some(u) => match u.meta {
            None => seq![upd(m.bounds), upd(u.bounds)],
            Some(x) => seq![upd(m.bounds), upd(u.bounds), upd(x.bounds)],
        }
    }
}
pub open spec fn new_hdlr() -> Seq<u8> { bx(f_hdlr(), hdlr_bytes()) }
pub open spec fn new_ilst(t: Seq<ItemS>) -> Seq<u8> { bx(f_ilst(), ser_items(t)) }
pub open spec fn new_meta(t: Seq<ItemS>) -> Seq<u8> { bx(f_meta(), zeros(4) + new_hdlr() + new_ilst(t)) }
pub open spec fn new_udta(t: Seq<ItemS>) -> Seq<u8> { bx(f_udta(), new_meta(t)) }
/// what is stored instead
pub open spec fn new_part(m: MoovBounds, t: Seq<ItemS>) -> Seq<u8> {
    if m.udta is None { new_udta(t) } else if meta_in(m) is None { new_meta(t) } else if has_hdlr(m) { new_ilst(t) } else { new_hdlr() + new_ilst(t) }
}
pub open spec fn len_diff(m: MoovBounds, t: Seq<ItemS>) -> int { new_part(m, t).len() - (old_end(m) - old_start(m)) }
/// the content of the file after the write
pub open spec fn outcome(d: Seq<u8>, m: MoovBounds, v: Seq<Stco>, w: Seq<Co64>, t: Seq<ItemS>) -> Seq<u8> {
    let diff = len_diff(m, t);
    let a = put64(put32(d, v, old_end(m), diff), w, old_end(m), diff);
    patched(a, upds(m), diff).take(old_start(m)) + new_part(m, t) + a.skip(old_end(m))
}
pub open spec fn tables(m: MoovBounds, mdat: int, v: Seq<Stco>, w: Seq<Co64>, d: Seq<u8>) -> bool {
    if mdat > m.bounds.pos { tabs32(v, stcos(stbls(m.trak@)), d) && tabs64(w, co64s(stbls(m.trak@)), d) }
    else { v.len() == 0 && w.len() == 0 }
}

pub proof fn lemma_stbls(t: Seq<TrakBounds>, lo: int, hi: int)
    requires all_got::<Trak>(t, lo, hi), lo >= 0
    ensures forall|i: int| 0 <= i < stbls(t).len() ==> Stbl::fgot(#[trigger] stbls(t)[i], 0, hi)
    decreases t.len()
{
    if t.len() > 0 {
        assert forall|i: int| 0 <= i < t.drop_last().len() implies Trak::fgot(#[trigger] t.drop_last()[i], lo, hi) by { assert(t[i] == t.drop_last()[i]); }
        lemma_stbls(t.drop_last(), lo, hi);
        assert(Trak::fgot(t[t.len() - 1], lo, hi));
        if stbl_in(t.last()) is Some {
            let x = t.last();
            let y = x.mdia->Some_0;
            let z = y.minf->Some_0;
            assert(crate::atom::mdia::Mdia::fgot(y, x.bounds.pos + hlen(x.bounds.size), hi));
            assert(crate::atom::minf::Minf::fgot(z, y.bounds.pos + hlen(y.bounds.size), hi));
            let s = z.stbl->Some_0;
            assert(Stbl::fgot(s, z.bounds.pos + hlen(z.bounds.size), hi));
            assert(opt_got::<Stco>(s.stco, s.bounds.pos + hlen(s.bounds.size), hi));
            assert(opt_got::<Co64>(s.co64, s.bounds.pos + hlen(s.bounds.size), hi));
            assert(Stbl::fgot(s, 0, hi));
            assert(stbl_in(t.last()) == Some(s));
            assert(stbls(t) == stbls(t.drop_last()).push(s));
        }
        assert forall|i: int| 0 <= i < stbls(t).len() implies Stbl::fgot(#[trigger] stbls(t)[i], 0, hi) by {
            if i < stbls(t.drop_last()).len() { assert(stbls(t)[i] == stbls(t.drop_last())[i]); }
        }
    }
}
pub open spec fn same_stbl(o: Option<&StblBounds>, t: TrakBounds) -> bool {
    match o { None => stbl_in(t) is None, Some(x) => stbl_in(t) == Some(*x) }
}
pub proof fn lemma_filter(t: Seq<TrakBounds>, o: Seq<Option<&StblBounds>>)
    requires o.len() == t.len(), forall|i: int| 0 <= i < t.len() ==> same_stbl(#[trigger] o[i], t[i])
    ensures somes(o).len() == stbls(t).len(), forall|i: int| 0 <= i < stbls(t).len() ==> *(#[trigger] somes(o)[i]) == stbls(t)[i]
    decreases t.len()
{
    if t.len() > 0 {
        assert forall|i: int| 0 <= i < t.drop_last().len() implies same_stbl(#[trigger] o.drop_last()[i], t.drop_last()[i]) by { assert(o.drop_last()[i] == o[i]); }
        lemma_filter(t.drop_last(), o.drop_last());
        assert(same_stbl(o[o.len() - 1], t[t.len() - 1]));
    }
}
pub proof fn lemma_filters(t: Seq<TrakBounds>)
    ensures forall|o: Seq<Option<&StblBounds>>| o.len() == t.len() && (forall|i: int| 0 <= i < t.len() ==> same_stbl(#[trigger] o[i], t[i])) ==>
        (#[trigger] somes(o)).len() == stbls(t).len() && forall|i: int| 0 <= i < stbls(t).len() ==> *(#[trigger] somes(o)[i]) == stbls(t)[i]
{
    assert forall|o: Seq<Option<&StblBounds>>| o.len() == t.len() && (forall|i: int| 0 <= i < t.len() ==> same_stbl(#[trigger] o[i], t[i])) implies
        (#[trigger] somes(o)).len() == stbls(t).len() && forall|i: int| 0 <= i < stbls(t).len() ==> *(#[trigger] somes(o)[i]) == stbls(t)[i] by { lemma_filter(t, o); }
}
pub proof fn lemma_bytes_len(o: Seq<u32>, p: Seq<u64>, moved: int, diff: int)
    ensures bytes32(o, moved, diff).len() == 4 * o.len(), bytes64(p, moved, diff).len() == 8 * p.len()
    decreases o.len() + p.len()
{
    if o.len() > 0 { lemma_bytes_len(o.drop_last(), Seq::empty(), moved, diff); }
    if p.len() > 0 { lemma_bytes_len(Seq::empty(), p.drop_last(), moved, diff); }
}
pub open spec fn in32(v: Seq<Stco>, n: int) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).table_pos + 4 * v[i].offsets@.len() <= n }
pub open spec fn in64(v: Seq<Co64>, n: int) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).table_pos + 8 * v[i].offsets@.len() <= n }
pub proof fn lemma_put32_len(d: Seq<u8>, v: Seq<Stco>, moved: int, diff: int)
    requires in32(v, d.len() as int)
    ensures put32(d, v, moved, diff).len() == d.len()
    decreases v.len()
{
    if v.len() > 0 {
        assert forall|i: int| 0 <= i < v.drop_last().len() implies (#[trigger] v.drop_last()[i]).table_pos + 4 * v.drop_last()[i].offsets@.len() <= d.len() by { assert(v[i] == v.drop_last()[i]); }
        lemma_put32_len(d, v.drop_last(), moved, diff);
        assert(v[v.len() - 1] == v.last());
        lemma_bytes_len(v.last().offsets@, Seq::empty(), moved, diff);
    }
}
pub proof fn lemma_put64_len(d: Seq<u8>, v: Seq<Co64>, moved: int, diff: int)
    requires in64(v, d.len() as int)
    ensures put64(d, v, moved, diff).len() == d.len()
    decreases v.len()
{
    if v.len() > 0 {
        assert forall|i: int| 0 <= i < v.drop_last().len() implies (#[trigger] v.drop_last()[i]).table_pos + 8 * v.drop_last()[i].offsets@.len() <= d.len() by { assert(v[i] == v.drop_last()[i]); }
        lemma_put64_len(d, v.drop_last(), moved, diff);
        assert(v[v.len() - 1] == v.last());
        lemma_bytes_len(Seq::empty(), v.last().offsets@, moved, diff);
    }
}
pub open spec fn upds_ok(u: Seq<Upd>, s: int) -> bool { forall|i: int| 0 <= i < u.len() ==> 0 <= (#[trigger] u[i]).pos && u[i].pos + hlen(u[i].size) <= s }
pub proof fn lemma_patched_len(b: Seq<u8>, u: Seq<Upd>, diff: int)
    requires upds_ok(u, b.len() as int)
    ensures patched(b, u, diff).len() == b.len()
    decreases u.len()
{
    if u.len() > 0 {
        assert forall|i: int| 0 <= i < u.drop_last().len() implies 0 <= (#[trigger] u.drop_last()[i]).pos && u.drop_last()[i].pos + hlen(u.drop_last()[i].size) <= b.len() by { assert(u[i] == u.drop_last()[i]); }
        lemma_patched_len(b, u.drop_last(), diff);
        assert(u[u.len() - 1] == u.last());
    }
}
pub proof fn lemma_places(m: MoovBounds, hi: int)
    requires Moov::fgot(m, 0, hi)
    ensures
        upds_ok(upds(m), old_start(m)), 0 <= old_start(m) <= old_end(m) <= u64::MAX, bend(m.bounds) <= u64::MAX,
        m.udta is Some ==> bend(m.udta->Some_0.bounds) <= u64::MAX, meta_in(m) is Some ==> bend(meta_in(m)->Some_0.bounds) <= u64::MAX,
        ilst_at(m) is Some ==> szf(ilst_at(m)->Some_0.size),
        forall|i: int| 0 <= i < upds(m).len() ==> szf(#[trigger] upds(m)[i].size) && upds(m)[i].pos <= i64::MAX,
{
    if let Some(u) = m.udta {
        assert(Udta::fgot(u, m.bounds.pos + hlen(m.bounds.size), hi));
        if let Some(x) = u.meta {
            assert(Meta::fgot(x, u.bounds.pos + hlen(u.bounds.size), hi));
            if let Some(i) = x.ilst { assert(crate::atom::ilst::Ilst::fgot(i, x.bounds.pos + hlen(x.bounds.size), hi)); }
        }
    }
}
pub proof fn lemma_outcome(b: Seq<u8>, a: Seq<u8>, st: int, en: int, p: Seq<u8>)
    requires a.len() == b.len(), 0 <= st <= en <= a.len()
    ensures overwrite(overwrite(resized(b, st + p.len() + (a.len() - en)), st, p), st + p.len(), a.skip(en)) == b.take(st) + p + a.skip(en)
{
    lemma_overwrite(resized(b, st + p.len() + (a.len() - en)), st, p, a.skip(en));
    assert(overwrite(resized(b, st + p.len() + (a.len() - en)), st, p + a.skip(en)) =~= b.take(st) + p + a.skip(en));
}
} // mod wt
=== mod atom
/// what is stored for new atoms
pub proof fn lemma_new_ilst(i: Ilst<'_>, t: Seq<ItemS>)
    requires views(ilst::items_in(i)) == t, items_fit(t)
    ensures i.fits(), ser(i) == new_ilst(t), ser(i).len() <= ser_items(t).len() + 16,
{ lemma_fccs(); lemma_bx(f_ilst(), ser_items(t)); }
pub proof fn lemma_new_hdlr(h: Hdlr)
    requires h.0@ =~= hdlr_bytes()
    ensures h.fits(), ser(h) == new_hdlr(), ser(h).len() == 33,
{ lemma_fccs(); lemma_bx(f_hdlr(), hdlr_bytes()); }
pub proof fn lemma_new_meta(m: Meta<'_>, t: Seq<ItemS>)
    requires m.hdlr is Some, m.hdlr->Some_0.0@ =~= hdlr_bytes(), m.ilst is Some, views(ilst::items_in(m.ilst->Some_0)) == t, items_fit(t)
    ensures m.fits(), ser(m) == new_meta(t), ser(m).len() <= ser_items(t).len() + 100,
{
    lemma_fccs(); lemma_new_ilst(m.ilst->Some_0, t); lemma_new_hdlr(m.hdlr->Some_0);
    assert(opt_ser(m.hdlr) == new_hdlr()); assert(opt_ser(m.ilst) == new_ilst(t));
    lemma_bx(f_meta(), m.cont());
}
pub proof fn lemma_new_udta(u: Udta<'_>, t: Seq<ItemS>)
    requires u.meta is Some, u.meta->Some_0.hdlr is Some, u.meta->Some_0.hdlr->Some_0.0@ =~= hdlr_bytes(), u.meta->Some_0.ilst is Some,
        views(ilst::items_in(u.meta->Some_0.ilst->Some_0)) == t, items_fit(t)
    ensures u.fits(), ser(u) == new_udta(t), ser(u).len() <= ser_items(t).len() + 200,
{
    lemma_fccs(); lemma_new_meta(u.meta->Some_0, t);
    assert(opt_ser(u.meta) == new_meta(t));
    lemma_bx(f_udta(), u.cont());
}
=== fn atom::write_tag_to
#[verifier::spinoff_prover]
#[verifier::rlimit(300)]
    requires
        0 <= old(file).cursor() <= u64::MAX, !old(file).pending(), items_fit(views(atoms@)),
        old(file).content().len() + ser_items(views(atoms@)).len() + 1000 < lim(),
    ensures
        r is Err && old(file).faultless() ==> final(file).content() == old(file).content(), //@P07
        r is Ok ==> exists|m: MoovBounds, q: int, v: Seq<Stco>, w: Seq<Co64>| #[trigger] tables(m, q, v, w, old(file).content())
            && final(file).content() == outcome(old(file).content(), m, v, w, views(atoms@)) //@P03 //@P04 //@P05
            && (old(file).cursor() == 0 && crate::wr::good_file(old(file).content()) ==> crate::wr::found(old(file).content(), m, q) && old_start(m) <= old_end(m)), //@P01 //@P03 //@P04 //@P05
        old(file).faultless() && old(file).cursor() == 0 && crate::wr::good_file(old(file).content()) ==> r is Ok, //@P01 //@P07
--- at start
    hide(crate::vp::overwrite); hide(hdlr_bytes); hide(crate::wr::good_file);
    let ghost d = file.content();
    let ghost good = file.cursor() == 0 && crate::wr::good_file(d);
    let ghost mut k: int = 1;
    proof { if good { crate::wr::lemma_scan0(d); } }
    let ghost t = views(atoms@);
    let ghost rel = file.faultless();
    let ghost n = d.len() as int;
--- loop 0
    invariant
        swf(reader), parsed_bytes <= len + i64::MAX, len <= i64::MAX, reader.data() == d, rel == old(file).faultless(), reader.reliable() == rel,
        match moov { None => true, Some(m) => Moov::fgot(m, 0, d.len() as int) },
        match mdat { None => true, Some(m) => Mdat::fgot(m, 0, d.len() as int) },
        d == old(file).content(), good == (old(file).cursor() == 0 && crate::wr::good_file(d)),
        good ==> crate::wr::scan(d, reader.pos(), parsed_bytes as int, len as int, k) && crate::wr::seen(d, moov, mdat, k),
    decreases (if parsed_bytes < len { len - parsed_bytes } else { 0 })
--- at loop 0 start
    proof { if good { crate::wr::lemma_scan(d, reader.pos(), parsed_bytes as int, len as int, k); } }
--- at loop 0 end
    proof { k = k + 1; }
--- at after loop 0
    proof { if good { crate::wr::lemma_scan_end(d, reader.pos(), parsed_bytes as int, len as int, k, moov, mdat); } }
--- at after call ok_or_else 0
    let ghost m = moov;
    let ghost q = mdat_pos as int;
    let ghost st = old_start(m);
    let ghost en = old_end(m);
    let ghost df = len_diff(m, t);
    let ghost us = upds(m);
    let ghost ss = stbls(m.trak@);
    proof {
        lemma_places(m, n); lemma_stbls(m.trak@, m.bounds.pos + hlen(m.bounds.size), n); lemma_filters(m.trak@);
        if good { assert(crate::wr::found(d, m, q)); crate::wr::lemma_ends(d, m); crate::wr::lemma_tabs_good(m, d); }
    }
--- at after call push 2
    proof {
        assert(update_atoms@.len() == us.len());
        assert forall|i: int| 0 <= i < us.len() implies upd(*#[trigger] update_atoms@[i]) == us[us.len() - 1 - i] by {}
        assert(new_atoms_start == st && moved_data_start == en);
        if new_udta is Some { lemma_new_udta(new_udta->Some_0, t); assert(new_part(m, t) == ser(new_udta->Some_0)); }
        else if new_meta is Some { lemma_new_meta(new_meta->Some_0, t); assert(new_part(m, t) == ser(new_meta->Some_0)); }
        else {
            lemma_new_ilst(new_ilst, t);
            if new_hdlr is Some { lemma_new_hdlr(new_hdlr->Some_0); }
            assert(opt_fits(new_hdlr));
            assert(new_part(m, t) =~= opt_ser(new_hdlr) + ser(new_ilst));
        }
    }
--- at before call seek 1
    proof { assert(len_diff == df); }
--- loop 1
    invariant
        swf(reader), reader.data() == d, rel == old(file).faultless(), reader.reliable() == rel, n == d.len(),
        __all1.len() == ss.len(), forall|i: int| 0 <= i < ss.len() ==> *(#[trigger] __all1[i]) == ss[i],
        forall|i: int| 0 <= i < ss.len() ==> Stbl::fgot(#[trigger] ss[i], 0, n),
        tabs32(stco_tables@, stcos(ss.take(__k1)), d), tabs64(co64_tables@, co64s(ss.take(__k1)), d),
        d == old(file).content(), good == (old(file).cursor() == 0 && crate::wr::good_file(d)),
        good ==> forall|i: int| 0 <= i < ss.len() ==> crate::wr::tabs_good(#[trigger] ss[i], d),
--- at loop 1 start
    proof {
        assert(ss.take(__k1).drop_last() =~= ss.take(__k1 - 1));
        assert(ss.take(__k1).last() == ss[__k1 - 1]);
        assert(*stbl == ss[__k1 - 1]);
        assert(Stbl::fgot(*stbl, 0, n));
        if good { assert(crate::wr::tabs_good(*stbl, d)); }
    }
--- at after loop 1
    proof { assert(ss.take(ss.len() as int) =~= ss); }
--- at before loop 2
    let ghost v = stco_tables@;
    let ghost w = co64_tables@;
    proof {
        assert(tables(m, q, v, w, d));
        assert forall|i: int| 0 <= i < us.len() implies (#[trigger] us[i]).pos + us[i].size.len <= n by {
            let j = us.len() - 1 - i;
            assert(update_atoms.elems()[j] == update_atoms@[j]);
            assert(upd(*update_atoms@[j]) == us[i]);
        }
        assert(in32(v, n)) by { assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).table_pos + 4 * v[i].offsets@.len() <= n by { assert(tab32(v[i], stcos(ss)[i], d)); } }
        assert(in64(w, n)) by { assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]).table_pos + 8 * w[i].offsets@.len() <= n by { assert(tab64(w[i], co64s(ss)[i], d)); } }
        assert(v.take(0) =~= Seq::empty());
    }
--- loop 2
    invariant
        rel == old(file).faultless(), writer.reliable() == rel, writer.tail() == *after_borrow(file), swf(&writer), !writer.dirty(), n == d.len(), n < lim(),
        moved_data_start == en, len_diff == df, -lim() <= df <= lim(), in32(v, n),
        __all2.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> *(#[trigger] __all2[i]) == v[i],
        writer.data() == put32(d, v.take(__k2), en, df),
--- at loop 2 start
    let ghost da = writer.data();
    let ghost pa = chunk_offset.table_pos as int;
    let ghost oa = chunk_offset.offsets@;
    proof {
        assert(v.take(__k2).drop_last() =~= v.take(__k2 - 1));
        assert(v.take(__k2).last() == v[__k2 - 1]);
        assert(*chunk_offset == v[__k2 - 1]);
        assert(in32(v.take(__k2 - 1), n));
        lemma_put32_len(d, v.take(__k2 - 1), en, df);
        lemma_bytes_len(oa, Seq::empty(), en, df);
        assert(oa.take(0) =~= Seq::empty());
    }
--- loop 3
    invariant
        rel == old(file).faultless(), writer.reliable() == rel, writer.tail() == *after_borrow(file), n < lim(), da.len() == n, pa >= 0, pa + 4 * oa.len() <= n,
        moved_data_start == en, len_diff == df, -lim() <= df <= lim(),
        __all3.len() == oa.len(), forall|i: int| 0 <= i < oa.len() ==> *(#[trigger] __all3[i]) == oa[i],
        writer.data() == overwrite(da, pa, bytes32(oa.take(__k3), en, df)), writer.pos() == pa + 4 * __k3,
--- at loop 3 end
    proof {
        assert(oa.take(__k3).drop_last() =~= oa.take(__k3 - 1));
        assert(oa.take(__k3).last() == oa[__k3 - 1]);
        lemma_bytes_len(oa.take(__k3 - 1), Seq::empty(), en, df);
        lemma_overwrite(da, pa, bytes32(oa.take(__k3 - 1), en, df), to32(adj32(oa[__k3 - 1], en, df) as int));
    }
--- at after loop 3
    proof { assert(oa.take(oa.len() as int) =~= oa); }
--- at before loop 4
    let ghost db = writer.data();
    proof { assert(v.take(v.len() as int) =~= v); lemma_put32_len(d, v, en, df); assert(w.take(0) =~= Seq::empty()); }
--- loop 4
    invariant
        rel == old(file).faultless(), writer.reliable() == rel, writer.tail() == *after_borrow(file), swf(&writer), !writer.dirty(), n == db.len(), n < lim(),
        moved_data_start == en, len_diff == df, -lim() <= df <= lim(), in64(w, n),
        __all4.len() == w.len(), forall|i: int| 0 <= i < w.len() ==> *(#[trigger] __all4[i]) == w[i],
        writer.data() == put64(db, w.take(__k4), en, df),
--- at loop 4 start
    let ghost da = writer.data();
    let ghost pa = chunk_offset.table_pos as int;
    let ghost oa = chunk_offset.offsets@;
    proof {
        assert(w.take(__k4).drop_last() =~= w.take(__k4 - 1));
        assert(w.take(__k4).last() == w[__k4 - 1]);
        assert(*chunk_offset == w[__k4 - 1]);
        assert(in64(w.take(__k4 - 1), n));
        lemma_put64_len(db, w.take(__k4 - 1), en, df);
        lemma_bytes_len(Seq::empty(), oa, en, df);
        assert(oa.take(0) =~= Seq::empty());
    }
--- loop 5
    invariant
        rel == old(file).faultless(), writer.reliable() == rel, writer.tail() == *after_borrow(file), n < lim(), da.len() == n, pa >= 0, pa + 8 * oa.len() <= n,
        moved_data_start == en, len_diff == df, -lim() <= df <= lim(),
        __all5.len() == oa.len(), forall|i: int| 0 <= i < oa.len() ==> *(#[trigger] __all5[i]) == oa[i],
        writer.data() == overwrite(da, pa, bytes64(oa.take(__k5), en, df)), writer.pos() == pa + 8 * __k5,
--- at loop 5 end
    proof {
        assert(oa.take(__k5).drop_last() =~= oa.take(__k5 - 1));
        assert(oa.take(__k5).last() == oa[__k5 - 1]);
        lemma_bytes_len(Seq::empty(), oa.take(__k5 - 1), en, df);
        lemma_overwrite(da, pa, bytes64(oa.take(__k5 - 1), en, df), to64(adj64(oa[__k5 - 1], en, df) as int));
    }
--- at after loop 5
    proof { assert(oa.take(oa.len() as int) =~= oa); }
--- at before call with_capacity 0
    let ghost a = writer.data();
    proof { assert(w.take(w.len() as int) =~= w); lemma_put64_len(db, w, en, df); assert(a == put64(put32(d, v, en, df), w, en, df)); assert(a.len() == n); }
--- at before loop 6
    proof { assert(moved_data@ =~= a.skip(en)); assert(us.take(0) =~= Seq::empty()); assert(patched(a, us.take(0), df) == a); }
--- loop 6
    invariant
        rel == old(file).faultless(), writer.reliable() == rel, writer.tail() == *after_borrow(file), swf(&writer), !writer.dirty() || writer.pos() <= st, n == a.len(), n < lim(),
        len_diff == df, -lim() <= df <= lim(), upds_ok(us, st), 0 <= st <= n,
        __all6.len() == us.len(), forall|i: int| 0 <= i < us.len() ==> upd(**(#[trigger] __all6[i])) == us[i],
        forall|i: int| 0 <= i < us.len() ==> (#[trigger] us[i]).pos + us[i].size.len <= n,
        writer.data() == patched(a, us.take(__k6), df), writer.data().len() == n,
--- at loop 6 start
    let ghost db = writer.data();
    let ghost u = us[__k6 - 1];
    proof {
        assert(us.take(__k6).drop_last() =~= us.take(__k6 - 1));
        assert(us.take(__k6).last() == u);
        assert(upd(**a) == u);
    }
--- at before call vp_set_len 0
    let ghost b = writer.data();
    proof { assert(us.take(us.len() as int) =~= us); assert(b == patched(a, us, df)); }
--- at before call seek 9
    let ghost e = writer.data();
    let ghost np = new_part(m, t);
    proof { assert(n + df == st + np.len() + (a.len() - en)); assert(e == resized(b, st + np.len() + (a.len() - en))); }
--- at after call write 0
    proof { assert(writer.data() == overwrite(e, st, np) && writer.pos() == st + np.len()); }
--- at after call write 1
    proof { assert(writer.data() == overwrite(e, st, np) && writer.pos() == st + np.len()); }
--- at before call write 2
    let ghost hb = ser(a);
--- at after call write 2
    proof { assert(writer.data() == overwrite(e, st, hb) && writer.pos() == st + hb.len()); }
--- at before call write 3
    proof { if new_hdlr is Some { lemma_overwrite(e, st, ser(new_hdlr->Some_0), ser(new_ilst)); } }
--- at after call write 3
    proof { assert(writer.data() == overwrite(e, st, np) && writer.pos() == st + np.len()); }
--- at before call seek 10
    let ghost e1 = writer.data();
    proof { assert(writer.data() == overwrite(e, st, np) && writer.pos() == st + np.len()); assert(moved_data_start + len_diff == st + np.len()); assert(e.len() < lim()); assert(moved_data_start as i64 == en); assert(0 <= en + len_diff <= i64::MAX); assert((moved_data_start as i64 + len_diff) as u64 == st + np.len()); }
--- at after call seek 10
    proof { assert(writer.data() == e1 && writer.pos() == st + np.len()); }
--- at before call flush 2
    let ghost e2 = writer.data();
    proof { lemma_outcome(b, a, st, en, np); assert(e2 == overwrite(e1, st + np.len(), a.skip(en))); assert(e2 == b.take(st) + np + a.skip(en)); assert(e2 == outcome(d, m, v, w, t)); }
--- at end
    proof { assert(writer.data() == e2); assert(tables(m, q, v, w, d)); }
--- closure 0 MdatBounds -> (x: u64)
    ensures x == __c0.bounds.pos
--- closure 2 _ -> (x: Option<&MetaBounds>)
    ensures match x { None => __c0.meta is None, Some(y) => __c0.meta == Some(*y) }
--- closure 3 _ -> (x: Option<&HdlrBounds>)
    ensures match x { None => __c0.hdlr is None, Some(y) => __c0.hdlr == Some(*y) }
--- closure 4 _ -> (x: Option<&IlstBounds>)
    ensures match x { None => __c0.ilst is None, Some(y) => __c0.ilst == Some(*y) }
--- closure 5 _ -> (x: bool)
    requires bend(**__c0) <= u64::MAX
    ensures x == (bend(**__c0) > old_file_len)
--- closure 6 _ -> (x: Option<&StblBounds>)
    ensures same_stbl(x, *__c0)
--- closure 7 _ -> (x: Option<&MinfBounds>)
    ensures match x { None => __c0.minf is None, Some(y) => __c0.minf == Some(*y) }
--- closure 8 _ -> (x: Option<&StblBounds>)
    ensures match x { None => __c0.stbl is None, Some(y) => __c0.stbl == Some(*y) }
