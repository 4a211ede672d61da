head='''=== prelude
pub mod tl {
use vstd::prelude::*;
use crate::vp::*;
use crate::vs::*;
use crate::hs::*;
use crate::ks::*;
use crate::pl::*;
use crate::fd::*;
use crate::ls::*;
use crate::st::*;
use crate::wt::*;
use crate::atom::head::*;
use crate::atom::ident::*;
use crate::atom::FindAtom;
use crate::atom::moov::*;
use crate::atom::trak::*;
use crate::atom::mdia::*;
use crate::atom::minf::*;
use crate::atom::stbl::*;
use crate::atom::stco::*;
use crate::atom::co64::*;
broadcast use crate::vp::group_vp;

// ===================================================================== the chunk offset tables that are found are those of the file
pub open spec fn in_tab(a: AtomBounds, x: int) -> bool { cpos(a) + 8 <= x < bend(a) }
pub open spec fn ent32(a: AtomBounds, x: int) -> Option<(bool, int)> { Some((false, cpos(a) + 8 + 4 * ((x - cpos(a) - 8) / 4))) }
pub open spec fn ent64(a: AtomBounds, x: int) -> Option<(bool, int)> { Some((true, cpos(a) + 8 + 8 * ((x - cpos(a) - 8) / 8))) }
pub open spec fn tinfo2(s: StblBounds, x: int) -> Option<(bool, int)> {
    if s.stco is Some && in_tab(s.stco->Some_0.bounds, x) { ent32(s.stco->Some_0.bounds, x) }
    else if s.co64 is Some && in_tab(s.co64->Some_0.bounds, x) { ent64(s.co64->Some_0.bounds, x) }
    else { None }
}
pub open spec fn tinfo3(s: MinfBounds, x: int) -> Option<(bool, int)> { match s.stbl { None => None, Some(y) => tinfo2(y, x) } }
pub open spec fn tinfo4(s: MdiaBounds, x: int) -> Option<(bool, int)> { match s.minf { None => None, Some(y) => tinfo3(y, x) } }
pub open spec fn tinfo5(s: TrakBounds, x: int) -> Option<(bool, int)> { match s.mdia { None => None, Some(y) => tinfo4(y, x) } }
/// a position lies in at most one of the tables
pub open spec fn alone(s: StblBounds, x: int) -> bool { !(s.stco is Some && in_tab(s.stco->Some_0.bounds, x) && s.co64 is Some && in_tab(s.co64->Some_0.bounds, x)) }
pub proof fn lemma_inside(l: int, b: Seq<u8>, x: int)
    requires tw(l, b), 0 <= l, tab_at(l, b, x) is Some
    ensures 0 <= x < b.len()
{ lemma_tab_at(l, b, x); }
pub proof fn lemma_link2(s: StblBounds, d: Seq<u8>, p: int, size: Size, x: int)
    requires Stbl::at(s, d, p, size), tw(2, part(d, p, size)), 0 <= p, 0 <= clen(size), p + clen(size) <= d.len()
    ensures tinfo2(s, x) == shift(tab_at(2, part(d, p, size), x - p), p), alone(s, x)
{
    let b = part(d, p, size);
    let ks = kids(b, 0)->Some_0;
    let n = b.len() as int;
    let i = lidx(ks, f_stco());
    let j = lidx(ks, f_co64());
    let y = x - p;
    crate::aj::lemma_fourccs();
    lemma_ordered(b, 0);
    lemma_lidx(b, ks, f_stco());
    lemma_lidx(b, ks, f_co64());
    lemma_kid_in(ks, y);
    assert((s.stco is Some) == (i >= 0));
    assert((s.co64 is Some) == (j >= 0));
    if i >= 0 {
        let a = s.stco->Some_0.bounds;
        assert(kid_at::<Stco>(s.stco->Some_0, d, p, ks[i]));
        assert(a.pos == p + ks[i].off && a.size == ks[i].head.size);
        if in_tab(a, x) { lemma_kid_is(ks, y, i, 0, n); }
    }
    if j >= 0 {
        let a = s.co64->Some_0.bounds;
        assert(kid_at::<Co64>(s.co64->Some_0, d, p, ks[j]));
        assert(a.pos == p + ks[j].off && a.size == ks[j].head.size);
        if in_tab(a, x) { lemma_kid_is(ks, y, j, 0, n); }
    }
    let c = kid_in(ks, y);
    if c >= 0 && c == i { assert(tab_at(2, b, y) == shift(tab_at(0, body(b, ks[i]), y - kbeg(ks[i])), kbeg(ks[i]))); }
    else if c >= 0 && c == j { assert(tab_at(2, b, y) == shift(tab_at(1, body(b, ks[j]), y - kbeg(ks[j])), kbeg(ks[j]))); }
}
'''
lv='''pub proof fn lemma_link%(l)d(s: %(T)sBounds, d: Seq<u8>, p: int, size: Size, x: int)
    requires %(T)s::at(s, d, p, size), tw(%(l)d, part(d, p, size)), 0 <= p, 0 <= clen(size), p + clen(size) <= d.len()
    ensures tinfo%(l)d(s, x) == shift(tab_at(%(l)d, part(d, p, size), x - p), p), match s.%(f)s { None => true, Some(y) => alone%(m)d(y, x) }
{
    let b = part(d, p, size);
    let ks = kids(b, 0)->Some_0;
    let i = lidx(ks, f_%(f)s());
    let y = x - p;
    lemma_ordered(b, 0);
    lemma_lidx(b, ks, f_%(f)s());
    lemma_kid_in(ks, y);
    assert((s.%(f)s is Some) == (i >= 0));
    if i >= 0 {
        let k = ks[i];
        assert(kid_at::<%(C)s>(s.%(f)s->Some_0, d, p, k));
        assert(part(d, p + kbeg(k), k.head.size) =~= body(b, k));
        assert(next(%(l)d, ks, i) == %(m)d);
        assert(tw(%(m)d, body(b, k)));
        lemma_link%(m)d(s.%(f)s->Some_0, d, p + kbeg(k), k.head.size, x);
        let o = tab_at(%(m)d, body(b, k), y - kbeg(k));
        if o is Some { lemma_inside(%(m)d, body(b, k), y - kbeg(k)); lemma_kid_is(ks, y, i, 0, b.len() as int); }
        if kid_in(ks, y) == i { assert(tab_at(%(l)d, b, y) == shift(o, kbeg(k))); }
    }
}
'''
out=head
out+='''pub open spec fn alone2(s: StblBounds, x: int) -> bool { alone(s, x) }
pub open spec fn alone3(s: MinfBounds, x: int) -> bool { match s.stbl { None => true, Some(y) => alone2(y, x) } }
pub open spec fn alone4(s: MdiaBounds, x: int) -> bool { match s.minf { None => true, Some(y) => alone3(y, x) } }
pub open spec fn alone5(s: TrakBounds, x: int) -> bool { match s.mdia { None => true, Some(y) => alone4(y, x) } }
'''
for l,T,f,C in ((3,'Minf','stbl','Stbl'),(4,'Mdia','minf','Minf'),(5,'Trak','mdia','Mdia')):
    out+=lv%dict(l=l,m=l-1,T=T,f=f,C=C)
out+='''pub proof fn lemma_kids_of(ks: Seq<Kid>, f: Fourcc)
    ensures
        forall|j: int| 0 <= j < kids_of(ks, f).len() ==> has_kid(ks, f, #[trigger] kids_of(ks, f)[j]),
        forall|i: int| 0 <= i < ks.len() && (#[trigger] ks[i]).head.fourcc == f ==> kids_of(ks, f).contains(ks[i]),
    decreases ks.len()
{
    if ks.len() > 0 {
        let p = ks.drop_last();
        lemma_kids_of(p, f);
        let r = kids_of(ks, f);
        let q = kids_of(p, f);
        assert(ks[ks.len() - 1] == ks.last());
        assert forall|j: int| 0 <= j < r.len() implies has_kid(ks, f, #[trigger] r[j]) by {
            if j < q.len() {
                assert(r[j] == q[j]);
                assert(has_kid(p, f, q[j]));
                let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == q[j];
                assert(ks[i] == r[j]);
            } else { assert(ks[ks.len() - 1] == r[j]); }
        }
        assert forall|i: int| 0 <= i < ks.len() && (#[trigger] ks[i]).head.fourcc == f implies r.contains(ks[i]) by {
            if i < p.len() {
                assert(p[i] == ks[i]);
                let j = choose|j: int| 0 <= j < q.len() && q[j] == p[i];
                assert(r[j] == ks[i]);
            } else { assert(r[r.len() - 1] == ks[i]); }
        }
    }
}
pub open spec fn has_kid(ks: Seq<Kid>, f: Fourcc, k: Kid) -> bool { k.head.fourcc == f && exists|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == k }
/// `o` is the table entry at `x` of the tracks
pub open spec fn tracks_at(t: Seq<TrakBounds>, x: int, o: Option<(bool, int)>) -> bool {
    &&& forall|j: int| 0 <= j < t.len() ==> alone5(#[trigger] t[j], x) && (tinfo5(t[j], x) is Some ==> tinfo5(t[j], x) == o)
    &&& o is Some ==> exists|j: int| 0 <= j < t.len() && tinfo5(#[trigger] t[j], x) == o
}
pub proof fn lemma_link6(s: MoovBounds, d: Seq<u8>, p: int, size: Size, x: int)
    requires Moov::at(s, d, p, size), tw(6, part(d, p, size)), 0 <= p, 0 <= clen(size), p + clen(size) <= d.len()
    ensures tracks_at(s.trak@, x, shift(tab_at(6, part(d, p, size), x - p), p))
{
    let b = part(d, p, size);
    let ks = kids(b, 0)->Some_0;
    let y = x - p;
    let t = s.trak@;
    let tk = kids_of(ks, f_trak());
    lemma_ordered(b, 0);
    lemma_kid_in(ks, y);
    lemma_kids_of(ks, f_trak());
    let r = shift(tab_at(6, b, y), p);
    assert forall|j: int| 0 <= j < t.len() implies alone5(#[trigger] t[j], x) && (tinfo5(t[j], x) is Some ==> tinfo5(t[j], x) == r) by {
        assert(has_kid(ks, f_trak(), tk[j]));
        let i = choose|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == tk[j];
        lemma_track(t[j], d, p, size, ks, i, x);
    }
    if r is Some {
        let i = kid_in(ks, y);
        assert(ks[i].head.fourcc == f_trak());
        assert(tk.contains(ks[i]));
        let j = choose|j: int| 0 <= j < tk.len() && tk[j] == ks[i];
        lemma_track(t[j], d, p, size, ks, i, x);
        assert(tinfo5(t[j], x) == r);
    }
}
proof fn lemma_track(t: TrakBounds, d: Seq<u8>, p: int, size: Size, ks: Seq<Kid>, i: int, x: int)
    requires
        kids(part(d, p, size), 0) == Some(ks), tw(6, part(d, p, size)), 0 <= p, 0 <= clen(size), p + clen(size) <= d.len(),
        0 <= i < ks.len(), ks[i].head.fourcc == f_trak(), kid_at::<Trak>(t, d, p, ks[i]),
    ensures
        alone5(t, x),
        tinfo5(t, x) is Some ==> kid_in(ks, x - p) == i,
        kid_in(ks, x - p) == i ==> tinfo5(t, x) == shift(tab_at(6, part(d, p, size), x - p), p),
{
    let b = part(d, p, size);
    let y = x - p;
    let k = ks[i];
    lemma_ordered(b, 0);
    assert(part(d, p + kbeg(k), k.head.size) =~= body(b, k));
    assert(next(6, ks, i) == 5);
    assert(tw(5, body(b, kids(b, 0)->Some_0[i])));
    lemma_link5(t, d, p + kbeg(k), k.head.size, x);
    let o = tab_at(5, body(b, k), y - kbeg(k));
    if o is Some { lemma_inside(5, body(b, k), y - kbeg(k)); lemma_kid_is(ks, y, i, 0, b.len() as int); }
    if kid_in(ks, y) == i { assert(tab_at(6, b, y) == shift(o, kbeg(k))); }
}
/// the movie was found
pub open spec fn moov_at(d: Seq<u8>, m: MoovBounds) -> bool { opt_at::<Moov>(Some(m), d, 0, last_kid(kids(d, 0)->Some_0, f_moov())) }
pub proof fn lemma_link7(s: MoovBounds, d: Seq<u8>, x: int)
    requires moov_at(d, s), tw(7, d)
    ensures tracks_at(s.trak@, x, tab_at(7, d, x))
{
    let ks = kids(d, 0)->Some_0;
    let i = lidx(ks, f_moov());
    lemma_ordered(d, 0);
    lemma_lidx(d, ks, f_moov());
    lemma_kid_in(ks, x);
    let k = ks[i];
    assert(kid_at::<Moov>(s, d, 0, k));
    assert(part(d, kbeg(k), k.head.size) =~= body(d, k));
    assert(next(7, ks, i) == 6);
    assert(tw(6, body(d, k)));
    lemma_link6(s, d, kbeg(k), k.head.size, x);
    let o = tab_at(6, body(d, k), x - kbeg(k));
    if o is Some { lemma_inside(6, body(d, k), x - kbeg(k)); lemma_kid_is(ks, x, i, 0, d.len() as int); }
    if kid_in(ks, x) == i { assert(tab_at(7, d, x) == shift(o, kbeg(k))); }
    else { assert(tab_at(7, d, x) is None); assert(o is None); }
    assert(shift(o, kbeg(k)) == tab_at(7, d, x));
}
// --------------------------------------------------------------------- all tables
pub open spec fn has_stco(s: Seq<StblBounds>, a: AtomBounds) -> bool { exists|j: int| 0 <= j < s.len() && (#[trigger] s[j]).stco is Some && s[j].stco->Some_0.bounds == a }
pub open spec fn has_co64(s: Seq<StblBounds>, a: AtomBounds) -> bool { exists|j: int| 0 <= j < s.len() && (#[trigger] s[j]).co64 is Some && s[j].co64->Some_0.bounds == a }
pub open spec fn has_stbl(t: Seq<TrakBounds>, a: StblBounds) -> bool { exists|j: int| 0 <= j < t.len() && stbl_in(#[trigger] t[j]) == Some(a) }
pub proof fn lemma_push_contains<T>(s: Seq<T>, x: T, a: T)
    ensures s.push(x).contains(a) == (s.contains(a) || a == x)
{
    let r = s.push(x);
    if s.contains(a) { let i = choose|i: int| 0 <= i < s.len() && s[i] == a; assert(r[i] == a); }
    if a == x { assert(r[s.len() as int] == a); }
    if r.contains(a) { let i = choose|i: int| 0 <= i < r.len() && r[i] == a; if i < s.len() { assert(s[i] == a); } }
}
'''
mem='''pub proof fn lemma_mem_%(n)s(s: Seq<%(S)s>, a: %(A)s)
    ensures %(fn)s(s).contains(a) == %(has)s(s, a)
    decreases s.len()
{
    if s.len() > 0 {
        let p = s.drop_last();
        lemma_mem_%(n)s(p, a);
        assert(s[s.len() - 1] == s.last());
        if %(cond)s { lemma_push_contains(%(fn)s(p), %(val)s, a); }
        if %(has)s(p, a) { let j = choose|j: int| 0 <= j < p.len() && %(pred)s; assert(s[j] == p[j]); }
        if %(has)s(s, a) { let j = choose|j: int| 0 <= j < s.len() && %(spred)s; if j < p.len() { assert(s[j] == p[j]); } }
    }
}
'''
for n,S,A,fn,has,cond,val,pred in (
 ('stco','StblBounds','AtomBounds','stcos','has_stco','s.last().stco is Some','s.last().stco->Some_0.bounds','(#[trigger] Q[j]).stco is Some && Q[j].stco->Some_0.bounds == a'),
 ('co64','StblBounds','AtomBounds','co64s','has_co64','s.last().co64 is Some','s.last().co64->Some_0.bounds','(#[trigger] Q[j]).co64 is Some && Q[j].co64->Some_0.bounds == a'),
 ('stbl','TrakBounds','StblBounds','stbls','has_stbl','stbl_in(s.last()) is Some','stbl_in(s.last())->Some_0','stbl_in(#[trigger] Q[j]) == Some(a)')):
    out+=mem%dict(n=n,S=S,A=A,fn=fn,has=has,cond=cond,val=val,pred=pred.replace('Q','p'),spred=pred.replace('Q','s'))
out+='''pub open spec fn any(s: Seq<AtomBounds>, x: int) -> bool { exists|i: int| 0 <= i < s.len() && in_tab(#[trigger] s[i], x) }
/// the entry at `x` in terms of the lists of tables
pub proof fn lemma_tables(t: Seq<TrakBounds>, x: int, o: Option<(bool, int)>)
    requires tracks_at(t, x, o)
    ensures
        forall|i: int| 0 <= i < stcos(stbls(t)).len() && in_tab(#[trigger] stcos(stbls(t))[i], x) ==> o == ent32(stcos(stbls(t))[i], x),
        forall|i: int| 0 <= i < co64s(stbls(t)).len() && in_tab(#[trigger] co64s(stbls(t))[i], x) ==> o == ent64(co64s(stbls(t))[i], x),
        o is None || any(stcos(stbls(t)), x) || any(co64s(stbls(t)), x),
{
    let s = stbls(t);
    let v = stcos(s);
    let w = co64s(s);
    assert forall|i: int| 0 <= i < v.len() && in_tab(#[trigger] v[i], x) implies o == ent32(v[i], x) by {
        assert(v.contains(v[i]));
        lemma_mem_stco(s, v[i]);
        let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).stco is Some && s[j].stco->Some_0.bounds == v[i];
        assert(s.contains(s[j]));
        lemma_mem_stbl(t, s[j]);
        let k = choose|k: int| 0 <= k < t.len() && stbl_in(#[trigger] t[k]) == Some(s[j]);
        assert(tinfo5(t[k], x) == tinfo2(s[j], x));
    }
    assert forall|i: int| 0 <= i < w.len() && in_tab(#[trigger] w[i], x) implies o == ent64(w[i], x) by {
        assert(w.contains(w[i]));
        lemma_mem_co64(s, w[i]);
        let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).co64 is Some && s[j].co64->Some_0.bounds == w[i];
        assert(s.contains(s[j]));
        lemma_mem_stbl(t, s[j]);
        let k = choose|k: int| 0 <= k < t.len() && stbl_in(#[trigger] t[k]) == Some(s[j]);
        assert(alone5(t[k], x));
        assert(alone(s[j], x));
        assert(tinfo5(t[k], x) == tinfo2(s[j], x));
    }
    if o is Some {
        let k = choose|k: int| 0 <= k < t.len() && tinfo5(#[trigger] t[k], x) == o;
        let a = stbl_in(t[k])->Some_0;
        assert(stbl_in(t[k]) is Some);
        assert(tinfo2(a, x) == o);
        lemma_mem_stbl(t, a);
        assert(has_stbl(t, a));
        let j = choose|j: int| 0 <= j < s.len() && s[j] == a;
        if a.stco is Some && in_tab(a.stco->Some_0.bounds, x) {
            lemma_mem_stco(s, a.stco->Some_0.bounds);
            assert(s[j].stco is Some);
            assert(has_stco(s, a.stco->Some_0.bounds));
            let i = choose|i: int| 0 <= i < v.len() && v[i] == a.stco->Some_0.bounds;
            assert(in_tab(v[i], x));
        } else {
            lemma_mem_co64(s, a.co64->Some_0.bounds);
            assert(s[j].co64 is Some);
            assert(has_co64(s, a.co64->Some_0.bounds));
            let i = choose|i: int| 0 <= i < w.len() && w[i] == a.co64->Some_0.bounds;
            assert(in_tab(w[i], x));
        }
    }
}
'''
put='''pub proof fn lemma_byte%(w)d(o: Seq<u%(w)d>, en: int, df: int, y: int)
    requires 0 <= y < %(k)d * o.len()
    ensures bytes%(w)d(o, en, df).len() == %(k)d * o.len(), bytes%(w)d(o, en, df)[y] == to%(w)d(adj%(w)d(o[y / %(k)d], en, df) as int)[y - %(k)d * (y / %(k)d)]
    decreases o.len()
{
    let p = o.drop_last();
    lemma_bytes_len(%(ba)s, en, df);
    lemma_bytes_len(%(bb)s, en, df);
    if y < %(k)d * p.len() { lemma_byte%(w)d(p, en, df, y); assert(p[y / %(k)d] == o[y / %(k)d]); }
    else { assert(y / %(k)d == o.len() - 1); }
}
/// a byte after tables have been stored
pub proof fn lemma_put%(w)d_at(c: Seq<u8>, d: Seq<u8>, v: Seq<%(T)s>, s: Seq<AtomBounds>, en: int, df: int, x: int, o: Option<(bool, int)>)
    requires
        tabs%(w)d(v, s, d), c.len() == d.len(), 0 <= x < d.len(),
        forall|i: int| 0 <= i < s.len() && in_tab(#[trigger] s[i], x) ==> o == ent%(w)d(s[i], x),
    ensures
        put%(w)d(c, v, en, df).len() == c.len(),
        any(s, x) ==> put%(w)d(c, v, en, df)[x] == adjusted(o, d, x, en, df), //@P04
        !any(s, x) ==> put%(w)d(c, v, en, df)[x] == c[x], //@P03
    decreases v.len()
{
    if v.len() > 0 {
        let vp = v.drop_last();
        let sp = s.drop_last();
        let n = v.len() - 1;
        assert(tab%(w)d(v[n], s[n], d));
        assert(tabs%(w)d(vp, sp, d)) by { assert forall|i: int| 0 <= i < vp.len() implies #[trigger] tab%(w)d(vp[i], sp[i], d) by { assert(tab%(w)d(v[i], s[i], d)); } }
        assert forall|i: int| 0 <= i < sp.len() && in_tab(#[trigger] sp[i], x) implies o == ent%(w)d(sp[i], x) by { assert(s[i] == sp[i]); }
        lemma_put%(w)d_at(c, d, vp, sp, en, df, x, o);
        let q = put%(w)d(c, vp, en, df);
        let f = v[n].offsets@;
        let tp = v[n].table_pos as int;
        lemma_bytes_len(%(bf)s, en, df);
        assert(v.last() == v[n]);
        if in_tab(s[n], x) {
            let y = x - tp;
            assert(cpos(s[n]) + clen(s[n].size) == bend(s[n]));
            assert(0 <= y < %(k)d * f.len());
            lemma_byte%(w)d(f, en, df, y);
            let j = y / %(k)d;
            assert(f[j] == be%(w)d(d.subrange(tp + %(k)d * j, tp + %(k)d * j + %(k)d)));
            assert(any(s, x));
        } else {
            assert(any(s, x) == any(sp, x)) by {
                if any(s, x) { let i = choose|i: int| 0 <= i < s.len() && in_tab(#[trigger] s[i], x); assert(sp[i] == s[i]); }
                if any(sp, x) { let i = choose|i: int| 0 <= i < sp.len() && in_tab(#[trigger] sp[i], x); assert(sp[i] == s[i]); }
            }
        }
    }
}
'''
e32='Seq::<u32>::empty()'; e64='Seq::<u64>::empty()'
out+=put%dict(w=32,k=4,T='Stco',ba='o, '+e64,bb='p, '+e64,bf='f, '+e64)
out+=put%dict(w=64,k=8,T='Co64',ba=e32+', o',bb=e32+', p',bf=e32+', f')
out+='''/// what the file looks like after the tables were adjusted
pub proof fn lemma_adjusted(d: Seq<u8>, m: MoovBounds, v: Seq<Stco>, w: Seq<Co64>, en: int, df: int)
    requires moov_at(d, m), tw(7, d), tabs32(v, stcos(stbls(m.trak@)), d), tabs64(w, co64s(stbls(m.trak@)), d)
    ensures adj_bytes(7, d, put64(put32(d, v, en, df), w, en, df), en, df) //@P03 //@P04
{
    let s = stcos(stbls(m.trak@));
    let z = co64s(stbls(m.trak@));
    let a = put32(d, v, en, df);
    let c = put64(a, w, en, df);
    let n = d.len() as int;
    assert(in32(v, n)) by { assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).table_pos + 4 * v[i].offsets@.len() <= n by { assert(tab32(v[i], s[i], d)); } }
    assert(in64(w, n)) by { assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]).table_pos + 8 * w[i].offsets@.len() <= n by { assert(tab64(w[i], z[i], d)); } }
    lemma_put32_len(d, v, en, df);
    lemma_put64_len(a, w, en, df);
    assert forall|x: int| 0 <= x < d.len() implies #[trigger] c[x] == adjusted(tab_at(7, d, x), d, x, en, df) by {
        let o = tab_at(7, d, x);
        lemma_link7(m, d, x);
        lemma_tables(m.trak@, x, o);
        lemma_put32_at(d, d, v, s, en, df, x, o);
        lemma_put64_at(a, d, w, z, en, df, x, o);
    }
}
} // mod tl
'''
open('/tmp/x/dev/specs/39_tables.spec','w').write(out)
