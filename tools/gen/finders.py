#!/usr/bin/env python3
"""Writes specs/28_find.spec: the contracts of FindAtom, which differ only in names."""
import sys
OUT = []
def o(s): OUT.append(s)
o('''# generated by tools/gen/finders.py
=== prelude
pub mod fd {
use vstd::prelude::*;
use crate::vp::*;
use crate::vp::io::*;
use crate::hs::*;
use crate::ks::*;
use crate::atom::head::*;
use crate::atom::ident::*;
use crate::atom::FindAtom;
broadcast use crate::vp::group_vp;

// ===================================================================== places of atoms
pub open spec fn bnd(x: AtomBounds, p: int, size: Size) -> bool { x.pos == p - hlen(size) && x.size == size }
/// free of overflows, with a header between `lo` and `hi`
pub open spec fn sane(x: AtomBounds, lo: int, hi: int) -> bool { szf(x.size) && lo <= x.pos && x.pos + hlen(x.size) <= hi && x.pos <= i64::MAX }
/// the last atom with the identifier
pub open spec fn last_kid(ks: Seq<Kid>, f: Fourcc) -> Option<Kid>
    decreases ks.len()
{
    if ks.len() == 0 { None } else if ks.last().head.fourcc == f { Some(ks.last()) } else { last_kid(ks.drop_last(), f) }
}
/// all atoms with the identifier
pub open spec fn kids_of(ks: Seq<Kid>, f: Fourcc) -> Seq<Kid>
    decreases ks.len()
{
    if ks.len() == 0 { Seq::empty() } else if ks.last().head.fourcc == f { kids_of(ks.drop_last(), f).push(ks.last()) }
    else { kids_of(ks.drop_last(), f) }
}
pub open spec fn kids_fwf<T: FindAtom>(b: Seq<u8>, s: int, f: Fourcc) -> bool {
    forall|i: int| 0 <= i < kids(b, s)->Some_0.len() && (#[trigger] kids(b, s)->Some_0[i]).head.fourcc == f ==> T::fwf(body(b, kids(b, s)->Some_0[i]))
}
pub open spec fn kid_at<T: FindAtom>(x: T::Bounds, d: Seq<u8>, p: int, k: Kid) -> bool {
    T::at(x, d, p + k.off + hlen(k.head.size), k.head.size)
}
pub open spec fn opt_at<T: FindAtom>(x: Option<T::Bounds>, d: Seq<u8>, p: int, k: Option<Kid>) -> bool {
    match x { None => k is None, Some(x) => k is Some && kid_at::<T>(x, d, p, k->Some_0) }
}
pub open spec fn all_at<T: FindAtom>(x: Seq<T::Bounds>, d: Seq<u8>, p: int, k: Seq<Kid>) -> bool {
    x.len() == k.len() && forall|i: int| 0 <= i < x.len() ==> kid_at::<T>(#[trigger] x[i], d, p, k[i])
}
pub open spec fn opt_got<T: FindAtom>(x: Option<T::Bounds>, lo: int, hi: int) -> bool { match x { None => true, Some(x) => T::fgot(x, lo, hi) } }
pub open spec fn all_got<T: FindAtom>(x: Seq<T::Bounds>, lo: int, hi: int) -> bool { forall|i: int| 0 <= i < x.len() ==> T::fgot(#[trigger] x[i], lo, hi) }
/// the content of an atom at an offset
pub open spec fn part(d: Seq<u8>, p: int, size: Size) -> Seq<u8> { d.subrange(p, p + clen(size)) }
} // mod fd

=== trait atom::FindAtom
    /// the content of an atom of this kind in which everything can be found
    spec fn fwf(b: Seq<u8>) -> bool;
    /// the places describe the atom with the content at the offset
    spec fn at(x: Self::Bounds, d: Seq<u8>, p: int, size: Size) -> bool;
    /// what is known of all places, whether the input is well-formed or not
    spec fn fgot(x: Self::Bounds, lo: int, hi: int) -> bool;''')
C = '''    requires preq(old(reader), size)
    ensures
        swf(final(reader)), same(final(reader), old(reader)),
        r is Ok ==> Self::fgot(r->Ok_0, old(reader).pos() - hlen(size), old(reader).data().len() as int) && final(reader).pos() >= old(reader).pos(),
        r is Ok && inside(old(reader), size) && Self::fwf(content(old(reader), size)) ==>
            Self::at(r->Ok_0, old(reader).data(), old(reader).pos(), size) && final(reader).pos() == old(reader).pos() + clen(size),
        old(reader).reliable() && inside(old(reader), size) && Self::fwf(content(old(reader), size)) ==> r is Ok,'''
o('=== fn atom::FindAtom::find\n' + C)
o('=== fn atom::FindAtom::find_atom\n' + C)
for m, t in [('stco','Stco'),('co64','Co64'),('hdlr','Hdlr'),('ilst','Ilst'),('mdat','Mdat')]:
    f = '' if t == 'Mdat' else '.bounds'
    o(f'''=== impl atom::{m}::<{t} as FindAtom>
    open spec fn fwf(b: Seq<u8>) -> bool {{ true }}
    open spec fn at(x: Self::Bounds, d: Seq<u8>, p: int, size: Size) -> bool {{ bnd(x.bounds, p, size) }}
    open spec fn fgot(x: Self::Bounds, lo: int, hi: int) -> bool {{ sane(x.bounds, lo, hi) }}''')
    o(f'''=== fn atom::{m}::<{m.capitalize()}Bounds as Deref>::deref
    ensures *r == self.bounds''')
L = {'Udta':"<'_>", 'Meta':"<'_>", 'Ilst':"<'_>"}
for m, t, s, ch in [
    ('mdia','Mdia',0,[('minf','Minf',0)]), ('minf','Minf',0,[('stbl','Stbl',0)]),
    ('stbl','Stbl',0,[('stco','Stco',0),('co64','Co64',0)]), ('trak','Trak',0,[('mdia','Mdia',0)]),
    ('udta','Udta',0,[('meta','Meta',0)]), ('meta','Meta',4,[('hdlr','Hdlr',0),('ilst','Ilst',0)]),
    ('moov','Moov',0,[('trak','Trak',1),('udta','Udta',0)])]:
    pre = {0: '', 4: 'b.len() >= 4 && b[0] == 0 && '}[s]
    wf = ''.join(f" && kids_fwf::<{c}{L.get(c,'')}>(b, {s}, f_{f}())" for f, c, v in ch)
    def at(ks, x):
        return ''.join((f"\n            && all_at::<{c}{L.get(c,'')}>({x}{f}@, d, p, kids_of({ks}, f_{f}()))" if v else
                        f"\n            && opt_at::<{c}{L.get(c,'')}>({x}{f}, d, p, last_kid({ks}, f_{f}()))") for f, c, v in ch)
    def got(x, lo):
        return ''.join((f" && all_got::<{c}{L.get(c,'')}>({x}{f}@, {lo})" if v else f" && opt_got::<{c}{L.get(c,'')}>({x}{f}, {lo})") for f, c, v in ch)
    o(f'''=== impl atom::{m}::<{t} as FindAtom>
    open spec fn fwf(b: Seq<u8>) -> bool {{ {pre}kids(b, {s}) is Some{wf} }}
    open spec fn at(x: Self::Bounds, d: Seq<u8>, p: int, size: Size) -> bool {{
        bnd(x.bounds, p, size){at(f'kids(part(d, p, size), {s})->Some_0', 'x.')}
    }}
    open spec fn fgot(x: Self::Bounds, lo: int, hi: int) -> bool {{ sane(x.bounds, lo, hi){got('x.', 'x.bounds.pos + hlen(x.bounds.size), hi')} }}
=== fn atom::{m}::<{t} as FindAtom>::find_atom
--- at start
    let ghost d = reader.data();
    let ghost p = reader.pos();
    let ghost e = p + clen(size);
    let ghost b = content(reader, size);
    let ghost all = kids(b, {s})->Some_0;
    let ghost good = inside(reader, size) && Self::fwf(b);
    let ghost mut k: int = 0;
    proof {{ if good {{ assert(all.skip(0) =~= all); }} }}
--- loop 0
    invariant
        swf(reader), same(reader, old(reader)), szf(size), parsed_bytes <= clen(size) + i64::MAX,
        d == old(reader).data(), p == old(reader).pos(), hlen(size) <= p <= d.len(), e == p + clen(size), b == content(old(reader), size),
        bnd(bounds, p, size),
        all == kids(b, {s})->Some_0, good == (inside(old(reader), size) && Self::fwf(b)),
        reader.pos() >= p{got('', 'p, d.len() as int')},
        good ==> 0 <= k <= all.len() && parsed_bytes <= b.len() && reader.pos() == p + parsed_bytes
            && kids(b, parsed_bytes as int) == Some(all.skip(k)){at('all.take(k)', '')},
    decreases (if parsed_bytes < clen(size) {{ clen(size) - parsed_bytes }} else {{ 0 }})
--- at loop 0 start
    proof {{ if good {{ lemma_step(d, p, e, {s}, parsed_bytes as int, k); }} }}
--- at loop 0 end
    proof {{ k = k + 1; }}
--- at end
    proof {{ if good {{ lemma_last(b, {s}, k); }} }}''')
for m in ['moov', 'udta', 'meta']:
    o(f'''=== fn atom::{m}::<{m.capitalize()}Bounds as Deref>::deref
    ensures *r == self.bounds''')
open(sys.argv[1], 'w').write('\n'.join(OUT) + '\n')
