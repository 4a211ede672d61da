#!/usr/bin/env python3
"""Writes specs/23_parse.spec: the contracts of the container atoms, which differ only in names."""
import sys
# module, type, start of the children, known child, field
C = [('mdia','Mdia',0,'minf','Minf'),('minf','Minf',0,'stbl','Stbl'),('stbl','Stbl',0,'stsd','Stsd'),
     ('trak','Trak',0,'mdia','Mdia'),('udta','Udta',0,'meta','Meta'),('stsd','Stsd',8,'mp4a','Mp4a'),
     ('meta','Meta',4,'ilst','Ilst')]
HEAD = """--- at start
    let ghost d = reader.data();
    let ghost p0 = reader.pos();
    let ghost e = p0 + clen(size);
    let ghost b = content(reader, size);
    let ghost all = kids(b, {s})->Some_0;
    let ghost good = inside(reader, size) && Self::wf(b);
    let ghost mut k: int = 0;
    proof {{ if good {{ assert(all.skip(0) =~= all); }} }}
"""
LOOP = """--- loop 0
    invariant
        swf(reader), same(reader, old(reader)), szf(size), parsed_bytes <= clen(size) + i64::MAX,
        d == old(reader).data(), p0 == old(reader).pos(), 0 <= p0 <= d.len(), e == p0 + clen(size), b == content(old(reader), size),
        all == kids(b, {s})->Some_0, good == (inside(old(reader), size) && Self::wf(b)),
        good ==> 0 <= k <= all.len() && parsed_bytes <= b.len() && reader.pos() == p0 + parsed_bytes
            && kids(b, parsed_bytes as int) == Some(all.skip(k)){inv},
    decreases (if parsed_bytes < clen(size) {{ clen(size) - parsed_bytes }} else {{ 0 }})
--- at loop 0 start
    proof {{ if good {{ lemma_step(d, p0, e, {s}, parsed_bytes as int, k); }} }}
--- at loop 0 end
    proof {{ k = k + 1; }}
--- at end
    proof {{ if good {{ lemma_last(b, {s}, k); }} }}
"""
def main():
    o = ["# generated by tools/gen/containers.py"]
    for m, t, s, child, ct in C:
        lt = "<'_>" if t in ('Udta', 'Meta') else ''
        clt = "<'_>" if ct in ('Udta', 'Meta', 'Ilst') else ''
        pre = {0: '', 4: 'b.len() >= 4 && b[0] == 0 && ', 8: 'b.len() >= 8 && b[0] == 0 && '}[s]
        o.append(f"=== impl atom::{m}::<{t} as ParseAtom>")
        o.append(f"    open spec fn wf(b: Seq<u8>) -> bool {{ {pre}kids(b, {s}) is Some && kids_wf::<{ct}{clt}>(b, {s}, f_{child}()) }}")
        o.append(f"    open spec fn is(&self, b: Seq<u8>) -> bool {{ opt_is(self.{child}, last_body(b, kids(b, {s})->Some_0, f_{child}())) }}")
        o.append("    open spec fn got(&self, d: Seq<u8>, p: int, size: Size) -> bool { true }")
        o.append(f"=== fn atom::{m}::<{t} as ParseAtom>::parse_atom")
        inv = f"\n            && opt_is({m}.{child}, last_body(b, all.take(k), f_{child}()))"
        h = HEAD.format(s=s)
        l = LOOP.format(s=s, inv=inv)
        o.append(h.rstrip()); o.append(l.rstrip())
    open(sys.argv[1], 'w').write('\n'.join(o) + '\n')
main()
