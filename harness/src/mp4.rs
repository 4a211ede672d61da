//! An MPEG-4 container model of its own: a builder and a strict parser, written from the file format,
//! sharing nothing with the library.
use crate::rng::Rng;

pub type Cc = [u8; 4];

#[derive(Clone, Debug)]
pub enum C {
    Raw(Vec<u8>),
    /// bytes in front of the children, children
    Kids(Vec<u8>, Vec<Node>),
    /// chunk offset table: 64 bit entries?, (index of the top level mdat, offset into its content)
    Table(bool, Vec<Ref>),
}
#[derive(Clone, Debug)]
pub enum Ref { Media(usize, usize), Abs(u64) }

#[derive(Clone, Debug)]
pub struct Node { pub cc: Cc, pub ext: bool, pub c: C }

pub fn raw(cc: &Cc, b: Vec<u8>) -> Node { Node { cc: *cc, ext: false, c: C::Raw(b) } }
pub fn kids(cc: &Cc, k: Vec<Node>) -> Node { Node { cc: *cc, ext: false, c: C::Kids(vec![], k) } }
pub fn pkids(cc: &Cc, p: Vec<u8>, k: Vec<Node>) -> Node { Node { cc: *cc, ext: false, c: C::Kids(p, k) } }

impl Node {
    pub fn content_len(&self) -> usize {
        match &self.c {
            C::Raw(b) => b.len(),
            C::Kids(p, k) => p.len() + k.iter().map(|n| n.len()).sum::<usize>(),
            C::Table(w, r) => 8 + r.len() * if *w { 8 } else { 4 },
        }
    }
    pub fn hlen(&self) -> usize { if self.ext { 16 } else { 8 } }
    pub fn len(&self) -> usize { self.hlen() + self.content_len() }
    fn write(&self, out: &mut Vec<u8>, media: &[usize]) {
        if self.ext {
            out.extend(1u32.to_be_bytes());
            out.extend(self.cc);
            out.extend((self.len() as u64).to_be_bytes());
        } else {
            out.extend((self.len() as u32).to_be_bytes());
            out.extend(self.cc);
        }
        match &self.c {
            C::Raw(b) => out.extend(b),
            C::Kids(p, k) => { out.extend(p); for n in k { n.write(out, media) } }
            C::Table(w, r) => {
                out.extend([0u8; 4]);
                out.extend((r.len() as u32).to_be_bytes());
                for x in r {
                    let v = match x { Ref::Media(m, o) => media.get(*m).map_or(0, |p| *p as u64) + *o as u64, Ref::Abs(v) => *v };
                    if *w { out.extend(v.to_be_bytes()) } else { out.extend((v as u32).to_be_bytes()) }
                }
            }
        }
    }
}
pub fn build(top: &[Node]) -> Vec<u8> {
    let mut media = vec![];
    let mut pos = 0;
    for n in top { if &n.cc == b"mdat" { media.push(pos + n.hlen()); } pos += n.len(); }
    let mut out = vec![];
    for n in top { n.write(&mut out, &media) }
    out
}
/// the atoms, outermost first
pub fn each<'a>(ns: &'a mut [Node], f: &mut dyn FnMut(&mut Node)) {
    for n in ns { f(n); if let C::Kids(_, k) = &mut n.c { each(k, f) } }
}

// ------------------------------------------------------------------------------------------ parser
#[derive(Clone, Debug)]
pub struct At { pub cc: Cc, pub ext: bool, pub pos: usize, pub hlen: usize, pub end: usize, pub kids: Vec<At> }
impl At {
    pub fn body<'a>(&self, b: &'a [u8]) -> &'a [u8] { &b[self.pos + self.hlen..self.end] }
    pub fn kid(&self, cc: &Cc) -> Option<&At> { self.kids.iter().rev().find(|a| &a.cc == cc) }
}
/// offset of the children in the content of a container
fn container(cc: &Cc, depth: usize) -> Option<usize> {
    match (cc, depth) {
        (b"moov", 0) | (b"trak", 1) | (b"mdia", 2) | (b"minf", 3) | (b"stbl", 4) | (b"udta", 1) => Some(0),
        (b"meta", 2) => Some(4),
        _ => None,
    }
}
pub fn tile(b: &[u8], start: usize, end: usize, depth: usize) -> Result<Vec<At>, String> {
    let mut v = vec![];
    let mut p = start;
    while p < end {
        if end - p < 8 { return Err(format!("{} stray bytes at {p}, depth {depth}", end - p)); }
        let s = u32::from_be_bytes(b[p..p + 4].try_into().unwrap());
        let cc: Cc = b[p + 4..p + 8].try_into().unwrap();
        let (ext, hlen, len) = if s == 1 {
            if end - p < 16 { return Err(format!("header of {cc:?} at {p} is cut off")); }
            (true, 16, u64::from_be_bytes(b[p + 8..p + 16].try_into().unwrap()))
        } else { (false, 8, s as u64) };
        if len < hlen as u64 || len > (end - p) as u64 { return Err(format!("size {len} of {cc:?} at {p} doesn't fit, depth {depth}, {} bytes left", end - p)); }
        let e = p + len as usize;
        let mut at = At { cc, ext, pos: p, hlen, end: e, kids: vec![] };
        if let Some(skip) = container(&cc, depth) {
            if p + hlen + skip > e { return Err(format!("{cc:?} at {p} is too short")); }
            at.kids = tile(b, p + hlen + skip, e, depth + 1)?;
        }
        v.push(at);
        p = e;
    }
    Ok(v)
}
pub fn parse(b: &[u8]) -> Result<Vec<At>, String> { tile(b, 0, b.len(), 0) }
/// the flat atoms of some content
pub fn flat(b: &[u8]) -> Result<Vec<At>, String> { tile(b, 0, b.len(), 99) }

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Id { Cc(Cc), Free(Vec<u8>, Vec<u8>) }
/// one item: identifier and (type code, payload) of its values
pub type Item = (Id, Vec<(u32, Vec<u8>)>);

/// strict parser for an item list as this library writes it; `lax` skips unknown children
pub fn items(b: &[u8], lax: bool) -> Result<Vec<Item>, String> {
    let mut v: Vec<Item> = vec![];
    for a in flat(b)? {
        if lax && &a.cc == b"free" { continue; }
        let c = a.body(b);
        let (mut mean, mut name, mut vals) = (None, None, vec![]);
        for (i, k) in flat(c)?.iter().enumerate() {
            let x = k.body(c);
            match &k.cc {
                b"mean" if x.len() >= 4 => { if !lax && i != 0 { return Err("mean isn't first".into()); } if x[0] != 0 { return Err("version".into()); } mean = Some(x[4..].to_vec()) }
                b"name" if x.len() >= 4 => { if !lax && i != 1 { return Err("name isn't second".into()); } if x[0] != 0 { return Err("version".into()); } name = Some(x[4..].to_vec()) }
                b"data" if x.len() >= 8 => {
                    if x[0] != 0 { return Err("version".into()); }
                    if !lax && x[4..8] != [0; 4] { return Err("locale".into()); }
                    vals.push((u32::from_be_bytes([0, x[1], x[2], x[3]]), x[8..].to_vec()))
                }
                _ if lax => {}
                cc => return Err(format!("unexpected atom {cc:?} in an item")),
            }
        }
        if vals.is_empty() { return Err(format!("item {:?} without a value", a.cc)); }
        let id = match (&a.cc, mean, name) { (b"----", Some(m), Some(n)) => Id::Free(m, n), _ => Id::Cc(a.cc) };
        v.push((id, vals));
    }
    Ok(v)
}
/// one entry per identifier
pub fn merge(v: Vec<Item>) -> Vec<Item> {
    let mut r: Vec<Item> = vec![];
    for (i, d) in v {
        match r.iter_mut().find(|x| x.0 == i) { Some(x) => x.1.extend(d), None => r.push((i, d)) }
    }
    r
}

// ------------------------------------------------------------------------------------------ generator
pub struct Media { pub dur: Option<(u8, u32, u64)>, pub audio: Vec<Option<Audio>> }
#[derive(Clone, Debug)]
pub struct Audio { pub max: u32, pub avg: u32, pub ds: Option<(u8, u8)> }

fn junk(r: &mut Rng) -> Node {
    let cc: Cc = match r.below(6) { 0 => *b"free", 1 => *b"skip", 2 => *b"uuid", 3 => *b"wide", 4 => *b"iods", _ => *r.pick(&[*b"abcd", *b"Xtra", [0xa9, b'x', b'y', b'z'], *b"tapt", *b"edts"]) };
    let n = if r.chance(1, 12) { r.range(8000, 9000) } else { r.below(24) };
    raw(&cc, r.bytes(n))
}
fn sprinkle(r: &mut Rng, v: &mut Vec<Node>) {
    while r.chance(1, 4) { let j = junk(r); let i = r.below(v.len() + 1); v.insert(i, j); }
}
pub fn desc(r: &mut Rng, tag: u8, body: Vec<u8>) -> Vec<u8> {
    let mut v = vec![tag];
    let n = body.len() as u32;
    let digits = [(n >> 21) as u8 & 0x7f, (n >> 14) as u8 & 0x7f, (n >> 7) as u8 & 0x7f, n as u8 & 0x7f];
    let first = digits.iter().position(|d| *d != 0).unwrap_or(3);
    let first = r.range(0, first);
    for (i, d) in digits.iter().enumerate().skip(first) { v.push(if i < 3 { d | 0x80 } else { *d }); }
    v.extend(body);
    v
}
/// length of a descriptor nobody knows
fn dlen(r: &mut Rng) -> usize { match r.below(12) { 0 => r.range(120, 136), 1 => r.range(200, 700), 2 => r.range(16_300, 17_000), _ => r.below(4) } }
/// any number, but preferably a special one
fn rate(r: &mut Rng) -> u32 { match r.below(8) { 0 => 0, 1 => 1, 2 => u32::MAX, 3 => 1 << r.below(32), _ => r.next() as u32 } }
pub fn esds(r: &mut Rng, a: &Audio) -> Vec<u8> {
    let mut dc = r.bytes(5);
    dc.extend(a.max.to_be_bytes());
    dc.extend(a.avg.to_be_bytes());
    if r.chance(1, 6) { let n = dlen(r); let b = r.bytes(n); dc.extend(desc(r, 0x80, b)); }
    if let Some((f, c)) = a.ds {
        let profile = r.below(32) as u16;
        let num = profile << 11 | (f as u16) << 7 | (c as u16) << 3 | r.below(8) as u16;
        let mut b = num.to_be_bytes().to_vec();
        if r.chance(1, 3) { let n = dlen(r); b.extend(r.bytes(n)); }
        dc.extend(desc(r, 5, b));
    }
    if r.chance(1, 6) { let n = dlen(r); let b = r.bytes(n); dc.extend(desc(r, 0x80, b)); }
    let mut es = r.bytes(3);
    if r.chance(1, 6) { let n = dlen(r); let b = r.bytes(n); es.extend(desc(r, 0x0e, b)); }
    es.extend(desc(r, 4, dc));
    if r.chance(1, 2) { es.extend(desc(r, 6, vec![2])); }
    let mut v = vec![0, 0, 0, 0];
    v.extend(desc(r, 3, es));
    v
}
fn stsd(r: &mut Rng, a: &Audio) -> Node {
    let e = raw(b"esds", esds(r, a));
    let mut k = vec![e];
    if r.chance(1, 4) { let j = junk(r); k.push(j); }
    let mp4a = pkids(b"mp4a", r.bytes(28), k);
    let mut l = vec![mp4a];
    if r.chance(1, 5) { let j = raw(b"avc1", r.bytes(9)); let i = r.below(2); l.insert(i, j); }
    let mut p = vec![0, 0, 0, 0];
    p.extend((l.len() as u32).to_be_bytes());
    pkids(b"stsd", p, l)
}
fn mdat_lens(r: &mut Rng, n: usize) -> Vec<usize> { (0..n).map(|_| match r.below(10) { 0 => 0, 1 => r.range(8000, 20000), _ => r.range(1, 60) }).collect() }

fn text(r: &mut Rng) -> String {
    let n = match r.below(12) { 0 => 0, 1 => r.range(100, 300), _ => r.range(1, 12) };
    (0..n).map(|_| match r.below(8) {
        0 => char::from_u32(r.range(0x80, 0x7ff) as u32).unwrap(),
        1 => *r.pick(&['\u{0}', '\u{7f}', '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{ffff}', '\u{800}', '\u{20ac}', '\u{feff}', '\u{fffe}']),
        2 => char::from_u32(r.range(0x10000, 0x10ffff) as u32).unwrap(),
        _ => char::from_u32(r.range(0x20, 0x7e) as u32).unwrap(),
    }).collect()
}
pub fn rtext(r: &mut Rng) -> String { text(r) }

pub fn payload(r: &mut Rng, code: u32) -> Vec<u8> {
    match code {
        1 => text(r).into_bytes(),
        2 => text(r).encode_utf16().flat_map(|u| u.to_be_bytes()).collect(),
        _ => { let n = match r.below(40) { 0 => r.range(8000, 9000), 1 => 0, 2 => r.range(66_000, 70_000), 3..=8 => r.range(100, 400), _ => r.range(1, 12) }; r.bytes(n) }
    }
}
pub const CODES: [u32; 7] = [0, 1, 2, 13, 14, 21, 27];

pub fn ident(r: &mut Rng) -> Id {
    match r.below(8) {
        0..=4 => {
            let known: [&Cc; 14] = [b"\xa9nam", b"\xa9ART", b"\xa9alb", b"trkn", b"disk", b"covr", b"gnre", b"\xa9gen", b"cpil", b"tmpo", b"stik", b"desc", b"aART", b"\xa9day"];
            Id::Cc(**r.pick(&known))
        }
        5 => { let c: Cc = match r.below(8) { 0 => *b"----", 1 => *b"data", 2 => *b"mean", 3 => *b"name", 4 => *b"ilst", 5 => [0, 0, 0, 8], _ => r.bytes(4).try_into().unwrap() }; if &c == b"free" { Id::Cc(*b"fref") } else { Id::Cc(c) } }
        6 => Id::Free(b"com.apple.iTunes".to_vec(), r.pick(&["ISRC", "LYRICIST", "x", "", "CONDUCTOR"]).as_bytes().to_vec()),
        _ if r.chance(1, 60) => { let k = r.range(65_500, 66_000); let mut l = [text(r).into_bytes(), vec![b'x'; k]]; r.chance(1, 2).then(|| l.swap(0, 1)); let [m, n] = l; Id::Free(m, n) }
        _ => { let m = text(r); let n = text(r); Id::Free(m.into_bytes(), n.into_bytes()) }
    }
}
pub fn rand_items(r: &mut Rng, max: usize) -> Vec<Item> {
    let mut v: Vec<Item> = vec![];
    for _ in 0..r.below(max + 1) {
        let id = ident(r);
        if v.iter().any(|x| x.0 == id) { continue; }
        let n = if r.chance(1, 4) { r.range(2, 4) } else { 1 };
        let d = (0..n).map(|_| { let c = *r.pick(&CODES); (c, payload(r, c)) }).collect();
        v.push((id, d));
    }
    v
}
pub fn data_atom(code: u32, p: &[u8]) -> Node {
    let mut b = code.to_be_bytes().to_vec();
    b.extend([0; 4]);
    b.extend(p);
    raw(b"data", b)
}
pub fn item_node(i: &Item) -> Node {
    let mut k = vec![];
    let cc = match &i.0 {
        Id::Cc(c) => *c,
        Id::Free(m, n) => {
            k.push(raw(b"mean", [&[0; 4], &m[..]].concat()));
            k.push(raw(b"name", [&[0; 4], &n[..]].concat()));
            *b"----"
        }
    };
    for (c, p) in &i.1 { k.push(data_atom(*c, p)); }
    kids(&cc, k)
}
pub fn hdlr() -> Vec<u8> { let mut v = vec![0; 8]; v.extend(b"mdirappl"); v.extend([0; 9]); v }

/// a file's item list with everything a reader has to cope with: padding, unknown atoms inside of items,
/// several atoms with the same identifier, any order of mean, name and data
pub fn noisy_ilst(r: &mut Rng, want: &[Item]) -> Node {
    let mut l: Vec<Node> = vec![];
    for it in want {
        // split the values over several atoms
        let mut vals = it.1.clone();
        let mut first = true;
        while first || !vals.is_empty() {
            first = false;
            let n = r.range(1, vals.len());
            let rest = vals.split_off(n);
            let mut node = item_node(&(it.0.clone(), vals));
            vals = rest;
            if let C::Kids(_, k) = &mut node.c {
                // the identifying atoms anywhere between the values
                if matches!(it.0, Id::Free(..)) && r.chance(1, 3) {
                    for _ in 0..2 { let x = k.remove(0); let i = r.below(k.len() + 1); k.insert(i, x); }
                }
                while r.chance(1, 5) { let j = raw(&r.pick(&[*b"junk", *b"free", *b"itif"]).clone(), vec![1, 2, 3]); let i = r.below(k.len() + 1); k.insert(i, j); }
                for d in k.iter_mut() { if &d.cc == b"data" && r.chance(1, 5) { if let C::Raw(b) = &mut d.c { b[4..8].copy_from_slice(&[0, 1, 2, 3]); } } }
                for d in k.iter_mut() { if (&d.cc == b"mean" || &d.cc == b"name") && r.chance(1, 5) { if let C::Raw(b) = &mut d.c { b[3] = 7; } } }
            }
            l.push(node);
            while r.chance(1, 6) { let n = r.below(9); l.push(raw(b"free", vec![0xff; n])); }
        }
    }
    if r.chance(1, 3) { r.shuffle(&mut l); }
    kids(b"ilst", l)
}
/// what a reader has to make of the content of an item list
pub fn meaning(content: &[u8]) -> Vec<Item> { merge(items(content, true).unwrap()) }
pub fn content(n: &Node) -> Vec<u8> { let mut b = vec![]; n.write(&mut b, &[]); b.split_off(n.hlen()) }

pub struct Shape { pub top: Vec<Node>, pub items: Vec<Item>, pub media: Media, pub ftyp: String }

/// a random well-formed file
pub fn file(r: &mut Rng) -> Shape {
    let ftyp = if r.chance(1, 2) { "M4A \0\0\u{2}\0isomiso2".to_string() } else { let t = text(r); format!("{t}mp42") };
    let nmdat = match r.below(8) { 0 => 0, 1..=4 => 1, 5 | 6 => 2, _ => 3 };
    let lens = mdat_lens(r, nmdat);
    let mut mk: Vec<(Node, Option<Option<Audio>>)> = vec![];
    let mut media = Media { dur: None, audio: vec![] };
    if r.chance(9, 10) {
        let rx = r.next() as u32 | 1;
        let ts = *r.pick(&[1, 2, 3, 600, 1000, 44100, 48000, 90000, u32::MAX, rx]);
        let v1 = r.chance(1, 2);
        let d: u64 = match r.below(7) { 0 => 0, 6 => u64::MAX - r.below(2) as u64, 1 => r.next() >> 1, 2 => u32::MAX as u64, 3 => r.below(1000) as u64, _ => r.next() >> 33 };
        let d = if v1 { d } else { d as u32 as u64 };
        let mut b = vec![v1 as u8, 0, 0, 0];
        b.extend(r.bytes(if v1 { 16 } else { 8 }));
        b.extend(ts.to_be_bytes());
        if v1 { b.extend(d.to_be_bytes()) } else { b.extend((d as u32).to_be_bytes()) }
        if r.chance(9, 10) { b.extend(r.bytes(80)); }
        mk.push((raw(b"mvhd", b), None));
        media.dur = Some((v1 as u8, ts, d));
    }
    let ntrak = match r.below(8) { 0 => 0, 1..=4 => 1, 5 | 6 => 2, _ => 3 };
    for _ in 0..ntrak {
        let audio = if r.chance(3, 4) { Some(Audio { max: rate(r), avg: rate(r), ds: if r.chance(7, 8) { Some((r.below(16) as u8, r.below(16) as u8)) } else { None } }) } else { None };
        let mut sk = vec![];
        match &audio {
            Some(a) => sk.push(stsd(r, a)),
            None => if r.chance(1, 2) { sk.push(pkids(b"stsd", vec![0; 8], vec![raw(b"avc1", r.bytes(20))])) },
        }
        sk.push(raw(b"stts", r.bytes(16)));
        let table = |r: &mut Rng, wide| {
            let n = match r.below(6) { 0 => 0, 1 if r.chance(1, 3) => r.range(2100, 2300), _ => r.range(1, 6) };
            C::Table(wide, (0..n).map(|_| if nmdat > 0 { let m = r.below(nmdat); Ref::Media(m, r.below(lens[m].max(1))) } else { Ref::Abs(r.below(5) as u64) }).collect())
        };
        match r.below(8) {
            0..=3 => { let t = table(r, false); sk.push(Node { cc: *b"stco", ext: false, c: t }) }
            4 | 5 => { let t = table(r, true); sk.push(Node { cc: *b"co64", ext: false, c: t }) }
            6 => { let t = table(r, false); sk.push(Node { cc: *b"stco", ext: false, c: t }); let t = table(r, true); sk.push(Node { cc: *b"co64", ext: false, c: t }) }
            _ => {}
        }
        if r.chance(1, 2) { r.shuffle(&mut sk); }
        sprinkle(r, &mut sk);
        let mut ik = vec![raw(b"smhd", vec![0; 8]), kids(b"stbl", sk)];
        sprinkle(r, &mut ik);
        let mut dk = vec![raw(b"mdhd", r.bytes(24)), raw(b"hdlr", hdlr()), kids(b"minf", ik)];
        if r.chance(1, 3) { r.shuffle(&mut dk); }
        sprinkle(r, &mut dk);
        let mut tk = vec![raw(b"tkhd", r.bytes(84)), kids(b"mdia", dk)];
        if r.chance(1, 3) { r.shuffle(&mut tk); }
        sprinkle(r, &mut tk);
        mk.push((kids(b"trak", tk), Some(audio)));
    }
    let items = rand_items(r, 5);
    let mut have = vec![];
    let depth = r.below(8);
    if depth > 0 {
        let mut uk = vec![];
        if depth > 1 {
            let mut ek = vec![];
            if depth != 3 { ek.push(raw(b"hdlr", hdlr())); }
            if depth > 2 { let l = noisy_ilst(r, &items); have = meaning(&content(&l)); ek.push(l); }
            if r.chance(1, 4) { r.shuffle(&mut ek); }
            sprinkle(r, &mut ek);
            uk.push(pkids(b"meta", vec![0, r.byte(), 0, 0], ek));
        }
        sprinkle(r, &mut uk);
        mk.push((kids(b"udta", uk), None));
    }
    while r.chance(1, 4) { let j = junk(r); let i = r.below(mk.len() + 1); mk.insert(i, (j, None)); }
    if r.chance(1, 2) { r.shuffle(&mut mk); }
    media.audio = mk.iter().filter_map(|x| x.1.clone()).collect();
    let mk: Vec<Node> = mk.into_iter().map(|x| x.0).collect();
    let mut top: Vec<Node> = vec![kids(b"moov", mk)];
    for l in &lens { let n = raw(b"mdat", r.bytes(*l)); let i = r.below(top.len() + 1); top.insert(i, n); }
    // media references name the mdat by its position in the file
    {
        let l2: Vec<usize> = top.iter().filter(|n| &n.cc == b"mdat").map(|n| n.content_len()).collect();
        let mut fix = |n: &mut Node| if let C::Table(_, t) = &mut n.c { for x in t { if let Ref::Media(m, o) = x { *o %= l2[*m].max(1); } } };
        each(&mut top, &mut fix);
    }
    sprinkle(r, &mut top);
    top.insert(0, raw(b"ftyp", ftyp.clone().into_bytes()));
    Shape { top, items: have, media, ftyp }
}
