//! One executable statement per property: `Err` describes a violation.  Expectations come from `mp4`
//! (a container model of its own) or from small reference models in this file, never from the library.
use crate::mp4::*;
use crate::rng::Rng;
use mp4ameta::{ident, AdvisoryRating, AudioInfo, ChannelConfig, Data, DataIdent, Fourcc, FreeformIdent, Ident, Img, ImgFmt, MediaType, SampleRate, Tag, STANDARD_GENRES};
use std::convert::TryFrom;
use std::io::{Cursor, Read, Seek, SeekFrom, Write};
use std::path::PathBuf;
use std::time::Duration;

pub type R = Result<(), String>;
pub type F = fn(&mut Rng, u64) -> R;

pub fn get(p: &str) -> Option<F> {
    Some(match p {
        "P01" => p01, "P02" => p02, "P03" => p03, "P04" => p04, "P05" => p05, "P06" => p06, "P07" => p07, "P08" => p08, "P09" => p09,
        "P10" => p10, "P11" => crate::acc::p11, "P12" => p12, "P13" => p13, "P14" => p14, "P15" => p15, "P16" => p16, "P17" => p17, "P18" => p18, "P19" => crate::print::p19,
        _ => return None,
    })
}

#[macro_export]
macro_rules! ck { ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } } }

pub fn hex(b: &[u8]) -> String {
    let n = b.len().min(4000);
    let mut s: String = b[..n].iter().map(|x| format!("{x:02x}")).collect();
    if n < b.len() { s.push_str(&format!("...({} bytes)", b.len())); }
    s
}
pub fn data(code: u32, p: &[u8]) -> Data {
    match code {
        0 => Data::Reserved(p.to_vec()),
        1 => Data::Utf8(String::from_utf8(p.to_vec()).unwrap()),
        2 => Data::Utf16(char::decode_utf16(p.chunks(2).map(|c| u16::from_be_bytes([c[0], c[1]]))).map(|c| c.unwrap()).collect()),
        13 => Data::Jpeg(p.to_vec()),
        14 => Data::Png(p.to_vec()),
        21 => Data::BeSigned(p.to_vec()),
        27 => Data::Bmp(p.to_vec()),
        _ => unreachable!(),
    }
}
pub fn undata(d: &Data) -> (u32, Vec<u8>) {
    match d {
        Data::Reserved(v) => (0, v.clone()),
        Data::Utf8(s) => (1, s.as_bytes().to_vec()),
        Data::Utf16(s) => (2, s.chars().flat_map(|c| { let mut b = [0; 2]; c.encode_utf16(&mut b).to_vec() }).flat_map(|u| u.to_be_bytes()).collect()),
        Data::Jpeg(v) => (13, v.clone()),
        Data::Png(v) => (14, v.clone()),
        Data::BeSigned(v) => (21, v.clone()),
        Data::Bmp(v) => (27, v.clone()),
    }
}
pub fn did(i: &Id) -> DataIdent {
    match i {
        Id::Cc(c) => DataIdent::Fourcc(Fourcc(*c)),
        Id::Free(m, n) => DataIdent::Freeform { mean: String::from_utf8(m.clone()).unwrap(), name: String::from_utf8(n.clone()).unwrap() },
    }
}
pub fn unid(i: &DataIdent) -> Id {
    match i {
        DataIdent::Fourcc(c) => Id::Cc(c.0),
        DataIdent::Freeform { mean, name } => Id::Free(mean.as_bytes().to_vec(), name.as_bytes().to_vec()),
    }
}
pub fn to_tag(v: &[Item]) -> Tag {
    let mut t = Tag::default();
    for (i, d) in v { for (c, p) in d { t.add_data(did(i), data(*c, p)); } }
    t
}
pub fn of_tag(t: &Tag) -> Vec<Item> {
    let mut v: Vec<Item> = vec![];
    let mut last: *const DataIdent = std::ptr::null();
    for (i, d) in t.data() {
        if last != i as *const _ { v.push((unid(i), vec![])); last = i; }
        v.last_mut().unwrap().1.push(undata(d));
    }
    v
}
pub fn show(v: &[Item]) -> String {
    v.iter().map(|(i, d)| format!("{i:?}: {}", d.iter().map(|(c, p)| format!("({c}, {})", hex(p))).collect::<Vec<_>>().join(" "))).collect::<Vec<_>>().join("; ")
}

// ------------------------------------------------------------------------------------------ files
pub fn scratch() -> PathBuf {
    let d = std::env::var_os("HARNESS_SCRATCH").map(PathBuf::from).unwrap_or_else(std::env::temp_dir);
    d.join(format!("case-{}.m4a", std::process::id()))
}
/// writes the tag to a file with the content `b`
pub fn write(b: &[u8], t: &Tag, by_path: bool) -> (Result<(), String>, Vec<u8>) {
    let p = scratch();
    std::fs::write(&p, b).unwrap();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if by_path { t.write_to_path(&p) } else {
        let f = std::fs::OpenOptions::new().read(true).write(true).open(&p).unwrap();
        t.write_to(&f)
    }));
    let a = std::fs::read(&p).unwrap();
    let _ = std::fs::remove_file(&p);
    match r { Ok(r) => (r.map_err(|e| format!("{:?} {}", e.kind, e.description)), a), Err(e) => std::panic::resume_unwind(e) }
}
pub fn read(b: &[u8]) -> Result<Tag, String> { Tag::read_from(&mut Cursor::new(b)).map_err(|e| format!("{:?} {}", e.kind, e.description)) }

fn info(m: &Media) -> AudioInfo {
    let mut i = AudioInfo::default();
    if let Some((_, ts, d)) = m.dur {
        let ns = d as u128 * 1_000_000_000 / ts as u128;
        i.duration = Some(Duration::new((ns / 1_000_000_000) as u64, (ns % 1_000_000_000) as u32));
    }
    if let Some(a) = m.audio.iter().flatten().next() {
        i.max_bitrate = Some(a.max);
        i.avg_bitrate = Some(a.avg);
        if let Some((f, c)) = a.ds {
            i.sample_rate = rate(f);
            i.channel_config = chan(c);
        }
    }
    i
}
const RATES: [(SampleRate, u32); 13] = [
    (SampleRate::Hz96000, 96000), (SampleRate::Hz88200, 88200), (SampleRate::Hz64000, 64000), (SampleRate::Hz48000, 48000), (SampleRate::Hz44100, 44100),
    (SampleRate::Hz32000, 32000), (SampleRate::Hz24000, 24000), (SampleRate::Hz22050, 22050), (SampleRate::Hz16000, 16000), (SampleRate::Hz12000, 12000),
    (SampleRate::Hz11025, 11025), (SampleRate::Hz8000, 8000), (SampleRate::Hz7350, 7350)];
const CHANS: [(ChannelConfig, u8); 7] = [
    (ChannelConfig::Mono, 1), (ChannelConfig::Stereo, 2), (ChannelConfig::Three, 3), (ChannelConfig::Four, 4), (ChannelConfig::Five, 5),
    (ChannelConfig::FiveOne, 6), (ChannelConfig::SevenOne, 8)];
fn rate(i: u8) -> Option<SampleRate> { RATES.get(i as usize).map(|x| x.0) }
fn chan(i: u8) -> Option<ChannelConfig> { if i == 0 { None } else { CHANS.get(i as usize - 1).map(|x| x.0) } }

fn shape(r: &mut Rng) -> Shape {
    let mut s = file(r);
    if r.chance(1, 3) {
        let d = r.range(2, 8);
        let mut flips: Vec<bool> = vec![];
        for _ in 0..4096 { flips.push(r.chance(1, d)); }
        let mut k = 0;
        each(&mut s.top, &mut |n| { n.ext = flips[k % 4096]; k += 1; });
    }
    s
}
/// moves the offsets of 64 bit tables from `from` on by `h`
fn shift(b: &mut [u8], from: u64, h: u64) -> Option<()> {
    fn tabs(t: &[At], d: usize, out: &mut Vec<(usize, usize, bool)>) {
        for n in t {
            if d == 5 && (&n.cc == b"stco" || &n.cc == b"co64") { out.push((n.pos + n.hlen + 8, n.end, &n.cc == b"co64")) }
            if [&b"moov", b"trak", b"mdia", b"minf", b"stbl"].get(d).map_or(false, |c| *c == &n.cc) { tabs(&n.kids, d + 1, out) }
        }
    }
    let mut l = vec![];
    tabs(&parse(b).ok()?, 0, &mut l);
    for (lo, hi, wide) in l {
        if !wide && hi > lo { return None; }
        for i in (lo..hi).step_by(8) {
            let v = u64::from_be_bytes(b[i..i + 8].try_into().unwrap());
            if v >= from { b[i..i + 8].copy_from_slice(&v.wrapping_add(h).to_be_bytes()); }
        }
    }
    Some(())
}
/// writing to the same file with several gigabytes of media data in front of the movie has the same result
fn far(b: &[u8], t: &Tag, a: &[u8]) -> R {
    const H: u64 = 5_000_000_000;
    let x = parse(b).unwrap();
    let Some(moov) = x.iter().position(|n| &n.cc == b"moov") else { return Ok(()) };
    let Some(m) = x[..moov].iter().find(|n| &n.cc == b"mdat" && n.ext) else { return Ok(()) };
    let end = m.end;
    let size = m.pos + 8..m.pos + 16;
    let grow = |b: &mut [u8], h: u64| { let s = &mut b[size.clone()]; let l = u64::from_be_bytes((&*s).try_into().unwrap()).wrapping_add(h); s.copy_from_slice(&l.to_be_bytes()) };
    let mut c = b.to_vec();
    if shift(&mut c, end as u64, H).is_none() { return Ok(()) }
    grow(&mut c, H);
    let p = scratch();
    let made = (|| -> std::io::Result<std::fs::File> {
        let mut f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&p)?;
        f.write_all(&c[..end])?;
        f.seek(SeekFrom::Start(end as u64 + H))?;
        f.write_all(&c[end..])?;
        f.set_len(c.len() as u64 + H)?;
        f.seek(SeekFrom::Start(0))?;
        Ok(f)
    })();
    let Ok(mut f) = made else { let _ = std::fs::remove_file(&p); return Ok(()) };
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.write_to(&f).map_err(|e| e.description)));
    let len = f.metadata().unwrap().len();
    let mut g = vec![0; end];
    let _ = f.seek(SeekFrom::Start(0)).and_then(|_| f.read_exact(&mut g)).and_then(|_| f.seek(SeekFrom::Start(end as u64 + H)));
    if len < 100_000_000 + H { let _ = f.read_to_end(&mut g); }
    drop(f);
    let _ = std::fs::remove_file(&p);
    let res = match res { Ok(r) => r, Err(e) => std::panic::resume_unwind(e) };
    let ctx = || format!("file {} with {H} bytes inserted at {end}", hex(b));
    if let Err(e) = res { return Err(format!("{}: writing [{}] failed: {e}", ctx(), show(&of_tag(t)))); }
    grow(&mut g, H.wrapping_neg());
    let _ = shift(&mut g, end as u64 + H, H.wrapping_neg());
    ck!(g == a, "{}: writing [{}] leaves {} instead of {}", ctx(), show(&of_tag(t)), hex(&g), hex(a));
    Ok(())
}
/// a file, the items of the tag, the tag written to it and the resulting file
fn written(r: &mut Rng) -> Result<(Shape, Vec<u8>, Vec<Item>, Vec<u8>), String> {
    let s = shape(r);
    let mut b = build(&s.top);
    let mut rounds = if r.chance(1, 4) { 2 } else { 1 };
    loop {
        let mut items = rand_items(r, 6);
        // a small edit of what is there, often of the same length
        if r.chance(1, 5) {
            items = of_tag(&read(&b).map_err(|e| format!("the file {} can't be read: {e}", hex(&b)))?);
            if r.chance(3, 4) && !items.is_empty() {
                let i = r.below(items.len());
                match items[i].1.first_mut() {
                    Some((c, p)) if *c != 2 && !p.is_empty() => { let k = r.below(p.len()); if *c != 1 { p[k] = r.byte() } else if p[k] < 0x80 { p[k] = b'a' + r.byte() % 26 } }
                    _ => items[i].1.push((21, vec![r.byte()])),
                }
            }
            if r.chance(1, 4) { r.shuffle(&mut items); }
        }
        let t = to_tag(&items);
        let path = r.chance(1, 4);
        let (res, a) = write(&b, &t, path);
        if res.is_ok() && r.chance(1, 12) { far(&b, &t, &a)?; }
        if let Err(e) = res { return Err(format!("writing [{}] to the well-formed file {} failed: {e}", show(&items), hex(&b))); }
        rounds -= 1;
        if rounds == 0 { return Ok((s, b, items, a)); }
        b = a;
    }
}

fn p01(r: &mut Rng, _: u64) -> R {
    let (_, b, items, a) = written(r)?;
    let before = read(&b).map_err(|e| format!("the file {} can't be read: {e}", hex(&b)))?;
    let ctx = || format!("file {} tag [{}]", hex(&b), show(&items));
    let after = read(&a).map_err(|e| format!("{}: reading the written file failed: {e}", ctx()))?;
    ck!(of_tag(&after) == items, "{}: read back [{}]", ctx(), show(&of_tag(&after)));
    ck!(after.filetype() == before.filetype(), "{}: file type {:?} became {:?}", ctx(), before.filetype(), after.filetype());
    ck!(after.audio_info() == before.audio_info(), "{}: audio info {:?} became {:?}", ctx(), before.audio_info(), after.audio_info());
    Ok(())
}

/// own serializer of a dump
fn dumped(items: &[Item]) -> Vec<Node> {
    let ilst = kids(b"ilst", items.iter().map(item_node).collect());
    vec![raw(b"ftyp", b"M4A \0\0\x02\0isomiso2".to_vec()), kids(b"moov", vec![kids(b"udta", vec![pkids(b"meta", vec![0; 4], vec![raw(b"hdlr", hdlr()), ilst])])])]
}
fn dump(t: &Tag, path: bool) -> Result<Vec<u8>, String> {
    if path {
        let p = scratch();
        // what was at the path before is gone
        if t.data().count() % 2 == 1 { let _ = std::fs::write(&p, vec![7; 5000]); }
        let r = t.dump_to_path(&p);
        let b = std::fs::read(&p).unwrap_or_default();
        let _ = std::fs::remove_file(&p);
        return r.map(|_| b).map_err(|e| e.description);
    }
    let mut b = vec![];
    t.dump_to(&mut b).map_err(|e| e.description)?;
    Ok(b)
}
fn p02(r: &mut Rng, _: u64) -> R {
    let items = rand_items(r, 8);
    let t = to_tag(&items);
    let b = dump(&t, r.chance(1, 5)).map_err(|e| format!("dumping [{}] failed: {e}", show(&items)))?;
    let ctx = || format!("dump of [{}]: {}", show(&items), hex(&b));
    let tree = parse(&b).map_err(|e| format!("{}: {e}", ctx()))?;
    ck!(tree.len() == 2 && &tree[0].cc == b"ftyp" && &tree[1].cc == b"moov", "{}: doesn't consist of ftyp and moov", ctx());
    let back = read(&b).map_err(|e| format!("{}: can't be read: {e}", ctx()))?;
    ck!(of_tag(&back) == items, "{}: read back [{}]", ctx(), show(&of_tag(&back)));
    ck!(back.filetype().as_bytes() == tree[0].body(&b), "{}: file type {:?}", ctx(), back.filetype());
    if r.chance(1, 2) {
        let room = match r.below(4) { 0 => b.len(), 1 => b.len() - 1 - r.below(4), 2 => r.below(200), _ => r.below(b.len() + 20) };
        let mut w = Flaky { out: vec![], room, step: if r.chance(1, 2) { usize::MAX } else { r.range(1, 9) }, how: r.below(3) };
        let res = t.dump_to(&mut w);
        ck!(res.is_err() || w.out == b, "{}: the dump to a writer that takes {room} bytes succeeded and left {}", ctx(), hex(&w.out));
        ck!(res.is_ok() || room < b.len(), "{}: the dump to a writer that takes {room} bytes failed", ctx());
    }
    Ok(())
}
/// a writer that takes `room` bytes, `step` at a time
struct Flaky { out: Vec<u8>, room: usize, step: usize, how: usize }
impl Write for Flaky {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.room - self.out.len()).min(self.step);
        if n == 0 && !b.is_empty() {
            return match self.how { 0 => Ok(0), 1 => Err(std::io::ErrorKind::WriteZero.into()), _ => Err(std::io::Error::new(std::io::ErrorKind::Other, "full")) };
        }
        self.out.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

fn is_table(path: &[Cc]) -> bool { path.len() == 6 && path[4] == *b"stbl" && (path[5] == *b"stco" || path[5] == *b"co64") && path[0] == *b"moov" }
fn same(a: &[u8], x: &[At], b: &[u8], y: &[At], path: &mut Vec<Cc>) -> Result<(), String> {
    let here: Vec<Cc> = path.clone();
    let skip = |n: &At, xs: &[At]| -> bool {
        // the metadata that was replaced or added
        match (here.len(), &n.cc) {
            (3, b"ilst") if here[2] == *b"meta" && here[1] == *b"udta" => true,
            (3, b"hdlr") if here[2] == *b"meta" => !xs.iter().any(|o| &o.cc == b"hdlr"),
            (2, b"meta") if here[1] == *b"udta" => !xs.iter().any(|o| &o.cc == b"meta"),
            (1, b"udta") if here[0] == *b"moov" => !xs.iter().any(|o| &o.cc == b"udta"),
            _ => false,
        }
    };
    let l: Vec<&At> = x.iter().filter(|n| !(here.len() == 3 && here[2] == *b"meta" && &n.cc == b"ilst")).collect();
    let m: Vec<&At> = y.iter().filter(|n| !skip(n, x)).collect();
    if l.len() != m.len() { return Err(format!("{} atoms became {} atoms in {here:?}", l.len(), m.len())); }
    for (o, n) in l.iter().zip(&m) {
        if o.cc != n.cc { return Err(format!("{:?} became {:?} in {here:?}", o.cc, n.cc)); }
        if o.ext != n.ext { return Err(format!("the size header of {:?} in {here:?} changed its form", o.cc)); }
        path.push(o.cc);
        if container(&o.cc, path.len() - 1) {
            let pre = if &o.cc == b"meta" { 4 } else { 0 };
            if o.body(a)[..pre] != n.body(b)[..pre] { return Err(format!("the head of {path:?} changed")); }
            same(a, &o.kids, b, &n.kids, path)?;
        } else if is_table(path) {
            if o.body(a).len() != n.body(b).len() || o.body(a)[..8] != n.body(b)[..8] { return Err(format!("the head or length of {path:?} changed")); }
        } else if o.body(a) != n.body(b) {
            return Err(format!("the content of {path:?} changed"));
        }
        path.pop();
    }
    Ok(())
}
fn container(cc: &Cc, depth: usize) -> bool {
    matches!((cc, depth), (b"moov", 0) | (b"trak", 1) | (b"mdia", 2) | (b"minf", 3) | (b"stbl", 4) | (b"udta", 1) | (b"meta", 2))
}
fn p03(r: &mut Rng, _: u64) -> R {
    let (_, b, items, a) = written(r)?;
    let ctx = || format!("file {} tag [{}] result {}", hex(&b), show(&items), hex(&a));
    let x = parse(&b).unwrap();
    let y = parse(&a).map_err(|e| format!("{}: {e}", ctx()))?;
    same(&b, &x, &a, &y, &mut vec![]).map_err(|e| format!("{}: {e}", ctx()))
}

fn tables(b: &[u8], t: &[At]) -> Vec<Vec<u64>> {
    fn go(b: &[u8], t: &[At], d: usize, out: &mut Vec<Vec<u64>>) {
        for n in t {
            let x = n.body(b);
            if d == 5 && &n.cc == b"stco" { out.push(x[8..].chunks(4).map(|c| u32::from_be_bytes(c.try_into().unwrap()) as u64).collect()) }
            if d == 5 && &n.cc == b"co64" { out.push(x[8..].chunks(8).map(|c| u64::from_be_bytes(c.try_into().unwrap())).collect()) }
            if [&b"moov", b"trak", b"mdia", b"minf", b"stbl"].get(d).map_or(false, |c| *c == &n.cc) { go(b, &n.kids, d + 1, out) }
        }
    }
    let mut v = vec![];
    go(b, t, 0, &mut v);
    v
}
fn p04(r: &mut Rng, _: u64) -> R {
    let (_, b, items, a) = written(r)?;
    let ctx = || format!("file {} tag [{}] result {}", hex(&b), show(&items), hex(&a));
    let x = parse(&b).unwrap();
    let y = parse(&a).map_err(|e| format!("{}: {e}", ctx()))?;
    let mx: Vec<&At> = x.iter().filter(|n| &n.cc == b"mdat").collect();
    let my: Vec<&At> = y.iter().filter(|n| &n.cc == b"mdat").collect();
    ck!(mx.len() == my.len(), "{}: media data was lost", ctx());
    let (tx, ty) = (tables(&b, &x), tables(&a, &y));
    ck!(tx.len() == ty.len(), "{}: chunk offset tables were lost", ctx());
    for (i, (o, n)) in tx.iter().zip(&ty).enumerate() {
        ck!(o.len() == n.len(), "{}: table {i} has {} instead of {} entries", ctx(), n.len(), o.len());
        for (j, (eo, en)) in o.iter().zip(n).enumerate() {
            for (k, m) in mx.iter().enumerate() {
                let lo = (m.pos + m.hlen) as u64;
                if *eo >= lo && *eo < m.end as u64 {
                    let want = (my[k].pos + my[k].hlen) as u64 + (eo - lo);
                    ck!(*en == want, "{}: entry {j} of table {i} was {eo}, is {en} and should be {want}", ctx());
                }
            }
        }
    }
    Ok(())
}

fn p05(r: &mut Rng, _: u64) -> R {
    let (_, b, items, a) = written(r)?;
    let ctx = || format!("file {} tag [{}] result {}", hex(&b), show(&items), hex(&a));
    let x = parse(&b).unwrap();
    let y = parse(&a).map_err(|e| format!("{}: not a well-formed container: {e}", ctx()))?;
    let one = |v: &[At], cc: &Cc| -> Result<At, String> {
        let l: Vec<&At> = v.iter().filter(|n| &n.cc == cc).collect();
        if l.len() != 1 { return Err(format!("{}: {} atoms {:?}", ctx(), l.len(), std::str::from_utf8(cc))); }
        Ok(l[0].clone())
    };
    let moov = one(&y, b"moov")?;
    let udta = one(&moov.kids, b"udta")?;
    let meta = one(&udta.kids, b"meta")?;
    one(&meta.kids, b"hdlr")?;
    let ilst = one(&meta.kids, b"ilst")?;
    let got = crate::mp4::items(ilst.body(&a), false).map_err(|e| format!("{}: item list: {e}", ctx()))?;
    ck!(got == items, "{}: the item list holds [{}]", ctx(), show(&got));
    let mo = one(&x, b"moov")?;
    ck!(mo.ext == moov.ext, "{}: the form of the size of moov changed", ctx());
    if let Some(uo) = mo.kid(b"udta") {
        ck!(uo.ext == udta.ext, "{}: the form of the size of udta changed", ctx());
        if let Some(eo) = uo.kid(b"meta") { ck!(eo.ext == meta.ext, "{}: the form of the size of meta changed", ctx()); }
    }
    // nothing but the metadata contributes to the length
    let lens = |t: &At| -> usize { t.kid(b"udta").and_then(|u| u.kid(b"meta")).and_then(|m| m.kid(b"ilst")).map_or(0, |i| i.end - i.pos) };
    let rest_old = b.len() - lens(&mo);
    let rest_new = a.len() - lens(&moov);
    ck!(rest_new >= rest_old, "{}: bytes were lost", ctx());
    Ok(())
}

// ------------------------------------------------------------------------------------------ malformed files
fn mangle(r: &mut Rng, b: &mut Vec<u8>) {
    // header positions of everything the format nests
    fn heads(b: &[u8], s: usize, e: usize, out: &mut Vec<usize>, depth: usize) {
        let mut p = s;
        while p + 8 <= e {
            out.push(p);
            let z = u32::from_be_bytes(b[p..p + 4].try_into().unwrap());
            let (h, l) = if z == 1 && p + 16 <= e { (16, u64::from_be_bytes(b[p + 8..p + 16].try_into().unwrap()) as usize) } else { (8, z as usize) };
            if l < h || l > e - p { return; }
            let skip = match &b[p + 4..p + 8] { b"moov" | b"trak" | b"mdia" | b"minf" | b"stbl" | b"udta" | b"ilst" => Some(0), b"meta" => Some(4), b"stsd" => Some(8), b"mp4a" => Some(28), _ if depth == 4 => Some(0), _ => None };
            if let Some(k) = skip { if h + k <= l && depth < 8 { heads(b, p + h + k, p + l, out, depth + 1) } }
            p += l;
        }
    }
    for _ in 0..r.range(1, 3) {
        if b.len() < 16 { return; }
        let mut hs = vec![];
        heads(b, 0, b.len(), &mut hs, 0);
        let p = *r.pick(&hs);
        match r.below(12) {
            0 => { let n = r.below(b.len()); b.truncate(n) }
            1 | 2 => { let i = r.below(b.len()); b[i] = *r.pick(&[0, 1, 0x7f, 0x80, 0xff]) }
            3 | 4 => {
                let old = u32::from_be_bytes(b[p..p + 4].try_into().unwrap());
                let v = *r.pick(&[0, 1, 2, 7, 8, 9, 11, 12, 15, 16, 17, old.wrapping_sub(1), old.wrapping_add(1), old.wrapping_add(8), old.wrapping_sub(8), 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0xffff_fff8]);
                b[p..p + 4].copy_from_slice(&v.to_be_bytes());
            }
            5 | 6 => {
                // 64 bit size
                if p + 16 > b.len() { continue; }
                b[p..p + 4].copy_from_slice(&1u32.to_be_bytes());
                let v: u64 = *r.pick(&[0, 8, 15, 16, 17, 24, 100, b.len() as u64, b.len() as u64 + 9, 1 << 31, 1 << 32, 1 << 62, (1 << 63) - 1, 1 << 63, (1 << 63) + 16, u64::MAX - 16, u64::MAX - 8, u64::MAX]);
                let ins = r.chance(1, 2);
                if ins { for (i, x) in v.to_be_bytes().iter().enumerate() { b.insert(p + 8 + i, *x); } } else { b[p + 8..p + 16].copy_from_slice(&v.to_be_bytes()); }
            }
            7 => { let cc: &Cc = *r.pick(&[b"moov", b"mdat", b"udta", b"meta", b"ilst", b"trak", b"stco", b"co64", b"data", b"mean", b"name", b"esds", b"hdlr", b"ftyp", b"free", b"mvhd"]); b[p + 4..p + 8].copy_from_slice(cc) }
            8 => { // content bytes behind the header
                let n = r.range(1, 24);
                for i in 0..n { let k = p + 8 + i; if k < b.len() && r.chance(1, 2) { b[k] = *r.pick(&[0, 1, 3, 4, 5, 0x80, 0xff]) } }
            }
            9 => { let n = r.range(1, 12); let x = r.bytes(n); let at = r.below(b.len()); for (i, y) in x.into_iter().enumerate() { b.insert(at + i, y) } }
            10 => { let e = (p + r.range(1, 40)).min(b.len()); b.drain(p..e); }
            _ => { // duplicate a stretch
                let q = *r.pick(&hs);
                let e = (q + r.range(8, 120)).min(b.len());
                let x = b[q..e].to_vec();
                for (i, y) in x.into_iter().enumerate() { b.insert(p + i, y) }
            }
        }
    }
}
/// files that were once misread
fn corner(case: u64) -> Option<Vec<u8>> {
    let moov = |k: Vec<Node>| build(&[raw(b"ftyp", b"M4A ".to_vec()), kids(b"moov", k)]);
    let ilst = |k: Vec<Node>| moov(vec![kids(b"udta", vec![pkids(b"meta", vec![0; 4], vec![raw(b"hdlr", hdlr()), kids(b"ilst", k)])])]);
    let nam = |k: Vec<Node>| ilst(vec![kids(b"\xa9nam", k)]);
    let mvhd = |ts: u32, d: u64| { let mut b = vec![1, 0, 0, 0]; b.extend([0; 16]); b.extend(ts.to_be_bytes()); b.extend(d.to_be_bytes()); moov(vec![raw(b"mvhd", b)]) };
    let stbl = |n: Node| moov(vec![kids(b"trak", vec![kids(b"mdia", vec![kids(b"minf", vec![kids(b"stbl", vec![n])])])])]);
    let mp4a = |es: Vec<u8>| stbl(pkids(b"stsd", vec![0, 0, 0, 0, 0, 0, 0, 1], vec![pkids(b"mp4a", vec![0; 28], vec![raw(b"esds", es)])]));
    let ext = |cc: &Cc, len: u64| { let mut b = build(&[raw(b"ftyp", b"M4A ".to_vec())]); b.extend(1u32.to_be_bytes()); b.extend(cc); b.extend(len.to_be_bytes()); b.extend([0; 64]); b };
    Some(match case {
        0..=3 => nam(vec![raw(b"data", vec![0; case as usize * 2])]),
        4 => nam(vec![raw(b"mean", vec![0; 3])]),
        5 => nam(vec![raw(b"name", vec![0; 3])]),
        6 => mvhd(0, 5),
        7 => mvhd(1, u64::MAX),
        8 => mvhd(3, u64::MAX - 1),
        9..=16 => ext(b"moov", [0, 8, 15, 16, 1 << 62, (1 << 63) - 1, 1 << 63, u64::MAX][case as usize - 9]),
        17..=24 => ext(b"free", [0, 8, 15, 16, 1 << 62, (1 << 63) - 1, 1 << 63, u64::MAX][case as usize - 17]),
        25 => mp4a(vec![0, 0, 0, 0, 3, 0]),
        26 => mp4a(vec![0, 0, 0, 0, 3, 2, 0, 0]),
        27 => mp4a(vec![0, 0, 0, 0, 3, 40, 0, 0, 0, 4, 0, 0, 0]),
        28 => mp4a([&[0, 0, 0, 0, 3, 40, 0, 0, 0, 4, 20][..], &[0; 13], &[5, 0, 0, 0], &[5, 1, 0, 0], &[0; 9]].concat()),
        29 => mp4a([&[0, 0, 0, 0, 3, 0x80, 0x80, 0x80, 0xff, 0xff, 0, 0, 0, 4, 0xff, 0xff, 0xff, 0xff][..], &[0; 80]].concat()),
        30 => stbl(raw(b"stco", [&[0; 4][..], &u32::MAX.to_be_bytes(), &[0; 8]].concat())),
        31 => stbl(raw(b"co64", [&[0; 4][..], &u32::MAX.to_be_bytes(), &[0; 8]].concat())),
        32 => { let mut b = nam(vec![data_atom(1, b"abc")]); let n = b.len(); b[n - 19..n - 15].copy_from_slice(&0xffff_ffffu32.to_be_bytes()); b }
        33 => { let mut b = build(&[raw(b"ftyp", b"M4A ".to_vec())]); b[0..4].copy_from_slice(&0xffff_ffffu32.to_be_bytes()); b }
        34 => vec![],
        35 => b"\0\0\0\x08ftyp".to_vec(),
        36 => mp4a(vec![0, 0, 0]),
        37 => moov(vec![raw(b"mvhd", vec![0; 3])]),
        38 => moov(vec![raw(b"mvhd", vec![0; 4])]),
        39 => moov(vec![raw(b"mvhd", vec![9; 40])]),
        40 => nam(vec![data_atom(2, b"abc")]),
        41 => nam(vec![data_atom(2, &[0xd8, 0, 0xd8])]),
        42 => nam(vec![data_atom(1, &[0xff, 0xfe])]),
        43..=50 => { // a size that wraps sums of lengths around
            let mut b = nam(vec![data_atom(0, &[1; 30])]);
            let at = b.windows(4).position(|w| w == [b"moov", b"udta", b"meta", b"ilst", b"\xa9nam", b"data", b"hdlr", b"ftyp"][case as usize - 43]).unwrap();
            b[at - 4..at].copy_from_slice(&1u32.to_be_bytes());
            for (i, x) in (u64::MAX - 3).to_be_bytes().iter().enumerate() { b.insert(at + 4 + i, *x) }
            b
        }
        51..=58 => {
            let mut b = nam(vec![data_atom(0, &[1; 30])]);
            let at = b.windows(4).position(|w| w == [b"moov", b"udta", b"meta", b"ilst", b"\xa9nam", b"data", b"hdlr", b"ftyp"][case as usize - 51]).unwrap();
            b[at - 4..at].copy_from_slice(&1u32.to_be_bytes());
            for (i, x) in (i64::MAX as u64).to_be_bytes().iter().enumerate() { b.insert(at + 4 + i, *x) }
            b
        }
        _ => return None,
    })
}
fn soup(r: &mut Rng) -> Vec<u8> {
    let n = r.below(200);
    let mut b = if r.chance(1, 2) { build(&[raw(b"ftyp", b"M4A ".to_vec())]) } else { vec![] };
    while b.len() < n {
        let sz: u32 = *r.pick(&[0, 1, 4, 8, 12, 16, 20, 40, 100, 0xffff_ffff]);
        b.extend(sz.to_be_bytes());
        let cc: &Cc = *r.pick(&[b"moov", b"mdat", b"udta", b"meta", b"ilst", b"trak", b"stco", b"co64", b"data", b"mean", b"name", b"esds", b"mp4a", b"stsd", b"stbl", b"minf", b"mdia", b"free", b"mvhd", b"----"]);
        b.extend(cc);
        let k = r.below(20);
        let x = if r.chance(1, 2) { vec![0; k] } else { r.bytes(k) };
        b.extend(x);
    }
    b
}
fn bad_file(r: &mut Rng, case: u64) -> Vec<u8> {
    if let Some(b) = corner(case) { return b; }
    if r.chance(1, 12) { return soup(r); }
    let s = shape(r);
    let mut b = build(&s.top);
    mangle(r, &mut b);
    b
}
/// a reader that hands out few bytes at a time and starts somewhere
struct Slow<'a>(Cursor<&'a [u8]>, usize);
impl Read for Slow<'_> { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { let n = b.len().min(self.1); self.0.read(&mut b[..n]) } }
impl Seek for Slow<'_> { fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> { self.0.seek(p) } }

fn p06(r: &mut Rng, case: u64) -> R {
    let b = bad_file(r, case);
    crate::note(&b);
    let first = read(&b);
    let mut c = Cursor::new(&b[..]);
    match r.below(4) {
        0 => { let n = r.range(1, 7); let s = Tag::read_from(&mut Slow(c, n)); ck!(s.as_ref().ok() == first.as_ref().ok(), "input {}: the result depends on how many bytes a read returns", hex(&b)) }
        1 => { c.set_position(r.range(0, b.len() + 20) as u64); let _ = Tag::read_from(&mut c); }
        2 => { c.set_position((1u64 << 62) - 1 - r.below(40) as u64); let _ = Tag::read_from(&mut c); }
        _ => {}
    }
    Ok(())
}
fn p07(r: &mut Rng, case: u64) -> R {
    let b = bad_file(r, case);
    let items = rand_items(r, 4);
    crate::note(&b);
    let t = to_tag(&items);
    let (res, a) = write(&b, &t, false);
    if let Err(e) = res { ck!(a == b, "writing [{}] to {} failed ({e}) and left {}", show(&items), hex(&b), hex(&a)); }
    if case % 16 == 1 {
        let p = scratch();
        ck!(t.write_to_path(&p).is_err() && !p.exists(), "writing [{}] to a path without a file", show(&items));
        ck!(Tag::read_from_path(&p).is_err() && !p.exists(), "reading from a path without a file");
        std::fs::write(&p, &b).unwrap();
        let f = std::fs::File::open(&p).unwrap();
        let (res, again) = (t.write_to(&f), std::fs::read(&p).unwrap());
        let _ = std::fs::remove_file(&p);
        ck!(res.is_err() && again == b, "writing [{}] to {} opened for reading only", show(&items), hex(&b));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ layout
/// accepts everything, keeps the first bytes
struct Sink { head: Vec<u8>, n: u64 }
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let k = 512usize.saturating_sub(self.head.len()).min(b.len());
        self.head.extend(&b[..k]);
        self.n += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
/// the sizes of the containers around a huge item list
fn huge(total: u64) -> R {
    // the item list's content has `total` bytes
    let mut t = Tag::default();
    let half = total / 2;
    for (i, l) in [half, total - half].iter().enumerate() { t.add_data(Fourcc([b'b', b'i', b'g', i as u8]), Data::Reserved(vec![0; (l - 24) as usize])); }
    let mut s = Sink { head: vec![], n: 0 };
    t.dump_to(&mut s).map_err(|e| format!("dump of an item list of {total} bytes failed: {}", e.description))?;
    let mut want = vec![];
    let head = |len: u64, cc: &Cc| -> Vec<u8> { if len + 8 <= u32::MAX as u64 { [&((len + 8) as u32).to_be_bytes()[..], cc].concat() } else { [&1u32.to_be_bytes()[..], cc, &(len + 16).to_be_bytes()[..]].concat() } };
    let ilst = head(total, b"ilst");
    let l_ilst = total + ilst.len() as u64;
    let h = build(&[raw(b"hdlr", hdlr())]);
    let meta = head(4 + h.len() as u64 + l_ilst, b"meta");
    let l_meta = 4 + h.len() as u64 + l_ilst + meta.len() as u64;
    let udta = head(l_meta, b"udta");
    let l_udta = l_meta + udta.len() as u64;
    let moov = head(l_udta, b"moov");
    for x in [build(&[raw(b"ftyp", b"M4A \0\0\x02\0isomiso2".to_vec())]), moov.clone(), udta, meta, vec![0; 4], h, ilst, (half as u32).to_be_bytes().to_vec(), b"big\0".to_vec()] { want.extend(x) }
    ck!(s.head.starts_with(&want), "dump of an item list with {total} bytes of content starts with {} instead of {}", hex(&s.head[..want.len()]), hex(&want));
    let n = 24 + l_udta + moov.len() as u64;
    ck!(s.n == n, "dump of an item list with {total} bytes of content has {} instead of {n} bytes", s.n);
    Ok(())
}
const LIMIT: u64 = u32::MAX as u64;
fn hugecase(case: u64) -> Option<u64> {
    // around the points where ilst, meta, udta and moov leave the 32 bit form
    [LIMIT - 8, LIMIT - 7, LIMIT - 16 - 45, LIMIT - 16 - 44, LIMIT - 28 - 33 - 8, LIMIT - 61, LIMIT - 62, LIMIT - 60, LIMIT - 69, LIMIT - 70, LIMIT - 68, LIMIT - 77, LIMIT - 76, LIMIT - 78, LIMIT - 9, LIMIT, LIMIT + 1].get(case as usize).copied()
}
fn p08(r: &mut Rng, case: u64) -> R {
    if let Some(n) = hugecase(case) { return huge(n); }
    let items = rand_items(r, 8);
    for (_, d) in &items { for (c, p) in d {
        let x = data(*c, p);
        ck!(x.len() == p.len() as u64, "the length of {c} {} is reported as {}", hex(p), x.len());
        ck!(x.is_empty() == p.is_empty(), "emptiness of {c} {}", hex(p));
    } }
    let t = to_tag(&items);
    let b = dump(&t, false)?;
    let want = build(&dumped(&items));
    ck!(b == want, "dump of [{}] is {} instead of {}", show(&items), hex(&b), hex(&want));
    // the same atoms inside of a file
    let top = vec![raw(b"ftyp", b"M4A ".to_vec()), kids(b"moov", match r.below(4) {
        0 => vec![],
        1 => vec![kids(b"udta", vec![])],
        2 => vec![kids(b"udta", vec![pkids(b"meta", vec![0; 4], vec![])])],
        _ => vec![kids(b"udta", vec![pkids(b"meta", vec![0; 4], vec![raw(b"hdlr", hdlr()), kids(b"ilst", vec![])])])],
    })];
    let (res, a) = write(&build(&top), &t, false);
    res.map_err(|e| format!("writing to {} failed: {e}", hex(&build(&top))))?;
    let want = build(&[top[0].clone(), dumped(&items)[1].clone()]);
    ck!(a == want, "writing [{}] to {} gives {} instead of {}", show(&items), hex(&build(&top)), hex(&a), hex(&want));
    Ok(())
}

// ------------------------------------------------------------------------------------------ values
fn with_data(code: u32, p: &[u8]) -> Vec<u8> {
    build(&[raw(b"ftyp", b"M4A ".to_vec()), kids(b"moov", vec![kids(b"udta", vec![pkids(b"meta", vec![0; 4], vec![kids(b"ilst", vec![kids(b"test", vec![data_atom(code, p)])])])])])])
}
fn p09(r: &mut Rng, case: u64) -> R {
    // encoding
    let c = CODES[case as usize % 7];
    let p = payload(r, c);
    let d = data(c, &p);
    let mut t = Tag::default();
    t.set_data(Fourcc(*b"test"), d.clone());
    let b = dump(&t, false)?;
    let want = build(&dumped(&[(Id::Cc(*b"test"), vec![(c, p.clone())])]));
    ck!(b == want, "{d:?} ({c}, {}) is stored as {} instead of {}", hex(&p), hex(&b), hex(&want));
    // decoding
    let code = match r.below(5) { 0 => r.below(100) as u32, 4 => *r.pick(&CODES) + (1 << r.range(5, 23)), 1 => (r.next() & 0xff_ffff) as u32, _ => *r.pick(&CODES) };
    let mut p = if CODES.contains(&code) { payload(r, code) } else { let n = r.below(9); r.bytes(n) };
    if r.chance(1, 3) { for _ in 0..r.range(1, 3) { if p.is_empty() { p.push(r.byte()) } else { let i = r.below(p.len()); p[i] = *r.pick(&[0xd8, 0xdc, 0xff, 0x80, 0xc0, 0xed, 0xf4, 0x00]) } } }
    let want = match code {
        1 => String::from_utf8(p.clone()).ok().map(Data::Utf8),
        2 if p.len() % 2 == 1 => return Ok(()),
        2 => char::decode_utf16(p.chunks(2).map(|c| u16::from_be_bytes([c[0], c[1]]))).collect::<Result<String, _>>().ok().map(Data::Utf16),
        c if CODES.contains(&c) => Some(data(c, &p)),
        _ => None,
    };
    let got = read(&with_data(code, &p)).map(|t| t.data().map(|x| x.1.clone()).collect::<Vec<_>>());
    match (&want, &got) {
        (Some(w), Ok(g)) => ck!(g.len() == 1 && undata(&g[0]) == undata(w), "({code}, {}) is read as {:?}", hex(&p), g.iter().map(undata).collect::<Vec<_>>()),
        (None, Err(_)) => {}
        (Some(_), Err(e)) => return Err(format!("({code}, {}) can't be read: {e}", hex(&p))),
        (None, Ok(g)) => return Err(format!("({code}, {}) is read as {:?}", hex(&p), g.iter().map(undata).collect::<Vec<_>>())),
    }
    // accessors by kind
    let (c, p) = undata(&d);
    let v = Some(&p[..]);
    let s = match &d { Data::Utf8(s) | Data::Utf16(s) => Some(s.as_str()), _ => None };
    let on = |k: &[u32]| if k.contains(&c) { v } else { None };
    let ons = |k: &[u32]| if k.contains(&c) { s } else { None };
    let fmt = match c { 13 => Some(ImgFmt::Jpeg), 14 => Some(ImgFmt::Png), 27 => Some(ImgFmt::Bmp), _ => None };
    let img = |b: &[u8]| -> Option<Img<Vec<u8>>> { fmt.clone().map(|f| Img { fmt: f, data: b.to_vec() }) };
    ck!(d.bytes() == on(&[0, 21]) && d.clone().bytes_mut().map(|x| x.clone()) == on(&[0, 21]).map(|x| x.to_vec()) && d.clone().into_bytes() == on(&[0, 21]).map(|x| x.to_vec()), "bytes of {c}");
    ck!(d.string() == ons(&[1, 2]) && d.clone().string_mut().map(|x| x.clone()) == ons(&[1, 2]).map(|x| x.to_string()) && d.clone().into_string() == ons(&[1, 2]).map(|x| x.to_string()), "string of {c}");
    ck!(d.image().map(|i| Img { fmt: i.fmt, data: i.data.to_vec() }) == img(&p) && d.clone().image_mut().map(|i| Img { fmt: i.fmt, data: i.data.clone() }) == img(&p) && d.clone().into_image() == img(&p), "image of {c}");
    ck!(d.image_data() == on(&[13, 14, 27]) && d.clone().image_data_mut().map(|x| x.clone()) == on(&[13, 14, 27]).map(|x| x.to_vec()) && d.clone().into_image_data() == on(&[13, 14, 27]).map(|x| x.to_vec()), "image data of {c}");
    ck!(d.reserved() == on(&[0]) && d.utf8() == ons(&[1]) && d.utf16() == ons(&[2]) && d.jpeg() == on(&[13]) && d.png() == on(&[14]) && d.be_signed() == on(&[21]) && d.bmp() == on(&[27]), "accessor of {c}");
    ck!(d.is_bytes() == [0, 21].contains(&c) && d.is_string() == [1, 2].contains(&c) && d.is_image() == [13, 14, 27].contains(&c), "kind of {c}");
    ck!(d.is_reserved() == (c == 0) && d.is_utf8() == (c == 1) && d.is_utf16() == (c == 2) && d.is_jpeg() == (c == 13) && d.is_png() == (c == 14) && d.is_be_signed() == (c == 21) && d.is_bmp() == (c == 27), "kind of {c}");
    if let Some(f) = fmt { ck!(undata(&Data::from(Img { fmt: f, data: p.clone() })) == (c, p.clone()), "image of {c} as a value"); }
    // in place edits
    let mut e = d.clone();
    if let Some(x) = e.bytes_mut() { x.push(7); ck!(undata(&e) == (c, [&p[..], &[7]].concat()), "edit of {c}"); }
    let mut e = d.clone();
    if let Some(x) = e.image_data_mut() { x.push(7); ck!(undata(&e) == (c, [&p[..], &[7]].concat()), "edit of {c}"); }
    let mut e = d.clone();
    if let Some(x) = e.image_mut() { x.data.push(7); ck!(undata(&e) == (c, [&p[..], &[7]].concat()), "edit of {c}"); }
    let mut e = d.clone();
    if let Some(x) = e.string_mut() { x.push('7'); ck!(e.string() == Some(&format!("{}7", s.unwrap())[..]) && undata(&e).0 == c, "edit of {c}"); }
    Ok(())
}

// ------------------------------------------------------------------------------------------ edits
/// calls `$b` with the identifier in one of its forms
macro_rules! with_id { ($r:expr, $i:expr, $x:ident => $b:expr) => { match (&$i, $r.chance(1, 2)) {
    (Id::Cc(c), true) => { let $x = Fourcc(*c); $b }
    (Id::Free(m, n), true) => { let $x = FreeformIdent::new(std::str::from_utf8(m).unwrap(), std::str::from_utf8(n).unwrap()); $b }
    (i, false) => { let $x = did(i); $b }
} } }
fn kind(c: u32) -> usize { match c { 0 | 21 => 0, 1 | 2 => 1, _ => 2 } }
type V = (u32, Vec<u8>);
fn img_v(i: &Img<Vec<u8>>) -> V { (match i.fmt { ImgFmt::Jpeg => 13, ImgFmt::Png => 14, ImgFmt::Bmp => 27 }, i.data.clone()) }
fn p10(r: &mut Rng, _: u64) -> R {
    // few identifiers, so that the operations meet each other
    let mut pool: Vec<Id> = vec![Id::Cc(*b"aaaa"), Id::Cc(*b"aaab"), Id::Cc(*b"----"), Id::Free(b"m".to_vec(), b"n".to_vec()), Id::Free(b"m".to_vec(), b"nn".to_vec()), Id::Free(b"mn".to_vec(), b"n".to_vec()), Id::Free(b"".to_vec(), b"".to_vec())];
    pool.push(ident(r));
    let val = |r: &mut Rng| -> V { let c = *r.pick(&CODES); let n = r.below(3); let p: Vec<u8> = (0..n).map(|_| *r.pick(&b"abc"[..])).collect(); if c == 2 { (2, p.iter().flat_map(|b| [0, *b]).collect()) } else { (c, p) } };
    let vals = |r: &mut Rng| -> Vec<V> { let n = r.below(4); (0..n).map(|_| val(r)).collect() };
    let mut m: Vec<Item> = vec![];
    let mut t = Tag::default();
    let mut log = String::new();
    // some histories start from a file
    if r.chance(1, 3) {
        m = rand_items(r, 3);
        t = to_tag(&m);
        log = format!("start [{}]", show(&m));
    }
    for _ in 0..r.range(1, 14) {
        let id = r.pick(&pool).clone();
        let at = m.iter().position(|x| x.0 == id);
        let op = r.below(22);
        log.push_str(&format!(" op{op}({id:?})"));
        let push = |m: &mut Vec<Item>, set: bool, v: Vec<V>| {
            match m.iter_mut().find(|x| x.0 == id) {
                Some(x) => { if set { x.1.clear() } x.1.extend(v) }
                None => m.push((id.clone(), v)),
            }
            m.retain(|x| !x.1.is_empty());
        };
        let keep_byte = r.byte() % 3 + b'a';
        // by the first character, whatever the encoding
        let keep = |v: &V| if v.0 == 2 { v.1.get(..2) != Some(&[0, keep_byte][..]) } else { v.1.first() != Some(&keep_byte) };
        match op {
            0 | 1 => { let v = val(r); let d = data(v.0, &v.1); with_id!(r, id, x => t.set_data(x, d)); push(&mut m, true, vec![v]) }
            2 => { let v = vals(r); let d: Vec<Data> = v.iter().map(|v| data(v.0, &v.1)).collect(); with_id!(r, id, x => t.set_all_data(x, d)); push(&mut m, true, v) }
            3 | 4 => { let v = val(r); let d = data(v.0, &v.1); with_id!(r, id, x => t.add_data(x, d)); push(&mut m, false, vec![v]) }
            5 => { let v = vals(r); let d: Vec<Data> = v.iter().map(|v| data(v.0, &v.1)).collect(); with_id!(r, id, x => t.add_all_data(x, d)); push(&mut m, false, v) }
            6 => {
                let got: Vec<V> = with_id!(r, id, x => t.take_data_of(&x).map(|d| undata(&d)).collect());
                let want = at.map_or(vec![], |i| m.remove(i).1);
                ck!(got == want, "{log}: took {got:?} instead of {want:?}");
            }
            7 => {
                let got: Vec<Vec<u8>> = with_id!(r, id, x => t.take_bytes_of(&x).collect());
                let want: Vec<Vec<u8>> = at.map_or(vec![], |i| m.remove(i).1).into_iter().filter(|v| kind(v.0) == 0).map(|v| v.1).collect();
                ck!(got == want, "{log}: took {got:?} instead of {want:?}");
            }
            8 => {
                let got: Vec<String> = with_id!(r, id, x => t.take_strings_of(&x).collect());
                let want: Vec<String> = at.map_or(vec![], |i| m.remove(i).1).into_iter().filter(|v| kind(v.0) == 1).map(|v| data(v.0, &v.1).into_string().unwrap()).collect();
                ck!(got == want, "{log}: took {got:?} instead of {want:?}");
            }
            9 => {
                let got: Vec<V> = with_id!(r, id, x => t.take_images_of(&x).map(|i| img_v(&i)).collect());
                let want: Vec<V> = at.map_or(vec![], |i| m.remove(i).1).into_iter().filter(|v| kind(v.0) == 2).collect();
                ck!(got == want, "{log}: took {got:?} instead of {want:?}");
            }
            10 => { with_id!(r, id, x => t.remove_data_of(&x)); m.retain(|x| x.0 != id) }
            11 | 12 | 13 => {
                match op { 11 => with_id!(r, id, x => t.remove_bytes_of(&x)), 12 => with_id!(r, id, x => t.remove_strings_of(&x)), _ => with_id!(r, id, x => t.remove_images_of(&x)) }
                for x in m.iter_mut() { if x.0 == id { x.1.retain(|v| kind(v.0) != op - 11) } }
                m.retain(|x| !x.1.is_empty());
            }
            14 => { with_id!(r, id, x => t.retain_data_of(&x, |d| keep(&undata(d)))); for x in m.iter_mut() { if x.0 == id { x.1.retain(|v| keep(v)) } } m.retain(|x| !x.1.is_empty()) }
            15 | 16 | 17 => {
                match op {
                    15 => with_id!(r, id, x => t.retain_bytes_of(&x, |b| keep(&(0, b.to_vec())))),
                    16 => with_id!(r, id, x => t.retain_strings_of(&x, |b| keep(&(1, b.as_bytes().to_vec())))),
                    _ => with_id!(r, id, x => t.retain_images_of(&x, |b| keep(&(13, b.data.to_vec())))),
                }
                for x in m.iter_mut() { if x.0 == id { x.1.retain(|v| kind(v.0) != op - 15 || keep(v)) } }
                m.retain(|x| !x.1.is_empty());
            }
            18 => {
                let which = r.below(4);
                // one identifier, all but one, or all
                let scope = r.below(3);
                let out = |i: &Id| match scope { 0 => i != &id, 1 => i == &id, _ => false };
                match which {
                    0 => t.retain_data(|i, d| out(&unid(i)) || keep(&undata(d))),
                    1 => t.retain_bytes(|i, b| out(&unid(i)) || keep(&(0, b.to_vec()))),
                    2 => t.retain_strings(|i, b| out(&unid(i)) || keep(&(1, b.as_bytes().to_vec()))),
                    _ => t.retain_images(|i, b| out(&unid(i)) || keep(&(13, b.data.to_vec()))),
                }
                for x in m.iter_mut() { if !out(&x.0) { x.1.retain(|v| (which > 0 && kind(v.0) != which - 1) || keep(v)) } }
                m.retain(|x| !x.1.is_empty());
            }
            19 => if r.chance(1, 4) { t.clear(); m.clear() },
            20 => {
                let k = r.below(4);
                with_id!(r, id, x => match k {
                    0 => t.bytes_mut_of(&x).for_each(|b| b.push(b'z')),
                    1 => t.strings_mut_of(&x).for_each(|b| b.push('z')),
                    2 => t.images_mut_of(&x).for_each(|b| b.data.push(b'z')),
                    _ => t.data_mut_of(&x).for_each(|d| *d = Data::Reserved(b"new".to_vec())),
                });
                for x in m.iter_mut() { if x.0 == id { for v in x.1.iter_mut() { if k == 3 { *v = (0, b"new".to_vec()) } else if kind(v.0) == k { if v.0 == 2 { v.1.push(0) } v.1.push(b'z') } } } }
            }
            _ => {
                let k = r.below(4);
                match k {
                    0 => t.bytes_mut().for_each(|(i, b)| if unid(i) == id { b.push(b'y') }),
                    1 => t.strings_mut().for_each(|(i, b)| if unid(i) == id { b.push('y') }),
                    2 => t.images_mut().for_each(|(i, b)| if unid(i) == id { b.data.push(b'y') }),
                    _ => t.data_mut().for_each(|(i, d)| if unid(i) == id { *d = Data::Png(b"nu".to_vec()) }),
                }
                for x in m.iter_mut() { if x.0 == id { for v in x.1.iter_mut() { if k == 3 { *v = (14, b"nu".to_vec()) } else if kind(v.0) == k { if v.0 == 2 { v.1.push(0) } v.1.push(b'y') } } } }
            }
        }
        ck!(of_tag(&t) == m, "{log}: the tag holds [{}] instead of [{}]", show(&of_tag(&t)), show(&m));
        ck!(t.is_empty() == m.is_empty(), "{log}: emptiness");
        for id in &pool {
            let want: Vec<V> = m.iter().find(|x| &x.0 == id).map_or(vec![], |x| x.1.clone());
            let got: Vec<V> = with_id!(r, *id, x => t.data_of(&x).map(undata).collect());
            ck!(got == want, "{log}: values of {id:?} are {got:?} instead of {want:?}");
            let got: Vec<Vec<u8>> = with_id!(r, *id, x => t.bytes_of(&x).map(|b| b.to_vec()).collect());
            ck!(got == want.iter().filter(|v| kind(v.0) == 0).map(|v| v.1.clone()).collect::<Vec<_>>(), "{log}: bytes of {id:?} are {got:?}");
            let got: Vec<String> = with_id!(r, *id, x => t.strings_of(&x).map(|b| b.to_string()).collect());
            ck!(got == want.iter().filter(|v| kind(v.0) == 1).map(|v| data(v.0, &v.1).into_string().unwrap()).collect::<Vec<_>>(), "{log}: strings of {id:?} are {got:?}");
            let got: Vec<V> = with_id!(r, *id, x => t.images_of(&x).map(|i| img_v(&Img { fmt: i.fmt, data: i.data.to_vec() })).collect());
            ck!(got == want.iter().filter(|v| kind(v.0) == 2).cloned().collect::<Vec<_>>(), "{log}: images of {id:?} are {got:?}");
        }
        let all: Vec<(Id, V)> = m.iter().flat_map(|x| x.1.iter().map(move |v| (x.0.clone(), v.clone()))).collect();
        let of = |k: usize| -> Vec<(Id, V)> { all.iter().filter(|x| kind(x.1 .0) == k).cloned().collect() };
        let got: Vec<(Id, Vec<u8>)> = t.bytes().map(|(i, b)| (unid(i), b.to_vec())).collect();
        ck!(got == of(0).into_iter().map(|(i, v)| (i, v.1)).collect::<Vec<_>>(), "{log}: bytes");
        let got: Vec<(Id, String)> = t.strings().map(|(i, b)| (unid(i), b.to_string())).collect();
        ck!(got == of(1).into_iter().map(|(i, v)| (i, data(v.0, &v.1).into_string().unwrap())).collect::<Vec<_>>(), "{log}: strings");
        let got: Vec<(Id, V)> = t.images().map(|(i, b)| (unid(i), img_v(&Img { fmt: b.fmt, data: b.data.to_vec() }))).collect();
        ck!(got == of(2), "{log}: images");
        if r.chance(1, 6) {
            let got: Vec<(Id, V)> = t.clone().take_data().map(|(i, d)| (unid(&i), undata(&d))).collect();
            ck!(got == all, "{log}: take_data");
            let got: Vec<(Id, Vec<u8>)> = t.clone().take_bytes().map(|(i, b)| (unid(&i), b)).collect();
            ck!(got == of(0).into_iter().map(|(i, v)| (i, v.1)).collect::<Vec<_>>(), "{log}: take_bytes");
            let got: Vec<(Id, String)> = t.clone().take_strings().map(|(i, b)| (unid(&i), b)).collect();
            ck!(got == of(1).into_iter().map(|(i, v)| (i, data(v.0, &v.1).into_string().unwrap())).collect::<Vec<_>>(), "{log}: take_strings");
            let got: Vec<(Id, V)> = t.clone().take_images().map(|(i, b)| (unid(&i), img_v(&b))).collect();
            ck!(got == of(2), "{log}: take_images");
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ numbers
fn num(v: &[u8], at: usize) -> Option<u16> { if v.len() < at + 2 { return None; } match u16::from_be_bytes([v[at], v[at + 1]]) { 0 => None, n => Some(n) } }
fn p12(r: &mut Rng, case: u64) -> R {
    let disc = case % 2 == 1;
    let cc: Cc = if disc { *b"disk" } else { *b"trkn" };
    let other: Cc = if disc { *b"trkn" } else { *b"disk" };
    let mut t = Tag::default();
    let mut log = String::new();
    t.set_data(Fourcc(*b"\xa9nam"), Data::Utf8("x".into()));
    if r.chance(1, 2) { t.set_data(Fourcc(other), Data::Reserved(r.bytes(6))); }
    if r.chance(2, 3) {
        for _ in 0..r.range(1, 2) {
            let n = r.below(10);
            let b = if r.chance(1, 3) { vec![0; n] } else { r.bytes(n) };
            let d = match r.below(4) { 0 => Data::BeSigned(b), 1 if r.chance(1, 2) => Data::Utf8("1/2".into()), _ => Data::Reserved(b) };
            log.push_str(&format!("start with {:?};", undata(&d)));
            t.add_data(Fourcc(cc), d);
        }
    }
    for _ in 0..r.range(1, 6) {
        let before = of_tag(&t);
        let first = |v: &[Item]| -> Option<Vec<u8>> { v.iter().find(|x| x.0 == Id::Cc(cc)).and_then(|x| x.1.iter().find(|v| kind(v.0) == 0).map(|v| v.1.clone())) };
        let old = first(&before);
        let (mut on, ot) = old.as_ref().map_or((None, None), |v| (num(v, 2), num(v, 4)));
        let rx = r.next() as u16;
        let a = *r.pick(&[0, 1, 2, 255, 256, 0xffff, rx]);
        let rx = r.next() as u16;
        let b = *r.pick(&[0, 1, 2, 255, 256, 0xffff, rx]);
        let op = r.below(6);
        log.push_str(&format!(" op{op}({a},{b})"));
        // a value that ends in the middle of the number is completed with zeros
        if let (Some(v), true) = (&old, op == 2 || op == 5) { if v.len() == 3 { on = num(&[0, 0, v[2], 0], 2) } }
        let nz = |x: u16| if x == 0 { None } else { Some(x) };
        let (wn, wt) = match op { 0 => (nz(a), nz(b)), 1 => (nz(a), ot), 2 => (on, nz(b)), 3 => (None, None), 4 => (None, ot), _ => (on, None) };
        match (disc, op) {
            (false, 0) => t.set_track(a, b), (false, 1) => t.set_track_number(a), (false, 2) => t.set_total_tracks(b),
            (false, 3) => t.remove_track(), (false, 4) => t.remove_track_number(), (false, _) => t.remove_total_tracks(),
            (true, 0) => t.set_disc(a, b), (true, 1) => t.set_disc_number(a), (true, 2) => t.set_total_discs(b),
            (true, 3) => t.remove_disc(), (true, 4) => t.remove_disc_number(), (true, _) => t.remove_total_discs(),
        }
        let (pair, n, tt) = if disc { (t.disc(), t.disc_number(), t.total_discs()) } else { (t.track(), t.track_number(), t.total_tracks()) };
        ck!(pair == (wn, wt) && n == wn && tt == wt, "{log}: reads as {pair:?} {n:?} {tt:?} instead of {:?}", (wn, wt));
        let after = of_tag(&t);
        ck!(before.iter().filter(|x| x.0 != Id::Cc(cc)).eq(after.iter().filter(|x| x.0 != Id::Cc(cc))), "{log}: other items changed");
        if op == 3 { ck!(!after.iter().any(|x| x.0 == Id::Cc(cc)), "{log}: still present"); }
        if let (Some(o), Some(n)) = (&old, first(&after)) {
            for (i, x) in o.iter().enumerate() {
                let touched = match op { 0 => (2..6).contains(&i), 1 | 4 => i == 2 || i == 3, _ => i == 4 || i == 5 };
                if !touched { ck!(n.get(i) == Some(x), "{log}: byte {i} of {} became {}", hex(o), hex(&n)); }
            }
            for (i, x) in n.iter().enumerate().skip(o.len()) { if !(2..6).contains(&i) { ck!(*x == 0, "{log}: {} became {}", hex(o), hex(&n)); } }
            // the remaining values of the item
            let all = |v: &[Item]| -> Vec<V> { let mut l = v.iter().find(|x| x.0 == Id::Cc(cc)).unwrap().1.clone(); let k = l.iter().position(|v| kind(v.0) == 0).unwrap(); l.remove(k); l };
            if op != 3 { ck!(all(&before) == all(&after), "{log}: other values changed"); }
        }
        if old.is_none() && op < 3 {
            let w = [&[0, 0], &(if op == 2 { 0 } else { a }).to_be_bytes()[..], &(if op == 1 { 0 } else { b }).to_be_bytes()[..]].concat();
            ck!(first(&after) == Some(w.clone()), "{log}: stored {:?} instead of {w:?}", first(&after));
        }
    }
    Ok(())
}

fn p13(r: &mut Rng, case: u64) -> R {
    let names = GENRES;
    for (i, g) in names.iter().enumerate() { ck!(STANDARD_GENRES[i] == *g, "genre {} is {:?}", i + 1, STANDARD_GENRES[i]); }
    let mut t = Tag::default();
    let mut codes: Vec<Vec<u8>> = vec![];
    let mut custom: Vec<String> = vec![];
    let mut log = String::new();
    t.set_data(Fourcc(*b"test"), Data::Utf8("x".into()));
    if r.chance(2, 3) {
        for _ in 0..r.below(4) {
            let mut b = match r.below(3) { 0 => { let n = r.below(5); r.bytes(n) } _ => (r.below(90) as u16).to_be_bytes().to_vec() };
            if r.chance(1, 5) { b.push(3); }
            if case < 100 { b = (case as u16).to_be_bytes().to_vec(); }
            t.add_data(ident::STANDARD_GENRE, if r.chance(1, 4) { Data::BeSigned(b.clone()) } else { Data::Reserved(b.clone()) });
            codes.push(b);
        }
        for _ in 0..r.below(3) { let s = rtext(r); t.add_custom_genre(s.clone()); custom.push(s); }
        log = format!("start with {codes:?} {custom:?}");
    }
    for _ in 0..r.range(1, 6) {
        let op = r.below(13);
        let rx = r.range(1, 80) as u16;
        let c = *r.pick(&[0u16, 1, 2, 79, 80, 81, 255, 256, 257, 0x5000, 0xffff, rx]);
        let c2 = r.below(90) as u16;
        let s = rtext(r);
        let n = r.below(3);
        let l: Vec<String> = (0..n).map(|_| rtext(r)).collect();
        let k = |c: u16| vec![(c >> 8) as u8, c as u8];
        log.push_str(&format!(" op{op}({c},{c2},{s:?},{l:?})"));
        let std: Vec<u16> = codes.iter().filter(|b| b.len() >= 2).map(|b| (b[0] as u16) << 8 | b[1] as u16).collect();
        let valid: Vec<String> = std.iter().filter(|c| **c >= 1 && **c <= 80).map(|c| names[*c as usize - 1].to_string()).collect();
        let all: Vec<String> = valid.iter().cloned().chain(custom.iter().cloned()).collect();
        match op {
            0 => { t.set_genre(s.clone()); codes.clear(); custom = vec![s] }
            1 => { t.set_genres(l.clone()); codes.clear(); custom = l }
            2 | 3 => { t.add_genre(s.clone()); custom.push(s) }
            4 => { t.remove_genres(); codes.clear(); custom.clear() }
            5 => { t.set_standard_genre(c); codes = vec![k(c)] }
            6 => { t.set_standard_genres(vec![c, c2]); codes = vec![k(c), k(c2)] }
            7 => { t.add_standard_genre(c); codes.push(k(c)) }
            8 => { t.add_standard_genres(vec![c, c2]); codes.extend([k(c), k(c2)]) }
            9 => { t.remove_standard_genres(); codes.clear() }
            10 => { let g: Vec<String> = t.take_genres().collect(); ck!(g == all, "{log}: took {g:?} instead of {all:?}"); custom.clear() }
            11 => { let g = t.take_genre(); ck!(g.as_ref() == all.first(), "{log}: took {g:?} instead of the first of {all:?}"); custom.clear() }
            _ => {}
        }
        let std: Vec<u16> = codes.iter().filter(|b| b.len() >= 2).map(|b| (b[0] as u16) << 8 | b[1] as u16).collect();
        let valid: Vec<String> = std.iter().filter(|c| **c >= 1 && **c <= 80).map(|c| names[*c as usize - 1].to_string()).collect();
        let all: Vec<String> = valid.iter().cloned().chain(custom.iter().cloned()).collect();
        let g: Vec<u16> = t.standard_genres().collect();
        ck!(g == std && t.standard_genre() == std.first().copied(), "{log}: standard genres {g:?} instead of {std:?}");
        let g: Vec<String> = t.custom_genres().map(|s| s.to_string()).collect();
        ck!(g == custom, "{log}: custom genres {g:?} instead of {custom:?}");
        let g: Vec<String> = t.genres().map(|s| s.to_string()).collect();
        ck!(g == all, "{log}: genres {g:?} instead of {all:?}");
        let first = all.first().map(|s| s.as_str());
        ck!(t.genre() == first, "{log}: genre {:?} instead of {first:?}", t.genre());
        let stored: Vec<Vec<u8>> = t.bytes_of(&ident::STANDARD_GENRE).map(|b| b.to_vec()).collect();
        ck!(stored == codes, "{log}: stored {stored:?} instead of {codes:?}");
        ck!(t.strings_of(&Fourcc(*b"test")).eq(["x"]), "{log}: other items changed");
    }
    Ok(())
}
pub const GENRES: [&str; 80] = include!("genres.in");

fn p14(_: &mut Rng, case: u64) -> R {
    let media = [(0, MediaType::Movie), (1, MediaType::Normal), (2, MediaType::AudioBook), (5, MediaType::WhackedBookmark), (6, MediaType::MusicVideo), (9, MediaType::ShortFilm), (10, MediaType::TvShow), (11, MediaType::Booklet)];
    let b = (case % 256) as u8;
    let want = media.iter().find(|m| m.0 == b).map(|m| m.1);
    ck!(MediaType::try_from(b).ok() == want, "media type {b}: {:?}", MediaType::try_from(b));
    let mut t = Tag::default();
    t.set_data(ident::MEDIA_TYPE, Data::Reserved(vec![b, 9]));
    ck!(t.media_type() == want, "media type stored as {b}: {:?}", t.media_type());
    if let Some(m) = want {
        t.set_media_type(m);
        ck!(t.data_of(&Fourcc(*b"stik")).map(undata).eq([(0, vec![b])]) && t.media_type() == want, "media type {m:?} stored as {:?}", t.data_of(&Fourcc(*b"stik")).map(undata).collect::<Vec<_>>());
    }
    let want = match b { 0 => AdvisoryRating::Inoffensive, 2 => AdvisoryRating::Clean, _ => AdvisoryRating::Explicit };
    ck!(AdvisoryRating::from(b) == want, "rating {b}: {:?}", AdvisoryRating::from(b));
    t.set_data(ident::ADVISORY_RATING, Data::Reserved(vec![b, 9]));
    ck!(t.advisory_rating() == Some(want), "rating stored as {b}: {:?}", t.advisory_rating());
    t.set_advisory_rating(want);
    let code = match want { AdvisoryRating::Inoffensive => 0, AdvisoryRating::Clean => 2, AdvisoryRating::Explicit => 4 };
    ck!(t.data_of(&Fourcc(*b"rtng")).map(undata).eq([(0, vec![code])]) && t.advisory_rating() == Some(want), "rating {want:?} stored as {:?}", t.data_of(&Fourcc(*b"rtng")).map(undata).collect::<Vec<_>>());
    t.set_data(ident::ADVISORY_RATING, Data::Reserved(vec![]));
    t.set_data(ident::MEDIA_TYPE, Data::Reserved(vec![]));
    ck!(t.advisory_rating().is_none() && t.media_type().is_none(), "empty values");
    t.remove_media_type();
    t.remove_advisory_rating();
    ck!(t.is_empty(), "removal");
    ck!(SampleRate::try_from(b).ok() == rate(b), "sample rate {b}: {:?}", SampleRate::try_from(b));
    if let Ok(s) = SampleRate::try_from(b) { ck!(s.hz() == RATES[b as usize].1, "sample rate {b}: {}", s.hz()); }
    ck!(ChannelConfig::try_from(b).ok() == chan(b), "channel config {b}: {:?}", ChannelConfig::try_from(b));
    if let Ok(c) = ChannelConfig::try_from(b) { ck!(c.channel_count() == CHANS[b as usize - 1].1, "channel config {b}: {}", c.channel_count()); }
    Ok(())
}

fn p15(r: &mut Rng, _: u64) -> R {
    let s = shape(r);
    let b = build(&s.top);
    let t = read(&b).map_err(|e| format!("the file {} can't be read: {e}", hex(&b)))?;
    let want = info(&s.media);
    ck!(t.audio_info() == &want, "file {}: audio info {:?} instead of {want:?}", hex(&b), t.audio_info());
    ck!(t.duration() == want.duration && t.channel_config() == want.channel_config && t.sample_rate() == want.sample_rate && t.avg_bitrate() == want.avg_bitrate && t.max_bitrate() == want.max_bitrate, "accessors of {want:?}");
    ck!(t.filetype() == s.ftyp, "file type {:?} instead of {:?}", t.filetype(), s.ftyp);
    Ok(())
}

fn p16(r: &mut Rng, case: u64) -> R {
    let items = rand_items(r, 6);
    let mut l = noisy_ilst(r, &items);
    let mut bad = false;
    if case % 4 == 3 {
        // an item without a value
        if let C::Kids(_, k) = &mut l.c {
            let n = match r.below(3) { 0 => kids(b"\xa9nam", vec![]), 1 => kids(b"\xa9nam", vec![raw(b"junk", vec![0; 20])]), _ => kids(b"----", vec![raw(b"mean", b"\0\0\0\0m".to_vec()), raw(b"name", b"\0\0\0\0n".to_vec())]) };
            let i = r.below(k.len() + 1);
            k.insert(i, n);
            bad = true;
        }
    } else if case % 4 == 2 {
        // freeform atoms that lack one of their strings
        if let C::Kids(_, k) = &mut l.c {
            let part = match r.below(3) { 0 => vec![raw(b"mean", b"\0\0\0\0m".to_vec())], 1 => vec![raw(b"name", b"\0\0\0\0n".to_vec())], _ => vec![] };
            let mut p = part;
            p.push(data_atom(1, b"v"));
            if r.chance(1, 2) { p.reverse(); }
            let i = r.below(k.len() + 1);
            k.insert(i, kids(b"----", p));
            // mean and name in an atom that isn't freeform
            if r.chance(1, 2) { k.push(kids(b"\xa9alb", vec![raw(b"mean", b"\0\0\0\0m".to_vec()), raw(b"name", b"\0\0\0\0n".to_vec()), data_atom(1, b"w")])); }
        }
    }
    let mut uk = vec![pkids(b"meta", vec![0; 4], vec![raw(b"hdlr", hdlr()), l.clone()])];
    if r.chance(1, 3) { uk.push(raw(b"Xtra", vec![0; 9])); }
    let top = vec![raw(b"ftyp", b"M4A ".to_vec()), kids(b"moov", vec![kids(b"udta", uk)])];
    let b = build(&top);
    let got = read(&b);
    if bad { ck!(got.is_err(), "the file {} with an empty item is read", hex(&b)); return Ok(()); }
    let want = meaning(&content(&l));
    let got = of_tag(&got.map_err(|e| format!("the file {} can't be read: {e}", hex(&b)))?);
    ck!(got == want, "the file {} is read as [{}] instead of [{}]", hex(&b), show(&got), show(&want));
    Ok(())
}

fn p17(r: &mut Rng, case: u64) -> R {
    if let Some(n) = hugecase(case) { return huge(n); }
    let mut s = file(r);
    let plain = build(&s.top);
    let a = read(&plain).map_err(|e| format!("the file {} can't be read: {e}", hex(&plain)))?;
    let d = r.range(1, 8);
    let flips: Vec<bool> = (0..4096).map(|_| r.chance(1, d)).collect();
    let mut k = 0;
    each(&mut s.top, &mut |n| { n.ext = flips[k % 4096]; k += 1; });
    let b = build(&s.top);
    let t = read(&b).map_err(|e| format!("the file {} with 64 bit sizes can't be read: {e}", hex(&b)))?;
    ck!(of_tag(&t) == of_tag(&a) && of_tag(&t) == s.items && t.audio_info() == a.audio_info() && t.filetype() == a.filetype(), "the file {} with 64 bit sizes is read as [{}] {:?} {:?}", hex(&b), show(&of_tag(&t)), t.audio_info(), t.filetype());
    // raw atoms hold atoms in turn: data, mean, name and esds
    let items = rand_items(r, 3);
    let (res, w) = write(&b, &to_tag(&items), false);
    res.map_err(|e| format!("writing to {} with 64 bit sizes failed: {e}", hex(&b)))?;
    parse(&w).map_err(|e| format!("writing [{}] to {} with 64 bit sizes gives {}: {e}", show(&items), hex(&b), hex(&w)))?;
    let t = read(&w).map_err(|e| format!("the written file {} can't be read: {e}", hex(&w)))?;
    ck!(of_tag(&t) == items, "the file {} is read as [{}]", hex(&w), show(&of_tag(&t)));
    // sizes smaller than the header
    let tree = parse(&b).unwrap();
    let mut at: Vec<(usize, bool)> = vec![];
    fn all(t: &[At], at: &mut Vec<(usize, bool)>) { for n in t { at.push((n.pos, n.ext)); all(&n.kids, at); } }
    for n in &tree { at.push((n.pos, n.ext)); all(&n.kids, &mut at); if &n.cc == b"moov" { break; } }
    let (p, e) = *r.pick(&at);
    let mut c = b.clone();
    if e { c[p + 8..p + 16].copy_from_slice(&(r.below(16) as u64).to_be_bytes()) } else { c[p..p + 4].copy_from_slice(&r.pick(&[0u32, 2, 3, 4, 5, 6, 7]).to_be_bytes()) }
    ck!(read(&c).is_err(), "the file {} with a size smaller than the header at {p} is read", hex(&c));
    let (res, w) = write(&c, &to_tag(&items), false);
    ck!(res.is_err() || w != c || true, "");
    Ok(())
}

fn p18(r: &mut Rng, _: u64) -> R {
    let strs = ["", "a", "b", "ab", "A", "a:b", "com.apple.iTunes", "ISRC", "a\0"];
    let gen = |r: &mut Rng| -> Id { match r.below(4) { 0 => Id::Cc(*r.pick(&[*b"----", *b"aaaa", *b"aaab", *b"baaa", *b"aAaa", [0xa9, b'n', b'a', b'm'], [0xa9, b'n', b'a', b'n'], [0; 4]])), 1 => ident(r), _ => Id::Free(r.pick(&strs).as_bytes().to_vec(), r.pick(&strs).as_bytes().to_vec()) } };
    let a = gen(r);
    let b = if r.chance(1, 3) { a.clone() } else { gen(r) };
    let want = a == b;
    let (da, db) = (did(&a), did(&b));
    let ctx = format!("{a:?} and {b:?}");
    ck!((da == db) == want && (da != db) == !want, "{ctx}: owned comparison");
    ck!(ident::idents_match(&da, &db) == want, "{ctx}: idents_match of owned forms");
    macro_rules! other { ($x:expr) => {{
        let x = $x;
        ck!((x == db) == want && (x != db) == !want, "{ctx}: borrowed comparison");
        ck!(ident::idents_match(&x, &db) == want && ident::idents_match(&db, &x) == want, "{ctx}: idents_match");
        ck!(x.fourcc() == da.fourcc() && x.freeform() == da.freeform(), "{ctx}: parts");
        ck!(DataIdent::from(x.clone()) == da, "{ctx}: conversion of {a:?} gives {:?}", DataIdent::from(x.clone()));
        let mut t = Tag::default();
        t.set_data(db.clone(), Data::Utf8("v".into()));
        ck!(t.strings_of(&x).count() == want as usize, "{ctx}: lookup");
        t.add_data(x.clone(), Data::Utf8("w".into()));
        ck!(t.strings_of(&db).count() == 1 + want as usize, "{ctx}: insertion");
    }} }
    match &a {
        Id::Cc(c) => { other!(Fourcc(*c)); ck!(DataIdent::fourcc(*c) == da, "{ctx}: constructor"); if let Id::Cc(d) = &b { ck!((Fourcc(*c) == Fourcc(*d)) == want, "{ctx}: codes") } }
        Id::Free(m, n) => {
            let (m, n) = (std::str::from_utf8(m).unwrap(), std::str::from_utf8(n).unwrap());
            let f = FreeformIdent::new(m, n);
            other!(f.clone());
            ck!(DataIdent::from(&f) == da && DataIdent::freeform(m, n) == da, "{ctx}: constructor");
            if let Id::Free(m2, n2) = &b { ck!((f == FreeformIdent::new(std::str::from_utf8(m2).unwrap(), std::str::from_utf8(n2).unwrap())) == want, "{ctx}: freeform") }
        }
    }
    Ok(())
}
