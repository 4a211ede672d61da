//! P19: the printed form of a tag, composed here from the items and the audio information alone
use crate::acc::{cc, ff};
use crate::ck;
use crate::mp4::*;
use crate::props::*;
use crate::rng::Rng;
use mp4ameta::{AudioInfo, ChannelConfig, DataIdent, SampleRate, Tag};
use std::time::Duration;

struct P<'a> { items: &'a [Item], out: String }
impl P<'_> {
    fn of(&self, id: &DataIdent) -> Vec<&(u32, Vec<u8>)> { self.items.iter().filter(|x| did(&x.0) == *id).flat_map(|x| x.1.iter()).collect() }
    fn strings(&self, id: &DataIdent) -> Vec<String> {
        self.of(id).into_iter().filter_map(|(c, p)| match c { 1 => Some(String::from_utf8(p.clone()).unwrap()),
            2 => Some(String::from_utf16(&p.chunks(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect::<Vec<_>>()).unwrap()), _ => None }).collect()
    }
    fn bytes(&self, id: &DataIdent) -> Option<Vec<u8>> { self.of(id).into_iter().find(|(c, _)| *c == 0 || *c == 21).map(|x| x.1.clone()) }
    fn line(&mut self, s: &str) { self.out.push_str(s); self.out.push('\n'); }
    fn one(&mut self, name: &str, id: DataIdent) { if let Some(s) = self.strings(&id).first() { let s = format!("{name}: {s}"); self.line(&s) } }
    fn several(&mut self, names: &str, name: &str, v: Vec<String>) {
        if v.len() == 1 { return self.line(&format!("{name}: {}", v[0])) }
        if v.is_empty() { return }
        self.line(&format!("{names}:"));
        for s in v { self.line(&format!("    {s}")) }
    }
    fn all(&mut self, names: &str, name: &str, id: DataIdent) { let v = self.strings(&id); self.several(names, name, v) }
    fn int(&mut self, name: &str, id: DataIdent, n: usize) {
        if let Some(b) = self.bytes(&id) { if b.len() >= n { let v = b[..n].iter().fold(0u64, |a, x| a << 8 | *x as u64); self.line(&format!("{name}: {v}")) } }
    }
    fn pair(&mut self, name: &str, id: DataIdent) {
        let b = self.bytes(&id).unwrap_or_default();
        let at = |i: usize| if b.len() >= i + 2 { Some((b[i] as u32) << 8 | b[i + 1] as u32).filter(|n| *n != 0) } else { None };
        match (at(2), at(4)) {
            (Some(a), Some(b)) => self.line(&format!("{name}: {a} of {b}")),
            (Some(a), None) => self.line(&format!("{name}: {a}")),
            (None, Some(b)) => self.line(&format!("{name}: ? of {b}")),
            _ => {}
        }
    }
    fn flag(&mut self, name: &str, id: DataIdent) { if self.bytes(&id).and_then(|b| b.first().copied()) == Some(1) { self.line(name) } }
}
pub fn text_of(items: &[Item], info: &AudioInfo, ftyp: &str) -> String {
    let mut p = P { items, out: String::new() };
    p.all("album artists", "album artist", cc(b"aART"));
    p.all("artists", "artist", cc(b"\xa9ART"));
    p.all("composers", "composer", cc(b"\xa9wrt"));
    p.all("lyricists", "lyricist", ff("LYRICIST"));
    p.one("album", cc(b"\xa9alb"));
    p.one("title", cc(b"\xa9nam"));
    let mut g: Vec<String> = p.of(&cc(b"gnre")).into_iter().filter(|(c, b)| (*c == 0 || *c == 21) && b.len() >= 2)
        .map(|x| (x.1[0] as usize) << 8 | x.1[1] as usize).filter(|c| *c >= 1 && *c <= 80).map(|c| GENRES[c - 1].to_string()).collect();
    g.extend(p.strings(&cc(b"\xa9gen")));
    p.several("genres", "genre", g);
    p.one("year", cc(b"\xa9day"));
    p.pair("track", cc(b"trkn"));
    p.pair("disc", cc(b"disk"));
    let arts: Vec<String> = p.of(&cc(b"covr")).into_iter().filter_map(|(c, b)| {
        let f = match c { 13 => "jpeg", 14 => "png", 27 => "bmp", _ => return None };
        let n = b.len();
        Some(if n < 1 << 10 { format!("{f} {n}") } else if n < 1 << 20 { format!("{f} {}k", n >> 10) } else { format!("{f} {}M", n >> 20) })
    }).collect();
    p.several("artworks", "artwork", arts);
    if let Some(c) = p.bytes(&cc(b"rtng")).and_then(|b| b.first().copied()) {
        p.line(&format!("advisory rating: {}", match c { 0 => "Inoffensive", 2 => "Clean", _ => "Explicit" }))
    }
    if let Some(c) = p.bytes(&cc(b"stik")).and_then(|b| b.first().copied()) {
        let m = match c { 0 => "Movie", 1 => "Normal", 2 => "Audiobook", 5 => "Whacked Bookmark", 6 => "Music Video", 9 => "Short Film", 10 => "TV-Show", 11 => "Booklet", _ => "" };
        if !m.is_empty() { p.line(&format!("media type: {m}")) }
    }
    p.all("groupings", "grouping", cc(b"\xa9grp"));
    p.all("descriptions", "description", cc(b"desc"));
    p.all("comments", "comment", cc(b"\xa9cmt"));
    p.all("categories", "category", cc(b"catg"));
    p.all("keywords", "keyword", cc(b"keyw"));
    p.one("copyright", cc(b"cprt"));
    p.one("encoder", cc(b"\xa9too"));
    p.one("tv show name", cc(b"tvsh"));
    p.one("tv network name", cc(b"tvnn"));
    p.one("tv episode name", cc(b"tven"));
    p.int("tv episode", cc(b"tves"), 4);
    p.int("tv season", cc(b"tvsn"), 4);
    p.int("bpm", cc(b"tmpo"), 2);
    p.one("movement", cc(b"\xa9mvn"));
    p.one("work", cc(b"\xa9wrk"));
    p.int("movement count", cc(b"\xa9mvc"), 2);
    p.int("movement index", cc(b"\xa9mvi"), 2);
    if let Some(d) = info.duration {
        let (s, n) = (d.as_secs(), d.subsec_nanos());
        let t = if s >= 3600 { format!("{}:{:02}:{:02}", s / 3600, s / 60 % 60, s % 60) } else if s >= 60 { format!("{}:{:02}", s / 60, s % 60) } else if s > 0 { format!("{s}s") }
            else if n >= 1_000_000 { format!("{}ms", n / 1_000_000) } else if n >= 1000 { format!("{}µs", n / 1000) } else { format!("{n}ns") };
        p.line(&format!("duration: {t}"));
    }
    if let Some(c) = info.channel_config {
        let t = match c { ChannelConfig::Mono => "Mono", ChannelConfig::Stereo => "Stereo", ChannelConfig::Three => "3.0", ChannelConfig::Four => "4.0",
            ChannelConfig::Five => "5.0", ChannelConfig::FiveOne => "5.1", ChannelConfig::SevenOne => "7.1" };
        p.line(&format!("channel config: {t}"));
    }
    if let Some(s) = info.sample_rate { p.line(&format!("sample rate: {}Hz", RATES.iter().find(|r| r.0 == s).unwrap().1)) }
    if let Some(b) = info.avg_bitrate { p.line(&format!("average bitrate: {}kbps", b / 1024)) }
    if let Some(b) = info.max_bitrate { p.line(&format!("maximum bitrate: {}kbps", b / 1024)) }
    p.flag("show movement", cc(b"shwm"));
    p.flag("gapless playback", cc(b"pgap"));
    p.flag("compilation", cc(b"cpil"));
    p.one("isrc", ff("ISRC"));
    p.one("lyrics", cc(b"\xa9lyr"));
    for (i, d) in items {
        if let Id::Free(m, n) = i {
            p.line(&format!("----:{}:{}:", String::from_utf8(m.clone()).unwrap(), String::from_utf8(n.clone()).unwrap()));
            for (c, b) in d {
                let u = |b: &[u8]| String::from_utf16(&b.chunks(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect::<Vec<_>>()).unwrap();
                p.line(&match c { 0 => format!("    Data::Reserved({b:?})"), 1 => format!("    Data::Utf8({:?})", String::from_utf8(b.clone()).unwrap()), 2 => format!("    Data::Utf16({:?})", u(b)),
                    13 => "    Data::Jpeg".into(), 14 => "    Data::Png".into(), 21 => format!("    Data::BeSigned({b:?})"), _ => "    Data::Bmp".into() });
            }
        }
    }
    p.line(&format!("filetype: {ftyp}"));
    p.out
}
const RATES: [(SampleRate, u32); 13] = [(SampleRate::Hz96000, 96000), (SampleRate::Hz88200, 88200), (SampleRate::Hz64000, 64000), (SampleRate::Hz48000, 48000), (SampleRate::Hz44100, 44100), (SampleRate::Hz32000, 32000),
    (SampleRate::Hz24000, 24000), (SampleRate::Hz22050, 22050), (SampleRate::Hz16000, 16000), (SampleRate::Hz12000, 12000), (SampleRate::Hz11025, 11025), (SampleRate::Hz8000, 8000), (SampleRate::Hz7350, 7350)];
const CH: [ChannelConfig; 7] = [ChannelConfig::Mono, ChannelConfig::Stereo, ChannelConfig::Three, ChannelConfig::Four, ChannelConfig::Five, ChannelConfig::FiveOne, ChannelConfig::SevenOne];

fn ids() -> Vec<DataIdent> {
    let mut v = crate::acc::all();
    v.extend([cc(b"gnre"), cc(b"trkn"), cc(b"disk"), cc(b"rtng"), cc(b"stik"), cc(b"abcd"), ff("OTHER"), DataIdent::freeform("x", "LYRICIST"), DataIdent::freeform("", "")]);
    v
}
pub fn p19(r: &mut Rng, case: u64) -> R {
    let all = ids();
    let mut items: Vec<Item> = vec![];
    // the first cases hold one identifier alone, with every number of values
    let n = if case < 160 { 1 } else { r.below(1 + 2 * all.len()) };
    for _ in 0..n {
        let id = if case < 160 { all[case as usize % all.len()].clone() } else { r.pick(&all).clone() };
        let id = unid(&id);
        if items.iter().any(|x| x.0 == id) { continue }
        let d: Vec<(u32, Vec<u8>)> = (0..r.range(1, 3)).map(|_| {
            let small = r.below(91) as u16;
            match r.below(6) {
                0 => (*r.pick(&[0, 21]), small.to_be_bytes().to_vec()),
                1 => (*r.pick(&[0, 21]), { let n = r.below(9); (0..n).map(|_| if r.chance(1, 2) { r.below(3) as u8 } else { r.byte() }).collect() }),
                2 => (*r.pick(&[0, 21]), vec![r.below(13) as u8]),
                3 => (*r.pick(&[13, 14, 27]), vec![0; if r.chance(1, 12) { *r.pick(&[1048575, 1048576, (2 << 20) - 1, 2 << 20]) } else { *r.pick(&[0, 1, 1023, 1024, 1025, 2047, 2048, r.clone().below(5000)]) }]),
                _ => { let c = *r.pick(&CODES); (c, payload(r, c)) }
            }
        }).collect();
        items.push((id, d));
    }
    let opt = |r: &mut Rng| r.chance(3, 4);
    let info = AudioInfo {
        duration: if opt(r) { Some(match r.below(4) {
            0 => Duration::new(0, *r.pick(&[0, 1, 999, 1000, 1001, 999_999, 1_000_000, 999_999_999])),
            1 => Duration::new(*r.pick(&[1, 59, 60, 61, 3599, 3600, 3601, 86400, 360000]), r.below(1_000_000_000) as u32),
            2 => Duration::from_nanos(r.next() >> r.below(64)),
            _ => Duration::new(r.next() >> r.below(64), 0),
        }) } else { None },
        channel_config: if opt(r) { Some(*r.pick(&CH)) } else { None },
        sample_rate: if opt(r) { Some(r.pick(&RATES).0) } else { None },
        max_bitrate: if opt(r) { Some((r.next() >> r.below(60)) as u32) } else { None },
        avg_bitrate: if opt(r) { Some((r.next() >> r.below(60)) as u32) } else { None },
    };
    let ftyp = rtext(r);
    let mut t = Tag::new(ftyp.clone(), info.clone(), vec![]);
    for (i, d) in &items { for (c, p) in d { t.add_data(did(i), data(*c, p)); } }
    let want = text_of(&items, &info, &ftyp);
    let mut got = String::new();
    ck!(std::fmt::Write::write_fmt(&mut got, format_args!("{t}")).is_ok(), "printing {} failed", show(&items));
    ck!(got == want, "{} prints as {:?} instead of {:?}", show(&items), got, want);
    Ok(())
}
