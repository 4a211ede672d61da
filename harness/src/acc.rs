//! P11: the named accessors
use crate::ck;
use crate::mp4::*;
use crate::props::*;
use crate::rng::Rng;
use mp4ameta::{Data, DataIdent, Fourcc, FreeformIdent, Img, Tag};

fn others(t: &Tag, id: &DataIdent) -> Vec<Item> { of_tag(t).into_iter().filter(|x| did(&x.0) != *id).collect() }
fn noise(r: &mut Rng, all: &[DataIdent]) -> (Tag, String) {
    let mut t = Tag::default();
    let mut log = String::new();
    for _ in 0..r.below(6) {
        let i = r.pick(all).clone();
        let c = *r.pick(&CODES);
        let p = match r.below(4) { 0 => vec![], 1 if c != 1 && c != 2 => vec![1], _ => payload(r, c) };
        log.push_str(&format!("{i} ({c}, {}); ", hex(&p)));
        t.add_data(i, data(c, &p));
    }
    (t, log)
}
const I: &str = "com.apple.iTunes";
pub fn cc(c: &[u8; 4]) -> DataIdent { DataIdent::Fourcc(Fourcc(*c)) }
pub fn ff(n: &str) -> DataIdent { DataIdent::from(FreeformIdent::new(I, n)) }

pub fn p11(r: &mut Rng, case: u64) -> R {
    let mut k = 0u64;
    let all = all();
    macro_rules! field { ($t:ident $log:ident $rest:ident $id:ident $e:expr; $body:block) => {{
        if case % 33 == k {
            let $id: DataIdent = $e;
            let (mut $t, $log) = noise(r, &all);
            let $rest = others(&$t, &$id);
            $body;
            ck!(others(&$t, &$id) == $rest, "{}{}: other items changed", $log, $id);
            return Ok(());
        }
        k += 1;
    }} }
    macro_rules! text { ($id:expr, $get:ident, $take:ident, $set:ident, $remove:ident) => { field!(t log rest id $id; {
        let st: Vec<String> = t.strings_of(&id).map(|s| s.to_string()).collect();
        ck!(t.$get() == st.first().map(|s| s.as_str()), "{log}{id}: {:?} instead of {:?}", t.$get(), st.first());
        let s = rtext(r);
        if r.chance(1, 2) { t.$set(s.clone()) } else { t.$set(s.as_str()) }
        ck!(t.$get() == Some(&s), "{log}{id}: {:?} after setting {s:?}", t.$get());
        ck!(t.data_of(&id).map(undata).eq([(1, s.as_bytes().to_vec())]), "{log}{id}: {s:?} is stored as {:?}", t.data_of(&id).map(undata).collect::<Vec<_>>());
        let mut u = t.clone();
        u.$remove();
        ck!(u.$get().is_none() && u.data_of(&id).next().is_none() && others(&u, &id) == rest, "{log}{id}: removed");
        ck!(t.$take() == Some(s) && t.$get().is_none() && t.data_of(&id).next().is_none() && t.$take().is_none(), "{log}{id}: taken");
    }) } }
    macro_rules! texts { ($id:expr, $get:ident, $gets:ident, $take:ident, $takes:ident, $set:ident, $sets:ident, $add:ident, $adds:ident, $removes:ident) => { field!(t log rest id $id; {
        let st: Vec<String> = t.strings_of(&id).map(|s| s.to_string()).collect();
        ck!(t.$gets().eq(st.iter().map(|s| s.as_str())) && t.$get() == st.first().map(|s| s.as_str()), "{log}{id}: {:?} instead of {st:?}", t.$gets().collect::<Vec<_>>());
        let before: Vec<(u32, Vec<u8>)> = t.data_of(&id).map(undata).collect();
        let l: Vec<String> = (0..r.below(4)).map(|_| rtext(r)).collect();
        let enc = |l: &[String]| -> Vec<(u32, Vec<u8>)> { l.iter().map(|s| (1, s.as_bytes().to_vec())).collect() };
        let s = rtext(r);
        let mut u = t.clone();
        u.$add(s.clone());
        ck!(u.data_of(&id).map(undata).eq(before.iter().cloned().chain(enc(&[s.clone()]))) && others(&u, &id) == rest, "{log}{id}: added");
        u = t.clone();
        u.$adds(l.clone());
        ck!(u.data_of(&id).map(undata).eq(before.iter().cloned().chain(enc(&l))) && others(&u, &id) == rest, "{log}{id}: added several");
        u.$set(s.clone());
        ck!(u.data_of(&id).map(undata).eq(enc(&[s.clone()])) && u.$get() == Some(&s) && others(&u, &id) == rest, "{log}{id}: set");
        t.$sets(l.clone());
        ck!(t.data_of(&id).map(undata).eq(enc(&l)) && others(&t, &id) == rest, "{log}{id}: {l:?} is stored as {:?}", t.data_of(&id).map(undata).collect::<Vec<_>>());
        ck!(t.$gets().eq(l.iter().map(|s| s.as_str())) && t.$get() == l.first().map(|s| s.as_str()), "{log}{id}: {:?} after setting {l:?}", t.$gets().collect::<Vec<_>>());
        u = t.clone();
        u.$removes();
        ck!(u.$get().is_none() && u.data_of(&id).next().is_none() && others(&u, &id) == rest, "{log}{id}: removed");
        u = t.clone();
        ck!(u.$take() == l.first().cloned() && u.data_of(&id).next().is_none() && others(&u, &id) == rest, "{log}{id}: taken");
        let g: Vec<String> = t.$takes().collect();
        ck!(g == l && t.data_of(&id).next().is_none(), "{log}{id}: took {g:?} of {l:?}");
    }) } }
    macro_rules! flag { ($id:expr, $get:ident, $set:ident, $remove:ident) => { field!(t log rest id $id; {
        let b: Option<Vec<u8>> = t.bytes_of(&id).next().map(|b| b.to_vec());
        ck!(t.$get() == (b.as_ref().and_then(|b| b.first()) == Some(&1)), "{log}{id}: {} for {b:?}", t.$get());
        let n = r.below(3);
        let mut b = r.bytes(n);
        if r.chance(1, 2) && n > 0 { b[0] = r.below(3) as u8 }
        let mut u = t.clone();
        u.set_data(id.clone(), if r.chance(1, 2) { Data::BeSigned(b.clone()) } else { Data::Reserved(b.clone()) });
        ck!(u.$get() == (b.first() == Some(&1)), "{log}{id}: {} for {b:?}", u.$get());
        t.$set();
        ck!(t.$get() && t.data_of(&id).map(undata).eq([(21, vec![1])]), "{log}{id}: stored as {:?}", t.data_of(&id).map(undata).collect::<Vec<_>>());
        let keep = others(&t, &id);
        t.$remove();
        ck!(!t.$get() && t.data_of(&id).next().is_none() && others(&t, &id) == keep, "{log}{id}: removed");
    }) } }
    macro_rules! int { ($id:expr, $ty:ty, $get:ident, $set:ident, $remove:ident) => { field!(t log rest id $id; {
        const N: usize = std::mem::size_of::<$ty>();
        let conv = |b: &[u8]| -> Option<$ty> { if b.len() < N { None } else { Some(b[..N].iter().fold(0, |a: u64, x| a << 8 | *x as u64) as $ty) } };
        let b: Option<Vec<u8>> = t.bytes_of(&id).next().map(|b| b.to_vec());
        ck!(t.$get() == b.as_ref().and_then(|b| conv(b)), "{log}{id}: {:?} for {b:?}", t.$get());
        let n = r.below(7);
        let b = r.bytes(n);
        let mut u = t.clone();
        u.set_data(id.clone(), if r.chance(1, 2) { Data::BeSigned(b.clone()) } else { Data::Reserved(b.clone()) });
        ck!(u.$get() == conv(&b), "{log}{id}: {:?} for {b:?}", u.$get());
        let rx = r.next() as $ty;
        let v = *r.pick(&[0, 1, 255, 256, <$ty>::MAX, 1 << (8 * N - 1), rx]);
        t.$set(v);
        let w: Vec<u8> = (0..N).rev().map(|i| (v >> (8 * i)) as u8).collect();
        ck!(t.$get() == Some(v) && t.data_of(&id).map(undata).eq([(21, w)]), "{log}{id}: {v} is stored as {:?}", t.data_of(&id).map(undata).collect::<Vec<_>>());
        let keep = others(&t, &id);
        t.$remove();
        ck!(t.$get().is_none() && t.data_of(&id).next().is_none() && others(&t, &id) == keep, "{log}{id}: removed");
    }) } }
    text!(cc(b"\xa9alb"), album, take_album, set_album, remove_album);
    text!(cc(b"cprt"), copyright, take_copyright, set_copyright, remove_copyright);
    text!(cc(b"\xa9too"), encoder, take_encoder, set_encoder, remove_encoder);
    text!(cc(b"\xa9lyr"), lyrics, take_lyrics, set_lyrics, remove_lyrics);
    text!(cc(b"\xa9mvn"), movement, take_movement, set_movement, remove_movement);
    text!(cc(b"\xa9nam"), title, take_title, set_title, remove_title);
    text!(cc(b"tven"), tv_episode_name, take_tv_episode_name, set_tv_episode_name, remove_tv_episode_name);
    text!(cc(b"tvnn"), tv_network_name, take_tv_network_name, set_tv_network_name, remove_tv_network_name);
    text!(cc(b"tvsh"), tv_show_name, take_tv_show_name, set_tv_show_name, remove_tv_show_name);
    text!(cc(b"\xa9wrk"), work, take_work, set_work, remove_work);
    text!(cc(b"\xa9day"), year, take_year, set_year, remove_year);
    text!(ff("ISRC"), isrc, take_isrc, set_isrc, remove_isrc);
    texts!(cc(b"aART"), album_artist, album_artists, take_album_artist, take_album_artists, set_album_artist, set_album_artists, add_album_artist, add_album_artists, remove_album_artists);
    texts!(cc(b"\xa9ART"), artist, artists, take_artist, take_artists, set_artist, set_artists, add_artist, add_artists, remove_artists);
    texts!(cc(b"catg"), category, categories, take_category, take_categories, set_category, set_categories, add_category, add_categories, remove_categories);
    texts!(cc(b"\xa9cmt"), comment, comments, take_comment, take_comments, set_comment, set_comments, add_comment, add_comments, remove_comments);
    texts!(cc(b"\xa9wrt"), composer, composers, take_composer, take_composers, set_composer, set_composers, add_composer, add_composers, remove_composers);
    texts!(cc(b"\xa9gen"), custom_genre, custom_genres, take_custom_genre, take_custom_genres, set_custom_genre, set_custom_genres, add_custom_genre, add_custom_genres, remove_custom_genres);
    texts!(cc(b"desc"), description, descriptions, take_description, take_descriptions, set_description, set_descriptions, add_description, add_descriptions, remove_descriptions);
    texts!(cc(b"\xa9grp"), grouping, groupings, take_grouping, take_groupings, set_grouping, set_groupings, add_grouping, add_groupings, remove_groupings);
    texts!(cc(b"keyw"), keyword, keywords, take_keyword, take_keywords, set_keyword, set_keywords, add_keyword, add_keywords, remove_keywords);
    texts!(ff("LYRICIST"), lyricist, lyricists, take_lyricist, take_lyricists, set_lyricist, set_lyricists, add_lyricist, add_lyricists, remove_lyricists);
    flag!(cc(b"cpil"), compilation, set_compilation, remove_compilation);
    flag!(cc(b"pgap"), gapless_playback, set_gapless_playback, remove_gapless_playback);
    flag!(cc(b"shwm"), show_movement, set_show_movement, remove_show_movement);
    int!(cc(b"tmpo"), u16, bpm, set_bpm, remove_bpm);
    int!(cc(b"\xa9mvc"), u16, movement_count, set_movement_count, remove_movement_count);
    int!(cc(b"\xa9mvi"), u16, movement_index, set_movement_index, remove_movement_index);
    int!(cc(b"tves"), u32, tv_episode, set_tv_episode, remove_tv_episode);
    int!(cc(b"tvsn"), u32, tv_season, set_tv_season, remove_tv_season);
    field!(t log rest id cc(b"covr"); {
        let img = |v: &(u32, Vec<u8>)| match v.0 { 13 => Img::jpeg(v.1.clone()), 14 => Img::png(v.1.clone()), _ => Img::bmp(v.1.clone()) };
        let gen = |r: &mut Rng| -> (u32, Vec<u8>) { let n = r.below(5); (*r.pick(&[13, 14, 27]), r.bytes(n)) };
        let st: Vec<(u32, Vec<u8>)> = t.data_of(&id).map(undata).filter(|v| [13, 14, 27].contains(&v.0)).collect();
        let own = |i: mp4ameta::ImgRef| Img { fmt: i.fmt, data: i.data.to_vec() };
        ck!(t.artworks().map(own).eq(st.iter().map(img)) && t.artwork().map(own) == st.first().map(img), "{log}: artworks");
        let l: Vec<(u32, Vec<u8>)> = (0..r.below(4)).map(|_| gen(r)).collect();
        let g = gen(r);
        let mut u = t.clone();
        let before: Vec<(u32, Vec<u8>)> = u.data_of(&id).map(undata).collect();
        u.add_artwork(img(&g));
        u.add_artworks(l.iter().map(img));
        ck!(u.data_of(&id).map(undata).eq(before.into_iter().chain([g.clone()]).chain(l.iter().cloned())), "{log}: added artworks");
        u.set_artwork(img(&g));
        ck!(u.data_of(&id).map(undata).eq([g.clone()]), "{log}: set artwork");
        u.remove_artworks();
        ck!(u.data_of(&id).next().is_none(), "{log}: removed artworks");
        t.set_artworks(l.iter().map(img));
        ck!(t.data_of(&id).map(undata).eq(l.iter().cloned()), "{log}: set artworks");
        let mut u = t.clone();
        ck!(u.take_artwork() == l.first().map(img) && u.data_of(&id).next().is_none(), "{log}: took artwork");
        let got: Vec<Img<Vec<u8>>> = t.take_artworks().collect();
        ck!(got.into_iter().eq(l.iter().map(img)) && t.data_of(&id).next().is_none(), "{log}: took artworks");
    });
    let _ = k;
    Ok(())
}
pub fn all() -> Vec<DataIdent> {
    let mut v: Vec<DataIdent> = [b"\xa9alb", b"cprt", b"\xa9too", b"\xa9lyr", b"\xa9mvn", b"\xa9nam", b"tven", b"tvnn", b"tvsh", b"\xa9wrk", b"\xa9day", b"aART", b"\xa9ART", b"catg", b"\xa9cmt",
        b"\xa9wrt", b"\xa9gen", b"desc", b"\xa9grp", b"keyw", b"cpil", b"pgap", b"shwm", b"tmpo", b"\xa9mvc", b"\xa9mvi", b"tves", b"tvsn", b"covr"].iter().map(|c| cc(c)).collect();
    v.push(ff("ISRC"));
    v.push(ff("LYRICIST"));
    v
}
