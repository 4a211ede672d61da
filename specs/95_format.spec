=== prelude
pub mod pf {
use vstd::prelude::*;
use crate::vp::*;
use crate::vp::fmt::*;
use crate::vs::*;
use crate::tg::*;
use crate::nm::*;
use crate::gn::*;
use crate::tp::*;
use crate::types::*;
use crate::ty::*;
use crate::atom::ident::*;
use crate::atom::data::*;
use crate::atom::AtomData;
use crate::tag::Tag;
broadcast use crate::vp::group_vp;
// ===================================================================== the printed form
pub open spec fn latin(b: Seq<u8>) -> Seq<char> { b.map_values(|x: u8| x as char) }
pub open spec fn id_text(i: IdS) -> Seq<char> {
    match i { IdS::F(f) => latin(f.0@), IdS::X(m, n) => "----:"@ + m + ":"@ + n }
}
pub open spec fn data_text(d: DataS) -> Seq<char> {
    match d {
        DataS::Reserved(b) => "Data::Reserved("@ + listed(b) + ")"@,
        DataS::Utf8(s) => "Data::Utf8("@ + quoted(s) + ")"@,
        DataS::Utf16(s) => "Data::Utf16("@ + quoted(s) + ")"@,
        DataS::Jpeg(_) => "Data::Jpeg"@,
        DataS::Png(_) => "Data::Png"@,
        DataS::BeSigned(b) => "Data::BeSigned("@ + listed(b) + ")"@,
        DataS::Bmp(_) => "Data::Bmp"@,
    }
}
pub open spec fn media_text(x: MediaType) -> Seq<char> {
    match x { MediaType::Movie => "Movie"@, MediaType::Normal => "Normal"@, MediaType::AudioBook => "Audiobook"@, MediaType::WhackedBookmark => "Whacked Bookmark"@, MediaType::MusicVideo => "Music Video"@, MediaType::ShortFilm => "Short Film"@, MediaType::TvShow => "TV-Show"@, MediaType::Booklet => "Booklet"@ }
}
pub open spec fn rating_text(x: AdvisoryRating) -> Seq<char> {
    match x { AdvisoryRating::Clean => "Clean"@, AdvisoryRating::Inoffensive => "Inoffensive"@, AdvisoryRating::Explicit => "Explicit"@ }
}
pub open spec fn channel_text(x: ChannelConfig) -> Seq<char> {
    match x { ChannelConfig::Mono => "Mono"@, ChannelConfig::Stereo => "Stereo"@, ChannelConfig::Three => "3.0"@, ChannelConfig::Four => "4.0"@, ChannelConfig::Five => "5.0"@, ChannelConfig::FiveOne => "5.1"@, ChannelConfig::SevenOne => "7.1"@ }
}
pub open spec fn rate_text(x: SampleRate) -> Seq<char> { dec(freq(x) as nat) + "Hz"@ }
pub open spec fn one_line(name: Seq<char>, v: Option<Seq<char>>) -> Seq<char> {
    match v { Some(s) => name + s + "\n"@, None => Seq::empty() }
}
pub open spec fn lines(v: Seq<Seq<char>>) -> Seq<char>
    decreases v.len()
{
    if v.len() == 0 { Seq::empty() } else { lines(v.drop_last()) + "    "@ + v.last() + "\n"@ }
}
/// a heading and a line for each of several values, one line for a single value
pub open spec fn all_lines(names: Seq<char>, name: Seq<char>, v: Seq<Seq<char>>) -> Seq<char> {
    if v.len() > 1 { names + lines(v) } else { one_line(name, first(v)) }
}
pub trait Whole: Sized { spec fn whole(self) -> nat; }
impl Whole for u16 { open spec fn whole(self) -> nat { self as nat } }
impl Whole for u32 { open spec fn whole(self) -> nat { self as nat } }
pub open spec fn int_line<T: Whole>(name: Seq<char>, v: Option<T>) -> Seq<char> {
    match v { Some(n) => name + dec(n.whole()) + "\n"@, None => Seq::empty() }
}
pub open spec fn flag_of(t: Seq<ItemS>, id: IdS) -> bool {
    bytes_of(t, id).len() > 0 && bytes_of(t, id)[0].len() > 0 && bytes_of(t, id)[0][0] == 1
}
pub open spec fn pair_line(name: Seq<char>, open: Seq<char>, n: Option<u16>, m: Option<u16>) -> Seq<char> {
    match (n, m) {
        (Some(n), Some(m)) => name + dec(n as nat) + " of "@ + dec(m as nat) + "\n"@,
        (Some(n), None) => name + dec(n as nat) + "\n"@,
        (None, Some(m)) => open + dec(m as nat) + "\n"@,
        (None, None) => Seq::empty(),
    }
}
/// format and size of an image
pub open spec fn art_line(i: (ImgFmt, Seq<u8>)) -> Seq<char> {
    let name = match i.0 { ImgFmt::Png => "png"@, ImgFmt::Jpeg => "jpeg"@, ImgFmt::Bmp => "bmp"@ };
    let n = i.1.len();
    if n < 1024 { name + " "@ + dec(n) + "\n"@ } else if n < 1048576 { name + " "@ + dec(n / 1024) + "k\n"@ } else { name + " "@ + dec(n / 1048576) + "M\n"@ }
}
pub open spec fn arts(v: Seq<(ImgFmt, Seq<u8>)>) -> Seq<char>
    decreases v.len()
{
    if v.len() == 0 { Seq::empty() } else { arts(v.drop_last()) + "    "@ + art_line(v.last()) }
}
pub open spec fn art_lines(v: Seq<(ImgFmt, Seq<u8>)>) -> Seq<char> {
    if v.len() > 1 { "artworks:\n"@ + arts(v) } else if v.len() == 1 { "artwork: "@ + art_line(v[0]) } else { Seq::empty() }
}
pub open spec fn media_line(m: Option<MediaType>) -> Seq<char> { match m { Some(m) => "media type: "@ + media_text(m) + "\n"@, None => Seq::empty() } }
pub open spec fn rating_line(m: Option<AdvisoryRating>) -> Seq<char> { match m { Some(m) => "advisory rating: "@ + rating_text(m) + "\n"@, None => Seq::empty() } }
pub open spec fn channel_line(m: Option<ChannelConfig>) -> Seq<char> { match m { Some(m) => "channel config: "@ + channel_text(m) + "\n"@, None => Seq::empty() } }
pub open spec fn rate_line(m: Option<SampleRate>) -> Seq<char> { match m { Some(m) => "sample rate: "@ + rate_text(m) + "\n"@, None => Seq::empty() } }
pub open spec fn bits_line(name: Seq<char>, n: Option<u32>) -> Seq<char> { match n { Some(n) => name + dec((n / 1024) as nat) + "kbps\n"@, None => Seq::empty() } }
pub open spec fn time_line(d: Option<core::time::Duration>) -> Seq<char> { match d { Some(d) => time_text(dur(d).0 as nat, dur(d).1 as nat), None => Seq::empty() } }
/// a duration in the largest fitting unit
pub open spec fn time_text(s: nat, n: nat) -> Seq<char> {
    let t = "duration: "@;
    if s >= 3600 { t + dec(s / 60 / 60) + ":"@ + two(dec(s / 60 % 60)) + ":"@ + two(dec(s % 60)) + "\n"@ }
    else if s >= 60 { t + dec(s / 60) + ":"@ + two(dec(s % 60)) + "\n"@ }
    else if s > 0 { t + dec(s) + "s\n"@ }
    else if n >= 1000000 { t + dec(n / 1000000) + "ms\n"@ }
    else if n >= 1000 { t + dec(n / 1000) + "µs\n"@ }
    else { t + dec(n) + "ns\n"@ }
}
pub open spec fn data_lines(v: Seq<DataS>) -> Seq<char>
    decreases v.len()
{
    if v.len() == 0 { Seq::empty() } else { data_lines(v.drop_last()) + "    "@ + data_text(v.last()) + "\n"@ }
}
/// the freeform items with their values
pub open spec fn freeforms(t: Seq<ItemS>) -> Seq<char>
    decreases t.len()
{
    if t.len() == 0 { Seq::empty() } else if t.last().id is X { freeforms(t.drop_last()) + id_text(t.last().id) + ":\n"@ + data_lines(t.last().data) }
    else { freeforms(t.drop_last()) }
}
pub proof fn lemma_latin(b: Seq<u8>)
    ensures forall|s: Seq<char>| s.len() == b.len() && (forall|i: int| 0 <= i < b.len() ==> #[trigger] s[i] == b[i] as char) ==> #[trigger] text_of(s) == latin(b)
{
    assert forall|s: Seq<char>| s.len() == b.len() && (forall|i: int| 0 <= i < b.len() ==> #[trigger] s[i] == b[i] as char) implies #[trigger] text_of(s) == latin(b) by { assert(latin(b) =~= s); }
}
impl Tag {
    /// a line for every field that is present
    pub open spec fn fields(&self) -> Seq<char> {
        Seq::<char>::empty()
        + all_lines("album artists:\n"@, "album artist: "@, strings_of(self@, n_aART()))
        + all_lines("artists:\n"@, "artist: "@, strings_of(self@, n__ART()))
        + all_lines("composers:\n"@, "composer: "@, strings_of(self@, n__wrt()))
        + all_lines("lyricists:\n"@, "lyricist: "@, strings_of(self@, n_lyricist()))
        + one_line("album: "@, first(strings_of(self@, n__alb())))
        + one_line("title: "@, first(strings_of(self@, n__nam())))
        + all_lines("genres:\n"@, "genre: "@, genres_s(self@))
        + one_line("year: "@, first(strings_of(self@, n__day())))
        + pair_line("track: "@, "track: ? of "@, number_s(first(bytes_of(self@, n_trkn()))), total_s(first(bytes_of(self@, n_trkn()))))
        + pair_line("disc: "@, "disc: ? of "@, number_s(first(bytes_of(self@, n_disk()))), total_s(first(bytes_of(self@, n_disk()))))
        + art_lines(images_of(self@, n_covr()))
        + rating_line(match first(bytes_of(self@, n_rtng())) { Some(b) => if b.len() > 0 { Some(rating_of(b[0] as int)) } else { None }, None => None })
        + media_line(match first(bytes_of(self@, n_stik())) { Some(b) => if b.len() > 0 { media_of(b[0] as int) } else { None }, None => None })
        + all_lines("groupings:\n"@, "grouping: "@, strings_of(self@, n__grp()))
        + all_lines("descriptions:\n"@, "description: "@, strings_of(self@, n_desc()))
        + all_lines("comments:\n"@, "comment: "@, strings_of(self@, n__cmt()))
        + all_lines("categories:\n"@, "category: "@, strings_of(self@, n_catg()))
        + all_lines("keywords:\n"@, "keyword: "@, strings_of(self@, n_keyw()))
        + one_line("copyright: "@, first(strings_of(self@, n_cprt())))
        + one_line("encoder: "@, first(strings_of(self@, n__too())))
        + one_line("tv show name: "@, first(strings_of(self@, n_tvsh())))
        + one_line("tv network name: "@, first(strings_of(self@, n_tvnn())))
        + one_line("tv episode name: "@, first(strings_of(self@, n_tven())))
        + int_line("tv episode: "@, int32_at(first(bytes_of(self@, n_tves())), 0))
        + int_line("tv season: "@, int32_at(first(bytes_of(self@, n_tvsn())), 0))
        + int_line("bpm: "@, int16_at(first(bytes_of(self@, n_tmpo())), 0))
        + one_line("movement: "@, first(strings_of(self@, n__mvn())))
        + one_line("work: "@, first(strings_of(self@, n__wrk())))
        + int_line("movement count: "@, int16_at(first(bytes_of(self@, n__mvc())), 0))
        + int_line("movement index: "@, int16_at(first(bytes_of(self@, n__mvi())), 0))
        + time_line(self.info.duration)
        + channel_line(self.info.channel_config)
        + rate_line(self.info.sample_rate)
        + bits_line("average bitrate: "@, self.info.avg_bitrate)
        + bits_line("maximum bitrate: "@, self.info.max_bitrate)
        + (if flag_of(self@, n_shwm()) { "show movement\n"@ } else { Seq::<char>::empty() })
        + (if flag_of(self@, n_pgap()) { "gapless playback\n"@ } else { Seq::<char>::empty() })
        + (if flag_of(self@, n_cpil()) { "compilation\n"@ } else { Seq::<char>::empty() })
        + one_line("isrc: "@, first(strings_of(self@, n_isrc())))
        + one_line("lyrics: "@, first(strings_of(self@, n__lyr())))
    }
}
}
=== impl types::<MediaType as Display>
open spec fn shown(&self) -> Seq<char> { media_text(*self) }
=== impl types::<AdvisoryRating as Display>
open spec fn shown(&self) -> Seq<char> { rating_text(*self) }
=== impl types::<ChannelConfig as Display>
open spec fn shown(&self) -> Seq<char> { channel_text(*self) }
=== impl types::<SampleRate as Display>
open spec fn shown(&self) -> Seq<char> { rate_text(*self) }
=== impl atom::ident::<Fourcc as Display>
open spec fn shown(&self) -> Seq<char> { latin(self.0@) }
=== impl atom::ident::<Fourcc as Debug>
open spec fn debugged(&self) -> Seq<char> { "Fourcc("@ + latin(self.0@) + ")"@ }
=== impl atom::ident::<FreeformIdent as Display>
open spec fn shown(&self) -> Seq<char> { id_text(IdS::X(self.mean@, self.name@)) }
=== impl atom::ident::<DataIdent as Display>
open spec fn shown(&self) -> Seq<char> { id_text(self@) }
=== impl atom::data::<Data as Debug>
open spec fn debugged(&self) -> Seq<char> { data_text(self@) }
=== impl tag::<Tag as Display>
open spec fn shown(&self) -> Seq<char> { self.fields() + freeforms(self@) + "filetype: "@ + self.ftyp@ + "\n"@ }
=== fn atom::ident::<Fourcc as Display>::fmt
--- closure 0 &u8 -> (x: char)
    ensures x == *__c0 as char
--- at start
    proof { lemma_latin(self.0@); }
=== fn atom::ident::<Fourcc as Debug>::fmt
--- closure 0 &u8 -> (x: char)
    ensures x == *__c0 as char
--- at start
    proof { lemma_latin(self.0@); }
=== fn tag::<Tag as Display>::fmt
--- at before loop 0
    let ghost t = self@;
    let ghost base = f.text();
    proof { assert(base == old(f).text() + self.fields()); }
--- loop 0
    invariant
        t == self@, __all0.len() == t.len(), forall|i: int| 0 <= i < t.len() ==> (#[trigger] __all0[i])@ == t[i],
        f.sound() == old(f).sound(), f.text() == base + freeforms(t.take(__k0)),
--- at before loop 1
    let ghost ds = a@.data;
    let ghost b1 = f.text();
--- loop 1
    invariant
        ds == a@.data, __all1.len() == ds.len(), forall|i: int| 0 <= i < ds.len() ==> (#[trigger] __all1[i])@ == ds[i],
        f.sound() == old(f).sound(), f.text() == b1 + data_lines(ds.take(__k1)),
--- at loop 1 end
    proof { assert(ds.take(__k1).drop_last() =~= ds.take(__k1 - 1)); }
--- at after loop 1
    proof { assert(ds.take(ds.len() as int) =~= ds); }
--- at loop 0 end
    proof { assert(t.take(__k0).drop_last() =~= t.take(__k0 - 1)); }
--- at after loop 0
    proof { assert(t.take(t.len() as int) =~= t); }
=== fn tag::Tag::format_album
    ensures prints(old(f), final(f), r, one_line("album: "@, first(strings_of(self@, n__alb())))), //@P19
=== fn tag::Tag::format_copyright
    ensures prints(old(f), final(f), r, one_line("copyright: "@, first(strings_of(self@, n_cprt())))), //@P19
=== fn tag::Tag::format_encoder
    ensures prints(old(f), final(f), r, one_line("encoder: "@, first(strings_of(self@, n__too())))), //@P19
=== fn tag::Tag::format_lyrics
    ensures prints(old(f), final(f), r, one_line("lyrics: "@, first(strings_of(self@, n__lyr())))), //@P19
=== fn tag::Tag::format_movement
    ensures prints(old(f), final(f), r, one_line("movement: "@, first(strings_of(self@, n__mvn())))), //@P19
=== fn tag::Tag::format_title
    ensures prints(old(f), final(f), r, one_line("title: "@, first(strings_of(self@, n__nam())))), //@P19
=== fn tag::Tag::format_tv_episode_name
    ensures prints(old(f), final(f), r, one_line("tv episode name: "@, first(strings_of(self@, n_tven())))), //@P19
=== fn tag::Tag::format_tv_network_name
    ensures prints(old(f), final(f), r, one_line("tv network name: "@, first(strings_of(self@, n_tvnn())))), //@P19
=== fn tag::Tag::format_tv_show_name
    ensures prints(old(f), final(f), r, one_line("tv show name: "@, first(strings_of(self@, n_tvsh())))), //@P19
=== fn tag::Tag::format_work
    ensures prints(old(f), final(f), r, one_line("work: "@, first(strings_of(self@, n__wrk())))), //@P19
=== fn tag::Tag::format_year
    ensures prints(old(f), final(f), r, one_line("year: "@, first(strings_of(self@, n__day())))), //@P19
=== fn tag::Tag::format_isrc
    ensures prints(old(f), final(f), r, one_line("isrc: "@, first(strings_of(self@, n_isrc())))), //@P19
=== fn tag::Tag::format_bpm
    ensures prints(old(f), final(f), r, int_line("bpm: "@, int16_at(first(bytes_of(self@, n_tmpo())), 0))), //@P19
--- at start
    proof { }
=== fn tag::Tag::format_movement_count
    ensures prints(old(f), final(f), r, int_line("movement count: "@, int16_at(first(bytes_of(self@, n__mvc())), 0))), //@P19
--- at start
    proof { }
=== fn tag::Tag::format_movement_index
    ensures prints(old(f), final(f), r, int_line("movement index: "@, int16_at(first(bytes_of(self@, n__mvi())), 0))), //@P19
--- at start
    proof { }
=== fn tag::Tag::format_tv_episode
    ensures prints(old(f), final(f), r, int_line("tv episode: "@, int32_at(first(bytes_of(self@, n_tves())), 0))), //@P19
--- at start
    proof { }
=== fn tag::Tag::format_tv_season
    ensures prints(old(f), final(f), r, int_line("tv season: "@, int32_at(first(bytes_of(self@, n_tvsn())), 0))), //@P19
--- at start
    proof { }
=== fn tag::Tag::format_compilation
    ensures prints(old(f), final(f), r, (if flag_of(self@, n_cpil()) { "compilation\n"@ } else { Seq::<char>::empty() })), //@P19
=== fn tag::Tag::format_gapless_playback
    ensures prints(old(f), final(f), r, (if flag_of(self@, n_pgap()) { "gapless playback\n"@ } else { Seq::<char>::empty() })), //@P19
=== fn tag::Tag::format_show_movement
    ensures prints(old(f), final(f), r, (if flag_of(self@, n_shwm()) { "show movement\n"@ } else { Seq::<char>::empty() })), //@P19
=== fn tag::Tag::format_album_artists
    ensures prints(old(f), final(f), r, all_lines("album artists:\n"@, "album artist: "@, strings_of(self@, n_aART()))), //@P19
--- loop 0
    invariant
        vals == strings_of(self@, n_aART()), vals.len() == __all0.len(), views(__all0) == vals,
        f.sound() == old(f).sound(),
        f.text() == old(f).text() + "album artists:\n"@ + lines(vals.take(__k0)),
--- at before loop 0
    let ghost vals = strings_of(self@, n_aART());
--- at loop 0 end
    proof { assert(vals.take(__k0).drop_last() =~= vals.take(__k0 - 1)); assert(views(__all0)[__k0 - 1] == __all0[__k0 - 1]@); }
--- at end
    proof { let vals = strings_of(self@, n_aART()); assert(vals.take(vals.len() as int) =~= vals); }
=== fn tag::Tag::format_artists
    ensures prints(old(f), final(f), r, all_lines("artists:\n"@, "artist: "@, strings_of(self@, n__ART()))), //@P19
--- loop 0
    invariant
        vals == strings_of(self@, n__ART()), vals.len() == __all0.len(), views(__all0) == vals,
        f.sound() == old(f).sound(),
        f.text() == old(f).text() + "artists:\n"@ + lines(vals.take(__k0)),
--- at before loop 0
    let ghost vals = strings_of(self@, n__ART());
--- at loop 0 end
    proof { assert(vals.take(__k0).drop_last() =~= vals.take(__k0 - 1)); assert(views(__all0)[__k0 - 1] == __all0[__k0 - 1]@); }
--- at end
    proof { let vals = strings_of(self@, n__ART()); assert(vals.take(vals.len() as int) =~= vals); }
=== fn tag::Tag::format_categories
    ensures prints(old(f), final(f), r, all_lines("categories:\n"@, "category: "@, strings_of(self@, n_catg()))), //@P19
--- loop 0
    invariant
        vals == strings_of(self@, n_catg()), vals.len() == __all0.len(), views(__all0) == vals,
        f.sound() == old(f).sound(),
        f.text() == old(f).text() + "categories:\n"@ + lines(vals.take(__k0)),
--- at before loop 0
    let ghost vals = strings_of(self@, n_catg());
--- at loop 0 end
    proof { assert(vals.take(__k0).drop_last() =~= vals.take(__k0 - 1)); assert(views(__all0)[__k0 - 1] == __all0[__k0 - 1]@); }
--- at end
    proof { let vals = strings_of(self@, n_catg()); assert(vals.take(vals.len() as int) =~= vals); }
=== fn tag::Tag::format_comments
    ensures prints(old(f), final(f), r, all_lines("comments:\n"@, "comment: "@, strings_of(self@, n__cmt()))), //@P19
--- loop 0
    invariant
        vals == strings_of(self@, n__cmt()), vals.len() == __all0.len(), views(__all0) == vals,
        f.sound() == old(f).sound(),
        f.text() == old(f).text() + "comments:\n"@ + lines(vals.take(__k0)),
--- at before loop 0
    let ghost vals = strings_of(self@, n__cmt());
--- at loop 0 end
    proof { assert(vals.take(__k0).drop_last() =~= vals.take(__k0 - 1)); assert(views(__all0)[__k0 - 1] == __all0[__k0 - 1]@); }
--- at end
    proof { let vals = strings_of(self@, n__cmt()); assert(vals.take(vals.len() as int) =~= vals); }
=== fn tag::Tag::format_composers
    ensures prints(old(f), final(f), r, all_lines("composers:\n"@, "composer: "@, strings_of(self@, n__wrt()))), //@P19
--- loop 0
    invariant
        vals == strings_of(self@, n__wrt()), vals.len() == __all0.len(), views(__all0) == vals,
        f.sound() == old(f).sound(),
        f.text() == old(f).text() + "composers:\n"@ + lines(vals.take(__k0)),
--- at before loop 0
    let ghost vals = strings_of(self@, n__wrt());
--- at loop 0 end
    proof { assert(vals.take(__k0).drop_last() =~= vals.take(__k0 - 1)); assert(views(__all0)[__k0 - 1] == __all0[__k0 - 1]@); }
--- at end
    proof { let vals = strings_of(self@, n__wrt()); assert(vals.take(vals.len() as int) =~= vals); }
=== fn tag::Tag::format_custom_genres
    ensures prints(old(f), final(f), r, all_lines("custom genres:\n"@, "custom genre: "@, strings_of(self@, n__gen()))), //@P19
--- loop 0
    invariant
        vals == strings_of(self@, n__gen()), vals.len() == __all0.len(), views(__all0) == vals,
        f.sound() == old(f).sound(),
        f.text() == old(f).text() + "custom genres:\n"@ + lines(vals.take(__k0)),
--- at before loop 0
    let ghost vals = strings_of(self@, n__gen());
--- at loop 0 end
    proof { assert(vals.take(__k0).drop_last() =~= vals.take(__k0 - 1)); assert(views(__all0)[__k0 - 1] == __all0[__k0 - 1]@); }
--- at end
    proof { let vals = strings_of(self@, n__gen()); assert(vals.take(vals.len() as int) =~= vals); }
=== fn tag::Tag::format_descriptions
    ensures prints(old(f), final(f), r, all_lines("descriptions:\n"@, "description: "@, strings_of(self@, n_desc()))), //@P19
--- loop 0
    invariant
        vals == strings_of(self@, n_desc()), vals.len() == __all0.len(), views(__all0) == vals,
        f.sound() == old(f).sound(),
        f.text() == old(f).text() + "descriptions:\n"@ + lines(vals.take(__k0)),
--- at before loop 0
    let ghost vals = strings_of(self@, n_desc());
--- at loop 0 end
    proof { assert(vals.take(__k0).drop_last() =~= vals.take(__k0 - 1)); assert(views(__all0)[__k0 - 1] == __all0[__k0 - 1]@); }
--- at end
    proof { let vals = strings_of(self@, n_desc()); assert(vals.take(vals.len() as int) =~= vals); }
=== fn tag::Tag::format_groupings
    ensures prints(old(f), final(f), r, all_lines("groupings:\n"@, "grouping: "@, strings_of(self@, n__grp()))), //@P19
--- loop 0
    invariant
        vals == strings_of(self@, n__grp()), vals.len() == __all0.len(), views(__all0) == vals,
        f.sound() == old(f).sound(),
        f.text() == old(f).text() + "groupings:\n"@ + lines(vals.take(__k0)),
--- at before loop 0
    let ghost vals = strings_of(self@, n__grp());
--- at loop 0 end
    proof { assert(vals.take(__k0).drop_last() =~= vals.take(__k0 - 1)); assert(views(__all0)[__k0 - 1] == __all0[__k0 - 1]@); }
--- at end
    proof { let vals = strings_of(self@, n__grp()); assert(vals.take(vals.len() as int) =~= vals); }
=== fn tag::Tag::format_keywords
    ensures prints(old(f), final(f), r, all_lines("keywords:\n"@, "keyword: "@, strings_of(self@, n_keyw()))), //@P19
--- loop 0
    invariant
        vals == strings_of(self@, n_keyw()), vals.len() == __all0.len(), views(__all0) == vals,
        f.sound() == old(f).sound(),
        f.text() == old(f).text() + "keywords:\n"@ + lines(vals.take(__k0)),
--- at before loop 0
    let ghost vals = strings_of(self@, n_keyw());
--- at loop 0 end
    proof { assert(vals.take(__k0).drop_last() =~= vals.take(__k0 - 1)); assert(views(__all0)[__k0 - 1] == __all0[__k0 - 1]@); }
--- at end
    proof { let vals = strings_of(self@, n_keyw()); assert(vals.take(vals.len() as int) =~= vals); }
=== fn tag::Tag::format_lyricists
    ensures prints(old(f), final(f), r, all_lines("lyricists:\n"@, "lyricist: "@, strings_of(self@, n_lyricist()))), //@P19
--- loop 0
    invariant
        vals == strings_of(self@, n_lyricist()), vals.len() == __all0.len(), views(__all0) == vals,
        f.sound() == old(f).sound(),
        f.text() == old(f).text() + "lyricists:\n"@ + lines(vals.take(__k0)),
--- at before loop 0
    let ghost vals = strings_of(self@, n_lyricist());
--- at loop 0 end
    proof { assert(vals.take(__k0).drop_last() =~= vals.take(__k0 - 1)); assert(views(__all0)[__k0 - 1] == __all0[__k0 - 1]@); }
--- at end
    proof { let vals = strings_of(self@, n_lyricist()); assert(vals.take(vals.len() as int) =~= vals); }
=== fn tag::genre::Tag::format_genres
    ensures prints(old(f), final(f), r, all_lines("genres:\n"@, "genre: "@, genres_s(self@))), //@P19
--- loop 0
    invariant
        vals == genres_s(self@), vals.len() == __all0.len(), views(__all0) == vals,
        f.sound() == old(f).sound(),
        f.text() == old(f).text() + "genres:\n"@ + lines(vals.take(__k0)),
--- at before loop 0
    let ghost vals = genres_s(self@);
--- at loop 0 end
    proof { assert(vals.take(__k0).drop_last() =~= vals.take(__k0 - 1)); assert(views(__all0)[__k0 - 1] == __all0[__k0 - 1]@); }
--- at end
    proof { let vals = genres_s(self@); assert(vals.take(vals.len() as int) =~= vals); }
=== fn tag::tuple::Tag::format_track
    ensures prints(old(f), final(f), r, pair_line("track: "@, "track: ? of "@, number_s(first(bytes_of(self@, n_trkn()))), total_s(first(bytes_of(self@, n_trkn()))))), //@P19
=== fn tag::tuple::Tag::format_disc
    ensures prints(old(f), final(f), r, pair_line("disc: "@, "disc: ? of "@, number_s(first(bytes_of(self@, n_disk()))), total_s(first(bytes_of(self@, n_disk()))))), //@P19
=== fn tag::Tag::format_artworks
    ensures prints(old(f), final(f), r, art_lines(images_of(self@, n_covr()))), //@P19
--- loop 0
    invariant
        vals == images_of(self@, n_covr()), vals.len() == __all0.len(), views(__all0) == vals,
        f.sound() == old(f).sound(),
        f.text() == old(f).text() + "artworks:\n"@ + arts(vals.take(__k0)),
--- at before loop 0
    let ghost vals = images_of(self@, n_covr());
--- at loop 0 end
    proof { assert(vals.take(__k0).drop_last() =~= vals.take(__k0 - 1)); assert(views(__all0)[__k0 - 1] == __all0[__k0 - 1]@); }
--- at end
    proof { let vals = images_of(self@, n_covr()); assert(vals.take(vals.len() as int) =~= vals); }
=== fn tag::Tag::format_artworks::format_artwork
    ensures prints(old(f), final(f), r, art_line(i@)), //@P19
=== fn tag::Tag::format_media_type
    ensures prints(old(f), final(f), r, media_line(match first(bytes_of(self@, n_stik())) { Some(b) => if b.len() > 0 { media_of(b[0] as int) } else { None }, None => None })), //@P19
=== fn tag::Tag::format_advisory_rating
    ensures prints(old(f), final(f), r, rating_line(match first(bytes_of(self@, n_rtng())) { Some(b) => if b.len() > 0 { Some(rating_of(b[0] as int)) } else { None }, None => None })), //@P19
=== fn tag::readonly::Tag::format_duration
    ensures prints(old(f), final(f), r, time_line(self.info.duration)), //@P19
=== fn tag::readonly::Tag::format_channel_config
    ensures prints(old(f), final(f), r, channel_line(self.info.channel_config)), //@P19
=== fn tag::readonly::Tag::format_sample_rate
    ensures prints(old(f), final(f), r, rate_line(self.info.sample_rate)), //@P19
=== fn tag::readonly::Tag::format_avg_bitrate
    ensures prints(old(f), final(f), r, bits_line("average bitrate: "@, self.info.avg_bitrate)), //@P19
=== fn tag::readonly::Tag::format_max_bitrate
    ensures prints(old(f), final(f), r, bits_line("maximum bitrate: "@, self.info.max_bitrate)), //@P19
