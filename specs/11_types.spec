=== prelude
pub mod ty {
use vstd::prelude::*;
use crate::types::*;
/// documented codes
pub open spec fn media_code(m: MediaType) -> int {
    match m {
        MediaType::Movie => 0, MediaType::Normal => 1, MediaType::AudioBook => 2, MediaType::WhackedBookmark => 5,
        MediaType::MusicVideo => 6, MediaType::ShortFilm => 9, MediaType::TvShow => 10, MediaType::Booklet => 11,
    }
}
pub open spec fn media_of(v: int) -> Option<MediaType> {
    if v == 0 { Some(MediaType::Movie) } else if v == 1 { Some(MediaType::Normal) } else if v == 2 { Some(MediaType::AudioBook) }
    else if v == 5 { Some(MediaType::WhackedBookmark) } else if v == 6 { Some(MediaType::MusicVideo) }
    else if v == 9 { Some(MediaType::ShortFilm) } else if v == 10 { Some(MediaType::TvShow) }
    else if v == 11 { Some(MediaType::Booklet) } else { None }
}
pub proof fn lemma_media(m: MediaType)
    ensures media_of(media_code(m)) == Some(m) //@P14
{}
pub open spec fn rating_code(m: AdvisoryRating) -> int {
    match m { AdvisoryRating::Inoffensive => 0, AdvisoryRating::Clean => 2, AdvisoryRating::Explicit => 4 }
}
pub open spec fn rating_of(v: int) -> AdvisoryRating {
    if v == 0 { AdvisoryRating::Inoffensive } else if v == 2 { AdvisoryRating::Clean } else { AdvisoryRating::Explicit }
}
pub proof fn lemma_rating(m: AdvisoryRating)
    ensures rating_of(rating_code(m)) == m //@P14
{}
/// ISO/IEC 14496-3, table 1.19
pub open spec fn channels_of(v: int) -> Option<int> {
    if v == 1 { Some(1) } else if v == 2 { Some(2) } else if v == 3 { Some(3) } else if v == 4 { Some(4) }
    else if v == 5 { Some(5) } else if v == 6 { Some(6) } else if v == 7 { Some(8) } else { None }
}
pub open spec fn channels(c: ChannelConfig) -> int {
    match c {
        ChannelConfig::Mono => 1, ChannelConfig::Stereo => 2, ChannelConfig::Three => 3, ChannelConfig::Four => 4,
        ChannelConfig::Five => 5, ChannelConfig::FiveOne => 6, ChannelConfig::SevenOne => 8,
    }
}
/// ISO/IEC 14496-3, table 1.18
pub open spec fn freq_of(v: int) -> Option<int> {
    if v == 0 { Some(96000) } else if v == 1 { Some(88200) } else if v == 2 { Some(64000) } else if v == 3 { Some(48000) }
    else if v == 4 { Some(44100) } else if v == 5 { Some(32000) } else if v == 6 { Some(24000) } else if v == 7 { Some(22050) }
    else if v == 8 { Some(16000) } else if v == 9 { Some(12000) } else if v == 10 { Some(11025) } else if v == 11 { Some(8000) }
    else if v == 12 { Some(7350) } else { None }
}
pub open spec fn freq(s: SampleRate) -> int {
    match s {
        SampleRate::Hz96000 => 96000, SampleRate::Hz88200 => 88200, SampleRate::Hz64000 => 64000, SampleRate::Hz48000 => 48000,
        SampleRate::Hz44100 => 44100, SampleRate::Hz32000 => 32000, SampleRate::Hz24000 => 24000, SampleRate::Hz22050 => 22050,
        SampleRate::Hz16000 => 16000, SampleRate::Hz12000 => 12000, SampleRate::Hz11025 => 11025, SampleRate::Hz8000 => 8000,
        SampleRate::Hz7350 => 7350,
    }
}
} // mod ty
=== mod types
use vstd::std_specs::cmp::*;
=== derive types::AudioInfo Default
impl Default for AudioInfo {
    fn default() -> (r: Self)
        ensures r.duration is None, r.channel_config is None, r.sample_rate is None, r.max_bitrate is None, r.avg_bitrate is None
    { AudioInfo { duration: None, channel_config: None, sample_rate: None, max_bitrate: None, avg_bitrate: None } }
}
=== fn types::MediaType::code
    ensures r == media_code(*self), //@P14
=== fn types::<MediaType as TryFrom<u8>>::try_from
    ensures
        media_of(value as int) is Some ==> r is Ok && r->Ok_0 == media_of(value as int)->Some_0, //@P14
        media_of(value as int) is None ==> r is Err, //@P14
=== fn types::AdvisoryRating::code
    ensures r == rating_code(*self), //@P14
=== fn types::<AdvisoryRating as From<u8>>::from
    ensures r == rating_of(rating as int), //@P14
=== fn types::<ChannelConfig as TryFrom<u8>>::try_from
    ensures
        channels_of(value as int) is Some ==> r is Ok && channels(r->Ok_0) == channels_of(value as int)->Some_0, //@P14
        channels_of(value as int) is None ==> r is Err, //@P14
=== fn types::ChannelConfig::channel_count
    ensures r == channels(*self), //@P14
=== fn types::<SampleRate as TryFrom<u8>>::try_from
    ensures
        freq_of(value as int) is Some ==> r is Ok && freq(r->Ok_0) == freq_of(value as int)->Some_0, //@P14
        freq_of(value as int) is None ==> r is Err, //@P14
=== fn types::SampleRate::hz
    ensures r == freq(*self), //@P14
=== fn types::Img<T>::new
    ensures r.fmt == fmt, r.data == data, //@P09
=== fn types::Img<T>::bmp
    ensures r.fmt == ImgFmt::Bmp, r.data == data, //@P09
=== fn types::Img<T>::jpeg
    ensures r.fmt == ImgFmt::Jpeg, r.data == data, //@P09
=== fn types::Img<T>::png
    ensures r.fmt == ImgFmt::Png, r.data == data, //@P09
=== fn types::ImgFmt::is_bmp
    ensures r == (*self is Bmp), //@P09
=== fn types::ImgFmt::is_jpeg
    ensures r == (*self is Jpeg), //@P09
=== fn types::ImgFmt::is_png
    ensures r == (*self is Png), //@P09
