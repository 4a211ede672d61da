#!/usr/bin/env python3
"""Writes specs/95_format.spec: the contracts of the functions that print a tag."""
import os, sys
sys.argv = ['x', '/dev/null']
src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'accessors.py')).read()
ns = {}
exec(src[src.index('SINGLE'):src.index('out = []')], ns)
SINGLE, MULTI, FLAG, INT = ns['SINGLE'], ns['MULTI'], ns['FLAG'], ns['INT']
def code(x):
    if isinstance(x, str):
        return 'n_' + x.lower() + '()'
    return 'n_' + ''.join(chr(b) if chr(b).isalnum() and b < 128 else '_' for b in x) + '()'
out = []
PRINTS = '    ensures prints(old(f), final(f), r, %s), //@P19\n'
def fn(key, text, extra=''):
    out.append('=== fn %s\n%s%s' % (key, PRINTS % text, extra))
sp = lambda n: n.replace('_', ' ')
expr = {}
ST = '--- at start\n    proof { lemma_names(); }\n'
for n, c in SINGLE:
    expr[n] = 'one_line("%s: "@, first(strings_of(self@, %s)))' % (sp(n), code(c))
    fn('tag::Tag::format_' + n, expr[n])
for n, c, w in INT:
    expr[n] = 'int_line("%s: "@, int%d_at(first(bytes_of(self@, %s)), 0))' % (sp(n), 8 * w, code(c))
    fn('tag::Tag::format_' + n, expr[n], '--- at start\n    proof { }\n')
for n, c in FLAG:
    expr[n] = '(if flag_of(self@, %s) { "%s\\n"@ } else { Seq::<char>::empty() })' % (code(c), sp(n))
    fn('tag::Tag::format_' + n, expr[n])
def loop(v):
    return '''--- loop 0
    invariant
        vals == VV, vals.len() == __all0.len(), views(__all0) == vals,
        f.sound() == old(f).sound(),
        f.text() == old(f).text() + HEAD + lines(vals.take(__k0)),
--- at before loop 0
    let ghost vals = VV;
--- at loop 0 end
    proof { assert(vals.take(__k0).drop_last() =~= vals.take(__k0 - 1)); assert(views(__all0)[__k0 - 1] == __all0[__k0 - 1]@); }
--- at end
    proof { let vals = VV; assert(vals.take(vals.len() as int) =~= vals); }
'''.replace('VV', v)
for n, p, c in MULTI:
    s = 'strings_of(self@, %s)' % code(c)
    expr[p] = 'all_lines("%s:\\n"@, "%s: "@, %s)' % (sp(p), sp(n), s)
    fn('tag::Tag::format_' + p, expr[p], loop(s).replace('HEAD', '"%s:\\n"@' % sp(p)))
g = 'genres_s(self@)'
expr['genres'] = 'all_lines("genres:\\n"@, "genre: "@, %s)' % g
fn('tag::genre::Tag::format_genres', expr['genres'], loop(g).replace('HEAD', '"genres:\\n"@'))
for n, c in (('track', b'trkn'), ('disc', b'disk')):
    b = 'first(bytes_of(self@, %s))' % code(c)
    expr[n] = 'pair_line("%s: "@, "%s: ? of "@, number_s(%s), total_s(%s))' % (n, n, b, b)
    fn('tag::tuple::Tag::format_' + n, expr[n])
im = 'images_of(self@, %s)' % code(b'covr')
expr['artworks'] = 'art_lines(%s)' % im
fn('tag::Tag::format_artworks', expr['artworks'], '''--- loop 0
    invariant
        vals == VV, vals.len() == __all0.len(), views(__all0) == vals,
        f.sound() == old(f).sound(),
        f.text() == old(f).text() + "artworks:\\n"@ + arts(vals.take(__k0)),
--- at before loop 0
    let ghost vals = VV;
--- at loop 0 end
    proof { assert(vals.take(__k0).drop_last() =~= vals.take(__k0 - 1)); assert(views(__all0)[__k0 - 1] == __all0[__k0 - 1]@); }
--- at end
    proof { let vals = VV; assert(vals.take(vals.len() as int) =~= vals); }
'''.replace('VV', im))
fn('tag::Tag::format_artworks::format_artwork', 'art_line(i@)')
expr['media_type'] = 'media_line(match first(bytes_of(self@, n_stik())) { Some(b) => if b.len() > 0 { media_of(b[0] as int) } else { None }, None => None })'
fn('tag::Tag::format_media_type', expr['media_type'])
expr['advisory_rating'] = 'rating_line(match first(bytes_of(self@, n_rtng())) { Some(b) => if b.len() > 0 { Some(rating_of(b[0] as int)) } else { None }, None => None })'
fn('tag::Tag::format_advisory_rating', expr['advisory_rating'])
R = 'tag::readonly::Tag::format_'
expr['duration'] = 'time_line(self.info.duration)'
fn(R + 'duration', expr['duration'])
expr['channel_config'] = 'channel_line(self.info.channel_config)'
fn(R + 'channel_config', expr['channel_config'])
expr['sample_rate'] = 'rate_line(self.info.sample_rate)'
fn(R + 'sample_rate', expr['sample_rate'])
expr['avg_bitrate'] = 'bits_line("average bitrate: "@, self.info.avg_bitrate)'
fn(R + 'avg_bitrate', expr['avg_bitrate'])
expr['max_bitrate'] = 'bits_line("maximum bitrate: "@, self.info.max_bitrate)'
fn(R + 'max_bitrate', expr['max_bitrate'])

ORDER = ('album_artists artists composers lyricists album title genres year track disc artworks advisory_rating media_type groupings descriptions comments '
         'categories keywords copyright encoder tv_show_name tv_network_name tv_episode_name tv_episode tv_season bpm movement work movement_count '
         'movement_index duration channel_config sample_rate avg_bitrate max_bitrate show_movement gapless_playback compilation isrc lyrics').split()
# custom genres are part of the genres
assert sorted(ORDER + ['custom_genres']) == sorted(expr), set(ORDER) ^ set(expr)

def enum_text(name, ty, arms):
    return 'pub open spec fn %s(x: %s) -> Seq<char> {\n    match x { %s }\n}\n' % (name, ty, ', '.join('%s::%s => "%s"@' % (ty, a, b) for a, b in arms))

pre = '''=== prelude
pub mod pf {
use vstd::prelude::*;
use crate::vp::*;
use crate::vp::fmt::*;
use crate::vs::*;
use crate::tg::*;
use crate::nm::*;
use crate::gn::*;
use crate::tp::*;
use crate::types::*;
use crate::ty::*;
use crate::atom::ident::*;
use crate::atom::data::*;
use crate::atom::AtomData;
use crate::tag::Tag;
broadcast use crate::vp::group_vp;
// ===================================================================== the printed form
pub open spec fn latin(b: Seq<u8>) -> Seq<char> { b.map_values(|x: u8| x as char) }
pub open spec fn id_text(i: IdS) -> Seq<char> {
    match i { IdS::F(f) => latin(f.0@), IdS::X(m, n) => "----:"@ + m + ":"@ + n }
}
pub open spec fn data_text(d: DataS) -> Seq<char> {
    match d {
        DataS::Reserved(b) => "Data::Reserved("@ + listed(b) + ")"@,
        DataS::Utf8(s) => "Data::Utf8("@ + quoted(s) + ")"@,
        DataS::Utf16(s) => "Data::Utf16("@ + quoted(s) + ")"@,
        DataS::Jpeg(_) => "Data::Jpeg"@,
        DataS::Png(_) => "Data::Png"@,
        DataS::BeSigned(b) => "Data::BeSigned("@ + listed(b) + ")"@,
        DataS::Bmp(_) => "Data::Bmp"@,
    }
}
'''
pre += enum_text('media_text', 'MediaType', [('Movie', 'Movie'), ('Normal', 'Normal'), ('AudioBook', 'Audiobook'), ('WhackedBookmark', 'Whacked Bookmark'),
    ('MusicVideo', 'Music Video'), ('ShortFilm', 'Short Film'), ('TvShow', 'TV-Show'), ('Booklet', 'Booklet')])
pre += enum_text('rating_text', 'AdvisoryRating', [('Clean', 'Clean'), ('Inoffensive', 'Inoffensive'), ('Explicit', 'Explicit')])
pre += enum_text('channel_text', 'ChannelConfig', [('Mono', 'Mono'), ('Stereo', 'Stereo'), ('Three', '3.0'), ('Four', '4.0'), ('Five', '5.0'), ('FiveOne', '5.1'), ('SevenOne', '7.1')])
pre += '''pub open spec fn rate_text(x: SampleRate) -> Seq<char> { dec(freq(x) as nat) + "Hz"@ }
pub open spec fn one_line(name: Seq<char>, v: Option<Seq<char>>) -> Seq<char> {
    match v { Some(s) => name + s + "\\n"@, None => Seq::empty() }
}
pub open spec fn lines(v: Seq<Seq<char>>) -> Seq<char>
    decreases v.len()
{
    if v.len() == 0 { Seq::empty() } else { lines(v.drop_last()) + "    "@ + v.last() + "\\n"@ }
}
/// a heading and a line for each of several values, one line for a single value
pub open spec fn all_lines(names: Seq<char>, name: Seq<char>, v: Seq<Seq<char>>) -> Seq<char> {
    if v.len() > 1 { names + lines(v) } else { one_line(name, first(v)) }
}
pub trait Whole: Sized { spec fn whole(self) -> nat; }
impl Whole for u16 { open spec fn whole(self) -> nat { self as nat } }
impl Whole for u32 { open spec fn whole(self) -> nat { self as nat } }
pub open spec fn int_line<T: Whole>(name: Seq<char>, v: Option<T>) -> Seq<char> {
    match v { Some(n) => name + dec(n.whole()) + "\\n"@, None => Seq::empty() }
}
pub open spec fn flag_of(t: Seq<ItemS>, id: IdS) -> bool {
    bytes_of(t, id).len() > 0 && bytes_of(t, id)[0].len() > 0 && bytes_of(t, id)[0][0] == 1
}
pub open spec fn pair_line(name: Seq<char>, open: Seq<char>, n: Option<u16>, m: Option<u16>) -> Seq<char> {
    match (n, m) {
        (Some(n), Some(m)) => name + dec(n as nat) + " of "@ + dec(m as nat) + "\\n"@,
        (Some(n), None) => name + dec(n as nat) + "\\n"@,
        (None, Some(m)) => open + dec(m as nat) + "\\n"@,
        (None, None) => Seq::empty(),
    }
}
/// format and size of an image
pub open spec fn art_line(i: (ImgFmt, Seq<u8>)) -> Seq<char> {
    let name = match i.0 { ImgFmt::Png => "png"@, ImgFmt::Jpeg => "jpeg"@, ImgFmt::Bmp => "bmp"@ };
    let n = i.1.len();
    if n < 1024 { name + " "@ + dec(n) + "\\n"@ } else if n < 1048576 { name + " "@ + dec(n / 1024) + "k\\n"@ } else { name + " "@ + dec(n / 1048576) + "M\\n"@ }
}
pub open spec fn arts(v: Seq<(ImgFmt, Seq<u8>)>) -> Seq<char>
    decreases v.len()
{
    if v.len() == 0 { Seq::empty() } else { arts(v.drop_last()) + "    "@ + art_line(v.last()) }
}
pub open spec fn art_lines(v: Seq<(ImgFmt, Seq<u8>)>) -> Seq<char> {
    if v.len() > 1 { "artworks:\\n"@ + arts(v) } else if v.len() == 1 { "artwork: "@ + art_line(v[0]) } else { Seq::empty() }
}
pub open spec fn media_line(m: Option<MediaType>) -> Seq<char> { match m { Some(m) => "media type: "@ + media_text(m) + "\\n"@, None => Seq::empty() } }
pub open spec fn rating_line(m: Option<AdvisoryRating>) -> Seq<char> { match m { Some(m) => "advisory rating: "@ + rating_text(m) + "\\n"@, None => Seq::empty() } }
pub open spec fn channel_line(m: Option<ChannelConfig>) -> Seq<char> { match m { Some(m) => "channel config: "@ + channel_text(m) + "\\n"@, None => Seq::empty() } }
pub open spec fn rate_line(m: Option<SampleRate>) -> Seq<char> { match m { Some(m) => "sample rate: "@ + rate_text(m) + "\\n"@, None => Seq::empty() } }
pub open spec fn bits_line(name: Seq<char>, n: Option<u32>) -> Seq<char> { match n { Some(n) => name + dec((n / 1024) as nat) + "kbps\\n"@, None => Seq::empty() } }
pub open spec fn time_line(d: Option<core::time::Duration>) -> Seq<char> { match d { Some(d) => time_text(dur(d).0 as nat, dur(d).1 as nat), None => Seq::empty() } }
/// a duration in the largest fitting unit
pub open spec fn time_text(s: nat, n: nat) -> Seq<char> {
    let t = "duration: "@;
    if s >= 3600 { t + dec(s / 60 / 60) + ":"@ + two(dec(s / 60 % 60)) + ":"@ + two(dec(s % 60)) + "\\n"@ }
    else if s >= 60 { t + dec(s / 60) + ":"@ + two(dec(s % 60)) + "\\n"@ }
    else if s > 0 { t + dec(s) + "s\\n"@ }
    else if n >= 1000000 { t + dec(n / 1000000) + "ms\\n"@ }
    else if n >= 1000 { t + dec(n / 1000) + "µs\\n"@ }
    else { t + dec(n) + "ns\\n"@ }
}
pub open spec fn data_lines(v: Seq<DataS>) -> Seq<char>
    decreases v.len()
{
    if v.len() == 0 { Seq::empty() } else { data_lines(v.drop_last()) + "    "@ + data_text(v.last()) + "\\n"@ }
}
/// the freeform items with their values
pub open spec fn freeforms(t: Seq<ItemS>) -> Seq<char>
    decreases t.len()
{
    if t.len() == 0 { Seq::empty() } else if t.last().id is X { freeforms(t.drop_last()) + id_text(t.last().id) + ":\\n"@ + data_lines(t.last().data) }
    else { freeforms(t.drop_last()) }
}
impl Tag {
    /// a line for every field that is present
    pub open spec fn fields(&self) -> Seq<char> {
        Seq::<char>::empty()
FIELDS
    }
}
}
'''.replace('FIELDS', '\n'.join('        + ' + expr[k] for k in ORDER))
body = '''=== impl types::<MediaType as Display>
open spec fn shown(&self) -> Seq<char> { media_text(*self) }
=== impl types::<AdvisoryRating as Display>
open spec fn shown(&self) -> Seq<char> { rating_text(*self) }
=== impl types::<ChannelConfig as Display>
open spec fn shown(&self) -> Seq<char> { channel_text(*self) }
=== impl types::<SampleRate as Display>
open spec fn shown(&self) -> Seq<char> { rate_text(*self) }
=== impl atom::ident::<Fourcc as Display>
open spec fn shown(&self) -> Seq<char> { latin(self.0@) }
=== impl atom::ident::<Fourcc as Debug>
open spec fn debugged(&self) -> Seq<char> { "Fourcc("@ + latin(self.0@) + ")"@ }
=== impl atom::ident::<FreeformIdent as Display>
open spec fn shown(&self) -> Seq<char> { id_text(IdS::X(self.mean@, self.name@)) }
=== impl atom::ident::<DataIdent as Display>
open spec fn shown(&self) -> Seq<char> { id_text(self@) }
=== impl atom::data::<Data as Debug>
open spec fn debugged(&self) -> Seq<char> { data_text(self@) }
=== impl tag::<Tag as Display>
open spec fn shown(&self) -> Seq<char> { self.fields() + freeforms(self@) + "filetype: "@ + self.ftyp@ + "\\n"@ }
=== fn types::<MediaType as Display>::fmt
--- at start
    //@P19
=== fn types::<AdvisoryRating as Display>::fmt
--- at start
    //@P19
=== fn types::<ChannelConfig as Display>::fmt
--- at start
    //@P19
=== fn types::<SampleRate as Display>::fmt
--- at start
    //@P19
=== fn atom::ident::<Fourcc as Display>::fmt
--- closure 0 &u8 -> (x: char)
    ensures x == *__c0 as char
--- at start
    proof { lemma_latin(self.0@); }
=== fn atom::ident::<Fourcc as Debug>::fmt
--- closure 0 &u8 -> (x: char)
    ensures x == *__c0 as char
--- at start
    proof { lemma_latin(self.0@); }
=== fn tag::<Tag as Display>::fmt
--- loop 0
    invariant
        t == self@, views(__all0) == __vt,
'''
body = body[:body.index('=== fn tag::<Tag as Display>::fmt')] + '''=== fn tag::<Tag as Display>::fmt
--- at before loop 0
    let ghost t = self@;
    let ghost base = f.text();
    proof { assert(base == old(f).text() + self.fields()); }
--- loop 0
    invariant
        t == self@, __all0.len() == t.len(), forall|i: int| 0 <= i < t.len() ==> (#[trigger] __all0[i])@ == t[i],
        f.sound() == old(f).sound(), f.text() == base + freeforms(t.take(__k0)),
--- at before loop 1
    let ghost ds = a@.data;
    let ghost b1 = f.text();
--- loop 1
    invariant
        ds == a@.data, __all1.len() == ds.len(), forall|i: int| 0 <= i < ds.len() ==> (#[trigger] __all1[i])@ == ds[i],
        f.sound() == old(f).sound(), f.text() == b1 + data_lines(ds.take(__k1)),
--- at loop 1 end
    proof { assert(ds.take(__k1).drop_last() =~= ds.take(__k1 - 1)); }
--- at after loop 1
    proof { assert(ds.take(ds.len() as int) =~= ds); }
--- at loop 0 end
    proof { assert(t.take(__k0).drop_last() =~= t.take(__k0 - 1)); }
--- at after loop 0
    proof { assert(t.take(t.len() as int) =~= t); }
'''
body = body.replace('--- at start\n    //@P19\n', '')
import re
body = re.sub(r'=== fn [^\n]*\n(?==== )', '', body)
pre = pre.replace('''impl Tag {
    /// a line''', '''pub proof fn lemma_latin(b: Seq<u8>)
    ensures forall|s: Seq<char>| s.len() == b.len() && (forall|i: int| 0 <= i < b.len() ==> #[trigger] s[i] == b[i] as char) ==> #[trigger] text_of(s) == latin(b)
{
    assert forall|s: Seq<char>| s.len() == b.len() && (forall|i: int| 0 <= i < b.len() ==> #[trigger] s[i] == b[i] as char) implies #[trigger] text_of(s) == latin(b) by { assert(latin(b) =~= s); }
}
impl Tag {
    /// a line''', 1)
mods = ['tag', 'tag::genre', 'tag::readonly', 'tag::tuple', 'types', 'atom::ident', 'atom::data']
USE = '#[allow(unused_imports)] use crate::vp::fmt::prints;\n'
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '../../specs/95_format.spec'), 'w').write(pre + body + ''.join(out))
