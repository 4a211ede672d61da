#!/usr/bin/env python3
"""Writes specs/91_accessors.spec: the contracts of the named accessors, from the documented
identifiers, types and names of the fields."""
import sys
SINGLE = [('album', b'\xa9alb'), ('copyright', b'cprt'), ('encoder', b'\xa9too'), ('lyrics', b'\xa9lyr'), ('movement', b'\xa9mvn'),
          ('title', b'\xa9nam'), ('tv_episode_name', b'tven'), ('tv_network_name', b'tvnn'), ('tv_show_name', b'tvsh'),
          ('work', b'\xa9wrk'), ('year', b'\xa9day'), ('isrc', 'ISRC')]
MULTI = [('album_artist', 'album_artists', b'aART'), ('artist', 'artists', b'\xa9ART'), ('category', 'categories', b'catg'),
         ('comment', 'comments', b'\xa9cmt'), ('composer', 'composers', b'\xa9wrt'), ('custom_genre', 'custom_genres', b'\xa9gen'),
         ('description', 'descriptions', b'desc'), ('grouping', 'groupings', b'\xa9grp'), ('keyword', 'keywords', b'keyw'),
         ('lyricist', 'lyricists', 'LYRICIST')]
FLAG = [('compilation', b'cpil'), ('gapless_playback', b'pgap'), ('show_movement', b'shwm')]
INT = [('bpm', b'tmpo', 2), ('movement_count', b'\xa9mvc', 2), ('movement_index', b'\xa9mvi', 2), ('tv_episode', b'tves', 4), ('tv_season', b'tvsn', 4)]

out = []
names = []
def code(x):
    if isinstance(x, str):
        n = 'n_' + x.lower()
        e = 'IdS::X("com.apple.iTunes"@, "%s"@)' % x
    else:
        n = 'n_' + ''.join(chr(b) if chr(b).isalnum() and b < 128 else '_' for b in x)
        e = 'fid(%s)' % ', '.join('%du8' % b for b in x)
    if (n, e) not in names:
        names.append((n, e))
    return n + '()'
def fn(name, ens, extra='', muts=True, label='P11'):
    out.append('=== fn tag::Tag::%s\n    ensures\n%s%s\n%s' % (
        name, '        final(self).rest() == old(self).rest(),\n' if muts else '',
        '\n'.join('        %s, //@%s' % (e, label) for e in ens), extra))
FID = '--- at start\n    proof { lemma_names(); %s }\n'
def st(x=''): return FID % x
for n, c in SINGLE:
    i = code(c)
    fn(n, ['oview(r) == first(strings_of(self@, %s))' % i], st(), muts=False)
    fn('take_' + n, ['oview(r) == first(strings_of(old(self)@, %s))' % i, 'final(self)@ == without(old(self)@, %s)' % i], st())
    fn('set_' + n, ['final(self)@ == put(old(self)@, %s, seq![DataS::Utf8(%s.into_view())])' % (i, n)], st())
    fn('remove_' + n, ['final(self)@ == erase(old(self)@, %s)' % i], st())
for n, p, c in MULTI:
    i = code(c)
    fn(p, ['views(r@) == strings_of(self@, %s)' % i], st(), muts=False)
    fn(n, ['oview(r) == first(strings_of(self@, %s))' % i], st(), muts=False)
    fn('take_' + p, ['views(r@) == strings_of(old(self)@, %s)' % i, 'final(self)@ == without(old(self)@, %s)' % i], st())
    fn('take_' + n, ['oview(r) == first(strings_of(old(self)@, %s))' % i, 'final(self)@ == without(old(self)@, %s)' % i], st())
    cl = '--- closure 0 String -> (x: Data)\n    ensures x@ == DataS::Utf8(__c0@)\n'
    fn('set_' + p, ['final(self)@ == nonempty(put(old(self)@, %s, utf8s(views(%s@))))' % (i, p)], cl + st('lemma_utf8s(%s@);' % p))
    fn('set_' + n, ['final(self)@ == put(old(self)@, %s, seq![DataS::Utf8(%s.into_view())])' % (i, n)], st())
    fn('add_' + p, ['final(self)@ == nonempty(put(old(self)@, %s, data_of(old(self)@, %s) + utf8s(views(%s@))))' % (i, i, p)], cl + st('lemma_utf8s(%s@);' % p))
    fn('add_' + n, ['final(self)@ == put(old(self)@, %s, data_of(old(self)@, %s).push(DataS::Utf8(%s.into_view())))' % (i, i, n)], st())
    fn('remove_' + p, ['final(self)@ == erase(old(self)@, %s)' % i], st())
for n, c in FLAG:
    i = code(c)
    fn(n, ['r == (bytes_of(self@, %s).len() > 0 && bytes_of(self@, %s)[0].len() > 0 && bytes_of(self@, %s)[0][0] == 1)' % (i, i, i)],
       '--- closure 0 &u8 -> (x: bool)\n    ensures x == (*__c0 == 1)\n' + st(), muts=False)
    fn('set_' + n, ['final(self)@ == put(old(self)@, %s, seq![DataS::BeSigned(seq![1u8])])' % i], st())
    fn('remove_' + n, ['final(self)@ == erase(old(self)@, %s)' % i], st())
for n, c, w in INT:
    i = code(c)
    fn(n, ['r == int%d_at(first(bytes_of(self@, %s)), 0)' % (8 * w, i)], st(), muts=False)
    fn('set_' + n, ['final(self)@ == put(old(self)@, %s, seq![DataS::BeSigned(to%d(%s as int))])' % (i, 8 * w, n)], st())
    fn('remove_' + n, ['final(self)@ == erase(old(self)@, %s)' % i], st())
i = code(b'covr')
fn('artworks', ['views(r@) == images_of(self@, %s)' % i], st(), muts=False)
fn('artwork', ['oview(r) == first(images_of(self@, %s))' % i], st(), muts=False)
fn('take_artworks', ['views(r@) == images_of(old(self)@, %s)' % i, 'final(self)@ == without(old(self)@, %s)' % i], st())
fn('take_artwork', ['oview(r) == first(images_of(old(self)@, %s))' % i, 'final(self)@ == without(old(self)@, %s)' % i], st())
fn('set_artwork', ['final(self)@ == put(old(self)@, %s, seq![img_data((image.fmt, image.data.into_view()))])' % i], st())
fn('set_artworks', ['final(self)@ == nonempty(put(old(self)@, %s, imgs(views(images@))))' % i], st('lemma_imgs(images@);'))
fn('add_artwork', ['final(self)@ == put(old(self)@, %s, data_of(old(self)@, %s).push(img_data((image.fmt, image.data.into_view()))))' % (i, i)], st())
fn('add_artworks', ['final(self)@ == nonempty(put(old(self)@, %s, data_of(old(self)@, %s) + imgs(views(images@))))' % (i, i)], st('lemma_imgs(images@);'))
fn('remove_artworks', ['final(self)@ == erase(old(self)@, %s)' % i], st())
i = code(b'stik')
fn('media_type', ['r == (match first(bytes_of(self@, %s)) { Some(b) => if b.len() > 0 { media_of(b[0] as int) } else { None }, None => None })' % i], st(), muts=False, label='P11 //@P14')
fn('set_media_type', ['final(self)@ == put(old(self)@, %s, seq![DataS::Reserved(seq![media_code(media_type) as u8])])' % i], st(), label='P11 //@P14')
fn('remove_media_type', ['final(self)@ == erase(old(self)@, %s)' % i], st())
i = code(b'rtng')
fn('advisory_rating', ['r == (match first(bytes_of(self@, %s)) { Some(b) => if b.len() > 0 { Some(rating_of(b[0] as int)) } else { None }, None => None })' % i], st(), muts=False, label='P11 //@P14')
fn('set_advisory_rating', ['final(self)@ == put(old(self)@, %s, seq![DataS::Reserved(seq![rating_code(rating) as u8])])' % i], st(), label='P11 //@P14')
fn('remove_advisory_rating', ['final(self)@ == erase(old(self)@, %s)' % i], st())

trkn, disk, gnre = code(b'trkn'), code(b'disk'), code(b'gnre')
pre = '=== prelude\npub mod nm {\nuse vstd::prelude::*;\nuse crate::vp::*;\nuse crate::vs::*;\nuse crate::atom::ident::*;\nuse crate::atom::data::*;\nuse crate::types::*;\n'
pre += '// ===================================================================== documented identifiers\n'
for n, e in names:
    pre += '#[verifier::opaque]\npub open spec fn %s() -> IdS { %s }\n' % (n, e)
consts = dict(ALBUM=b'\xa9alb', COPYRIGHT=b'cprt', ENCODER=b'\xa9too', LYRICS=b'\xa9lyr', MOVEMENT=b'\xa9mvn', TITLE=b'\xa9nam', TV_EPISODE_NAME=b'tven',
    TV_NETWORK_NAME=b'tvnn', TV_SHOW_NAME=b'tvsh', WORK=b'\xa9wrk', YEAR=b'\xa9day', ISRC='ISRC', ALBUM_ARTIST=b'aART', ARTIST=b'\xa9ART', CATEGORY=b'catg',
    COMMENT=b'\xa9cmt', COMPOSER=b'\xa9wrt', CUSTOM_GENRE=b'\xa9gen', DESCRIPTION=b'desc', GROUPING=b'\xa9grp', KEYWORD=b'keyw', LYRICIST='LYRICIST',
    COMPILATION=b'cpil', GAPLESS_PLAYBACK=b'pgap', SHOW_MOVEMENT=b'shwm', BPM=b'tmpo', MOVEMENT_COUNT=b'\xa9mvc', MOVEMENT_INDEX=b'\xa9mvi', TV_EPISODE=b'tves',
    TV_SEASON=b'tvsn', ARTWORK=b'covr', MEDIA_TYPE=b'stik', ADVISORY_RATING=b'rtng', TRACK_NUMBER=b'trkn', DISC_NUMBER=b'disk', STANDARD_GENRE=b'gnre')
assert {code(v) for v in consts.values()} == {n + '()' for n, _ in names}
def ids(k): return 'IdS::X("com.apple.iTunes"@, "%s"@)' % consts[k] if isinstance(consts[k], str) else 'IdS::F(%s)' % k
pre += '/// the public identifier constants have the documented values\npub proof fn lemma_names()\n    ensures\n'
for k, v in consts.items():
    pre += '        %s == %s, //@P11\n' % (ids(k), code(v))
pre += '{\n'
for n, _ in names: pre += '    reveal(%s);\n' % n
for k, v in consts.items():
    if not isinstance(v, str):
        e = ', '.join('%du8' % b for b in v)
        pre += '    assert(%s.0 =~= [%s]);\n' % (k, e)
pre += '}\n/// no two fields share an identifier\npub proof fn lemma_names_distinct()\n    ensures\n'
ns = [n for n, _ in names]
import itertools
fc = [(n, e) for n, e in names if 'IdS::X' not in e]
pre += ''.join('        %s() != %s(), //@P11\n' % (a[0], b[0]) for a, b in itertools.combinations(fc, 2))
pre += '{\n' + ''.join('    reveal(%s);\n' % n for n in ns)
for n, e in fc:
    b = e[4:-1].split(', ')
    pre += '    let %s = [%s];\n    assert(%s@ == seq![%s]);\n' % (n.replace('n_', 'a_', 1), ', '.join(b), n.replace('n_', 'a_', 1), ', '.join(b))
pre += '''}
// ===================================================================== typed values
pub open spec fn utf8s(v: Seq<Seq<char>>) -> Seq<DataS> { v.map_values(|s: Seq<char>| DataS::Utf8(s)) }
pub open spec fn imgs(v: Seq<(ImgFmt, Seq<u8>)>) -> Seq<DataS> { v.map_values(|i: (ImgFmt, Seq<u8>)| img_data(i)) }
pub proof fn lemma_utf8s(v: Seq<String>)
    ensures forall|s: Seq<Data>| s.len() == v.len() && (forall|i: int| 0 <= i < v.len() ==> (#[trigger] s[i])@ == DataS::Utf8(v[i]@)) ==> #[trigger] views(s) == utf8s(views(v))
{
    assert forall|s: Seq<Data>| s.len() == v.len() && (forall|i: int| 0 <= i < v.len() ==> (#[trigger] s[i])@ == DataS::Utf8(v[i]@)) implies #[trigger] views(s) == utf8s(views(v)) by {
        assert(views(s) =~= utf8s(views(v)));
    }
}
pub proof fn lemma_imgs(v: Seq<ImgBuf>)
    ensures forall|s: Seq<Data>| s.len() == v.len() && (forall|i: int| 0 <= i < v.len() ==> (#[trigger] s[i])@ == img_data((v[i].fmt, v[i].data@))) ==> #[trigger] views(s) == imgs(views(v))
{
    assert forall|s: Seq<Data>| s.len() == v.len() && (forall|i: int| 0 <= i < v.len() ==> (#[trigger] s[i])@ == img_data((v[i].fmt, v[i].data@))) implies #[trigger] views(s) == imgs(views(v)) by {
        assert(views(s) =~= imgs(views(v)));
    }
}
/// the integer at an offset of stored bytes
pub open spec fn int16_at(b: Option<Seq<u8>>, p: int) -> Option<u16> {
    match b { Some(v) => if v.len() < p + 2 { None } else { Some(be16(v.subrange(p, p + 2)) as u16) }, None => None }
}
pub open spec fn int32_at(b: Option<Seq<u8>>, p: int) -> Option<u32> {
    match b { Some(v) => if v.len() < p + 4 { None } else { Some(be32(v.subrange(p, p + 4)) as u32) }, None => None }
}
} // mod nm
'''
open(sys.argv[1] if len(sys.argv) > 1 else 'specs/91_accessors.spec', 'w').write(pre + ''.join(o if o.endswith('\n') else o + '\n' for o in out))
