=== prelude
pub mod gn {
use vstd::prelude::*;
use crate::vp::*;
use crate::vs::*;
use crate::tg::*;
use crate::nm::*;
use crate::atom::ident::*;
use crate::atom::data::*;
broadcast use crate::vp::group_vp;
// ===================================================================== genres
/// the documented names of the standard genres
#[verifier::opaque]
pub open spec fn genre_s(c: int) -> Option<Seq<char>> {
    if c == 1 { Some("Blues"@) }
    else if c == 2 { Some("Classic rock"@) }
    else if c == 3 { Some("Country"@) }
    else if c == 4 { Some("Dance"@) }
    else if c == 5 { Some("Disco"@) }
    else if c == 6 { Some("Funk"@) }
    else if c == 7 { Some("Grunge"@) }
    else if c == 8 { Some("Hip,-Hop"@) }
    else if c == 9 { Some("Jazz"@) }
    else if c == 10 { Some("Metal"@) }
    else if c == 11 { Some("New Age"@) }
    else if c == 12 { Some("Oldies"@) }
    else if c == 13 { Some("Other"@) }
    else if c == 14 { Some("Pop"@) }
    else if c == 15 { Some("Rhythm and Blues"@) }
    else if c == 16 { Some("Rap"@) }
    else if c == 17 { Some("Reggae"@) }
    else if c == 18 { Some("Rock"@) }
    else if c == 19 { Some("Techno"@) }
    else if c == 20 { Some("Industrial"@) }
    else if c == 21 { Some("Alternative"@) }
    else if c == 22 { Some("Ska"@) }
    else if c == 23 { Some("Death metal"@) }
    else if c == 24 { Some("Pranks"@) }
    else if c == 25 { Some("Soundtrack"@) }
    else if c == 26 { Some("Euro-Techno"@) }
    else if c == 27 { Some("Ambient"@) }
    else if c == 28 { Some("Trip-Hop"@) }
    else if c == 29 { Some("Vocal"@) }
    else if c == 30 { Some("Jazz & Funk"@) }
    else if c == 31 { Some("Fusion"@) }
    else if c == 32 { Some("Trance"@) }
    else if c == 33 { Some("Classical"@) }
    else if c == 34 { Some("Instrumental"@) }
    else if c == 35 { Some("Acid"@) }
    else if c == 36 { Some("House"@) }
    else if c == 37 { Some("Game"@) }
    else if c == 38 { Some("Sound clip"@) }
    else if c == 39 { Some("Gospel"@) }
    else if c == 40 { Some("Noise"@) }
    else if c == 41 { Some("Alternative Rock"@) }
    else if c == 42 { Some("Bass"@) }
    else if c == 43 { Some("Soul"@) }
    else if c == 44 { Some("Punk"@) }
    else if c == 45 { Some("Space"@) }
    else if c == 46 { Some("Meditative"@) }
    else if c == 47 { Some("Instrumental Pop"@) }
    else if c == 48 { Some("Instrumental Rock"@) }
    else if c == 49 { Some("Ethnic"@) }
    else if c == 50 { Some("Gothic"@) }
    else if c == 51 { Some("Darkwave"@) }
    else if c == 52 { Some("Techno-Industrial"@) }
    else if c == 53 { Some("Electronic"@) }
    else if c == 54 { Some("Pop-Folk"@) }
    else if c == 55 { Some("Eurodance"@) }
    else if c == 56 { Some("Dream"@) }
    else if c == 57 { Some("Southern Rock"@) }
    else if c == 58 { Some("Comedy"@) }
    else if c == 59 { Some("Cult"@) }
    else if c == 60 { Some("Gangsta"@) }
    else if c == 61 { Some("Top 41"@) }
    else if c == 62 { Some("Christian Rap"@) }
    else if c == 63 { Some("Pop/Funk"@) }
    else if c == 64 { Some("Jungle"@) }
    else if c == 65 { Some("Native US"@) }
    else if c == 66 { Some("Cabaret"@) }
    else if c == 67 { Some("New Wave"@) }
    else if c == 68 { Some("Psychedelic"@) }
    else if c == 69 { Some("Rave"@) }
    else if c == 70 { Some("Show tunes"@) }
    else if c == 71 { Some("Trailer"@) }
    else if c == 72 { Some("Lo,-Fi"@) }
    else if c == 73 { Some("Tribal"@) }
    else if c == 74 { Some("Acid Punk"@) }
    else if c == 75 { Some("Acid Jazz"@) }
    else if c == 76 { Some("Polka"@) }
    else if c == 77 { Some("Retro"@) }
    else if c == 78 { Some("Musical"@) }
    else if c == 79 { Some("Rock ’n’ Roll"@) }
    else if c == 80 { Some("Hard Rock"@) }
    else { None }
}
/// a stored code
pub open spec fn code_s(b: Seq<u8>) -> Option<u16> { if b.len() < 2 { None } else { Some(be16(seq![b[0], b[1]]) as u16) } }
pub open spec fn code_data(c: u16) -> DataS { DataS::Reserved(to16(c as int)) }
pub open spec fn code_datas(v: Seq<u16>) -> Seq<DataS> { v.map_values(|c: u16| code_data(c)) }
/// the codes that are stored
pub open spec fn codes_of(t: Seq<ItemS>) -> Seq<u16> { somes(bytes_of(t, n_gnre()).map_values(|b: Seq<u8>| code_s(b))) }
pub open spec fn names(v: Seq<u16>) -> Seq<Option<Seq<char>>> { v.map_values(|c: u16| genre_s(c as int)) }
/// the names of the standard genres followed by the custom genres
pub open spec fn genres_s(t: Seq<ItemS>) -> Seq<Seq<char>> { somes(names(codes_of(t))) + strings_of(t, n__gen()) }
pub proof fn lemma_codes(e: Seq<Option<u16>>)
    ensures forall|o: Seq<Option<u16>>| o.len() == e.len() && (forall|i: int| 0 <= i < o.len() ==> #[trigger] o[i] == e[i]) ==> #[trigger] somes(o) == somes(e)
{
    assert forall|o: Seq<Option<u16>>| o.len() == e.len() && (forall|i: int| 0 <= i < o.len() ==> #[trigger] o[i] == e[i]) implies #[trigger] somes(o) == somes(e) by {
        assert(o =~= e);
    }
}
/// the first value that is present
pub proof fn lemma_first_some<T>(e: Seq<Option<T>>)
    ensures
        (forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i]) is None) ==> first(somes(e)) == None::<T>,
        forall|k: int| 0 <= k < e.len() && (#[trigger] e[k]) is Some && (forall|i: int| 0 <= i < k ==> (#[trigger] e[i]) is None) ==> first(somes(e)) == e[k],
    decreases e.len()
{
    if e.len() > 0 {
        let l = e.drop_last();
        lemma_first_some(l);
        if forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i]) is None {
            assert forall|i: int| 0 <= i < l.len() implies (#[trigger] l[i]) is None by { assert(e[i] is None); }
            assert(e[e.len() - 1] is None);
        }
        assert forall|k: int| 0 <= k < e.len() && (#[trigger] e[k]) is Some && (forall|i: int| 0 <= i < k ==> (#[trigger] e[i]) is None) implies first(somes(e)) == e[k] by {
            assert forall|i: int| 0 <= i < k && i < l.len() implies (#[trigger] l[i]) is None by { assert(e[i] is None); }
            if k < l.len() { assert(l[k] is Some); assert(first(somes(l)) == l[k]); assert(somes(e)[0] == somes(l)[0]); }
            else { assert(first(somes(l)) is None); assert(somes(l).len() == 0); }
        }
    }
}
/// the first known code
pub proof fn lemma_first_name(v: Seq<u16>)
    ensures
        (forall|i: int| 0 <= i < v.len() ==> genre_s(#[trigger] v[i] as int) is None) ==> somes(names(v)).len() == 0,
        forall|k: int| 0 <= k < v.len() && genre_s(#[trigger] v[k] as int) is Some && (forall|i: int| 0 <= i < k ==> genre_s(#[trigger] v[i] as int) is None)
            ==> somes(names(v)).len() > 0 && genre_s(v[k] as int) == Some(somes(names(v))[0]),
{
    let e = names(v);
    lemma_first_some(e);
    if forall|i: int| 0 <= i < v.len() ==> genre_s(#[trigger] v[i] as int) is None {
        assert forall|i: int| 0 <= i < e.len() implies (#[trigger] e[i]) is None by { assert(genre_s(v[i] as int) is None); }
    }
    assert forall|k: int| 0 <= k < v.len() && genre_s(#[trigger] v[k] as int) is Some && (forall|i: int| 0 <= i < k ==> genre_s(#[trigger] v[i] as int) is None)
            implies somes(names(v)).len() > 0 && genre_s(v[k] as int) == Some(somes(names(v))[0]) by {
        assert(e[k] is Some);
        assert forall|i: int| 0 <= i < k implies (#[trigger] e[i]) is None by { assert(genre_s(v[i] as int) is None); }
    }
}
pub proof fn lemma_code_datas(v: Seq<u16>)
    ensures forall|s: Seq<Data>| s.len() == v.len() && (forall|i: int| 0 <= i < v.len() ==> (#[trigger] s[i])@ == code_data(v[i])) ==> #[trigger] views(s) == code_datas(v)
{
    assert forall|s: Seq<Data>| s.len() == v.len() && (forall|i: int| 0 <= i < v.len() ==> (#[trigger] s[i])@ == code_data(v[i])) implies #[trigger] views(s) == code_datas(v) by {
        assert(views(s) =~= code_datas(v));
    }
}
pub proof fn lemma_all_some<T>(e: Seq<Option<T>>, v: Seq<T>)
    requires e.len() == v.len(), forall|i: int| 0 <= i < e.len() ==> #[trigger] e[i] == Some(v[i])
    ensures somes(e) == v
    decreases e.len()
{
    if e.len() > 0 {
        assert forall|i: int| 0 <= i < e.len() - 1 implies #[trigger] e.drop_last()[i] == Some(v.drop_last()[i]) by { assert(e[i] == Some(v[i])); }
        lemma_all_some(e.drop_last(), v.drop_last());
        assert(e[e.len() - 1] == Some(v[v.len() - 1]));
        assert(v.drop_last().push(v.last()) =~= v);
    } else { assert(somes(e) =~= v); }
}
/// custom genres read back
pub proof fn lemma_strings(t: Seq<ItemS>, id: IdS, v: Seq<Seq<char>>)
    requires data_of(t, id) == utf8s(v)
    ensures strings_of(t, id) == v, //@P13
{
    lemma_all_some(data_of(t, id).map_values(|d: DataS| string_s(d)), v);
}
/// standard codes read back
pub proof fn lemma_codes_read(t: Seq<ItemS>, v: Seq<u16>)
    requires data_of(t, n_gnre()) == code_datas(v)
    ensures codes_of(t) == v, //@P13
{
    let d = data_of(t, n_gnre());
    let b = v.map_values(|c: u16| to16(c as int));
    lemma_all_some(d.map_values(|x: DataS| bytes_s(x)), b);
    assert(bytes_of(t, n_gnre()) == b);
    let m = b.map_values(|x: Seq<u8>| code_s(x));
    assert forall|i: int| 0 <= i < v.len() implies #[trigger] m[i] == Some(v[i]) by {
        let x = to16(v[i] as int);
        lemma_be16(v[i] as int);
        assert(seq![x[0], x[1]] =~= x);
    }
    lemma_all_some(m, v);
}
/// setting genres replaces all standard and custom genres and nothing else
pub proof fn lemma_set_genres(t: Seq<ItemS>, v: Seq<Seq<char>>)
    requires distinct(t), full(t)
    ensures
        genres_s(erase(nonempty(put(t, n__gen(), utf8s(v))), n_gnre())) == v, //@P13
        forall|o: IdS| o != n__gen() && o != n_gnre() ==> #[trigger] data_of(erase(nonempty(put(t, n__gen(), utf8s(v))), n_gnre()), o) == data_of(t, o), //@P13
{
    let d = utf8s(v);
    lemma_names_distinct();
    lemma_nonempty(t, n__gen(), d);
    lemma_put(t, n__gen(), d);
    lemma_without(t, n__gen());
    let u = nonempty(put(t, n__gen(), d));
    assert(distinct(u));
    assert(data_of(u, n__gen()) =~= d);
    lemma_erase(u, n_gnre());
    lemma_without(u, n_gnre());
    let w = erase(u, n_gnre());
    assert(w == without(u, n_gnre()));
    assert(data_of(w, n__gen()) == data_of(u, n__gen()));
    assert(data_of(w, n__gen()) == d);
    lemma_strings(w, n__gen(), v);
    assert(data_of(w, n_gnre()) =~= code_datas(Seq::<u16>::empty()));
    lemma_codes_read(w, Seq::<u16>::empty());
    assert(names(codes_of(w)) =~= Seq::<Option<Seq<char>>>::empty());
    assert(genres_s(w) =~= v);
    assert forall|o: IdS| o != n__gen() && o != n_gnre() implies #[trigger] data_of(w, o) == data_of(t, o) by { assert(data_of(u, o) == data_of(t, o)); }
}
/// removing genres removes both kinds and nothing else
pub proof fn lemma_remove_genres(t: Seq<ItemS>)
    requires distinct(t), full(t)
    ensures
        genres_s(erase(erase(t, n_gnre()), n__gen())) == Seq::<Seq<char>>::empty(), //@P13
        forall|o: IdS| o != n__gen() && o != n_gnre() ==> #[trigger] data_of(erase(erase(t, n_gnre()), n__gen()), o) == data_of(t, o), //@P13
{
    lemma_names_distinct();
    lemma_erase(t, n_gnre());
    lemma_without(t, n_gnre());
    let u = erase(t, n_gnre());
    lemma_erase(u, n__gen());
    lemma_without(u, n__gen());
    let w = erase(u, n__gen());
    assert(data_of(w, n_gnre()) == data_of(u, n_gnre()));
    assert(data_of(w, n_gnre()) =~= code_datas(Seq::<u16>::empty()));
    lemma_codes_read(w, Seq::<u16>::empty());
    assert(names(codes_of(w)) =~= Seq::<Option<Seq<char>>>::empty());
    assert(data_of(w, n__gen()) =~= utf8s(Seq::empty()));
    lemma_strings(w, n__gen(), Seq::empty());
    assert(genres_s(w) =~= Seq::<Seq<char>>::empty());
    assert forall|o: IdS| o != n__gen() && o != n_gnre() implies #[trigger] data_of(w, o) == data_of(t, o) by { assert(data_of(u, o) == data_of(t, o)); }
}
/// adding a genre appends it
pub proof fn lemma_add_genre(t: Seq<ItemS>, g: Seq<char>)
    requires distinct(t), full(t)
    ensures
        genres_s(put(t, n__gen(), data_of(t, n__gen()).push(DataS::Utf8(g)))) == genres_s(t).push(g), //@P13
        forall|o: IdS| o != n__gen() ==> #[trigger] data_of(put(t, n__gen(), data_of(t, n__gen()).push(DataS::Utf8(g))), o) == data_of(t, o), //@P13
{
    lemma_names_distinct();
    let d = data_of(t, n__gen()).push(DataS::Utf8(g));
    let u = put(t, n__gen(), d);
    lemma_put(t, n__gen(), d);
    assert(data_of(u, n_gnre()) == data_of(t, n_gnre()));
    let e = d.map_values(|x: DataS| string_s(x));
    assert(e.drop_last() =~= data_of(t, n__gen()).map_values(|x: DataS| string_s(x)));
    assert(genres_s(u) =~= genres_s(t).push(g));
}
} // mod gn
=== fn tag::genre::stanard_genre
    ensures oview(r) == genre_s(code as int), //@P13
--- at start
    proof { reveal(genre_s); }
=== fn tag::genre::Tag::standard_genres
    ensures r@ == codes_of(self@), //@P13
--- closure 0 &[u8] -> (x: Option<u16>)
    ensures x == code_s(__c0@)
--- at start
    proof {
        lemma_names();
        lemma_codes(bytes_of(self@, n_gnre()).map_values(|b: Seq<u8>| code_s(b)));
    }
=== fn tag::genre::Tag::standard_genre
    ensures r == first(codes_of(self@)), //@P13
=== fn tag::genre::Tag::set_standard_genre
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == put(old(self)@, n_gnre(), seq![code_data(genre_code)]), //@P13
--- at start
    proof { lemma_names(); }
=== fn tag::genre::Tag::set_standard_genres
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == nonempty(put(old(self)@, n_gnre(), code_datas(genre_codes@))), //@P13
--- closure 0 u16 -> (x: Data)
    ensures x@ == code_data(__c0)
--- at start
    proof { lemma_names(); lemma_code_datas(genre_codes@); }
=== fn tag::genre::Tag::add_standard_genre
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == put(old(self)@, n_gnre(), data_of(old(self)@, n_gnre()).push(code_data(genre_code))), //@P13
--- at start
    proof { lemma_names(); }
=== fn tag::genre::Tag::add_standard_genres
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == nonempty(put(old(self)@, n_gnre(), data_of(old(self)@, n_gnre()) + code_datas(genre_codes@))), //@P13
--- closure 0 u16 -> (x: Data)
    ensures x@ == code_data(__c0)
--- at start
    proof { lemma_names(); lemma_code_datas(genre_codes@); }
=== fn tag::genre::Tag::remove_standard_genres
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == erase(old(self)@, n_gnre()), //@P13
--- at start
    proof { lemma_names(); }
=== fn tag::genre::Tag::genres
    ensures views(r@) == genres_s(self@), //@P13
--- closure 0 u16 -> (x: Option<&'static str>)
    ensures oview(x) == genre_s(__c0 as int)
--- at start
    proof { lemma_fm::<&str>(names(codes_of(self@))); }
--- at end
    proof { assert(views(__r@) =~= genres_s(self@)); }
=== fn tag::genre::Tag::genre
    ensures oview(r) == first(genres_s(self@)), //@P13
=== fn tag::genre::Tag::take_genres
    ensures
        final(self).rest() == old(self).rest(),
        views(r@) == genres_s(old(self)@), //@P13
        final(self)@ == without(old(self)@, n__gen()), //@P13
--- at start
    proof { lemma_names(); lemma_fm::<&str>(names(codes_of(self@))); }
--- at end
    proof { assert(views(__r@) =~= genres_s(old(self)@)); }
=== fn tag::genre::Tag::take_genre
    ensures
        final(self).rest() == old(self).rest(),
        oview(r) == first(genres_s(old(self)@)), //@P13
        final(self)@ == without(old(self)@, n__gen()), //@P13
--- at start
    proof { lemma_names(); lemma_fm::<&str>(names(codes_of(self@))); lemma_first_name(codes_of(self@)); }
=== fn tag::genre::Tag::set_genre
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == erase(put(old(self)@, n__gen(), seq![DataS::Utf8(genre.into_view())]), n_gnre()), //@P13
--- at start
    proof { lemma_names(); }
=== fn tag::genre::Tag::set_genres
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == erase(nonempty(put(old(self)@, n__gen(), utf8s(views(genres@)))), n_gnre()), //@P13
--- at start
    proof { lemma_names(); }
=== fn tag::genre::Tag::add_genre
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == put(old(self)@, n__gen(), data_of(old(self)@, n__gen()).push(DataS::Utf8(genre.into_view()))), //@P13
--- at start
    proof { lemma_names(); }
=== fn tag::genre::Tag::remove_genres
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == erase(erase(old(self)@, n_gnre()), n__gen()), //@P13
--- at start
    proof { lemma_names(); }
