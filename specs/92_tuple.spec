=== prelude
pub mod tp {
use vstd::prelude::*;
use crate::vp::*;
use crate::vs::*;
use crate::tg::*;
use crate::nm::*;
use crate::atom::ident::*;
broadcast use crate::vp::group_vp;
// ===================================================================== pairs of 16 bit numbers
/// zero counts as absent
pub open spec fn present(n: Option<u16>) -> Option<u16> { if n == Some(0u16) { None } else { n } }
/// the number is stored at offset 2
pub open spec fn number_s(b: Option<Seq<u8>>) -> Option<u16> { present(int16_at(b, 2)) }
/// the total is stored at offset 4
pub open spec fn total_s(b: Option<Seq<u8>>) -> Option<u16> { present(int16_at(b, 4)) }
/// extended with zeros to `n` bytes
pub open spec fn padded(b: Seq<u8>, n: int) -> Seq<u8> { if b.len() < n { b + zeros(n - b.len()) } else { b } }
/// `n` stored at offset `p`
pub open spec fn stored(b: Seq<u8>, p: int, n: u16) -> Seq<u8> { padded(b, p + 2).take(p) + to16(n as int) + padded(b, p + 2).skip(p + 2) }
pub open spec fn pair(n: u16, t: u16) -> Seq<u8> { zeros(2) + to16(n as int) + to16(t as int) }
/// the first byte value of the item replaced
pub open spec fn with_bytes(t: Seq<ItemS>, id: IdS, b: Seq<u8>) -> Seq<ItemS> {
    let s = spots(data_of(t, id).map_values(|d: DataS| bytes_s(d)))[0];
    put(t, id, data_of(t, id).update(s, put_bytes(data_of(t, id)[s], b)))
}
/// the first byte value updated at offset `p`; a new pair if there is none
pub open spec fn updated(t: Seq<ItemS>, id: IdS, p: int, n: u16) -> Seq<ItemS> {
    match first(bytes_of(t, id)) {
        Some(b) => with_bytes(t, id, stored(b, p, n)),
        None => put(t, id, seq![DataS::Reserved(if p == 2 { pair(n, 0) } else { pair(0, n) })]),
    }
}
pub open spec fn updated2(t: Seq<ItemS>, id: IdS, n: u16, m: u16) -> Seq<ItemS> {
    match first(bytes_of(t, id)) {
        Some(b) => with_bytes(t, id, stored(stored(b, 4, m), 2, n)),
        None => put(t, id, seq![DataS::Reserved(pair(n, m))]),
    }
}
/// a component set to zero; the item is removed if nothing is stored
pub open spec fn dropped(t: Seq<ItemS>, id: IdS, p: int) -> Seq<ItemS> {
    match first(bytes_of(t, id)) {
        Some(b) => with_bytes(t, id, stored(b, p, 0)),
        None => erase(t, id),
    }
}
pub proof fn lemma_pair(n: u16, t: u16)
    ensures
        number_s(Some(pair(n, t))) == present(Some(n)), //@P12
        total_s(Some(pair(n, t))) == present(Some(t)), //@P12
        pair(n, t).len() == 6, //@P12
{
    lemma_be16(n as int);
    lemma_be16(t as int);
    assert(pair(n, t).subrange(2, 4) =~= to16(n as int));
    assert(pair(n, t).subrange(4, 6) =~= to16(t as int));
}
/// an update changes its own two bytes only
pub proof fn lemma_stored(b: Seq<u8>, n: u16)
    ensures
        number_s(Some(stored(b, 2, n))) == present(Some(n)), //@P12
        total_s(Some(stored(b, 4, n))) == present(Some(n)), //@P12
        total_s(Some(stored(b, 2, n))) == total_s(Some(b)), //@P12
        b.len() != 3 ==> number_s(Some(stored(b, 4, n))) == number_s(Some(b)), //@P12
        b.len() == 3 ==> number_s(Some(stored(b, 4, n))) == number_s(Some(b.push(0))), //@P12
        stored(b, 2, n).len() == (if b.len() < 4 { 4 } else { b.len() as int }), //@P12
        stored(b, 4, n).len() == (if b.len() < 6 { 6 } else { b.len() as int }), //@P12
        forall|i: int| 0 <= i < b.len() && !(2 <= i < 4) ==> #[trigger] stored(b, 2, n)[i] == b[i], //@P12
        forall|i: int| 0 <= i < b.len() && !(4 <= i < 6) ==> #[trigger] stored(b, 4, n)[i] == b[i], //@P12
{
    lemma_be16(n as int);
    lemma_be16(0);
    let x = stored(b, 2, n);
    let y = stored(b, 4, n);
    assert(x.subrange(2, 4) =~= to16(n as int));
    assert(y.subrange(4, 6) =~= to16(n as int));
    if b.len() >= 6 { assert(x.subrange(4, 6) =~= b.subrange(4, 6)); }
    if b.len() >= 4 { assert(y.subrange(2, 4) =~= b.subrange(2, 4)); }
    else if b.len() == 3 { assert(y.subrange(2, 4) =~= b.push(0).subrange(2, 4)); }
    else { assert(y.subrange(2, 4) =~= to16(0)) by { lemma_to16_0(); } }
}
pub proof fn lemma_to16_0()
    ensures to16(0) =~= zeros(2)
{ reveal(to16); }
pub proof fn lemma_with_bytes(t: Seq<ItemS>, id: IdS, b: Seq<u8>)
    requires bytes_of(t, id).len() > 0
    ensures
        bytes_of(with_bytes(t, id, b), id) == bytes_of(t, id).update(0, b), //@P12
        forall|o: IdS| o != id ==> data_of(with_bytes(t, id, b), o) == #[trigger] data_of(t, o), //@P12
{
    let d = data_of(t, id);
    let e = d.map_values(|d: DataS| bytes_s(d));
    lemma_spots(e);
    let s = spots(e)[0];
    let d2 = d.update(s, put_bytes(d[s], b));
    lemma_put(t, id, d2);
    let e2 = d2.map_values(|d: DataS| bytes_s(d));
    lemma_spots(e2);
    assert(e[s] is Some);
    assert forall|i: int| 0 <= i < e2.len() implies ((#[trigger] e2[i]) is Some) == (e[i] is Some) by {}
    lemma_spots_same(e, e2);
    assert(somes(e2) =~= somes(e).update(0, b)) by {
        assert forall|i: int| 0 <= i < somes(e2).len() implies somes(e2)[i] == somes(e).update(0, b)[i] by {
            assert(e2[spots(e2)[i]] == Some(somes(e2)[i]));
            assert(e[spots(e)[i]] == Some(somes(e)[i]));
            if i > 0 { lemma_spots_up(e, 0, i); }
        }
    }
}
pub proof fn lemma_spots_up<T>(e: Seq<Option<T>>, i: int, j: int)
    requires 0 <= i < j < spots(e).len()
    ensures spots(e)[i] < spots(e)[j]
    decreases e.len()
{
    lemma_spots(e.drop_last());
    if e.last() is Some && j == spots(e).len() - 1 {
        assert(spots(e)[i] == spots(e.drop_last())[i]);
    } else { lemma_spots_up(e.drop_last(), i, j); }
}
/// setting a component: it reads back, the other one and the other items stay
pub proof fn lemma_updated(t: Seq<ItemS>, id: IdS, n: u16)
    ensures
        number_s(first(bytes_of(updated(t, id, 2, n), id))) == present(Some(n)), //@P12
        total_s(first(bytes_of(updated(t, id, 2, n), id))) == total_s(first(bytes_of(t, id))), //@P12
        total_s(first(bytes_of(updated(t, id, 4, n), id))) == present(Some(n)), //@P12
        (first(bytes_of(t, id)) is Some ==> bytes_of(t, id)[0].len() != 3) ==>
            number_s(first(bytes_of(updated(t, id, 4, n), id))) == number_s(first(bytes_of(t, id))), //@P12
        forall|o: IdS, p: int| o != id ==> #[trigger] data_of(updated(t, id, p, n), o) == data_of(t, o), //@P12
{
    match first(bytes_of(t, id)) {
        Some(b) => {
            lemma_stored(b, n);
            lemma_with_bytes(t, id, stored(b, 2, n));
            lemma_with_bytes(t, id, stored(b, 4, n));
            assert forall|o: IdS, p: int| o != id implies #[trigger] data_of(updated(t, id, p, n), o) == data_of(t, o) by { lemma_with_bytes(t, id, stored(b, p, n)); }
        }
        None => {
            lemma_pair(n, 0);
            lemma_pair(0, n);
            lemma_single(t, id, pair(n, 0));
            lemma_single(t, id, pair(0, n));
            assert forall|o: IdS, p: int| o != id implies #[trigger] data_of(updated(t, id, p, n), o) == data_of(t, o) by { lemma_single(t, id, if p == 2 { pair(n, 0) } else { pair(0, n) }); }
        }
    }
}
pub proof fn lemma_single(t: Seq<ItemS>, id: IdS, b: Seq<u8>)
    ensures
        bytes_of(put(t, id, seq![DataS::Reserved(b)]), id) == seq![b], //@P12
        forall|o: IdS| o != id ==> data_of(put(t, id, seq![DataS::Reserved(b)]), o) == #[trigger] data_of(t, o), //@P12
{
    let d = seq![DataS::Reserved(b)];
    lemma_put(t, id, d);
    let e = d.map_values(|d: DataS| bytes_s(d));
    assert(e =~= seq![Some(b)]);
    assert(e.drop_last() =~= Seq::<Option<Seq<u8>>>::empty());
    assert(somes(e.drop_last()) =~= Seq::<Seq<u8>>::empty());
    assert(somes(e) =~= seq![b]);
}
pub proof fn lemma_updated2(t: Seq<ItemS>, id: IdS, n: u16, m: u16)
    ensures
        number_s(first(bytes_of(updated2(t, id, n, m), id))) == present(Some(n)), //@P12
        total_s(first(bytes_of(updated2(t, id, n, m), id))) == present(Some(m)), //@P12
        forall|o: IdS| o != id ==> #[trigger] data_of(updated2(t, id, n, m), o) == data_of(t, o), //@P12
{
    match first(bytes_of(t, id)) {
        Some(b) => {
            lemma_stored(b, m);
            lemma_stored(stored(b, 4, m), n);
            lemma_with_bytes(t, id, stored(stored(b, 4, m), 2, n));
        }
        None => { lemma_pair(n, m); lemma_single(t, id, pair(n, m)); }
    }
}
/// removing a component: it is absent, the other one and the other items stay
pub proof fn lemma_dropped(t: Seq<ItemS>, id: IdS)
    requires distinct(t)
    ensures
        number_s(first(bytes_of(dropped(t, id, 2), id))) is None, //@P12
        total_s(first(bytes_of(dropped(t, id, 2), id))) == total_s(first(bytes_of(t, id))), //@P12
        total_s(first(bytes_of(dropped(t, id, 4), id))) is None, //@P12
        (first(bytes_of(t, id)) is Some ==> bytes_of(t, id)[0].len() != 3) ==>
            number_s(first(bytes_of(dropped(t, id, 4), id))) == number_s(first(bytes_of(t, id))), //@P12
        forall|o: IdS, p: int| o != id ==> #[trigger] data_of(dropped(t, id, p), o) == data_of(t, o), //@P12
{
    match first(bytes_of(t, id)) {
        Some(b) => {
            lemma_updated(t, id, 0);
            assert(updated(t, id, 2, 0) == dropped(t, id, 2));
            assert(updated(t, id, 4, 0) == dropped(t, id, 4));
            assert forall|o: IdS, p: int| o != id implies #[trigger] data_of(dropped(t, id, p), o) == data_of(t, o) by { assert(updated(t, id, p, 0) == dropped(t, id, p)); assert(data_of(updated(t, id, p, 0), o) == data_of(t, o)); }
        }
        None => {
            lemma_erase(t, id);
            lemma_without(t, id);
            assert(data_of(dropped(t, id, 2), id).map_values(|d: DataS| bytes_s(d)) =~= Seq::empty());
            assert(data_of(dropped(t, id, 4), id).map_values(|d: DataS| bytes_s(d)) =~= Seq::empty());
        }
    }
}
/// what an edit of the first byte value in place leaves
pub proof fn lemma_slot(t: Seq<ItemS>, id: IdS)
    ensures
        forall|f: Seq<ItemS>, r: Seq<&mut Vec<u8>>| #[trigger] byte_slots(t, f, id, r) ==> r.len() == bytes_of(t, id).len()
            && (r.len() > 0 ==> (*r[0])@ == bytes_of(t, id)[0])
            && (r.len() > 0 && (forall|i: int| 1 <= i < r.len() ==> has_resolved(#[trigger] r[i])) ==> f == with_bytes(t, id, (*final(r[0]))@))
            && (r.len() == 0 ==> f == t),
{
    assert forall|f: Seq<ItemS>, r: Seq<&mut Vec<u8>>| #[trigger] byte_slots(t, f, id, r) implies r.len() == bytes_of(t, id).len()
            && (r.len() > 0 ==> (*r[0])@ == bytes_of(t, id)[0])
            && (r.len() > 0 && (forall|i: int| 1 <= i < r.len() ==> has_resolved(#[trigger] r[i])) ==> f == with_bytes(t, id, (*final(r[0]))@))
            && (r.len() == 0 ==> f == t) by {
        let d = data_of(t, id);
        let e = d.map_values(|d: DataS| bytes_s(d));
        lemma_spots(e);
        lemma_idx(t, id);
        let k = idx(t, id);
        let sp = spots(e);
        if k < t.len() {
            assert(t[k].data == d);
            assert forall|i: int| 0 <= i < d.len() && bytes_s(d[i]) is None implies #[trigger] f[k].data[i] == d[i] by {}
            if r.len() > 0 {
                let b = (*final(r[0]))@;
                assert(e[sp[0]] == Some(somes(e)[0]));
                assert(Some((*r[0])@) == bytes_s(d[sp[0]]));
                if forall|i: int| 1 <= i < r.len() ==> has_resolved(#[trigger] r[i]) {
                    let d2 = d.update(sp[0], put_bytes(d[sp[0]], b));
                    assert(f[k].data =~= d2) by {
                        assert forall|i: int| 0 <= i < d.len() implies f[k].data[i] == d2[i] by {
                            if bytes_s(d[i]) is Some {
                                assert(e[i] is Some);
                                let j = choose|j: int| 0 <= j < sp.len() && sp[j] == i;
                                assert(Some((*r[j])@) == bytes_s(d[sp[j]]));
                                assert(f[k].data[sp[j]] == put_bytes(d[sp[j]], (*final(r[j]))@));
                                if j > 0 {
                                    lemma_spots_up(e, 0, j);
                                    assert(has_resolved(r[j]));
                                    assert(put_bytes(d[i], (*r[j])@) == d[i]);
                                }
                            }
                        }
                    }
                    assert(f =~= t.update(k, ItemS { id: id, data: d2 }));
                }
            } else {
                assert(f[k].data =~= t[k].data) by {
                    assert forall|i: int| 0 <= i < d.len() implies f[k].data[i] == d[i] by { if bytes_s(d[i]) is Some { assert(e[i] is Some); } }
                }
                assert(f =~= t);
            }
        } else { assert(e =~= Seq::empty()); assert(f =~= t); }
    }
}
} // mod tp
=== fn tag::tuple::number
    ensures r == number_s(Some(vec@)), //@P12
--- closure 0 u16 -> (x: Option<u16>)
    ensures x == present(Some(__c0))
=== fn tag::tuple::total
    ensures r == total_s(Some(vec@)), //@P12
--- closure 0 u16 -> (x: Option<u16>)
    ensures x == present(Some(__c0))
=== fn tag::tuple::set_number
    ensures final(vec)@ == stored(old(vec)@, 2, number), //@P12
--- loop 0
    invariant
        vec@.len() == padded(old(vec)@, 4).len(), bytes_start == 2, be_bytes@ == to16(number as int),
        forall|j: int| 0 <= j < vec@.len() ==> #[trigger] vec@[j] == (if 2 <= j < 2 + i { be_bytes@[j - 2] } else { padded(old(vec)@, 4)[j] }),
--- at end
    proof { assert(vec@ =~= stored(old(vec)@, 2, number)); }
=== fn tag::tuple::set_total
    ensures final(vec)@ == stored(old(vec)@, 4, total), //@P12
--- loop 0
    invariant
        vec@.len() == padded(old(vec)@, 6).len(), bytes_start == 4, be_bytes@ == to16(total as int),
        forall|j: int| 0 <= j < vec@.len() ==> #[trigger] vec@[j] == (if 4 <= j < 4 + i { be_bytes@[j - 4] } else { padded(old(vec)@, 6)[j] }),
--- at end
    proof { assert(vec@ =~= stored(old(vec)@, 4, total)); }
=== fn tag::tuple::new
    ensures r@ == pair(number, total), //@P12
--- at end
    proof { assert(__r@ =~= pair(number, total)); }
=== fn tag::tuple::Tag::track
    ensures r == (number_s(first(bytes_of(self@, n_trkn()))), total_s(first(bytes_of(self@, n_trkn())))), //@P12
--- at start
    proof { lemma_names(); }
=== fn tag::tuple::Tag::track_number
    ensures r == number_s(first(bytes_of(self@, n_trkn()))), //@P12
--- at start
    proof { lemma_names(); }
=== fn tag::tuple::Tag::total_tracks
    ensures r == total_s(first(bytes_of(self@, n_trkn()))), //@P12
--- at start
    proof { lemma_names(); }
=== fn tag::tuple::Tag::set_new_track
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == put(old(self)@, n_trkn(), seq![DataS::Reserved(pair(track_number, total_tracks))]), //@P12
--- at start
    proof { lemma_names(); }
=== fn tag::tuple::Tag::set_track
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == updated2(old(self)@, n_trkn(), track_number, total_tracks), //@P12
--- at start
    proof { lemma_names(); lemma_slot(self@, n_trkn()); }
=== fn tag::tuple::Tag::set_track_number
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == updated(old(self)@, n_trkn(), 2, track_number), //@P12
--- at start
    proof { lemma_names(); lemma_slot(self@, n_trkn()); }
=== fn tag::tuple::Tag::set_total_tracks
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == updated(old(self)@, n_trkn(), 4, total_tracks), //@P12
--- at start
    proof { lemma_names(); lemma_slot(self@, n_trkn()); }
=== fn tag::tuple::Tag::remove_track
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == erase(old(self)@, n_trkn()), //@P12
--- at start
    proof { lemma_names(); }
=== fn tag::tuple::Tag::remove_track_number
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == dropped(old(self)@, n_trkn(), 2), //@P12
--- at start
    proof { lemma_names(); lemma_slot(self@, n_trkn()); }
=== fn tag::tuple::Tag::remove_total_tracks
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == dropped(old(self)@, n_trkn(), 4), //@P12
--- at start
    proof { lemma_names(); lemma_slot(self@, n_trkn()); }
=== fn tag::tuple::Tag::disc
    ensures r == (number_s(first(bytes_of(self@, n_disk()))), total_s(first(bytes_of(self@, n_disk())))), //@P12
--- at start
    proof { lemma_names(); }
=== fn tag::tuple::Tag::disc_number
    ensures r == number_s(first(bytes_of(self@, n_disk()))), //@P12
--- at start
    proof { lemma_names(); }
=== fn tag::tuple::Tag::total_discs
    ensures r == total_s(first(bytes_of(self@, n_disk()))), //@P12
--- at start
    proof { lemma_names(); }
=== fn tag::tuple::Tag::set_new_disc
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == put(old(self)@, n_disk(), seq![DataS::Reserved(pair(disc_number, total_discs))]), //@P12
--- at start
    proof { lemma_names(); }
=== fn tag::tuple::Tag::set_disc
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == updated2(old(self)@, n_disk(), disc_number, total_discs), //@P12
--- at start
    proof { lemma_names(); lemma_slot(self@, n_disk()); }
=== fn tag::tuple::Tag::set_disc_number
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == updated(old(self)@, n_disk(), 2, disc_number), //@P12
--- at start
    proof { lemma_names(); lemma_slot(self@, n_disk()); }
=== fn tag::tuple::Tag::set_total_discs
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == updated(old(self)@, n_disk(), 4, total_discs), //@P12
--- at start
    proof { lemma_names(); lemma_slot(self@, n_disk()); }
=== fn tag::tuple::Tag::remove_disc
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == erase(old(self)@, n_disk()), //@P12
--- at start
    proof { lemma_names(); }
=== fn tag::tuple::Tag::remove_disc_number
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == dropped(old(self)@, n_disk(), 2), //@P12
--- at start
    proof { lemma_names(); lemma_slot(self@, n_disk()); }
=== fn tag::tuple::Tag::remove_total_discs
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == dropped(old(self)@, n_disk(), 4), //@P12
--- at start
    proof { lemma_names(); lemma_slot(self@, n_disk()); }
