=== fn tag::Tag::read_from_path
    requires old(vp_disk)@.contains_key(path.named()) ==> old(vp_disk)@[path.named()].len() < lim()
    ensures
        final(vp_disk)@ == old(vp_disk)@,
        r is Ok ==> old(vp_disk)@.contains_key(path.named()),
        r is Ok && file_wf(old(vp_disk)@[path.named()]) ==> tag_is(r->Ok_0, old(vp_disk)@[path.named()]), //@P15 //@P16
        old(vp_disk).sound() && old(vp_disk)@.contains_key(path.named()) && file_wf(old(vp_disk)@[path.named()]) ==> r is Ok, //@P15 //@P16
--- at start
    proof {
        if vp_disk@.contains_key(path.named()) { let d = vp_disk@[path.named()]; assert(d.skip(0) =~= d); }
    }
=== fn tag::Tag::write_to_path
    requires
        items_fit(self@),
        old(vp_disk)@.contains_key(path.named()) ==> old(vp_disk)@[path.named()].len() + ser_items(self@).len() + 1000 < lim(),
    ensures
        r is Err && old(vp_disk).sound() ==> final(vp_disk)@ =~= old(vp_disk)@, //@P07
        r is Ok ==> old(vp_disk)@.contains_key(path.named()) && final(vp_disk)@ == old(vp_disk)@.insert(path.named(), final(vp_disk)@[path.named()]), //@P03
        old(vp_disk).sound() && old(vp_disk)@.contains_key(path.named()) && crate::wr::good_file(old(vp_disk)@[path.named()]) ==> r is Ok, //@P01 //@P07
        r is Ok && crate::wr::good_file(old(vp_disk)@[path.named()]) && crate::ls::storable(self@) && crate::wr::room(old(vp_disk)@[path.named()], self@)
            ==> crate::wr::written(old(vp_disk)@[path.named()], final(vp_disk)@[path.named()], self@), //@P01 //@P03 //@P04 //@P05
=== fn tag::Tag::dump_to_path
    requires items_fit(self@)
    ensures
        r is Ok ==> final(vp_disk)@ == old(vp_disk)@.insert(path.named(), dump_of(self@)), //@P02 //@P08
        old(vp_disk).sound() ==> r is Ok,
=== prelude
pub mod tg {
use vstd::std_specs::cmp::*;
use vstd::prelude::*;
use crate::vp::*;
use crate::vs::*;
use crate::atom::ident::*;
use crate::atom::data::*;
use crate::atom::AtomData;
use crate::types::*;

// ===================================================================== edits of an item list
/// the values of one item
pub open spec fn with_data(i: ItemS, data: Seq<DataS>) -> ItemS { ItemS { id: i.id, data: data } }
/// the values of item `k` replaced; an item without values is dropped
pub open spec fn put_or_drop(t: Seq<ItemS>, k: int, data: Seq<DataS>) -> Seq<ItemS> {
    if data.len() == 0 { t.remove(k) } else { t.update(k, with_data(t[k], data)) }
}
/// the values of the first item with the identifier that `keep` selects
pub open spec fn retained(t: Seq<ItemS>, id: IdS, keep: Seq<bool>) -> Seq<ItemS> {
    if idx(t, id) < t.len() { put_or_drop(t, idx(t, id), kept(data_of(t, id), keep)) } else { t }
}
/// the values of the first item with the identifier that satisfy `p`
pub open spec fn filtered(t: Seq<ItemS>, id: IdS, p: spec_fn(DataS) -> bool) -> Seq<ItemS> {
    if idx(t, id) < t.len() { put_or_drop(t, idx(t, id), data_of(t, id).filter(p)) } else { t }
}
/// the values of all items that `keep` selects, items without values are dropped
pub open spec fn retained_all(t: Seq<ItemS>, keep: Seq<Seq<bool>>) -> Seq<ItemS>
    decreases t.len()
{
    if t.len() == 0 { Seq::empty() } else {
        let d = kept(t.last().data, keep.last());
        let p = retained_all(t.drop_last(), keep.drop_last());
        if d.len() == 0 { p } else { p.push(with_data(t.last(), d)) }
    }
}
/// what `predicate` decides about byte data, everything else is kept
pub open spec fn says_bytes<F: FnMut(&[u8]) -> bool>(f: F, v: Seq<u8>, r: bool) -> bool {
    exists|x: &[u8]| x@ == v && #[trigger] call_ensures(f, (x,), r)
}
pub open spec fn keeps_bytes<F: FnMut(&[u8]) -> bool>(f: F, d: Seq<DataS>, keep: Seq<bool>) -> bool {
    keep.len() == d.len() && forall|i: int| 0 <= i < d.len() ==>
        (#[trigger] keep[i] || bytes_s(d[i]) is Some) && (bytes_s(d[i]) is Some ==> says_bytes(f, bytes_s(d[i])->Some_0, keep[i]))
}
pub open spec fn says_strings<F: FnMut(&str) -> bool>(f: F, v: Seq<char>, r: bool) -> bool {
    exists|x: &str| x@ == v && #[trigger] call_ensures(f, (x,), r)
}
pub open spec fn keeps_strings<F: FnMut(&str) -> bool>(f: F, d: Seq<DataS>, keep: Seq<bool>) -> bool {
    keep.len() == d.len() && forall|i: int| 0 <= i < d.len() ==>
        (#[trigger] keep[i] || string_s(d[i]) is Some) && (string_s(d[i]) is Some ==> says_strings(f, string_s(d[i])->Some_0, keep[i]))
}
pub open spec fn says_images<F: FnMut(ImgRef) -> bool>(f: F, v: (ImgFmt, Seq<u8>), r: bool) -> bool {
    exists|x: ImgRef| x@ == v && #[trigger] call_ensures(f, (x,), r)
}
pub open spec fn keeps_images<F: FnMut(ImgRef) -> bool>(f: F, d: Seq<DataS>, keep: Seq<bool>) -> bool {
    keep.len() == d.len() && forall|i: int| 0 <= i < d.len() ==>
        (#[trigger] keep[i] || image_s(d[i]) is Some) && (image_s(d[i]) is Some ==> says_images(f, image_s(d[i])->Some_0, keep[i]))
}
pub open spec fn says_bytes_for<F: FnMut(&DataIdent, &[u8]) -> bool>(f: F, id: IdS, v: Seq<u8>, r: bool) -> bool {
    exists|i: &DataIdent, x: &[u8]| i@ == id && x@ == v && #[trigger] call_ensures(f, (i, x), r)
}
pub open spec fn keeps_bytes_in<F: FnMut(&DataIdent, &[u8]) -> bool>(f: F, t: ItemS, keep: Seq<bool>) -> bool {
    keep.len() == t.data.len() && forall|i: int| 0 <= i < t.data.len() ==>
        (#[trigger] keep[i] || bytes_s(t.data[i]) is Some) && (bytes_s(t.data[i]) is Some ==> says_bytes_for(f, t.id, bytes_s(t.data[i])->Some_0, keep[i]))
}
pub open spec fn says_strings_for<F: FnMut(&DataIdent, &str) -> bool>(f: F, id: IdS, v: Seq<char>, r: bool) -> bool {
    exists|i: &DataIdent, x: &str| i@ == id && x@ == v && #[trigger] call_ensures(f, (i, x), r)
}
pub open spec fn keeps_strings_in<F: FnMut(&DataIdent, &str) -> bool>(f: F, t: ItemS, keep: Seq<bool>) -> bool {
    keep.len() == t.data.len() && forall|i: int| 0 <= i < t.data.len() ==>
        (#[trigger] keep[i] || string_s(t.data[i]) is Some) && (string_s(t.data[i]) is Some ==> says_strings_for(f, t.id, string_s(t.data[i])->Some_0, keep[i]))
}
pub open spec fn says_images_for<F: FnMut(&DataIdent, ImgRef) -> bool>(f: F, id: IdS, v: (ImgFmt, Seq<u8>), r: bool) -> bool {
    exists|i: &DataIdent, x: ImgRef| i@ == id && x@ == v && #[trigger] call_ensures(f, (i, x), r)
}
pub open spec fn keeps_images_in<F: FnMut(&DataIdent, ImgRef) -> bool>(f: F, t: ItemS, keep: Seq<bool>) -> bool {
    keep.len() == t.data.len() && forall|i: int| 0 <= i < t.data.len() ==>
        (#[trigger] keep[i] || image_s(t.data[i]) is Some) && (image_s(t.data[i]) is Some ==> says_images_for(f, t.id, image_s(t.data[i])->Some_0, keep[i]))
}
pub open spec fn keeps<F: FnMut(&DataIdent, &Data) -> bool>(f: F, a: AtomData, keep: Seq<bool>) -> bool {
    keep.len() == a.data@.len() && forall|i: int| 0 <= i < a.data@.len() ==> call_ensures(f, (&a.ident, &a.data@[i]), #[trigger] keep[i])
}
pub proof fn lemma_kept_views(v: Seq<Data>, keep: Seq<bool>)
    requires keep.len() == v.len()
    ensures views(kept(v, keep)) == kept(views(v), keep), kept(v, keep).len() <= v.len()
    decreases v.len()
{
    if v.len() > 0 {
        lemma_kept_views(v.drop_last(), keep.drop_last());
        assert(views(v).drop_last() =~= views(v.drop_last()));
        assert(views(kept(v, keep)) =~= kept(views(v), keep));
    } else { assert(views(kept(v, keep)) =~= kept(views(v), keep)); }
}
pub proof fn lemma_kept_viewss(v: Seq<Data>)
    ensures forall|keep: Seq<bool>| keep.len() == v.len() ==> views(#[trigger] kept(v, keep)) == kept(views(v), keep)
{
    assert forall|keep: Seq<bool>| keep.len() == v.len() implies views(#[trigger] kept(v, keep)) == kept(views(v), keep) by { lemma_kept_views(v, keep); }
}
/// all values of one item with its identifier
pub open spec fn pairs1(i: ItemS) -> Seq<(IdS, DataS)> { i.data.map_values(|d: DataS| (i.id, d)) }
/// all values with their identifiers
pub open spec fn pairs(t: Seq<ItemS>) -> Seq<(IdS, DataS)>
    decreases t.len()
{
    if t.len() == 0 { Seq::empty() } else { pairs(t.drop_last()) + pairs1(t.last()) }
}
pub open spec fn bytes_p(p: (IdS, DataS)) -> Option<(IdS, Seq<u8>)> { match bytes_s(p.1) { Some(v) => Some((p.0, v)), None => None } }
pub open spec fn string_p(p: (IdS, DataS)) -> Option<(IdS, Seq<char>)> { match string_s(p.1) { Some(v) => Some((p.0, v)), None => None } }
pub open spec fn image_p(p: (IdS, DataS)) -> Option<(IdS, (ImgFmt, Seq<u8>))> { match image_s(p.1) { Some(v) => Some((p.0, v)), None => None } }
pub open spec fn bytes_in(t: Seq<ItemS>) -> Seq<(IdS, Seq<u8>)> { somes(pairs(t).map_values(|p: (IdS, DataS)| bytes_p(p))) }
pub open spec fn strings_in(t: Seq<ItemS>) -> Seq<(IdS, Seq<char>)> { somes(pairs(t).map_values(|p: (IdS, DataS)| string_p(p))) }
pub open spec fn images_in(t: Seq<ItemS>) -> Seq<(IdS, (ImgFmt, Seq<u8>))> { somes(pairs(t).map_values(|p: (IdS, DataS)| image_p(p))) }

pub open spec fn pieces<T: View<V = (IdS, DataS)>>(t: Seq<ItemS>, o: Seq<MIt<T>>) -> bool {
    o.len() == t.len() && forall|i: int| 0 <= i < o.len() ==> views((#[trigger] o[i])@) == pairs1(t[i])
}
pub proof fn lemma_pieces1<T: View<V = (IdS, DataS)>>(t: Seq<ItemS>, o: Seq<MIt<T>>)
    requires pieces(t, o)
    ensures views(flat(units(o))) == pairs(t)
    decreases t.len()
{
    let m = units(o);
    if t.len() > 0 {
        lemma_pieces1(t.drop_last(), o.drop_last());
        assert(units(o.drop_last()) =~= m.drop_last());
        assert(views(m.last()) == pairs1(t.last()));
        assert(views(flat(m)) =~= views(flat(m.drop_last())) + views(m.last()));
    } else { assert(views(flat(m)) =~= pairs(t)); }
}
pub proof fn lemma_pieces<T: View<V = (IdS, DataS)>>(t: Seq<ItemS>)
    ensures forall|o: Seq<MIt<T>>| pieces(t, o) ==> views(flat(#[trigger] units(o))) == pairs(t)
{
    assert forall|o: Seq<MIt<T>>| pieces(t, o) implies views(flat(#[trigger] units(o))) == pairs(t) by { lemma_pieces1(t, o); }
}

/// `f` is `t` with other values in item `k`
pub open spec fn edited(t: Seq<ItemS>, f: Seq<ItemS>, k: int) -> bool {
    f.len() == t.len() && (forall|i: int| 0 <= i < t.len() && i != k ==> #[trigger] f[i] == t[i])
        && f[k].id == t[k].id && f[k].data.len() == t[k].data.len()
}
/// where the values are that are present
pub open spec fn spots<T>(e: Seq<Option<T>>) -> Seq<int>
    decreases e.len()
{
    if e.len() == 0 { Seq::empty() } else if e.last() is Some { spots(e.drop_last()).push(e.len() - 1) } else { spots(e.drop_last()) }
}
pub proof fn lemma_spots<T>(e: Seq<Option<T>>)
    ensures
        spots(e).len() == somes(e).len(),
        forall|i: int| 0 <= i < spots(e).len() ==> 0 <= (#[trigger] spots(e)[i]) < e.len() && e[spots(e)[i]] == Some(somes(e)[i]),
        forall|j: int| 0 <= j < e.len() && (#[trigger] e[j]) is Some ==> exists|i: int| 0 <= i < spots(e).len() && spots(e)[i] == j,
    decreases e.len()
{
    if e.len() > 0 {
        let l = e.drop_last();
        lemma_spots(l);
        assert forall|i: int| 0 <= i < spots(e).len() implies 0 <= (#[trigger] spots(e)[i]) < e.len() && e[spots(e)[i]] == Some(somes(e)[i]) by {
            if i < spots(l).len() { assert(spots(e)[i] == spots(l)[i]); assert(e[spots(l)[i]] == l[spots(l)[i]]); assert(somes(e)[i] == somes(l)[i]); }
        }
        assert forall|j: int| 0 <= j < e.len() && (#[trigger] e[j]) is Some implies exists|i: int| 0 <= i < spots(e).len() && spots(e)[i] == j by {
            if j < l.len() { assert(l[j] is Some); let i = choose|i: int| 0 <= i < spots(l).len() && spots(l)[i] == j; assert(spots(e)[i] == j); }
            else { assert(spots(e)[spots(e).len() - 1] == j); }
        }
    }
}

/// comparison with stored identifiers is equality of identifiers
pub proof fn lemma_laws<I: Ident>(i: &I)
    ensures I::obeys_eq_spec(), forall|o: &DataIdent| #[trigger] i.eq_spec(o) == (i.ids() == o@)
{
    i.law(&DataIdent::Fourcc(Fourcc([0, 0, 0, 0])));
    assert forall|o: &DataIdent| #[trigger] i.eq_spec(o) == (i.ids() == o@) by { i.law(o); }
}

pub proof fn lemma_items(v: Seq<AtomData>, id: IdS)
    ensures
        views(v).len() == v.len(),
        forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == views(v)[i] && views(v[i].data@) == views(v)[i].data && v[i].ident@ == views(v)[i].id,
        forall|i: int| 0 <= i < v.len() ==> v[i]@ == (#[trigger] views(v)[i]),
        0 <= idx(views(v), id) <= v.len(),
        idx(views(v), id) < v.len() ==> v[idx(views(v), id)].ident@ == id,
        forall|i: int| 0 <= i < idx(views(v), id) ==> (#[trigger] v[i]).ident@ != id,
        forall|k: int, a: AtomData| 0 <= k < v.len() ==> views(#[trigger] v.update(k, a)) == views(v).update(k, a@),
        forall|a: AtomData| views(#[trigger] v.push(a)) == views(v).push(a@),
        forall|k: int| 0 <= k < v.len() ==> views(#[trigger] v.remove(k)) == views(v).remove(k),
{
    lemma_idx(views(v), id);
    assert forall|k: int, a: AtomData| 0 <= k < v.len() implies views(#[trigger] v.update(k, a)) == views(v).update(k, a@) by {
        assert(views(v.update(k, a)) =~= views(v).update(k, a@));
    }
    assert forall|a: AtomData| views(#[trigger] v.push(a)) == views(v).push(a@) by { assert(views(v.push(a)) =~= views(v).push(a@)); }
    assert forall|k: int| 0 <= k < v.len() implies views(#[trigger] v.remove(k)) == views(v).remove(k) by { assert(views(v.remove(k)) =~= views(v).remove(k)); }
    assert forall|i: int| 0 <= i < idx(views(v), id) implies (#[trigger] v[i]).ident@ != id by { assert(views(v)[i].id != id); }
}
/// the same items with the same numbers of values
pub open spec fn shape(t: Seq<ItemS>, f: Seq<ItemS>) -> bool {
    f.len() == t.len() && forall|i: int| 0 <= i < t.len() ==> (#[trigger] f[i]).id == t[i].id && f[i].data.len() == t[i].data.len()
}
/// `x` are the values of `t` to be changed in place, which leaves `f`
#[verifier::prophetic]
pub open spec fn slots(t: Seq<(IdS, DataS)>, f: Seq<(IdS, DataS)>, x: Seq<(&DataIdent, &mut Data)>) -> bool {
    x.len() == t.len() && f.len() == t.len() && forall|i: int| #![trigger x[i]] #![trigger f[i]] 0 <= i < x.len() ==>
        x[i].0@ == t[i].0 && (*x[i].1)@ == t[i].1 && f[i] == (t[i].0, (*final(x[i].1))@)
}
#[verifier::prophetic]
pub open spec fn pieces_mut(t: Seq<ItemS>, f: Seq<ItemS>, o: Seq<MIt<(&DataIdent, &mut Data)>>) -> bool {
    o.len() == t.len() && f.len() == t.len() && forall|i: int| #![trigger o[i]] #![trigger f[i]] 0 <= i < t.len() ==> slots(pairs1(t[i]), pairs1(f[i]), o[i]@)
}
pub proof fn lemma_pieces_mut1(t: Seq<ItemS>, f: Seq<ItemS>, o: Seq<MIt<(&DataIdent, &mut Data)>>)
    requires pieces_mut(t, f, o)
    ensures slots(pairs(t), pairs(f), flat(units(o)))
    decreases t.len()
{
    if t.len() > 0 {
        let n = t.len() - 1;
        assert(slots(pairs1(t[n]), pairs1(f[n]), o[n]@));
        assert(pieces_mut(t.drop_last(), f.drop_last(), o.drop_last())) by {
            assert forall|i: int| 0 <= i < n implies slots(pairs1(#[trigger] t.drop_last()[i]), pairs1(f.drop_last()[i]), o.drop_last()[i]@) by {
                assert(slots(pairs1(t[i]), pairs1(f[i]), o[i]@));
            }
        }
        lemma_pieces_mut1(t.drop_last(), f.drop_last(), o.drop_last());
        assert(units(o.drop_last()) =~= units(o).drop_last());
    }
}
pub proof fn lemma_pieces_mut(t: Seq<ItemS>)
    ensures forall|o: Seq<MIt<(&DataIdent, &mut Data)>>, f: Seq<ItemS>| #![trigger units(o), pairs(f)] pieces_mut(t, f, o) ==> slots(pairs(t), pairs(f), flat(units(o)))
{
    assert forall|o: Seq<MIt<(&DataIdent, &mut Data)>>, f: Seq<ItemS>| #![trigger units(o), pairs(f)] pieces_mut(t, f, o) implies slots(pairs(t), pairs(f), flat(units(o))) by { lemma_pieces_mut1(t, f, o); }
}
pub proof fn lemma_spots_same<T, U>(e: Seq<Option<T>>, o: Seq<Option<U>>)
    requires o.len() == e.len(), forall|i: int| 0 <= i < o.len() ==> ((#[trigger] o[i]) is Some) == (e[i] is Some)
    ensures spots(e) == spots(o)
    decreases e.len()
{
    if e.len() > 0 {
        assert(o[o.len() - 1] is Some == e[e.len() - 1] is Some);
        assert forall|i: int| 0 <= i < o.len() - 1 implies ((#[trigger] o.drop_last()[i]) is Some) == (e.drop_last()[i] is Some) by { assert(o[i] is Some == e[i] is Some); }
        lemma_spots_same(e.drop_last(), o.drop_last());
    }
}
pub open spec fn alike<T, U>(e: Seq<Option<T>>, o: Seq<Option<U>>) -> bool {
    o.len() == e.len() && forall|i: int| 0 <= i < o.len() ==> ((#[trigger] o[i]) is Some) == (e[i] is Some)
}
pub open spec fn spotted<T, U>(e: Seq<Option<T>>, o: Seq<Option<U>>) -> bool {
    spots(e).len() == somes(o).len()
        && forall|i: int| 0 <= i < spots(e).len() ==> 0 <= (#[trigger] spots(e)[i]) < e.len() && o[spots(e)[i]] == Some(somes(o)[i])
}
pub proof fn lemma_spots_of<T, U>(e: Seq<Option<T>>)
    ensures forall|o: Seq<Option<U>>| #![trigger somes(o)] alike(e, o) ==> spotted(e, o)
{
    assert forall|o: Seq<Option<U>>| #![trigger somes(o)] alike(e, o) implies spotted(e, o) by { lemma_spots_same(e, o); lemma_spots(o); }
}
/// `r` are the byte values of `t` with the identifier to be changed in place, which leaves `f`
#[verifier::prophetic]
pub open spec fn byte_slots(t: Seq<ItemS>, f: Seq<ItemS>, id: IdS, r: Seq<&mut Vec<u8>>) -> bool {
    let k = idx(t, id);
    let sp = spots(t[k].data.map_values(|d: DataS| bytes_s(d)));
    &&& k == t.len() ==> r.len() == 0 && f == t
    &&& k < t.len() ==> edited(t, f, k) && r.len() == sp.len()
    &&& k < t.len() ==> forall|i: int| 0 <= i < r.len() ==> Some((*(#[trigger] r[i]))@) == bytes_s(t[k].data[sp[i]]) && f[k].data[sp[i]] == put_bytes(t[k].data[sp[i]], (*final(r[i]))@)
    &&& k < t.len() ==> forall|i: int| 0 <= i < t[k].data.len() && bytes_s(t[k].data[i]) is None ==> #[trigger] f[k].data[i] == t[k].data[i]
}

// ===================================================================== the items keep their identity
/// every item has a value and an identifier of its own
pub open spec fn item_list(t: Seq<ItemS>) -> bool { distinct(t) && full(t) }
pub proof fn lemma_filter_all<T>(s: Seq<T>, p: spec_fn(T) -> bool)
    requires forall|i: int| 0 <= i < s.len() ==> p(#[trigger] s[i])
    ensures s.filter(p) == s
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        assert(p(s[s.len() - 1]));
        assert forall|i: int| 0 <= i < s.len() - 1 implies p(#[trigger] s.drop_last()[i]) by { assert(p(s[i])); }
        lemma_filter_all(s.drop_last(), p);
        assert(s.drop_last().push(s.last()) =~= s);
    } else { assert(s.filter(p) =~= s); }
}
/// filtering out a single element
pub proof fn lemma_filter_one<T>(s: Seq<T>, p: spec_fn(T) -> bool, k: int)
    requires 0 <= k < s.len(), !p(s[k]), forall|i: int| 0 <= i < s.len() && i != k ==> p(#[trigger] s[i])
    ensures s.filter(p) == s.remove(k)
    decreases s.len()
{
    reveal(Seq::filter);
    let d = s.drop_last();
    if k == s.len() - 1 {
        assert forall|i: int| 0 <= i < d.len() implies p(#[trigger] d[i]) by { assert(p(s[i])); }
        lemma_filter_all(d, p);
        assert(d =~= s.remove(k));
    } else {
        assert(p(s[s.len() - 1]));
        assert forall|i: int| 0 <= i < d.len() && i != k implies p(#[trigger] d[i]) by { assert(p(s[i])); }
        lemma_filter_one(d, p, k);
        assert(d.remove(k).push(s.last()) =~= s.remove(k));
    }
}
/// removing all items with an identifier removes the only one
pub proof fn lemma_erase(t: Seq<ItemS>, id: IdS)
    requires distinct(t)
    ensures erase(t, id) == without(t, id), //@P10
{
    lemma_idx(t, id);
    let k = idx(t, id);
    let p = |i: ItemS| i.id != id;
    if k < t.len() {
        assert forall|i: int| 0 <= i < t.len() && i != k implies p(#[trigger] t[i]) by {}
        lemma_filter_one(t, p, k);
    } else { lemma_filter_all(t, p); }
}
/// set_all_data and add_all_data: nothing but the addressed item changes
pub proof fn lemma_nonempty(t: Seq<ItemS>, id: IdS, d: Seq<DataS>)
    requires full(t)
    ensures nonempty(put(t, id, d)) == (if d.len() > 0 { put(t, id, d) } else { without(t, id) }), //@P10
{
    lemma_idx(t, id);
    let p = |i: ItemS| i.data.len() > 0;
    let u = put(t, id, d);
    let k = idx(t, id);
    if d.len() > 0 { lemma_filter_all(u, p); }
    else {
        lemma_filter_one(u, p, k);
        assert(u.remove(k) =~= without(t, id));
    }
}
/// the other items keep their values
pub proof fn lemma_put(t: Seq<ItemS>, id: IdS, d: Seq<DataS>)
    ensures
        data_of(put(t, id, d), id) == d, //@P10
        forall|o: IdS| o != id ==> data_of(put(t, id, d), o) == #[trigger] data_of(t, o), //@P10
        distinct(t) ==> distinct(put(t, id, d)), //@P10
        full(t) && d.len() > 0 ==> full(put(t, id, d)), //@P10
{
    let u = put(t, id, d);
    lemma_idx(t, id);
    lemma_idx_is(u, id, idx(t, id));
    assert forall|o: IdS| o != id implies data_of(u, o) == #[trigger] data_of(t, o) by {
        lemma_idx(t, o);
        lemma_idx(u, o);
        let k = idx(t, o);
        if k < t.len() { lemma_idx_is(u, o, k); } else { lemma_idx_is(u, o, u.len() as int); }
    }
}
pub proof fn lemma_without(t: Seq<ItemS>, id: IdS)
    requires distinct(t)
    ensures
        data_of(without(t, id), id).len() == 0, //@P10
        forall|o: IdS| o != id ==> data_of(without(t, id), o) == #[trigger] data_of(t, o), //@P10
        distinct(without(t, id)), //@P10
        full(t) ==> full(without(t, id)), //@P10
{
    let u = without(t, id);
    let k = idx(t, id);
    lemma_idx(t, id);
    lemma_idx(u, id);
    if k < t.len() {
        assert forall|i: int| 0 <= i < u.len() implies #[trigger] u[i] == t[if i < k { i } else { i + 1 }] by {}
        assert forall|o: IdS| o != id implies data_of(u, o) == #[trigger] data_of(t, o) by {
            lemma_idx(t, o);
            let j = idx(t, o);
            if j == t.len() { lemma_idx_is(u, o, u.len() as int); } else {
                lemma_idx_is(u, o, if j < k { j } else { j - 1 });
            }
        }
    }
}
/// filtering the values of one item
pub proof fn lemma_put_or_drop(t: Seq<ItemS>, id: IdS, d: Seq<DataS>)
    requires distinct(t), idx(t, id) < t.len()
    ensures
        data_of(put_or_drop(t, idx(t, id), d), id) == d, //@P10
        forall|o: IdS| o != id ==> data_of(put_or_drop(t, idx(t, id), d), o) == #[trigger] data_of(t, o), //@P10
        distinct(put_or_drop(t, idx(t, id), d)), //@P10
        full(t) ==> full(put_or_drop(t, idx(t, id), d)), //@P10
{
    lemma_idx(t, id);
    if d.len() == 0 { lemma_without(t, id); assert(data_of(without(t, id), id) =~= d); } else { lemma_put(t, id, d); }
}
/// filtering the values of all items keeps the identifiers apart
pub proof fn lemma_retained_all(t: Seq<ItemS>, keep: Seq<Seq<bool>>)
    requires distinct(t), keep.len() == t.len()
    ensures
        distinct(retained_all(t, keep)), //@P10
        full(retained_all(t, keep)), //@P10
        forall|i: int| 0 <= i < retained_all(t, keep).len() ==> exists|j: int| 0 <= j < t.len() && (#[trigger] retained_all(t, keep)[i]) == #[trigger] with_data(t[j], kept(t[j].data, keep[j])), //@P10
    decreases t.len()
{
    if t.len() > 0 {
        let l = t.drop_last();
        let kl = keep.drop_last();
        let p = retained_all(l, kl);
        lemma_retained_all(l, kl);
        let u = retained_all(t, keep);
        let n = t.len() - 1;
        assert forall|i: int| 0 <= i < u.len() implies exists|j: int| 0 <= j < t.len() && (#[trigger] u[i]) == #[trigger] with_data(t[j], kept(t[j].data, keep[j])) by {
            if i < p.len() {
                let j = choose|j: int| 0 <= j < l.len() && p[i] == with_data(l[j], kept(l[j].data, kl[j]));
                assert(u[i] == with_data(t[j], kept(t[j].data, keep[j])));
            } else { assert(u[i] == with_data(t[n], kept(t[n].data, keep[n]))); }
        }
        assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).id != t[n].id by {
            let j = choose|j: int| 0 <= j < l.len() && p[i] == with_data(l[j], kept(l[j].data, kl[j]));
            assert(t[j].id == p[i].id);
        }
    }
}
pub proof fn lemma_edited(t: Seq<ItemS>, f: Seq<ItemS>, k: int)
    requires 0 <= k < t.len(), edited(t, f, k)
    ensures distinct(t) ==> distinct(f), full(t) ==> full(f), //@P10
{
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] f[i]).id == t[i].id && f[i].data.len() == t[i].data.len() by {}
}
pub proof fn lemma_shape(t: Seq<ItemS>, f: Seq<ItemS>)
    requires shape(t, f)
    ensures distinct(t) ==> distinct(f), full(t) ==> full(f), //@P10
{}
} // mod tg
=== mod tag
impl View for Tag {
    type V = Seq<ItemS>;
    open spec fn view(&self) -> Seq<ItemS> { views(self.atoms@) }
}
impl Tag {
    /// what no edit of the items touches
    pub open spec fn rest(&self) -> (Seq<char>, AudioInfo) { (self.ftyp@, self.info) }
}
=== fn tag::Tag::read_from
    requires swf(old(reader))
    ensures
        swf(final(reader)), same(final(reader), old(reader)),
        r is Ok && file_wf(old(reader).data().skip(old(reader).pos())) ==> tag_is(r->Ok_0, old(reader).data().skip(old(reader).pos())), //@P15 //@P16
        old(reader).reliable() && old(reader).pos() <= old(reader).data().len()
            && file_wf(old(reader).data().skip(old(reader).pos())) ==> r is Ok, //@P15 //@P16
=== fn tag::Tag::write_to
    requires
        0 <= old(file).cursor() <= u64::MAX, !old(file).pending(), items_fit(self@),
        old(file).content().len() + ser_items(self@).len() + 1000 < lim(),
    ensures
        r is Err && old(file).faultless() ==> final(file).content() == old(file).content(), //@P07
        r is Ok ==> exists|m: crate::atom::MoovBounds, q: int, v: Seq<crate::atom::Stco>, w: Seq<crate::atom::Co64>| #[trigger] tables(m, q, v, w, old(file).content())
            && final(file).content() == outcome(old(file).content(), m, v, w, self@) //@P03 //@P04 //@P05
            && (old(file).cursor() == 0 && crate::wr::good_file(old(file).content()) ==> crate::wr::found(old(file).content(), m, q) && old_start(m) <= old_end(m)), //@P01 //@P03 //@P04 //@P05
        old(file).faultless() && old(file).cursor() == 0 && crate::wr::good_file(old(file).content()) ==> r is Ok, //@P01 //@P07
        r is Ok && old(file).cursor() == 0 && crate::wr::good_file(old(file).content()) && crate::ls::storable(self@) && crate::wr::room(old(file).content(), self@)
            ==> crate::wr::written(old(file).content(), final(file).content(), self@), //@P01 //@P03 //@P04 //@P05
--- at start
    let ghost d = file.content();
    let ghost good = file.cursor() == 0 && crate::wr::good_file(d) && crate::ls::storable(self@) && crate::wr::room(d, self@);
--- at end
    proof {
        if __r is Ok && good {
            let (m, q, v, w) = choose|m: crate::atom::MoovBounds, q: int, v: Seq<crate::atom::Stco>, w: Seq<crate::atom::Co64>| #[trigger] tables(m, q, v, w, d)
                && file.content() == outcome(d, m, v, w, self@) && crate::wr::found(d, m, q) && old_start(m) <= old_end(m);
            crate::wr::lemma_written(d, m, q, v, w, self@);
        }
    }
=== fn tag::Tag::dump_to
    requires old(writer).pos() >= 0, items_fit(self@)
    ensures
        final(writer).reliable() == old(writer).reliable(), final(writer).tail() == old(writer).tail(), final(writer).pos() >= 0,
        r is Ok ==> wrote(old(writer), final(writer), dump_of(self@)), //@P02 //@P08
        old(writer).reliable() ==> r is Ok,
        crate::ls::storable(self@) ==> file_wf(dump_of(self@)) && items_of(moov_of(dump_of(self@))) == self@, //@P02
--- at start
    proof { if crate::ls::storable(self@) { crate::rt::lemma_dump(self@); } }
=== fn tag::Tag::data_of
    ensures views(r@) == data_of(self@, ident.ids()), //@P10
--- closure 0 &&AtomData -> (x: bool)
    ensures x == (ident.ids() == (**__c0)@.id)
--- at start
    proof { lemma_laws(ident); lemma_items(self.atoms@, ident.ids()); }
--- at end
    proof {
        assert(views(__r@) =~= data_of(self@, ident.ids()));
    }
=== fn tag::Tag::data_mut_of
    ensures
        final(self).rest() == old(self).rest(),
        idx(old(self)@, ident.ids()) == old(self)@.len() ==> r@.len() == 0 && final(self)@ == old(self)@, //@P10
        idx(old(self)@, ident.ids()) < old(self)@.len() ==> {
            let k = idx(old(self)@, ident.ids());
            let t = old(self)@;
            let f = final(self)@;
            &&& edited(t, f, k) && r@.len() == t[k].data.len()
            &&& forall|i: int| #![trigger r@[i]] #![trigger f[k].data[i]] 0 <= i < r@.len() ==> (*r@[i])@ == t[k].data[i] && (*final(r@[i]))@ == f[k].data[i]
        }, //@P10
--- closure 0 &AtomData -> (x: bool)
    ensures x == (ident.ids() == __c0@.id)
--- at start
    proof { lemma_laws(ident); lemma_items(self.atoms@, ident.ids()); }
=== fn tag::Tag::take_data_of
    ensures
        final(self).rest() == old(self).rest(),
        views(r@) == data_of(old(self)@, ident.ids()), //@P10
        final(self)@ == without(old(self)@, ident.ids()), //@P10
--- loop 0
    invariant
        *self == *old(self), i <= self.atoms@.len(),
        forall|j: int| 0 <= j < i ==> (#[trigger] self@[j]).id != ident.ids(),
    decreases self.atoms@.len() - i
--- at start
    proof { lemma_laws(ident); lemma_items(self.atoms@, ident.ids()); }
--- at loop 0 start
    proof {
        let k = i as int;
        lemma_laws(ident);
        lemma_items(self.atoms@, ident.ids());
        assert(self.atoms@[k]@ == self@[k]);
        if self@[k].id == ident.ids() { lemma_idx_is(self@, ident.ids(), k); }
    }
--- at end
    proof { lemma_idx_is(self@, ident.ids(), self@.len() as int); assert(views(__r@) =~= data_of(self@, ident.ids())); }
=== fn tag::Tag::bytes_of
    ensures views(r@) == bytes_of(self@, ident.ids()), //@P10
--- at start
    proof { lemma_fm::<&[u8]>(data_of(self@, ident.ids()).map_values(|d: DataS| bytes_s(d))); }
=== fn tag::Tag::strings_of
    ensures views(r@) == strings_of(self@, ident.ids()), //@P10
--- at start
    proof { lemma_fm::<&str>(data_of(self@, ident.ids()).map_values(|d: DataS| string_s(d))); }
=== fn tag::Tag::images_of
    ensures views(r@) == images_of(self@, ident.ids()), //@P10
--- at start
    proof { lemma_fm::<ImgRef>(data_of(self@, ident.ids()).map_values(|d: DataS| image_s(d))); }
=== fn tag::Tag::take_bytes_of
    ensures
        final(self).rest() == old(self).rest(),
        views(r@) == bytes_of(old(self)@, ident.ids()), //@P10
        final(self)@ == without(old(self)@, ident.ids()), //@P10
--- at start
    proof { lemma_fm::<Vec<u8>>(data_of(old(self)@, ident.ids()).map_values(|d: DataS| bytes_s(d))); }
=== fn tag::Tag::take_strings_of
    ensures
        final(self).rest() == old(self).rest(),
        views(r@) == strings_of(old(self)@, ident.ids()), //@P10
        final(self)@ == without(old(self)@, ident.ids()), //@P10
--- at start
    proof { lemma_fm::<String>(data_of(old(self)@, ident.ids()).map_values(|d: DataS| string_s(d))); }
=== fn tag::Tag::take_images_of
    ensures
        final(self).rest() == old(self).rest(),
        views(r@) == images_of(old(self)@, ident.ids()), //@P10
        final(self)@ == without(old(self)@, ident.ids()), //@P10
--- at start
    proof { lemma_fm::<ImgBuf>(data_of(old(self)@, ident.ids()).map_values(|d: DataS| image_s(d))); }
=== fn tag::Tag::remove_data_of
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == erase(old(self)@, ident.ids()), //@P10
--- closure 0 &AtomData -> (x: bool)
    ensures x == (ident.ids() != __c0@.id)
--- at start
    proof {
        lemma_laws(ident);
        lemma_kept(self.atoms@, |a: AtomData| a@.id != ident.ids());
        lemma_filter_views(self.atoms@, |a: AtomData| a@.id != ident.ids(), |i: ItemS| i.id != ident.ids());
    }
=== fn tag::Tag::clear
    ensures final(self).rest() == old(self).rest(), final(self)@ == Seq::<ItemS>::empty(), //@P10
=== fn tag::Tag::is_empty
    ensures r == (self@.len() == 0), //@P10
=== fn tag::Tag::set_data
    requires ident.ids() == ident.into_view()
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == put(old(self)@, ident.ids(), seq![data@]), //@P10
--- closure 0 &AtomData -> (x: bool)
    ensures x == (ident.ids() == __c0@.id)
--- at start
    proof { lemma_laws(&ident); lemma_items(self.atoms@, ident.ids()); }
--- at end
    proof { let k = idx(old(self)@, ident.ids());
        assert(self@[k].data =~= seq![data@]);
        assert(self@ =~= put(old(self)@, ident.ids(), seq![data@])); }
=== fn tag::Tag::add_data
    requires ident.ids() == ident.into_view()
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == put(old(self)@, ident.ids(), data_of(old(self)@, ident.ids()).push(data@)), //@P10
--- closure 0 &AtomData -> (x: bool)
    ensures x == (ident.ids() == __c0@.id)
--- at start
    proof { lemma_laws(&ident); lemma_items(self.atoms@, ident.ids()); }
--- at end
    proof { let k = idx(old(self)@, ident.ids());
        assert(self@[k].data =~= data_of(old(self)@, ident.ids()).push(data@));
        assert(self@ =~= put(old(self)@, ident.ids(), data_of(old(self)@, ident.ids()).push(data@))); }
=== fn tag::Tag::set_all_data
    requires ident.ids() == ident.into_view()
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == nonempty(put(old(self)@, ident.ids(), views(data@))), //@P10
--- closure 0 &AtomData -> (x: bool)
    ensures x == (ident.ids() == __c0@.id)
--- closure 1 &AtomData -> (x: bool)
    ensures x == (__c0@.data.len() > 0)
--- at start
    proof { lemma_laws(&ident); lemma_items(self.atoms@, ident.ids()); }
--- at before call retain 0
    proof {
        let k = idx(old(self)@, ident.ids());
        assert(self@[k].data =~= views(data@));
        assert(self@ =~= put(old(self)@, ident.ids(), views(data@)));
        lemma_kept(self.atoms@, |a: AtomData| a@.data.len() > 0);
        lemma_filter_views(self.atoms@, |a: AtomData| a@.data.len() > 0, |i: ItemS| i.data.len() > 0);
    }
=== fn tag::Tag::add_all_data
    requires ident.ids() == ident.into_view()
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == nonempty(put(old(self)@, ident.ids(), data_of(old(self)@, ident.ids()) + views(data@))), //@P10
--- closure 0 &AtomData -> (x: bool)
    ensures x == (ident.ids() == __c0@.id)
--- closure 1 &AtomData -> (x: bool)
    ensures x == (__c0@.data.len() > 0)
--- at start
    proof { lemma_laws(&ident); lemma_items(self.atoms@, ident.ids()); }
--- at before call retain 0
    proof {
        let k = idx(old(self)@, ident.ids());
        assert(self@[k].data =~= data_of(old(self)@, ident.ids()) + views(data@));
        assert(self@ =~= put(old(self)@, ident.ids(), data_of(old(self)@, ident.ids()) + views(data@)));
        lemma_kept(self.atoms@, |a: AtomData| a@.data.len() > 0);
        lemma_filter_views(self.atoms@, |a: AtomData| a@.data.len() > 0, |i: ItemS| i.data.len() > 0);
    }
=== fn tag::Tag::retain_data_of
    requires forall|x: &Data| call_requires(predicate, (x,))
    ensures
        final(self).rest() == old(self).rest(),
        idx(old(self)@, ident.ids()) == old(self)@.len() ==> final(self)@ == old(self)@, //@P10
        idx(old(self)@, ident.ids()) < old(self)@.len() ==> exists|keep: Seq<bool>|
            #[trigger] retain_outs(predicate, old(self).atoms@[idx(old(self)@, ident.ids())].data@, keep)
            && final(self)@ == retained(old(self)@, ident.ids(), keep), //@P10
--- closure 0 &AtomData -> (x: bool)
    ensures x == (ident.ids() == __c0@.id)
--- at start
    proof {
        lemma_laws(ident);
        lemma_items(self.atoms@, ident.ids());
        let k = idx(self@, ident.ids());
        if k < self@.len() { lemma_kept_viewss(self.atoms@[k].data@); }
    }
=== fn tag::Tag::retain_data
    requires forall|x: &DataIdent, y: &Data| call_requires(predicate, (x, y))
    ensures
        final(self).rest() == old(self).rest(),
        exists|keep: Seq<Seq<bool>>| keep.len() == old(self)@.len()
            && (forall|k: int| 0 <= k < keep.len() ==> keeps(predicate, old(self).atoms@[k], #[trigger] keep[k]))
            && final(self)@ == #[trigger] retained_all(old(self)@, keep), //@P10
--- at start
    let ghost t0 = self.atoms@;
    let ghost mut kk = 0int;
    let ghost mut keep = Seq::<Seq<bool>>::empty();
--- loop 0
    invariant
        forall|x: &DataIdent, y: &Data| call_requires(predicate, (x, y)),
        self.rest() == old(self).rest(), t0 == old(self).atoms@,
        i <= self.atoms@.len(), 0 <= kk <= t0.len(), keep.len() == kk,
        self.atoms@.skip(i as int) == t0.skip(kk), t0.len() - kk == self.atoms@.len() - i,
        views(self.atoms@.take(i as int)) == retained_all(views(t0).take(kk), keep),
        forall|k: int| 0 <= k < keep.len() ==> keeps(predicate, t0[k], #[trigger] keep[k]),
    decreases self.atoms@.len() - i
--- at loop 0 start
    let ghost mut kp = Seq::<bool>::empty();
    let ghost mut m = 0int;
    let ghost a0 = self.atoms@;
    let ghost i0 = i as int;
    proof { assert(self.atoms@.skip(i0).len() == t0.skip(kk).len()); assert(self.atoms@[i0] == self.atoms@.skip(i0)[0]); assert(t0.skip(kk)[0] == t0[kk]); }
--- loop 1
    invariant
        forall|x: &DataIdent, y: &Data| call_requires(predicate, (x, y)),
        0 <= kk < t0.len(), a.ident == t0[kk].ident,
        j <= a.data@.len(), 0 <= m <= t0[kk].data@.len(), kp.len() == m,
        a.data@.skip(j as int) == t0[kk].data@.skip(m),
        a.data@.take(j as int) == kept(t0[kk].data@.take(m), kp),
        forall|k: int| 0 <= k < m ==> call_ensures(predicate, (&t0[kk].ident, &t0[kk].data@[k]), #[trigger] kp[k]),
    decreases a.data@.len() - j
--- at loop 1 start
    let ghost j0 = j as int;
    let ghost d0 = a.data@;
    proof {
        assert(d0.skip(j0).len() == t0[kk].data@.skip(m).len());
        assert(d0[j0] == d0.skip(j0)[0]);
        assert(t0[kk].data@.skip(m)[0] == t0[kk].data@[m]);
    }
--- at loop 1 end
    proof {
        let kp0 = kp;
        kp = kp.push(j > j0);
        m = m + 1;
        let d = t0[kk].data@;
        assert(d.take(m).drop_last() =~= d.take(m - 1));
        assert(kp.drop_last() =~= kp0);
        assert(d.skip(m) =~= d.skip(m - 1).skip(1));
        assert(a.data@.skip(j as int) =~= d0.skip(j0).skip(1));
        assert(kp.last() == (j > j0));
        assert(d.take(m).last() == d[m - 1]);
        assert(kept(d.take(m).drop_last(), kp.drop_last()) == d0.take(j0));
        assert(kept(d.take(m), kp) == if j > j0 { d0.take(j0).push(d0[j0]) } else { d0.take(j0) });
        assert(a.data@.take(j as int) =~= kept(d.take(m), kp));
    }
--- at after loop 1
    proof {
        let d = t0[kk].data@;
        assert(m == d.len()) by { if m < d.len() { assert(d.skip(m).len() > 0); } }
        assert(d.take(m) =~= d);
        assert(a.data@.take(j as int) =~= a.data@);
        lemma_kept_views(d, kp);
    }
--- at loop 0 end
    proof {
        let o = t0[kk];
        let p = views(t0);
        kk = kk + 1;
        let keep0 = keep;
        keep = keep.push(kp);
        assert(p.take(kk).drop_last() =~= p.take(kk - 1));
        assert(p.take(kk).last() == o@);
        assert(keep.drop_last() =~= keep0 && keep.last() == kp);
        assert(t0.skip(kk) =~= t0.skip(kk - 1).skip(1));
        assert(self.atoms@.skip(i as int) =~= a0.skip(i0).skip(1));
        if i == i0 {
            assert(self.atoms@.take(i as int) =~= a0.take(i0));
        } else {
            assert(self.atoms@.take(i as int) =~= a0.take(i0).push(self.atoms@[i0]));
            assert(views(self.atoms@.take(i as int)) =~= views(a0.take(i0)).push(self.atoms@[i0]@));
            assert(self.atoms@[i0]@ == with_data(o@, kept(o@.data, kp)));
        }
        assert(keeps(predicate, t0[kk - 1], kp));
    }
--- at end
    proof {
        assert(kk == t0.len()) by { if kk < t0.len() { assert(t0.skip(kk).len() > 0); assert(self.atoms@.skip(i as int).len() == 0); } }
        assert(self.atoms@.take(i as int) =~= self.atoms@);
        assert(views(t0).take(kk) =~= views(t0));
        assert(self@ == retained_all(old(self)@, keep));
    }
=== fn tag::Tag::remove_bytes_of
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == filtered(old(self)@, ident.ids(), |d: DataS| bytes_s(d) is None), //@P10
--- closure 0 &Data -> (x: bool)
    ensures x == (bytes_s(__c0@) is None)
--- at start
    proof {
        lemma_items(self.atoms@, ident.ids());
        lemma_kept(data_of(self@, ident.ids()), |d: DataS| bytes_s(d) is None);
    }
=== fn tag::Tag::retain_bytes_of
    requires forall|x: &[u8]| call_requires(predicate, (x,))
    ensures
        final(self).rest() == old(self).rest(),
        idx(old(self)@, ident.ids()) == old(self)@.len() ==> final(self)@ == old(self)@, //@P10
        idx(old(self)@, ident.ids()) < old(self)@.len() ==> exists|keep: Seq<bool>|
            keeps_bytes(predicate, data_of(old(self)@, ident.ids()), keep)
            && final(self)@ == #[trigger] retained(old(self)@, ident.ids(), keep), //@P10
--- closure 0 &Data -> (x: bool)
    ensures x || bytes_s(__c0@) is Some, bytes_s(__c0@) is Some ==> says_bytes(predicate, bytes_s(__c0@)->Some_0, x)
--- closure 1 &[u8] -> (x: bool)
    requires call_requires(predicate, (__c0,))
    ensures call_ensures(predicate, (__c0,), x)
--- at start
    proof { lemma_items(self.atoms@, ident.ids()); }
=== fn tag::Tag::remove_strings_of
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == filtered(old(self)@, ident.ids(), |d: DataS| string_s(d) is None), //@P10
--- closure 0 &Data -> (x: bool)
    ensures x == (string_s(__c0@) is None)
--- at start
    proof {
        lemma_items(self.atoms@, ident.ids());
        lemma_kept(data_of(self@, ident.ids()), |d: DataS| string_s(d) is None);
    }
=== fn tag::Tag::retain_strings_of
    requires forall|x: &str| call_requires(predicate, (x,))
    ensures
        final(self).rest() == old(self).rest(),
        idx(old(self)@, ident.ids()) == old(self)@.len() ==> final(self)@ == old(self)@, //@P10
        idx(old(self)@, ident.ids()) < old(self)@.len() ==> exists|keep: Seq<bool>|
            keeps_strings(predicate, data_of(old(self)@, ident.ids()), keep)
            && final(self)@ == #[trigger] retained(old(self)@, ident.ids(), keep), //@P10
--- closure 0 &Data -> (x: bool)
    ensures x || string_s(__c0@) is Some, string_s(__c0@) is Some ==> says_strings(predicate, string_s(__c0@)->Some_0, x)
--- closure 1 &str -> (x: bool)
    requires call_requires(predicate, (__c0,))
    ensures call_ensures(predicate, (__c0,), x)
--- at start
    proof { lemma_items(self.atoms@, ident.ids()); }
=== fn tag::Tag::remove_images_of
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == filtered(old(self)@, ident.ids(), |d: DataS| image_s(d) is None), //@P10
--- closure 0 &Data -> (x: bool)
    ensures x == (image_s(__c0@) is None)
--- at start
    proof {
        lemma_items(self.atoms@, ident.ids());
        lemma_kept(data_of(self@, ident.ids()), |d: DataS| image_s(d) is None);
    }
=== fn tag::Tag::retain_images_of
    requires forall|x: ImgRef| call_requires(predicate, (x,))
    ensures
        final(self).rest() == old(self).rest(),
        idx(old(self)@, ident.ids()) == old(self)@.len() ==> final(self)@ == old(self)@, //@P10
        idx(old(self)@, ident.ids()) < old(self)@.len() ==> exists|keep: Seq<bool>|
            keeps_images(predicate, data_of(old(self)@, ident.ids()), keep)
            && final(self)@ == #[trigger] retained(old(self)@, ident.ids(), keep), //@P10
--- closure 0 &Data -> (x: bool)
    ensures x || image_s(__c0@) is Some, image_s(__c0@) is Some ==> says_images(predicate, image_s(__c0@)->Some_0, x)
--- closure 1 ImgRef -> (x: bool)
    requires call_requires(predicate, (__c0,))
    ensures call_ensures(predicate, (__c0,), x)
--- at start
    proof { lemma_items(self.atoms@, ident.ids()); }
=== fn tag::Tag::retain_bytes
    requires forall|x: &DataIdent, y: &[u8]| call_requires(predicate, (x, y))
    ensures
        final(self).rest() == old(self).rest(),
        exists|keep: Seq<Seq<bool>>| keep.len() == old(self)@.len()
            && (forall|k: int| 0 <= k < keep.len() ==> keeps_bytes_in(predicate, old(self)@[k], #[trigger] keep[k]))
            && final(self)@ == #[trigger] retained_all(old(self)@, keep), //@P10
--- closure 0 &DataIdent, &Data -> (x: bool)
    ensures x || bytes_s(__c1@) is Some, bytes_s(__c1@) is Some ==> says_bytes_for(predicate, __c0@, bytes_s(__c1@)->Some_0, x)
--- closure 1 &[u8] -> (x: bool)
    requires call_requires(predicate, (i, __c0))
    ensures call_ensures(predicate, (i, __c0), x)
=== fn tag::Tag::retain_strings
    requires forall|x: &DataIdent, y: &str| call_requires(predicate, (x, y))
    ensures
        final(self).rest() == old(self).rest(),
        exists|keep: Seq<Seq<bool>>| keep.len() == old(self)@.len()
            && (forall|k: int| 0 <= k < keep.len() ==> keeps_strings_in(predicate, old(self)@[k], #[trigger] keep[k]))
            && final(self)@ == #[trigger] retained_all(old(self)@, keep), //@P10
--- closure 0 &DataIdent, &Data -> (x: bool)
    ensures x || string_s(__c1@) is Some, string_s(__c1@) is Some ==> says_strings_for(predicate, __c0@, string_s(__c1@)->Some_0, x)
--- closure 1 &str -> (x: bool)
    requires call_requires(predicate, (i, __c0))
    ensures call_ensures(predicate, (i, __c0), x)
=== fn tag::Tag::retain_images
    requires forall|x: &DataIdent, y: ImgRef| call_requires(predicate, (x, y))
    ensures
        final(self).rest() == old(self).rest(),
        exists|keep: Seq<Seq<bool>>| keep.len() == old(self)@.len()
            && (forall|k: int| 0 <= k < keep.len() ==> keeps_images_in(predicate, old(self)@[k], #[trigger] keep[k]))
            && final(self)@ == #[trigger] retained_all(old(self)@, keep), //@P10
--- closure 0 &DataIdent, &Data -> (x: bool)
    ensures x || image_s(__c1@) is Some, image_s(__c1@) is Some ==> says_images_for(predicate, __c0@, image_s(__c1@)->Some_0, x)
--- closure 1 ImgRef -> (x: bool)
    requires call_requires(predicate, (i, __c0))
    ensures call_ensures(predicate, (i, __c0), x)
=== fn tag::Tag::bytes_mut_of
    ensures
        final(self).rest() == old(self).rest(),
        byte_slots(old(self)@, final(self)@, ident.ids(), r@), //@P10
--- at start
    proof { lemma_items(self.atoms@, ident.ids()); lemma_spots_of::<_, &mut Vec<u8>>(data_of(self@, ident.ids()).map_values(|d: DataS| bytes_s(d))); }
=== fn tag::Tag::strings_mut_of
    ensures
        final(self).rest() == old(self).rest(),
        idx(old(self)@, ident.ids()) == old(self)@.len() ==> r@.len() == 0 && final(self)@ == old(self)@, //@P10
        idx(old(self)@, ident.ids()) < old(self)@.len() ==> {
            let k = idx(old(self)@, ident.ids());
            let t = old(self)@;
            let f = final(self)@;
            let sp = spots(t[k].data.map_values(|d: DataS| string_s(d)));
            &&& edited(t, f, k) && r@.len() == sp.len()
            &&& forall|i: int| 0 <= i < r@.len() ==> Some((*(#[trigger] r@[i]))@) == string_s(t[k].data[sp[i]]) && f[k].data[sp[i]] == put_string(t[k].data[sp[i]], (*final(r@[i]))@)
            &&& forall|i: int| 0 <= i < t[k].data.len() && string_s(t[k].data[i]) is None ==> #[trigger] f[k].data[i] == t[k].data[i]
        }, //@P10
--- at start
    proof { lemma_items(self.atoms@, ident.ids()); lemma_spots_of::<_, &mut String>(data_of(self@, ident.ids()).map_values(|d: DataS| string_s(d))); }
=== fn tag::Tag::images_mut_of
    ensures
        final(self).rest() == old(self).rest(),
        idx(old(self)@, ident.ids()) == old(self)@.len() ==> r@.len() == 0 && final(self)@ == old(self)@, //@P10
        idx(old(self)@, ident.ids()) < old(self)@.len() ==> {
            let k = idx(old(self)@, ident.ids());
            let t = old(self)@;
            let f = final(self)@;
            let sp = spots(t[k].data.map_values(|d: DataS| image_s(d)));
            &&& edited(t, f, k) && r@.len() == sp.len()
            &&& forall|i: int| 0 <= i < r@.len() ==> Some(((#[trigger] r@[i]).fmt, (*r@[i].data)@)) == image_s(t[k].data[sp[i]]) && f[k].data[sp[i]] == img_data((r@[i].fmt, (*final(r@[i].data))@))
            &&& forall|i: int| 0 <= i < t[k].data.len() && image_s(t[k].data[i]) is None ==> #[trigger] f[k].data[i] == t[k].data[i]
        }, //@P10
--- at start
    proof { lemma_items(self.atoms@, ident.ids()); lemma_spots_of::<_, ImgMut>(data_of(self@, ident.ids()).map_values(|d: DataS| image_s(d))); }
=== fn tag::Tag::data
    ensures views(r@) == pairs(self@), //@P10
--- closure 0 &AtomData -> (x: MIt<(&DataIdent, &Data)>)
    ensures views(x@) =~= pairs1(__c0@)
--- closure 1 &Data -> (x: (&DataIdent, &Data))
    ensures x.0 == a.ident, x.1 == __c0
--- at start
    proof { lemma_pieces::<(&DataIdent, &Data)>(self@); }
=== fn tag::Tag::take_data
    ensures views(r@) == pairs(self@), //@P10
--- closure 0 AtomData -> (x: MIt<(Rc<DataIdent>, Data)>)
    ensures views(x@) =~= pairs1(__c0@)
--- closure 1 Data -> (x: (Rc<DataIdent>, Data))
    ensures *x.0 == *ident, x.1 == __c0
--- at start
    proof { lemma_pieces::<(Rc<DataIdent>, Data)>(self@); }
=== fn tag::Tag::bytes
    ensures views(r@) == bytes_in(self@), //@P10
--- closure 0 (&DataIdent, &Data) -> (x: Option<(&DataIdent, &[u8])>)
    ensures oview(x) == bytes_p(__c0@)
--- at start
    proof { lemma_fm::<(&DataIdent, &[u8])>(pairs(self@).map_values(|p: (IdS, DataS)| bytes_p(p))); }
=== fn tag::Tag::take_bytes
    ensures views(r@) == bytes_in(self@), //@P10
--- closure 0 (Rc<DataIdent>, Data) -> (x: Option<(Rc<DataIdent>, Vec<u8>)>)
    ensures oview(x) == bytes_p(__c0@)
--- at start
    proof { lemma_fm::<(Rc<DataIdent>, Vec<u8>)>(pairs(self@).map_values(|p: (IdS, DataS)| bytes_p(p))); }
=== fn tag::Tag::strings
    ensures views(r@) == strings_in(self@), //@P10
--- closure 0 (&DataIdent, &Data) -> (x: Option<(&DataIdent, &str)>)
    ensures oview(x) == string_p(__c0@)
--- at start
    proof { lemma_fm::<(&DataIdent, &str)>(pairs(self@).map_values(|p: (IdS, DataS)| string_p(p))); }
=== fn tag::Tag::take_strings
    ensures views(r@) == strings_in(self@), //@P10
--- closure 0 (Rc<DataIdent>, Data) -> (x: Option<(Rc<DataIdent>, String)>)
    ensures oview(x) == string_p(__c0@)
--- at start
    proof { lemma_fm::<(Rc<DataIdent>, String)>(pairs(self@).map_values(|p: (IdS, DataS)| string_p(p))); }
=== fn tag::Tag::images
    ensures views(r@) == images_in(self@), //@P10
--- closure 0 (&DataIdent, &Data) -> (x: Option<(&DataIdent, ImgRef)>)
    ensures oview(x) == image_p(__c0@)
--- at start
    proof { lemma_fm::<(&DataIdent, ImgRef)>(pairs(self@).map_values(|p: (IdS, DataS)| image_p(p))); }
=== fn tag::Tag::take_images
    ensures views(r@) == images_in(self@), //@P10
--- closure 0 (Rc<DataIdent>, Data) -> (x: Option<(Rc<DataIdent>, ImgBuf)>)
    ensures oview(x) == image_p(__c0@)
--- at start
    proof { lemma_fm::<(Rc<DataIdent>, ImgBuf)>(pairs(self@).map_values(|p: (IdS, DataS)| image_p(p))); }
=== fn tag::Tag::data_mut
    ensures
        final(self).rest() == old(self).rest(),
        shape(old(self)@, final(self)@), //@P10
        slots(pairs(old(self)@), pairs(final(self)@), r@), //@P10
--- closure 0 &mut AtomData -> (x: MIt<(&DataIdent, &mut Data)>)
    ensures final(__c0)@.id == old(__c0)@.id, final(__c0)@.data.len() == old(__c0)@.data.len(), slots(pairs1(old(__c0)@), pairs1(final(__c0)@), x@)
--- closure 1 &mut Data -> (x: (&DataIdent, &mut Data))
    ensures x.0 == ident, *x.1 == *old(__c0), *final(x.1) == *final(__c0)
--- at start
    proof { lemma_pieces_mut(self@); }
=== fn tag::Tag::bytes_mut
    ensures
        final(self).rest() == old(self).rest(),
        shape(old(self)@, final(self)@), //@P10
        ({
            let t = pairs(old(self)@);
            let f = pairs(final(self)@);
            let sp = spots(t.map_values(|p: (IdS, DataS)| bytes_p(p)));
            &&& r@.len() == sp.len() && f.len() == t.len()
            &&& forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0@ == t[sp[i]].0 && Some((*r@[i].1)@) == bytes_s(t[sp[i]].1)
                && f[sp[i]] == (t[sp[i]].0, put_bytes(t[sp[i]].1, (*final(r@[i].1))@))
            &&& forall|i: int| 0 <= i < t.len() && bytes_s(t[i].1) is None ==> #[trigger] f[i] == t[i]
        }), //@P10
--- closure 0 (&DataIdent, &mut Data) -> (x: Option<(&DataIdent, &mut Vec<u8>)>)
    ensures
        x is None ==> bytes_s(old(__c0.1)@) is None && final(__c0.1)@ == old(__c0.1)@,
        x is Some ==> x->Some_0.0@ == __c0.0@ && bytes_s(old(__c0.1)@) == Some((*x->Some_0.1)@) && final(__c0.1)@ == put_bytes(old(__c0.1)@, (*final(x->Some_0.1))@)
--- at start
    proof { lemma_spots_of::<_, (&DataIdent, &mut Vec<u8>)>(pairs(self@).map_values(|p: (IdS, DataS)| bytes_p(p))); }
=== fn tag::Tag::strings_mut
    ensures
        final(self).rest() == old(self).rest(),
        shape(old(self)@, final(self)@), //@P10
        ({
            let t = pairs(old(self)@);
            let f = pairs(final(self)@);
            let sp = spots(t.map_values(|p: (IdS, DataS)| string_p(p)));
            &&& r@.len() == sp.len() && f.len() == t.len()
            &&& forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0@ == t[sp[i]].0 && Some((*r@[i].1)@) == string_s(t[sp[i]].1)
                && f[sp[i]] == (t[sp[i]].0, put_string(t[sp[i]].1, (*final(r@[i].1))@))
            &&& forall|i: int| 0 <= i < t.len() && string_s(t[i].1) is None ==> #[trigger] f[i] == t[i]
        }), //@P10
--- closure 0 (&DataIdent, &mut Data) -> (x: Option<(&DataIdent, &mut String)>)
    ensures
        x is None ==> string_s(old(__c0.1)@) is None && final(__c0.1)@ == old(__c0.1)@,
        x is Some ==> x->Some_0.0@ == __c0.0@ && string_s(old(__c0.1)@) == Some((*x->Some_0.1)@) && final(__c0.1)@ == put_string(old(__c0.1)@, (*final(x->Some_0.1))@)
--- at start
    proof { lemma_spots_of::<_, (&DataIdent, &mut String)>(pairs(self@).map_values(|p: (IdS, DataS)| string_p(p))); }
=== fn tag::Tag::images_mut
    ensures
        final(self).rest() == old(self).rest(),
        shape(old(self)@, final(self)@), //@P10
        ({
            let t = pairs(old(self)@);
            let f = pairs(final(self)@);
            let sp = spots(t.map_values(|p: (IdS, DataS)| image_p(p)));
            &&& r@.len() == sp.len() && f.len() == t.len()
            &&& forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0@ == t[sp[i]].0 && Some((r@[i].1.fmt, (*r@[i].1.data)@)) == image_s(t[sp[i]].1)
                && f[sp[i]] == (t[sp[i]].0, img_data((r@[i].1.fmt, (*final(r@[i].1.data))@)))
            &&& forall|i: int| 0 <= i < t.len() && image_s(t[i].1) is None ==> #[trigger] f[i] == t[i]
        }), //@P10
--- closure 0 (&DataIdent, &mut Data) -> (x: Option<(&DataIdent, ImgMut)>)
    ensures
        x is None ==> image_s(old(__c0.1)@) is None && final(__c0.1)@ == old(__c0.1)@,
        x is Some ==> x->Some_0.0@ == __c0.0@ && image_s(old(__c0.1)@) == Some((x->Some_0.1.fmt, (*x->Some_0.1.data)@)) && final(__c0.1)@ == img_data((x->Some_0.1.fmt, (*final(x->Some_0.1.data))@))
--- at start
    proof { lemma_spots_of::<_, (&DataIdent, ImgMut)>(pairs(self@).map_values(|p: (IdS, DataS)| image_p(p))); }
