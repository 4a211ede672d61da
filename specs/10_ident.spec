=== prelude
pub mod vs {
use vstd::prelude::*;
use crate::vp::*;
use crate::atom::ident::*;
use crate::atom::data::*;
use crate::atom::AtomData;
use crate::types::*;

// ===================================================================== abstract tag
/// An identifier: a four character code or a pair of strings.
pub ghost enum IdS { F(Fourcc), X(Seq<char>, Seq<char>) }
pub ghost enum DataS { Reserved(Seq<u8>), Utf8(Seq<char>), Utf16(Seq<char>), Jpeg(Seq<u8>), Png(Seq<u8>), BeSigned(Seq<u8>), Bmp(Seq<u8>) }
pub ghost struct ItemS { pub id: IdS, pub data: Seq<DataS> }

impl View for DataIdent {
    type V = IdS;
    open spec fn view(&self) -> IdS {
        match *self { DataIdent::Fourcc(f) => IdS::F(f), DataIdent::Freeform { mean, name } => IdS::X(mean@, name@) }
    }
}
impl View for Data {
    type V = DataS;
    open spec fn view(&self) -> DataS {
        match *self {
            Data::Reserved(v) => DataS::Reserved(v@),
            Data::Utf8(s) => DataS::Utf8(s@),
            Data::Utf16(s) => DataS::Utf16(s@),
            Data::Jpeg(v) => DataS::Jpeg(v@),
            Data::Png(v) => DataS::Png(v@),
            Data::BeSigned(v) => DataS::BeSigned(v@),
            Data::Bmp(v) => DataS::Bmp(v@),
        }
    }
}
impl View for AtomData {
    type V = ItemS;
    open spec fn view(&self) -> ItemS { ItemS { id: self.ident@, data: views(self.data@) } }
}
impl<T: View> View for Img<T> {
    type V = (ImgFmt, T::V);
    open spec fn view(&self) -> (ImgFmt, T::V) { (self.fmt, self.data@) }
}

pub open spec fn views<T: View>(s: Seq<T>) -> Seq<T::V> { s.map_values(|x: T| x@) }
pub open spec fn oview<T: View>(o: Option<T>) -> Option<T::V> {
    match o { Some(x) => Some(x@), None => None }
}

pub open spec fn bytes_s(d: DataS) -> Option<Seq<u8>> {
    match d { DataS::Reserved(v) => Some(v), DataS::BeSigned(v) => Some(v), _ => None }
}
pub open spec fn string_s(d: DataS) -> Option<Seq<char>> {
    match d { DataS::Utf8(v) => Some(v), DataS::Utf16(v) => Some(v), _ => None }
}
pub open spec fn image_s(d: DataS) -> Option<(ImgFmt, Seq<u8>)> {
    match d {
        DataS::Jpeg(v) => Some((ImgFmt::Jpeg, v)),
        DataS::Png(v) => Some((ImgFmt::Png, v)),
        DataS::Bmp(v) => Some((ImgFmt::Bmp, v)),
        _ => None,
    }
}
pub open spec fn img_data(i: (ImgFmt, Seq<u8>)) -> DataS {
    match i.0 { ImgFmt::Bmp => DataS::Bmp(i.1), ImgFmt::Jpeg => DataS::Jpeg(i.1), ImgFmt::Png => DataS::Png(i.1) }
}
/// `d` with its byte data replaced
pub open spec fn put_bytes(d: DataS, v: Seq<u8>) -> DataS {
    match d { DataS::Reserved(_) => DataS::Reserved(v), DataS::BeSigned(_) => DataS::BeSigned(v), x => x }
}
pub open spec fn put_string(d: DataS, v: Seq<char>) -> DataS {
    match d { DataS::Utf8(_) => DataS::Utf8(v), DataS::Utf16(_) => DataS::Utf16(v), x => x }
}
pub open spec fn fid(a: u8, b: u8, c: u8, d: u8) -> IdS { IdS::F(Fourcc([a, b, c, d])) }

// ===================================================================== lookups
/// index of the first item with the identifier, the number of items if there is none
pub open spec fn idx(t: Seq<ItemS>, id: IdS) -> int
    decreases t.len()
{
    if t.len() == 0 { 0 } else if t[0].id == id { 0 } else { 1 + idx(t.skip(1), id) }
}
pub open spec fn data_of(t: Seq<ItemS>, id: IdS) -> Seq<DataS> {
    if idx(t, id) < t.len() { t[idx(t, id)].data } else { Seq::empty() }
}
pub open spec fn bytes_of(t: Seq<ItemS>, id: IdS) -> Seq<Seq<u8>> { somes(data_of(t, id).map_values(|d: DataS| bytes_s(d))) }
pub open spec fn strings_of(t: Seq<ItemS>, id: IdS) -> Seq<Seq<char>> { somes(data_of(t, id).map_values(|d: DataS| string_s(d))) }
pub open spec fn images_of(t: Seq<ItemS>, id: IdS) -> Seq<(ImgFmt, Seq<u8>)> { somes(data_of(t, id).map_values(|d: DataS| image_s(d))) }
pub open spec fn first<T>(s: Seq<T>) -> Option<T> { if s.len() > 0 { Some(s[0]) } else { None } }
/// the first item with the identifier removed
pub open spec fn without(t: Seq<ItemS>, id: IdS) -> Seq<ItemS> {
    if idx(t, id) < t.len() { t.remove(idx(t, id)) } else { t }
}
/// all items with the identifier removed
pub open spec fn erase(t: Seq<ItemS>, id: IdS) -> Seq<ItemS> { t.filter(|i: ItemS| i.id != id) }
/// the data of the first item with the identifier replaced, or an item appended
pub open spec fn put(t: Seq<ItemS>, id: IdS, data: Seq<DataS>) -> Seq<ItemS> {
    if idx(t, id) < t.len() { t.update(idx(t, id), ItemS { id: id, data: data }) } else { t.push(ItemS { id: id, data: data }) }
}
pub open spec fn nonempty(t: Seq<ItemS>) -> Seq<ItemS> { t.filter(|i: ItemS| i.data.len() > 0) }
/// no two items with the same identifier
pub open spec fn distinct(t: Seq<ItemS>) -> bool {
    forall|i: int, j: int| 0 <= i < j < t.len() ==> (#[trigger] t[i]).id != (#[trigger] t[j]).id
}
pub open spec fn full(t: Seq<ItemS>) -> bool { forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).data.len() > 0 }

pub proof fn lemma_idx(t: Seq<ItemS>, id: IdS)
    ensures
        0 <= idx(t, id) <= t.len(),
        idx(t, id) < t.len() ==> t[idx(t, id)].id == id,
        forall|i: int| 0 <= i < idx(t, id) ==> (#[trigger] t[i]).id != id,
    decreases t.len()
{
    if t.len() > 0 && t[0].id != id {
        lemma_idx(t.skip(1), id);
        assert forall|i: int| 0 <= i < idx(t, id) implies (#[trigger] t[i]).id != id by {
            if i > 0 { assert(t[i] == t.skip(1)[i - 1]); }
        }
    }
}
/// characterisation by position
pub proof fn lemma_idx_is(t: Seq<ItemS>, id: IdS, k: int)
    requires 0 <= k <= t.len(), k < t.len() ==> t[k].id == id, forall|i: int| 0 <= i < k ==> (#[trigger] t[i]).id != id
    ensures idx(t, id) == k
{ lemma_idx(t, id); }

// ===================================================================== sequences of options
pub proof fn lemma_fm<T: View>(e: Seq<Option<T::V>>)
    ensures forall|o: Seq<Option<T>>| o.len() == e.len() && (forall|i: int| 0 <= i < o.len() ==> oview(#[trigger] o[i]) == e[i])
        ==> views(#[trigger] somes(o)) == somes(e)
{
    assert forall|o: Seq<Option<T>>| o.len() == e.len() && (forall|i: int| 0 <= i < o.len() ==> oview(#[trigger] o[i]) == e[i])
        implies views(#[trigger] somes(o)) == somes(e) by { lemma_fm1::<T>(o, e); }
}
pub proof fn lemma_fm1<T: View>(o: Seq<Option<T>>, e: Seq<Option<T::V>>)
    requires o.len() == e.len(), forall|i: int| 0 <= i < o.len() ==> oview(#[trigger] o[i]) == e[i]
    ensures views(somes(o)) == somes(e)
    decreases o.len()
{
    if o.len() > 0 {
        lemma_fm1::<T>(o.drop_last(), e.drop_last());
        assert(oview(o[o.len() - 1]) == e[e.len() - 1]);
        assert(views(somes(o)) =~= somes(e));
    } else {
        assert(views(somes(o)) =~= somes(e));
    }
}
pub proof fn lemma_kept<T>(v: Seq<T>, p: spec_fn(T) -> bool)
    ensures forall|keep: Seq<bool>| keep.len() == v.len() && (forall|i: int| 0 <= i < v.len() ==> #[trigger] keep[i] == p(v[i]))
        ==> #[trigger] kept(v, keep) == v.filter(p)
{
    assert forall|keep: Seq<bool>| keep.len() == v.len() && (forall|i: int| 0 <= i < v.len() ==> #[trigger] keep[i] == p(v[i]))
        implies #[trigger] kept(v, keep) == v.filter(p) by { lemma_kept1(v, p, keep); }
}
pub proof fn lemma_kept1<T>(v: Seq<T>, p: spec_fn(T) -> bool, keep: Seq<bool>)
    requires keep.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> #[trigger] keep[i] == p(v[i])
    ensures kept(v, keep) == v.filter(p)
    decreases v.len()
{
    reveal(Seq::filter);
    if v.len() > 0 {
        lemma_kept1(v.drop_last(), p, keep.drop_last());
        assert(keep[keep.len() - 1] == p(v[v.len() - 1]));
    }
}
/// filtering commutes with the abstraction
pub proof fn lemma_filter_views<T: View>(v: Seq<T>, p: spec_fn(T) -> bool, q: spec_fn(T::V) -> bool)
    requires forall|i: int| 0 <= i < v.len() ==> p(#[trigger] v[i]) == q(v[i]@)
    ensures views(v.filter(p)) == views(v).filter(q)
    decreases v.len()
{
    reveal(Seq::filter);
    if v.len() > 0 {
        lemma_filter_views(v.drop_last(), p, q);
        assert(views(v).drop_last() =~= views(v.drop_last()));
        assert(p(v[v.len() - 1]) == q(v[v.len() - 1]@));
        assert(views(v.filter(p)) =~= views(v).filter(q));
    } else {
        assert(views(v.filter(p)) =~= views(v).filter(q));
    }
}

// ===================================================================== conversions
impl VpInto<DataIdent> for Fourcc {
    open spec fn into_view(self) -> IdS { IdS::F(self) }
    fn vp_into(self) -> (r: DataIdent) { DataIdent::from(self) }
}
impl VpInto<DataIdent> for DataIdent {
    open spec fn into_view(self) -> IdS { self@ }
    fn vp_into(self) -> (r: DataIdent) { self }
}
impl VpInto<DataIdent> for FreeformIdent<'_> {
    open spec fn into_view(self) -> IdS { IdS::X(self.mean@, self.name@) }
    fn vp_into(self) -> (r: DataIdent) { DataIdent::from(self) }
}
impl VpInto<DataIdent> for &FreeformIdent<'_> {
    open spec fn into_view(self) -> IdS { IdS::X(self.mean@, self.name@) }
    fn vp_into(self) -> (r: DataIdent) { DataIdent::from(self) }
}
impl<T: VpInto<Vec<u8>>> VpInto<Data> for Img<T> {
    open spec fn into_view(self) -> DataS { img_data((self.fmt, self.data.into_view())) }
    fn vp_into(self) -> (r: Data) { Data::from(self) }
}
} // mod vs

=== mod atom::ident
use vstd::std_specs::cmp::*;
=== derive atom::ident::Fourcc Default
=== derive atom::ident::Fourcc PartialEq
impl PartialEqSpecImpl for Fourcc {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Fourcc) -> bool { *self == *o }
}
=== derive atom::ident::FreeformIdent Clone
impl<'a> Clone for FreeformIdent<'a> {
    fn clone(&self) -> (r: Self) ensures r == *self { FreeformIdent { mean: self.mean, name: self.name } }
}
=== derive atom::ident::FreeformIdent PartialEq
impl<'a> PartialEq for FreeformIdent<'a> {
    fn eq(&self, o: &Self) -> bool { self.mean == o.mean && self.name == o.name }
}
impl<'a> PartialEqSpecImpl for FreeformIdent<'a> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self.mean@ == o.mean@ && self.name@ == o.name@ }
}
=== derive atom::ident::DataIdent PartialEq
impl PartialEq for DataIdent {
    fn eq(&self, o: &DataIdent) -> bool {
        match (self, o) {
            (DataIdent::Fourcc(a), DataIdent::Fourcc(b)) => a == b,
            (DataIdent::Freeform { mean: a, name: b }, DataIdent::Freeform { mean: c, name: d }) => a == c && b == d,
            _ => false,
        }
    }
}
impl PartialEqSpecImpl for DataIdent {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &DataIdent) -> bool { self@ == o@ }
}
=== trait atom::ident::Ident
    spec fn ids(&self) -> IdS;
    /// comparison with a stored identifier is equality of identifiers
    proof fn law(&self, o: &DataIdent)
        ensures Self::obeys_eq_spec(), self.eq_spec(o) == (self.ids() == o@); //@P18
=== fn atom::ident::Ident::fourcc
    ensures r == (match self.ids() { IdS::F(f) => Some(f), _ => None::<Fourcc> }), //@P18
=== fn atom::ident::Ident::freeform
    ensures
        self.ids() is F ==> r is None, //@P18
        self.ids() is X ==> r is Some && r->Some_0.mean@ == self.ids()->X_0 && r->Some_0.name@ == self.ids()->X_1, //@P18
=== fn atom::ident::idents_match
    ensures r == (a.ids() == b.ids()), //@P18
=== fn atom::ident::<Fourcc as Deref>::deref
    ensures *r == self.0,
=== fn atom::ident::<Fourcc as DerefMut>::deref_mut
    ensures *r == old(self).0, *final(r) == final(self).0,
=== before atom::ident::<Fourcc as PartialEq<DataIdent>>
impl PartialEqSpecImpl<DataIdent> for Fourcc {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &DataIdent) -> bool { IdS::F(*self) == o@ }
}
=== fn atom::ident::<Fourcc as PartialEq<DataIdent>>::eq
=== impl atom::ident::<Fourcc as Ident>
    open spec fn ids(&self) -> IdS { IdS::F(*self) }
    proof fn law(&self, o: &DataIdent) {}
=== before atom::ident::<FreeformIdent as PartialEq<DataIdent>>
impl PartialEqSpecImpl<DataIdent> for FreeformIdent<'_> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &DataIdent) -> bool { IdS::X(self.mean@, self.name@) == o@ }
}
=== fn atom::ident::<FreeformIdent as PartialEq<DataIdent>>::eq
=== impl atom::ident::<FreeformIdent as Ident>
    open spec fn ids(&self) -> IdS { IdS::X(self.mean@, self.name@) }
    proof fn law(&self, o: &DataIdent) {}
=== impl atom::ident::<DataIdent as Ident>
    open spec fn ids(&self) -> IdS { self@ }
    proof fn law(&self, o: &DataIdent) {}
=== fn atom::ident::FreeformIdent::new
    ensures r.mean == mean, r.name == name, //@P18
=== fn atom::ident::<DataIdent as From<Fourcc>>::from
    ensures r@ == IdS::F(value), //@P18
=== fn atom::ident::<DataIdent as From<FreeformIdent>>::from
    ensures r@ == IdS::X(value.mean@, value.name@), //@P18
=== fn atom::ident::<DataIdent as From<&FreeformIdent>>::from
    ensures r@ == IdS::X(value.mean@, value.name@), //@P18
=== fn atom::ident::DataIdent::freeform
    ensures r@ == IdS::X(mean.into_view(), name.into_view()), //@P18
=== fn atom::ident::DataIdent::fourcc
    ensures r@ == IdS::F(Fourcc(bytes)), //@P18
=== const atom::ident::ISRC
    ensures ISRC.mean@ == "com.apple.iTunes"@, ISRC.name@ == "ISRC"@ //@P11
=== const atom::ident::LYRICIST
    ensures LYRICIST.mean@ == "com.apple.iTunes"@, LYRICIST.name@ == "LYRICIST"@ //@P11
