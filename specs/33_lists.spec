=== prelude
pub mod ls {
use vstd::prelude::*;
use vstd::utf8::*;
use crate::vp::*;
use crate::vs::*;
use crate::ds::*;
use crate::hs::*;
use crate::ks::*;
use crate::pl::*;
use crate::sr::*;
use crate::fl::*;
use crate::dp::*;
use crate::atom::head::*;
use crate::atom::ident::*;
broadcast use crate::vp::group_vp;

// ===================================================================== the atoms of a container, regardless of where they are
/// identifier, kind of size and content of an atom
pub ghost struct At { pub f: Fourcc, pub ext: bool, pub c: Seq<u8> }
pub open spec fn kat(b: Seq<u8>, k: Kid) -> At { At { f: k.head.fourcc, ext: k.head.size.ext, c: body(b, k) } }
/// an atom that is written: with a 64-bit size only if necessary
pub open spec fn mkat(f: Fourcc, c: Seq<u8>) -> At { At { f, ext: size_of_content(c.len() as int).ext, c } }
pub open spec fn ats(b: Seq<u8>, ks: Seq<Kid>) -> Seq<At> { ks.map_values(|k: Kid| kat(b, k)) }
pub open spec fn lst(b: Seq<u8>, s: int) -> Seq<At> { ats(b, kids(b, s)->Some_0) }
pub open spec fn lastc(l: Seq<At>, f: Fourcc) -> Option<Seq<u8>>
    decreases l.len()
{
    if l.len() == 0 { None } else if l.last().f == f { Some(l.last().c) } else { lastc(l.drop_last(), f) }
}
pub open spec fn firstc(l: Seq<At>, f: Fourcc) -> Option<Seq<u8>>
    decreases l.len()
{
    if l.len() == 0 { None } else if l[0].f == f { Some(l[0].c) } else { firstc(l.skip(1), f) }
}
pub open spec fn allc(l: Seq<At>, f: Fourcc) -> Seq<Seq<u8>>
    decreases l.len()
{
    if l.len() == 0 { Seq::empty() } else if l.last().f == f { allc(l.drop_last(), f).push(l.last().c) } else { allc(l.drop_last(), f) }
}
pub open spec fn valuesc(l: Seq<At>) -> Seq<DataS>
    decreases l.len()
{
    if l.len() == 0 { Seq::empty() }
    else if l.last().f == f_data() { valuesc(l.drop_last()).push(decode(dcode(l.last().c), l.last().c.skip(8))->Some_0) }
    else { valuesc(l.drop_last()) }
}
pub open spec fn ilstc(l: Seq<At>) -> Seq<ItemS>
    decreases l.len()
{
    if l.len() == 0 { Seq::empty() }
    else if l.last().f == f_free() { ilstc(l.drop_last()) }
    else { merge(ilstc(l.drop_last()), item_of(l.last().f, l.last().c)) }
}
pub proof fn lemma_ats(b: Seq<u8>, ks: Seq<Kid>)
    ensures
        forall|f: Fourcc| #[trigger] last_body(b, ks, f) == lastc(ats(b, ks), f),
        forall|f: Fourcc| #[trigger] bodies(b, ks, f) == allc(ats(b, ks), f),
        values(b, ks) == valuesc(ats(b, ks)),
        ilst_of(b, ks) == ilstc(ats(b, ks)),
    decreases ks.len()
{
    if ks.len() > 0 {
        lemma_ats(b, ks.drop_last());
        assert(ats(b, ks).drop_last() =~= ats(b, ks.drop_last()));
        assert(ats(b, ks).last() == kat(b, ks.last()));
        assert forall|f: Fourcc| #[trigger] last_body(b, ks, f) == lastc(ats(b, ks), f) by {
            assert(last_body(b, ks.drop_last(), f) == lastc(ats(b, ks.drop_last()), f));
        }
        assert forall|f: Fourcc| #[trigger] bodies(b, ks, f) == allc(ats(b, ks), f) by {
            assert(bodies(b, ks.drop_last(), f) == allc(ats(b, ks.drop_last()), f));
        }
    }
}
pub proof fn lemma_firstc(b: Seq<u8>, ks: Seq<Kid>, f: Fourcc)
    ensures
        first_kid(ks, f) is Some == firstc(ats(b, ks), f) is Some,
        first_kid(ks, f) is Some ==> body(b, first_kid(ks, f)->Some_0) == firstc(ats(b, ks), f)->Some_0,
    decreases ks.len()
{
    if ks.len() > 0 && ks[0].head.fourcc != f {
        lemma_firstc(b, ks.skip(1), f);
        assert(ats(b, ks).skip(1) =~= ats(b, ks.skip(1)));
    }
}
/// well-formedness of the children by their content
pub open spec fn lwf<T: crate::atom::ParseAtom>(l: Seq<At>, f: Fourcc) -> bool {
    forall|i: int| 0 <= i < l.len() && (#[trigger] l[i]).f == f ==> T::wf(l[i].c)
}
pub proof fn lemma_lwf<T: crate::atom::ParseAtom>(b: Seq<u8>, s: int, f: Fourcc)
    requires kids(b, s) is Some
    ensures kids_wf::<T>(b, s, f) == lwf::<T>(lst(b, s), f)
{
    let ks = kids(b, s)->Some_0;
    let l = lst(b, s);
    assert(l.len() == ks.len());
    assert(forall|i: int| 0 <= i < ks.len() ==> (#[trigger] l[i]) == kat(b, ks[i]));
    if kids_wf::<T>(b, s, f) {
        assert forall|i: int| 0 <= i < l.len() && (#[trigger] l[i]).f == f implies T::wf(l[i].c) by { assert(ks[i].head.fourcc == f); }
    }
    if lwf::<T>(l, f) {
        assert forall|i: int| 0 <= i < ks.len() && (#[trigger] ks[i]).head.fourcc == f implies T::wf(body(b, ks[i])) by { assert(l[i].f == f); }
    }
}
// --------------------------------------------------------------------- appending atoms
/// `l` with all contents in order
pub open spec fn tiled(b: Seq<u8>, s: int) -> bool { kids(b, s) is Some }
pub proof fn lemma_head_left(a: Seq<u8>, x: Seq<u8>, p: int)
    requires 0 <= p, head_at(a, p) is Some
    ensures head_at(a + x, p) == head_at(a, p)
{
    assert((a + x).subrange(0, a.len() as int) =~= a);
    lemma_head_sub(a + x, 0, a.len() as int, p);
}
pub proof fn lemma_head_right(a: Seq<u8>, x: Seq<u8>, p: int)
    requires 0 <= p, head_at(x, p) is Some
    ensures head_at(a + x, a.len() + p) == head_at(x, p)
{
    assert((a + x).subrange(a.len() as int, (a + x).len() as int) =~= x);
    lemma_head_sub(a + x, a.len() as int, (a + x).len() as int, p);
}
/// all children lie within the container
pub open spec fn within(ks: Seq<Kid>, s: int, n: int) -> bool {
    forall|i: int| 0 <= i < ks.len() ==> s <= (#[trigger] ks[i]).off && szf(ks[i].head.size) && ks[i].off + ks[i].head.size.len <= n
}
pub proof fn lemma_within(b: Seq<u8>, s: int)
    requires kids(b, s) is Some
    ensures within(kids(b, s)->Some_0, s, b.len() as int)
    decreases b.len() - s
{
    if s < b.len() {
        let h = head_at(b, s)->Some_0;
        lemma_szf(b, s);
        let t = kids(b, s + h.size.len)->Some_0;
        lemma_within(b, s + h.size.len);
        let all = kids(b, s)->Some_0;
        assert(all == seq![Kid { off: s, head: h }] + t);
        assert forall|i: int| 0 <= i < all.len() implies s <= (#[trigger] all[i]).off && szf(all[i].head.size) && all[i].off + all[i].head.size.len <= b.len() by {
            if i > 0 { assert(all[i] == t[i - 1]); }
        }
    }
}
/// more data after the atoms
pub proof fn lemma_push_kids(a: Seq<u8>, s: int, x: Seq<u8>)
    requires 0 <= s, kids(a, s) is Some, head_at(x, 0) is Some, head_at(x, 0)->Some_0.size.len == x.len(), x.len() >= 8
    ensures kids(a + x, s) == Some(kids(a, s)->Some_0.push(Kid { off: a.len() as int, head: head_at(x, 0)->Some_0 }))
    decreases a.len() - s
{
    let y = a + x;
    let k = Kid { off: a.len() as int, head: head_at(x, 0)->Some_0 };
    if s == a.len() {
        lemma_head_right(a, x, 0);
        assert(kids(y, y.len() as int) == Some(Seq::<Kid>::empty()));
        assert(s + k.head.size.len == y.len());
        assert(kids(y, s) == Some(seq![k] + Seq::<Kid>::empty()));
        assert(seq![k] + Seq::<Kid>::empty() =~= Seq::<Kid>::empty().push(k));
    } else {
        let h = head_at(a, s)->Some_0;
        lemma_head_left(a, x, s);
        lemma_push_kids(a, s + h.size.len, x);
        let t = kids(a, s + h.size.len)->Some_0;
        let k0 = Kid { off: s, head: h };
        assert(kids(y, s) == Some(seq![k0] + t.push(k)));
        assert(seq![k0] + t.push(k) =~= (seq![k0] + t).push(k));
    }
}
pub proof fn lemma_ats_left(a: Seq<u8>, x: Seq<u8>, ks: Seq<Kid>, s: int)
    requires within(ks, s, a.len() as int), s >= 0
    ensures ats(a + x, ks) == ats(a, ks)
{
    assert forall|i: int| 0 <= i < ks.len() implies body(a + x, #[trigger] ks[i]) == body(a, ks[i]) by {
        let k = ks[i];
        assert(body(a + x, k) =~= body(a, k));
    }
    assert(ats(a + x, ks) =~= ats(a, ks));
}
/// an atom that has been written
pub proof fn lemma_bx_head(f: Fourcc, c: Seq<u8>)
    requires c.len() + 16 <= i64::MAX
    ensures
        head_at(bx(f, c), 0) == Some(Head { size: size_of_content(c.len() as int), fourcc: f }),
        size_of_content(c.len() as int).len == bx(f, c).len(), bx(f, c).len() >= 8, szf(size_of_content(c.len() as int)),
        bx(f, c).subrange(hlen(size_of_content(c.len() as int)), bx(f, c).len() as int) == c,
{
    let h = Head { size: size_of_content(c.len() as int), fourcc: f };
    let x = bx(f, c);
    lemma_bx(f, c);
    assert(f.0@.len() == 4);
    assert(x.subrange(0, hlen(h.size)) =~= ser_head(h));
    lemma_head(h, x, 0);
    assert(x.subrange(hlen(h.size), x.len() as int) =~= c);
}
/// one more atom in the container
pub proof fn lemma_push(a: Seq<u8>, s: int, f: Fourcc, c: Seq<u8>)
    requires 0 <= s, kids(a, s) is Some, c.len() + 16 <= i64::MAX
    ensures kids(a + bx(f, c), s) is Some, lst(a + bx(f, c), s) == lst(a, s).push(mkat(f, c))
{
    let x = bx(f, c);
    lemma_bx_head(f, c);
    lemma_push_kids(a, s, x);
    lemma_within(a, s);
    let ks = kids(a, s)->Some_0;
    let k = Kid { off: a.len() as int, head: head_at(x, 0)->Some_0 };
    lemma_ats_left(a, x, ks, s);
    assert(body(a + x, k) =~= x.subrange(hlen(k.head.size), x.len() as int));
    assert(ats(a + x, ks.push(k)) =~= ats(a + x, ks).push(mkat(f, c)));
}
pub proof fn lemma_none(a: Seq<u8>)
    ensures kids(a, a.len() as int) == Some(Seq::<Kid>::empty()), lst(a, a.len() as int) == Seq::<At>::empty()
{ assert(ats(a, Seq::<Kid>::empty()) =~= Seq::<At>::empty()); }

// --------------------------------------------------------------------- items
/// items that a file can hold: no duplicates, no empty items, no padding
pub open spec fn storable(t: Seq<ItemS>) -> bool {
    items_fit(t) && distinct(t) && full(t) && forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).id != IdS::F(f_free())
}
pub open spec fn data_c(d: DataS) -> Seq<u8> { to32(type_code(d)) + zeros(4) + payload(d) }
pub open spec fn text_c(t: Seq<char>) -> Seq<u8> { zeros(4) + encode_utf8(t) }
pub open spec fn id_f(i: IdS) -> Fourcc { match i { IdS::F(f) => f, IdS::X(_, _) => f_freeform() } }
pub open spec fn id_c(i: IdS) -> Seq<u8> {
    match i { IdS::F(_) => Seq::empty(), IdS::X(mean, name) => bx(f_mean(), text_c(mean)) + bx(f_name(), text_c(name)) }
}
pub open spec fn item_c(i: ItemS) -> Seq<u8> { id_c(i.id) + ser_datas(i.data) }
pub open spec fn data_l(s: Seq<DataS>) -> Seq<At> { s.map_values(|d: DataS| mkat(f_data(), data_c(d))) }
pub open spec fn item_l(t: Seq<ItemS>) -> Seq<At> { t.map_values(|i: ItemS| mkat(id_f(i.id), item_c(i))) }

pub proof fn lemma_data_bx(d: DataS)
    requires 16 + payload(d).len() <= u32::MAX
    ensures ser_data(d) == bx(f_data(), data_c(d))
{ assert(ser_data(d) =~= bx(f_data(), data_c(d))); }
pub proof fn lemma_text_bx(f: Fourcc, t: Seq<char>)
    requires 12 + encode_utf8(t).len() <= u32::MAX
    ensures ser_text(f, t) == bx(f, text_c(t))
{ assert(ser_text(f, t) =~= bx(f, text_c(t))); }
pub proof fn lemma_datas_list(pre: Seq<u8>, s: Seq<DataS>)
    requires kids(pre, 0) is Some, ser_datas(s).len() <= u32::MAX
    ensures kids(pre + ser_datas(s), 0) is Some, lst(pre + ser_datas(s), 0) == lst(pre, 0) + data_l(s)
    decreases s.len()
{
    if s.len() == 0 {
        assert(pre + ser_datas(s) =~= pre);
        assert(lst(pre, 0) + data_l(s) =~= lst(pre, 0));
    } else {
        let p = s.drop_last();
        let d = s.last();
        lemma_ser_data_len(d);
        lemma_datas_list(pre, p);
        lemma_data_bx(d);
        assert(pre + ser_datas(s) =~= (pre + ser_datas(p)) + bx(f_data(), data_c(d)));
        lemma_push(pre + ser_datas(p), 0, f_data(), data_c(d));
        assert(lst(pre, 0) + data_l(s) =~= (lst(pre, 0) + data_l(p)).push(mkat(f_data(), data_c(d))));
    }
}
pub proof fn lemma_data_c(d: DataS)
    ensures data_wf(data_c(d)), decode(dcode(data_c(d)), data_c(d).skip(8)) == Some(d) //@P01 //@P02
{
    let x = data_c(d);
    let n = type_code(d);
    assert(x.skip(8) =~= payload(d));
    lemma_decode(d);
    let y = to32(n);
    reveal(to32);
    assert(y[0] == 0);
    assert(seq![0u8, x[1], x[2], x[3]] =~= y);
    lemma_be32(n);
    assert(x[0] == y[0]);
}
pub proof fn lemma_text_c(t: Seq<char>)
    ensures text_wf(text_c(t)), decode_utf8(text_c(t).skip(4)) == t
{
    assert(text_c(t).skip(4) =~= encode_utf8(t));
    encode_utf8_valid_utf8(t);
    encode_utf8_decode_utf8(t);
}
pub proof fn lemma_data_list(p: Seq<At>, s: Seq<DataS>)
    ensures
        valuesc(p + data_l(s)) == valuesc(p) + s,
        lastc(p + data_l(s), f_mean()) == lastc(p, f_mean()),
        lastc(p + data_l(s), f_name()) == lastc(p, f_name()),
    decreases s.len()
{
    assert(f_data().0[0] != f_mean().0[0] && f_data().0[0] != f_name().0[0]);
    if s.len() == 0 {
        assert(p + data_l(s) =~= p);
        assert(valuesc(p) + s =~= valuesc(p));
    } else {
        let q = s.drop_last();
        lemma_data_list(p, q);
        lemma_data_c(s.last());
        assert((p + data_l(s)).drop_last() =~= p + data_l(q));
        assert(valuesc(p) + s =~= (valuesc(p) + q).push(s.last()));
    }
}
/// an item that has been stored
pub proof fn lemma_item_c(i: ItemS)
    requires item_len(i) <= u32::MAX, i.data.len() > 0
    ensures
        ser_item(i) == bx(id_f(i.id), item_c(i)),
        item_wf(item_c(i)),
        item_of(id_f(i.id), item_c(i)) == i, //@P01 //@P02
        item_c(i).len() + 8 <= u32::MAX,
{
    let e = Seq::<u8>::empty();
    let b = item_c(i);
    lemma_ser_id_len(i.id);
    lemma_none(e);
    let pre = id_c(i.id);
    match i.id {
        IdS::F(f) => {
            assert(ser_id(i.id) =~= f.0@ + pre);
            lemma_datas_list(e, i.data);
            lemma_data_list(lst(e, 0), i.data);
        }
        IdS::X(mean, name) => {
            lemma_text_bx(f_mean(), mean);
            lemma_text_bx(f_name(), name);
            let m1 = bx(f_mean(), text_c(mean));
            let m2 = bx(f_name(), text_c(name));
            lemma_push(e, 0, f_mean(), text_c(mean));
            assert(e + m1 =~= m1);
            lemma_push(m1, 0, f_name(), text_c(name));
            assert(ser_id(i.id) =~= f_freeform().0@ + pre);
            lemma_text_c(mean);
            lemma_text_c(name);
            let l = lst(pre, 0);
            let l1 = lst(m1, 0);
            assert(l1 =~= seq![mkat(f_mean(), text_c(mean))]);
            assert(l =~= seq![mkat(f_mean(), text_c(mean)), mkat(f_name(), text_c(name))]);
            assert(f_mean().0[0] != f_name().0[0] && f_data().0[0] != f_mean().0[0] && f_data().0[0] != f_name().0[0]);
            assert(l.drop_last() =~= l1);
            assert(l1.drop_last() =~= Seq::<At>::empty());
            assert(lastc(l1, f_mean()) == Some(text_c(mean)));
            assert(lastc(l, f_name()) == Some(text_c(name)));
            assert(lastc(l, f_mean()) == lastc(l1, f_mean()));
            assert(valuesc(Seq::<At>::empty()) == Seq::<DataS>::empty());
            assert(valuesc(l1) == Seq::<DataS>::empty());
            assert(valuesc(l) == Seq::<DataS>::empty());
            lemma_datas_list(pre, i.data);
            lemma_data_list(l, i.data);
        }
    }
    let ks = kids(b, 0)->Some_0;
    let l = lst(b, 0);
    lemma_ats(b, ks);
    assert(l == lst(pre, 0) + data_l(i.data));
    assert(valuesc(l) =~= i.data);
    assert(item_of(id_f(i.id), b).data == i.data);
    assert(item_of(id_f(i.id), b).id == i.id) by {
        assert(last_body(b, ks, f_mean()) == lastc(l, f_mean()));
        assert(last_body(b, ks, f_name()) == lastc(l, f_name()));
    }
    assert forall|j: int| 0 <= j < ks.len() implies ({
        let k = #[trigger] ks[j];
        (k.head.fourcc == f_data() ==> data_wf(body(b, k)))
            && (k.head.fourcc == f_mean() || k.head.fourcc == f_name() ==> text_wf(body(b, k)))
    }) by {
        assert(l[j] == kat(b, ks[j]));
        let n = lst(pre, 0).len();
        if j >= n {
            assert(l[j] == data_l(i.data)[j - n]);
            lemma_data_c(i.data[j - n]);
            assert(f_data().0[0] != f_mean().0[0] && f_data().0[0] != f_name().0[0]);
        } else {
            assert(l[j] == lst(pre, 0)[j]);
        }
    }
    assert(ser_item(i) =~= bx(id_f(i.id), b));
}
pub proof fn lemma_idx_none(t: Seq<ItemS>, id: IdS)
    requires forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).id != id
    ensures idx(t, id) == t.len()
{ lemma_idx(t, id); }
/// an item list that has been stored is read back
pub proof fn lemma_items_list(t: Seq<ItemS>)
    requires storable(t)
    ensures
        kids(ser_items(t), 0) is Some,
        lst(ser_items(t), 0) == item_l(t),
        ilstc(item_l(t)) == t, //@P01 //@P02
    decreases t.len()
{
    if t.len() == 0 {
        lemma_none(Seq::<u8>::empty());
        assert(item_l(t) =~= Seq::<At>::empty());
        assert(t =~= Seq::<ItemS>::empty());
    } else {
        let p = t.drop_last();
        let i = t.last();
        assert(t[t.len() - 1] == i);
        assert forall|k: int| 0 <= k < p.len() implies item_len(#[trigger] p[k]) <= u32::MAX && p[k].data.len() > 0 && p[k].id != IdS::F(f_free()) by { assert(p[k] == t[k]); }
        lemma_ser_item_len(i);
        assert(storable(p)) by {
            assert forall|a: int, b: int| 0 <= a < b < p.len() implies (#[trigger] p[a]).id != (#[trigger] p[b]).id by { assert(p[a] == t[a] && p[b] == t[b]); }
        }
        lemma_items_list(p);
        lemma_item_c(i);
        lemma_push(ser_items(p), 0, id_f(i.id), item_c(i));
        assert(ser_items(t) == ser_items(p) + bx(id_f(i.id), item_c(i)));
        assert(item_l(t) =~= item_l(p).push(mkat(id_f(i.id), item_c(i))));
        assert(item_l(t).drop_last() =~= item_l(p));
        assert(id_f(i.id) != f_free()) by { assert(f_freeform().0[0] != f_free().0[0]); }
        assert forall|k: int| 0 <= k < p.len() implies (#[trigger] p[k]).id != i.id by { assert(p[k] == t[k]); }
        lemma_idx_none(p, i.id);
        assert(p.push(i) =~= t);
    }
}
pub proof fn lemma_ser_items(t: Seq<ItemS>)
    requires storable(t)
    ensures ilst_wf(ser_items(t)), ilst_of(ser_items(t), kids(ser_items(t), 0)->Some_0) == t //@P01 //@P02
{
    let b = ser_items(t);
    lemma_items_list(t);
    let ks = kids(b, 0)->Some_0;
    lemma_ats(b, ks);
    assert forall|j: int| 0 <= j < ks.len() implies ({
        let k = #[trigger] ks[j];
        k.head.fourcc != f_free() ==> item_wf(body(b, k)) && item_of(k.head.fourcc, body(b, k)).data.len() > 0
    }) by {
        assert(lst(b, 0)[j] == kat(b, ks[j]));
        assert(item_l(t)[j] == mkat(id_f(t[j].id), item_c(t[j])));
        lemma_item_c(t[j]);
    }
}
} // mod ls
