=== prelude
pub mod ds {
use vstd::prelude::*;
use vstd::utf8::*;
use crate::vp::*;
use crate::vs::*;
use crate::types::*;
broadcast use crate::vp::group_vp;

/// `n` bytes of `d` at offset `p`
pub open spec fn bytes_at(d: Seq<u8>, p: int, n: int) -> Seq<u8> {
    if n <= 0 { Seq::empty() } else { d.subrange(p, p + n) }
}
/// available
pub open spec fn has(d: Seq<u8>, p: int, n: int) -> bool { n == 0 || p + n <= d.len() }

/// well-known data type codes
pub open spec fn type_code(d: DataS) -> int {
    match d {
        DataS::Reserved(_) => 0, DataS::Utf8(_) => 1, DataS::Utf16(_) => 2, DataS::Jpeg(_) => 13,
        DataS::Png(_) => 14, DataS::BeSigned(_) => 21, DataS::Bmp(_) => 27,
    }
}
pub open spec fn payload(d: DataS) -> Seq<u8> {
    match d {
        DataS::Reserved(v) => v,
        DataS::Utf8(s) => encode_utf8(s),
        DataS::Utf16(s) => units_be(enc16(s)),
        DataS::Jpeg(v) => v,
        DataS::Png(v) => v,
        DataS::BeSigned(v) => v,
        DataS::Bmp(v) => v,
    }
}
/// the value stored as `b` with a type code
pub open spec fn decode(code: int, b: Seq<u8>) -> Option<DataS> {
    if code == 0 { Some(DataS::Reserved(b)) }
    else if code == 1 { if valid_utf8(b) { Some(DataS::Utf8(decode_utf8(b))) } else { None } }
    else if code == 2 { if valid16(be_units(b)) { Some(DataS::Utf16(dec16(be_units(b)))) } else { None } }
    else if code == 13 { Some(DataS::Jpeg(b)) }
    else if code == 14 { Some(DataS::Png(b)) }
    else if code == 21 { Some(DataS::BeSigned(b)) }
    else if code == 27 { Some(DataS::Bmp(b)) }
    else { None }
}
pub proof fn lemma_units(u: Seq<u16>)
    ensures be_units(units_be(u)) == u
{
    let b = units_be(u);
    assert forall|i: int| 0 <= i < u.len() implies be16(b.subrange(2 * i, 2 * i + 2)) as u16 == u[i] by {
        assert(b.subrange(2 * i, 2 * i + 2)[0] == b[2 * i]);
        assert(b.subrange(2 * i, 2 * i + 2)[1] == b[2 * i + 1]);
        assert((2 * i) / 2 == i && (2 * i + 1) / 2 == i);
        reveal(be16);
    }
    assert(be_units(b) =~= u);
}
/// a stored value is decoded as that same value
pub proof fn lemma_decode(d: DataS)
    ensures decode(type_code(d), payload(d)) == Some(d), //@P09 //@P01 //@P02
{
    match d {
        DataS::Utf8(s) => { encode_utf8_valid_utf8(s); encode_utf8_decode_utf8(s); }
        DataS::Utf16(s) => { lemma_units(enc16(s)); lemma_enc16(s); }
        _ => {}
    }
}
pub proof fn lemma_units_push(u: Seq<u16>, k: int)
    requires 0 <= k < u.len()
    ensures units_be(u.take(k + 1)) == units_be(u.take(k)) + to16(u[k] as int)
{
    let a = units_be(u.take(k + 1));
    let b = units_be(u.take(k)) + to16(u[k] as int);
    reveal(to16);
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
        if i < 2 * k { } else { assert(i / 2 == k); assert(u[k] / 0x100 < 0x100); }
    }
    assert(a =~= b);
}
} // mod ds

=== mod atom::data
=== fn atom::data::<Data as From<Img<T>>>::from
    ensures r@ == img_data((image.fmt, image.data.into_view())), //@P09
=== fn atom::data::Data::len
    ensures r == payload(self@).len(), //@P08
=== fn atom::data::Data::is_empty
    ensures r == (payload(self@).len() == 0), //@P08
=== fn atom::data::Data::is_bytes
    ensures r == (bytes_s(self@) is Some), //@P09
=== fn atom::data::Data::is_string
    ensures r == (string_s(self@) is Some), //@P09
=== fn atom::data::Data::is_image
    ensures r == (image_s(self@) is Some), //@P09
=== fn atom::data::Data::is_reserved
    ensures r == (self@ is Reserved), //@P09
=== fn atom::data::Data::is_utf8
    ensures r == (self@ is Utf8), //@P09
=== fn atom::data::Data::is_utf16
    ensures r == (self@ is Utf16), //@P09
=== fn atom::data::Data::is_jpeg
    ensures r == (self@ is Jpeg), //@P09
=== fn atom::data::Data::is_png
    ensures r == (self@ is Png), //@P09
=== fn atom::data::Data::is_be_signed
    ensures r == (self@ is BeSigned), //@P09
=== fn atom::data::Data::is_bmp
    ensures r == (self@ is Bmp), //@P09
=== fn atom::data::Data::bytes
    ensures oview(r) == bytes_s(self@), //@P09
=== fn atom::data::Data::bytes_mut
    ensures
        r is None ==> bytes_s(old(self)@) is None && final(self)@ == old(self)@, //@P09
        r is Some ==> bytes_s(old(self)@) == Some((*r->Some_0)@) && final(self)@ == put_bytes(old(self)@, (*final(r->Some_0))@), //@P09
=== fn atom::data::Data::into_bytes
    ensures oview(r) == bytes_s(self@), //@P09
=== fn atom::data::Data::string
    ensures oview(r) == string_s(self@), //@P09
=== fn atom::data::Data::string_mut
    ensures
        r is None ==> string_s(old(self)@) is None && final(self)@ == old(self)@, //@P09
        r is Some ==> string_s(old(self)@) == Some((*r->Some_0)@) && final(self)@ == put_string(old(self)@, (*final(r->Some_0))@), //@P09
=== fn atom::data::Data::into_string
    ensures oview(r) == string_s(self@), //@P09
=== fn atom::data::Data::image
    ensures oview(r) == image_s(self@), //@P09
=== fn atom::data::Data::image_mut
    ensures
        r is None ==> image_s(old(self)@) is None && final(self)@ == old(self)@, //@P09
        r is Some ==> image_s(old(self)@) == Some((r->Some_0.fmt, (*r->Some_0.data)@)) && final(self)@ == img_data((r->Some_0.fmt, (*final(r->Some_0.data))@)), //@P09
=== fn atom::data::Data::into_image
    ensures oview(r) == image_s(self@), //@P09
=== fn atom::data::Data::image_data
    ensures oview(r) == (match image_s(self@) { Some(i) => Some(i.1), None => None }), //@P09
--- closure 0 Img<&[u8]> -> (x: &[u8])
    ensures x == __c0.data
=== fn atom::data::Data::image_data_mut
    ensures
        r is None ==> image_s(old(self)@) is None && final(self)@ == old(self)@, //@P09
        r is Some ==> image_s(old(self)@) is Some && image_s(old(self)@)->Some_0.1 == (*r->Some_0)@
            && final(self)@ == img_data((image_s(old(self)@)->Some_0.0, (*final(r->Some_0))@)), //@P09
--- closure 0 Img<&mut Vec<u8>> -> (x: &mut Vec<u8>)
    ensures *x == *old(__c0.data), *final(x) == *final(__c0.data)
=== fn atom::data::Data::into_image_data
    ensures oview(r) == (match image_s(self@) { Some(i) => Some(i.1), None => None }), //@P09
--- closure 0 Img<Vec<u8>> -> (x: Vec<u8>)
    ensures x == __c0.data
=== fn atom::data::Data::reserved
    ensures oview(r) == (match self@ { DataS::Reserved(v) => Some(v), _ => None }), //@P09
=== fn atom::data::Data::utf8
    ensures oview(r) == (match self@ { DataS::Utf8(v) => Some(v), _ => None }), //@P09
=== fn atom::data::Data::utf16
    ensures oview(r) == (match self@ { DataS::Utf16(v) => Some(v), _ => None }), //@P09
=== fn atom::data::Data::jpeg
    ensures oview(r) == (match self@ { DataS::Jpeg(v) => Some(v), _ => None }), //@P09
=== fn atom::data::Data::png
    ensures oview(r) == (match self@ { DataS::Png(v) => Some(v), _ => None }), //@P09
=== fn atom::data::Data::be_signed
    ensures oview(r) == (match self@ { DataS::BeSigned(v) => Some(v), _ => None }), //@P09
=== fn atom::data::Data::bmp
    ensures oview(r) == (match self@ { DataS::Bmp(v) => Some(v), _ => None }), //@P09
=== fn atom::data::Data::write_typed
    requires old(writer).pos() >= 0
    ensures
        final(writer).reliable() == old(writer).reliable(), final(writer).tail() == old(writer).tail(), final(writer).pos() >= 0,
        r is Ok ==> wrote(old(writer), final(writer), to32(type_code(self@)) + zeros(4) + payload(self@)), //@P08 //@P09
        old(writer).reliable() ==> r is Ok,
--- at start
    proof { lemma_acc0(writer); }
--- at end
    proof { if __r is Ok { 
        assert(Seq::<u8>::empty() + to32(type_code(self@)) + zeros(4) + payload(self@) =~= to32(type_code(self@)) + zeros(4) + payload(self@));
    } }
=== fn atom::data::Data::write_raw
    requires old(writer).pos() >= 0
    ensures
        final(writer).reliable() == old(writer).reliable(), final(writer).tail() == old(writer).tail(), final(writer).pos() >= 0,
        r is Ok ==> wrote(old(writer), final(writer), payload(self@)), //@P08 //@P09
        old(writer).reliable() ==> r is Ok,
--- at start
    proof {
        lemma_acc0(writer);
        if self@ is Utf16 { assert(units_be(enc16(self@->Utf16_0).take(0)) =~= Seq::<u8>::empty()); }
    }
--- loop 0
    invariant
        __all0 == enc16(string_s(self@)->Some_0),
        writer.reliable() == old(writer).reliable(), writer.tail() == old(writer).tail(), writer.pos() >= 0,
        acc(old(writer), writer, units_be(__all0.take(__k0))),
--- at loop 0 end
    proof { lemma_units_push(__all0, __k0 - 1); }
--- at end
    proof {
        if self@ is Utf16 {
            let u = enc16(self@->Utf16_0);
            assert(u.take(u.len() as int) =~= u);
        } else {
            assert(Seq::<u8>::empty() + payload(self@) =~= payload(self@));
        }
    }
=== fn atom::data::Data::parse
    requires swf(old(reader))
    ensures
        swf(final(reader)), same(final(reader), old(reader)), //@P06
        r is Ok ==> has(old(reader).data(), old(reader).pos(), len as int), //@P06
        r is Ok ==> final(reader).pos() == old(reader).pos() + len,
        r is Ok ==> decode(datatype as int, bytes_at(old(reader).data(), old(reader).pos(), len as int)) == Some(r->Ok_0@), //@P09
        old(reader).reliable() && has(old(reader).data(), old(reader).pos(), len as int)
            && decode(datatype as int, bytes_at(old(reader).data(), old(reader).pos(), len as int)) is Some ==> r is Ok, //@P09
=== fn atom::data::ReadData::read_u8
    requires swf(old(self))
    ensures
        swf(final(self)), same(final(self), old(self)),
        r is Ok ==> old(self).pos() + 1 <= old(self).data().len() && final(self).pos() == old(self).pos() + 1
            && r->Ok_0 == old(self).data()[old(self).pos()],
        old(self).reliable() && old(self).pos() + 1 <= old(self).data().len() ==> r is Ok,
=== fn atom::data::ReadData::read_u16
    requires swf(old(self))
    ensures
        swf(final(self)), same(final(self), old(self)),
        r is Ok ==> old(self).pos() + 2 <= old(self).data().len() && final(self).pos() == old(self).pos() + 2
            && r->Ok_0 == be16(old(self).data().subrange(old(self).pos(), old(self).pos() + 2)),
        old(self).reliable() && old(self).pos() + 2 <= old(self).data().len() ==> r is Ok,
=== fn atom::data::ReadData::read_u32
    requires swf(old(self))
    ensures
        swf(final(self)), same(final(self), old(self)),
        r is Ok ==> old(self).pos() + 4 <= old(self).data().len() && final(self).pos() == old(self).pos() + 4
            && r->Ok_0 == be32(old(self).data().subrange(old(self).pos(), old(self).pos() + 4)),
        old(self).reliable() && old(self).pos() + 4 <= old(self).data().len() ==> r is Ok,
=== fn atom::data::ReadData::read_u64
    requires swf(old(self))
    ensures
        swf(final(self)), same(final(self), old(self)),
        r is Ok ==> old(self).pos() + 8 <= old(self).data().len() && final(self).pos() == old(self).pos() + 8
            && r->Ok_0 == be64(old(self).data().subrange(old(self).pos(), old(self).pos() + 8)),
        old(self).reliable() && old(self).pos() + 8 <= old(self).data().len() ==> r is Ok,
=== fn atom::data::ReadData::read_u8_vec
    requires swf(old(self))
    ensures
        swf(final(self)), same(final(self), old(self)),
        r is Ok ==> has(old(self).data(), old(self).pos(), len as int) && final(self).pos() == old(self).pos() + len
            && r->Ok_0@ == bytes_at(old(self).data(), old(self).pos(), len as int),
        old(self).reliable() && has(old(self).data(), old(self).pos(), len as int) ==> r is Ok,
--- at end
    proof { if __r is Ok { assert(__r->Ok_0@ =~= bytes_at(self.data(), old(self).pos(), len as int)); } }
=== fn atom::data::ReadData::read_utf8
    requires swf(old(self))
    ensures
        swf(final(self)), same(final(self), old(self)),
        r is Ok ==> has(old(self).data(), old(self).pos(), len as int) && final(self).pos() == old(self).pos() + len
            && valid_utf8(bytes_at(old(self).data(), old(self).pos(), len as int))
            && r->Ok_0@ == decode_utf8(bytes_at(old(self).data(), old(self).pos(), len as int)), //@P09
        old(self).reliable() && has(old(self).data(), old(self).pos(), len as int)
            && valid_utf8(bytes_at(old(self).data(), old(self).pos(), len as int)) ==> r is Ok, //@P09
=== fn atom::data::ReadData::read_utf16
    requires swf(old(self))
    ensures
        swf(final(self)), same(final(self), old(self)),
        r is Ok ==> has(old(self).data(), old(self).pos(), len as int) && final(self).pos() == old(self).pos() + len
            && valid16(be_units(bytes_at(old(self).data(), old(self).pos(), len as int)))
            && r->Ok_0@ == dec16(be_units(bytes_at(old(self).data(), old(self).pos(), len as int))), //@P09
        old(self).reliable() && has(old(self).data(), old(self).pos(), len as int)
            && valid16(be_units(bytes_at(old(self).data(), old(self).pos(), len as int))) ==> r is Ok, //@P09
--- closure 0 &[u8] -> (x: u16)
    requires __c0@.len() == 2
    ensures x == be16(seq![__c0@[0], __c0@[1]])
--- at after call collect 0
    proof {
        assert forall|i: int| 0 <= i < data@.len() implies data@[i] == be_units(buf@)[i] by {
            let c = buf@.subrange(2 * i, 2 * i + 2);
            assert(c =~= seq![c[0], c[1]]);
        }
        assert(data@ =~= be_units(buf@));
    }
=== fn atom::data::remaining_stream_len
    requires swf(old(reader)), old(reader).pos() <= old(reader).data().len(),
    ensures
        swf(final(reader)), same(final(reader), old(reader)),
        r is Ok ==> final(reader).pos() == old(reader).pos() && r->Ok_0 == old(reader).data().len() - old(reader).pos(),
        old(reader).reliable() ==> r is Ok,
