=== prelude
pub mod hs {
use vstd::prelude::*;
use crate::vp::*;
use crate::ds::*;
use crate::atom::head::*;
use crate::atom::ident::*;
broadcast use crate::vp::group_vp;

pub open spec fn hlen(s: Size) -> int { if s.ext { 16 } else { 8 } }
pub open spec fn clen(s: Size) -> int { s.len - hlen(s) }
/// a size that a header can hold and a stream can have
pub open spec fn szf(s: Size) -> bool {
    if s.ext { 16 <= s.len <= i64::MAX } else { 8 <= s.len <= u32::MAX }
}
/// the size of an atom with `n` bytes of content: 64 bit exactly if 32 bits do not suffice
pub open spec fn size_of_content(n: int) -> Size {
    if n + 8 > u32::MAX { Size { ext: true, len: (n + 16) as u64 } } else { Size { ext: false, len: (n + 8) as u64 } }
}
pub open spec fn fourcc_at(d: Seq<u8>, p: int) -> Fourcc { Fourcc([d[p], d[p + 1], d[p + 2], d[p + 3]]) }
/// the atom header at offset `p`
pub open spec fn head_at(d: Seq<u8>, p: int) -> Option<Head> {
    if p + 8 > d.len() { None } else {
        let l = be32(d.subrange(p, p + 4));
        let f = fourcc_at(d, p + 4);
        if l == 1 {
            if p + 16 > d.len() { None } else {
                let x = be64(d.subrange(p + 8, p + 16));
                if x < 16 || x > i64::MAX { None } else { Some(Head { size: Size { ext: true, len: x as u64 }, fourcc: f }) }
            }
        } else if l < 8 { None } else { Some(Head { size: Size { ext: false, len: l as u64 }, fourcc: f }) }
    }
}
pub open spec fn ser_head(h: Head) -> Seq<u8> {
    if h.size.ext { to32(1) + h.fourcc.0@ + to64(h.size.len as int) } else { to32(h.size.len as int) + h.fourcc.0@ }
}
/// a serialized atom
pub open spec fn bx(f: Fourcc, c: Seq<u8>) -> Seq<u8> {
    ser_head(Head { size: size_of_content(c.len() as int), fourcc: f }) + c
}
pub proof fn lemma_szf(d: Seq<u8>, p: int)
    requires p >= 0, head_at(d, p) is Some
    ensures szf(head_at(d, p)->Some_0.size), p + hlen(head_at(d, p)->Some_0.size) <= d.len()
{ lemma_be32_range(d.subrange(p, p + 4)); if p + 16 <= d.len() { lemma_be64_range(d.subrange(p + 8, p + 16)); } }
pub proof fn lemma_fourcc(a: Fourcc, b: Fourcc)
    requires a.0@ == b.0@
    ensures a == b
{ assert(a.0 =~= b.0); }
/// a header that has been written is read back
pub proof fn lemma_head(h: Head, d: Seq<u8>, p: int)
    requires
        szf(h.size), 0 <= p, p + hlen(h.size) <= d.len(),
        d.subrange(p, p + hlen(h.size)) == ser_head(h),
    ensures head_at(d, p) == Some(h) //@P17 //@P08
{
    let s = d.subrange(p, p + hlen(h.size));
    let len = h.size.len as int;
    let f = h.fourcc.0@;
    assert(d.subrange(p, p + 4) =~= s.subrange(0, 4));
    assert(forall|i: int| 0 <= i < s.len() ==> d[p + i] == s[i]);
    assert(fourcc_at(d, p + 4).0@ =~= f) by {
        assert(d[p + 4] == s[4] && d[p + 5] == s[5] && d[p + 6] == s[6] && d[p + 7] == s[7]);
    }
    lemma_fourcc(fourcc_at(d, p + 4), h.fourcc);
    if h.size.ext {
        assert(s.subrange(0, 4) =~= to32(1));
        lemma_be32(1);
        assert(f.len() == 4);
        assert(s.subrange(8, 16) =~= to64(len));
        assert(d.subrange(p + 8, p + 16) =~= s.subrange(8, 16));
        lemma_be64(len);
    } else {
        assert(s.subrange(0, 4) =~= to32(len));
        lemma_be32(len);
    }
}
} // mod hs

=== fn atom::head::Size::from
    requires content_len <= i64::MAX
    ensures r == size_of_content(content_len as int), //@P17 //@P08
=== fn atom::head::Size::ext
    ensures r == self.ext,
=== fn atom::head::Size::len
    ensures r == self.len,
=== fn atom::head::Size::head_len
    ensures r == hlen(*self), //@P17
=== fn atom::head::Size::content_len
    requires self.len >= hlen(*self) //@P06
    ensures r == clen(*self), //@P17
=== fn atom::head::<Head as Deref>::deref
    ensures *r == self.size,
=== fn atom::head::Head::new
    ensures r == (Head { size: Size { ext, len }, fourcc }),
=== fn atom::head::Head::from
    ensures r == (Head { size, fourcc }),
=== fn atom::head::Head::size
    ensures r == self.size,
=== fn atom::head::Head::fourcc
    ensures r == self.fourcc,
=== fn atom::head::parse_head
    requires swf(old(reader))
    ensures
        swf(final(reader)), same(final(reader), old(reader)),
        r is Ok ==> head_at(old(reader).data(), old(reader).pos()) == Some(r->Ok_0) //@P17
            && final(reader).pos() == old(reader).pos() + hlen(r->Ok_0.size) //@P17
            && szf(r->Ok_0.size) && final(reader).pos() <= old(reader).data().len(), //@P06
        old(reader).reliable() && head_at(old(reader).data(), old(reader).pos()) is Some ==> r is Ok, //@P17
--- at start
    let ghost d = reader.data();
    let ghost p = reader.pos();
--- at end
    proof {
        if __r is Ok {
            assert(__r->Ok_0.fourcc.0@ =~= fourcc_at(d, p + 4).0@);
            lemma_fourcc(__r->Ok_0.fourcc, fourcc_at(d, p + 4));
            lemma_szf(d, p);
        }
    }
=== fn atom::head::write_head
    requires old(writer).pos() >= 0
    ensures
        final(writer).reliable() == old(writer).reliable(), final(writer).tail() == old(writer).tail(), final(writer).pos() >= 0,
        r is Ok ==> wrote(old(writer), final(writer), ser_head(head)), //@P08 //@P17
        old(writer).reliable() ==> r is Ok,
--- at start
    proof { lemma_acc0(writer); }
--- at end
    proof {
        assert(Seq::<u8>::empty() + to32(1) + head.fourcc.0@ + to64(head.size.len as int) =~= to32(1) + head.fourcc.0@ + to64(head.size.len as int));
        assert(Seq::<u8>::empty() + to32((head.size.len as u32) as int) + head.fourcc.0@ =~= to32((head.size.len as u32) as int) + head.fourcc.0@);
        let l = head.size.len;
        assert(((l as u32) as u64) == l % 0x1_0000_0000u64) by (bit_vector);
        lemma_to32_low(head.size.len as int, (head.size.len as u32) as int);
    }
=== fn atom::head::parse_full_head
    requires swf(old(reader))
    ensures
        swf(final(reader)), same(final(reader), old(reader)),
        r is Ok ==> old(reader).pos() + 4 <= old(reader).data().len() && final(reader).pos() == old(reader).pos() + 4
            && r->Ok_0.0 == old(reader).data()[old(reader).pos()]
            && r->Ok_0.1@ == old(reader).data().subrange(old(reader).pos() + 1, old(reader).pos() + 4),
        old(reader).reliable() && old(reader).pos() + 4 <= old(reader).data().len() ==> r is Ok,
=== fn atom::head::write_full_head
    requires old(writer).pos() >= 0
    ensures
        final(writer).reliable() == old(writer).reliable(), final(writer).tail() == old(writer).tail(), final(writer).pos() >= 0,
        r is Ok ==> wrote(old(writer), final(writer), seq![version] + flags@), //@P08
        old(writer).reliable() ==> r is Ok,
--- at start
    proof { lemma_acc0(writer); }
--- at end
    proof { assert(Seq::<u8>::empty() + seq![version] + flags@ =~= seq![version] + flags@); }
=== fn atom::head::<AtomBounds as Deref>::deref
    ensures *r == self.size,
=== fn atom::head::AtomBounds::pos
    ensures r == self.pos,
=== fn atom::head::AtomBounds::size
    ensures r == self.size,
=== fn atom::head::AtomBounds::content_pos
    requires self.pos + 16 <= u64::MAX
    ensures r == self.pos + hlen(self.size),
=== fn atom::head::AtomBounds::end
    requires self.pos + self.size.len <= u64::MAX
    ensures r == self.pos + self.size.len,
=== fn atom::head::find_bounds
    requires swf(old(reader)), old(reader).pos() >= hlen(size)
    ensures
        swf(final(reader)), same(final(reader), old(reader)), final(reader).tail() == old(reader).tail(),
        r is Ok ==> r->Ok_0.pos == old(reader).pos() - hlen(size) && r->Ok_0.size == size && final(reader).pos() == old(reader).pos(),
        old(reader).reliable() && old(reader).pos() <= i64::MAX ==> r is Ok,
=== fn atom::head::seek_to_end
    requires swf(old(reader)), bounds.pos + bounds.size.len <= u64::MAX
    ensures
        swf(final(reader)), same(final(reader), old(reader)), final(reader).tail() == old(reader).tail(),
        r is Ok ==> final(reader).pos() == bounds.pos + bounds.size.len,
        old(reader).reliable() && bounds.pos + bounds.size.len <= i64::MAX ==> r is Ok,
