=== prelude
pub mod st {
use vstd::prelude::*;
use crate::vp::*;
use crate::vs::*;
use crate::ds::*;
use crate::hs::*;
use crate::ks::*;
use crate::pl::*;
use crate::fd::*;
use crate::fl::*;
use crate::ls::*;
use crate::wt::*;
use crate::atom::head::*;
use crate::atom::ident::*;
use crate::atom::{FindAtom, ParseAtom};
broadcast use crate::vp::group_vp;

// ===================================================================== places inside a container
pub open spec fn kbeg(k: Kid) -> int { k.off + hlen(k.head.size) }
pub open spec fn kend(k: Kid) -> int { k.off + k.head.size.len }
/// one atom behind the other
pub open spec fn ordered(ks: Seq<Kid>) -> bool { forall|i: int, j: int| 0 <= i < j < ks.len() ==> kend(#[trigger] ks[i]) <= (#[trigger] ks[j]).off }
pub proof fn lemma_ordered(b: Seq<u8>, s: int)
    requires kids(b, s) is Some
    ensures ordered(kids(b, s)->Some_0), within(kids(b, s)->Some_0, s, b.len() as int)
    decreases b.len() - s
{
    lemma_within(b, s);
    if s < b.len() {
        let h = head_at(b, s)->Some_0;
        lemma_szf(b, s);
        let q = s + h.size.len;
        let t = kids(b, q)->Some_0;
        lemma_ordered(b, q);
        let all = kids(b, s)->Some_0;
        assert(all == seq![Kid { off: s, head: h }] + t);
        assert forall|i: int, j: int| 0 <= i < j < all.len() implies kend(#[trigger] all[i]) <= (#[trigger] all[j]).off by {
            assert(all[j] == t[j - 1]);
            if i > 0 { assert(all[i] == t[i - 1]); }
        }
    }
}
/// the headers of the atoms are where they are found
pub proof fn lemma_heads(b: Seq<u8>, s: int)
    requires kids(b, s) is Some
    ensures forall|i: int| 0 <= i < kids(b, s)->Some_0.len() ==> head_at(b, (#[trigger] kids(b, s)->Some_0[i]).off) == Some(kids(b, s)->Some_0[i].head)
    decreases b.len() - s
{
    if s < b.len() {
        let h = head_at(b, s)->Some_0;
        lemma_szf(b, s);
        let t = kids(b, s + h.size.len)->Some_0;
        lemma_heads(b, s + h.size.len);
        let all = kids(b, s)->Some_0;
        assert(all == seq![Kid { off: s, head: h }] + t);
        assert forall|i: int| 0 <= i < all.len() implies head_at(b, (#[trigger] all[i]).off) == Some(all[i].head) by {
            if i > 0 { assert(all[i] == t[i - 1]); }
        }
    }
}
/// index of the last atom with the identifier, negative if there is none
pub open spec fn lidx(ks: Seq<Kid>, f: Fourcc) -> int
    decreases ks.len()
{
    if ks.len() == 0 { -1 } else if ks.last().head.fourcc == f { ks.len() - 1 } else { lidx(ks.drop_last(), f) }
}
pub proof fn lemma_lidx(b: Seq<u8>, ks: Seq<Kid>, f: Fourcc)
    ensures
        -1 <= lidx(ks, f) < ks.len(),
        lidx(ks, f) < 0 ==> last_kid(ks, f) is None && last_body(b, ks, f) is None,
        lidx(ks, f) >= 0 ==> ks[lidx(ks, f)].head.fourcc == f && last_kid(ks, f) == Some(ks[lidx(ks, f)]) && last_body(b, ks, f) == Some(body(b, ks[lidx(ks, f)])),
        forall|i: int| lidx(ks, f) < i < ks.len() ==> (#[trigger] ks[i]).head.fourcc != f,
    decreases ks.len()
{
    if ks.len() > 0 {
        let p = ks.drop_last();
        lemma_lidx(b, p, f);
        assert(ks[ks.len() - 1] == ks.last());
        assert forall|i: int| lidx(ks, f) < i < ks.len() implies (#[trigger] ks[i]).head.fourcc != f by { if i < ks.len() - 1 { assert(p[i] == ks[i]); } }
        if lidx(p, f) >= 0 { assert(p[lidx(p, f)] == ks[lidx(p, f)]); }
    }
}
/// index of the atom the content of which lies at `x`, negative if there is none
pub open spec fn kid_in(ks: Seq<Kid>, x: int) -> int
    decreases ks.len()
{
    if ks.len() == 0 { -1 } else if kbeg(ks.last()) <= x < kend(ks.last()) { ks.len() - 1 } else { kid_in(ks.drop_last(), x) }
}
pub proof fn lemma_kid_in(ks: Seq<Kid>, x: int)
    ensures
        -1 <= kid_in(ks, x) < ks.len(),
        kid_in(ks, x) >= 0 ==> kbeg(ks[kid_in(ks, x)]) <= x < kend(ks[kid_in(ks, x)]),
        kid_in(ks, x) < 0 ==> forall|i: int| 0 <= i < ks.len() ==> !(kbeg(#[trigger] ks[i]) <= x < kend(ks[i])),
    decreases ks.len()
{
    if ks.len() > 0 {
        let p = ks.drop_last();
        lemma_kid_in(p, x);
        assert(ks[ks.len() - 1] == ks.last());
        if kid_in(ks, x) < 0 { assert forall|i: int| 0 <= i < ks.len() implies !(kbeg(#[trigger] ks[i]) <= x < kend(ks[i])) by { if i < ks.len() - 1 { assert(p[i] == ks[i]); } } }
        if kid_in(p, x) >= 0 { assert(p[kid_in(p, x)] == ks[kid_in(p, x)]); }
    }
}
pub proof fn lemma_kid_is(ks: Seq<Kid>, x: int, i: int, s: int, n: int)
    requires ordered(ks), within(ks, s, n), 0 <= i < ks.len(), kbeg(ks[i]) <= x < kend(ks[i])
    ensures kid_in(ks, x) == i
{
    lemma_kid_in(ks, x);
    let j = kid_in(ks, x);
    if j < i && j >= 0 { assert(kend(ks[j]) <= ks[i].off); }
    if i < j { assert(kend(ks[i]) <= ks[j].off); }
}
/// headers are not part of the content of an atom
pub proof fn lemma_not_head(ks: Seq<Kid>, x: int, i: int, s: int, n: int)
    requires ordered(ks), within(ks, s, n), 0 <= i < ks.len(), ks[i].off <= x < kbeg(ks[i])
    ensures kid_in(ks, x) < 0
{
    lemma_kid_in(ks, x);
    let j = kid_in(ks, x);
    if 0 <= j < i { assert(kend(ks[j]) <= ks[i].off); }
    if i < j { assert(kend(ks[i]) <= ks[j].off); }
}
/// the same headers at the same places
pub proof fn lemma_same_kids(b: Seq<u8>, c: Seq<u8>, s: int)
    requires
        kids(b, s) is Some, c.len() == b.len(),
        forall|i: int, x: int| 0 <= i < kids(b, s)->Some_0.len() && (#[trigger] kids(b, s)->Some_0[i]).off <= x < kbeg(kids(b, s)->Some_0[i]) ==> #[trigger] c[x] == b[x],
    ensures kids(c, s) == kids(b, s)
    decreases b.len() - s
{
    if s < b.len() {
        let all = kids(b, s)->Some_0;
        let h = head_at(b, s)->Some_0;
        lemma_szf(b, s);
        let q = s + h.size.len;
        let t = kids(b, q)->Some_0;
        let k = Kid { off: s, head: h };
        assert(all == seq![k] + t);
        assert(all[0] == k);
        assert forall|i: int, x: int| 0 <= i < t.len() && (#[trigger] t[i]).off <= x < kbeg(t[i]) implies #[trigger] c[x] == b[x] by { assert(all[i + 1] == t[i]); }
        lemma_same_kids(b, c, q);
        assert forall|x: int| s <= x < s + hlen(h.size) implies #[trigger] c[x] == b[x] by { assert(all[0].off <= x < kbeg(all[0])); }
        assert(c.subrange(s, s + 4) =~= b.subrange(s, s + 4));
        assert(fourcc_at(c, s + 4) == fourcc_at(b, s + 4)) by { assert(c[s + 4] == b[s + 4] && c[s + 5] == b[s + 5] && c[s + 6] == b[s + 6] && c[s + 7] == b[s + 7]); }
        if h.size.ext { assert(c.subrange(s + 8, s + 16) =~= b.subrange(s + 8, s + 16)); }
        assert(head_at(c, s) == head_at(b, s));
    }
}

// ===================================================================== chunk offset tables
// levels: 0 32-bit table, 1 64-bit table, 2 sample table, 3 media information, 4 media, 5 track, 6 movie, 7 file
/// what to look for inside of atom `i`, negative if there is nothing
pub open spec fn next(l: int, ks: Seq<Kid>, i: int) -> int {
    if l == 2 { if i == lidx(ks, f_stco()) { 0 } else if i == lidx(ks, f_co64()) { 1 } else { -1 } }
    else if l == 3 { if i == lidx(ks, f_stbl()) { 2 } else { -1 } }
    else if l == 4 { if i == lidx(ks, f_minf()) { 3 } else { -1 } }
    else if l == 5 { if i == lidx(ks, f_mdia()) { 4 } else { -1 } }
    else if l == 6 { if ks[i].head.fourcc == f_trak() { 5 } else { -1 } }
    else if l == 7 { if i == lidx(ks, f_moov()) { 6 } else { -1 } }
    else { -1 }
}
/// all tables are well-formed and can be found
pub open spec fn tw(l: int, b: Seq<u8>) -> bool
    decreases l
{
    if l == 0 { stco_wf(b) } else if l == 1 { co64_wf(b) } else {
        kids(b, 0) is Some && forall|i: int| 0 <= i < kids(b, 0)->Some_0.len() ==> ({
            let n = next(l, kids(b, 0)->Some_0, i);
            0 <= n < l ==> tw(n, body(b, #[trigger] kids(b, 0)->Some_0[i]))
        })
    }
}
pub open spec fn shift(o: Option<(bool, int)>, n: int) -> Option<(bool, int)> { match o { None => None, Some((w, e)) => Some((w, e + n)) } }
/// kind and start of the table entry that `x` is a part of
pub open spec fn tab_at(l: int, b: Seq<u8>, x: int) -> Option<(bool, int)>
    decreases l
{
    if l == 0 { if 8 <= x < b.len() { Some((false, 8 + 4 * ((x - 8) / 4))) } else { None } }
    else if l == 1 { if 8 <= x < b.len() { Some((true, 8 + 8 * ((x - 8) / 8))) } else { None } }
    else {
        let ks = kids(b, 0)->Some_0;
        let i = kid_in(ks, x);
        let n = next(l, ks, i);
        if i >= 0 && 0 <= n < l { shift(tab_at(n, body(b, ks[i]), x - kbeg(ks[i])), kbeg(ks[i])) } else { None }
    }
}
pub open spec fn moved32(e: int, en: int, df: int) -> int { adj32(e as u32, en, df) as int }
pub open spec fn moved64(e: int, en: int, df: int) -> int { adj64(e as u64, en, df) as int }
/// a byte after all table entries have been adjusted
pub open spec fn adjusted(o: Option<(bool, int)>, b: Seq<u8>, x: int, en: int, df: int) -> u8 {
    match o {
        None => b[x],
        Some((w, e)) => if w { to64(moved64(be64(b.subrange(e, e + 8)), en, df))[x - e] } else { to32(moved32(be32(b.subrange(e, e + 4)), en, df))[x - e] },
    }
}
pub open spec fn adj_bytes(l: int, b: Seq<u8>, c: Seq<u8>, en: int, df: int) -> bool {
    c.len() == b.len() && forall|x: int| 0 <= x < b.len() ==> #[trigger] c[x] == adjusted(tab_at(l, b, x), b, x, en, df)
}
/// the same atoms, with all table entries adjusted
pub open spec fn mvr(l: int, b: Seq<u8>, c: Seq<u8>, en: int, df: int) -> bool
    decreases l
{
    c.len() == b.len() && (
    if l == 0 {
        c.take(8) == b.take(8)
            && forall|k: int| 0 <= k && 12 + 4 * k <= b.len() ==> be32(#[trigger] c.subrange(8 + 4 * k, 12 + 4 * k)) == moved32(be32(b.subrange(8 + 4 * k, 12 + 4 * k)), en, df)
    } else if l == 1 {
        c.take(8) == b.take(8)
            && forall|k: int| 0 <= k && 16 + 8 * k <= b.len() ==> be64(#[trigger] c.subrange(8 + 8 * k, 16 + 8 * k)) == moved64(be64(b.subrange(8 + 8 * k, 16 + 8 * k)), en, df)
    } else {
        kids(b, 0) is Some && kids(c, 0) == kids(b, 0) && forall|i: int| 0 <= i < kids(b, 0)->Some_0.len() ==> ({
            let n = next(l, kids(b, 0)->Some_0, i);
            let k = #[trigger] kids(b, 0)->Some_0[i];
            if 0 <= n < l { mvr(n, body(b, k), body(c, k), en, df) } else { body(c, k) == body(b, k) }
        })
    })
}
/// entries of the tables lie within the tables
pub proof fn lemma_tab_at(l: int, b: Seq<u8>, x: int)
    requires tw(l, b), 0 <= l, tab_at(l, b, x) is Some
    ensures ({
        let (w, e) = tab_at(l, b, x)->Some_0;
        0 <= e <= x && (w ==> e + 8 <= b.len() && x < e + 8) && (!w ==> e + 4 <= b.len() && x < e + 4)
    })
    decreases l
{
    if l == 0 { lemma_be32_range(b.subrange(4, 8)); }
    else if l == 1 { lemma_be32_range(b.subrange(4, 8)); }
    else {
        let ks = kids(b, 0)->Some_0;
        let i = kid_in(ks, x);
        lemma_ordered(b, 0);
        lemma_kid_in(ks, x);
        let n = next(l, ks, i);
        assert(tw(n, body(b, ks[i])));
        lemma_tab_at(n, body(b, ks[i]), x - kbeg(ks[i]));
    }
}
pub proof fn lemma_mvr32(b: Seq<u8>, c: Seq<u8>, en: int, df: int)
    requires adj_bytes(0, b, c, en, df), tw(0, b)
    ensures mvr(0, b, c, en, df)
{
    lemma_be32_range(b.subrange(4, 8));
    assert forall|x: int| 0 <= x < 8 implies #[trigger] c[x] == b[x] by { assert(tab_at(0, b, x) is None); }
    assert(c.take(8) =~= b.take(8));
    assert forall|k: int| 0 <= k && 12 + 4 * k <= b.len() implies be32(#[trigger] c.subrange(8 + 4 * k, 12 + 4 * k)) == moved32(be32(b.subrange(8 + 4 * k, 12 + 4 * k)), en, df) by {
        let e = 8 + 4 * k;
        let y = moved32(be32(b.subrange(e, e + 4)), en, df);
        assert forall|j: int| 0 <= j < 4 implies #[trigger] c.subrange(e, e + 4)[j] == to32(y)[j] by {
            assert((e + j - 8) / 4 == k);
            assert(tab_at(0, b, e + j) == Some((false, e)));
            assert(c[e + j] == adjusted(tab_at(0, b, e + j), b, e + j, en, df));
        }
        assert(c.subrange(e, e + 4) =~= to32(y));
        lemma_be32(y);
    }
}
pub proof fn lemma_mvr64(b: Seq<u8>, c: Seq<u8>, en: int, df: int)
    requires adj_bytes(1, b, c, en, df), tw(1, b)
    ensures mvr(1, b, c, en, df)
{
    lemma_be32_range(b.subrange(4, 8));
    assert forall|x: int| 0 <= x < 8 implies #[trigger] c[x] == b[x] by { assert(tab_at(1, b, x) is None); }
    assert(c.take(8) =~= b.take(8));
    assert forall|k: int| 0 <= k && 16 + 8 * k <= b.len() implies be64(#[trigger] c.subrange(8 + 8 * k, 16 + 8 * k)) == moved64(be64(b.subrange(8 + 8 * k, 16 + 8 * k)), en, df) by {
        let e = 8 + 8 * k;
        let y = moved64(be64(b.subrange(e, e + 8)), en, df);
        assert forall|j: int| 0 <= j < 8 implies #[trigger] c.subrange(e, e + 8)[j] == to64(y)[j] by {
            assert((e + j - 8) / 8 == k);
            assert(tab_at(1, b, e + j) == Some((true, e)));
            assert(c[e + j] == adjusted(tab_at(1, b, e + j), b, e + j, en, df));
        }
        assert(c.subrange(e, e + 8) =~= to64(y));
        lemma_be64(y);
    }
}
/// the bytes of one child
pub proof fn lemma_mvr_kid(l: int, b: Seq<u8>, c: Seq<u8>, i: int, en: int, df: int)
    requires adj_bytes(l, b, c, en, df), tw(l, b), 2 <= l, 0 <= i < kids(b, 0)->Some_0.len()
    ensures ({
        let ks = kids(b, 0)->Some_0;
        let n = next(l, ks, i);
        if 0 <= n < l { tw(n, body(b, ks[i])) && adj_bytes(n, body(b, ks[i]), body(c, ks[i]), en, df) } else { body(c, ks[i]) == body(b, ks[i]) }
    })
{
    let ks = kids(b, 0)->Some_0;
    let nb = b.len() as int;
    lemma_ordered(b, 0);
    let n = next(l, ks, i);
    let k = ks[i];
    let o = kbeg(k);
    let bb = body(b, k);
    let cc = body(c, k);
    assert(bb.len() == kend(k) - o && cc.len() == bb.len());
    if 0 <= n < l {
        assert(tw(n, bb));
        assert forall|x: int| 0 <= x < bb.len() implies #[trigger] cc[x] == adjusted(tab_at(n, bb, x), bb, x, en, df) by {
            lemma_kid_is(ks, o + x, i, 0, nb);
            assert(tab_at(l, b, o + x) == shift(tab_at(n, bb, o + x - o), o));
            assert(c[o + x] == adjusted(tab_at(l, b, o + x), b, o + x, en, df));
            assert(cc[x] == c[o + x] && bb[x] == b[o + x]);
            if tab_at(n, bb, x) is Some {
                lemma_tab_at(n, bb, x);
                let (w, e) = tab_at(n, bb, x)->Some_0;
                if w { assert(bb.subrange(e, e + 8) =~= b.subrange(o + e, o + e + 8)); } else { assert(bb.subrange(e, e + 4) =~= b.subrange(o + e, o + e + 4)); }
            }
        }
    } else {
        assert forall|x: int| 0 <= x < bb.len() implies #[trigger] cc[x] == bb[x] by {
            lemma_kid_is(ks, o + x, i, 0, nb);
            assert(tab_at(l, b, o + x) is None);
            assert(c[o + x] == adjusted(tab_at(l, b, o + x), b, o + x, en, df));
        }
        assert(cc =~= bb);
    }
}
pub proof fn lemma_mvr(l: int, b: Seq<u8>, c: Seq<u8>, en: int, df: int)
    requires adj_bytes(l, b, c, en, df), tw(l, b), 0 <= l
    ensures mvr(l, b, c, en, df) //@P03 //@P04
    decreases l
{
    if l == 0 { lemma_mvr32(b, c, en, df); }
    else if l == 1 { lemma_mvr64(b, c, en, df); }
    else {
        let ks = kids(b, 0)->Some_0;
        lemma_ordered(b, 0);
        assert forall|i: int, x: int| 0 <= i < ks.len() && (#[trigger] ks[i]).off <= x < kbeg(ks[i]) implies #[trigger] c[x] == b[x] by {
            lemma_not_head(ks, x, i, 0, b.len() as int);
            assert(tab_at(l, b, x) is None);
        }
        lemma_same_kids(b, c, 0);
        assert forall|i: int| 0 <= i < ks.len() implies ({
            let n = next(l, ks, i);
            let k = #[trigger] ks[i];
            if 0 <= n < l { mvr(n, body(b, k), body(c, k), en, df) } else { body(c, k) == body(b, k) }
        }) by {
            lemma_mvr_kid(l, b, c, i, en, df);
            let n = next(l, ks, i);
            if 0 <= n < l { lemma_mvr(n, body(b, ks[i]), body(c, ks[i]), en, df); }
        }
    }
}
/// nothing changes if nothing is moved
pub proof fn lemma_mvr_same(l: int, b: Seq<u8>, en: int, df: int)
    requires tw(l, b), en > u64::MAX, 0 <= l
    ensures mvr(l, b, b, en, df)
    decreases l
{
    if l == 0 {
        assert forall|k: int| 0 <= k && 12 + 4 * k <= b.len() implies be32(#[trigger] b.subrange(8 + 4 * k, 12 + 4 * k)) == moved32(be32(b.subrange(8 + 4 * k, 12 + 4 * k)), en, df) by { lemma_be32_range(b.subrange(8 + 4 * k, 12 + 4 * k)); }
    } else if l == 1 {
        assert forall|k: int| 0 <= k && 16 + 8 * k <= b.len() implies be64(#[trigger] b.subrange(8 + 8 * k, 16 + 8 * k)) == moved64(be64(b.subrange(8 + 8 * k, 16 + 8 * k)), en, df) by { lemma_be64_range(b.subrange(8 + 8 * k, 16 + 8 * k)); }
    } else {
        let ks = kids(b, 0)->Some_0;
        assert forall|i: int| 0 <= i < ks.len() implies ({
            let n = next(l, ks, i);
            let k = #[trigger] ks[i];
            if 0 <= n < l { mvr(n, body(b, k), body(b, k), en, df) } else { true }
        }) by {
            let n = next(l, ks, i);
            if 0 <= n < l { assert(tw(n, body(b, ks[i]))); lemma_mvr_same(n, body(b, ks[i]), en, df); }
        }
    }
}
} // mod st
