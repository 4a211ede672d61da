=== prelude
pub mod sp {
use vstd::prelude::*;
use crate::vp::*;
use crate::hs::*;
use crate::ks::*;
use crate::ls::*;
use crate::st::*;
use crate::atom::head::*;
use crate::atom::ident::*;
broadcast use crate::vp::group_vp;

// ===================================================================== replacing atoms of a container
pub open spec fn kshift(ks: Seq<Kid>, n: int) -> Seq<Kid> { ks.map_values(|k: Kid| Kid { off: k.off + n, head: k.head }) }
/// atoms behind other data
pub proof fn lemma_kids_right(a: Seq<u8>, y: Seq<u8>, q: int)
    requires 0 <= q, kids(y, q) is Some
    ensures kids(a + y, a.len() + q) == Some(kshift(kids(y, q)->Some_0, a.len() as int))
    decreases y.len() - q
{
    let n = a.len() as int;
    if q == y.len() {
        assert(kshift(Seq::<Kid>::empty(), n) =~= Seq::<Kid>::empty());
    } else {
        let h = head_at(y, q)->Some_0;
        lemma_head_right(a, y, q);
        lemma_kids_right(a, y, q + h.size.len);
        let t = kids(y, q + h.size.len)->Some_0;
        assert(kids(a + y, n + q) == Some(seq![Kid { off: n + q, head: h }] + kshift(t, n)));
        assert(seq![Kid { off: n + q, head: h }] + kshift(t, n) =~= kshift(seq![Kid { off: q, head: h }] + t, n));
    }
}
pub proof fn lemma_kids_cat(a: Seq<u8>, y: Seq<u8>, s: int)
    requires 0 <= s, kids(a, s) is Some, kids(y, 0) is Some
    ensures kids(a + y, s) == Some(kids(a, s)->Some_0 + kshift(kids(y, 0)->Some_0, a.len() as int))
    decreases a.len() - s
{
    let n = a.len() as int;
    let ys = kshift(kids(y, 0)->Some_0, n);
    if s == n {
        lemma_kids_right(a, y, 0);
        assert(Seq::<Kid>::empty() + ys =~= ys);
    } else {
        let h = head_at(a, s)->Some_0;
        lemma_head_left(a, y, s);
        lemma_kids_cat(a, y, s + h.size.len);
        let t = kids(a, s + h.size.len)->Some_0;
        let k = Kid { off: s, head: h };
        assert(kids(a + y, s) == Some(seq![k] + (t + ys)));
        assert(seq![k] + (t + ys) =~= (seq![k] + t) + ys);
    }
}
/// two groups of atoms, one behind the other
pub proof fn lemma_cat(a: Seq<u8>, y: Seq<u8>, s: int)
    requires 0 <= s, kids(a, s) is Some, kids(y, 0) is Some
    ensures kids(a + y, s) is Some, lst(a + y, s) == lst(a, s) + lst(y, 0)
{
    let n = a.len() as int;
    let ka = kids(a, s)->Some_0;
    let ky = kids(y, 0)->Some_0;
    lemma_kids_cat(a, y, s);
    lemma_within(a, s);
    lemma_within(y, 0);
    lemma_ats_left(a, y, ka, s);
    let ks = kshift(ky, n);
    assert forall|i: int| 0 <= i < ky.len() implies kat(a + y, #[trigger] ks[i]) == kat(y, ky[i]) by {
        let k = ky[i];
        assert(ks[i] == Kid { off: k.off + n, head: k.head });
        assert(body(a + y, ks[i]) =~= body(y, k));
    }
    assert(ats(a + y, ka + ks) =~= ats(a + y, ka) + ats(a + y, ks));
    assert(ats(a + y, ks) =~= ats(y, ky));
}
/// where atom `i` starts
pub open spec fn kpos(b: Seq<u8>, s: int, i: int) -> int { if i < kids(b, s)->Some_0.len() { kids(b, s)->Some_0[i].off } else { b.len() as int } }
pub proof fn lemma_kpos0(b: Seq<u8>, s: int)
    requires kids(b, s) is Some, 0 <= s
    ensures kpos(b, s, 0) == s, s <= b.len()
{}
/// the atoms before and behind a position
pub proof fn lemma_split_kids(b: Seq<u8>, s: int, i: int)
    requires 0 <= s, kids(b, s) is Some, 0 <= i <= kids(b, s)->Some_0.len()
    ensures
        s <= kpos(b, s, i) <= b.len(),
        kids(b.take(kpos(b, s, i)), s) == Some(kids(b, s)->Some_0.take(i)),
        kids(b, kpos(b, s, i)) == Some(kids(b, s)->Some_0.skip(i)),
        0 < i ==> kend(kids(b, s)->Some_0[i - 1]) == kpos(b, s, i),
    decreases b.len() - s
{
    let all = kids(b, s)->Some_0;
    let o = kpos(b, s, i);
    if s == b.len() {
        assert(i == 0);
        assert(all.take(0) =~= Seq::<Kid>::empty());
        assert(all.skip(0) =~= all);
        assert(b.take(o).len() == s);
    } else {
        let h = head_at(b, s)->Some_0;
        lemma_szf(b, s);
        let q = s + h.size.len;
        let t = kids(b, q)->Some_0;
        let k = Kid { off: s, head: h };
        assert(all == seq![k] + t);
        if i == 0 {
            assert(all[0] == k);
            assert(o == s);
            assert(b.take(o).len() == s);
            assert(all.take(0) =~= Seq::<Kid>::empty());
            assert(all.skip(0) =~= all);
        } else {
            assert(i - 1 < t.len() ==> all[i] == t[i - 1]);
            assert(kpos(b, q, i - 1) == o);
            lemma_split_kids(b, q, i - 1);
            let c = b.take(o);
            assert(b =~= c + b.skip(o));
            assert(q <= o);
            assert(c.subrange(s, s + 4) =~= b.subrange(s, s + 4));
            if h.size.ext { assert(c.subrange(s + 8, s + 16) =~= b.subrange(s + 8, s + 16)); }
            assert(fourcc_at(c, s + 4) == fourcc_at(b, s + 4));
            assert(head_at(c, s) == Some(h));
            assert(kids(c, s) == Some(seq![k] + t.take(i - 1)));
            assert(seq![k] + t.take(i - 1) =~= all.take(i));
            assert(t.skip(i - 1) =~= all.skip(i));
            if i == 1 { assert(all[0] == k); } else { assert(all[i - 1] == t[i - 2]); }
        }
    }
}
pub proof fn lemma_kids_skip(b: Seq<u8>, o: int, q: int)
    requires 0 <= o <= q, kids(b, q) is Some
    ensures kids(b.skip(o), q - o) == Some(kshift(kids(b, q)->Some_0, -o))
    decreases b.len() - q
{
    let c = b.skip(o);
    if q == b.len() {
        assert(kshift(Seq::<Kid>::empty(), -o) =~= Seq::<Kid>::empty());
    } else {
        let h = head_at(b, q)->Some_0;
        lemma_szf(b, q);
        lemma_kids_skip(b, o, q + h.size.len);
        let t = kids(b, q + h.size.len)->Some_0;
        let p = q - o;
        assert(c.subrange(p, p + 4) =~= b.subrange(q, q + 4));
        if h.size.ext { assert(c.subrange(p + 8, p + 16) =~= b.subrange(q + 8, q + 16)); }
        assert(fourcc_at(c, p + 4) == fourcc_at(b, q + 4));
        assert(head_at(c, p) == Some(h));
        assert(kids(c, p) == Some(seq![Kid { off: p, head: h }] + kshift(t, -o)));
        assert(seq![Kid { off: p, head: h }] + kshift(t, -o) =~= kshift(seq![Kid { off: q, head: h }] + t, -o));
    }
}
pub proof fn lemma_split(b: Seq<u8>, s: int, i: int)
    requires 0 <= s, kids(b, s) is Some, 0 <= i <= kids(b, s)->Some_0.len()
    ensures ({
        let o = kpos(b, s, i);
        &&& s <= o <= b.len()
        &&& kids(b.take(o), s) is Some && lst(b.take(o), s) == lst(b, s).take(i)
        &&& kids(b.skip(o), 0) is Some && lst(b.skip(o), 0) == lst(b, s).skip(i)
    }),
{
    let o = kpos(b, s, i);
    let ks = kids(b, s)->Some_0;
    lemma_split_kids(b, s, i);
    lemma_ordered(b, s);
    lemma_within(b.take(o), s);
    lemma_ats_left(b.take(o), b.skip(o), ks.take(i), s);
    assert(b.take(o) + b.skip(o) =~= b);
    assert(ats(b, ks.take(i)) =~= ats(b, ks).take(i));
    lemma_kids_skip(b, o, o);
    let z = kshift(ks.skip(i), -o);
    assert forall|j: int| 0 <= j < z.len() implies kat(b.skip(o), #[trigger] z[j]) == kat(b, ks[i + j]) by {
        let k = ks[i + j];
        assert(ks.skip(i)[j] == k);
        assert(z[j] == Kid { off: k.off - o, head: k.head });
        assert(o <= k.off) by { if j > 0 { assert(kend(ks[i]) <= ks[i + j].off); } }
        assert(body(b.skip(o), z[j]) =~= body(b, k));
    }
    assert(ats(b.skip(o), z) =~= ats(b, ks).skip(i));
}
/// the atoms `i` to `j` are replaced
pub proof fn lemma_splice(b: Seq<u8>, s: int, i: int, j: int, x: Seq<u8>)
    requires 0 <= s, kids(b, s) is Some, 0 <= i <= j <= kids(b, s)->Some_0.len(), kids(x, 0) is Some
    ensures ({
        let c = b.take(kpos(b, s, i)) + x + b.skip(kpos(b, s, j));
        kids(c, s) is Some && lst(c, s) == lst(b, s).take(i) + lst(x, 0) + lst(b, s).skip(j) && c.take(s) == b.take(s)
    }),
{
    let o = kpos(b, s, i);
    let p = kpos(b, s, j);
    lemma_split(b, s, i);
    lemma_split(b, s, j);
    lemma_cat(b.take(o), x, s);
    lemma_cat(b.take(o) + x, b.skip(p), s);
    assert((b.take(o) + x + b.skip(p)).take(s) =~= b.take(s));
}
/// one atom with its header
pub proof fn lemma_atom(h: Head, c: Seq<u8>)
    requires szf(h.size), h.size.len == hlen(h.size) + c.len()
    ensures kids(ser_head(h) + c, 0) is Some, lst(ser_head(h) + c, 0) == seq![At { f: h.fourcc, ext: h.size.ext, c }], (ser_head(h) + c).len() == h.size.len
{
    let x = ser_head(h) + c;
    assert(h.fourcc.0@.len() == 4);
    assert(x.subrange(0, hlen(h.size)) =~= ser_head(h));
    lemma_head(h, x, 0);
    assert(kids(x, x.len() as int) == Some(Seq::<Kid>::empty()));
    let k = Kid { off: 0, head: h };
    assert(kids(x, 0) == Some(seq![k] + Seq::<Kid>::empty()));
    assert(seq![k] + Seq::<Kid>::empty() =~= seq![k]);
    assert(body(x, k) =~= c);
    assert(ats(x, seq![k]) =~= seq![At { f: h.fourcc, ext: h.size.ext, c }]);
}
/// the size of an atom with other content
pub open spec fn resize(s: Size, n: int) -> Size { Size { ext: s.ext, len: (s.len + n) as u64 } }
/// atom `i` with the content `y`
pub open spec fn nested(b: Seq<u8>, k: Kid, y: Seq<u8>, n: int) -> Seq<u8> {
    b.take(k.off) + (ser_head(Head { size: resize(k.head.size, n), fourcc: k.head.fourcc }) + y) + b.skip(kend(k))
}
pub proof fn lemma_nested(b: Seq<u8>, s: int, i: int, y: Seq<u8>, n: int)
    requires
        0 <= s, kids(b, s) is Some, 0 <= i < kids(b, s)->Some_0.len(),
        y.len() == clen(kids(b, s)->Some_0[i].head.size) + n, szf(resize(kids(b, s)->Some_0[i].head.size, n)),
        0 <= kids(b, s)->Some_0[i].head.size.len + n <= u64::MAX,
    ensures ({
        let k = kids(b, s)->Some_0[i];
        let c = nested(b, k, y, n);
        &&& kids(c, s) is Some
        &&& lst(c, s) == lst(b, s).update(i, At { f: k.head.fourcc, ext: k.head.size.ext, c: y })
        &&& c.len() == b.len() + n
        &&& c.take(s) == b.take(s)
    }),
{
    let ks = kids(b, s)->Some_0;
    let k = ks[i];
    let h = Head { size: resize(k.head.size, n), fourcc: k.head.fourcc };
    lemma_atom(h, y);
    lemma_split_kids(b, s, i);
    lemma_split_kids(b, s, i + 1);
    lemma_ordered(b, s);
    lemma_splice(b, s, i, i + 1, ser_head(h) + y);
    let l = lst(b, s);
    let a = At { f: k.head.fourcc, ext: k.head.size.ext, c: y };
    assert(l.take(i) + seq![a] + l.skip(i + 1) =~= l.update(i, a));
}
} // mod sp
