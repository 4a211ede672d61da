=== prelude
pub mod nt {
use vstd::prelude::*;
use crate::vp::*;
use crate::hs::*;
use crate::ks::*;
use crate::ls::*;
use crate::st::*;
use crate::sp::*;
use crate::wt::*;
use crate::atom::head::*;
use crate::atom::ident::*;
broadcast use crate::vp::group_vp;

// ===================================================================== rewriting the sizes of the enclosing atoms
pub open spec fn ushift(u: Seq<Upd>, o: int) -> Seq<Upd> { u.map_values(|x: Upd| Upd { pos: x.pos + o, size: x.size }) }
pub proof fn lemma_to_mod(n: int)
    requires 0 <= n <= u64::MAX
    ensures ((n as u64) as int) == n, n <= u32::MAX ==> ((n as u32) as int) == n
{}
/// the header at a position with another size
pub proof fn lemma_patch_head(b: Seq<u8>, u: Upd, f: Fourcc, df: int)
    requires
        0 <= u.pos, head_at(b, u.pos) == Some(Head { size: u.size, fourcc: f }), u.pos + hlen(u.size) <= b.len(),
        0 <= u.size.len + df <= u64::MAX, !u.size.ext ==> u.size.len + df <= u32::MAX,
    ensures patch(b, u, df) == b.take(u.pos) + ser_head(Head { size: resize(u.size, df), fourcc: f }) + b.skip(u.pos + hlen(u.size)) //@P03 //@P05
{
    let n = u.size.len + df;
    let p = u.pos;
    lemma_to_mod(n);
    let h = ser_head(Head { size: resize(u.size, df), fourcc: f });
    assert(fourcc_at(b, p + 4) == f);
    assert(f.0@ =~= b.subrange(p + 4, p + 8));
    let r = b.take(p) + h + b.skip(p + hlen(u.size));
    if u.size.ext {
        let b1 = overwrite(b, p, to32(1));
        assert(b1.len() == b.len());
        let b2 = overwrite(b1, p + 8, to64(n));
        assert(h =~= to32(1) + f.0@ + to64(n));
        assert(b2 =~= r);
    } else {
        assert(h =~= to32(n) + f.0@);
        assert(overwrite(b, p, to32(n)) =~= r);
    }
}
pub proof fn lemma_over_mid(x: Seq<u8>, y: Seq<u8>, z: Seq<u8>, p: int, w: Seq<u8>)
    requires 0 <= p, p + w.len() <= y.len()
    ensures overwrite(x + y + z, x.len() + p, w) == x + overwrite(y, p, w) + z, overwrite(y, p, w).len() == y.len()
{ assert(overwrite(x + y + z, x.len() + p, w) =~= x + overwrite(y, p, w) + z); }
pub proof fn lemma_patch_mid(x: Seq<u8>, y: Seq<u8>, z: Seq<u8>, u: Upd, df: int)
    requires 0 <= u.pos, u.pos + hlen(u.size) <= y.len()
    ensures patch(x + y + z, Upd { pos: x.len() + u.pos, size: u.size }, df) == x + patch(y, u, df) + z, patch(y, u, df).len() == y.len()
{
    let n = u.size.len + df;
    if u.size.ext {
        lemma_over_mid(x, y, z, u.pos, to32(1));
        lemma_over_mid(x, overwrite(y, u.pos, to32(1)), z, u.pos + 8, to64((n as u64) as int));
    } else {
        lemma_over_mid(x, y, z, u.pos, to32((n as u32) as int));
    }
}
/// the atoms inside of the one with the header `x`
pub proof fn lemma_patched_mid(b: Seq<u8>, u0: Upd, x: Seq<u8>, y: Seq<u8>, z: Seq<u8>, us: Seq<Upd>, df: int)
    requires patch(b, u0, df) == x + y + z, upds_ok(us, y.len() as int)
    ensures patched(b, seq![u0] + ushift(us, x.len() as int), df) == x + patched(y, us, df) + z, patched(y, us, df).len() == y.len()
    decreases us.len()
{
    let o = x.len() as int;
    let all = seq![u0] + ushift(us, o);
    if us.len() == 0 {
        assert(all.drop_last() =~= Seq::<Upd>::empty());
        assert(all.len() == 1 && all.last() == u0);
        assert(patched(b, all.drop_last(), df) == b);
        assert(patched(b, all, df) == patch(b, u0, df));
    } else {
        let p = us.drop_last();
        assert(upds_ok(p, y.len() as int)) by { assert forall|i: int| 0 <= i < p.len() implies 0 <= (#[trigger] p[i]).pos && p[i].pos + hlen(p[i].size) <= y.len() by { assert(us[i] == p[i]); } }
        lemma_patched_mid(b, u0, x, y, z, p, df);
        assert(all.drop_last() =~= seq![u0] + ushift(p, o));
        assert(us[us.len() - 1] == us.last());
        assert(all.last() == Upd { pos: o + us.last().pos, size: us.last().size });
        lemma_patch_mid(x, patched(y, p, df), z, us.last(), df);
    }
}
/// sizes rewritten, and a part replaced
pub open spec fn redone(b: Seq<u8>, us: Seq<Upd>, st: int, en: int, p: Seq<u8>, df: int) -> Seq<u8> { patched(b, us, df).take(st) + p + b.skip(en) }
pub open spec fn upd_fits(u: Upd, df: int) -> bool { 0 <= u.size.len + df <= u64::MAX && (!u.size.ext ==> u.size.len + df <= u32::MAX) }
/// one level of atoms
pub proof fn lemma_redone(b: Seq<u8>, k: Kid, us: Seq<Upd>, st: int, en: int, p: Seq<u8>, df: int)
    requires
        0 <= k.off, kend(k) <= b.len(), szf(k.head.size), head_at(b, k.off) == Some(k.head),
        upds_ok(us, st), 0 <= st <= en <= body(b, k).len(),
        upd_fits(Upd { pos: k.off, size: k.head.size }, df),
    ensures
        redone(b, seq![Upd { pos: k.off, size: k.head.size }] + ushift(us, kbeg(k)), kbeg(k) + st, kbeg(k) + en, p, df)
            == nested(b, k, redone(body(b, k), us, st, en, p, df), df), //@P03 //@P05
{
    let u0 = Upd { pos: k.off, size: k.head.size };
    let bo = body(b, k);
    lemma_patch_head(b, u0, k.head.fourcc, df);
    let h = ser_head(Head { size: resize(k.head.size, df), fourcc: k.head.fourcc });
    assert(k.head.fourcc.0@.len() == 4);
    assert(h.len() == hlen(k.head.size));
    let x = b.take(k.off) + h;
    let z = b.skip(kend(k));
    assert(patch(b, u0, df) =~= x + bo + z);
    assert(upds_ok(us, bo.len() as int)) by { assert forall|i: int| 0 <= i < us.len() implies 0 <= (#[trigger] us[i]).pos && us[i].pos + hlen(us[i].size) <= bo.len() by {} }
    lemma_patched_mid(b, u0, x, bo, z, us, df);
    assert(x.len() == kbeg(k));
    let q = patched(bo, us, df);
    let all = seq![u0] + ushift(us, kbeg(k));
    assert(patched(b, all, df) == x + q + z);
    assert((x + q + z).take(kbeg(k) + st) =~= x + q.take(st));
    assert(b.skip(kbeg(k) + en) =~= bo.skip(en) + z);
    assert(redone(b, all, kbeg(k) + st, kbeg(k) + en, p, df) =~= nested(b, k, redone(bo, us, st, en, p, df), df));
}
} // mod nt
