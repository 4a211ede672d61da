=== prelude
global size_of usize == 8;

pub mod vp {
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;

// ===================================================================== sequences
pub open spec fn lim() -> int { 0x4000_0000_0000_0000 }

/// `d` with the bytes `b` stored at offset `p`
pub open spec fn overwrite(d: Seq<u8>, p: int, b: Seq<u8>) -> Seq<u8> {
    if b.len() == 0 {
        d
    } else if p > d.len() {
        d + zeros(p - d.len()) + b
    } else if p + b.len() >= d.len() {
        d.take(p) + b
    } else {
        d.take(p) + b + d.skip(p + b.len())
    }
}

pub proof fn lemma_overwrite(d: Seq<u8>, p: int, a: Seq<u8>, b: Seq<u8>)
    requires p >= 0
    ensures overwrite(overwrite(d, p, a), p + a.len(), b) == overwrite(d, p, a + b)
{
    assert(overwrite(overwrite(d, p, a), p + a.len(), b) =~= overwrite(d, p, a + b));
}
pub open spec fn rep<T>(x: T, n: int) -> Seq<T> { Seq::new(n as nat, |i: int| x) }
pub open spec fn zeros(n: int) -> Seq<u8> { rep(0u8, n) }
pub fn arr1<T>(a0: T) -> (r: [T; 1])
    ensures r@ == seq![a0]
{ let r = [a0]; assert(r@ =~= seq![a0]); r }
pub fn arr2<T>(a0: T, a1: T) -> (r: [T; 2])
    ensures r@ == seq![a0, a1]
{ let r = [a0, a1]; assert(r@ =~= seq![a0, a1]); r }
pub fn arr3<T>(a0: T, a1: T, a2: T) -> (r: [T; 3])
    ensures r@ == seq![a0, a1, a2]
{ let r = [a0, a1, a2]; assert(r@ =~= seq![a0, a1, a2]); r }
pub fn arr4<T>(a0: T, a1: T, a2: T, a3: T) -> (r: [T; 4])
    ensures r@ == seq![a0, a1, a2, a3]
{ let r = [a0, a1, a2, a3]; assert(r@ =~= seq![a0, a1, a2, a3]); r }
pub fn arr5<T>(a0: T, a1: T, a2: T, a3: T, a4: T) -> (r: [T; 5])
    ensures r@ == seq![a0, a1, a2, a3, a4]
{ let r = [a0, a1, a2, a3, a4]; assert(r@ =~= seq![a0, a1, a2, a3, a4]); r }
pub fn arr6<T>(a0: T, a1: T, a2: T, a3: T, a4: T, a5: T) -> (r: [T; 6])
    ensures r@ == seq![a0, a1, a2, a3, a4, a5]
{ let r = [a0, a1, a2, a3, a4, a5]; assert(r@ =~= seq![a0, a1, a2, a3, a4, a5]); r }
pub fn arr7<T>(a0: T, a1: T, a2: T, a3: T, a4: T, a5: T, a6: T) -> (r: [T; 7])
    ensures r@ == seq![a0, a1, a2, a3, a4, a5, a6]
{ let r = [a0, a1, a2, a3, a4, a5, a6]; assert(r@ =~= seq![a0, a1, a2, a3, a4, a5, a6]); r }
pub fn arr8<T>(a0: T, a1: T, a2: T, a3: T, a4: T, a5: T, a6: T, a7: T) -> (r: [T; 8])
    ensures r@ == seq![a0, a1, a2, a3, a4, a5, a6, a7]
{ let r = [a0, a1, a2, a3, a4, a5, a6, a7]; assert(r@ =~= seq![a0, a1, a2, a3, a4, a5, a6, a7]); r }
/// `[x; N]`
pub fn arr_rep<T: Copy, const N: usize>(x: T) -> (r: [T; N])
    ensures r@ == rep(x, N as int)
{ let r = vstd::array::array_fill_for_copy_types::<T, N>(x); assert(r@ =~= rep(x, N as int)); r }

/// the present values of a sequence of options, in order
pub open spec fn somes<T>(s: Seq<Option<T>>) -> Seq<T>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else {
        match s.last() {
            Some(x) => somes(s.drop_last()).push(x),
            None => somes(s.drop_last()),
        }
    }
}

pub open spec fn flat<T>(s: Seq<Seq<T>>) -> Seq<T>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + s.last() }
}

pub open spec fn isum(s: Seq<int>) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { isum(s.drop_last()) + s.last() }
}

pub open spec fn u64s(s: Seq<u64>) -> Seq<int> { s.map_values(|x: u64| x as int) }

// ===================================================================== big endian integers
#[verifier::opaque]
pub open spec fn be16(b: Seq<u8>) -> int { b[0] * 0x100 + b[1] }
#[verifier::opaque]
pub open spec fn be32(b: Seq<u8>) -> int { b[0] * 0x100_0000 + b[1] * 0x1_0000 + b[2] * 0x100 + b[3] }
#[verifier::opaque]
pub open spec fn be64(b: Seq<u8>) -> int { be32(b) * 0x1_0000_0000 + be32(b.skip(4)) }

#[verifier::opaque]
pub open spec fn to16(x: int) -> Seq<u8> { seq![(x / 0x100 % 0x100) as u8, (x % 0x100) as u8] }
#[verifier::opaque]
pub open spec fn to32(x: int) -> Seq<u8> {
    seq![(x / 0x100_0000 % 0x100) as u8, (x / 0x1_0000 % 0x100) as u8, (x / 0x100 % 0x100) as u8, (x % 0x100) as u8]
}
#[verifier::opaque]
pub open spec fn to64(x: int) -> Seq<u8> { to32(x / 0x1_0000_0000) + to32(x % 0x1_0000_0000) }

pub trait MBe<const N: usize>: Sized {
    spec fn int(self) -> int;
    spec fn enc(x: int) -> Seq<u8>;
    fn m_to_be_bytes(self) -> (r: [u8; N])
        ensures r@ == Self::enc(self.int());
    fn m_to_le_bytes(self) -> (r: [u8; N])
        ensures r@ == Self::enc(self.int()).reverse();
}
impl MBe<2> for u16 {
    open spec fn int(self) -> int { self as int }
    open spec fn enc(x: int) -> Seq<u8> { to16(x) }
    fn m_to_be_bytes(self) -> (r: [u8; 2]) {
        assert(self.int() == self as int && <u16 as MBe<2>>::enc(self.int()) == to16(self as int));
        u16_to_be_bytes(self)
    }
    fn m_to_le_bytes(self) -> (r: [u8; 2]) {
        assert(self.int() == self as int && <u16 as MBe<2>>::enc(self.int()) == to16(self as int));
        u16_to_le_bytes(self)
    }
}
pub fn u16_to_be_bytes(x: u16) -> (r: [u8; 2])
    ensures r@ == to16(x as int)
{
    reveal(to16);
    let r = [(x / 0x100 % 0x100) as u8, (x % 0x100) as u8];
    assert(r@ =~= to16(x as int));
    r
}
pub fn u16_from_be_bytes(x: [u8; 2]) -> (r: u16)
    ensures r == be16(x@)
{ reveal(be16); x[0] as u16 * 0x100 + x[1] as u16 }
pub fn u16_to_le_bytes(x: u16) -> (r: [u8; 2])
    ensures r@ == to16(x as int).reverse()
{
    reveal(to16);
    let r = [(x % 0x100) as u8, (x / 0x100 % 0x100) as u8];
    assert(r@ =~= to16(x as int).reverse());
    r
}
pub fn u16_from_le_bytes(x: [u8; 2]) -> (r: u16)
    ensures r == be16(x@.reverse())
{ reveal(be16); x[1] as u16 * 0x100 + x[0] as u16 }
impl MBe<4> for u32 {
    open spec fn int(self) -> int { self as int }
    open spec fn enc(x: int) -> Seq<u8> { to32(x) }
    fn m_to_be_bytes(self) -> (r: [u8; 4]) {
        assert(self.int() == self as int && <u32 as MBe<4>>::enc(self.int()) == to32(self as int));
        u32_to_be_bytes(self)
    }
    fn m_to_le_bytes(self) -> (r: [u8; 4]) {
        assert(self.int() == self as int && <u32 as MBe<4>>::enc(self.int()) == to32(self as int));
        u32_to_le_bytes(self)
    }
}
pub fn u32_to_be_bytes(x: u32) -> (r: [u8; 4])
    ensures r@ == to32(x as int)
{
    reveal(to32);
    let r = [(x / 0x1000000 % 0x100) as u8, (x / 0x10000 % 0x100) as u8, (x / 0x100 % 0x100) as u8, (x % 0x100) as u8];
    assert(r@ =~= to32(x as int));
    r
}
pub fn u32_from_be_bytes(x: [u8; 4]) -> (r: u32)
    ensures r == be32(x@)
{ reveal(be32); x[0] as u32 * 0x1000000 + x[1] as u32 * 0x10000 + x[2] as u32 * 0x100 + x[3] as u32 }
pub fn u32_to_le_bytes(x: u32) -> (r: [u8; 4])
    ensures r@ == to32(x as int).reverse()
{
    reveal(to32);
    let r = [(x % 0x100) as u8, (x / 0x100 % 0x100) as u8, (x / 0x10000 % 0x100) as u8, (x / 0x1000000 % 0x100) as u8];
    assert(r@ =~= to32(x as int).reverse());
    r
}
pub fn u32_from_le_bytes(x: [u8; 4]) -> (r: u32)
    ensures r == be32(x@.reverse())
{ reveal(be32); x[3] as u32 * 0x1000000 + x[2] as u32 * 0x10000 + x[1] as u32 * 0x100 + x[0] as u32 }
impl MBe<8> for u64 {
    open spec fn int(self) -> int { self as int }
    open spec fn enc(x: int) -> Seq<u8> { to64(x) }
    fn m_to_be_bytes(self) -> (r: [u8; 8]) {
        assert(self.int() == self as int && <u64 as MBe<8>>::enc(self.int()) == to64(self as int));
        u64_to_be_bytes(self)
    }
    fn m_to_le_bytes(self) -> (r: [u8; 8]) {
        assert(self.int() == self as int && <u64 as MBe<8>>::enc(self.int()) == to64(self as int));
        u64_to_le_bytes(self)
    }
}
pub fn u64_to_be_bytes(x: u64) -> (r: [u8; 8])
    ensures r@ == to64(x as int)
{
    reveal(to64);
    let h = u32_to_be_bytes((x / 0x1_0000_0000) as u32);
    let l = u32_to_be_bytes((x % 0x1_0000_0000) as u32);
    let r = [h[0], h[1], h[2], h[3], l[0], l[1], l[2], l[3]];
    assert(r@ =~= to64(x as int));
    r
}
pub fn u64_from_be_bytes(x: [u8; 8]) -> (r: u64)
    ensures r == be64(x@)
{
    let a = [x[0], x[1], x[2], x[3]];
    let b = [x[4], x[5], x[6], x[7]];
    proof {
        reveal(be64);
        assert(a@ =~= x@.take(4));
        assert(b@ =~= x@.skip(4));
        assert(be32(x@) == be32(x@.take(4))) by { reveal(be32); }
    }
    u32_from_be_bytes(a) as u64 * 0x1_0000_0000 + u32_from_be_bytes(b) as u64
}
pub fn u64_to_le_bytes(x: u64) -> (r: [u8; 8])
    ensures r@ == to64(x as int).reverse()
{
    let b = u64_to_be_bytes(x);
    let r = [b[7], b[6], b[5], b[4], b[3], b[2], b[1], b[0]];
    assert(r@ =~= b@.reverse());
    r
}
pub fn u64_from_le_bytes(x: [u8; 8]) -> (r: u64)
    ensures r == be64(x@.reverse())
{
    let b = [x[7], x[6], x[5], x[4], x[3], x[2], x[1], x[0]];
    assert(b@ =~= x@.reverse());
    u64_from_be_bytes(b)
}
pub broadcast proof fn lemma_to_len(x: int)
    ensures (#[trigger] to16(x)).len() == 2
{ reveal(to16); }
pub broadcast proof fn lemma_to_len32(x: int)
    ensures (#[trigger] to32(x)).len() == 4
{ reveal(to32); }
pub broadcast proof fn lemma_to_len64(x: int)
    ensures (#[trigger] to64(x)).len() == 8
{ reveal(to32); reveal(to64); }
#[verifier::spinoff_prover]
pub proof fn lemma_be16(x: int)
    requires 0 <= x < 0x1_0000
    ensures be16(to16(x)) == x
{ reveal(to16); reveal(be16); }
#[verifier::spinoff_prover]
pub proof fn lemma_be32(x: int)
    requires 0 <= x < 0x1_0000_0000
    ensures be32(to32(x)) == x
{ reveal(to32); reveal(be32); }
#[verifier::spinoff_prover]
pub proof fn lemma_be64(x: int)
    requires 0 <= x < 0x1_0000_0000_0000_0000
    ensures be64(to64(x)) == x
{
    let h = x / 0x1_0000_0000;
    let l = x % 0x1_0000_0000;
    reveal(to64); reveal(be64);
    lemma_be32(h);
    lemma_be32(l);
    lemma_to_len32(h);
    lemma_to_len32(l);
    assert(to64(x).skip(4) =~= to32(l));
    assert(be32(to64(x)) == be32(to32(h))) by { reveal(be32); }
}
#[verifier::spinoff_prover]
pub proof fn lemma_low_digit(y: int, q: int, d: int, k: int)
    requires d * k == 0x1_0000_0000, d > 0, k == 0x100 || k == 0x1_0000 || k == 0x100_0000 || k == 0x1_0000_0000
    ensures (y + q * 0x1_0000_0000) / d % 0x100 == y / d % 0x100
{
    assert(q * 0x1_0000_0000 == (q * k) * d) by (nonlinear_arith) requires d * k == 0x1_0000_0000;
    vstd::arithmetic::div_mod::lemma_hoist_over_denominator(y, q * k, d as nat);
    let m = q * (k / 0x100);
    assert(q * k == 0x100 * m) by (nonlinear_arith) requires k == 0x100 * (k / 0x100), m == q * (k / 0x100);
    vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(m, y / d, 0x100);
}
/// the low 32 bits
#[verifier::spinoff_prover]
pub proof fn lemma_to32_low(x: int, y: int)
    requires 0 <= x, y == x % 0x1_0000_0000
    ensures to32(x) == to32(y)
{
    reveal(to32);
    let q = x / 0x1_0000_0000;
    assert(x == y + q * 0x1_0000_0000);
    lemma_low_digit(y, q, 0x100_0000, 0x100);
    lemma_low_digit(y, q, 0x1_0000, 0x1_0000);
    lemma_low_digit(y, q, 0x100, 0x100_0000);
    lemma_low_digit(y, q, 1, 0x1_0000_0000);
    assert(y / 1 == y && x / 1 == x);
}
pub broadcast proof fn lemma_be16_range(b: Seq<u8>)
    requires b.len() >= 2
    ensures 0 <= #[trigger] be16(b) < 0x1_0000
{ reveal(be16); }
pub broadcast proof fn lemma_be32_range(b: Seq<u8>)
    requires b.len() >= 4
    ensures 0 <= #[trigger] be32(b) < 0x1_0000_0000
{ reveal(be32); }
pub broadcast proof fn lemma_be64_range(b: Seq<u8>)
    requires b.len() >= 8
    ensures 0 <= #[trigger] be64(b) < 0x1_0000_0000_0000_0000
{ reveal(be64); lemma_be32_range(b); lemma_be32_range(b.skip(4)); }
proof fn lemma_digits(a: int, b: int, c: int, d: int, x: int)
    requires 0 <= a < 256, 0 <= b < 256, 0 <= c < 256, 0 <= d < 256, x == a * 0x100_0000 + b * 0x1_0000 + c * 0x100 + d
    ensures (x / 0x100_0000) % 0x100 == a, (x / 0x1_0000) % 0x100 == b, (x / 0x100) % 0x100 == c, x % 0x100 == d
{
    use vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse;
    lemma_fundamental_div_mod_converse(x, 0x100_0000, a, b * 0x1_0000 + c * 0x100 + d);
    lemma_fundamental_div_mod_converse(x, 0x1_0000, a * 0x100 + b, c * 0x100 + d);
    lemma_fundamental_div_mod_converse(x, 0x100, a * 0x1_0000 + b * 0x100 + c, d);
    lemma_fundamental_div_mod_converse(a, 0x100, 0, a);
    lemma_fundamental_div_mod_converse(a * 0x100 + b, 0x100, a, b);
    lemma_fundamental_div_mod_converse(a * 0x1_0000 + b * 0x100 + c, 0x100, a * 0x100 + b, c);
}
/// bytes that encode their own value
#[verifier::spinoff_prover]
pub proof fn lemma_to32_be(b: Seq<u8>)
    requires b.len() == 4
    ensures to32(be32(b)) == b
{
    reveal(to32); reveal(be32);
    let x = be32(b);
    lemma_digits(b[0] as int, b[1] as int, b[2] as int, b[3] as int, x);
    assert(to32(x) =~= b);
}
#[verifier::spinoff_prover]
pub proof fn lemma_to64_be(b: Seq<u8>)
    requires b.len() == 8
    ensures to64(be64(b)) == b
{
    reveal(to64); reveal(be64);
    lemma_be32_range(b); lemma_be32_range(b.skip(4));
    lemma_to32_be(b.take(4)); lemma_to32_be(b.skip(4));
    assert(be32(b) == be32(b.take(4))) by { reveal(be32); }
    assert(to64(be64(b)) =~= b);
}

// ===================================================================== text codecs
pub open spec fn code_point(c: char) -> int { c as int }
pub open spec fn char_of(x: int) -> char { choose|c: char| #[trigger] code_point(c) == x }
/// the code units of one character
pub open spec fn unit16(c: char) -> Seq<u16> {
    let x = code_point(c);
    if x < 0x1_0000 { seq![x as u16] } else {
        seq![(0xd800 + (x - 0x1_0000) / 0x400) as u16, (0xdc00 + (x - 0x1_0000) % 0x400) as u16]
    }
}
/// UTF-16: characters of the basic plane as one unit, others as a surrogate pair
#[verifier::opaque]
pub open spec fn enc16(s: Seq<char>) -> Seq<u16>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { unit16(s[0]) + enc16(s.skip(1)) }
}
/// every surrogate is part of a pair
#[verifier::opaque]
pub open spec fn valid16(u: Seq<u16>) -> bool
    decreases u.len()
{
    if u.len() == 0 { true }
    else if 0xd800 <= u[0] < 0xdc00 { u.len() >= 2 && 0xdc00 <= u[1] < 0xe000 && valid16(u.skip(2)) }
    else { !(0xdc00 <= u[0] < 0xe000) && valid16(u.skip(1)) }
}
#[verifier::opaque]
pub open spec fn dec16(u: Seq<u16>) -> Seq<char>
    decreases u.len()
{
    if u.len() == 0 { Seq::empty() }
    else if u.len() >= 2 && 0xd800 <= u[0] < 0xdc00 {
        seq![char_of(0x1_0000 + (u[0] - 0xd800) * 0x400 + (u[1] - 0xdc00))] + dec16(u.skip(2))
    } else { seq![char_of(u[0] as int)] + dec16(u.skip(1)) }
}
#[verifier::spinoff_prover]
proof fn lemma_utf16(s: Seq<char>)
    ensures valid16(enc16(s)), dec16(enc16(s)) == s
    decreases s.len()
{
    reveal_with_fuel(enc16, 2); reveal_with_fuel(valid16, 2); reveal_with_fuel(dec16, 2);
    if s.len() > 0 {
        lemma_utf16(s.skip(1));
        let c = s[0];
        let x = code_point(c);
        assert(0 <= x < 0x11_0000 && !(0xd800 <= x < 0xe000));
        let u = enc16(s);
        assert(char_of(x) == c);
        if x < 0x1_0000 {
            assert(u.skip(1) =~= enc16(s.skip(1)));
        } else {
            let y = x - 0x1_0000;
            assert(u.skip(2) =~= enc16(s.skip(1)));
            assert(y == (y / 0x400) * 0x400 + y % 0x400);
        }
        assert(dec16(u) =~= s);
    }
}
pub broadcast proof fn lemma_enc16(s: Seq<char>)
    ensures valid16(#[trigger] enc16(s)), dec16(enc16(s)) == s
{ lemma_utf16(s); }
pub broadcast axiom fn axiom_str_size(s: &str)
    ensures #[trigger] s.spec_bytes().len() <= 0x7fff_ffff_ffff_ffff;

/// big endian bytes of 16 bit code units
pub open spec fn units_be(u: Seq<u16>) -> Seq<u8> {
    Seq::new(2 * u.len(), |i: int| if i % 2 == 0 { (u[i / 2] / 0x100) as u8 } else { (u[i / 2] % 0x100) as u8 })
}
/// the code units of the complete pairs of bytes
pub open spec fn be_units(b: Seq<u8>) -> Seq<u16> {
    Seq::new((b.len() / 2) as nat, |i: int| be16(b.subrange(2 * i, 2 * i + 2)) as u16)
}

pub mod string { pub use std::string::{FromUtf8Error, FromUtf16Error}; }
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFromUtf8Error(std::string::FromUtf8Error);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFromUtf16Error(std::string::FromUtf16Error);

/// only reached when the path is infeasible
pub fn vp_unreachable<T>() -> (r: T)
    requires false
{ vstd::pervasive::unreached() }

/// the text of diagnostics is not specified
#[verifier::external_body]
pub fn fmt_string() -> String { unimplemented!() }

#[verifier::external_body]
pub fn vec_of<T, const N: usize>(a: [T; N]) -> (r: Vec<T>)
    ensures r@ == a@
{ unimplemented!() }

pub fn arr_try_from<const N: usize>(a: &[u8]) -> (r: Result<[u8; N], u8>)
    ensures
        a@.len() == N ==> r is Ok && r->Ok_0@ == a@,
        a@.len() != N ==> r is Err,
{
    if a.len() != N { return Err(0); }
    let mut r = vstd::array::array_fill_for_copy_types::<u8, N>(0);
    let mut i: usize = 0;
    while i < N
        invariant i <= N, N == a@.len(), forall|j: int| 0 <= j < i ==> r@[j] == a@[j]
        decreases N - i
    { r[i] = a[i]; i = i + 1; }
    assert(r@ =~= a@);
    Ok(r)
}

pub proof fn lemma_isum_le(s: Seq<u64>, k: int)
    requires 0 <= k <= s.len()
    ensures 0 <= isum(u64s(s.take(k))) <= isum(u64s(s))
    decreases s.len()
{
    if s.len() > 0 {
        assert(u64s(s).drop_last() =~= u64s(s.drop_last()));
        if k == s.len() {
            assert(s.take(k) =~= s);
            lemma_isum_le(s.drop_last(), k - 1);
        } else {
            assert(s.take(k) =~= s.drop_last().take(k));
            lemma_isum_le(s.drop_last(), k);
        }
    }
}

pub mod cmp {
    use vstd::prelude::*;
    pub fn min(a: u64, b: u64) -> (r: u64)
        ensures r == (if a <= b { a } else { b })
    { if a <= b { a } else { b } }
    pub fn max(a: u64, b: u64) -> (r: u64)
        ensures r == (if a >= b { a } else { b })
    { if a >= b { a } else { b } }
}

// ===================================================================== generic conversions (`Into`)
pub trait VpInto<T: View>: Sized {
    spec fn into_view(self) -> T::V;
    fn vp_into(self) -> (r: T)
        ensures r@ == self.into_view();
}
impl VpInto<String> for String {
    open spec fn into_view(self) -> Seq<char> { self@ }
    fn vp_into(self) -> (r: String) { self }
}
impl VpInto<String> for &str {
    open spec fn into_view(self) -> Seq<char> { self@ }
    fn vp_into(self) -> (r: String) { self.to_owned() }
}
impl VpInto<Vec<u8>> for Vec<u8> {
    open spec fn into_view(self) -> Seq<u8> { self@ }
    fn vp_into(self) -> (r: Vec<u8>) { self }
}

// ===================================================================== iterators
/// Mirror of the standard iterators: the sequence of items still to be produced.
#[verifier::reject_recursive_types(T)]
pub struct MIt<T> { v: Vec<T> }

impl<T> View for MIt<T> {
    type V = Seq<T>;
    closed spec fn view(&self) -> Seq<T> { self.v@ }
}
/// the characters of a collected string
pub open spec fn text_of(s: Seq<char>) -> Seq<char> { s }
impl MIt<char> {
    #[verifier::external_body]
    pub fn collect_string(self) -> (r: String)
        ensures r@ == text_of(self@)
    { unimplemented!() }
}
impl<T> MIt<T> {
    pub fn next(&mut self) -> (r: Option<T>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1),
    {
        if self.v.len() == 0 { None } else {
            let ghost s = self.v@;
            let x = self.v.remove(0);
            assert(self.v@ =~= s.skip(1));
            Some(x)
        }
    }
    pub fn collect(self) -> (r: Vec<T>)
        ensures r@ == self@
    { self.v }
    pub fn count(self) -> (r: usize)
        ensures r == self@.len()
    { self.v.len() }
    pub fn rev(self) -> (r: MIt<T>)
        ensures r@ == self@.reverse()
    {
        let ghost s = self@;
        let mut v = self.v;
        let mut o = Vec::new();
        while v.len() > 0
            invariant v@ == s.take(v@.len() as int), v@.len() <= s.len(), o@ == s.skip(v@.len() as int).reverse()
            decreases v@.len()
        {
            let ghost n = v@.len() as int;
            let x = v.pop().unwrap();
            o.push(x);
            assert(v@ =~= s.take(n - 1));
            assert(o@ =~= s.skip(n - 1).reverse());
        }
        assert(o@ =~= s.reverse());
        MIt { v: o }
    }
    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: MIt<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures
            r@.len() == self@.len(),
            forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (self@[i],), #[trigger] r@[i]),
    {
        let ghost s = self@;
        let mut t = self;
        let mut o: Vec<U> = Vec::new();
        while t.v.len() > 0
            invariant
                forall|i: int| 0 <= i < s.len() ==> call_requires(f, (#[trigger] s[i],)),
                o@.len() + t@.len() == s.len(), t@ == s.skip(o@.len() as int), t@ == t.v@,
                forall|i: int| 0 <= i < o@.len() ==> call_ensures(f, (s[i],), #[trigger] o@[i]),
            decreases t.v@.len()
        {
            let x = t.next().unwrap();
            assert(x == s[o@.len() as int]);
            let y = f(x);
            o.push(y);
        }
        MIt { v: o }
    }
    pub fn filter_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: MIt<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures
            exists|o: Seq<Option<U>>| #![auto] fm_outs(f, self@, o) && r@ == somes(o),
    {
        let ghost s = self@;
        let mut t = self;
        let mut r: Vec<U> = Vec::new();
        let ghost mut o = Seq::<Option<U>>::empty();
        while t.v.len() > 0
            invariant
                forall|i: int| 0 <= i < s.len() ==> call_requires(f, (#[trigger] s[i],)),
                o.len() + t@.len() == s.len(), t@ == s.skip(o.len() as int), t@ == t.v@,
                fm_outs(f, s.take(o.len() as int), o), r@ == somes(o),
            decreases t.v@.len()
        {
            let ghost k = o.len() as int;
            let x = t.next().unwrap();
            assert(x == s[k]);
            let y = f(x);
            proof {
                let p = o.push(y);
                assert(p.drop_last() =~= o);
                assert forall|i: int| #![trigger p[i]] #![trigger s.take(k + 1)[i]] 0 <= i < k + 1 implies call_ensures(f, (s.take(k + 1)[i],), p[i]) by {
                    if i < k { assert(s.take(k + 1)[i] == s.take(k)[i]); assert(p[i] == o[i]); }
                }
                o = p;
            }
            match y { Some(z) => r.push(z), None => {} }
        }
        assert(s.take(o.len() as int) =~= s);
        MIt { v: r }
    }
    pub fn find<F: Fn(&T) -> bool>(self, f: F) -> (r: Option<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (&#[trigger] self@[i],)),
        ensures
            r is None ==> forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (&#[trigger] self@[i],), false),
            r is Some ==> exists|k: int| #![auto] first_match(f, self@, k) && r == Some(self@[k]),
    {
        let ghost s = self@;
        let mut t = self;
        let ghost mut k = 0int;
        while t.v.len() > 0
            invariant
                forall|i: int| 0 <= i < s.len() ==> call_requires(f, (&#[trigger] s[i],)),
                s == self@, 0 <= k <= s.len(), t@ == s.skip(k), t@ == t.v@,
                forall|i: int| 0 <= i < k ==> call_ensures(f, (&#[trigger] s[i],), false),
            decreases t.v@.len()
        {
            let x = t.next().unwrap();
            assert(x == s[k]);
            if f(&x) {
                assert(first_match(f, s, k));
                return Some(x);
            }
            proof { k = k + 1; }
        }
        None
    }
    pub fn position<F: Fn(T) -> bool>(self, f: F) -> (r: Option<usize>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures
            r is None ==> forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (#[trigger] self@[i],), false),
            r is Some ==> 0 <= r->Some_0 < self@.len() && call_ensures(f, (self@[r->Some_0 as int],), true)
                && forall|i: int| 0 <= i < r->Some_0 ==> call_ensures(f, (#[trigger] self@[i],), false),
    {
        let ghost s = self@;
        let n = self.v.len();
        let mut t = self;
        let mut k: usize = 0;
        while t.v.len() > 0
            invariant
                forall|i: int| 0 <= i < s.len() ==> call_requires(f, (#[trigger] s[i],)),
                s == self@, 0 <= k <= s.len(), s.len() == n, t@ == s.skip(k as int), t@ == t.v@,
                forall|i: int| 0 <= i < k ==> call_ensures(f, (#[trigger] s[i],), false),
            decreases t.v@.len()
        {
            let x = t.next().unwrap();
            assert(x == s[k as int]);
            if f(x) { return Some(k); }
            k = k + 1;
        }
        None
    }
    pub fn any<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures
            !r ==> forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (#[trigger] self@[i],), false),
            r ==> exists|i: int| 0 <= i < self@.len() && call_ensures(f, (#[trigger] self@[i],), true),
    {
        let ghost s = self@;
        self.position(f).is_some()
    }
    pub fn all<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures
            r ==> forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (#[trigger] self@[i],), true),
            !r ==> exists|i: int| 0 <= i < self@.len() && call_ensures(f, (#[trigger] self@[i],), false),
    {
        let ghost s = self@;
        let mut t = self;
        let ghost mut k = 0int;
        while t.v.len() > 0
            invariant
                forall|i: int| 0 <= i < s.len() ==> call_requires(f, (#[trigger] s[i],)),
                s == self@, 0 <= k <= s.len(), t@ == s.skip(k), t@ == t.v@,
                forall|i: int| 0 <= i < k ==> call_ensures(f, (#[trigger] s[i],), true),
            decreases t.v@.len()
        {
            let x = t.next().unwrap();
            assert(x == s[k]);
            if !f(x) {
                assert(call_ensures(f, (s[k],), false));
                return false;
            }
            proof { k = k + 1; }
        }
        true
    }
    pub fn find_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: Option<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures
            r is None ==> forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (#[trigger] self@[i],), None::<U>),
            r is Some ==> exists|k: int| 0 <= k < self@.len() && call_ensures(f, (#[trigger] self@[k],), r)
                && forall|i: int| 0 <= i < k ==> call_ensures(f, (#[trigger] self@[i],), None::<U>),
    {
        let ghost s = self@;
        let mut t = self;
        let ghost mut k = 0int;
        while t.v.len() > 0
            invariant
                forall|i: int| 0 <= i < s.len() ==> call_requires(f, (#[trigger] s[i],)),
                s == self@, 0 <= k <= s.len(), t@ == s.skip(k), t@ == t.v@,
                forall|i: int| 0 <= i < k ==> call_ensures(f, (#[trigger] s[i],), None::<U>),
            decreases t.v@.len()
        {
            let x = t.next().unwrap();
            assert(x == s[k]);
            let y = f(x);
            if y.is_some() {
                assert(call_ensures(f, (s[k],), y));
                return y;
            }
            assert(y == None::<U>);
            proof { k = k + 1; }
        }
        None
    }
    pub fn flat_map<U, F: Fn(T) -> MIt<U>>(self, f: F) -> (r: MIt<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures
            exists|o: Seq<MIt<U>>| #![auto] fl_outs(f, self@, o) && r@ == flat(units(o)),
    {
        let ghost s = self@;
        let mut t = self;
        let mut r: Vec<U> = Vec::new();
        let ghost mut o = Seq::<MIt<U>>::empty();
        assert(units(o) =~= Seq::<Seq<U>>::empty());
        while t.v.len() > 0
            invariant
                forall|i: int| 0 <= i < s.len() ==> call_requires(f, (#[trigger] s[i],)),
                o.len() + t@.len() == s.len(), t@ == s.skip(o.len() as int), t@ == t.v@,
                fl_outs(f, s.take(o.len() as int), o), r@ == flat(units(o)),
            decreases t.v@.len()
        {
            let ghost k = o.len() as int;
            let x = t.next().unwrap();
            assert(x == s[k]);
            let y = f(x);
            proof {
                let p = o.push(y);
                assert(units(p).drop_last() =~= units(o));
                assert forall|i: int| #![trigger p[i]] #![trigger s.take(k + 1)[i]] 0 <= i < k + 1 implies call_ensures(f, (s.take(k + 1)[i],), p[i]) by {
                    if i < k { assert(s.take(k + 1)[i] == s.take(k)[i]); assert(p[i] == o[i]); }
                }
                o = p;
            }
            let mut w = y.v;
            r.append(&mut w);
        }
        assert(s.take(o.len() as int) =~= s);
        MIt { v: r }
    }
    pub fn chain(self, o: MIt<T>) -> (r: MIt<T>)
        ensures r@ == self@ + o@
    {
        let mut v = self.v;
        let mut w = o.v;
        v.append(&mut w);
        MIt { v }
    }
    pub fn m_first(self) -> (r: Option<T>)
        ensures
            self@.len() == 0 ==> r is None,
            self@.len() > 0 ==> r == Some(self@[0]),
            forall|i: int| 1 <= i < self@.len() ==> has_resolved(#[trigger] self@[i]),
    {
        let ghost s = self@;
        let mut t = self;
        let r = t.next();
        let mut v = t.v;
        while v.len() > 0
            invariant
                v@.len() <= s.len() - 1 || s.len() == 0 && v@.len() == 0,
                s.len() > 0 ==> v@ == s.subrange(1, v@.len() as int + 1),
                forall|i: int| 1 + v@.len() <= i < s.len() ==> has_resolved(#[trigger] s[i]),
            decreases v@.len()
        {
            let ghost n = v@.len() as int;
            {
                let x = v.pop().unwrap();
                assert(x == s[n]);
            }
            assert(v@ =~= s.subrange(1, n));
        }
        r
    }
}
impl MIt<u64> {
    pub fn sum(self) -> (r: u64)
        requires isum(u64s(self@)) <= u64::MAX,
        ensures r == isum(u64s(self@)),
    {
        let ghost s = self@;
        let v = self.v;
        let mut i: usize = 0;
        let mut r: u64 = 0;
        assert(u64s(s.take(0)) =~= Seq::<int>::empty());
        while i < v.len()
            invariant v@ == s, 0 <= i <= s.len(), r == isum(u64s(s.take(i as int))), isum(u64s(s)) <= u64::MAX
            decreases s.len() - i
        {
            proof {
                lemma_isum_le(s, i + 1);
                assert(u64s(s.take(i + 1)).drop_last() =~= u64s(s.take(i as int)));
            }
            r = r + v[i];
            i = i + 1;
        }
        assert(s.take(i as int) =~= s);
        r
    }
}
pub open spec fn fm_outs<T, U, F: Fn(T) -> Option<U>>(f: F, v: Seq<T>, o: Seq<Option<U>>) -> bool {
    o.len() == v.len() && forall|i: int| #![trigger o[i]] #![trigger v[i]] 0 <= i < v.len() ==> call_ensures(f, (v[i],), o[i])
}
/// what the iterators yield
pub open spec fn units<T>(o: Seq<MIt<T>>) -> Seq<Seq<T>> { o.map_values(|m: MIt<T>| m@) }
pub open spec fn fl_outs<T, U, F: Fn(T) -> MIt<U>>(f: F, v: Seq<T>, o: Seq<MIt<U>>) -> bool {
    o.len() == v.len() && forall|i: int| #![trigger o[i]] #![trigger v[i]] 0 <= i < v.len() ==> call_ensures(f, (v[i],), o[i])
}
pub open spec fn first_match<T, F: Fn(&T) -> bool>(f: F, v: Seq<T>, k: int) -> bool {
    0 <= k < v.len() && call_ensures(f, (&v[k],), true)
        && forall|i: int| 0 <= i < k ==> call_ensures(f, (&#[trigger] v[i],), false)
}

pub trait MIter<T> {
    spec fn elems(&self) -> Seq<T>;
    fn m_iter(&self) -> (r: MIt<&T>)
        ensures r@.len() == self.elems().len(), forall|i: int| #![trigger r@[i]] #![trigger self.elems()[i]] 0 <= i < r@.len() ==> *r@[i] == self.elems()[i];
    fn m_iter_mut(&mut self) -> (r: MIt<&mut T>)
        ensures
            r@.len() == old(self).elems().len(), final(self).elems().len() == r@.len(),
            forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == old(self).elems()[i],
            forall|i: int| 0 <= i < r@.len() ==> #[trigger] final(self).elems()[i] == *final(r@[i]);
}
impl<T> MIter<T> for [T] {
    open spec fn elems(&self) -> Seq<T> { self@ }
    fn m_iter(&self) -> (r: MIt<&T>) {
        let mut v: Vec<&T> = Vec::new();
        let mut i: usize = 0;
        while i < self.len()
            invariant v@.len() == i, 0 <= i <= self@.len(), forall|j: int| 0 <= j < i ==> *(#[trigger] v@[j]) == self@[j]
            decreases self@.len() - i
        {
            v.push(&self[i]);
            i = i + 1;
        }
        assert(self.elems() == self@);
        MIt { v }
    }
    #[verifier::external_body]
    fn m_iter_mut(&mut self) -> (r: MIt<&mut T>) { unimplemented!() }
}
impl<T> MIter<T> for Vec<T> {
    open spec fn elems(&self) -> Seq<T> { self@ }
    fn m_iter(&self) -> (r: MIt<&T>) {
        assert(self.elems() == self@);
        let s: &[T] = self.as_slice();
        let r = s.m_iter();
        assert(s.elems() == self@);
        r
    }
    #[verifier::external_body]
    fn m_iter_mut(&mut self) -> (r: MIt<&mut T>) { unimplemented!() }
}
impl<T, const N: usize> MIter<T> for [T; N] {
    open spec fn elems(&self) -> Seq<T> { self@ }
    fn m_iter(&self) -> (r: MIt<&T>) {
        assert(self.elems() == self@);
        let s: &[T] = self.as_slice();
        let r = s.m_iter();
        assert(s.elems() == self@);
        r
    }
    #[verifier::external_body]
    fn m_iter_mut(&mut self) -> (r: MIt<&mut T>) { unimplemented!() }
}

pub trait MIntoIter<T>: Sized {
    spec fn into_items(self) -> Seq<T>;
    fn m_into_iter(self) -> (r: MIt<T>)
        ensures r@ == self.into_items();
}
impl<T> MIntoIter<T> for Vec<T> {
    open spec fn into_items(self) -> Seq<T> { self@ }
    fn m_into_iter(self) -> (r: MIt<T>) { assert(self.into_items() == self@); MIt { v: self } }
}
impl<T> MIntoIter<T> for MIt<T> {
    open spec fn into_items(self) -> Seq<T> { self@ }
    fn m_into_iter(self) -> (r: MIt<T>) { assert(self.into_items() == self@); self }
}

pub trait MVec<T> {
    spec fn mv(&self) -> Seq<T>;
    fn m_extend<I: MIntoIter<T>>(&mut self, i: I)
        ensures final(self).mv() == old(self).mv() + i.into_items();
    fn m_retain<F: Fn(&T) -> bool>(&mut self, f: F)
        requires forall|i: int| 0 <= i < old(self).mv().len() ==> call_requires(f, (&#[trigger] old(self).mv()[i],)),
        ensures exists|keep: Seq<bool>| #![auto] retain_outs(f, old(self).mv(), keep) && final(self).mv() == kept(old(self).mv(), keep);
}
pub open spec fn retain_outs<T, F: Fn(&T) -> bool>(f: F, v: Seq<T>, o: Seq<bool>) -> bool {
    o.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> call_ensures(f, (&v[i],), #[trigger] o[i])
}
pub open spec fn kept<T>(v: Seq<T>, keep: Seq<bool>) -> Seq<T>
    decreases v.len()
{
    if v.len() == 0 || keep.len() == 0 { Seq::empty() } else {
        if keep.last() { kept(v.drop_last(), keep.drop_last()).push(v.last()) } else { kept(v.drop_last(), keep.drop_last()) }
    }
}
impl<T> MVec<T> for Vec<T> {
    open spec fn mv(&self) -> Seq<T> { self@ }
    fn m_extend<I: MIntoIter<T>>(&mut self, i: I) {
        let mut w = i.m_into_iter();
        self.append(&mut w.v);
        assert(self.mv() == self@);
    }
    fn m_retain<F: Fn(&T) -> bool>(&mut self, f: F) {
        assert(self.mv() == self@);
        let ghost s = self@;
        let mut v: Vec<T> = Vec::new();
        let ghost mut o = Seq::<bool>::empty();
        while self.len() > 0
            invariant
                forall|i: int| 0 <= i < s.len() ==> call_requires(f, (&#[trigger] s[i],)),
                o.len() + self@.len() == s.len(), self@ == s.skip(o.len() as int),
                retain_outs(f, s.take(o.len() as int), o), v@ == kept(s.take(o.len() as int), o),
            decreases self@.len()
        {
            let ghost k = o.len() as int;
            let x = self.remove(0);
            assert(x == s[k]);
            let y = f(&x);
            proof {
                let p = o.push(y);
                assert(p.drop_last() =~= o);
                assert(s.take(k + 1).drop_last() =~= s.take(k));
                assert forall|i: int| 0 <= i < k + 1 implies call_ensures(f, (&s.take(k + 1)[i],), #[trigger] p[i]) by {
                    if i < k { assert(s.take(k + 1)[i] == s.take(k)[i]); assert(p[i] == o[i]); }
                }
                o = p;
            }
            assert(self@ =~= s.skip(k + 1));
            if y { v.push(x); }
        }
        assert(s.take(o.len() as int) =~= s);
        self.append(&mut v);
        assert(self@ =~= kept(s, o));
        assert(self.mv() == self@);
    }
}

pub fn vec_find_mut<T, F: Fn(&T) -> bool>(v: &mut Vec<T>, f: F) -> (r: Option<&mut T>)
    requires forall|x: &T| #[trigger] call_requires(f, (x,)),
    ensures
        r is None ==> final(v)@ == old(v)@
            && forall|i: int| 0 <= i < old(v)@.len() ==> call_ensures(f, (&#[trigger] old(v)@[i],), false),
        r is Some ==> exists|k: int| #![auto] 0 <= k < old(v)@.len()
            && *r->Some_0 == old(v)@[k] && final(v)@ == old(v)@.update(k, *final(r->Some_0))
            && call_ensures(f, (&old(v)@[k],), true)
            && forall|i: int| 0 <= i < k ==> call_ensures(f, (&#[trigger] old(v)@[i],), false),
{
    let ghost s = v@;
    let mut i: usize = 0;
    while i < v.len()
        invariant_except_break 0 <= i <= s.len(),
        invariant v@ == s, forall|x: &T| #[trigger] call_requires(f, (x,)),
            forall|j: int| 0 <= j < i ==> call_ensures(f, (&#[trigger] s[j],), false),
        ensures i == s.len() || i < s.len() && call_ensures(f, (&s[i as int],), true)
        decreases s.len() - i
    {
        if f(&v[i]) { break; }
        i = i + 1;
    }
    if i < v.len() { Some(&mut v[i]) } else { None }
}

pub trait MOption<T> {
    spec fn opt(self) -> Option<T>;
    fn m_map_or<U, F: FnOnce(T) -> U>(self, d: U, f: F) -> (r: U) where Self: Sized
        requires self.opt() is Some ==> call_requires(f, (self.opt()->Some_0,)),
        ensures
            self.opt() is None ==> r == d,
            self.opt() is Some ==> call_ensures(f, (self.opt()->Some_0,), r);
    fn m_or(self, o: Option<T>) -> (r: Option<T>) where Self: Sized
        ensures r == (if self.opt() is Some { self.opt() } else { o });
}
impl<T> MOption<T> for Option<T> {
    open spec fn opt(self) -> Option<T> { self }
    fn m_or(self, o: Option<T>) -> (r: Option<T>) { match self { Some(x) => Some(x), None => o } }
    fn m_map_or<U, F: FnOnce(T) -> U>(self, d: U, f: F) -> (r: U) {
        assert(self.opt() == self);
        match self { Some(x) => f(x), None => d }
    }
}

pub trait MSlice<T> {
    spec fn sl(&self) -> Seq<T>;
    fn m_to_vec(&self) -> (r: Vec<T>)
        ensures r@ == self.sl();
    fn m_chunks_exact(&self, n: usize) -> (r: MIt<&[T]>)
        requires n > 0
        ensures r@.len() == self.sl().len() / (n as nat),
            forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == self.sl().subrange(i * n, i * n + n);
}
impl MSlice<u8> for [u8] {
    open spec fn sl(&self) -> Seq<u8> { self@ }
    fn m_to_vec(&self) -> (r: Vec<u8>) { assert(self.sl() == self@); vstd::slice::slice_to_vec(self) }
    fn m_chunks_exact(&self, n: usize) -> (r: MIt<&[u8]>) {
        assert(self.sl() == self@);
    let mut v: Vec<&[u8]> = Vec::new();
    let mut p: usize = 0;
    let ghost mut k = 0int;
    while self.len() - p >= n
        invariant n > 0, p == k * n, p <= self@.len(), v@.len() == k, k >= 0,
            forall|i: int| 0 <= i < k ==> (#[trigger] v@[i])@ == self@.subrange(i * n, i * n + n)
        decreases self@.len() - p
    {
        v.push(vstd::slice::slice_subrange(self, p, p + n));
        assert((k + 1) * n == k * n + n) by (nonlinear_arith);
        p = p + n;
        proof { k = k + 1; }
    }
    assert(k == self@.len() as int / n as int) by {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(self@.len() as int, n as int, k, self@.len() - p);
    }
    MIt { v }

    }
}

pub trait MStr {
    spec fn chars_of(&self) -> Seq<char>;
    fn m_encode_utf16(&self) -> (r: MIt<u16>)
        ensures r@ == enc16(self.chars_of()), r@.len() <= 0x7fff_ffff_ffff_ffff;
}
impl MStr for str {
    open spec fn chars_of(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn m_encode_utf16(&self) -> (r: MIt<u16>) { unimplemented!() }
}

pub assume_specification [String::len](s: &String) -> (r: usize)
    ensures r == encode_utf8(s@).len(), r <= 0x7fff_ffff_ffff_ffff;
pub assume_specification [String::as_bytes](s: &String) -> (r: &[u8])
    ensures r@ == encode_utf8(s@), r@.len() <= 0x7fff_ffff_ffff_ffff;
pub fn str_to_owned(s: &str) -> (r: String)
    ensures r@ == s@
{ s.to_owned() }
pub assume_specification [core::time::Duration::as_secs](d: &core::time::Duration) -> (r: u64)
    ensures r == dur(*d).0;
pub assume_specification [core::time::Duration::subsec_nanos](d: &core::time::Duration) -> (r: u32)
    ensures r == dur(*d).1, r < 1_000_000_000;
pub assume_specification [<char as core::convert::From<u8>>::from](b: u8) -> (r: char)
    ensures r == b as char;
/// seconds and nanoseconds
pub uninterp spec fn dur(d: core::time::Duration) -> (int, int);
pub assume_specification [core::time::Duration::new](s: u64, n: u32) -> (d: core::time::Duration)
    requires s + n / 1_000_000_000 <= u64::MAX
    ensures dur(d) == (s + n / 1_000_000_000, n as int % 1_000_000_000);
pub assume_specification [<str as PartialEq<String>>::eq](a: &str, b: &String) -> (r: bool);
pub broadcast axiom fn axiom_o1()
    ensures #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<String>>::obeys_eq_spec();
pub broadcast axiom fn axiom_o2()
    ensures #[trigger] <str as vstd::std_specs::cmp::PartialEqSpec<String>>::obeys_eq_spec();
pub broadcast axiom fn axiom_str_string_eq(a: &str, b: &String)
    ensures
        #[trigger] <str as vstd::std_specs::cmp::PartialEqSpec<String>>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn axiom_string_eq(a: &String, b: &String)
    ensures
        #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<String>>::eq_spec(a, b) == (a@ == b@);
pub assume_specification [String::from_utf8](v: Vec<u8>) -> (r: Result<String, std::string::FromUtf8Error>)
    ensures valid_utf8(v@) ==> r is Ok && r->Ok_0@ == decode_utf8(v@), !valid_utf8(v@) ==> r is Err;
pub assume_specification [String::from_utf16](v: &[u16]) -> (r: Result<String, std::string::FromUtf16Error>)
    ensures valid16(v@) ==> r is Ok && r->Ok_0@ == dec16(v@), !valid16(v@) ==> r is Err;

// ===================================================================== streams
pub mod fs {
    use vstd::prelude::*;
    /// A file: content, cursor, and whether bytes accepted by a `BufWriter` may not have reached it yet.
    /// (The bodies of the stream mirrors are an in-memory file: they show that the contracts can be
    /// met together. An allocation that can't be made doesn't return.)
    pub struct File { d: Vec<u8>, p: u64, w: bool, ok: bool, m: Ghost<int> }
    #[verifier::exec_allows_no_decreases_clause]
    fn abort() ensures false { loop ensures false {} }
    impl File {
        pub closed spec fn content(&self) -> Seq<u8> { self.d@ }
        pub closed spec fn cursor(&self) -> int { self.p as int }
        pub closed spec fn pending(&self) -> bool { self.w }
        pub closed spec fn faultless(&self) -> bool { self.ok }
        /// a mark of the last use of the handle by a writer; every such use changes it in a way
        /// that no contract describes
        pub closed spec fn mark(&self) -> int { self.m@ }
        pub fn vp_bytes(&self) -> (r: &Vec<u8>)
            ensures r@ == self.content()
        { &self.d }
        pub fn vp_at(&self) -> (r: u64)
            ensures r == self.cursor()
        { self.p }
        pub fn vp_ok(&self) -> (r: bool)
            ensures r == self.faultless()
        { self.ok }
        pub fn vp_seek(&mut self, p: u64)
            ensures final(self).content() == old(self).content(), final(self).faultless() == old(self).faultless(),
                final(self).cursor() == p, !final(self).pending()
        { self.p = p; self.w = false; }
        pub fn vp_flush(&mut self)
            ensures final(self).content() == old(self).content(), final(self).faultless() == old(self).faultless(),
                final(self).cursor() == old(self).cursor(), !final(self).pending()
        { self.w = false; }
        pub fn vp_resize(&mut self, n: u64)
            ensures final(self).content() == super::resized(old(self).content(), n as int), final(self).faultless() == old(self).faultless(),
                final(self).cursor() == old(self).cursor(), final(self).pending() == old(self).pending()
        {
            let ghost o = self.d@;
            if n as usize <= self.d.len() { self.d.truncate(n as usize); }
            else {
                while self.d.len() < n as usize
                    invariant o.len() <= self.d@.len() <= n, self.d@ == o + super::zeros(self.d@.len() - o.len()),
                        self.p == old(self).p, self.w == old(self).w, self.ok == old(self).ok
                    decreases n - self.d@.len()
                { self.d.push(0); assert(self.d@ =~= o + super::zeros(self.d@.len() - o.len())); }
            }
            assert(self.d@ =~= super::resized(o, n as int));
        }
        pub fn vp_put(&mut self, buf: &[u8])
            ensures
                final(self).faultless() == old(self).faultless(),
                final(self).content() == super::overwrite(old(self).content(), old(self).cursor(), buf@),
                final(self).cursor() == old(self).cursor() + buf@.len(),
        {
            let ghost o = self.d@;
            if buf.len() == 0 { return; }
            if self.p > usize::MAX as u64 - buf.len() as u64 { abort(); }
            let p = self.p as usize;
            while self.d.len() < p
                invariant self.p == p, self.ok == old(self).ok, o.len() <= self.d@.len(), self.d@ == o + super::zeros(self.d@.len() - o.len()), self.d@.len() <= p || self.d@.len() == o.len()
                decreases p - self.d@.len()
            { self.d.push(0); assert(self.d@ =~= o + super::zeros(self.d@.len() - o.len())); }
            assert(self.d@ =~= if p > o.len() { o + super::zeros(p - o.len()) } else { o });
            let ghost q = self.d@;
            let mut i: usize = 0;
            while i < buf.len()
                invariant self.p == p, self.ok == old(self).ok, p + buf@.len() <= usize::MAX, i <= buf@.len(), p <= q.len(),
                    self.d@ == super::overwrite(q, p as int, buf@.take(i as int))
                decreases buf@.len() - i
            {
                let x = buf[i];
                if p + i < self.d.len() { self.d.set(p + i, x); } else { self.d.push(x); }
                assert(self.d@ =~= super::overwrite(q, p as int, buf@.take(i + 1)));
                i = i + 1;
            }
            assert(buf@.take(i as int) =~= buf@);
            assert(super::overwrite(q, p as int, buf@) =~= super::overwrite(o, p as int, buf@));
            self.p = self.p + buf.len() as u64;
            self.w = true;
        }
    }
    impl super::io::Stream for File {
        open spec fn data(&self) -> Seq<u8> { self.content() }
        open spec fn pos(&self) -> int { self.cursor() }
        open spec fn reliable(&self) -> bool { self.faultless() }
        open spec fn dirty(&self) -> bool { false }
        #[verifier::prophetic]
        open spec fn tail(&self) -> File { arbitrary() }
        open spec fn stamp(&self) -> int { 0 }
    }
    impl super::io::Write for File {
        fn write_all(&mut self, buf: &[u8]) -> (r: super::io::Result<()>) { self.vp_put(buf); Ok(()) }
        fn flush(&mut self) -> (r: super::io::Result<()>) { self.vp_flush(); Ok(()) }
    }
    /// The files a process can reach: the content of each, and whether opening, reading and writing
    /// them can only fail for a file which is not there.
    #[verifier::external_body]
    pub struct Disk { x: u8 }
    impl View for Disk { type V = Map<int, Seq<u8>>; uninterp spec fn view(&self) -> Map<int, Seq<u8>>; }
    impl Disk { pub uninterp spec fn sound(&self) -> bool; }
    /// what the options of an opened file make of the content that is there
    pub struct OpenOptions { pub r: bool, pub w: bool, pub t: bool, pub c: bool, pub n: bool }
    impl OpenOptions {
        pub fn new() -> (r: OpenOptions)
            ensures !r.r, !r.w, !r.t, !r.c, !r.n
        { OpenOptions { r: false, w: false, t: false, c: false, n: false } }
        pub fn read(self, x: bool) -> (o: OpenOptions)
            ensures o == (OpenOptions { r: x, ..self })
        { OpenOptions { r: x, ..self } }
        pub fn write(self, x: bool) -> (o: OpenOptions)
            ensures o == (OpenOptions { w: x, ..self })
        { OpenOptions { w: x, ..self } }
        pub fn truncate(self, x: bool) -> (o: OpenOptions)
            ensures o == (OpenOptions { t: x, ..self })
        { OpenOptions { t: x, ..self } }
        pub fn create(self, x: bool) -> (o: OpenOptions)
            ensures o == (OpenOptions { c: x, ..self })
        { OpenOptions { c: x, ..self } }
        pub fn create_new(self, x: bool) -> (o: OpenOptions)
            ensures o == (OpenOptions { n: x, ..self })
        { OpenOptions { n: x, ..self } }
        /// the file at the path, if it is there or gets created
        #[verifier::external_body]
        pub fn vp_open<'a, P: super::path::Named>(self, d: &'a mut Disk, p: P) -> (r: super::io::Result<&'a mut File>)
            ensures opened(*old(d), *final(d), p.named(), self, r)
        { unimplemented!() }
    }
    #[verifier::prophetic]
    pub open spec fn opened(o: Disk, n: Disk, p: int, q: OpenOptions, r: super::io::Result<&mut File>) -> bool {
        &&& n.sound() == o.sound()
        &&& r is Err ==> n@ == o@
        &&& r is Ok ==> {
            let f = r->Ok_0;
            &&& (q.r || q.w) && (o@.contains_key(p) && !q.n || q.w && (q.c || q.n)) && (q.w || !q.t)
            &&& f.content() == if o@.contains_key(p) && !q.t { o@[p] } else { Seq::empty() }
            &&& f.cursor() == 0 && !f.pending()
            &&& o.sound() && q.r && q.w ==> f.faultless()
            &&& n@ == o@.insert(p, (*final(f)).content())
        }
        &&& o.sound() && o@.contains_key(p) && !q.n && (q.r || q.w) && (q.w || !q.t && !q.c) ==> r is Ok
    }
    /// a new or emptied file for writing
    #[verifier::external_body]
    pub fn vp_create<'a, P: super::path::Named>(d: &'a mut Disk, p: P) -> (r: super::io::Result<&'a mut File>)
        ensures
            final(d).sound() == old(d).sound(),
            r is Err ==> final(d)@ == old(d)@,
            r is Ok ==> {
                let f = r->Ok_0;
                &&& f.content() == Seq::<u8>::empty() && f.cursor() == 0 && !f.pending()
                &&& old(d).sound() ==> f.faultless()
                &&& final(d)@ == old(d)@.insert(p.named(), (*final(f)).content())
            },
            old(d).sound() ==> r is Ok
    { unimplemented!() }
    /// an existing file for reading
    #[verifier::external_body]
    pub fn vp_read<P: super::path::Named>(d: &Disk, p: P) -> (r: super::io::Result<File>)
        ensures
            r is Ok ==> d@.contains_key(p.named()) && r->Ok_0.content() == d@[p.named()] && r->Ok_0.cursor() == 0 && !r->Ok_0.pending()
                && (d.sound() ==> r->Ok_0.faultless()),
            d.sound() && d@.contains_key(p.named()) ==> r is Ok
    { unimplemented!() }
}
pub mod path {
    use vstd::prelude::*;
    pub struct Path;
    pub trait Named {
        /// the file the path denotes
        spec fn named(&self) -> int;
    }
}

pub mod io {
    use vstd::prelude::*;
    use super::*;
    pub struct Error { x: u8 }
    pub enum ErrorKind { UnexpectedEof, InvalidData, InvalidInput, Other }
    pub type Result<T> = core::result::Result<T, Error>;
    impl From<ErrorKind> for Error {
        #[verifier::external_body]
        fn from(k: ErrorKind) -> Error { unimplemented!() }
    }
    pub enum SeekFrom { Start(u64), End(i64), Current(i64) }

    /// A stream: its content, the cursor, and whether I/O on it cannot fail for other reasons than
    /// the end of the content.
    pub trait Stream {
        spec fn data(&self) -> Seq<u8>;
        spec fn pos(&self) -> int;
        spec fn reliable(&self) -> bool;
        /// accepted bytes may not have reached the underlying file yet
        spec fn dirty(&self) -> bool;
        /// the file behind a buffered writer once the writer is gone
        #[verifier::prophetic]
        spec fn tail(&self) -> super::fs::File;
        /// the state of a shared file handle a reader has left it in
        spec fn stamp(&self) -> int;
    }

    /// `n` is `o` after the bytes `b` have been written
    pub open spec fn wrote<S: Stream + ?Sized>(o: &S, n: &S, b: Seq<u8>) -> bool {
        n.data() == overwrite(o.data(), o.pos(), b) && n.pos() == o.pos() + b.len() && o.pos() >= 0
    }
    /// all bytes written since `o`
    pub open spec fn acc<S: Stream + ?Sized>(o: &S, n: &S, b: Seq<u8>) -> bool { wrote(o, n, b) }
    pub proof fn lemma_acc0<S: Stream + ?Sized>(o: &S)
        requires o.pos() >= 0
        ensures acc(o, o, Seq::<u8>::empty())
    {}
    pub broadcast proof fn lemma_acc<S: Stream + ?Sized>(o: &S, m: &S, n: &S, a: Seq<u8>, b: Seq<u8>)
        requires #[trigger] acc(o, m, a), #[trigger] wrote(m, n, b)
        ensures acc(o, n, a + b)
    { lemma_overwrite(o.data(), o.pos(), a, b); }

    pub open spec fn swf<S: Stream + ?Sized>(s: &S) -> bool {
        s.data().len() < lim() && 0 <= s.pos() <= u64::MAX
    }
    pub open spec fn same<S: Stream + ?Sized>(a: &S, b: &S) -> bool {
        a.data() == b.data() && a.reliable() == b.reliable() && a.stamp() == b.stamp()
    }

    pub open spec fn seek_target<S: Stream + ?Sized>(s: &S, p: SeekFrom) -> int {
        match p {
            SeekFrom::Start(n) => n as int,
            SeekFrom::End(d) => s.data().len() + d,
            SeekFrom::Current(d) => s.pos() + d,
        }
    }

    pub trait Read: Stream {
        fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<()>)
            requires swf(old(self)),
            ensures
                swf(final(self)), same(final(self), old(self)),
                final(buf)@.len() == old(buf)@.len(),
                r is Ok ==> {
                    let n = old(buf)@.len();
                    &&& old(self).pos() + n <= old(self).data().len() || n == 0
                    &&& n > 0 ==> final(buf)@ == old(self).data().subrange(old(self).pos(), old(self).pos() + n)
                    &&& final(self).pos() == old(self).pos() + n
                },
                old(self).reliable() && old(self).pos() + old(buf)@.len() <= old(self).data().len() ==> r is Ok;

        fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize>)
            requires swf(old(self)),
            ensures
                swf(final(self)), same(final(self), old(self)),
                r is Ok ==> {
                    let d = old(self).data();
                    let p = if old(self).pos() <= d.len() { old(self).pos() } else { d.len() as int };
                    &&& final(buf)@ == old(buf)@ + d.skip(p)
                    &&& r->Ok_0 == d.len() - p
                    &&& final(self).pos() == old(self).pos() + (d.len() - p)
                },
                old(self).reliable() ==> r is Ok;

        /// `self.by_ref().take(n).read_to_end(buf)`
        fn vp_take_read_to_end(&mut self, n: u64, buf: &mut Vec<u8>) -> (r: Result<usize>)
            requires swf(old(self)),
            ensures
                swf(final(self)), same(final(self), old(self)),
                r is Ok ==> {
                    let d = old(self).data();
                    let p = if old(self).pos() <= d.len() { old(self).pos() } else { d.len() as int };
                    let m = if n <= d.len() - p { n as int } else { d.len() - p };
                    &&& final(buf)@ == old(buf)@ + d.subrange(p, p + m)
                    &&& r->Ok_0 == m
                    &&& final(self).pos() == old(self).pos() + m
                },
                old(self).reliable() ==> r is Ok;
    }

    pub trait Seek: Stream {
        fn seek(&mut self, p: SeekFrom) -> (r: Result<u64>)
            requires swf(old(self)),
            ensures
                swf(final(self)), same(final(self), old(self)), final(self).tail() == old(self).tail(),
                r is Ok ==> r->Ok_0 == seek_target(old(self), p) && final(self).pos() == r->Ok_0
                    && !final(self).dirty(),
                old(self).reliable() && 0 <= seek_target(old(self), p) <= i64::MAX ==> r is Ok;
    }

    pub trait Write: Stream {
        fn write_all(&mut self, buf: &[u8]) -> (r: Result<()>)
            requires old(self).pos() >= 0
            ensures
                final(self).reliable() == old(self).reliable(), final(self).tail() == old(self).tail(),
                final(self).pos() >= 0,
                r is Ok ==> wrote(old(self), final(self), buf@),
                old(self).reliable() ==> r is Ok;
        fn flush(&mut self) -> (r: Result<()>)
            requires old(self).pos() >= 0
            ensures
                final(self).reliable() == old(self).reliable(), final(self).tail() == old(self).tail(),
                final(self).pos() >= 0,
                r is Ok ==> final(self).data() == old(self).data() && final(self).pos() == old(self).pos()
                    && !final(self).dirty(),
                old(self).reliable() ==> r is Ok;
    }

    /// Buffered reader over a shared file handle: what it returns after a `seek` is the content of
    /// the file at that point.
    pub struct BufReader { d: Vec<u8>, p: u64, ok: bool, st: Ghost<int> }
    pub closed spec fn br_data(r: &BufReader) -> Seq<u8> { r.d@ }
    pub closed spec fn br_pos(r: &BufReader) -> int { r.p as int }
    pub closed spec fn br_rel(r: &BufReader) -> bool { r.ok }
    pub closed spec fn br_stamp(r: &BufReader) -> int { r.st@ }
    impl Stream for BufReader {
        open spec fn data(&self) -> Seq<u8> { br_data(self) }
        open spec fn pos(&self) -> int { br_pos(self) }
        open spec fn reliable(&self) -> bool { br_rel(self) }
        open spec fn dirty(&self) -> bool { false }
        #[verifier::prophetic]
        open spec fn tail(&self) -> super::fs::File { arbitrary() }
        open spec fn stamp(&self) -> int { br_stamp(self) }
    }
    impl BufReader {
        pub fn new(f: super::fs::File) -> (r: BufReader)
            ensures r.data() == f.content(), r.pos() == f.cursor(), r.reliable() == f.faultless()
        { Self::vp_over(&f) }
        pub fn vp_over(f: &super::fs::File) -> (r: BufReader)
            ensures r.data() == f.content(), r.pos() == f.cursor(), r.reliable() == f.faultless()
        { BufReader { d: vstd::slice::slice_to_vec(f.vp_bytes().as_slice()), p: f.vp_at(), ok: f.vp_ok(), st: Ghost(0) } }
        /// the next `m` bytes
        fn grab(&mut self, m: usize, buf: &mut Vec<u8>)
            requires old(self).p + m <= old(self).d@.len() || m == 0
            ensures
                m > 0 ==> final(buf)@ == old(buf)@ + old(self).d@.subrange(old(self).p as int, old(self).p + m),
                m == 0 ==> final(buf)@ == old(buf)@,
                final(self).d == old(self).d, final(self).ok == old(self).ok, final(self).st == old(self).st, final(self).p == old(self).p + m,
        {
            let mut i: usize = 0;
            let l = self.d.len();
            while i < m
                invariant i <= m, l == self.d@.len(), *self == *old(self), self.p + m <= self.d@.len() || m == 0,
                    m == 0 ==> buf@ == old(buf)@,
                    m > 0 ==> buf@ == old(buf)@ + self.d@.subrange(self.p as int, self.p + i)
                decreases m - i
            {
                buf.push(self.d[self.p as usize + i]);
                assert(buf@ =~= old(buf)@ + self.d@.subrange(self.p as int, self.p + i + 1));
                i = i + 1;
            }
            if m > 0 { self.p = self.p + m as u64; }
        }
        /// the number of bytes that are left
        fn left(&self) -> (r: usize)
            ensures r == if self.p <= self.d@.len() { self.d@.len() - self.p } else { 0 }
        { if self.p <= self.d.len() as u64 { self.d.len() - self.p as usize } else { 0 } }
    }
    impl Read for BufReader {
        fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<()>) {
            let n = buf.len();
            if n == 0 { return Ok(()); }
            if self.left() < n { return Err(Error { x: 0 }); }
            let p = self.p as usize;
            let l = self.d.len();
            let mut i: usize = 0;
            while i < n
                invariant i <= n, l == self.d@.len(), n == buf@.len(), n == old(buf)@.len(), *self == *old(self), p == self.p, p + n <= self.d@.len(),
                    forall|j: int| 0 <= j < i ==> buf@[j] == self.d@[p + j]
                decreases n - i
            { buf[i] = self.d[p + i]; i = i + 1; }
            self.p = self.p + n as u64;
            assert(buf@ =~= old(self).data().subrange(old(self).pos(), old(self).pos() + n));
            Ok(())
        }
        fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize>) {
            let n = self.left();
            self.grab(n, buf);
            assert(n > 0 ==> old(self).d@.skip(old(self).p as int) =~= old(self).d@.subrange(old(self).p as int, old(self).p + n));
            assert(n == 0 ==> old(buf)@ + Seq::<u8>::empty() =~= old(buf)@);
            assert(n == 0 ==> old(self).d@.skip(if old(self).p <= old(self).d@.len() { old(self).p as int } else { old(self).d@.len() as int }) =~= Seq::<u8>::empty());
            assert(n == 0 ==> buf@ =~= old(buf)@);
            Ok(n)
        }
        fn vp_take_read_to_end(&mut self, n: u64, buf: &mut Vec<u8>) -> (r: Result<usize>) {
            let l = self.left();
            let m = if n <= l as u64 { n as usize } else { l };
            self.grab(m, buf);
            proof {
                let d = old(self).d@;
                let p = if old(self).p <= d.len() { old(self).p as int } else { d.len() as int };
                assert(m == 0 ==> d.subrange(p, p + m) =~= Seq::<u8>::empty());
                assert(m == 0 ==> buf@ =~= old(buf)@);
                assert(buf@ =~= old(buf)@ + d.subrange(p, p + m));
            }
            Ok(m)
        }
    }
    fn target(p: SeekFrom, len: u64, pos: u64) -> (r: i128)
        ensures r == match p { SeekFrom::Start(n) => n as int, SeekFrom::End(d) => len + d, SeekFrom::Current(d) => pos + d }
    {
        match p {
            SeekFrom::Start(n) => n as i128,
            SeekFrom::End(d) => len as i128 + d as i128,
            SeekFrom::Current(d) => pos as i128 + d as i128,
        }
    }
    impl Seek for BufReader {
        fn seek(&mut self, p: SeekFrom) -> (r: Result<u64>) {
            let t = target(p, self.d.len() as u64, self.p);
            if t < 0 || t > u64::MAX as i128 { return Err(Error { x: 0 }); }
            self.p = t as u64;
            Ok(t as u64)
        }
    }

    /// Buffered writer over a shared file handle.
    pub struct BufWriter<'a> { pub f: &'a mut super::fs::File }
    impl<'a> Stream for BufWriter<'a> {
        open spec fn data(&self) -> Seq<u8> { self.f.content() }
        open spec fn pos(&self) -> int { self.f.cursor() }
        open spec fn reliable(&self) -> bool { self.f.faultless() }
        open spec fn dirty(&self) -> bool { self.f.pending() }
        #[verifier::prophetic]
        open spec fn tail(&self) -> super::fs::File { *final(self.f) }
        open spec fn stamp(&self) -> int { 0 }
    }
    impl<'a> BufWriter<'a> {
        pub fn vp_over(f: &'a mut super::fs::File) -> (r: BufWriter<'a>)
            ensures *r.f == *old(f), r.tail() == *final(f)
        { BufWriter { f } }
        /// `file.set_len(n)` on the file below the writer: bytes still in the buffer lie directly
        /// before the cursor and are not cut off if the cursor is within the new length
        pub fn vp_set_len(&mut self, n: u64) -> (r: Result<()>)
            ensures
                final(self).tail() == old(self).tail(),
                final(self).reliable() == old(self).reliable(),
                final(self).pos() == old(self).pos(),
                final(self).dirty() == old(self).dirty(),
                r is Ok && (!old(self).dirty() || old(self).pos() <= n) ==>
                    final(self).data() == resized(old(self).data(), n as int),
                old(self).reliable() && n <= i64::MAX ==> r is Ok,
        { self.f.vp_resize(n); Ok(()) }
    }
    impl<'a> Write for BufWriter<'a> {
        fn write_all(&mut self, buf: &[u8]) -> (r: Result<()>)
        { self.f.vp_put(buf); Ok(()) }
        fn flush(&mut self) -> (r: Result<()>)
        { self.f.vp_flush(); Ok(()) }
    }
    impl<'a> Seek for BufWriter<'a> {
        fn seek(&mut self, p: SeekFrom) -> (r: Result<u64>)
        {
            let t = target(p, self.f.vp_bytes().len() as u64, self.f.vp_at());
            if t < 0 || t > u64::MAX as i128 { return Err(Error { x: 0 }); }
            self.f.vp_seek(t as u64);
            Ok(t as u64)
        }
    }
    /// The reader is used, and both share the cursor of one file handle: the reader sees the content
    /// if everything reached the file, its position is lost if the writer was used since the reader
    /// was, and the position of the writer is lost, with the bytes it still buffers.
    pub fn vp_sync(r: &mut BufReader, w: &mut BufWriter)
        ensures
            final(r).reliable() == old(r).reliable(), final(w).reliable() == old(w).reliable(), final(w).tail() == old(w).tail(),
            0 <= final(r).pos() <= u64::MAX, 0 <= final(w).pos() <= u64::MAX,
            !old(w).dirty() ==> final(w).data() == old(w).data() && final(r).data() == final(w).data() && !final(w).dirty(),
            old(r).stamp() == old(w).f.mark() && !old(w).dirty() ==> final(r).pos() == old(r).pos(),
            final(r).stamp() == final(w).f.mark(),
    {
        r.d = vstd::slice::slice_to_vec(w.f.vp_bytes().as_slice());
        r.st = Ghost(w.f.mark());
        let _p = w.f.vp_at();
    }
}

// ===================================================================== formatting
pub mod fmt {
    use vstd::prelude::*;
    use super::*;
    pub struct Error;
    pub type Result = core::result::Result<(), Error>;
    /// The text written so far, and whether the sink below accepts everything.
    pub struct Formatter<'a> { t: Vec<char>, ok: bool, x: Option<&'a u8> }
    impl<'a> Formatter<'a> {
        pub closed spec fn text(&self) -> Seq<char> { self.t@ }
        pub closed spec fn sound(&self) -> bool { self.ok }
        pub fn write_fmt(&mut self, a: Arguments) -> (r: Result)
            ensures prints(old(self), final(self), r, a@)
        {
            let mut i: usize = 0;
            while i < a.t.len()
                invariant i <= a.t@.len(), self.ok == old(self).ok, self.t@ == old(self).t@ + a.t@.take(i as int)
                decreases a.t@.len() - i
            {
                self.t.push(a.t[i]);
                assert(self.t@ =~= old(self).t@ + a.t@.take(i + 1));
                i = i + 1;
            }
            assert(a.t@.take(i as int) =~= a.t@);
            Ok(())
        }
        pub fn write_str(&mut self, a: &str) -> (r: Result)
            ensures prints(old(self), final(self), r, a@)
        { push_str(&mut self.t, a); Ok(()) }
        pub fn write_char(&mut self, a: char) -> (r: Result)
            ensures prints(old(self), final(self), r, seq![a])
        { self.t.push(a); assert(self.t@ =~= old(self).t@ + seq![a]); Ok(()) }
    }
    fn push_str(t: &mut Vec<char>, a: &str)
        ensures final(t)@ == old(t)@ + a@
    {
        let n = a.unicode_len();
        let mut i: usize = 0;
        while i < n
            invariant i <= n, n == a@.len(), t@ == old(t)@ + a@.take(i as int)
            decreases n - i
        {
            t.push(a.get_char(i));
            assert(t@ =~= old(t)@ + a@.take(i + 1));
            i = i + 1;
        }
        assert(a@.take(i as int) =~= a@);
        assert(t@ =~= old(t)@ + a@);
    }
    fn push_dec(t: &mut Vec<char>, n: u64)
        ensures final(t)@ == old(t)@ + dec(n as nat)
        decreases n
    {
        let ghost o = t@;
        if n >= 10 { push_dec(t, n / 10); }
        let d = n % 10;
        let c = if d == 0 { '0' } else if d == 1 { '1' } else if d == 2 { '2' } else if d == 3 { '3' } else if d == 4 { '4' }
            else if d == 5 { '5' } else if d == 6 { '6' } else if d == 7 { '7' } else if d == 8 { '8' } else { '9' };
        assert(c == digit(n as nat % 10));
        t.push(c);
        reveal_with_fuel(dec, 2);
        assert(t@ =~= o + dec(n as nat));
    }
    /// `n` is `o` after `t` has been printed with the result `r`
    pub open spec fn prints<'a, 'b>(o: &Formatter<'a>, n: &Formatter<'b>, r: Result, t: Seq<char>) -> bool {
        &&& n.sound() == o.sound()
        &&& r is Ok ==> n.text() == o.text() + t
        &&& o.sound() ==> r is Ok
    }
    pub broadcast proof fn lemma_text(a: Seq<char>, b: Seq<char>, c: Seq<char>)
        ensures #[trigger] (a + (b + c)) == (a + b) + c
    { assert(a + (b + c) =~= (a + b) + c); }
    pub broadcast proof fn lemma_text0(a: Seq<char>)
        ensures #[trigger] (a + Seq::<char>::empty()) == a
    { assert(a + Seq::<char>::empty() =~= a); }
    pub broadcast proof fn lemma_text1(a: Seq<char>)
        ensures #[trigger] (Seq::<char>::empty() + a) == a
    { assert(Seq::<char>::empty() + a =~= a); }
    pub broadcast group group_text { lemma_text, lemma_text0, lemma_text1 }

    /// What `format_args!` builds: the text its pieces denote.
    pub struct Arguments { t: Vec<char> }
    impl View for Arguments { type V = Seq<char>; closed spec fn view(&self) -> Seq<char> { self.t@ } }
    impl Arguments {
        pub fn vp_new() -> (r: Arguments)
            ensures r@ == Seq::<char>::empty()
        { Arguments { t: Vec::new() } }
        pub fn vp_lit(self, s: &str) -> (r: Arguments)
            ensures r@ == self@ + s@
        { let mut t = self.t; push_str(&mut t, s); Arguments { t } }
        pub fn vp_show<T: Display + ?Sized>(self, x: &T) -> (r: Arguments)
            ensures r@ == self@ + x.shown()
        {
            let mut f = Formatter { t: self.t, ok: true, x: None };
            let r = x.fmt(&mut f);
            assert(r is Ok);
            Arguments { t: f.t }
        }
        pub fn vp_debug<T: Debug + ?Sized>(self, x: &T) -> (r: Arguments)
            ensures r@ == self@ + x.debugged()
        {
            let mut f = Formatter { t: self.t, ok: true, x: None };
            let r = x.fmt(&mut f);
            assert(r is Ok);
            Arguments { t: f.t }
        }
        /// `{:02}` of an integer
        pub fn vp_two<T: Display + ?Sized>(self, x: &T) -> (r: Arguments)
            ensures r@ == self@ + two(x.shown())
        {
            let e = Arguments { t: Vec::new() }.vp_show(x);
            assert(e.t@ =~= x.shown());
            let n = e.t.len();
            let mut f = Formatter { t: self.t, ok: true, x: None };
            if n < 2 { let _ = f.write_char('0'); }
            if n < 1 { let _ = f.write_char('0'); }
            let ghost m = f.t@;
            let r = f.write_fmt(e);
            assert(m =~= self.t@ + rep('0', if n < 2 { 2 - n } else { 0 }));
            assert(f.t@ =~= self.t@ + two(x.shown()));
            Arguments { t: f.t }
        }
    }
    pub open spec fn two(s: Seq<char>) -> Seq<char> { if s.len() < 2 { rep('0', 2 - s.len()) + s } else { s } }
    pub trait Display {
        spec fn shown(&self) -> Seq<char>;
        fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result)
            ensures prints(old(f), final(f), r, self.shown());
    }
    pub trait Debug {
        spec fn debugged(&self) -> Seq<char>;
        fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result)
            ensures prints(old(f), final(f), r, self.debugged());
    }
    /// decimal digits
    pub open spec fn dec(n: nat) -> Seq<char>
        decreases n
    {
        if n < 10 { seq![digit(n)] } else { dec(n / 10).push(digit(n % 10)) }
    }
    pub open spec fn digit(n: nat) -> char {
        if n == 0 { '0' } else if n == 1 { '1' } else if n == 2 { '2' } else if n == 3 { '3' } else if n == 4 { '4' }
        else if n == 5 { '5' } else if n == 6 { '6' } else if n == 7 { '7' } else if n == 8 { '8' } else { '9' }
    }
    /// the escaped, quoted form of a string and the list form of bytes
    pub uninterp spec fn quoted(s: Seq<char>) -> Seq<char>;
    pub uninterp spec fn listed(s: Seq<u8>) -> Seq<char>;
    impl Display for u8 {
        open spec fn shown(&self) -> Seq<char> { dec(*self as nat) }
        fn fmt(&self, f: &mut Formatter<'_>) -> Result { push_dec(&mut f.t, *self as u64); Ok(()) }
    }
    impl Display for u16 {
        open spec fn shown(&self) -> Seq<char> { dec(*self as nat) }
        fn fmt(&self, f: &mut Formatter<'_>) -> Result { push_dec(&mut f.t, *self as u64); Ok(()) }
    }
    impl Display for u32 {
        open spec fn shown(&self) -> Seq<char> { dec(*self as nat) }
        fn fmt(&self, f: &mut Formatter<'_>) -> Result { push_dec(&mut f.t, *self as u64); Ok(()) }
    }
    impl Display for u64 {
        open spec fn shown(&self) -> Seq<char> { dec(*self as nat) }
        fn fmt(&self, f: &mut Formatter<'_>) -> Result { push_dec(&mut f.t, *self as u64); Ok(()) }
    }
    impl Display for usize {
        open spec fn shown(&self) -> Seq<char> { dec(*self as nat) }
        fn fmt(&self, f: &mut Formatter<'_>) -> Result { push_dec(&mut f.t, *self as u64); Ok(()) }
    }
    impl Display for str {
        open spec fn shown(&self) -> Seq<char> { self@ }
        fn fmt(&self, f: &mut Formatter<'_>) -> Result { f.write_str(self) }
    }
    impl Display for String {
        open spec fn shown(&self) -> Seq<char> { self@ }
        fn fmt(&self, f: &mut Formatter<'_>) -> Result { f.write_str(self.as_str()) }
    }
    impl<T: Display + ?Sized> Display for &T {
        open spec fn shown(&self) -> Seq<char> { (**self).shown() }
        fn fmt(&self, f: &mut Formatter<'_>) -> Result { (**self).fmt(f) }
    }
    impl Debug for String {
        open spec fn debugged(&self) -> Seq<char> { quoted(self@) }
        #[verifier::external_body]
        fn fmt(&self, f: &mut Formatter<'_>) -> Result { unimplemented!() }
    }
    impl Debug for Vec<u8> {
        open spec fn debugged(&self) -> Seq<char> { listed(self@) }
        #[verifier::external_body]
        fn fmt(&self, f: &mut Formatter<'_>) -> Result { unimplemented!() }
    }
    impl<T: Debug + ?Sized> Debug for &T {
        open spec fn debugged(&self) -> Seq<char> { (**self).debugged() }
        fn fmt(&self, f: &mut Formatter<'_>) -> Result { (**self).fmt(f) }
    }
}

/// content after the length has been set
pub open spec fn resized(d: Seq<u8>, n: int) -> Seq<u8> {
    if n <= d.len() { d.take(n) } else { d + zeros(n - d.len()) }
}

/// length of a content that was overwritten
pub broadcast proof fn lemma_ow(d: Seq<u8>, p: int, b: Seq<u8>)
    requires p >= 0
    ensures
        b.len() == 0 ==> #[trigger] overwrite(d, p, b) == d,
        b.len() > 0 ==> overwrite(d, p, b).len() == (if p + b.len() > d.len() { p + b.len() } else { d.len() as int }),
{}
pub broadcast group group_vp { fmt::group_text, lemma_ow, lemma_to_len, lemma_to_len32, lemma_to_len64, lemma_be16_range, lemma_be32_range, lemma_be64_range, io::lemma_acc, axiom_o1, axiom_o2, lemma_enc16, axiom_str_size, axiom_str_string_eq, axiom_string_eq }
} // mod vp
/// everything the contracts refer to
pub mod vs_all {
    pub use crate::vs::*;
    pub use crate::ty::*;
    pub use crate::pf::*;
    pub use crate::vp::fmt::prints;
    pub use crate::ds::*;
    pub use crate::hs::*;
    pub use crate::ks::*;
    pub use crate::pl::*;
    pub use crate::il::*;
    pub use crate::fd::*;
    pub use crate::sr::*;
    pub use crate::fl::*;
    pub use crate::dp::*;
    pub use crate::wt::*;
    pub use crate::nm::*;
    pub use crate::tp::*;
    pub use crate::gn::*;
    pub use crate::tg::*;
    pub use crate::vp::io::{swf, same, wrote, acc, lemma_acc0, lemma_acc, seek_target, Stream};
    pub use vstd::utf8::{valid_utf8, decode_utf8, encode_utf8, encode_utf8_valid_utf8, encode_utf8_decode_utf8};
}
