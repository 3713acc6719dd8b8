// Specification of the wire format and lemmas about it (hand-written; no fourleaf code here).
pub mod wspec {
    use vstd::prelude::*;
    use crate::vio::*;
    use crate::wire::*;
    // ---- the number format -------------------------------------------------------------------
    pub open spec fn low7(b: u8) -> nat { (b % 128) as nat }
    pub open spec fn p128(i: nat) -> nat decreases i { if i == 0 { 1 } else { 128 * p128((i-1) as nat) } }
    /// number denoted by the first n bytes of s
    pub open spec fn vval(s: Seq<u8>, n: nat) -> nat decreases n {
        if n == 0 { 0 } else { vval(s, (n-1) as nat) + low7(s[n-1]) * p128((n-1) as nat) }
    }
    /// bytes 0..n all have the continuation bit
    pub open spec fn vcont(s: Seq<u8>, n: nat) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] s[i] >= 128 }
    /// the first integer of s occupies exactly n bytes
    pub open spec fn vlen_is(s: Seq<u8>, n: nat) -> bool { 1 <= n <= s.len() && vcont(s, (n-1) as nat) && s[n-1] < 128 }
    pub open spec fn vint_is(s: Seq<u8>, n: nat, v: int) -> bool { vlen_is(s, n) && v == vval(s, n) && n <= 257 }
    /// pre -> post consumed exactly one integer, of value v
    pub open spec fn dec_ok<D: Dev + ?Sized>(pre: &D, post: &D, v: int) -> bool {
        exists|n: nat| #[trigger] vlen_is(rest(pre), n) && v == vval(rest(pre), n) && n <= 257 && rd_step(pre, post, n as int)
    }
    /// error e is justified by the integer at the start of s
    pub open spec fn num_err(s: Seq<u8>, e: crate::stream::Error) -> bool {
        ||| e is IntegerOverflow && exists|n: nat| 1 <= n <= s.len() && vcont(s, (n-1) as nat) && #[trigger] vval(s, n) > u64::MAX
        ||| e is OverwideInteger && s.len() >= 257 && vcont(s, 257)
    }
    /// the input ends inside the integer at the start of s
    pub open spec fn cut_num(s: Seq<u8>) -> bool { s.len() < 257 && vcont(s, s.len()) }
    /// canonical encoding of v
    pub open spec fn venc(v: nat) -> Seq<u8> decreases v {
        if v < 128 { seq![v as u8] } else { seq![(v % 128 + 128) as u8] + venc(v / 128) }
    }
    /// encoding of v in exactly n bytes
    pub open spec fn vfix(v: nat, n: nat) -> Seq<u8> decreases n {
        if n <= 1 { seq![(v % 128) as u8] } else { seq![(v % 128 + 128) as u8] + vfix(v / 128, (n-1) as nat) }
    }
    pub open spec fn zz(i: i64) -> u64 { if i >= 0 { (2 * i) as u64 } else { (-2 * i - 1) as u64 } }
    pub open spec fn unzz(u: u64) -> i64 { if u % 2 == 0 { (u / 2) as i64 } else { (-((u / 2) as int) - 1) as i64 } }

    pub broadcast proof fn lemma_b7f(b: u8) ensures #![trigger b & 0x7F] (b & 0x7F) == b % 128, (b & 0x7F) as u64 == (b%128) as u64 {
        assert(b & 0x7F == b % 128) by(bit_vector);
    }
    pub broadcast proof fn lemma_b80(b: u8) ensures #![trigger b & 0x80] (b & 0x80 == 0) == (b < 128) {
        assert((b & 0x80 == 0) == (b < 128)) by(bit_vector);
    }
    pub broadcast proof fn lemma_or80(b: u8) ensures #![trigger b | 0x80] b < 128 ==> (b | 0x80) == b + 128 {
        assert(b < 128 ==> (b | 0x80) == b + 128) by(bit_vector);
    }
    pub broadcast proof fn lemma_u7f(i: u64) ensures #![trigger i & 0x7F] (i & 0x7F) == i % 128 {
        assert(i & 0x7F == i % 128) by(bit_vector);
    }
    pub broadcast proof fn lemma_shr7(i: u64) ensures #![trigger i >> 7u64] #![trigger i >> 7i32] i >> 7u64 == i / 128, i >> 7i32 == i / 128 {
        assert(i >> 7u64 == i / 128) by(bit_vector);
        assert(i >> 7i32 == i / 128) by(bit_vector);
    }
    pub proof fn lemma_p128_vals()
        ensures p128(0)==1, p128(1)==0x80, p128(2)==0x4000, p128(3)==0x20_0000, p128(4)==0x1000_0000, p128(5)==0x8_0000_0000,
            p128(6)==0x400_0000_0000, p128(7)==0x2_0000_0000_0000, p128(8)==0x100_0000_0000_0000, p128(9)==0x8000_0000_0000_0000,
            p128(10)==0x40_0000_0000_0000_0000
    { reveal_with_fuel(p128, 12); }
    pub proof fn lemma_p128_mono(i: nat, j: nat) requires i <= j ensures 1 <= p128(i) <= p128(j) decreases j, j - i
    { if i < j { lemma_p128_mono(i, (j-1) as nat); } else if i > 0 { lemma_p128_mono((i-1) as nat, (i-1) as nat); } }

    macro_rules! dcase { ($a:ident,$v:ident,$s:ident,$c:literal,$p:literal,$m:literal) => { verus_proof_expr!{{
        assert(($v << $c >> $c == $v) == ($v <= $m)) by(bit_vector) requires $v < 128;
        assert($v <= $m && $a < $p ==> $v << $c == $v * $p && ($a | ($v << $c)) == $a + $v * $p ) by(bit_vector) requires $v < 128;
    }} } }
    pub proof fn lemma_dec_step(a: u64, v: u64, s: i32, n: nat)
        requires s == 7*n, v < 128
        ensures n < 10 ==> ((v << s >> s == v) <==> v * p128(n) <= u64::MAX),
            n < 10 && (v << s >> s == v) && a < p128(n) ==> (a | (v << s)) == a + v*p128(n) && a + v*p128(n) < p128(n+1),
            n >= 10 && v != 0 ==> v * p128(n) > u64::MAX,
    {
        lemma_p128_vals();
        if n == 0 {  dcase!(a,v,s,0i32,1u64,0xFFFF_FFFF_FFFF_FFFFu64); }
        else if n == 1 { dcase!(a,v,s,7i32,0x80u64,0x1FF_FFFF_FFFF_FFFFu64); }
        else if n == 2 { dcase!(a,v,s,14i32,0x4000u64,0x3_FFFF_FFFF_FFFFu64); }
        else if n == 3 { dcase!(a,v,s,21i32,0x20_0000u64,0x7FF_FFFF_FFFFu64); }
        else if n == 4 { dcase!(a,v,s,28i32,0x1000_0000u64,0xF_FFFF_FFFFu64); }
        else if n == 5 { dcase!(a,v,s,35i32,0x8_0000_0000u64,0x1FFF_FFFFu64); }
        else if n == 6 { dcase!(a,v,s,42i32,0x400_0000_0000u64,0x3F_FFFFu64); }
        else if n == 7 { dcase!(a,v,s,49i32,0x2_0000_0000_0000u64,0x7FFFu64); }
        else if n == 8 { dcase!(a,v,s,56i32,0x100_0000_0000_0000u64,0xFFu64); }
        else if n == 9 { dcase!(a,v,s,63i32,0x8000_0000_0000_0000u64,1u64); }
        else { lemma_p128_mono(10, n); assert(v != 0 ==> v * p128(n) >= p128(n)) by(nonlinear_arith) requires v >= 0; }
    }

    // vval depends on the first n bytes only
    pub proof fn lemma_vval_ext(a: Seq<u8>, b: Seq<u8>, n: nat)
        requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i]
        ensures vval(a, n) == vval(b, n) decreases n
    { if n > 0 { lemma_vval_ext(a, b, (n-1) as nat); } }
    pub proof fn lemma_vval1(s: Seq<u8>)
        ensures vval(s, 1) == low7(s[0])
    { reveal_with_fuel(vval, 2); assert(p128(0) == 1); assert(low7(s[0]) * 1 == low7(s[0])); }
    // peel the first byte
    pub proof fn lemma_vval_cons(s: Seq<u8>, n: nat)
        requires 1 <= n <= s.len()
        ensures vval(s, n) == low7(s[0]) + 128 * vval(s.skip(1), (n-1) as nat) decreases n
    {
        if n == 1 { reveal_with_fuel(vval, 2); assert(p128(0) == 1); }
        else {
            lemma_vval_cons(s, (n-1) as nat);
            let t = s.skip(1);
            assert(t[n-2] == s[n-1]);
            let m = (n-2) as nat;
            assert(p128((n-1) as nat) == 128 * p128(m));
            assert(vval(t, (n-1) as nat) == vval(t, m) + low7(t[n-2]) * p128(m));
            assert(low7(s[n-1]) * (128 * p128(m)) == 128 * (low7(s[n-1]) * p128(m))) by(nonlinear_arith);
        }
    }
    // canonical encoding decodes to itself, whatever follows
    pub proof fn lemma_venc(v: nat, t: Seq<u8>)
        ensures vlen_is(venc(v) + t, venc(v).len()), vval(venc(v) + t, venc(v).len()) == v, venc(v).len() >= 1
        decreases v
    {
        let s = venc(v) + t;
        if v < 128 { lemma_vval1(s); assert(s[0] == v); }
        else {
            lemma_venc(v / 128, t);
            let e = venc(v / 128);
            assert(s[0] == (v % 128 + 128) as u8);
            assert(s.skip(1) =~= e + t);
            lemma_vval_cons(s, (e.len() + 1) as nat);
            assert(venc(v).len() == e.len() + 1);
            assert forall|i: int| 0 <= i < e.len() implies #[trigger] s[i] >= 128 by {
                if i > 0 { assert(s[i] == s.skip(1)[i-1]); }
            }
            assert(s[e.len() as int] == s.skip(1)[e.len() - 1]);
            assert(low7(s[0]) == v % 128);
        }
    }
    pub proof fn lemma_vfix_len1(v: nat, n: nat) ensures n >= 1 ==> vfix(v, n).len() == n decreases n
    { if n > 1 { lemma_vfix_len1(v / 128, (n - 1) as nat); } }
    pub proof fn lemma_vfix_len(n: nat) ensures n >= 1 ==> forall|v: nat| (#[trigger] vfix(v, n)).len() == n
    { assert forall|v: nat| n >= 1 implies (#[trigger] vfix(v, n)).len() == n by { lemma_vfix_len1(v, n); } }
    pub proof fn lemma_vfix(v: nat, n: nat, t: Seq<u8>)
        requires n >= 1, v < p128(n)
        ensures vfix(v, n).len() == n, vlen_is(vfix(v, n) + t, n), vval(vfix(v, n) + t, n) == v
        decreases n
    {
        let s = vfix(v, n) + t;
        if n <= 1 { lemma_vval1(s); reveal_with_fuel(p128, 2); assert(s[0] == v); assert(vfix(v, n).len() == 1); }
        else {
            let m = (n-1) as nat;
            assert(p128(n) == 128 * p128(m));
            assert(v / 128 < p128(m));
            lemma_vfix(v / 128, m, t);
            let e = vfix(v / 128, m);
            assert(s[0] == (v % 128 + 128) as u8);
            assert(s.skip(1) =~= e + t);
            lemma_vval_cons(s, n);
            assert forall|i: int| 0 <= i < m implies #[trigger] s[i] >= 128 by {
                if i > 0 { assert(s[i] == s.skip(1)[i-1]); }
            }
            assert(s[m as int] == s.skip(1)[m - 1]);
            assert(low7(s[0]) == v % 128);
        }
    }
    // an integer has one length and one value
    pub proof fn lemma_vlen_unique(s: Seq<u8>, n: nat, m: nat)
        requires vlen_is(s, n), vlen_is(s, m) ensures n == m
    { if n < m { assert(s[n-1] >= 128); } else if m < n { assert(s[m-1] >= 128); } }
    // canonical encoding is no longer than 10 bytes for a u64, and is the shortest one
    pub proof fn lemma_venc_len(v: nat, n: nat)
        requires v < p128(n), n >= 1 ensures 1 <= venc(v).len() <= n decreases n
    {
        if v >= 128 { assert(n >= 2) by { if n == 1 { reveal_with_fuel(p128, 2); } } assert(p128(n) == 128 * p128((n-1) as nat)); lemma_venc_len(v / 128, (n-1) as nat); }
    }
    /// Facts about complement and exclusive or with 0 and with all ones, for either
    /// way of writing the zigzag transformations.
    pub proof fn lemma_bits()
        ensures
            forall|x: u64, y: u64| y == 0 ==> #[trigger] (x ^ y) == x,
            forall|x: u64, y: u64| y == 0xffff_ffff_ffff_ffff ==> #[trigger] (x ^ y) == !x,
            forall|x: i64, y: i64| y == 0 ==> #[trigger] (x ^ y) == x,
            forall|x: i64, y: i64| y == -1 ==> #[trigger] (x ^ y) == -1 - x,
            forall|x: i64| #[trigger] (!x) == -1 - x,
            forall|x: u64| #[trigger] (!x) == 0xffff_ffff_ffff_ffff - x,
            forall|x: u64| x < 0x8000_0000_0000_0000 ==> #[trigger] (!x) as i64 == -1 - x,
    {
        assert forall|x: u64, y: u64| y == 0 implies #[trigger] (x ^ y) == x by { assert(x ^ 0 == x) by(bit_vector); };
        assert forall|x: u64, y: u64| y == 0xffff_ffff_ffff_ffff implies #[trigger] (x ^ y) == !x by { assert(x ^ 0xffff_ffff_ffff_ffff == !x) by(bit_vector); };
        assert forall|x: i64, y: i64| y == 0 implies #[trigger] (x ^ y) == x by { assert(x ^ 0 == x) by(bit_vector); };
        assert forall|x: i64, y: i64| y == -1 implies #[trigger] (x ^ y) == -1 - x by { assert(x ^ -1i64 == -1 - x) by(bit_vector); };
        assert forall|x: i64| #[trigger] (!x) == -1 - x by { assert(!x == -1 - x) by(bit_vector); };
        assert forall|x: u64| #[trigger] (!x) == 0xffff_ffff_ffff_ffff - x by { assert(!x == 0xffff_ffff_ffff_ffff - x) by(bit_vector); };
        assert forall|x: u64| x < 0x8000_0000_0000_0000 implies #[trigger] (!x) as i64 == -1 - x by { assert(x < 0x8000_0000_0000_0000 ==> (!x) as i64 == -1 - x) by(bit_vector); };
    }
    pub proof fn lemma_zz(i: i64, u: u64) ensures unzz(zz(i)) == i, zz(unzz(u)) == u {}

    // ---- descriptors -------------------------------------------------------------------------
    pub open spec fn dt_of(b: u8) -> DescriptorType {
        if b / 64 == 0 { DescriptorType::Enum } else if b / 64 == 1 { DescriptorType::Integer }
        else if b / 64 == 2 { DescriptorType::Blob } else { DescriptorType::Struct }
    }
    pub open spec fn st_of(b: u8) -> SpecialType {
        if b / 64 == 0 { SpecialType::EndOfStruct } else if b / 64 == 1 { SpecialType::EndOfDoc }
        else if b / 64 == 2 { SpecialType::Exception } else { SpecialType::Padding }
    }
    pub open spec fn parse_desc(b: u8) -> ParsedDescriptor {
        if b % 64 == 0 { ParsedDescriptor::Special(st_of(b)) } else { ParsedDescriptor::Pair(dt_of(b), b % 64) }
    }
    pub open spec fn dt_base(t: DescriptorType) -> u8 {
        match t { DescriptorType::Enum => 0u8, DescriptorType::Integer => 64u8, DescriptorType::Blob => 128u8, DescriptorType::Struct => 192u8 }
    }
    pub open spec fn st_base(t: SpecialType) -> u8 {
        match t { SpecialType::EndOfStruct => 0u8, SpecialType::EndOfDoc => 64u8, SpecialType::Exception => 128u8, SpecialType::Padding => 192u8 }
    }
    pub open spec fn desc_ok(d: ParsedDescriptor) -> bool { match d { ParsedDescriptor::Pair(_, tag) => 1 <= tag <= 63, ParsedDescriptor::Special(_) => true } }
    pub open spec fn desc_byte(d: ParsedDescriptor) -> u8 {
        match d { ParsedDescriptor::Pair(t, tag) => (dt_base(t) + tag) as u8, ParsedDescriptor::Special(t) => st_base(t) }
    }
    pub proof fn lemma_desc_inverse(b: u8, d: ParsedDescriptor)
        ensures desc_ok(parse_desc(b)), desc_byte(parse_desc(b)) == b, desc_ok(d) ==> parse_desc(desc_byte(d)) == d
    {}
    pub broadcast proof fn lemma_c0(b: u8) ensures #![trigger b & 0xC0] b & 0xC0 == (b / 64) * 64, b & 0xC0 == 0 || b & 0xC0 == 64 || b & 0xC0 == 128 || b & 0xC0 == 192 {
        assert(b & 0xC0 == (b / 64) * 64 && (b & 0xC0 == 0 || b & 0xC0 == 64 || b & 0xC0 == 128 || b & 0xC0 == 192)) by(bit_vector);
    }
    pub broadcast proof fn lemma_3f(b: u8) ensures #![trigger b & 0x3F] b & 0x3F == b % 64 {
        assert(b & 0x3F == b % 64) by(bit_vector);
    }
    pub broadcast proof fn lemma_or_ty(a: u8, b: u8) ensures #![trigger a | b]
        a < 64 && (b == 0 || b == 64 || b == 128 || b == 192) ==> (a | b) == a + b {
        assert(a < 64 && (b == 0 || b == 64 || b == 128 || b == 192) ==> (a | b) == a + b) by(bit_vector);
    }
    pub broadcast group wire_lemmas { lemma_b7f, lemma_b80, lemma_or80, lemma_u7f, lemma_shr7, lemma_c0, lemma_3f, lemma_or_ty }
}
