// needs module de
// Specification of the value layer: what the deserialisers accept and produce (hand-written; no fourleaf code here).
pub mod dspec {
    use vstd::prelude::*;
    use crate::vio::*;
    use crate::wspec::*;
    use crate::sspec::*;
    use crate::stream::{Stream, Field, Value, Blob};
    use crate::de::{Config, Context, Deserialize};
    broadcast use {crate::vio::vio_lemmas, crate::sspec::sspec_lemmas};

    /// what has been counted against the limits so far
    pub struct Bud { pub collected: nat, pub blob: nat }
    /// the part of a context that the result can depend on
    pub struct Cx { pub cfg: Config, pub depth: nat }
    /// one field being read: its declaration, the stream inside its handle (if its value has one) and
    /// the counters, each before and after
    pub struct Fx<R> { pub cx: Cx, pub tag: u8, pub pos: u64, pub depth: u64, pub v: Vv, pub s0: Option<Stream<R>>, pub s1: Option<Stream<R>>, pub h0: Bud, pub h1: Bud }
    /// a whole body being read from a stream
    pub struct Bx<R> { pub cx: Cx, pub s0: Stream<R>, pub s1: Stream<R>, pub h0: Bud, pub h1: Bud }

    // ---- contexts and counters -------------------------------------------------------------------
    pub open spec fn cid(c: &Context) -> int { cow_ref(c.stats).collected.id() }
    pub open spec fn bid(c: &Context) -> int { cow_ref(c.stats).total_blob.id() }
    pub open spec fn cow_ref(c: std::borrow::Cow<crate::de::ContextStats>) -> crate::de::ContextStats {
        match c { std::borrow::Cow::Borrowed(b) => *b, std::borrow::Cow::Owned(o) => o }
    }
    pub fn cow_deref<'b>(c: &'b std::borrow::Cow<crate::de::ContextStats>) -> (r: &'b crate::de::ContextStats) ensures *r == cow_ref(*c) {
        match c { std::borrow::Cow::Borrowed(b) => b, std::borrow::Cow::Owned(o) => o }
    }
    pub open spec fn ctx_ok(c: &Context, h: &Heap) -> bool {
        &&& h.m.dom().contains(cid(c)) && h.m.dom().contains(bid(c)) && cid(c) != bid(c)
        &&& h.m[cid(c)] <= c.config.max_collect && h.m[bid(c)] <= c.config.max_blob
    }
    pub open spec fn bud(c: &Context, h: &Heap) -> Bud { Bud { collected: h.m[cid(c)] as nat, blob: h.m[bid(c)] as nat } }
    pub open spec fn cx(c: &Context) -> Cx { Cx { cfg: *c.config, depth: c.depth as nat } }
    pub open spec fn csub(c: Cx) -> Cx { Cx { depth: c.depth + 1, ..c } }
    /// nothing but this context's counters may change
    pub open spec fn hstep(c: &Context, a: &Heap, b: &Heap) -> bool {
        &&& ctx_ok(c, b) && a.m.dom() =~= b.m.dom()
        &&& forall|i: int| i != cid(c) && i != bid(c) ==> #[trigger] b.m[i] == a.m[i]
        &&& a.m[cid(c)] <= b.m[cid(c)] && a.m[bid(c)] <= b.m[bid(c)]
    }

    pub proof fn lemma_ascii2(b: Seq<u8>) requires b.len() == 2, b[0] < 128, b[1] < 128 ensures vstd::utf8::valid_utf8(b) {
        let c = seq![b[0] as char, b[1] as char];
        vstd::utf8::is_ascii_chars_encode_utf8(c);
        assert(vstd::utf8::encode_utf8(c) =~= b);
        vstd::utf8::encode_utf8_valid_utf8(c);
    }
    // ---- fields and streams ----------------------------------------------------------------------
    pub open spec fn fst<R>(v: Value<R>) -> Option<Stream<R>> {
        match v { Value::Integer(_) => None, Value::Blob(b) => Some(*b.stream), Value::Struct(s) => Some(*s), Value::Enum(_, s) => Some(*s) }
    }
    /// the streams behind two states of the same handle end up the same
    #[verifier::prophetic]
    pub open spec fn vsame<R>(a: Value<R>, b: Value<R>) -> bool {
        match a {
            Value::Integer(n) => b matches Value::Integer(m) && m == n,
            Value::Blob(x) => b matches Value::Blob(y) && y.len == x.len && *final(y.stream) == *final(x.stream),
            Value::Struct(x) => b matches Value::Struct(y) && *final(y) == *final(x),
            Value::Enum(d, x) => b matches Value::Enum(e, y) && e == d && *final(y) == *final(x),
        }
    }
    pub open spec fn sok<R: Dev>(s: &Stream<R>) -> bool { swf(s) && depth_ok(s) }
    pub open spec fn fok<R: Dev>(f: &Field<R>) -> bool {
        match f.value { Value::Integer(_) => true, Value::Blob(b) => bwf(&b) && depth_ok(b.stream), Value::Struct(s) => sok(s), Value::Enum(_, s) => sok(s) }
    }
    /// the stream never gives back what has been consumed
    pub open spec fn sprog<R: Dev>(a: &Stream<R>, b: &Stream<R>) -> bool { sok(b) && rest(&b.inner).len() <= rest(&a.inner).len() }
    #[verifier::prophetic]
    pub open spec fn fprog<R: Dev>(a: &Field<R>, b: &Field<R>) -> bool {
        &&& b.tag == a.tag && b.pos == a.pos && b.depth == a.depth && vsame(a.value, b.value)
        &&& fst(a.value) matches Some(s) ==> sprog(&s, &fst(b.value)->0)
    }
    pub open spec fn fx<R>(c: &Context, a: &Field<R>, b: &Field<R>, h0: Bud, h1: Bud) -> Fx<R> {
        Fx { cx: cx(c), tag: a.tag, pos: a.pos, depth: a.depth, v: vv(a.value), s0: fst(a.value), s1: fst(b.value), h0, h1 }
    }
    pub open spec fn bx<R>(c: &Context, a: &Stream<R>, b: &Stream<R>, h0: Bud, h1: Bud) -> Bx<R> { Bx { cx: cx(c), s0: *a, s1: *b, h0, h1 } }
    /// the value was an integer, nothing else happened
    pub open spec fn int_val<R>(x: Fx<R>, n: int) -> bool { (x.v matches Vv::Int(m) && m == n) && x.s1 == x.s0 && x.h1 == x.h0 }
    /// the body of a struct-valued field
    pub open spec fn is_sub<R>(x: Fx<R>) -> bool { x.v is Struct && x.s0 is Some && x.s1 is Some }
    pub open spec fn inside<R>(x: Fx<R>) -> Bx<R> { Bx { cx: x.cx, s0: x.s0->0, s1: x.s1->0, h0: x.h0, h1: x.h1 } }
    pub open spec fn is_enum<R>(x: Fx<R>, d: u64) -> bool { x.v == Vv::Enum(d) && x.s0 is Some && x.s1 is Some }
    /// one level deeper
    pub open spec fn pushed<R>(x: Bx<R>) -> Bx<R> { Bx { cx: csub(x.cx), ..x } }
    pub open spec fn fpushed<R>(x: Fx<R>) -> Fx<R> { Fx { cx: csub(x.cx), ..x } }
    /// the content still there of a blob-valued field
    pub open spec fn content<R: Dev>(s: Stream<R>) -> Seq<u8> { rest(&s.inner).take(minn(rest(&s.inner).len(), pend(&s) as nat) as int) }
    /// all of a blob read into a buffer; `owned` buffers count against max_blob
    #[verifier::prophetic]
    pub open spec fn blob_val<R: Dev>(x: Fx<R>, b: Seq<u8>, owned: bool) -> bool {
        &&& x.v is Blob && x.s0 is Some && x.s1 is Some
        &&& b == content(x.s0->0) && b.len() == pend(&x.s0->0) && srd(&x.s0->0, &x.s1->0, b.len() as int)
        &&& if owned { x.h1 == (Bud { blob: x.h0.blob + x.v->Blob_0 as nat, ..x.h0 }) && x.h1.blob <= x.cx.cfg.max_blob } else { x.h1 == x.h0 }
    }
    /// one collection element counted
    pub open spec fn counted<R>(x: Fx<R>) -> Fx<R> { Fx { h0: Bud { collected: x.h0.collected + 1, ..x.h0 }, ..x } }
    pub open spec fn can_count<R>(x: Fx<R>) -> bool { x.h0.collected + 1 <= x.cx.cfg.max_collect }

    /// all of a blob borrowed from the input; it is not consumed yet, and does not count against max_blob
    pub open spec fn zero_copy<'a, R: Dev + crate::io::AsExtBytes<'a>>(x: Fx<R>, b: Seq<u8>) -> bool {
        &&& x.v is Blob && x.s0 is Some && x.s1 is Some && x.h1 == x.h0
        &&& pend(&x.s0->0) <= x.s0->0.inner.ext_bytes().len() && b == x.s0->0.inner.ext_bytes().take(pend(&x.s0->0))
        &&& x.s1 == x.s0
    }

    /// a stream nothing has been read from
    pub open spec fn at_start<R>(s: &Stream<R>) -> bool { s.pos == 0 && !s.eof && s.struct_depth == 0 && !s.graceful_eof && s.commit is None }

    // ---- failures: what is known before, and why the attempt may end with error e ----------------------
    pub type DErr = crate::de::Error;
    /// one field about to be read; a body about to be read
    pub struct Qx<R> { pub cx: Cx, pub tag: u8, pub pos: u64, pub depth: u64, pub v: Vv, pub s0: Option<Stream<R>>, pub h0: Bud }
    pub struct Ex<R> { pub cx: Cx, pub s0: Stream<R>, pub h0: Bud }
    pub open spec fn qx<R>(c: &Context, a: &Field<R>, h0: Bud) -> Qx<R> {
        Qx { cx: cx(c), tag: a.tag, pos: a.pos, depth: a.depth, v: vv(a.value), s0: fst(a.value), h0 }
    }
    pub open spec fn ex<R>(c: &Context, a: &Stream<R>, h0: Bud) -> Ex<R> { Ex { cx: cx(c), s0: *a, h0 } }
    pub open spec fn qin<R>(q: Qx<R>) -> Ex<R> { Ex { cx: q.cx, s0: q.s0->0, h0: q.h0 } }
    pub open spec fn qpushed<R>(q: Qx<R>) -> Qx<R> { Qx { cx: csub(q.cx), ..q } }
    pub open spec fn epushed<R>(y: Ex<R>) -> Ex<R> { Ex { cx: csub(y.cx), ..y } }
    pub open spec fn qcounted<R>(q: Qx<R>) -> Qx<R> { Qx { h0: Bud { collected: q.h0.collected + 1, ..q.h0 }, ..q } }
    pub open spec fn too_many(e: DErr, n: int) -> bool { e matches DErr::FieldOccursTooManyTimes(_, m) && m == n }
    pub open spec fn too_few(e: DErr, n: int) -> bool { e matches DErr::FieldOccursTooFewTimes(_, m) && m == n }
    pub open spec fn missing(e: DErr) -> bool { e is RequiredFieldMissing }
    pub open spec fn too_deep(c: Cx, e: DErr) -> bool { e is RecursionLimitExceeded && !may_push(c) }
    pub open spec fn no_room<R>(q: Qx<R>, e: DErr) -> bool { e is MaxCollectExceeded && q.h0.collected + 1 > q.cx.cfg.max_collect }
    pub open spec fn se(e: DErr) -> crate::stream::Error { e->Stream_1 }
    pub open spec fn no_variant(e: DErr, d: u64) -> bool { e matches DErr::UnknownVariant(_, g) && g == d }
    /// the value is of another type
    pub open spec fn bad_type(e: DErr) -> bool { e is Stream && se(e) is UnexpectedType }
    pub open spec fn bad_int<R>(q: Qx<R>, e: DErr, ok: bool) -> bool {
        e is Stream && if q.v is Int { !ok && se(e) is IntegerOutOfRange } else { se(e) is UnexpectedType }
    }
    pub open spec fn not_in<R>(q: Qx<R>, lo: int, hi: int, e: DErr) -> bool { bad_int(q, e, lo <= q.v->Int_0 as int <= hi) }
    pub open spec fn snot_in<R>(q: Qx<R>, lo: int, hi: int, e: DErr) -> bool { bad_int(q, e, lo <= unzz(q.v->Int_0) <= hi) }
    pub open spec fn bad_char<R>(q: Qx<R>, e: DErr) -> bool {
        not_in(q, 0, u32::MAX as int, e) || (q.v is Int && e is InvalidValueMsg && !scalar(q.v->Int_0 as int))
    }
    /// a blob could not be read whole, or is too long for what is left of max_blob
    pub open spec fn bad_blob<R: Dev>(q: Qx<R>, e: DErr) -> bool {
        if !(q.v is Blob) { bad_type(e) } else {
            ||| e is MaxBlobExceeded && q.h0.blob + q.v->Blob_0 > q.cx.cfg.max_blob
            ||| e is Stream && se(e) is Io && !sfit(&q.s0->0)
            ||| e is Stream && se(e) is LargeBlob && pend(&q.s0->0) > q.cx.cfg.max_blob
            ||| e is Stream && se(e) is TruncatedBlob && rest(&q.s0->0.inner).len() < pend(&q.s0->0)
        }
    }
    /// the same into a buffer of n bytes
    pub open spec fn bad_fixed<R: Dev>(q: Qx<R>, n: int, e: DErr) -> bool {
        if !(q.v is Blob) { bad_type(e) } else {
            if pend(&q.s0->0) != n { e is InvalidValueMsg } else { e is Stream && se(e) is Io && (!sfit(&q.s0->0) || rest(&q.s0->0.inner).len() < n) }
        }
    }
    /// the stream s cannot say what comes next
    #[verifier::prophetic]
    pub open spec fn sfail<R: Dev>(s: Stream<R>, e: crate::stream::Error) -> bool {
        ||| exists|b: Stream<R>| #[trigger] next_err(&s, &b, e)
        ||| e is Io && exists|m: Stream<R>, len: u64| #[trigger] next_post(&s, true, Ev::Exception(len), &m) && !sfit(&m)
        ||| e is Exception && exists|m: Stream<R>, len: u64| #[trigger] next_post(&s, true, Ev::Exception(len), &m)
                && e->Exception_0@ == crate::vio::lossy(rest(&m.inner).take(minn(256, minn(len as nat, rest(&m.inner).len())) as int))
    }
    /// q is the field the body's stream hands out next
    #[verifier::prophetic]
    pub open spec fn asks<R: Dev>(y: Ex<R>, q: Qx<R>) -> bool {
        &&& q.cx == csub(y.cx) && q.h0 == y.h0
        &&& exists|m: Stream<R>| #[trigger] next_post(&y.s0, true, Ev::Field { tag: q.tag, pos: q.pos, depth: q.depth, value: q.v }, &m) && q.s0 == (if q.v is Int { None } else { Some(m) })
    }
    #[verifier::prophetic]
    /// what follows inside the field q cannot be skipped
    pub open spec fn lost_in<R: Dev>(q: Qx<R>, e: DErr) -> bool {
        e is Stream && q.s0 is Some && exists|m: Stream<R>, b: Stream<R>| skipping(&q.s0->0, &m, q.depth) && #[trigger] next_err(&m, &b, se(e))
    }
    /// a field nobody asked for, refused; or it cannot be skipped
    #[verifier::prophetic]
    pub open spec fn unk_err<R: Dev>(y: Ex<R>, q: Qx<R>, e: DErr) -> bool {
        if y.cx.cfg.ignore_unknown_fields { (q.v is Struct || q.v is Enum) && lost_in::<R>(q, e) }
        else { e matches DErr::UnknownField(_, t, p) && t == q.tag && p == q.pos }
    }
    #[verifier::prophetic]
    pub open spec fn at_end<R: Dev>(y: Ex<R>) -> bool { exists|b: Stream<R>| #[trigger] endp(&y.s0, &b) }
    /// why a body may end where y stands, with the accumulators c
    #[verifier::prophetic]
    pub open spec fn stop<R: Dev, S: DStep<R>>(y: Ex<R>, c: S::A, e: DErr) -> bool {
        ||| e is Stream && sfail(y.s0, se(e))
        ||| too_deep(y.cx, e)
        ||| S::halt(y, c, e)
    }
    #[verifier::opaque]
    #[verifier::prophetic]
    pub open spec fn wbody<R: Dev, S: DStep<R>>(y: Ex<R>, a: S::A, e: DErr) -> bool {
        exists|n: nat, m: Stream<R>, h: Bud, c: S::A| #[trigger] steps::<R, S>(n, Bx { cx: y.cx, s0: y.s0, s1: m, h0: y.h0, h1: h }, a, c) && stop::<R, S>(Ex { s0: m, h0: h, ..y }, c, e)
    }
    pub proof fn lemma_wbody<R: Dev, S: DStep<R>>(n: nat, x: Bx<R>, a: S::A, c: S::A)
        requires steps::<R, S>(n, x, a, c)
        ensures forall|e: DErr| stop::<R, S>(Ex { cx: x.cx, s0: x.s1, h0: x.h1 }, c, e) ==> #[trigger] wbody::<R, S>(Ex { cx: x.cx, s0: x.s0, h0: x.h0 }, a, e)
    {
        reveal(wbody);
        assert forall|e: DErr| stop::<R, S>(Ex { cx: x.cx, s0: x.s1, h0: x.h1 }, c, e) implies #[trigger] wbody::<R, S>(Ex { cx: x.cx, s0: x.s0, h0: x.h0 }, a, e) by {
            assert(steps::<R, S>(n, Bx { cx: x.cx, s0: x.s0, s1: x.s1, h0: x.h0, h1: x.h1 }, a, c));
        }
    }
    /// a body with the value as field 1
    #[verifier::opaque]
    #[verifier::prophetic]
    pub open spec fn wbody1<R: Dev, STYLE, T: DVal<R, STYLE>>(y: Ex<R>, e: DErr) -> bool {
        exists|a: T::A| a.dfl() && #[trigger] wbody::<R, Ts<STYLE, (T,)>>(y, (a,), e)
    }
    pub proof fn lemma_wbody1<R: Dev, STYLE, T: DVal<R, STYLE>>(n: nat, x: Bx<R>, a: T::A, c: T::A)
        requires steps::<R, Ts<STYLE, (T,)>>(n, x, (a,), (c,)), a.dfl()
        ensures forall|e: DErr| stop::<R, Ts<STYLE, (T,)>>(Ex { cx: x.cx, s0: x.s1, h0: x.h1 }, (c,), e) ==> #[trigger] wbody1::<R, STYLE, T>(Ex { cx: x.cx, s0: x.s0, h0: x.h0 }, e)
    {
        lemma_wbody::<R, Ts<STYLE, (T,)>>(n, x, (a,), (c,));
        assert forall|e: DErr| stop::<R, Ts<STYLE, (T,)>>(Ex { cx: x.cx, s0: x.s1, h0: x.h1 }, (c,), e) implies #[trigger] wbody1::<R, STYLE, T>(Ex { cx: x.cx, s0: x.s0, h0: x.h0 }, e) by {
            reveal(wbody1);
            assert(wbody::<R, Ts<STYLE, (T,)>>(Ex { cx: x.cx, s0: x.s0, h0: x.h0 }, (a,), e));
        }
    }
    /// an element which is a struct holding such a body
    #[verifier::prophetic]
    pub open spec fn wsbody1<R: Dev, STYLE, T: DVal<R, STYLE>>(q: Qx<R>, e: DErr) -> bool {
        if q.v is Struct { wbody1::<R, STYLE, T>(qin(q), e) } else { bad_type(e) }
    }
    /// a single occurrence: a second one is refused
    pub open spec fn once(had: bool, e: DErr, why: bool) -> bool { if had { too_many(e, 1) } else { why } }
    /// the field f0, handed out by the stream sh
    pub proof fn lemma_asks<R: Dev>(c: &Context, sh: &Stream<R>, f0: &Field<R>, h0: Bud)
        requires exists|s1: Stream<R>| #[trigger] next_post(sh, true, fev(*f0), &vstate(f0.value, s1))
        ensures asks(ex(c, sh, h0), Qx { cx: csub(cx(c)), ..qx(c, f0, h0) })
    { }

    // ---- bodies: any number of fields, then the end -------------------------------------------------
    pub trait DStep<R: Dev> { type A; #[verifier::prophetic] spec fn st(x: Bx<R>, a: Self::A, b: Self::A) -> bool;
        /// why the next field, or the end, is refused
        #[verifier::prophetic] spec fn halt(y: Ex<R>, c: Self::A, e: DErr) -> bool; }
    #[verifier::opaque]
    #[verifier::prophetic]
    pub open spec fn steps<R: Dev, S: DStep<R>>(n: nat, x: Bx<R>, a: S::A, b: S::A) -> bool decreases n {
        if n == 0 { x.s1 == x.s0 && x.h1 == x.h0 && b == a }
        else { exists|m: Stream<R>, h: Bud, c: S::A| steps::<R, S>((n - 1) as nat, Bx { s1: m, h1: h, ..x }, a, c) && #[trigger] S::st(Bx { s0: m, h0: h, ..x }, c, b) }
    }
    pub proof fn lemma_step<R: Dev, S: DStep<R>>(n: nat, x: Bx<R>, a: S::A, m: Stream<R>, h: Bud, c: S::A, b: S::A)
        requires steps::<R, S>(n, Bx { s1: m, h1: h, ..x }, a, c), S::st(Bx { s0: m, h0: h, ..x }, c, b)
        ensures steps::<R, S>(n + 1, x, a, b)
    {
        reveal_with_fuel(steps, 2);
        assert(steps::<R, S>(((n + 1) - 1) as nat, Bx { s1: m, h1: h, ..x }, a, c));
    }
    /// the end of a struct or of the document
    #[verifier::prophetic]
    pub open spec fn endp<R: Dev>(a: &Stream<R>, b: &Stream<R>) -> bool { next_post(a, true, Ev::EndOfStruct, b) || next_post(a, true, Ev::EndOfDoc, b) }
    #[verifier::opaque]
    #[verifier::prophetic]
    pub open spec fn dbody<R: Dev, S: DStep<R>>(x: Bx<R>, a: S::A, b: S::A) -> bool {
        exists|n: nat, m: Stream<R>| #[trigger] steps::<R, S>(n, Bx { s1: m, ..x }, a, b) && endp(&m, &x.s1)
    }
    /// f is what the stream s0 hands out next; reading it leaves the stream in state s1
    pub open spec fn handed<R>(f: Fx<R>, s1: Stream<R>) -> Stream<R> { if f.v is Int { s1 } else { f.s0->0 } }
    #[verifier::prophetic]
    pub open spec fn hand<R: Dev>(s0: Stream<R>, f: Fx<R>, s1: Stream<R>) -> bool {
        &&& next_post(&s0, true, Ev::Field { tag: f.tag, pos: f.pos, depth: f.depth, value: f.v }, &handed(f, s1))
        &&& if f.v is Int { f.s0 is None && f.s1 is None } else { f.s0 is Some && f.s1 == Some(s1) }
    }
    #[verifier::prophetic]
    pub open spec fn fits<R: Dev>(x: Bx<R>, f: Fx<R>) -> bool {
        x.cx.depth < x.cx.cfg.recursion_limit && f.cx == csub(x.cx) && f.h0 == x.h0 && f.h1 == x.h1 && hand(x.s0, f, x.s1)
    }
    /// a field nobody asked for is skipped, with everything inside it
    #[verifier::prophetic]
    pub open spec fn unk_field<R: Dev>(x: Bx<R>, f: Fx<R>) -> bool {
        &&& x.cx.cfg.ignore_unknown_fields && x.h1 == x.h0 && hand(x.s0, f, x.s1)
        &&& match f.v { Vv::Struct | Vv::Enum(_) => skips(&f.s0->0, &x.s1, f.depth), _ => f.s1 == f.s0 }
    }
    /// what a body whose known fields are 1..=k does with the next field
    #[verifier::opaque]
    #[verifier::prophetic]
    pub open spec fn got<R: Dev>(x: Bx<R>, f: Fx<R>, k: int) -> bool { if 1 <= f.tag <= k { fits(x, f) } else { unk_field(x, f) } }
    /// the field f0 as it was handled, with the stream it came from now in state s1
    pub open spec fn mkf<R>(c: &Context, f0: &Field<R>, s1: &Stream<R>, h0: Bud, h1: Bud) -> Fx<R> {
        Fx { cx: csub(cx(c)), tag: f0.tag, pos: f0.pos, depth: f0.depth, v: vv(f0.value), s0: fst(f0.value),
             s1: if f0.value is Integer { None } else { Some(*s1) }, h0, h1 }
    }
    /// the bodies of tuple-like types
    pub struct Ts<STYLE, T> { pub s: STYLE, pub t: T }
    pub open spec fn may_push(c: Cx) -> bool { c.depth < c.cfg.recursion_limit }

    // ---- what a type's deserialiser computes -----------------------------------------------------------
    pub trait DVal<R: Dev, STYLE> : Sized {
        /// the accumulator of a field of this type
        type A: VDefault;
        spec fn a_ok(a: Self::A) -> bool;
        proof fn a_dfl(a: Self::A) requires a.dfl() ensures Self::a_ok(a);
        /// one occurrence of the field
        #[verifier::prophetic] spec fn d_field(x: Fx<R>, a: Self::A, b: Self::A) -> bool;
        /// whether the field may end here, and what value it has then
        spec fn d_full(a: Self::A) -> bool;
        spec fn d_fin(a: Self::A, v: Self) -> bool;
        /// whether sequences of this type have a special form, and what it is
        spec fn d_special() -> bool;
        #[verifier::prophetic] spec fn d_seq(x: Fx<R>, s: Seq<Self>, owned: bool) -> bool;
        /// why another occurrence, the end of the field, or the special form (of n elements) is refused
        #[verifier::prophetic] spec fn why_field(q: Qx<R>, a: Self::A, e: DErr) -> bool;
        spec fn why_fin(a: Self::A, e: DErr) -> bool;
        #[verifier::prophetic] spec fn why_seq(q: Qx<R>, n: Option<nat>, e: DErr) -> bool;
    }
    pub trait DElem<R: Dev, STYLE> : DVal<R, STYLE> {
        /// one element of a collection
        #[verifier::prophetic] spec fn d_elem(x: Fx<R>, v: Self) -> bool;
        /// a whole body
        #[verifier::prophetic] spec fn d_body(x: Bx<R>, v: Self) -> bool;
        /// why an element, a whole body is refused
        #[verifier::prophetic] spec fn why_elem(q: Qx<R>, e: DErr) -> bool;
        #[verifier::prophetic] spec fn why_body(y: Ex<R>, e: DErr) -> bool;
    }
    impl<R: Dev, STYLE> DStep<R> for Ts<STYLE, ()> {
        type A = ();
        #[verifier::prophetic]
        open spec fn st(x: Bx<R>, a: (), b: ()) -> bool { exists|f: Fx<R>| #[trigger] got(x, f, 0) }
        #[verifier::prophetic]
        open spec fn halt(y: Ex<R>, c: (), e: DErr) -> bool { exists|q: Qx<R>| #[trigger] asks(y, q) && unk_err(y, q, e) }
    }
    impl<R: Dev, STYLE, F0: DVal<R, STYLE>> DStep<R> for Ts<STYLE, (F0,)> {
        type A = (F0::A,);
        #[verifier::prophetic]
        open spec fn st(x: Bx<R>, a: Self::A, b: Self::A) -> bool { exists|f: Fx<R>| #[trigger] got(x, f, 1) && (if f.tag == 1 { F0::d_field(f, a.0, b.0) } else { b.0 == a.0 }) }
        #[verifier::prophetic]
        open spec fn halt(y: Ex<R>, c: Self::A, e: DErr) -> bool {
            ||| exists|q: Qx<R>| #[trigger] asks(y, q) && (if q.tag == 1 { F0::why_field(q, c.0, e) } else { unk_err(y, q, e) })
            ||| at_end(y) && F0::why_fin(c.0, e)
        }
    }
    /// an element made of a single occurrence of the field
    #[verifier::prophetic]
    pub open spec fn one<R: Dev, STYLE, T: DVal<R, STYLE>>(x: Fx<R>, v: T) -> bool {
        exists|a: T::A, b: T::A| a.dfl() && #[trigger] T::d_field(x, a, b) && T::d_fin(b, v)
    }
    /// a body with the value as field 1
    #[verifier::prophetic]
    pub open spec fn body1<R: Dev, STYLE, T: DVal<R, STYLE>>(x: Bx<R>, v: T) -> bool {
        exists|a: T::A, b: T::A| #[trigger] dbody::<R, Ts<STYLE, (T,)>>(x, (a,), (b,)) && a.dfl() && T::d_full(b) && T::d_fin(b, v) && may_push(x.cx)
    }
    /// an element which is a struct holding such a body
    #[verifier::prophetic]
    pub open spec fn sbody1<R: Dev, STYLE, T: DVal<R, STYLE>>(x: Fx<R>, v: T) -> bool { is_sub(x) && body1::<R, STYLE, T>(inside(x), v) }
    /// the value changed nothing but itself
    pub open spec fn still<R>(x: Fx<R>) -> bool { x.s1 == x.s0 && x.h1 == x.h0 }
    pub open spec fn uint<R>(x: Fx<R>, n: int) -> bool { still(x) && (x.v matches Vv::Int(m) && m == n) }
    pub open spec fn sint<R>(x: Fx<R>, n: int) -> bool { still(x) && (x.v matches Vv::Int(m) && unzz(m) == n) }

    /// every field consumes input, and what is handed out can be processed further
    pub proof fn lemma_next_field<R: Dev>(a: &Stream<R>, e: Ev, b: &Stream<R>)
        requires sok(a), next_post(a, true, e, b), swf(b)
        ensures sprog(a, b), e is Field ==> !b.eof && rest(&b.inner).len() < rest(&a.inner).len()
    {
        if a.eof { } else {
            let (m, k) = choose|m: Stream<R>, k: nat| #[trigger] commit_ok(a, &m) && #[trigger] pads(rest(&m.inner), k) && parse_post(&m, k, true, e, b);
            lemma_commit_rest(a, &m);
        }
    }
    pub proof fn lemma_dbody<R: Dev, S: DStep<R>>(n: nat, x: Bx<R>, a: S::A, b: S::A, m: Stream<R>)
        requires steps::<R, S>(n, Bx { s1: m, ..x }, a, b), endp(&m, &x.s1)
        ensures dbody::<R, S>(x, a, b)
    { reveal(dbody); }
    pub proof fn lemma_zero<R: Dev, S: DStep<R>>(x: Bx<R>, a: S::A)
        requires x.s1 == x.s0, x.h1 == x.h0
        ensures steps::<R, S>(0, x, a, a)
    { reveal_with_fuel(steps, 2); }
    pub proof fn lemma_end<R: Dev>(a: &Stream<R>, b: &Stream<R>)
        requires sok(a), endp(a, b), swf(b)
        ensures sprog(a, b)
    {
        if a.eof { } else {
            assert forall|m: Stream<R>, k: nat| #[trigger] commit_ok(a, &m) && #[trigger] pads(rest(&m.inner), k) && (parse_post(&m, k, true, Ev::EndOfStruct, b) || parse_post(&m, k, true, Ev::EndOfDoc, b)) implies sprog(a, b) by { lemma_commit_rest(a, &m); }
        }
    }
    /// the handle inside a value is not used any more
    #[verifier::prophetic]
    pub open spec fn vdone<R>(v: Value<R>) -> bool {
        match v { Value::Integer(_) => true, Value::Blob(b) => *b.stream == *final(b.stream), Value::Struct(s) => *s == *final(s), Value::Enum(_, s) => *s == *final(s) }
    }
    #[verifier::prophetic]
    pub open spec fn got_pre<R: Dev>(sh: &Stream<R>, f0: &Field<R>, s1: &Stream<R>) -> bool {
        sok(sh) && next_post(sh, true, fev(*f0), &vstate(f0.value, *s1)) && vhold(f0.value, *s1) && swf(&vstate(f0.value, *s1))
    }
    pub proof fn lemma_fits<R: Dev>(c: &Context, k: int, sh: &Stream<R>, f0: &Field<R>, f1: &Field<R>, s1: &Stream<R>, h0: Bud, h1: Bud)
        requires got_pre(sh, f0, s1), fprog(f0, f1), vdone(f1.value), may_push(cx(c)), 1 <= f0.tag <= k
        ensures sprog(sh, s1), rest(&s1.inner).len() < rest(&sh.inner).len(), got(bx(c, sh, s1, h0, h1), mkf(c, f0, s1, h0, h1), k),
            mkf(c, f0, s1, h0, h1) == (Fx { cx: csub(cx(c)), tag: f0.tag, pos: f0.pos, depth: f0.depth, v: vv(f0.value), s0: fst(f0.value), s1: fst(f1.value), h0, h1 }),
    {
        reveal(got);
        lemma_next_field(sh, fev(*f0), &vstate(f0.value, *s1));
    }
    pub proof fn lemma_unk<R: Dev>(c: &Context, k: int, sh: &Stream<R>, f0: &Field<R>, s1: &Stream<R>, h0: Bud)
        requires got_pre(sh, f0, s1), !(1 <= f0.tag <= k), c.config.ignore_unknown_fields,
            f0.value matches Value::Blob(b) ==> *b.stream == *s1,
            sub_of(f0.value) matches Some(d) ==> swf(final(d)) && skips(d, final(d), f0.depth) && depth_ok(final(d)) && rest(&final(d).inner).len() <= rest(&d.inner).len(),
        ensures sprog(sh, s1), rest(&s1.inner).len() < rest(&sh.inner).len(), got(bx(c, sh, s1, h0, h0), mkf(c, f0, s1, h0, h0), k),
    {
        reveal(got);
        lemma_next_field(sh, fev(*f0), &vstate(f0.value, *s1));
    }
    pub broadcast proof fn b_hstep(c: &Context, a: &Heap, b: &Heap, d: &Heap)
        requires #[trigger] hstep(c, a, b), #[trigger] hstep(c, b, d)
        ensures hstep(c, a, d)
    { }
    /// reading from a blob, seen from the stream it belongs to
    #[verifier::prophetic]
    pub open spec fn blob_took<R: Dev>(a: &Blob<R>, b: &Blob<R>, n: int) -> bool {
        &&& sprog(a.stream, b.stream) && srd(a.stream, b.stream, n) && b.len == a.len && *final(b.stream) == *final(a.stream)
        &&& rest::<Blob<R>>(a) == content(*a.stream) && blob_rest(a) == rest::<Blob<R>>(a) && pend(a.stream) == a.stream.blob_end - a.stream.pos && a.eof_byte() is None
    }
    pub broadcast proof fn b_blob_step<R: Dev>(a: &Blob<R>, b: &Blob<R>, n: int)
        requires #[trigger] rd_step::<Blob<R>>(a, b, n), a.frame(b), bwf(a), bwf(b), depth_ok(a.stream), 0 <= n <= rest::<Blob<R>>(a).len()
        ensures blob_took(a, b, n)
    { b_blob_rest(a); }
    pub broadcast proof fn b_unchanged<'a, R: crate::io::AsExtBytes<'a>>(a: &R, b: &R)
        requires #[trigger] a.unchanged(b)
        ensures *b == *a
    { a.unchanged_same(b) }
    pub broadcast group dspec_lemmas { b_hstep, b_blob_step, b_unchanged, b_blob_rest }
    pub fn ctx<T>(r: core::result::Result<T, crate::stream::Error>, c: &crate::de::Context) -> (o: core::result::Result<T, crate::de::Error>)
        ensures r is Ok <==> o is Ok, r matches Ok(v) ==> o == Ok::<T, crate::de::Error>(v),
            r matches Err(e) ==> (o matches Err(crate::de::Error::Stream(_, e2)) && e2 == e)
    { match r { Ok(v) => Ok(v), Err(e) => Err(crate::de::Error::Stream(c.to_string(), e)) } }
}
