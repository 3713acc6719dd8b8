// Specification of the element stream (hand-written; no fourleaf code here).
pub mod sspec {
    use vstd::prelude::*;
    use crate::vio as io;
    use crate::vio::*;
    use crate::wspec::*;
    use crate::wire::*;
    use crate::stream::{self, Error, Result, Stream, Blob, Element, Field, Value, Nd, CommitOp, SeekOp, StreamTracker};
    // `?` on an io::Result inside a function returning stream::Result goes through
    // `impl From<io::Error> for Error` (verified below); Verus has no contract for that step.
    pub broadcast axiom fn from_io(e: io::Error, r: Error)
        ensures #[trigger] vstd::std_specs::control_flow::spec_from::<Error, io::Error>(e, r) ==> r == Error::Io(e);

    // ---- invariant of a stream -----------------------------------------------------------------
    pub open spec fn is_skip(c: Option<Nd<CommitOp>>) -> bool { c == Some(Nd(CommitOp::skip_blob)) }
    pub open spec fn is_check(c: Option<Nd<CommitOp>>) -> bool { c == Some(Nd(CommitOp::check_at_end_of_blob)) }
    pub open spec fn is_dyn(c: Option<Nd<CommitOp>>) -> bool { c == Some(Nd(CommitOp::finish_dynamic_blob)) }
    pub open spec fn swf<R: Dev>(s: &Stream<R>) -> bool {
        &&& s.inner.wf() && s.inner.eof_byte() is None
        &&& (is_check(s.commit) ==> s.pos <= s.blob_end)
        &&& (is_dyn(s.commit) ==> 10 <= s.dynamic_blob_start <= s.blob_end && s.pos <= s.blob_end)
    }
    /// the device never fails of its own accord, and all of what it can hold can be reached with
    /// the position counter staying well below u64::MAX
    pub open spec fn ssound<R: Dev>(s: &Stream<R>) -> bool {
        s.inner.sound() && s.pos - s.inner.cur() + s.inner.lim() + 0x4000_0000_0000_0000 <= u64::MAX
    }
    pub open spec fn sfit<R: Dev>(s: &Stream<R>) -> bool { ssound(s) && s.inner.cur() <= s.inner.lim() }
    pub open spec fn sroom<R: Dev>(s: &Stream<R>, n: int) -> bool { ssound(s) && s.inner.cur() + n <= s.inner.lim() }
    /// invariant of a blob handle
    pub open spec fn bwf<R: Dev>(b: &Blob<R>) -> bool {
        &&& swf(b.stream) && b.stream.pos <= b.stream.blob_end
        &&& b.len <= b.stream.blob_end && b.stream.blob_end - b.len <= b.stream.pos
    }
    /// everything but position and device contents is unchanged
    #[verifier::prophetic]
    pub open spec fn sframe<R: Dev>(a: &Stream<R>, b: &Stream<R>) -> bool {
        &&& a.inner.frame(&b.inner) && b.inner.lim() == a.inner.lim() && b.inner.off() == a.inner.off()
        &&& b.eof == a.eof && b.blob_end == a.blob_end && b.dynamic_blob_start == a.dynamic_blob_start
        &&& b.struct_depth == a.struct_depth && b.graceful_eof == a.graceful_eof && b.seek == a.seek && b.commit == a.commit
    }
    /// n bytes consumed; blob bookkeeping and depth are not constrained
    #[verifier::prophetic]
    pub open spec fn sadv<R: Dev>(a: &Stream<R>, b: &Stream<R>, n: int) -> bool {
        &&& a.inner.frame(&b.inner) && b.inner.lim() == a.inner.lim() && b.inner.off() == a.inner.off()
        &&& b.dynamic_blob_start == a.dynamic_blob_start && b.graceful_eof == a.graceful_eof && b.seek == a.seek
        &&& b.inner.data() == a.inner.data() && b.inner.cur() == a.inner.cur() + n && b.pos == a.pos + n
    }
    /// n bytes consumed, nothing else changed
    #[verifier::prophetic]
    pub open spec fn srd<R: Dev>(a: &Stream<R>, b: &Stream<R>, n: int) -> bool { sframe(a, b) && sadv(a, b, n) }
    /// the bytes w written, nothing else changed
    #[verifier::prophetic]
    pub open spec fn swr<R: Dev>(a: &Stream<R>, b: &Stream<R>, w: Seq<u8>) -> bool {
        sframe(a, b) && swr0(a, b, w)
    }
    /// the bytes w written; blob bookkeeping not constrained
    #[verifier::prophetic]
    pub open spec fn swr0<R: Dev>(a: &Stream<R>, b: &Stream<R>, w: Seq<u8>) -> bool {
        &&& a.inner.frame(&b.inner) && b.inner.lim() == a.inner.lim() && b.inner.off() == a.inner.off()
        &&& b.struct_depth == a.struct_depth && b.graceful_eof == a.graceful_eof && b.seek == a.seek && b.eof == a.eof
        &&& b.inner.data() == splice(a.inner.data(), a.inner.cur(), w) && b.inner.cur() == a.inner.cur() + w.len()
        &&& b.pos == a.pos + w.len()
    }
    #[verifier::prophetic]
    pub open spec fn swr_pre<R: Dev>(a: &Stream<R>, b: &Stream<R>, w: Seq<u8>) -> bool {
        exists|k: int| 0 <= k <= w.len() && #[trigger] swr(a, b, w.take(k))
    }
    pub open spec fn bend<R: Dev>(s: &Stream<R>) -> int { s.inner.cur() + (s.blob_end - s.pos) }

    // ---- what the pending commit does ---------------------------------------------------------
    pub open spec fn pend<R: Dev>(s: &Stream<R>) -> int { if s.blob_end > s.pos { s.blob_end - s.pos } else { 0 } }
    #[verifier::prophetic]
    pub open spec fn skip_post<R: Dev>(a: &Stream<R>, b: &Stream<R>, ret: Result<()>) -> bool {
        &&& swf(b)
        &&& ret is Ok ==> srd(a, b, pend(a)) && pend(a) <= rest(&a.inner).len()
        &&& ret matches Err(e) ==> ((e is Io && (!sfit(a) || pend(a) > rest(&a.inner).len())) || (e is TruncatedBlob && e->TruncatedBlob_0 > 0 && pend(a) > rest(&a.inner).len()
                && (a.seek is None ==> e->TruncatedBlob_0 == pend(a) - rest(&a.inner).len())))
    }
    pub open spec fn check_post<R: Dev>(a: &Stream<R>, b: &Stream<R>, ret: Result<()>) -> bool {
        &&& *b == *a
        &&& ret is Ok <==> a.pos == a.blob_end
        &&& ret matches Err(e) ==> e is IncompleteBlob && e->IncompleteBlob_0 == a.blob_end - a.pos
    }
    pub open spec fn fin_data<R: Dev>(a: &Stream<R>) -> Seq<u8> {
        splice(a.inner.data(), (a.inner.cur() - (a.pos - a.dynamic_blob_start) - 10) as nat, vfix((a.pos - a.dynamic_blob_start) as nat, 10))
    }
    /// the blob's header can be reached, and so can the end of the blob
    pub open spec fn fin_able<R: Dev>(a: &Stream<R>) -> bool {
        &&& sfit(a) && a.inner.seekable(a.inner.cur() as int)
        &&& a.inner.seekable(a.inner.cur() - (a.pos - a.dynamic_blob_start) - 10)
    }
    #[verifier::prophetic]
    pub open spec fn fin_post<R: Dev>(a: &Stream<R>, b: &Stream<R>, ret: Result<()>) -> bool {
        &&& swf(b)
        &&& ret is Ok ==> {
            &&& sframe(a, b) && b.pos == a.pos && b.inner.cur() == a.inner.cur() && a.pos >= a.dynamic_blob_start
            &&& a.inner.cur() >= (a.pos - a.dynamic_blob_start) + 10
            &&& b.inner.data() == fin_data(a)
        }
        &&& ret matches Err(e) ==> {
            ||| e is Io && !fin_able(a)
            ||| e is PositionBeforeStartOfDynamicBlob && a.pos < a.dynamic_blob_start
            ||| e is OverlongDynamicBlob && a.pos - a.dynamic_blob_start + 10 > i64::MAX
        }
    }
    #[verifier::prophetic]
    pub open spec fn op_post<R: Dev>(op: CommitOp, a: &Stream<R>, b: &Stream<R>, ret: Result<()>) -> bool {
        match op {
            CommitOp::skip_blob => skip_post(a, b, ret),
            CommitOp::check_at_end_of_blob => check_post(a, b, ret),
            CommitOp::finish_dynamic_blob => fin_post(a, b, ret),
        }
    }
    /// a successful commit
    #[verifier::prophetic]
    pub open spec fn commit_ok<R: Dev>(a: &Stream<R>, b: &Stream<R>) -> bool {
        match a.commit {
            None => *b == *a,
            Some(Nd(op)) => exists|m: Stream<R>| #[trigger] op_post(op, a, &m, Ok(())) && *b == (Stream { commit: None::<Nd<CommitOp>>, ..m }),
        }
    }

    // ---- elements ------------------------------------------------------------------------------
    pub enum Vv { Int(u64), Blob(u64), Struct, Enum(u64) }
    pub enum Ev { Field { tag: u8, pos: u64, depth: u64, value: Vv }, EndOfStruct, EndOfDoc, Exception(u64), Padding }
    pub open spec fn vv<R>(v: Value<R>) -> Vv {
        match v { Value::Integer(n) => Vv::Int(n), Value::Blob(b) => Vv::Blob(b.len), Value::Struct(_) => Vv::Struct, Value::Enum(d, _) => Vv::Enum(d) }
    }
    pub open spec fn fev<R>(f: Field<R>) -> Ev { Ev::Field { tag: f.tag, pos: f.pos, depth: f.depth, value: vv(f.value) } }
    pub open spec fn ev<R>(e: Element<R>) -> Ev {
        match e { Element::Field(f) => fev(f), Element::EndOfStruct => Ev::EndOfStruct, Element::EndOfDoc => Ev::EndOfDoc,
                  Element::Exception(b) => Ev::Exception(b.len), Element::Padding => Ev::Padding }
    }
    /// the stream as it is when the element is handed out: inside the element's handle when it
    /// holds one, otherwise the stream itself
    pub open spec fn vstate<R>(v: Value<R>, fs: Stream<R>) -> Stream<R> {
        match v { Value::Integer(_) => fs, Value::Blob(b) => *b.stream, Value::Struct(s) => *s, Value::Enum(_, s) => *s }
    }
    pub open spec fn estate<R>(e: Element<R>, fs: Stream<R>) -> Stream<R> {
        match e { Element::Field(f) => vstate(f.value, fs), Element::Exception(b) => *b.stream, _ => fs }
    }
    /// what the caller does through the handle is what happens to the stream
    #[verifier::prophetic]
    pub open spec fn vhold<R>(v: Value<R>, fs: Stream<R>) -> bool {
        match v { Value::Integer(_) => true, Value::Blob(b) => *final(b.stream) == fs, Value::Struct(s) => *final(s) == fs, Value::Enum(_, s) => *final(s) == fs }
    }
    #[verifier::prophetic]
    pub open spec fn ehold<R>(e: Element<R>, fs: Stream<R>) -> bool {
        match e { Element::Field(f) => vhold(f.value, fs), Element::Exception(b) => *final(b.stream) == fs, _ => true }
    }
    pub open spec fn vwf<R: Dev>(v: Value<R>) -> bool { match v { Value::Blob(b) => bwf(&b) && b.stream.blob_end == b.stream.pos + b.len, _ => true } }
    pub open spec fn ewf<R: Dev>(e: Element<R>) -> bool {
        match e { Element::Field(f) => vwf(f.value), Element::Exception(b) => bwf(&b) && b.stream.blob_end == b.stream.pos + b.len, _ => true }
    }

    // ---- the grammar of one element ------------------------------------------------------------
    #[verifier::prophetic]
    pub open spec fn same_eof_blob<R: Dev>(a: &Stream<R>, b: &Stream<R>) -> bool { b.eof == a.eof && b.blob_end == a.blob_end && b.commit == a.commit }
    /// an integer of value v, consuming c0 bytes before it
    #[verifier::prophetic]
    pub open spec fn sdec<R: Dev>(a: &Stream<R>, b: &Stream<R>, c0: int, v: int) -> bool {
        {
            let r = rest(&a.inner).skip(c0);
            let n = (b.pos - a.pos - c0) as nat;
            b.pos - a.pos >= c0 && vlen_is(r, n) && v == vval(r, n) && n <= 257 && sadv(a, b, c0 + n)
        }
    }
    /// the body of a blob of length len, c0 bytes into the input
    #[verifier::prophetic]
    pub open spec fn sblob<R: Dev>(a: &Stream<R>, b: &Stream<R>, c0: int, len: u64) -> bool {
        &&& sdec(a, b, c0, len as int) && b.eof == a.eof
        &&& b.blob_end == b.pos + len && is_skip(b.commit)
    }
    /// c0 bytes (padding and descriptor) before the value, value of type ty
    #[verifier::prophetic]
    pub open spec fn spost<R: Dev>(a: &Stream<R>, b: &Stream<R>, c0: int, ty: DescriptorType, depth0: int, v: Vv) -> bool {
        match ty {
            DescriptorType::Integer => v is Int && sdec(a, b, c0, v->Int_0 as int) && same_eof_blob(a, b) && b.struct_depth == depth0,
            DescriptorType::Blob => v is Blob && sblob(a, b, c0, v->Blob_0) && b.struct_depth == depth0,
            DescriptorType::Struct => v is Struct && sadv(a, b, c0) && same_eof_blob(a, b) && b.struct_depth == depth0 + 1,
            DescriptorType::Enum => v is Enum && sdec(a, b, c0, v->Enum_0 as int) && same_eof_blob(a, b) && b.struct_depth == depth0 + 1,
        }
    }
    pub open spec fn pads(r: Seq<u8>, k: nat) -> bool { k <= r.len() && forall|i: int| 0 <= i < k ==> #[trigger] r[i] == 0xC0 }
    pub open spec fn fdepth(d: u64) -> u64 { if d == 0 { 1 } else { d } }
    /// a: stream with nothing pending, k padding bytes skipped; b: state in which e is handed out
    #[verifier::prophetic]
    pub open spec fn parse_post<R: Dev>(a: &Stream<R>, k: nat, skip: bool, e: Ev, b: &Stream<R>) -> bool {
        let r = rest(&a.inner);
        &&& (!skip ==> k == 0)
        &&& if k < r.len() {
            match parse_desc(r[k as int]) {
                ParsedDescriptor::Pair(ty, tag) => e matches Ev::Field { tag: t, pos, depth, value }
                    && t == tag && pos == a.pos + k && depth == fdepth(a.struct_depth) && spost(a, b, k as int + 1, ty, depth as int, value),
                ParsedDescriptor::Special(SpecialType::EndOfStruct) => e is EndOfStruct && sadv(a, b, k as int + 1) && same_eof_blob(a, b)
                    && b.struct_depth == (if a.struct_depth == 0 { 0 } else { a.struct_depth - 1 }),
                ParsedDescriptor::Special(SpecialType::EndOfDoc) => e is EndOfDoc && sadv(a, b, k as int + 1) && b.blob_end == a.blob_end && b.commit == a.commit
                    && b.eof && b.struct_depth == 0,
                ParsedDescriptor::Special(SpecialType::Exception) => e is Exception && sblob(a, b, k as int + 1, e->Exception_0) && b.struct_depth == a.struct_depth,
                ParsedDescriptor::Special(SpecialType::Padding) => !skip && e is Padding && srd(a, b, 1),
            }
        } else {
            // graceful end of input
            a.graceful_eof && e is EndOfDoc && sadv(a, b, k as int) && b.blob_end == a.blob_end && b.commit == a.commit && b.eof && b.struct_depth == 0
        }
    }
    #[verifier::prophetic]
    pub open spec fn next_post<R: Dev>(a: &Stream<R>, skip: bool, e: Ev, b: &Stream<R>) -> bool {
        if a.eof { e is EndOfDoc && *b == *a }
        else { exists|m: Stream<R>, k: nat| #[trigger] commit_ok(a, &m) && #[trigger] pads(rest(&m.inner), k) && parse_post(&m, k, skip, e, b) }
    }
    /// the errors the next element may fail with
    #[verifier::prophetic]
    pub open spec fn commit_err<R: Dev>(a: &Stream<R>, b: &Stream<R>, e: Error) -> bool {
        a.commit matches Some(Nd(op)) && op_post(op, a, b, Err(e))
    }
    /// descriptors followed by a number; by the header of a blob
    pub open spec fn numd(d: ParsedDescriptor) -> bool {
        match d { ParsedDescriptor::Pair(ty, _) => !(ty is Struct), ParsedDescriptor::Special(st) => st is Exception }
    }
    pub open spec fn blobd(d: ParsedDescriptor) -> bool {
        match d { ParsedDescriptor::Pair(ty, _) => ty is Blob, ParsedDescriptor::Special(st) => st is Exception }
    }
    /// a blob whose end lies beyond what the position counter can express; its header is at p
    pub open spec fn big_num(s: Seq<u8>, p: int) -> bool {
        exists|n: nat| #[trigger] vlen_is(s, n) && n <= 257 && p + n + vval(s, n) > u64::MAX
    }
    /// error e is justified by the number (or blob header) c0 bytes into the input
    pub open spec fn val_err<R: Dev>(m: &Stream<R>, c0: int, blob: bool, e: Error) -> bool {
        let s = rest(&m.inner).skip(c0);
        num_err(s, e) || (e is Io && (!sfit(m) || cut_num(s) || (blob && big_num(s, m.pos + c0))))
    }
    /// error e is justified by what follows k bytes of padding
    pub open spec fn elem_err<R: Dev>(m: &Stream<R>, k: nat, e: Error) -> bool {
        let r = rest(&m.inner);
        if k < r.len() {
            let d = parse_desc(r[k as int]);
            (numd(d) && val_err(m, k as int + 1, blobd(d), e)) || (e is Io && !sfit(m))
        } else { e is Io && (!m.graceful_eof || !sfit(m)) }
    }
    #[verifier::prophetic]
    pub open spec fn next_err<R: Dev>(a: &Stream<R>, b: &Stream<R>, e: Error) -> bool {
        ||| commit_err(a, b, e)
        ||| exists|m: Stream<R>, k: nat| #[trigger] commit_ok(a, &m) && #[trigger] pads(rest(&m.inner), k) && elem_err(&m, k, e)
    }
    pub open spec fn depth_ok<R: Dev>(s: &Stream<R>) -> bool { s.struct_depth + 2 * rest(&s.inner).len() + 4 <= u64::MAX }

    /// post is the first state, going element by element from pre, whose depth is at most target
    #[verifier::opaque]
    #[verifier::prophetic]
    pub open spec fn elem_step<R: Dev>(a: &Stream<R>, b: &Stream<R>) -> bool { exists|e: Ev| #[trigger] next_post(a, false, e, b) }
    #[verifier::prophetic]
    pub open spec fn skips<R: Dev>(a: &Stream<R>, b: &Stream<R>, target: u64) -> bool {
        exists|st: Seq<Stream<R>>| #[trigger] skip_path(a, b, target, st)
    }
    #[verifier::prophetic]
    pub open spec fn skip_path<R: Dev>(a: &Stream<R>, b: &Stream<R>, target: u64, st: Seq<Stream<R>>) -> bool {
        &&& st.len() >= 1 && st[0] == *a && st.last() == *b && b.struct_depth <= target
        &&& forall|i: int| 0 <= i < st.len() - 1 ==> (#[trigger] st[i]).struct_depth > target && elem_step(&st[i], &st[i + 1])
    }

    /// the same, not there yet
    #[verifier::opaque]
    #[verifier::prophetic]
    pub open spec fn skipping<R: Dev>(a: &Stream<R>, b: &Stream<R>, target: u64) -> bool {
        exists|st: Seq<Stream<R>>| #[trigger] skip_part(a, b, target, st)
    }
    #[verifier::prophetic]
    pub open spec fn skip_part<R: Dev>(a: &Stream<R>, b: &Stream<R>, target: u64, st: Seq<Stream<R>>) -> bool {
        &&& st.len() >= 1 && st[0] == *a && st.last() == *b
        &&& forall|i: int| 0 <= i < st.len() - 1 ==> (#[trigger] st[i]).struct_depth > target && elem_step(&st[i], &st[i + 1])
    }
    pub proof fn lemma_skip0<R: Dev>(a: &Stream<R>, target: u64) ensures skipping(a, a, target)
    { reveal(skipping); assert(skip_part(a, a, target, seq![*a])); }
    pub proof fn lemma_skip_step<R: Dev>(a: &Stream<R>, b: &Stream<R>, c: &Stream<R>, target: u64)
        requires skipping(a, b, target), b.struct_depth > target, elem_step(b, c) ensures skipping(a, c, target)
    {
        reveal(skipping);
        assert forall|st: Seq<Stream<R>>| #[trigger] skip_part(a, b, target, st) implies skipping(a, c, target) by {
            reveal(skipping);
            let t = st.push(*c);
            assert forall|i: int| 0 <= i < t.len() - 1 implies (#[trigger] t[i]).struct_depth > target && elem_step(&t[i], &t[i + 1]) by {
                if i < st.len() - 1 { assert(st[i].struct_depth > target && elem_step(&st[i], &st[i + 1])); assert(t[i + 1] == st[i + 1]); }
            }
            assert(skip_part(a, c, target, t));
        }
    }
    pub proof fn lemma_skip_done<R: Dev>(a: &Stream<R>, b: &Stream<R>, target: u64)
        requires skipping(a, b, target), b.struct_depth <= target ensures skips(a, b, target)
    {
        reveal(skipping);
        assert forall|st: Seq<Stream<R>>| #[trigger] skip_part(a, b, target, st) implies skips(a, b, target) by { assert(skip_path(a, b, target, st)); }
    }

    /// the pending commit will succeed
    pub open spec fn calm<R: Dev>(s: &Stream<R>) -> bool {
        match s.commit {
            None => true,
            Some(Nd(CommitOp::check_at_end_of_blob)) => s.pos == s.blob_end,
            Some(Nd(CommitOp::skip_blob)) => sfit(s) && pend(s) <= rest(&s.inner).len(),
            Some(Nd(CommitOp::finish_dynamic_blob)) => fin_able(s) && s.pos >= s.dynamic_blob_start && s.pos - s.dynamic_blob_start + 10 <= i64::MAX,
        }
    }
    /// how far the pending commit moves the stream
    pub open spec fn cpend<R: Dev>(s: &Stream<R>) -> int { if is_skip(s.commit) { pend(s) } else { 0 } }
    /// nothing stands in the way of writing n bytes
    #[verifier::opaque]
    pub open spec fn wready<R: Dev>(s: &Stream<R>, n: int) -> bool { calm(s) && sroom(s, cpend(s) + n) }
    pub broadcast proof fn b_wready<R: Dev>(s: &Stream<R>, n: int)
        ensures #[trigger] wready(s, n) == (calm(s) && sroom(s, cpend(s) + n)) { reveal(wready); }
    pub broadcast proof fn b_wready_less<R: Dev>(s: &Stream<R>, n: int, k: int)
        requires #[trigger] wready(s, n), k <= n ensures #[trigger] wready(s, k) { reveal(wready); }
    pub proof fn lemma_commit_calm<R: Dev>(a: &Stream<R>, m: &Stream<R>)
        requires swf(a), commit_ok(a, m)
        ensures m.inner.cur() == a.inner.cur() + cpend(a), m.pos == a.pos + cpend(a), m.inner.lim() == a.inner.lim(),
            ssound(m) == ssound(a), a.commit is None ==> *m == *a
    {
        match a.commit {
            None => {},
            Some(Nd(op)) => {
                let x = choose|x: Stream<R>| #[trigger] op_post(op, a, &x, Ok(())) && *m == (Stream { commit: None::<Nd<CommitOp>>, ..x });
                assert(op_post(op, a, &x, Ok(())) && m.inner == x.inner);
                match op {
                    CommitOp::skip_blob => { assert(skip_post(a, &x, Ok(()))); assert(srd(a, &x, pend(a))); a.inner.frame_sound(&x.inner); },
                    CommitOp::check_at_end_of_blob => { assert(check_post(a, &x, Ok(()))); },
                    CommitOp::finish_dynamic_blob => { assert(fin_post(a, &x, Ok(()))); a.inner.frame_sound(&x.inner); },
                }
            }
        }
    }
    /// after w0 has been written with all pending work done, n more bytes fit if w0 + n did before
    pub broadcast proof fn b_wready_op<R: Dev>(a: &Stream<R>, b: &Stream<R>, w: Seq<u8>, n: int)
        requires swf(a), #[trigger] wr_op(a, b, w), b.commit is None, wready(a, w.len() + n)
        ensures #[trigger] wready(b, n)
    {
        reveal(wready);
        let m = choose|m: Stream<R>| #[trigger] commit_ok(a, &m) && swr(&m, b, w);
        assert(commit_ok(a, &m) && swr(&m, b, w));
        lemma_commit_calm(a, &m);
        m.inner.frame_sound(&b.inner);
    }
    pub broadcast proof fn b_wready_ok<R: Dev>(a: &Stream<R>, b: &Stream<R>, n: int)
        requires swf(a), #[trigger] commit_ok(a, b), b.commit is None
        ensures #[trigger] wready(b, n) == sroom(b, n), wready(a, n) ==> wready(b, n), ssound(b) == ssound(a)
    { reveal(wready); lemma_commit_calm(a, b); }
    // ---- writing -------------------------------------------------------------------------------
    /// pending work finished, then exactly w written
    #[verifier::prophetic]
    pub open spec fn wr_op<R: Dev>(a: &Stream<R>, b: &Stream<R>, w: Seq<u8>) -> bool {
        exists|m: Stream<R>| #[trigger] commit_ok(a, &m) && swr(&m, b, w)
    }
    pub open spec fn field_desc(t: DescriptorType, tag: u8) -> Seq<u8> { seq![desc_byte(ParsedDescriptor::Pair(t, tag))] }
    pub open spec fn special_desc(t: SpecialType) -> Seq<u8> { seq![desc_byte(ParsedDescriptor::Special(t))] }
    pub open spec fn int_field(tag: u8, v: nat) -> Seq<u8> { field_desc(DescriptorType::Integer, tag) + venc(v) }
    /// pending work finished, blob header written, an open fixed-length blob of length len follows
    #[verifier::prophetic]
    pub open spec fn alloc_op<R: Dev>(a: &Stream<R>, b: &Stream<R>, desc: Seq<u8>, len: u64, w: Seq<u8>) -> bool {
        exists|m: Stream<R>| #[trigger] commit_ok(a, &m) && swr0(&m, b, desc + venc(len as nat) + w)
            && b.dynamic_blob_start == m.dynamic_blob_start && is_check(b.commit)
            && b.blob_end == m.pos + desc.len() + venc(len as nat).len() + len
    }
    #[verifier::prophetic]
    pub open spec fn dyn_op<R: Dev>(a: &Stream<R>, b: &Stream<R>, desc: Seq<u8>, len: u64) -> bool {
        exists|m: Stream<R>| #[trigger] commit_ok(a, &m) && swr0(&m, b, desc + vfix(len as nat, 10))
            && is_dyn(b.commit) && b.dynamic_blob_start == b.pos && b.blob_end == u64::MAX && len == u64::MAX - b.pos
    }
    pub open spec fn padding(n: nat) -> Seq<u8> { Seq::new(n, |i: int| 0xC0u8) }

    // ---- copying one stream's elements to another ----------------------------------------------
    pub open spec fn sub_of<'d, R>(v: Value<'d, R>) -> Option<&'d mut Stream<R>> {
        match v { Value::Struct(d) => Some(d), Value::Enum(_, d) => Some(d), _ => None }
    }
    /// the bytes of a field, given the content still to be read of its blob
    #[verifier::prophetic]
    pub open spec fn copied_field<R: Dev, I: Dev>(a: &Stream<R>, b: &Stream<R>, tag: u8, v: Value<I>) -> bool {
        match v {
            Value::Integer(n) => wr_op(a, b, int_field(tag, n as nat)) && b.commit is None,
            Value::Struct(_) => wr_op(a, b, field_desc(DescriptorType::Struct, tag)) && b.commit is None,
            Value::Enum(d, _) => wr_op(a, b, field_desc(DescriptorType::Enum, tag) + venc(d as nat)) && b.commit is None,
            // the header declares the whole length; whatever of the content is not there leaves the
            // output blob incomplete, which the next operation reports (check_post)
            Value::Blob(src) => alloc_op(a, b, field_desc(DescriptorType::Blob, tag), src.len, blob_rest(&src)),
        }
    }
    #[verifier::prophetic]
    pub open spec fn copied_src<I: Dev>(v: Value<I>, w: Value<I>, ok: bool) -> bool {
        match v {
            Value::Blob(x) => w matches Value::Blob(y) && bwf(&y) && bframe(&x, &y) && (ok ==> rd_step::<Blob<I>>(&x, &y, blob_rest(&x).len() as int)),
            _ => w == v,
        }
    }

    // ---- byte view of a blob handle and of the tracker -----------------------------------------
    impl<'d, R: Dev> Dev for StreamTracker<'d, R> {
        open spec fn data(&self) -> Seq<u8> { self.0.inner.data() }
        open spec fn cur(&self) -> nat { self.0.inner.cur() }
        open spec fn lim(&self) -> int { self.0.inner.lim() }
        open spec fn off(&self) -> int { self.0.pos - self.0.inner.cur() }
        open spec fn eof_byte(&self) -> Option<u8> { if self.1 { Some(0x40u8) } else { None } }
        open spec fn buffered(&self) -> nat { minn(self.0.inner.buffered(), (u64::MAX - self.0.pos) as nat) }
        open spec fn sbase(&self) -> int { self.0.inner.sbase() }
        open spec fn send(&self) -> int { self.0.inner.send() }
        open spec fn wf(&self) -> bool { self.0.inner.wf() && self.0.inner.eof_byte() is None }
        open spec fn sound(&self) -> bool { ssound(self.0) }
        open spec fn seekable(&self, t: int) -> bool { self.0.inner.seekable(t) }
        proof fn frame_sound(&self, b: &Self) { self.0.inner.frame_sound(&b.0.inner) }
        #[verifier::prophetic]
        open spec fn frame(&self, post: &Self) -> bool { sframe(self.0, post.0) && self.1 == post.1 && *final(self.0) == *final(post.0) }
        proof fn frame_refl(&self) { self.0.inner.frame_refl() }
        proof fn frame_trans(&self, b: &Self, c: &Self) { self.0.inner.frame_trans(&b.0.inner, &c.0.inner) }
    }
    impl<'d, R: Dev> Dev for Blob<'d, R> {
        open spec fn data(&self) -> Seq<u8> { self.stream.inner.data() }
        open spec fn cur(&self) -> nat { self.stream.inner.cur() }
        open spec fn lim(&self) -> int { if self.stream.inner.lim() < bend(self.stream) { self.stream.inner.lim() } else { bend(self.stream) } }
        open spec fn off(&self) -> int { self.stream.pos - self.stream.inner.cur() }
        open spec fn eof_byte(&self) -> Option<u8> { None }
        open spec fn buffered(&self) -> nat { minn(self.stream.inner.buffered(), minn((u64::MAX - self.stream.pos) as nat, (self.stream.blob_end - self.stream.pos) as nat)) }
        open spec fn sbase(&self) -> int { bend(self.stream) - self.len }
        open spec fn send(&self) -> int { bend(self.stream) }
        open spec fn wf(&self) -> bool { bwf(self) }
        open spec fn sound(&self) -> bool { ssound(self.stream) }
        open spec fn seekable(&self, t: int) -> bool { self.stream.inner.seekable(t) && self.sbase() <= t <= self.send() }
        proof fn frame_sound(&self, b: &Self) { assert(self.frame(b)); assert(self.len == b.len); assert(self.stream.inner.lim() == b.stream.inner.lim()); assert(self.stream.inner.frame(&b.stream.inner)); self.stream.inner.frame_sound(&b.stream.inner) }
        #[verifier::prophetic]
        open spec fn frame(&self, post: &Self) -> bool { sframe(self.stream, post.stream) && self.len == post.len && *final(self.stream) == *final(post.stream) }
        proof fn frame_refl(&self) { self.stream.inner.frame_refl() }
        proof fn frame_trans(&self, b: &Self, c: &Self) { self.stream.inner.frame_trans(&b.stream.inner, &c.stream.inner) }
    }
    impl<'a, 'd, R: Dev> Dev for &'a mut Blob<'d, R> {
        open spec fn data(&self) -> Seq<u8> { (**self).data() }
        open spec fn cur(&self) -> nat { (**self).cur() }
        open spec fn lim(&self) -> int { (**self).lim() }
        open spec fn off(&self) -> int { (**self).off() }
        open spec fn eof_byte(&self) -> Option<u8> { (**self).eof_byte() }
        open spec fn buffered(&self) -> nat { (**self).buffered() }
        open spec fn sbase(&self) -> int { (**self).sbase() }
        open spec fn send(&self) -> int { (**self).send() }
        open spec fn wf(&self) -> bool { (**self).wf() }
        open spec fn sound(&self) -> bool { (**self).sound() }
        open spec fn seekable(&self, t: int) -> bool { (**self).seekable(t) }
        proof fn frame_sound(&self, b: &Self) { (**self).frame_sound(&**b) }
        #[verifier::prophetic]
        open spec fn frame(&self, post: &Self) -> bool { (**self).frame(&**post) && *final(*self) == *final(*post) }
        proof fn frame_refl(&self) { (**self).frame_refl() }
        proof fn frame_trans(&self, b: &Self, c: &Self) { (**self).frame_trans(&**b, &**c) }
    }
    impl<'a, 'd, R: Read> Read for &'a mut Blob<'d, R> {
        fn read(&mut self, buf: &mut [u8]) -> (r: io::Result<usize>) { (**self).read(buf) }
    }
    #[verifier::prophetic]
    pub open spec fn bframe<R: Dev>(a: &Blob<R>, b: &Blob<R>) -> bool { sframe(a.stream, b.stream) && a.len == b.len && *final(a.stream) == *final(b.stream) }
    pub open spec fn bpos<R>(b: &Blob<R>) -> u64 { b.stream.pos }
    pub open spec fn bendp<R>(b: &Blob<R>) -> u64 { b.stream.blob_end }
    pub open spec fn binner<R>(b: &Blob<R>) -> R { b.stream.inner }
    pub open spec fn blob_rest<R: Dev>(b: &Blob<R>) -> Seq<u8> { rest::<Blob<R>>(b) }

    pub broadcast proof fn b_swr_trans<R: Dev>(a: &Stream<R>, b: &Stream<R>, c: &Stream<R>, x: Seq<u8>, y: Seq<u8>)
        requires #[trigger] swr(a, b, x), #[trigger] swr(b, c, y)
        ensures swr(a, c, x + y)
    { a.inner.frame_trans(&b.inner, &c.inner); splice_splice(a.inner.data(), a.inner.cur(), x, b.inner.cur(), y); }
    pub broadcast proof fn b_spost_shift<R: Dev>(x: &Stream<R>, m: &Stream<R>, a: &Stream<R>, b: &Stream<R>, ty: DescriptorType, d: int, v: Vv)
        requires #[trigger] commit_ok(x, m), #[trigger] spost(a, b, 0, ty, d, v), sadv(m, a, a.inner.cur() - m.inner.cur()), same_eof_blob(m, a),
            0 <= a.inner.cur() - m.inner.cur() <= rest(&m.inner).len()
        ensures spost(m, b, a.inner.cur() - m.inner.cur(), ty, d, v)
    {
        let c = a.inner.cur() - m.inner.cur();
        m.inner.frame_trans(&a.inner, &b.inner);
        assert(rest(&a.inner).skip(0) =~= rest(&m.inner).skip(c));
    }
    pub broadcast proof fn b_sblob_shift<R: Dev>(x: &Stream<R>, m: &Stream<R>, a: &Stream<R>, b: &Stream<R>, len: u64)
        requires #[trigger] commit_ok(x, m), #[trigger] sblob(a, b, 0, len), sadv(m, a, a.inner.cur() - m.inner.cur()), same_eof_blob(m, a),
            0 <= a.inner.cur() - m.inner.cur() <= rest(&m.inner).len()
        ensures sblob(m, b, a.inner.cur() - m.inner.cur(), len)
    {
        let c = a.inner.cur() - m.inner.cur();
        m.inner.frame_trans(&a.inner, &b.inner);
        assert(rest(&a.inner).skip(0) =~= rest(&m.inner).skip(c));
    }
    pub broadcast proof fn b_numerr_shift<R: Dev>(x: &Stream<R>, m: &Stream<R>, a: &Stream<R>, e: Error)
        requires #[trigger] commit_ok(x, m), #[trigger] num_err(rest(&a.inner), e), sadv(m, a, a.inner.cur() - m.inner.cur()),
            0 <= a.inner.cur() - m.inner.cur() <= rest(&m.inner).len()
        ensures num_err(rest(&m.inner).skip(a.inner.cur() - m.inner.cur()), e)
    {
        assert(rest(&a.inner) =~= rest(&m.inner).skip(a.inner.cur() - m.inner.cur()));
    }
    pub open spec fn blob_rest_is<R: Dev>(b: Blob<R>) -> bool {
        let r = rest(&b.stream.inner);
        &&& blob_rest(&b).len() == minn(r.len(), (b.stream.blob_end - b.stream.pos) as nat)
        &&& blob_rest(&b) == r.take(blob_rest(&b).len() as int)
        &&& forall|k: int| 0 <= k <= blob_rest(&b).len() ==> #[trigger] blob_rest(&b).take(k) == r.take(k)
    }
    pub broadcast proof fn b_blob_rest<R: Dev>(b: &Blob<R>)
        requires bwf(b)
        ensures #![trigger blob_rest(b)] blob_rest_is(*b)
    {
        let r = rest(&b.stream.inner);
        assert forall|k: int| 0 <= k <= blob_rest(b).len() implies #[trigger] blob_rest(b).take(k) == r.take(k) by {
            assert(blob_rest(b).take(k) =~= r.take(k));
        }
        assert(blob_rest(b) =~= r.take(blob_rest(b).len() as int));
    }
    pub broadcast proof fn b_padding(n: nat)
        ensures #[trigger] (padding(n) + special_desc(SpecialType::Padding)) == padding(n + 1)
    { assert(padding(n) + special_desc(SpecialType::Padding) =~= padding(n + 1)); }
    pub proof fn lemma_commit_rest<R: Dev>(a: &Stream<R>, m: &Stream<R>)
        requires swf(a), commit_ok(a, m)
        ensures rest(&m.inner).len() <= rest(&a.inner).len(), m.struct_depth == a.struct_depth, m.eof == a.eof, m.inner.lim() == a.inner.lim()
    {
        match a.commit {
            None => {},
            Some(Nd(op)) => {
                let x = choose|x: Stream<R>| #[trigger] op_post(op, a, &x, Ok(())) && *m == (Stream { commit: None::<Nd<CommitOp>>, ..x });
                assert(op_post(op, a, &x, Ok(())) && m.inner == x.inner);
                match op {
                    CommitOp::skip_blob => { assert(skip_post(a, &x, Ok(()))); assert(srd(a, &x, pend(a))); },
                    CommitOp::check_at_end_of_blob => { assert(check_post(a, &x, Ok(()))); },
                    CommitOp::finish_dynamic_blob => {
                        assert(fin_post(a, &x, Ok(())));
                        lemma_vfix_len(10);
                        assert(x.inner.data() == fin_data(a));
                        assert(x.inner.data().len() <= a.inner.data().len() || x.inner.data().len() <= a.inner.cur());
                    },
                }
            }
        }
    }
    /// every element but the end of the document consumes input
    pub proof fn lemma_elem_progress<R: Dev>(a: &Stream<R>, b: &Stream<R>)
        requires swf(a), elem_step(a, b), !a.eof, depth_ok(a)
        ensures depth_ok(b), b.eof ==> b.struct_depth == 0,
            rest(&b.inner).len() < rest(&a.inner).len() || (b.struct_depth == 0 && rest(&b.inner).len() <= rest(&a.inner).len()),
    {
        reveal(elem_step);
        let e = choose|e: Ev| #[trigger] next_post(a, false, e, b);
        let (m, k) = choose|m: Stream<R>, k: nat| #[trigger] commit_ok(a, &m) && #[trigger] pads(rest(&m.inner), k) && parse_post(&m, k, false, e, b);
        lemma_commit_rest(a, &m);
    }
    pub broadcast proof fn b_valerr_shift<R: Dev>(x: &Stream<R>, m: &Stream<R>, a: &Stream<R>, blob: bool, e: Error)
        requires #[trigger] commit_ok(x, m), #[trigger] val_err(a, 0, blob, e), sadv(m, a, a.inner.cur() - m.inner.cur()),
            0 <= a.inner.cur() - m.inner.cur() <= rest(&m.inner).len()
        ensures val_err(m, a.inner.cur() - m.inner.cur(), blob, e)
    {
        let c = a.inner.cur() - m.inner.cur();
        m.inner.frame_sound(&a.inner);
        assert(rest(&a.inner).skip(0) =~= rest(&m.inner).skip(c));
    }
    pub broadcast proof fn b_sfit_shift<R: Dev>(x: &Stream<R>, m: &Stream<R>, a: &Stream<R>)
        requires #[trigger] commit_ok(x, m), sadv(m, a, a.inner.cur() - m.inner.cur()), 0 <= a.inner.cur() - m.inner.cur() <= rest(&m.inner).len()
        ensures sfit(m) ==> #[trigger] ssound(a) && sfit(a)
    { m.inner.frame_sound(&a.inner); }
    pub broadcast group sspec_lemmas2 { b_sfit_shift,  b_valerr_shift, b_spost_shift, b_sblob_shift, b_numerr_shift }
    pub broadcast group sspec_lemmas { from_io, b_swr_trans, b_padding, b_blob_rest }
}
