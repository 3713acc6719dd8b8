// needs module rtv
// What is read back is what was written: lemmas over the contracts of the serialisers (s_field, s_elem, s_body) and of the
// deserialisers (d_field, d_elem, d_body) (hand-written; no fourleaf code here).
pub mod rtspec {
    use vstd::prelude::*;
    use crate::vio::*;
    use crate::wspec::*;
    use crate::sspec::*;
    use crate::hspec::*;
    use crate::dspec::*;
    use crate::wire::*;
    use crate::stream::{Stream, Nd, CommitOp};
    use crate::ser::Serialize;

    // ---- a stream about to read the bytes r (the end of the input is not an end of the document) -------
    pub open spec fn ready<R: Dev>(s: &Stream<R>, r: Seq<u8>) -> bool {
        &&& !s.eof && !s.graceful_eof && s.inner.cur() <= dend(&s.inner)
        &&& if s.commit is None { rest(&s.inner) == r } else { is_skip(s.commit) && pend(s) <= rest(&s.inner).len() && rest(&s.inner).skip(pend(s)) == r }
    }
    proof fn lemma_commit<R: Dev>(s: &Stream<R>, m: &Stream<R>, r: Seq<u8>)
        requires ready(s, r), commit_ok(s, m)
        ensures m.commit is None, rest(&m.inner) == r, m.eof == s.eof, m.graceful_eof == s.graceful_eof, m.struct_depth == s.struct_depth, m.inner.cur() <= dend(&m.inner)
    {
        match s.commit {
            None => {},
            Some(Nd(op)) => {
                let x = choose|x: Stream<R>| #[trigger] op_post(op, s, &x, Ok(())) && *m == (Stream { commit: None::<Nd<CommitOp>>, ..x });
                assert(op_post(op, s, &x, Ok(())) && m.inner == x.inner);
                assert(skip_post(s, &x, Ok(())));
                assert(srd(s, &x, pend(s)));
                assert(rest(&x.inner) =~= rest(&s.inner).skip(pend(s)));
            }
        }
    }
    pub open spec fn fresh<R: Dev>(m: &Stream<R>, r: Seq<u8>) -> bool { m.commit is None && rest(&m.inner) == r && !m.eof && !m.graceful_eof && m.inner.cur() <= dend(&m.inner) }
    /// the next element of a stream is the one its bytes start with
    proof fn lemma_next<R: Dev>(a: &Stream<R>, r: Seq<u8>, e: Ev, b: &Stream<R>)
        requires ready(a, r), next_post(a, true, e, b), r.len() > 0, parse_desc(r[0]) != ParsedDescriptor::Special(SpecialType::Padding)
        ensures exists|m: Stream<R>| #[trigger] fresh(&m, r) && parse_post(&m, 0, true, e, b)
    {
        let (m, k) = choose|m: Stream<R>, k: nat| #[trigger] commit_ok(a, &m) && #[trigger] pads(rest(&m.inner), k) && parse_post(&m, k, true, e, b);
        lemma_commit(a, &m, r);
        if k > 0 { assert(rest(&m.inner)[0] == 0xC0); assert(false); }
        assert(fresh(&m, r));
    }
    proof fn lemma_adv<R: Dev>(a: &Stream<R>, b: &Stream<R>, n: int)
        requires sadv(a, b, n), 0 <= n <= rest(&a.inner).len(), a.inner.cur() <= dend(&a.inner)
        ensures rest(&b.inner) == rest(&a.inner).skip(n), b.inner.cur() <= dend(&b.inner)
    { assert(rest(&b.inner) =~= rest(&a.inner).skip(n)); }
    /// an integer of value v where the bytes venc(v) are
    proof fn lemma_sdec<R: Dev>(a: &Stream<R>, b: &Stream<R>, v: nat, w: int, d: u8, t: Seq<u8>)
        requires sdec(a, b, 1, w), rest(&a.inner) == seq![d] + venc(v) + t, a.inner.cur() <= dend(&a.inner)
        ensures w == v, rest(&b.inner) == t, b.inner.cur() <= dend(&b.inner)
    {
        let q = rest(&a.inner).skip(1);
        assert(q =~= venc(v) + t);
        lemma_venc(v, t);
        let n = (b.pos - a.pos - 1) as nat;
        lemma_vlen_unique(q, n, venc(v).len());
        lemma_adv(a, b, 1 + n as int);
        assert(rest(&b.inner) =~= t);
    }
    /// an integer field is read where one was written
    pub proof fn lemma_int<R: Dev>(s0: Stream<R>, f: Fx<R>, s1: Stream<R>, tag: u8, v: nat, t: Seq<u8>)
        requires ready(&s0, int_field(tag, v) + t), hand(s0, f, s1), 1 <= tag <= 63
        ensures f.tag == tag, f.v matches Vv::Int(m) && m == v, ready(&s1, t)
    {
        let r = int_field(tag, v) + t;
        let p = ParsedDescriptor::Pair(DescriptorType::Integer, tag);
        lemma_desc_inverse(r[0], p);
        let b = handed(f, s1);
        let e9 = Ev::Field { tag: f.tag, pos: f.pos, depth: f.depth, value: f.v }; lemma_next(&s0, r, e9, &b);
        let m = choose|m: Stream<R>| #[trigger] fresh(&m, r) && parse_post(&m, 0, true, e9, &b);
        assert(r =~= seq![desc_byte(p)] + venc(v) + t);
        lemma_sdec(&m, &b, v, f.v->Int_0 as int, desc_byte(p), t);
    }
    /// a blob field likewise; its content is what its handle shows
    pub proof fn lemma_blob<R: Dev>(s0: Stream<R>, f: Fx<R>, s1: Stream<R>, tag: u8, c: Seq<u8>, t: Seq<u8>)
        requires ready(&s0, e_blob(tag, c) + t), hand(s0, f, s1), 1 <= tag <= 63
        ensures f.tag == tag, f.v matches Vv::Blob(m) && m == c.len(), f.s1 == Some(s1), f.s0 is Some,
            pend(&f.s0->0) == c.len(), content(f.s0->0) == c, rest(&f.s0->0.inner) == c + t, ready(&f.s0->0, t),
            forall|x: Stream<R>| #[trigger] srd(&f.s0->0, &x, c.len() as int) ==> ready(&x, t),
    {
        let r = e_blob(tag, c) + t;
        let p = ParsedDescriptor::Pair(DescriptorType::Blob, tag);
        lemma_desc_inverse(r[0], p);
        let b = handed(f, s1);
        let e9 = Ev::Field { tag: f.tag, pos: f.pos, depth: f.depth, value: f.v }; lemma_next(&s0, r, e9, &b);
        let m = choose|m: Stream<R>| #[trigger] fresh(&m, r) && parse_post(&m, 0, true, e9, &b);
        assert(r =~= seq![desc_byte(p)] + venc(c.len()) + (c + t));
        lemma_sdec(&m, &b, c.len(), f.v->Blob_0 as int, desc_byte(p), c + t);
        assert(content(b) =~= c);
        assert(rest(&b.inner).skip(pend(&b)) =~= t);
        assert forall|x: Stream<R>| #[trigger] srd(&b, &x, c.len() as int) implies ready(&x, t) by {
            lemma_adv(&b, &x, c.len() as int);
            assert(rest(&x.inner) =~= t);
            assert(t.skip(0) =~= t);
        }
    }
    /// a struct: its handle is about to read what follows the descriptor
    pub proof fn lemma_struct<R: Dev>(s0: Stream<R>, f: Fx<R>, s1: Stream<R>, tag: u8, t: Seq<u8>)
        requires ready(&s0, e_struct(tag) + t), hand(s0, f, s1), 1 <= tag <= 63
        ensures f.tag == tag, f.v is Struct, f.s1 == Some(s1), f.s0 is Some, ready(&f.s0->0, t),
    {
        let r = e_struct(tag) + t;
        let p = ParsedDescriptor::Pair(DescriptorType::Struct, tag);
        lemma_desc_inverse(r[0], p);
        let b = handed(f, s1);
        let e9 = Ev::Field { tag: f.tag, pos: f.pos, depth: f.depth, value: f.v }; lemma_next(&s0, r, e9, &b);
        let m = choose|m: Stream<R>| #[trigger] fresh(&m, r) && parse_post(&m, 0, true, e9, &b);
        lemma_adv(&m, &b, 1);
        assert(r.skip(1) =~= t);
    }
    pub proof fn lemma_enum<R: Dev>(s0: Stream<R>, f: Fx<R>, s1: Stream<R>, tag: u8, d: u64, t: Seq<u8>)
        requires ready(&s0, e_enum(tag, d) + t), hand(s0, f, s1), 1 <= tag <= 63
        ensures f.tag == tag, f.v == Vv::Enum(d), f.s1 == Some(s1), f.s0 is Some, ready(&f.s0->0, t),
    {
        let r = e_enum(tag, d) + t;
        let p = ParsedDescriptor::Pair(DescriptorType::Enum, tag);
        lemma_desc_inverse(r[0], p);
        let b = handed(f, s1);
        let e9 = Ev::Field { tag: f.tag, pos: f.pos, depth: f.depth, value: f.v }; lemma_next(&s0, r, e9, &b);
        let m = choose|m: Stream<R>| #[trigger] fresh(&m, r) && parse_post(&m, 0, true, e9, &b);
        assert(r =~= seq![desc_byte(p)] + venc(d as nat) + t);
        lemma_sdec(&m, &b, d as nat, f.v->Enum_0 as int, desc_byte(p), t);
    }
    /// the end of a body is no field, and nothing else is an end
    pub proof fn lemma_no_field<R: Dev>(s0: Stream<R>, f: Fx<R>, s1: Stream<R>, t: Seq<u8>)
        requires ready(&s0, e_end() + t), hand(s0, f, s1)
        ensures false
    {
        let r = e_end() + t;
        lemma_desc_inverse(r[0], ParsedDescriptor::Special(SpecialType::EndOfStruct));
        let e9 = Ev::Field { tag: f.tag, pos: f.pos, depth: f.depth, value: f.v }; lemma_next(&s0, r, e9, &handed(f, s1));
        let m = choose|m: Stream<R>| #[trigger] fresh(&m, r) && parse_post(&m, 0, true, e9, &handed(f, s1));
    }
    pub proof fn lemma_ends<R: Dev>(a: Stream<R>, b: Stream<R>, t: Seq<u8>)
        requires ready(&a, e_end() + t), endp(&a, &b)
        ensures ready(&b, t)
    {
        let r = e_end() + t;
        lemma_desc_inverse(r[0], ParsedDescriptor::Special(SpecialType::EndOfStruct));
        let e = if next_post(&a, true, Ev::EndOfStruct, &b) { Ev::EndOfStruct } else { Ev::EndOfDoc };
        let e9 = e; lemma_next(&a, r, e9, &b);
        let m = choose|m: Stream<R>| #[trigger] fresh(&m, r) && parse_post(&m, 0, true, e9, &b);
        lemma_adv(&m, &b, 1);
        assert(r.skip(1) =~= t);
    }
    pub open spec fn starts(w: Seq<u8>, tag: u8) -> bool { w.len() > 0 && 1 <= tag <= 63 && exists|ty: DescriptorType| w[0] == #[trigger] desc_byte(ParsedDescriptor::Pair(ty, tag)) }
    pub proof fn lemma_no_end<R: Dev>(a: Stream<R>, b: Stream<R>, w: Seq<u8>, tag: u8, t: Seq<u8>)
        requires ready(&a, w + t), starts(w, tag), endp(&a, &b)
        ensures false
    {
        let ty = choose|ty: DescriptorType| w[0] == #[trigger] desc_byte(ParsedDescriptor::Pair(ty, tag));
        lemma_desc_inverse(w[0], ParsedDescriptor::Pair(ty, tag));
        let e = if next_post(&a, true, Ev::EndOfStruct, &b) { Ev::EndOfStruct } else { Ev::EndOfDoc };
        let e9 = e; lemma_next(&a, w + t, e9, &b);
        let m = choose|m: Stream<R>| #[trigger] fresh(&m, w + t) && parse_post(&m, 0, true, e9, &b);
    }
    pub proof fn lemma_tag<R: Dev>(a: Stream<R>, f: Fx<R>, s1: Stream<R>, w: Seq<u8>, tag: u8, t: Seq<u8>)
        requires ready(&a, w + t), starts(w, tag), hand(a, f, s1)
        ensures f.tag == tag
    {
        let ty = choose|ty: DescriptorType| w[0] == #[trigger] desc_byte(ParsedDescriptor::Pair(ty, tag));
        lemma_desc_inverse(w[0], ParsedDescriptor::Pair(ty, tag));
        let e9 = Ev::Field { tag: f.tag, pos: f.pos, depth: f.depth, value: f.v }; lemma_next(&a, w + t, e9, &handed(f, s1));
        let m = choose|m: Stream<R>| #[trigger] fresh(&m, w + t) && parse_post(&m, 0, true, e9, &handed(f, s1));
    }

    // ---- input cut short: r is not all of what was written ---------------------------------------------
    pub open spec fn cut(r: Seq<u8>, w: Seq<u8>) -> bool { r.len() < w.len() && r == w.take(r.len() as int) }
    pub open spec fn after(r: Seq<u8>, a: Seq<u8>) -> Seq<u8> { r.skip(a.len() as int) }
    pub proof fn lemma_cut(r: Seq<u8>, a: Seq<u8>, b: Seq<u8>)
        requires cut(r, a + b)
        ensures cut(r, a) || (r == a + after(r, a) && cut(after(r, a), b))
    {
        if r.len() < a.len() { assert(r =~= a.take(r.len() as int)) by { assert forall|i: int| 0 <= i < r.len() implies r[i] == a[i] by { assert((a + b).take(r.len() as int)[i] == r[i]); } } }
        else {
            let d = after(r, a);
            assert forall|i: int| 0 <= i < r.len() implies r[i] == (a + b)[i] by { assert((a + b).take(r.len() as int)[i] == r[i]); }
            assert(r =~= a + d);
            assert(d =~= b.take(d.len() as int));
        }
    }
    /// the first byte is the first byte
    pub proof fn lemma_cut0(r: Seq<u8>, w: Seq<u8>) requires cut(r, w) ensures r.len() > 0 ==> r[0] == w[0]
    { if r.len() > 0 { assert(w.take(r.len() as int)[0] == w[0]); } }
    /// nothing is nothing
    pub proof fn lemma_void<R: Dev>(a: Stream<R>, b: Stream<R>, e: Ev)
        requires ready(&a, Seq::empty()), next_post(&a, true, e, &b) ensures false
    {
        let (m, k) = choose|m: Stream<R>, k: nat| #[trigger] commit_ok(&a, &m) && #[trigger] pads(rest(&m.inner), k) && parse_post(&m, k, true, e, &b);
        lemma_commit(&a, &m, Seq::empty());
    }
    /// an integer cut short is none
    proof fn lemma_sdec_cut<R: Dev>(a: &Stream<R>, b: &Stream<R>, v: nat, w: int, d: u8)
        requires sdec(a, b, 1, w), cut(rest(&a.inner), seq![d] + venc(v)), rest(&a.inner).len() > 0
        ensures false
    {
        let r = rest(&a.inner); let q = r.skip(1);
        lemma_cut(r, seq![d], venc(v));
        assert(q =~= after(r, seq![d]));
        let n = (b.pos - a.pos - 1) as nat;
        let t = Seq::<u8>::empty();
        lemma_venc(v, t);
        assert(venc(v) + t =~= venc(v));
        assert forall|i: int| 0 <= i < q.len() implies q[i] == venc(v)[i] by { assert(venc(v).take(q.len() as int)[i] == q[i]); }
        assert(vlen_is(venc(v), n));
        lemma_vlen_unique(venc(v), n, venc(v).len());
    }
    pub proof fn lemma_int_cut<R: Dev>(s0: Stream<R>, f: Fx<R>, s1: Stream<R>, tag: u8, v: nat, r: Seq<u8>)
        requires ready(&s0, r), cut(r, int_field(tag, v)), hand(s0, f, s1), 1 <= tag <= 63
        ensures false
    {
        let b = handed(f, s1);
        let e9 = Ev::Field { tag: f.tag, pos: f.pos, depth: f.depth, value: f.v };
        if r.len() == 0 { assert(r =~= Seq::empty()); lemma_void(s0, b, e9); }
        let p = ParsedDescriptor::Pair(DescriptorType::Integer, tag);
        lemma_cut0(r, int_field(tag, v));
        assert(int_field(tag, v)[0] == desc_byte(p));
        lemma_desc_inverse(r[0], p);
        lemma_next(&s0, r, e9, &b);
        let m = choose|m: Stream<R>| #[trigger] fresh(&m, r) && parse_post(&m, 0, true, e9, &b);
        assert(int_field(tag, v) =~= seq![desc_byte(p)] + venc(v));
        lemma_sdec_cut(&m, &b, v, f.v->Int_0 as int, desc_byte(p));
    }
    /// a blob cut short is announced, but not all there
    pub proof fn lemma_blob_cut<R: Dev>(s0: Stream<R>, f: Fx<R>, s1: Stream<R>, tag: u8, c: Seq<u8>, r: Seq<u8>)
        requires ready(&s0, r), cut(r, e_blob(tag, c)), hand(s0, f, s1), 1 <= tag <= 63
        ensures f.v is Blob, f.s1 == Some(s1), f.s0 is Some, rest(&f.s0->0.inner).len() < pend(&f.s0->0), f.s0->0.inner.cur() <= dend(&f.s0->0.inner)
    {
        let b = handed(f, s1);
        let e9 = Ev::Field { tag: f.tag, pos: f.pos, depth: f.depth, value: f.v };
        if r.len() == 0 { assert(r =~= Seq::empty()); lemma_void(s0, b, e9); }
        let p = ParsedDescriptor::Pair(DescriptorType::Blob, tag);
        let h = seq![desc_byte(p)] + venc(c.len());
        assert(e_blob(tag, c) =~= h + c);
        lemma_cut0(r, e_blob(tag, c));
        assert(e_blob(tag, c)[0] == desc_byte(p));
        lemma_desc_inverse(r[0], p);
        lemma_next(&s0, r, e9, &b);
        let m = choose|m: Stream<R>| #[trigger] fresh(&m, r) && parse_post(&m, 0, true, e9, &b);
        lemma_cut(r, h, c);
        if cut(r, h) { lemma_sdec_cut(&m, &b, c.len(), f.v->Blob_0 as int, desc_byte(p)); }
        else { lemma_sdec(&m, &b, c.len(), f.v->Blob_0 as int, desc_byte(p), after(r, h)); }
    }
    pub proof fn lemma_struct_cut<R: Dev>(s0: Stream<R>, f: Fx<R>, s1: Stream<R>, tag: u8, u: Seq<u8>, r: Seq<u8>) -> (q: Seq<u8>)
        requires ready(&s0, r), cut(r, e_struct(tag) + u), hand(s0, f, s1), 1 <= tag <= 63
        ensures f.v is Struct, f.s1 == Some(s1), f.s0 is Some, ready(&f.s0->0, q), cut(q, u)
    {
        if r.len() == 0 { assert(r =~= Seq::empty()); lemma_void(s0, handed(f, s1), Ev::Field { tag: f.tag, pos: f.pos, depth: f.depth, value: f.v }); }
        lemma_cut(r, e_struct(tag), u);
        lemma_struct(s0, f, s1, tag, after(r, e_struct(tag)));
        after(r, e_struct(tag))
    }
    pub proof fn lemma_enum_cut<R: Dev>(s0: Stream<R>, f: Fx<R>, s1: Stream<R>, tag: u8, d: u64, u: Seq<u8>, r: Seq<u8>) -> (q: Seq<u8>)
        requires ready(&s0, r), cut(r, e_enum(tag, d) + u), hand(s0, f, s1), 1 <= tag <= 63
        ensures f.v == Vv::Enum(d), f.s1 == Some(s1), f.s0 is Some, ready(&f.s0->0, q), cut(q, u)
    {
        let b = handed(f, s1);
        let e9 = Ev::Field { tag: f.tag, pos: f.pos, depth: f.depth, value: f.v };
        if r.len() == 0 { assert(r =~= Seq::empty()); lemma_void(s0, b, e9); }
        let p = ParsedDescriptor::Pair(DescriptorType::Enum, tag);
        let h = seq![desc_byte(p)] + venc(d as nat);
        assert(e_enum(tag, d) =~= h);
        lemma_cut0(r, h + u);
        assert((h + u)[0] == desc_byte(p));
        lemma_desc_inverse(r[0], p);
        lemma_next(&s0, r, e9, &b);
        let m = choose|m: Stream<R>| #[trigger] fresh(&m, r) && parse_post(&m, 0, true, e9, &b);
        lemma_cut(r, h, u);
        if cut(r, h) { lemma_sdec_cut(&m, &b, d as nat, f.v->Enum_0 as int, desc_byte(p)); }
        else { lemma_enum(s0, f, s1, tag, d, after(r, h)); }
        after(r, h)
    }
    pub proof fn lemma_no_end_cut<R: Dev>(a: Stream<R>, b: Stream<R>, w: Seq<u8>, tag: u8, r: Seq<u8>)
        requires ready(&a, r), starts(w, tag), r.len() > 0 ==> r[0] == w[0], endp(&a, &b)
        ensures false
    {
        if r.len() == 0 { assert(r =~= Seq::empty()); if next_post(&a, true, Ev::EndOfStruct, &b) { lemma_void(a, b, Ev::EndOfStruct); } else { lemma_void(a, b, Ev::EndOfDoc); } }
        else {
            let t = r.skip(1);
            assert(r =~= seq![r[0]] + t);
            lemma_no_end(a, b, seq![r[0]], tag, t);
        }
    }
    pub proof fn lemma_tag_cut<R: Dev>(a: Stream<R>, f: Fx<R>, s1: Stream<R>, w: Seq<u8>, tag: u8, r: Seq<u8>)
        requires ready(&a, r), starts(w, tag), cut(r, w), hand(a, f, s1)
        ensures f.tag == tag
    {
        if r.len() == 0 { assert(r =~= Seq::empty()); lemma_void(a, handed(f, s1), Ev::Field { tag: f.tag, pos: f.pos, depth: f.depth, value: f.v }); }
        lemma_cut0(r, w);
        let t = r.skip(1);
        assert(r =~= seq![r[0]] + t);
        lemma_tag(a, f, s1, seq![r[0]], tag, t);
    }

    // ---- bodies: the parts written, one after the other, are the steps read ------------------------------
    pub trait RS<R: Dev> : DStep<R> {
        type W;
        spec fn total(w: Self::W) -> nat;
        spec fn chunk(w: Self::W, p: int) -> Seq<u8>;
        spec fn inv(w: Self::W, a: Self::A, p: int) -> bool;
        spec fn tag_of(w: Self::W, p: int) -> u8;
        proof fn rs_tag(w: Self::W, p: int) requires 0 <= p < Self::total(w) ensures starts(Self::chunk(w, p), Self::tag_of(w, p));
        proof fn rs_step(w: Self::W, x: Bx<R>, a: Self::A, b: Self::A, p: int, t: Seq<u8>)
            requires 0 <= p < Self::total(w), Self::inv(w, a, p), ready(&x.s0, Self::chunk(w, p) + t), Self::st(x, a, b)
            ensures Self::inv(w, b, p + 1), ready(&x.s1, t);
        proof fn rs_stop(w: Self::W, x: Bx<R>, a: Self::A, b: Self::A, t: Seq<u8>)
            requires ready(&x.s0, e_end() + t), Self::st(x, a, b) ensures false;
        proof fn rs_cut(w: Self::W, x: Bx<R>, a: Self::A, b: Self::A, p: int, r: Seq<u8>)
            requires 0 <= p < Self::total(w), Self::inv(w, a, p), ready(&x.s0, r), cut(r, Self::chunk(w, p)), Self::st(x, a, b) ensures false;
        proof fn rs_void(w: Self::W, x: Bx<R>, a: Self::A, b: Self::A) requires ready(&x.s0, Seq::empty()), Self::st(x, a, b) ensures false;
    }
    /// the chunks from p on
    pub open spec fn stail<R: Dev, S: RS<R>>(w: S::W, p: int) -> Seq<u8> decreases S::total(w) - p {
        if p >= S::total(w) { Seq::empty() } else { S::chunk(w, p) + stail::<R, S>(w, p + 1) }
    }
    proof fn lemma_steps<R: Dev, S: RS<R>>(n: nat, w: S::W, x: Bx<R>, a: S::A, b: S::A, t: Seq<u8>)
        requires steps::<R, S>(n, x, a, b), S::inv(w, a, 0), ready(&x.s0, stail::<R, S>(w, 0) + e_end() + t)
        ensures n <= S::total(w), S::inv(w, b, n as int), ready(&x.s1, stail::<R, S>(w, n as int) + e_end() + t)
        decreases n
    {
        reveal_with_fuel(steps, 2);
        if n > 0 {
            let (m, h, c) = choose|m: Stream<R>, h: Bud, c: S::A| steps::<R, S>((n - 1) as nat, Bx { s1: m, h1: h, ..x }, a, c) && #[trigger] S::st(Bx { s0: m, h0: h, ..x }, c, b);
            let p = n - 1;
            lemma_steps::<R, S>((n - 1) as nat, w, Bx { s1: m, h1: h, ..x }, a, c, t);
            let y = Bx { s0: m, h0: h, ..x };
            if p == S::total(w) {
                assert(stail::<R, S>(w, p) + e_end() + t =~= e_end() + t);
                S::rs_stop(w, y, c, b, t);
            } else {
                let u = stail::<R, S>(w, p + 1) + e_end() + t;
                assert(stail::<R, S>(w, p) + e_end() + t =~= S::chunk(w, p) + u);
                S::rs_step(w, y, c, b, p, u);
            }
        }
    }
    pub proof fn lemma_rt_dbody<R: Dev, S: RS<R>>(w: S::W, x: Bx<R>, a: S::A, b: S::A, t: Seq<u8>)
        requires dbody::<R, S>(x, a, b), S::inv(w, a, 0), ready(&x.s0, stail::<R, S>(w, 0) + e_end() + t)
        ensures S::inv(w, b, S::total(w) as int), ready(&x.s1, t)
    {
        reveal(dbody);
        let (n, m) = choose|n: nat, m: Stream<R>| #[trigger] steps::<R, S>(n, Bx { s1: m, ..x }, a, b) && endp(&m, &x.s1);
        lemma_steps::<R, S>(n, w, Bx { s1: m, ..x }, a, b, t);
        let p = n as int;
        if p < S::total(w) {
            let u = stail::<R, S>(w, p + 1) + e_end() + t;
            assert(stail::<R, S>(w, p) + e_end() + t =~= S::chunk(w, p) + u);
            S::rs_tag(w, p);
            lemma_no_end(m, x.s1, S::chunk(w, p), S::tag_of(w, p), u);
        } else {
            assert(stail::<R, S>(w, p) + e_end() + t =~= e_end() + t);
            lemma_ends(m, x.s1, t);
        }
    }
    /// what is left is cut short
    pub open spec fn left<R: Dev>(s: Stream<R>, w: Seq<u8>) -> bool { exists|q: Seq<u8>| #[trigger] ready(&s, q) && cut(q, w) }
    /// no body can be read from less than was written
    proof fn lemma_steps_cut<R: Dev, S: RS<R>>(n: nat, w: S::W, x: Bx<R>, a: S::A, b: S::A)
        requires steps::<R, S>(n, x, a, b), S::inv(w, a, 0), left(x.s0, stail::<R, S>(w, 0) + e_end())
        ensures n <= S::total(w), S::inv(w, b, n as int), left(x.s1, stail::<R, S>(w, n as int) + e_end())
        decreases n
    {
        reveal_with_fuel(steps, 2);
        if n > 0 {
            let (m, h, c) = choose|m: Stream<R>, h: Bud, c: S::A| steps::<R, S>((n - 1) as nat, Bx { s1: m, h1: h, ..x }, a, c) && #[trigger] S::st(Bx { s0: m, h0: h, ..x }, c, b);
            let p = n - 1;
            lemma_steps_cut::<R, S>((n - 1) as nat, w, Bx { s1: m, h1: h, ..x }, a, c);
            let q = choose|q: Seq<u8>| #[trigger] ready(&m, q) && cut(q, stail::<R, S>(w, p) + e_end());
            let y = Bx { s0: m, h0: h, ..x };
            if p == S::total(w) {
                assert(stail::<R, S>(w, p) + e_end() =~= e_end());
                assert(q =~= Seq::empty());
                S::rs_void(w, y, c, b);
            } else {
                let u = stail::<R, S>(w, p + 1) + e_end();
                assert(stail::<R, S>(w, p) + e_end() =~= S::chunk(w, p) + u);
                lemma_cut(q, S::chunk(w, p), u);
                if cut(q, S::chunk(w, p)) { S::rs_cut(w, y, c, b, p, q); }
                let z = after(q, S::chunk(w, p));
                S::rs_step(w, y, c, b, p, z);
                assert(ready(&x.s1, z) && cut(z, u));
            }
        }
    }
    pub proof fn lemma_cut_dbody<R: Dev, S: RS<R>>(w: S::W, x: Bx<R>, a: S::A, b: S::A, r: Seq<u8>)
        requires dbody::<R, S>(x, a, b), S::inv(w, a, 0), ready(&x.s0, r), cut(r, stail::<R, S>(w, 0) + e_end())
        ensures false
    {
        reveal(dbody);
        let (n, m) = choose|n: nat, m: Stream<R>| #[trigger] steps::<R, S>(n, Bx { s1: m, ..x }, a, b) && endp(&m, &x.s1);
        assert(left(x.s0, stail::<R, S>(w, 0) + e_end()));
        lemma_steps_cut::<R, S>(n, w, Bx { s1: m, ..x }, a, b);
        let p = n as int;
        let q = choose|q: Seq<u8>| #[trigger] ready(&m, q) && cut(q, stail::<R, S>(w, p) + e_end());
        if p < S::total(w) {
            let u = stail::<R, S>(w, p + 1) + e_end();
            assert(stail::<R, S>(w, p) + e_end() =~= S::chunk(w, p) + u);
            S::rs_tag(w, p);
            lemma_cut0(q, S::chunk(w, p) + u);
            lemma_no_end_cut(m, x.s1, S::chunk(w, p), S::tag_of(w, p), q);
        } else {
            assert(stail::<R, S>(w, p) + e_end() =~= e_end());
            assert(q =~= Seq::empty());
            if next_post(&m, true, Ev::EndOfStruct, &x.s1) { lemma_void(m, x.s1, Ev::EndOfStruct); } else { lemma_void(m, x.s1, Ev::EndOfDoc); }
        }
    }

    // ---- one type --------------------------------------------------------------------------------------
    pub trait RVal<R: Dev, STYLE> : DElem<R, STYLE> + Serialize {
        /// how many times the field occurs, and each occurrence
        spec fn np(&self) -> nat;
        spec fn part(&self, tag: u8, i: int) -> Seq<u8>;
        /// the accumulator after i of them
        spec fn at(&self, a: Self::A, i: int) -> bool;
        spec fn eqv(&self, v: Self) -> bool;
    }
    pub open spec fn ptail<R: Dev, STYLE, T: RVal<R, STYLE>>(w: &T, tag: u8, i: int) -> Seq<u8> decreases w.np() - i {
        if i >= w.np() { Seq::empty() } else { w.part(tag, i) + ptail::<R, STYLE, T>(w, tag, i + 1) }
    }
    pub trait RT<R: Dev, STYLE> : RVal<R, STYLE> {
        proof fn rt_field(&self, tag: u8) requires 1 <= tag <= 63 ensures self.s_field(tag) == ptail::<R, STYLE, Self>(self, tag, 0);
        proof fn rt_part(&self, tag: u8, i: int) requires 1 <= tag <= 63, 0 <= i < self.np() ensures starts(self.part(tag, i), tag);
        proof fn rt_0(&self, a: Self::A) requires a.dfl() ensures self.at(a, 0);
        proof fn rt_step(&self, x: Fx<R>, a: Self::A, b: Self::A, s0: Stream<R>, s1: Stream<R>, tag: u8, i: int, t: Seq<u8>)
            requires 1 <= tag <= 63, 0 <= i < self.np(), self.at(a, i), ready(&s0, self.part(tag, i) + t), hand(s0, x, s1), Self::d_field(x, a, b)
            ensures self.at(b, i + 1), ready(&s1, t);
        proof fn rt_cut(&self, x: Fx<R>, a: Self::A, b: Self::A, s0: Stream<R>, s1: Stream<R>, tag: u8, i: int, r: Seq<u8>)
            requires 1 <= tag <= 63, 0 <= i < self.np(), self.at(a, i), ready(&s0, r), cut(r, self.part(tag, i)), hand(s0, x, s1), Self::d_field(x, a, b)
            ensures false;
        proof fn rt_fin(&self, a: Self::A, v: Self) requires self.at(a, self.np() as int), Self::d_full(a), Self::d_fin(a, v) ensures self.eqv(v);
    }
    /// the value as an element, as a body, and sequences of such values
    pub trait RE<R: Dev, STYLE> : RT<R, STYLE> {
        proof fn rt_elem(&self, x: Fx<R>, v: Self, s0: Stream<R>, s1: Stream<R>, tag: u8, t: Seq<u8>)
            requires 1 <= tag <= 63, ready(&s0, self.s_elem(tag) + t), hand(s0, x, s1), Self::d_elem(x, v)
            ensures self.eqv(v), ready(&s1, t);
        proof fn rt_estart(&self, tag: u8) requires 1 <= tag <= 63 ensures starts(self.s_elem(tag), tag);
        proof fn rt_body(&self, x: Bx<R>, v: Self, t: Seq<u8>)
            requires ready(&x.s0, self.s_body() + t), Self::d_body(x, v)
            ensures self.eqv(v), ready(&x.s1, t);
        /// the special form of a sequence
        proof fn rt_special(s: Seq<Self>, tag: u8) ensures Self::s_slice(s, tag) is Some <==> Self::d_special(),
            Self::s_slice(s, tag) is Some && 1 <= tag <= 63 ==> starts(Self::s_slice(s, tag)->0, tag);
        proof fn rt_slice(s: Seq<Self>, x: Fx<R>, v: Seq<Self>, owned: bool, s0: Stream<R>, s1: Stream<R>, tag: u8, t: Seq<u8>)
            requires 1 <= tag <= 63, Self::s_slice(s, tag) is Some, ready(&s0, Self::s_slice(s, tag)->0 + t), hand(s0, x, s1), Self::d_seq(x, v, owned)
            ensures s.len() == v.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).eqv(v[i]), ready(&s1, t);
        proof fn rt_elem_cut(&self, x: Fx<R>, v: Self, s0: Stream<R>, s1: Stream<R>, tag: u8, r: Seq<u8>)
            requires 1 <= tag <= 63, ready(&s0, r), cut(r, self.s_elem(tag)), hand(s0, x, s1), Self::d_elem(x, v) ensures false;
        proof fn rt_body_cut(&self, x: Bx<R>, v: Self, r: Seq<u8>)
            requires ready(&x.s0, r), cut(r, self.s_body()), Self::d_body(x, v) ensures false;
        proof fn rt_slice_cut(s: Seq<Self>, x: Fx<R>, v: Seq<Self>, owned: bool, s0: Stream<R>, s1: Stream<R>, tag: u8, r: Seq<u8>)
            requires 1 <= tag <= 63, Self::s_slice(s, tag) is Some, ready(&s0, r), cut(r, Self::s_slice(s, tag)->0), hand(s0, x, s1), Self::d_seq(x, v, owned) ensures false;
    }
    pub open spec fn clamp(p: int, n: nat) -> int { if p < 0 { 0 } else if p > n { n as int } else { p } }
    /// where the chunks off.. of a body are the parts of one field
    pub proof fn lemma_tails<R: Dev, STYLE, S: RS<R>, T: RT<R, STYLE>>(w: S::W, f: &T, tag: u8, off: int, i: int)
        requires 0 <= i <= f.np(), 0 <= off, off + f.np() <= S::total(w), forall|j: int| 0 <= j < f.np() ==> S::chunk(w, off + j) == #[trigger] f.part(tag, j)
        ensures stail::<R, S>(w, off + i) == ptail::<R, STYLE, T>(f, tag, i) + stail::<R, S>(w, off + f.np())
        decreases f.np() - i
    {
        if i == f.np() { assert(Seq::<u8>::empty() + stail::<R, S>(w, off + i) =~= stail::<R, S>(w, off + i)); }
        else {
            lemma_tails::<R, STYLE, S, T>(w, f, tag, off, i + 1);
            assert(S::chunk(w, off + i) == f.part(tag, i));
            assert(stail::<R, S>(w, off + i) == S::chunk(w, off + i) + stail::<R, S>(w, off + i + 1));
            assert(ptail::<R, STYLE, T>(f, tag, i) == f.part(tag, i) + ptail::<R, STYLE, T>(f, tag, i + 1));
            b_assoc(f.part(tag, i), ptail::<R, STYLE, T>(f, tag, i + 1), stail::<R, S>(w, off + f.np()));
        }
    }
    impl<R: Dev, STYLE, F0: RT<R, STYLE>> RS<R> for Ts<STYLE, (F0,)> {
        type W = (F0,);
        open spec fn total(w: (F0,)) -> nat { w.0.np() }
        open spec fn chunk(w: (F0,), p: int) -> Seq<u8> { w.0.part(1, p) }
        open spec fn inv(w: (F0,), a: Self::A, p: int) -> bool { w.0.at(a.0, p) }
        open spec fn tag_of(w: (F0,), p: int) -> u8 { 1 }
        proof fn rs_tag(w: (F0,), p: int) { w.0.rt_part(1, p); }
        proof fn rs_step(w: (F0,), x: Bx<R>, a: Self::A, b: Self::A, p: int, t: Seq<u8>) {
            reveal(got);
            let f = choose|f: Fx<R>| #[trigger] got(x, f, 1) && (if f.tag == 1 { F0::d_field(f, a.0, b.0) } else { b.0 == a.0 });
            w.0.rt_part(1, p);
            lemma_tag(x.s0, f, x.s1, w.0.part(1, p), 1, t);
            w.0.rt_step(f, a.0, b.0, x.s0, x.s1, 1, p, t);
        }
        proof fn rs_stop(w: (F0,), x: Bx<R>, a: Self::A, b: Self::A, t: Seq<u8>) {
            reveal(got);
            let f = choose|f: Fx<R>| #[trigger] got(x, f, 1) && (if f.tag == 1 { F0::d_field(f, a.0, b.0) } else { b.0 == a.0 });
            lemma_no_field(x.s0, f, x.s1, t);
        }
        proof fn rs_cut(w: (F0,), x: Bx<R>, a: Self::A, b: Self::A, p: int, r: Seq<u8>) {
            reveal(got);
            let f = choose|f: Fx<R>| #[trigger] got(x, f, 1) && (if f.tag == 1 { F0::d_field(f, a.0, b.0) } else { b.0 == a.0 });
            w.0.rt_part(1, p);
            lemma_tag_cut(x.s0, f, x.s1, w.0.part(1, p), 1, r);
            w.0.rt_cut(f, a.0, b.0, x.s0, x.s1, 1, p, r);
        }
        proof fn rs_void(w: (F0,), x: Bx<R>, a: Self::A, b: Self::A) {
            reveal(got);
            let f = choose|f: Fx<R>| #[trigger] got(x, f, 1) && (if f.tag == 1 { F0::d_field(f, a.0, b.0) } else { b.0 == a.0 });
            lemma_void_field(x.s0, f, x.s1);
        }
    }
    pub proof fn lemma_void_field<R: Dev>(s0: Stream<R>, f: Fx<R>, s1: Stream<R>) requires ready(&s0, Seq::empty()), hand(s0, f, s1) ensures false
    { lemma_void(s0, handed(f, s1), Ev::Field { tag: f.tag, pos: f.pos, depth: f.depth, value: f.v }); }
    /// less than a body with the value as field 1
    pub proof fn lemma_cut_body1<R: Dev, STYLE, T: RT<R, STYLE>>(w: T, x: Bx<R>, v: T, r: Seq<u8>)
        requires ready(&x.s0, r), cut(r, w.s_field(1) + e_end()), body1::<R, STYLE, T>(x, v)
        ensures false
    {
        let (a, b) = choose|a: T::A, b: T::A| #[trigger] dbody::<R, Ts<STYLE, (T,)>>(x, (a,), (b,)) && a.dfl() && T::d_full(b) && T::d_fin(b, v) && may_push(x.cx);
        w.rt_0(a); w.rt_field(1);
        lemma_tails::<R, STYLE, Ts<STYLE, (T,)>, T>((w,), &w, 1, 0, 0);
        assert(stail::<R, Ts<STYLE, (T,)>>((w,), 0) =~= w.s_field(1));
        lemma_cut_dbody::<R, Ts<STYLE, (T,)>>((w,), x, (a,), (b,), r);
    }
    pub proof fn lemma_cut_sbody1<R: Dev, STYLE, T: RT<R, STYLE>>(w: T, x: Fx<R>, v: T, s0: Stream<R>, s1: Stream<R>, tag: u8, r: Seq<u8>)
        requires 1 <= tag <= 63, ready(&s0, r), cut(r, e_struct(tag) + w.s_field(1) + e_end()), hand(s0, x, s1), sbody1::<R, STYLE, T>(x, v)
        ensures false
    {
        let u = w.s_field(1) + e_end();
        assert(e_struct(tag) + w.s_field(1) + e_end() =~= e_struct(tag) + u);
        let q = lemma_struct_cut(s0, x, s1, tag, u, r);
        lemma_cut_body1::<R, STYLE, T>(w, inside(x), v, q);
    }
    /// a body with the value as field 1
    pub proof fn lemma_rt_body1<R: Dev, STYLE, T: RT<R, STYLE>>(w: T, x: Bx<R>, v: T, t: Seq<u8>)
        requires ready(&x.s0, w.s_field(1) + e_end() + t), body1::<R, STYLE, T>(x, v)
        ensures w.eqv(v), ready(&x.s1, t)
    {
        let (a, b) = choose|a: T::A, b: T::A| #[trigger] dbody::<R, Ts<STYLE, (T,)>>(x, (a,), (b,)) && a.dfl() && T::d_full(b) && T::d_fin(b, v) && may_push(x.cx);
        w.rt_0(a); w.rt_field(1);
        lemma_tails::<R, STYLE, Ts<STYLE, (T,)>, T>((w,), &w, 1, 0, 0);
        assert(stail::<R, Ts<STYLE, (T,)>>((w,), 0) =~= w.s_field(1));
        lemma_rt_dbody::<R, Ts<STYLE, (T,)>>((w,), x, (a,), (b,), t);
        w.rt_fin(b, v);
    }
    /// a struct holding such a body
    pub proof fn lemma_rt_sbody1<R: Dev, STYLE, T: RT<R, STYLE>>(w: T, x: Fx<R>, v: T, s0: Stream<R>, s1: Stream<R>, tag: u8, t: Seq<u8>)
        requires 1 <= tag <= 63, ready(&s0, e_struct(tag) + w.s_field(1) + e_end() + t), hand(s0, x, s1), sbody1::<R, STYLE, T>(x, v)
        ensures w.eqv(v), ready(&s1, t)
    {
        let u = w.s_field(1) + e_end() + t;
        assert(e_struct(tag) + w.s_field(1) + e_end() + t =~= e_struct(tag) + u);
        lemma_struct(s0, x, s1, tag, u);
        lemma_rt_body1::<R, STYLE, T>(w, inside(x), v, t);
    }
    pub proof fn lemma_starts(ty: DescriptorType, tag: u8, r: Seq<u8>)
        requires 1 <= tag <= 63 ensures starts(field_desc(ty, tag) + r, tag)
    { assert((field_desc(ty, tag) + r)[0] == desc_byte(ParsedDescriptor::Pair(ty, tag))); }
    pub proof fn lemma_one_part<R: Dev, STYLE, T: RVal<R, STYLE>>(w: &T, tag: u8)
        requires w.np() == 1 ensures ptail::<R, STYLE, T>(w, tag, 0) == w.part(tag, 0)
    { reveal_with_fuel(ptail, 3); assert(w.part(tag, 0) + Seq::<u8>::empty() =~= w.part(tag, 0)); }
}
