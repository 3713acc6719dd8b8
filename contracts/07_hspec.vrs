// Specification of the value layer: what the serialisers write (hand-written; no fourleaf code here).
pub mod hspec {
    use vstd::prelude::*;
    use crate::vio::*;
    use crate::wspec::*;
    use crate::sspec::*;
    use crate::wire::*;
    use crate::stream::{Stream, Nd, CommitOp};
    use crate::ser::Serialize;
    broadcast use {crate::vio::vio_lemmas, crate::sspec::sspec_lemmas};
    /// nothing left to do but clear a blob that has been written in full
    pub open spec fn settled<R: Dev>(s: &Stream<R>) -> bool { s.commit is None || (is_check(s.commit) && s.pos == s.blob_end) }
    /// pending work finished, exactly w written, nothing pending any more
    #[verifier::prophetic]
    pub open spec fn done_op<R: Dev>(a: &Stream<R>, b: &Stream<R>, w: Seq<u8>) -> bool {
        ||| w.len() == 0 && *b == *a
        ||| exists|m: Stream<R>| #[trigger] commit_ok(a, &m) && swr0(&m, b, w) && settled(b)
    }
    pub proof fn lemma_settled<R: Dev>(b: &Stream<R>, m: &Stream<R>)
        requires settled(b), commit_ok(b, m)
        ensures *m == (Stream { commit: None::<Nd<CommitOp>>, ..*b })
    {
        match b.commit {
            None => {},
            Some(Nd(op)) => {
                let x = choose|x: Stream<R>| #[trigger] op_post(op, b, &x, Ok(())) && *m == (Stream { commit: None::<Nd<CommitOp>>, ..x });
                assert(op == CommitOp::check_at_end_of_blob);
                assert(check_post(b, &x, Ok(())));
            }
        }
    }
    pub broadcast proof fn b_done_trans<R: Dev>(a: &Stream<R>, b: &Stream<R>, c: &Stream<R>, x: Seq<u8>, y: Seq<u8>)
        requires #[trigger] done_op(a, b, x), #[trigger] done_op(b, c, y)
        ensures done_op(a, c, x + y)
    {
        if x.len() == 0 && *b == *a { assert(x + y =~= y); }
        else if y.len() == 0 && *c == *b { assert(x + y =~= x); }
        else {
            let m = choose|m: Stream<R>| #[trigger] commit_ok(a, &m) && swr0(&m, b, x) && settled(b);
            let n = choose|n: Stream<R>| #[trigger] commit_ok(b, &n) && swr0(&n, c, y) && settled(c);
            lemma_settled(b, &n);
            m.inner.frame_trans(&b.inner, &c.inner);
            splice_splice(m.inner.data(), m.inner.cur(), x, b.inner.cur(), y);
            assert(swr0(&m, c, x + y));
        }
    }
    /// the same relation, from one fixed start: a long sequence of operations is added up from the left only
    #[verifier::prophetic]
    pub closed spec fn acc<R: Dev>(a: &Stream<R>, b: &Stream<R>, w: Seq<u8>) -> bool { done_op(a, b, w) }
    pub proof fn acc0<R: Dev>(a: &Stream<R>) ensures acc(a, a, Seq::empty()) { }
    pub broadcast proof fn b_acc<R: Dev>(a: &Stream<R>, b: &Stream<R>, c: &Stream<R>, x: Seq<u8>, y: Seq<u8>)
        requires #[trigger] acc(a, b, x), #[trigger] done_op(b, c, y)
        ensures acc(a, c, x + y)
    { b_done_trans(a, b, c, x, y); }
    pub broadcast proof fn b_acc_fin<R: Dev>(a: &Stream<R>, b: &Stream<R>, x: Seq<u8>)
        requires #[trigger] acc(a, b, x)
        ensures #[trigger] done_op(a, b, x)
    { }
    pub proof fn lemma_done_ready<R: Dev>(a: &Stream<R>, b: &Stream<R>, x: Seq<u8>, n: int)
        requires swf(a), done_op(a, b, x), wready(a, x.len() + n)
        ensures wready(b, n)
    {
        reveal(wready);
        if x.len() == 0 && *b == *a { }
        else {
            let m = choose|m: Stream<R>| #[trigger] commit_ok(a, &m) && swr0(&m, b, x) && settled(b);
            lemma_commit_calm(a, &m);
            m.inner.frame_sound(&b.inner);
        }
    }
    /// after writing nothing is in the way of a commit, unless something already was
    pub broadcast proof fn b_done_fresh<R: Dev>(a: &Stream<R>, b: &Stream<R>, x: Seq<u8>)
        requires swf(a), #[trigger] done_op(a, b, x)
        ensures calm(a) || x.len() > 0 ==> calm(b), wready(a, x.len() as int) ==> wready(b, 0)
    {
        if wready(a, x.len() as int) { lemma_done_ready(a, b, x, 0); }
        if x.len() == 0 && *b == *a { }
        else { let m = choose|m: Stream<R>| #[trigger] commit_ok(a, &m) && swr0(&m, b, x) && settled(b); }
    }
    /// what has been written so far took no more room than it needs
    pub closed spec fn tight<R: Dev>(a: &Stream<R>, n: int) -> bool { !wready(a, n) }
    pub broadcast proof fn b_acc_ready<R: Dev>(a: &Stream<R>, b: &Stream<R>, x: Seq<u8>, n: int)
        requires swf(a), #[trigger] acc(a, b, x)
        ensures !(#[trigger] wready(b, n)) ==> tight(a, x.len() + n)
    { if wready(a, x.len() + n) { lemma_done_ready(a, b, x, n); } }
    pub broadcast proof fn b_tight<R: Dev>(a: &Stream<R>, k: int, n: int)
        requires #[trigger] tight(a, k), k <= n ensures !#[trigger] wready(a, n)
    { reveal(wready); }
    pub proof fn lemma_cat_elems<T: Serialize>(x: Seq<T>, tag: u8, i: nat, n: nat)
        requires i < n ensures cat_elems(x, tag, i).len() + x[i as int].s_elem(tag).len() <= cat_elems(x, tag, n).len() decreases n
    { if i + 1 < n { lemma_cat_elems(x, tag, i, (n - 1) as nat); } }
    pub proof fn lemma_cat_refs<T: Serialize>(x: Seq<&T>, tag: u8, i: nat, n: nat)
        requires i < n ensures cat_refs(x, tag, i).len() + x[i as int].s_elem(tag).len() <= cat_refs(x, tag, n).len() decreases n
    { if i + 1 < n { lemma_cat_refs(x, tag, i, (n - 1) as nat); } }
    pub proof fn lemma_cat_pairs<K: Serialize, V: Serialize>(x: Seq<(&K, &V)>, tag: u8, i: nat, n: nat)
        requires i < n
        ensures cat_pairs(x, tag, i).len() + e_struct(tag).len() + x[i as int].0.s_field(1).len() + x[i as int].1.s_field(2).len() + e_end().len() <= cat_pairs(x, tag, n).len()
        decreases n
    { if i + 1 < n { lemma_cat_pairs(x, tag, i, (n - 1) as nat); } }
    pub broadcast group hspec_acc { b_acc_ready, b_tight, b_cat0, b_acc, b_acc_fin }
    pub broadcast proof fn b_done_wr<R: Dev>(a: &Stream<R>, b: &Stream<R>, w: Seq<u8>)
        requires #[trigger] wr_op(a, b, w), b.commit is None
        ensures done_op(a, b, w)
    { }
    pub broadcast proof fn b_done_alloc<R: Dev>(a: &Stream<R>, b: &Stream<R>, desc: Seq<u8>, len: u64, w: Seq<u8>)
        requires #[trigger] alloc_op(a, b, desc, len, w), b.pos == b.blob_end
        ensures done_op(a, b, desc + venc(len as nat) + w)
    { }
    pub broadcast proof fn b_cat0(s: Seq<u8>) ensures #[trigger] (Seq::<u8>::empty() + s) == s { assert(Seq::<u8>::empty() + s =~= s); }
    pub broadcast proof fn b_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) ensures #[trigger] (a + (b + c)) == (a + b) + c { assert(a + (b + c) =~= (a + b) + c); }

    /// the slice with these elements
    pub open spec fn sl<'a, T>(v: Seq<T>) -> &'a [T] { choose|s: &[T]| s@ == v }
    pub broadcast proof fn b_sl<T>(a: &[T]) ensures #[trigger] sl(a@) == a { let b = sl(a@); assert(b@ == a@); assert(a =~= b); }

    pub broadcast proof fn b_sl_arr<T, const N: usize>(a: [T; N]) ensures #[trigger] sl(a@)@ == a@ { let s = vstd::array::spec_array_as_slice(&a); assert(s@ == a@); }

    pub open spec fn e_end() -> Seq<u8> { special_desc(SpecialType::EndOfStruct) }
    pub open spec fn e_struct(tag: u8) -> Seq<u8> { field_desc(DescriptorType::Struct, tag) }
    pub open spec fn e_enum(tag: u8, d: u64) -> Seq<u8> { field_desc(DescriptorType::Enum, tag) + venc(d as nat) }
    pub open spec fn e_blob(tag: u8, b: Seq<u8>) -> Seq<u8> { field_desc(DescriptorType::Blob, tag) + venc(b.len()) + b }

    /// n elements, one after the other, in the same field
    pub open spec fn cat_elems<T: Serialize>(x: Seq<T>, tag: u8, n: nat) -> Seq<u8> decreases n {
        if n == 0 { Seq::empty() } else { cat_elems(x, tag, (n - 1) as nat) + x[n - 1].s_elem(tag) }
    }
    pub open spec fn cat_refs<T: Serialize>(x: Seq<&T>, tag: u8, n: nat) -> Seq<u8> decreases n {
        if n == 0 { Seq::empty() } else { cat_refs(x, tag, (n - 1) as nat) + x[n - 1].s_elem(tag) }
    }
    pub open spec fn cat_pairs<K: Serialize, V: Serialize>(x: Seq<(&K, &V)>, tag: u8, n: nat) -> Seq<u8> decreases n {
        if n == 0 { Seq::empty() } else { cat_pairs(x, tag, (n - 1) as nat) + e_struct(tag) + x[n - 1].0.s_field(1) + x[n - 1].1.s_field(2) + e_end() }
    }
    /// a sequence in a field: the special form of its type if there is one, otherwise its elements
    pub open spec fn seq_field<T: Serialize>(x: Seq<T>, tag: u8) -> Seq<u8> {
        match T::s_slice(x, tag) { Some(b) => b, None => cat_elems(x, tag, x.len()) }
    }
    pub open spec fn seq_elem<T: Serialize>(x: Seq<T>, tag: u8) -> Seq<u8> {
        match T::s_slice(x, tag) { Some(b) => b, None => e_struct(tag) + seq_field(x, 1) + e_end() }
    }
    pub broadcast group hspec_lemmas { b_done_wr, b_done_alloc }
}
