// ---------------------------------------------------------------------------
// Ghost model of std::io.  Everything marked `external_body`, every trait method contract and
// every axiom in this file is an ASSUMPTION about the standard library / the byte device the
// caller supplies; none of it is fourleaf code.  (The impls which /repo itself gives for these
// traits are verified against the same contracts.)
// ---------------------------------------------------------------------------
pub mod vio {
    use vstd::prelude::*;

    pub struct Error { pub kind: ErrorKind }
    #[derive(Clone, Copy)]
    pub enum ErrorKind { Other, InvalidInput, InvalidData, UnexpectedEof, WriteZero, Interrupted }
    pub type Result<T> = core::result::Result<T, Error>;
    impl Error {
        pub fn new(kind: ErrorKind, msg: &'static str) -> (r: Error) ensures r.kind == kind { Error { kind } }
    }
    #[derive(Clone, Copy)]
    pub enum SeekFrom { Start(u64), End(i64), Current(i64) }

    /// no object in memory is as large as this (Rust: at most isize::MAX = 2^63 - 1 bytes)
    pub spec const MEMMAX: int = 0x8000_0000_0000_0000;
    // A byte device: `data()` is the whole byte string behind the device, `cur()` its cursor.
    // `off()` is the tracked position minus the cursor (constant through reads and writes),
    // `eof_byte()` the byte a graceful-EOF tracker synthesises once the input has ended.
    pub trait Dev {
        spec fn data(&self) -> Seq<u8>;
        spec fn cur(&self) -> nat;
        // nothing at or beyond this index is readable or writable
        spec fn lim(&self) -> int;
        spec fn off(&self) -> int;
        spec fn eof_byte(&self) -> Option<u8>;
        // how many bytes the last fill_buf() showed and have not been consumed yet
        spec fn buffered(&self) -> nat;
        // origin and end for Seek
        spec fn sbase(&self) -> int;
        spec fn send(&self) -> int;
        spec fn wf(&self) -> bool;
        // the device never fails of its own accord (a transfer stops only at `lim()`)
        spec fn sound(&self) -> bool;
        // whether Seek reaches position t
        spec fn seekable(&self, t: int) -> bool;
        #[verifier::prophetic]
        spec fn frame(&self, post: &Self) -> bool;
        proof fn frame_sound(&self, b: &Self)
            requires self.frame(b), b.off() == self.off() ensures b.sound() == self.sound(), forall|t: int| #[trigger] b.seekable(t) == self.seekable(t);
        proof fn frame_refl(&self) ensures self.frame(self);
        proof fn frame_trans(&self, b: &Self, c: &Self)
            requires self.frame(b), b.frame(c) ensures self.frame(c);
    }

    pub broadcast proof fn b_frame_refl<D: Dev + ?Sized>(a: &D)
        ensures #[trigger] a.frame(a) { a.frame_refl() }
    pub broadcast proof fn b_frame_trans<D: Dev + ?Sized>(a: &D, b: &D, c: &D)
        requires #[trigger] a.frame(b), #[trigger] b.frame(c)
        ensures a.frame(c) { a.frame_trans(b, c) }

    pub broadcast proof fn b_arr1(a: [u8; 1]) ensures #[trigger] a@ == seq![a[0]] { assert(a@ =~= seq![a[0]]); }
    pub broadcast proof fn b_skip0(s: Seq<u8>) ensures #[trigger] s.skip(0) == s { assert(s.skip(0) =~= s); }
    pub broadcast proof fn b_frame_sound<D: Dev + ?Sized>(a: &D, b: &D)
        requires #[trigger] a.frame(b), b.off() == a.off()
        ensures #[trigger] b.sound() == a.sound() { a.frame_sound(b) }
    pub broadcast proof fn b_frame_seek<D: Dev + ?Sized>(a: &D, b: &D, t: int)
        requires #[trigger] a.frame(b), b.off() == a.off()
        ensures #[trigger] b.seekable(t) == a.seekable(t) { a.frame_sound(b) }
    /// a sound device with nothing in the way of reading
    pub open spec fn fit<D: Dev + ?Sized>(d: &D) -> bool { d.sound() && d.cur() <= d.lim() }
    /// a sound device on which n more bytes can be written
    pub open spec fn room<D: Dev + ?Sized>(d: &D, n: int) -> bool { d.sound() && d.cur() + n <= d.lim() }
    pub broadcast group vio_lemmas { b_skip0, b_frame_sound, b_frame_seek, b_frame_refl, b_frame_trans, b_splice_splice, b_arr1 }
    pub open spec fn minn(a: nat, b: nat) -> nat { if a <= b { a } else { b } }
    pub open spec fn dend<D: Dev + ?Sized>(d: &D) -> int { if d.lim() < d.data().len() { d.lim() } else { d.data().len() as int } }
    // what is still to be read
    pub open spec fn rest<D: Dev + ?Sized>(d: &D) -> Seq<u8> {
        if d.cur() <= dend(d) { d.data().subrange(d.cur() as int, dend(d)) } else { Seq::empty() }
    }
    // n bytes consumed, nothing else observable changed
    pub open spec fn rd_step<D: Dev + ?Sized>(pre: &D, post: &D, n: int) -> bool {
        &&& post.data() == pre.data() && post.cur() == pre.cur() + n && post.off() == pre.off() && post.lim() == pre.lim()
        &&& post.eof_byte() == pre.eof_byte()
    }
    // some number of bytes, at most n, consumed
    pub open spec fn rd_upto<D: Dev + ?Sized>(pre: &D, post: &D, n: int) -> bool {
        &&& post.data() == pre.data() && pre.cur() <= post.cur() <= pre.cur() + n && post.off() == pre.off() && post.lim() == pre.lim()
        &&& post.eof_byte() == pre.eof_byte()
    }
    pub open spec fn splice(d: Seq<u8>, at: nat, w: Seq<u8>) -> Seq<u8> {
        if w.len() == 0 { d } else {
            Seq::new(if d.len() >= at + w.len() { d.len() } else { at + w.len() },
                |i: int| if at <= i < at + w.len() { w[i - at] } else if i < d.len() { d[i] } else { 0u8 })
        }
    }
    // the bytes w written at the cursor, nothing else observable changed
    pub open spec fn wr_step<D: Dev + ?Sized>(pre: &D, post: &D, w: Seq<u8>) -> bool {
        &&& post.data() =~= splice(pre.data(), pre.cur(), w) && post.cur() == pre.cur() + w.len()
        &&& post.off() == pre.off() && post.lim() == pre.lim() && post.eof_byte() == pre.eof_byte()
    }
    // a prefix of w written
    pub open spec fn wr_pre<D: Dev + ?Sized>(pre: &D, post: &D, w: Seq<u8>) -> bool {
        exists |k: int| 0 <= k <= w.len() && #[trigger] wr_step(pre, post, w.take(k))
    }
    pub proof fn splice_splice(d: Seq<u8>, at: nat, a: Seq<u8>, at2: nat, b: Seq<u8>)
        requires at2 == at + a.len()
        ensures splice(splice(d, at, a), at2, b) == splice(d, at, a + b)
    {
        if a.len() == 0 { assert(a + b =~= b); }
        else if b.len() == 0 { assert(a + b =~= a); }
        else { assert(splice(splice(d, at, a), at2, b) =~= splice(d, at, a + b)); }
    }
    pub broadcast proof fn b_splice_splice(d: Seq<u8>, at: nat, a: Seq<u8>, at2: nat, b: Seq<u8>)
        requires at2 == at + a.len(), a.len() > 0
        ensures #[trigger] splice(splice(d, at, a), at2, b) == splice(d, at, a + b)
    { splice_splice(d, at, a, at2, b); }

    pub open spec fn read_ok<D: Dev + ?Sized>(pre: &D, post: &D, buf: Seq<u8>, nbuf: Seq<u8>, n: nat) -> bool {
        ||| { &&& n <= buf.len() && n <= rest(pre).len() && rd_step(pre, post, n as int)
              &&& nbuf =~= rest(pre).take(n as int) + buf.skip(n as int)
              &&& (n == 0 && buf.len() > 0 ==> rest(pre).len() == 0 && pre.eof_byte() is None) }
        ||| { &&& pre.eof_byte() is Some && rest(pre).len() == 0 && n == 1 && buf.len() > 0
              &&& rd_step(pre, post, 0) && nbuf =~= buf.update(0, pre.eof_byte()->0) }
    }
    pub open spec fn read_exact_ok<D: Dev + ?Sized>(pre: &D, post: &D, n: nat, nbuf: Seq<u8>) -> bool {
        if n <= rest(pre).len() { rd_step(pre, post, n as int) && nbuf =~= rest(pre).take(n as int) }
        else { &&& pre.eof_byte() is Some
               &&& (rest(pre).len() == 0 && n == 1 ==> rd_step(pre, post, 0) && nbuf =~= seq![pre.eof_byte()->0])
               &&& post.data() == pre.data() && post.cur() >= pre.cur() && post.off() == pre.off() && post.lim() == pre.lim()
                   && post.eof_byte() == pre.eof_byte() }
    }

    pub trait Read : Dev {
        fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>)
            requires old(self).wf(),
            ensures
                old(self).frame(final(self)), final(self).wf(),
                final(buf)@.len() == old(buf)@.len(),
                r is Err ==> rd_step(old(self), final(self), 0) && !fit(old(self)),
                r matches Ok(n) ==> read_ok(old(self), final(self), old(buf)@, final(buf)@, n as nat);
        fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<()>)
            requires old(self).wf(),
            ensures
                old(self).frame(final(self)), final(self).wf(),
                final(buf)@.len() == old(buf)@.len(),
                r is Err ==> rd_upto(old(self), final(self), minn(old(buf)@.len(), rest(old(self)).len()) as int)
                    && (!fit(old(self)) || (old(buf)@.len() > rest(old(self)).len() && old(self).eof_byte() is None)),
                r is Ok ==> read_exact_ok(old(self), final(self), old(buf)@.len(), final(buf)@)
        { vread_exact(self, buf) }
        fn read_to_end(&mut self, v: &mut Vec<u8>) -> (r: Result<usize>)
            requires old(self).wf(), old(self).eof_byte() is None,
            ensures
                old(self).frame(final(self)), final(self).wf(),
                r is Err ==> rd_upto(old(self), final(self), rest(old(self)).len() as int) && !fit(old(self)),
                r matches Ok(n) ==> n == rest(old(self)).len() && rd_step(old(self), final(self), n as int)
                    && final(v)@ == old(v)@ + rest(old(self))
        { vread_to_end(self, v) }
        fn take(self, limit: u64) -> (r: Take<Self>) where Self: Sized
            requires self.wf(), self.eof_byte() is None,
            ensures r.inner == self, r.limit == limit
        { Take { inner: self, limit } }
        fn by_ref(&mut self) -> (r: &mut Self) where Self: Sized
            ensures *r == *old(self), *final(self) == *final(r)
        { self }
    }
    // std's default methods, specified from the contract of `read`
    #[verifier::external_body]
    pub fn vread_exact<T: Dev + ?Sized>(t: &mut T, buf: &mut [u8]) -> (r: Result<()>)
        requires old(t).wf(),
        ensures
            old(t).frame(final(t)), final(t).wf(),
            final(buf)@.len() == old(buf)@.len(),
            r is Err ==> rd_upto(old(t), final(t), minn(old(buf)@.len(), rest(old(t)).len()) as int)
                && (!fit(old(t)) || (old(buf)@.len() > rest(old(t)).len() && old(t).eof_byte() is None)),
            r is Ok ==> read_exact_ok(old(t), final(t), old(buf)@.len(), final(buf)@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vread_to_end<T: Dev + ?Sized>(t: &mut T, v: &mut Vec<u8>) -> (r: Result<usize>)
        requires old(t).wf(), old(t).eof_byte() is None,
        ensures
            old(t).frame(final(t)), final(t).wf(),
            r is Err ==> rd_upto(old(t), final(t), rest(old(t)).len() as int) && !fit(old(t)),
            r matches Ok(n) ==> n == rest(old(t)).len() && rd_step(old(t), final(t), n as int)
                && final(v)@ == old(v)@ + rest(old(t))
    { unimplemented!() }

    pub trait BufRead : Read {
        fn fill_buf(&mut self) -> (r: Result<&[u8]>)
            requires old(self).wf(),
            ensures
                old(self).frame(final(self)), final(self).wf(),
                rd_step(old(self), final(self), 0), r is Err ==> !fit(old(self)),
                r matches Ok(s) ==> s@.len() <= rest(old(self)).len() && s@ == rest(old(self)).take(s@.len() as int)
                    && (s@.len() == 0 ==> rest(old(self)).len() == 0)
                    && final(self).buffered() == s@.len();
        fn consume(&mut self, amt: usize)
            requires old(self).wf(), amt <= old(self).buffered(),
            ensures
                old(self).frame(final(self)), final(self).wf(),
                rd_step(old(self), final(self), amt as int);
    }

    pub trait Write : Dev {
        fn write(&mut self, buf: &[u8]) -> (r: Result<usize>)
            requires old(self).wf(),
            ensures
                old(self).frame(final(self)), final(self).wf(),
                r is Err ==> wr_step(old(self), final(self), Seq::empty()) && !fit(old(self)),
                r matches Ok(n) ==> n <= buf@.len() && wr_step(old(self), final(self), buf@.take(n as int))
                    && (room(old(self), 1) && buf@.len() > 0 ==> n > 0);
        fn flush(&mut self) -> (r: Result<()>)
            requires old(self).wf(),
            ensures
                old(self).frame(final(self)), final(self).wf(),
                wr_step(old(self), final(self), Seq::empty()), r is Err ==> !fit(old(self));
        fn write_all(&mut self, buf: &[u8]) -> (r: Result<()>)
            requires old(self).wf(),
            ensures
                old(self).frame(final(self)), final(self).wf(),
                r is Ok ==> wr_step(old(self), final(self), buf@),
                r is Err ==> wr_pre(old(self), final(self), buf@) && !room(old(self), buf@.len() as int)
        { vwrite_all(self, buf) }
    }
    #[verifier::external_body]
    pub fn vwrite_all<T: Dev + ?Sized>(t: &mut T, buf: &[u8]) -> (r: Result<()>)
        requires old(t).wf(),
        ensures
            old(t).frame(final(t)), final(t).wf(),
            r is Ok ==> wr_step(old(t), final(t), buf@),
            r is Err ==> wr_pre(old(t), final(t), buf@) && !room(old(t), buf@.len() as int)
    { unimplemented!() }

    pub open spec fn seek_target<D: Dev + ?Sized>(d: &D, pos: SeekFrom) -> int {
        match pos { SeekFrom::Start(p) => d.sbase() + p, SeekFrom::End(o) => d.send() + o,
                    SeekFrom::Current(o) => d.cur() + o }
    }
    /// the target cannot be reached, or lies further away than an offset can express
    pub open spec fn seek_out<D: Dev + ?Sized>(d: &D, pos: SeekFrom) -> bool {
        !d.seekable(seek_target(d, pos)) || seek_target(d, pos) - d.cur() > i64::MAX || d.cur() - seek_target(d, pos) > i64::MAX
    }
    pub trait Seek : Dev {
        fn seek(&mut self, pos: SeekFrom) -> (r: Result<u64>)
            requires old(self).wf(),
            ensures
                old(self).frame(final(self)), final(self).wf(),
                r is Err ==> rd_step(old(self), final(self), 0)
                    && (!old(self).sound() || seek_out(old(self), pos)),
                r matches Ok(n) ==> rd_step(old(self), final(self), seek_target(old(self), pos) - old(self).cur())
                    && n == final(self).cur() - old(self).sbase();
    }

    pub struct Take<T> { pub inner: T, pub limit: u64 }
    impl<T: Dev> Dev for Take<T> {
        open spec fn data(&self) -> Seq<u8> { self.inner.data() }
        open spec fn lim(&self) -> int { if self.inner.lim() < self.inner.cur() + self.limit { self.inner.lim() } else { self.inner.cur() + self.limit } }
        open spec fn cur(&self) -> nat { self.inner.cur() }
        open spec fn off(&self) -> int { self.inner.off() }
        open spec fn eof_byte(&self) -> Option<u8> { None }
        open spec fn buffered(&self) -> nat { 0 }
        open spec fn sbase(&self) -> int { self.inner.sbase() }
        open spec fn send(&self) -> int { self.inner.send() }
        open spec fn wf(&self) -> bool { self.inner.wf() && self.inner.eof_byte() is None }
        open spec fn sound(&self) -> bool { self.inner.sound() }
        open spec fn seekable(&self, t: int) -> bool { self.inner.seekable(t) }
        proof fn frame_sound(&self, b: &Self) { self.inner.frame_sound(&b.inner) }
        #[verifier::prophetic]
        open spec fn frame(&self, post: &Self) -> bool {
            self.inner.frame(&post.inner)
        }
        proof fn frame_refl(&self) { self.inner.frame_refl() }
        proof fn frame_trans(&self, b: &Self, c: &Self) { self.inner.frame_trans(&b.inner, &c.inner) }
    }
    impl<T: Read> Read for Take<T> {
        #[verifier::external_body]
        fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>) { unimplemented!() }
    }

    pub struct Sink;
    #[verifier::external_body]
    pub fn sink() -> (r: Sink) ensures r.lim() - r.cur() >= u64::MAX { Sink }
    impl Dev for Sink {
        uninterp spec fn data(&self) -> Seq<u8>;
        uninterp spec fn cur(&self) -> nat;
        uninterp spec fn lim(&self) -> int;
        uninterp spec fn off(&self) -> int;
        uninterp spec fn eof_byte(&self) -> Option<u8>;
        uninterp spec fn buffered(&self) -> nat;
        uninterp spec fn sbase(&self) -> int;
        uninterp spec fn send(&self) -> int;
        open spec fn wf(&self) -> bool { true }
        open spec fn sound(&self) -> bool { true }
        open spec fn seekable(&self, t: int) -> bool { 0 <= t <= u64::MAX }
        proof fn frame_sound(&self, b: &Self) { }
        #[verifier::prophetic]
        open spec fn frame(&self, post: &Self) -> bool { true }
        proof fn frame_refl(&self) { }
        proof fn frame_trans(&self, b: &Self, c: &Self) { }
    }
    impl Write for Sink {
        #[verifier::external_body]
        fn write(&mut self, buf: &[u8]) -> (r: Result<usize>) { unimplemented!() }
        #[verifier::external_body]
        fn flush(&mut self) -> (r: Result<()>) { unimplemented!() }
    }

    #[verifier::external_body]
    pub fn copy<R: Read + ?Sized, W: Write + ?Sized>(r: &mut R, w: &mut W) -> (res: Result<u64>)
        requires old(r).wf(), old(r).eof_byte() is None, old(w).wf(),
        ensures
            old(r).frame(final(r)), final(r).wf(), old(w).frame(final(w)), final(w).wf(),
            res matches Ok(n) ==> n == rest(old(r)).len() && rd_step(old(r), final(r), n as int)
                && wr_step(old(w), final(w), rest(old(r))),
            res is Err ==> (!fit(old(r)) || !room(old(w), rest(old(r)).len() as int)) && rd_upto(old(r), final(r), rest(old(r)).len() as int)
                && wr_pre(old(w), final(w), rest(old(r)))
    { unimplemented!() }

    pub trait AsRefU8 { spec fn bytes(&self) -> Seq<u8>;
        fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.bytes(); }

    pub trait AsMutU8 { spec fn mbytes(&self) -> Seq<u8>;
        fn as_mut(&mut self) -> (r: &mut [u8]) ensures r@ == old(self).mbytes(), final(self).mbytes() == final(r)@, final(r)@.len() == r@.len(); }
    impl<'a> AsRefU8 for &'a [u8] { open spec fn bytes(&self) -> Seq<u8> { (**self)@ } fn as_ref(&self) -> (r: &[u8]) { *self } }
    impl AsRefU8 for String { open spec fn bytes(&self) -> Seq<u8> { vstd::utf8::encode_utf8(self@) } #[verifier::external_body] fn as_ref(&self) -> (r: &[u8]) { unimplemented!() } }
    impl AsRefU8 for str { open spec fn bytes(&self) -> Seq<u8> { vstd::utf8::encode_utf8(self@) } #[verifier::external_body] fn as_ref(&self) -> (r: &[u8]) { unimplemented!() } }
    impl AsRefU8 for Vec<u8> { open spec fn bytes(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn as_ref(&self) -> (r: &[u8]) { unimplemented!() } }

    pub uninterp spec fn owned_ref<T: ?Sized + ToOwned>(o: T::Owned) -> &'static T;
    pub open spec fn cow_at<'b, 'a, T: ?Sized + ToOwned>(c: &'b std::borrow::Cow<'a, T>) -> &'b T { match *c { std::borrow::Cow::Borrowed(b) => b, std::borrow::Cow::Owned(o) => owned_ref::<T>(o) } }
    #[verifier::external_body] pub fn cow_borrow<'b, 'a, T: ?Sized + ToOwned>(c: &'b std::borrow::Cow<'a, T>) -> (r: &'b T) ensures r == cow_at(c) { unimplemented!() }
    pub open spec fn cow_bytes(c: std::borrow::Cow<'_, [u8]>) -> Seq<u8> { match c { std::borrow::Cow::Borrowed(b) => b@, std::borrow::Cow::Owned(o) => o@ } }
    impl<'a> AsRefU8 for std::borrow::Cow<'a, [u8]> { open spec fn bytes(&self) -> Seq<u8> { cow_bytes(*self) } #[verifier::external_body] fn as_ref(&self) -> (r: &[u8]) { unimplemented!() } }
    impl<'b, 'a> AsRefU8 for &'b std::borrow::Cow<'a, [u8]> { open spec fn bytes(&self) -> Seq<u8> { cow_bytes(**self) } #[verifier::external_body] fn as_ref(&self) -> (r: &[u8]) { unimplemented!() } }

    // std::io::Cursor
    #[derive(Clone)]
    pub struct Cursor<T> { pub inner: T, pub pos: u64 }
    impl<T> Cursor<T> {
        pub fn new(inner: T) -> (r: Self) ensures r.inner == inner, r.pos == 0 { Cursor { inner, pos: 0 } }
        pub fn position(&self) -> (r: u64) ensures r == self.pos { self.pos }
        pub fn get_ref(&self) -> (r: &T) ensures *r == self.inner { &self.inner }
        pub fn get_mut(&mut self) -> (r: &mut T) ensures *r == old(self).inner, final(self).inner == *final(r), final(self).pos == old(self).pos { &mut self.inner }
    }
    impl<T: AsRefU8> Dev for Cursor<T> {
        open spec fn data(&self) -> Seq<u8> { self.inner.bytes() }
        open spec fn cur(&self) -> nat { self.pos as nat }
        open spec fn lim(&self) -> int { MEMMAX }
        open spec fn off(&self) -> int { 0 }
        open spec fn eof_byte(&self) -> Option<u8> { None }
        uninterp spec fn buffered(&self) -> nat;
        open spec fn sbase(&self) -> int { 0 }
        open spec fn send(&self) -> int { self.inner.bytes().len() as int }
        open spec fn wf(&self) -> bool { self.inner.bytes().len() <= u64::MAX }
        open spec fn sound(&self) -> bool { true }
        open spec fn seekable(&self, t: int) -> bool { 0 <= t <= u64::MAX }
        proof fn frame_sound(&self, b: &Self) { }
        #[verifier::prophetic]
        open spec fn frame(&self, post: &Self) -> bool { true }
        proof fn frame_refl(&self) { }
        proof fn frame_trans(&self, b: &Self, c: &Self) { }
    }
    impl<T: AsRefU8> Read for Cursor<T> {
        #[verifier::external_body]
        fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>) { unimplemented!() }
    }
    impl<T: AsRefU8> BufRead for Cursor<T> {
        #[verifier::external_body]
        fn fill_buf(&mut self) -> (r: Result<&[u8]>) { unimplemented!() }
        #[verifier::external_body]
        fn consume(&mut self, amt: usize) { unimplemented!() }
    }
    impl<T: AsRefU8> Seek for Cursor<T> {
        #[verifier::external_body]
        fn seek(&mut self, pos: SeekFrom) -> (r: Result<u64>) { unimplemented!() }
    }
    pub trait VMin : Sized { spec fn le(self, o: Self) -> bool; fn vmin(self, o: Self) -> (r: Self) ensures r == (if self.le(o) { self } else { o }); }
    impl VMin for u64 { open spec fn le(self, o: u64) -> bool { self <= o } fn vmin(self, o: u64) -> (r: u64) { if self <= o { self } else { o } } }
    impl VMin for usize { open spec fn le(self, o: usize) -> bool { self <= o } fn vmin(self, o: usize) -> (r: usize) { if self <= o { self } else { o } } }
    pub fn min<T: VMin>(a: T, b: T) -> (r: T) ensures r == (if a.le(b) { a } else { b }) { a.vmin(b) }
    // a call which panics: reaching one is a failed obligation
    #[verifier::external_body]
    pub fn vpanic() -> ! requires false { panic!() }

    pub uninterp spec fn lossy(b: Seq<u8>) -> Seq<char>;
    #[verifier::external_body]
    pub fn lossy_owned(b: &[u8]) -> (r: String) ensures r@ == lossy(b@) { unimplemented!() }

    // standard-library integer operation without a vstd contract
    pub assume_specification [i64::wrapping_neg] (x: i64) -> (r: i64)
        ensures r == (if x == i64::MIN { i64::MIN as int } else { -x });

    pub assume_specification [<String as core::convert::AsRef<[u8]>>::as_ref] (x: &String) -> (r: &[u8])
        ensures r@ == vstd::utf8::encode_utf8(x@);
    pub assume_specification [<str as core::convert::AsRef<[u8]>>::as_ref] (x: &str) -> (r: &[u8])
        ensures r@ == vstd::utf8::encode_utf8(x@);

    // ---- a growable byte vector as a Write device (std) ------------------------------------------
    impl Dev for Vec<u8> {
        open spec fn data(&self) -> Seq<u8> { self@ }
        open spec fn cur(&self) -> nat { self@.len() }
        open spec fn lim(&self) -> int { MEMMAX }
        open spec fn off(&self) -> int { 0 }
        open spec fn eof_byte(&self) -> Option<u8> { None }
        open spec fn buffered(&self) -> nat { 0 }
        open spec fn sbase(&self) -> int { 0 }
        open spec fn send(&self) -> int { self@.len() as int }
        open spec fn wf(&self) -> bool { true }
        open spec fn sound(&self) -> bool { true }
        open spec fn seekable(&self, t: int) -> bool { 0 <= t <= u64::MAX }
        proof fn frame_sound(&self, b: &Self) { }
        #[verifier::prophetic]
        open spec fn frame(&self, post: &Self) -> bool { true }
        proof fn frame_refl(&self) { }
        proof fn frame_trans(&self, b: &Self, c: &Self) { }
    }
    impl Write for Vec<u8> {
        #[verifier::external_body]
        fn write(&mut self, buf: &[u8]) -> (r: Result<usize>) { unimplemented!() }
        #[verifier::external_body]
        fn flush(&mut self) -> (r: Result<()>) { unimplemented!() }
    }

    // ---- collections: the order in which std's iterators yield the elements -----------------------
    #[verifier::external_type_specification]
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    #[verifier::reject_recursive_types(A)]
    pub struct ExLinkedList<T, A: std::alloc::Allocator>(std::collections::LinkedList<T, A>);
    #[verifier::external_type_specification]
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    #[verifier::reject_recursive_types(A)]
    pub struct ExBinaryHeap<T, A: std::alloc::Allocator>(std::collections::BinaryHeap<T, A>);
    pub trait VIter<'a> { type Item; spec fn order(self) -> Seq<Self::Item>; fn viter(self) -> (r: Vec<Self::Item>) ensures r@ == self.order(); }
    pub fn viter<'a, C: VIter<'a>>(c: C) -> (r: Vec<C::Item>) ensures r@ == c.order() { c.viter() }
    impl<'a, T> VIter<'a> for &'a Option<T> { type Item = &'a T;
        open spec fn order(self) -> Seq<&'a T> { match self { Some(x) => seq![x], None => Seq::empty() } }
        #[verifier::external_body] fn viter(self) -> (r: Vec<&'a T>) { unimplemented!() } }
    impl<'a, T> VIter<'a> for &'a std::collections::LinkedList<T> { type Item = &'a T;
        uninterp spec fn order(self) -> Seq<&'a T>;
        #[verifier::external_body] fn viter(self) -> (r: Vec<&'a T>) { unimplemented!() } }
    impl<'a, T> VIter<'a> for &'a std::collections::VecDeque<T> { type Item = &'a T;
        uninterp spec fn order(self) -> Seq<&'a T>;
        #[verifier::external_body] fn viter(self) -> (r: Vec<&'a T>) { unimplemented!() } }
    impl<'a, T> VIter<'a> for &'a std::collections::BinaryHeap<T> { type Item = &'a T;
        uninterp spec fn order(self) -> Seq<&'a T>;
        #[verifier::external_body] fn viter(self) -> (r: Vec<&'a T>) { unimplemented!() } }
    impl<'a, T> VIter<'a> for &'a std::collections::BTreeSet<T> { type Item = &'a T;
        uninterp spec fn order(self) -> Seq<&'a T>;
        #[verifier::external_body] fn viter(self) -> (r: Vec<&'a T>) { unimplemented!() } }
    impl<'a, T, H> VIter<'a> for &'a std::collections::HashSet<T, H> { type Item = &'a T;
        uninterp spec fn order(self) -> Seq<&'a T>;
        #[verifier::external_body] fn viter(self) -> (r: Vec<&'a T>) { unimplemented!() } }
    impl<'a, K, V> VIter<'a> for &'a std::collections::BTreeMap<K, V> { type Item = (&'a K, &'a V);
        uninterp spec fn order(self) -> Seq<(&'a K, &'a V)>;
        #[verifier::external_body] fn viter(self) -> (r: Vec<(&'a K, &'a V)>) { unimplemented!() } }
    impl<'a, K, V, H> VIter<'a> for &'a std::collections::HashMap<K, V, H> { type Item = (&'a K, &'a V);
        uninterp spec fn order(self) -> Seq<(&'a K, &'a V)>;
        #[verifier::external_body] fn viter(self) -> (r: Vec<(&'a K, &'a V)>) { unimplemented!() } }

    // ---- deserialisation: the cells behind the limit counters, errors, std conversions ------------
    /// the values of the counters' cells (interior mutability made explicit)
    pub tracked struct Heap { pub ghost m: Map<int, usize> }
    impl Heap { pub axiom fn fresh() -> (tracked r: Heap) ensures r.m == Map::<int, usize>::empty(); }
    #[verifier::external_body]
    #[verifier::accept_recursive_types(T)]
    pub struct Cell<T> { t: core::cell::Cell<T> }
    impl<T> Clone for Cell<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
    impl Cell<usize> {
        pub uninterp spec fn id(&self) -> int;
        #[verifier::external_body]
        pub fn get(&self, Tracked(hp): Tracked<&mut Heap>) -> (r: usize)
            requires old(hp).m.dom().contains(self.id()) ensures r == old(hp).m[self.id()], *final(hp) == *old(hp) { unimplemented!() }
        #[verifier::external_body]
        pub fn set(&self, v: usize, Tracked(hp): Tracked<&mut Heap>)
            requires old(hp).m.dom().contains(self.id()) ensures final(hp).m == old(hp).m.insert(self.id(), v) { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct BoxErr { e: Box<dyn std::error::Error + Send + Sync> }
    #[verifier::external_body]
    pub fn box_err<E>(e: E) -> BoxErr { unimplemented!() }
    /// `ResultExt::context` for stream errors, which names the place in the message
    /// `Default`
    pub trait VDefault : Sized { spec fn dfl(&self) -> bool; fn vdefault() -> (r: Self) ensures r.dfl(); }
    impl VDefault for bool { open spec fn dfl(&self) -> bool { !*self } fn vdefault() -> (r: Self) { false } }
    impl<T> VDefault for Option<T> { open spec fn dfl(&self) -> bool { *self is None } fn vdefault() -> (r: Self) { None } }
    impl<T> VDefault for Vec<T> { open spec fn dfl(&self) -> bool { self@.len() == 0 } fn vdefault() -> (r: Self) { Vec::new() } }
    impl<A: VDefault, B: VDefault> VDefault for (A, B) { open spec fn dfl(&self) -> bool { self.0.dfl() && self.1.dfl() } fn vdefault() -> (r: Self) { (A::vdefault(), B::vdefault()) } }
    impl<T, const N: usize> VDefault for [Option<T>; N] { open spec fn dfl(&self) -> bool { forall|i: int| 0 <= i < N ==> (#[trigger] self@[i]) is None }
        #[verifier::external_body] fn vdefault() -> (r: Self) { unimplemented!() } }
    impl<T> VDefault for std::collections::LinkedList<T> { open spec fn dfl(&self) -> bool { ll_seq(self).len() == 0 } #[verifier::external_body] fn vdefault() -> (r: Self) { unimplemented!() } }
    impl<T> VDefault for std::collections::VecDeque<T> { open spec fn dfl(&self) -> bool { self@.len() == 0 } #[verifier::external_body] fn vdefault() -> (r: Self) { unimplemented!() } }
    impl<T> VDefault for std::collections::BinaryHeap<T> { open spec fn dfl(&self) -> bool { bh_ms(self) == vstd::multiset::Multiset::<T>::empty() } #[verifier::external_body] fn vdefault() -> (r: Self) { unimplemented!() } }
    impl<T> VDefault for std::collections::BTreeSet<T> { open spec fn dfl(&self) -> bool { self@ == Set::<T>::empty() } #[verifier::external_body] fn vdefault() -> (r: Self) { unimplemented!() } }
    impl<T, H> VDefault for std::collections::HashSet<T, H> { open spec fn dfl(&self) -> bool { self@ == Set::<T>::empty() } #[verifier::external_body] fn vdefault() -> (r: Self) { unimplemented!() } }
    impl<K, V> VDefault for std::collections::BTreeMap<K, V> { open spec fn dfl(&self) -> bool { self@ == Map::<K, V>::empty() } #[verifier::external_body] fn vdefault() -> (r: Self) { unimplemented!() } }
    impl<K, V, H> VDefault for std::collections::HashMap<K, V, H> { open spec fn dfl(&self) -> bool { self@ == Map::<K, V>::empty() } #[verifier::external_body] fn vdefault() -> (r: Self) { unimplemented!() } }
    /// no object in memory is larger than 2^62 bytes (the language only guarantees isize::MAX = 2^63 - 1,
    /// but no 64-bit machine has a larger address space than 2^57)
    pub axiom fn ax_slice_len(s: &[u8]) ensures s@.len() <= 0x4000_0000_0000_0000;
    pub uninterp spec fn ll_seq<T>(l: &std::collections::LinkedList<T>) -> Seq<T>;
    pub uninterp spec fn bh_ms<T>(l: &std::collections::BinaryHeap<T>) -> vstd::multiset::Multiset<T>;
    pub assume_specification<T, A: std::alloc::Allocator> [std::collections::LinkedList::<T, A>::push_back] (l: &mut std::collections::LinkedList<T, A>, v: T)
        ensures ll_push(old(l), v, final(l));
    pub uninterp spec fn ll_push<T, A: std::alloc::Allocator>(a: &std::collections::LinkedList<T, A>, v: T, b: &std::collections::LinkedList<T, A>) -> bool;
    pub broadcast axiom fn ax_ll_push<T>(a: &std::collections::LinkedList<T>, v: T, b: &std::collections::LinkedList<T>)
        ensures #[trigger] ll_push(a, v, b) ==> ll_seq(b) == ll_seq(a).push(v);
    pub assume_specification<T: core::cmp::Ord, A: std::alloc::Allocator> [std::collections::BinaryHeap::<T, A>::push] (l: &mut std::collections::BinaryHeap<T, A>, v: T)
        ensures bh_push(old(l), v, final(l));
    pub uninterp spec fn bh_push<T, A: std::alloc::Allocator>(a: &std::collections::BinaryHeap<T, A>, v: T, b: &std::collections::BinaryHeap<T, A>) -> bool;
    pub broadcast axiom fn ax_bh_push<T>(a: &std::collections::BinaryHeap<T>, v: T, b: &std::collections::BinaryHeap<T>)
        ensures #[trigger] bh_push(a, v, b) ==> bh_ms(b) == bh_ms(a).insert(v);

    #[verifier::external_type_specification]
    #[verifier::external_body]
    pub struct ExFromUtf8Error(std::string::FromUtf8Error);
    #[verifier::external_type_specification]
    #[verifier::external_body]
    pub struct ExUtf8Error(core::str::Utf8Error);
    pub assume_specification [std::string::String::from_utf8] (v: Vec<u8>) -> (r: core::result::Result<String, std::string::FromUtf8Error>)
        ensures r is Ok <==> vstd::utf8::valid_utf8(v@), r matches Ok(s) ==> vstd::utf8::encode_utf8(s@) == v@;
    pub assume_specification [core::str::from_utf8] (v: &[u8]) -> (r: core::result::Result<&str, core::str::Utf8Error>)
        ensures r is Ok <==> vstd::utf8::valid_utf8(v@), r matches Ok(s) ==> vstd::utf8::encode_utf8(s@) == v@;
    pub open spec fn scalar(n: int) -> bool { 0 <= n <= 0xD7FF || 0xE000 <= n <= 0x10FFFF }
    pub assume_specification [core::char::from_u32] (n: u32) -> (r: Option<char>)
        ensures r is Some <==> scalar(n as int), r matches Some(c) ==> c as u32 == n;
}
