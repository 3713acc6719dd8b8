// Declarations that use every form fourleaf_retrofit! has. They are appended to a scratch copy of the crate
// so that the compiler expands them with the macro of the tree being checked; what is verified is the expansion.
use adapt::Copied;
use unknown::UnknownFields;

/// tagged fields, tags neither dense nor in order
pub struct Sparse { pub a: u32, pub b: Option<u64>, pub c: Vec<u16> }
fourleaf_retrofit!(struct Sparse : {} {} {
    |_context, this|
    [7] a: u32 = this.a,
    [3] b: Option<u64> = this.b,
    [63] c: Vec<u16> = this.c,
    { Ok(Sparse { a: a, b: b, c: c }) }
});

/// a delegate
pub struct Outer(pub Sparse);
fourleaf_retrofit!(struct Outer : {} {} {
    |_context, this|
    (*) it: Sparse = this.0,
    { Ok(Outer(it)) }
});

/// variants with nothing, with tagged fields, with a delegate
pub enum Many { Unit, Tup(u8, i64), Rec { s: u32, o: Option<bool> }, Del(Sparse) }
fourleaf_retrofit!(enum Many : {} {} {
    |_context|
    [0] Many::Unit => { { Ok(Many::Unit) } },
    [9] Many::Tup(a, b) => { [1] a: u8 = a, [2] b: i64 = b, { Ok(Many::Tup(a, b)) } },
    [300] Many::Rec { ref s, ref o } => { [1] s: u32 = s, [2] o: Option<bool> = o, { Ok(Many::Rec { s: s, o: o }) } },
    [18446744073709551615] Many::Del(ref p) => { (*) p: Sparse = p, { Ok(Many::Del(p)) } },
});

/// unknown fields kept
pub struct Keep { pub foo: u32, pub unknown: Copied<UnknownFields<'static>> }
fourleaf_retrofit!(struct Keep : {} {} {
    |_context, this|
    [1] foo: u32 = this.foo,
    (?) unknown: Copied<UnknownFields<'static>> = this.unknown,
    { Ok(Keep { foo: foo, unknown: unknown }) }
});

/// unknown variants kept
pub enum KeepE { One(u16), Other(u64, Copied<UnknownFields<'static>>) }
fourleaf_retrofit!(enum KeepE : {} {} {
    |_context|
    [1] KeepE::One(x) => { [1] x: u16 = x, { Ok(KeepE::One(x)) } },
    (?) KeepE::Other(d, ref fields) => {
        (=) d: u64 = d,
        (?) fields: Copied<UnknownFields<'static>> = fields,
        { Ok(KeepE::Other(d, fields)) }
    },
});
