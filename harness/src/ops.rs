//! The operations of the conformance protocol: one public entry point of the library per operation.
use crate::flat::*;
use crate::out::Out;
use crate::replay::V;
use asn1_rs::nom::{Err, IResult};
use asn1_rs::*;
use std::collections::{BTreeSet, HashSet};

pub type TE<T, const N: u32> = TaggedExplicit<T, BerError<Input<'static>>, N>;

/// result of an Input-based parser. Also checks that the remaining input is a suffix of the input, with correct spans
pub fn pr<'a, T: Flat, E>(i: &'a [u8], r: IResult<Input<'a>, T, E>) -> Out {
    match r {
        Ok((rem, t)) => {
            let n = rem.start();
            if n > i.len() || rem.end() != i.len() || rem.len() != i.len() - n || rem.as_bytes2().as_ptr() != i[n..].as_ptr() {
                return Out::bad(1);
            }
            let mut v = vec![];
            t.flat(&mut v);
            Out::ok(n, v)
        }
        Err(Err::Incomplete(n)) => Out::inc(n),
        Err(_) => Out::err(),
    }
}
pub fn lr<'a, T: Flat, E>(i: &'a [u8], r: IResult<&'a [u8], T, E>) -> Out {
    match r {
        Ok((rem, t)) => {
            if rem.len() > i.len() {
                return Out::bad(1);
            }
            let n = i.len() - rem.len();
            if rem.as_ptr() != i[n..].as_ptr() {
                return Out::bad(2);
            }
            let mut v = vec![];
            t.flat(&mut v);
            Out::ok(n, v)
        }
        Err(Err::Incomplete(n)) => Out::inc(n),
        Err(_) => Out::err(),
    }
}
pub fn pb<'a, T: BerParser<'a> + Flat>(i: &'a [u8]) -> Out {
    pr(i, T::parse_ber(Input::from_slice(i)))
}
pub fn pd<'a, T: DerParser<'a> + Flat>(i: &'a [u8]) -> Out {
    pr(i, T::parse_der(Input::from_slice(i)))
}
/// parse behind five other octets: the spans of the remaining input and of the generic objects in the value
fn spans_out<'a, T: Flat, E>(r: IResult<Input<'a>, T, E>) -> Out {
    match r {
        Ok((rem, t)) => {
            let mut v = vec![];
            rem.spans(&mut v);
            t.spans(&mut v);
            Out::ok(rem.start() - 5, v)
        }
        Err(Err::Incomplete(n)) => Out::inc(n),
        Err(_) => Out::err(),
    }
}
pub fn pp<'a, T: BerParser<'a> + Flat>(i: &'a [u8]) -> Out {
    spans_out(T::parse_ber(Input::new(i, 5..5 + i.len())))
}
pub fn pq<'a, T: DerParser<'a> + Flat>(i: &'a [u8]) -> Out {
    spans_out(T::parse_der(Input::new(i, 5..5 + i.len())))
}
pub fn ob<'a, T: BerParser<'a> + Flat>(i: &'a [u8]) -> Out {
    pr(i, T::parse_ber_optional(Input::from_slice(i)))
}
pub fn od<'a, T: DerParser<'a> + Flat>(i: &'a [u8]) -> Out {
    pr(i, T::parse_der_optional(Input::from_slice(i)))
}
fn hdr_content<'a, E>(i: &'a [u8], r: IResult<Input<'a>, (Header<'a>, Input<'a>), E>) -> Out {
    match r {
        Ok((rem, (h, c))) => {
            let n = rem.start();
            if n > i.len() || rem.end() != i.len() || rem.as_bytes2() != &i[n..] {
                return Out::bad(1);
            }
            if c.end() - c.start() != c.len() || c.end() > n || &i[c.start()..c.end()] != c.as_bytes2() {
                return Out::bad(3);
            }
            let mut v = vec![];
            h.flat(&mut v);
            v.push(c.start() as i64);
            fl_bytes(&mut v, c.as_bytes2());
            Out::ok(n, v)
        }
        Err(Err::Incomplete(n)) => Out::inc(n),
        Err(_) => Out::err(),
    }
}
pub fn ib<'a, T: BerParser<'a>>(i: &'a [u8]) -> Out {
    hdr_content(i, T::parse_ber_as_input(Input::from_slice(i)))
}
pub fn id<'a, T: DerParser<'a>>(i: &'a [u8]) -> Out {
    hdr_content(i, T::parse_der_as_input(Input::from_slice(i)))
}
pub fn lb<'a, T: FromBer<'a> + Flat>(i: &'a [u8]) -> Out {
    lr(i, T::from_ber(i))
}
pub fn ld<'a, T: FromDer<'a> + Flat>(i: &'a [u8]) -> Out {
    lr(i, T::from_der(i))
}
/// parse as Any, then check the constraints of DER
pub fn cc<T: CheckDerConstraints>(i: &[u8]) -> Out {
    match Any::parse_ber(Input::from_slice(i)) {
        Ok((rem, any)) => match T::check_constraints(&any) {
            Ok(()) => Out::ok(rem.start(), vec![]),
            Err(_) => Out::err(),
        },
        Err(Err::Incomplete(n)) => Out::inc(n),
        Err(_) => Out::err(),
    }
}
/// parse as Any, then convert
pub fn ta<'a, T: TryFrom<Any<'a>, Error = Error> + Flat>(i: &'a [u8]) -> Out {
    match Any::parse_ber(Input::from_slice(i)) {
        Ok((rem, a)) => match T::try_from(a) {
            Ok(t) => {
                let mut v = vec![];
                t.flat(&mut v);
                Out::ok(rem.start(), v)
            }
            Err(_) => Out::err(),
        },
        Err(Err::Incomplete(n)) => Out::inc(n),
        Err(_) => Out::err(),
    }
}
pub fn len2(l: Length) -> i64 {
    match l {
        Length::Definite(n) => n as i64,
        Length::Indefinite => -1,
    }
}
/// encode in BER; checks every announced length against what was written
pub fn enc_ber<T: ToBer + ?Sized>(t: &T) -> Result<Vec<i64>, i64>
where
    T: Sized,
{
    let bytes = match t.to_ber_vec() {
        Ok(b) => b,
        Err(_) => return Err(0),
    };
    let mut w = vec![];
    let n = t.ber_encode(&mut w).map_err(|_| -1i64)?;
    if w != bytes || n != bytes.len() {
        return Err(-2);
    }
    let mut w2 = vec![];
    let n2 = t.write_ber(&mut w2).map_err(|_| -3i64)?;
    if w2 != bytes || n2 != n {
        return Err(-4);
    }
    let mut h = vec![];
    let nh = t.ber_write_header(&mut h).map_err(|_| -5i64)?;
    let mut c = vec![];
    let nc = t.ber_write_content(&mut c).map_err(|_| -6i64)?;
    let mut v = vec![len2(t.ber_total_len()), len2(t.ber_content_len()), nh as i64, nc as i64, h.len() as i64, c.len() as i64];
    fl_bytes(&mut v, &bytes);
    Ok(v)
}
pub fn enc_der<T: ToDer>(t: &T) -> Result<Vec<i64>, i64> {
    let bytes = match t.to_der_vec() {
        Ok(b) => b,
        Err(_) => return Err(0),
    };
    let mut w = vec![];
    let n = t.der_encode(&mut w).map_err(|_| -1i64)?;
    if w != bytes || n != bytes.len() {
        return Err(-2);
    }
    let mut w2 = vec![];
    let n2 = t.write_der(&mut w2).map_err(|_| -3i64)?;
    if w2 != bytes || n2 != n {
        return Err(-4);
    }
    #[allow(deprecated)]
    if t.to_der_len().ok() != Some(n) || t.to_der_vec_raw().ok() != Some(bytes.clone()) {
        return Err(-7);
    }
    let mut h = vec![];
    let nh = t.der_write_header(&mut h).map_err(|_| -5i64)?;
    let mut c = vec![];
    let nc = t.der_write_content(&mut c).map_err(|_| -6i64)?;
    let mut v = vec![len2(t.der_total_len()), len2(t.der_content_len()), nh as i64, nc as i64, h.len() as i64, c.len() as i64];
    fl_bytes(&mut v, &bytes);
    Ok(v)
}
pub fn enc_out(n: usize, r: Result<Vec<i64>, i64>) -> Out {
    match r {
        Ok(v) => Out::ok(n, v),
        Err(0) => Out { st: "eerr", n: 0, v: vec![] },
        Err(k) => Out::bad(k),
    }
}
pub fn eb<'a, T: BerParser<'a> + ToBer>(i: &'a [u8]) -> Out {
    match T::parse_ber(Input::from_slice(i)) {
        Ok((rem, t)) => enc_out(rem.start(), enc_ber(&t)),
        Err(Err::Incomplete(_)) | Err(_) => Out::err(),
    }
}
pub fn ed<'a, T: BerParser<'a> + ToDer>(i: &'a [u8]) -> Out {
    match T::parse_ber(Input::from_slice(i)) {
        Ok((rem, t)) => enc_out(rem.start(), enc_der(&t)),
        Err(Err::Incomplete(_)) | Err(_) => Out::err(),
    }
}

/// parse from a temporary buffer, take an owned copy, destroy the buffer; report the copy (value and DER encoding)
macro_rules! ts_match { ($ty:expr, $i:expr; $($n:literal: $t:ty),* $(,)?) => { match $ty { $($n => {
    let mut buf = $i.to_vec();
    let mut len = 0;
    let owned = match <$t as BerParser>::parse_ber(Input::from_slice(&buf)) {
        Ok((rem, t)) => { len = rem.start(); Some(t.to_static()) }
        Err(_) => None,
    };
    for b in buf.iter_mut() { *b = 0x55; }
    drop(buf);
    match owned {
        None => return Some(Out::err()),
        Some(o) => {
            let mut v = vec![];
            o.flat(&mut v);
            if let Ok((_, t)) = <$t as BerParser>::parse_ber(Input::from_slice($i)) {
                if enc_der(&t) != enc_der(&o) { return Some(Out::bad(5)); }
                let mut v2 = vec![];
                t.flat(&mut v2);
                if v != v2 { return Some(Out::bad(6)); }
            }
            return Some(Out::ok(len, v));
        }
    }
} )* _ => {} } } }

pub(crate) use ts_match;

fn ts_header(i: &[u8]) -> Out {
    let mut buf = i.to_vec();
    let (n, o) = match Header::parse_ber(Input::from_slice(&buf)) {
        Ok((rem, h)) => (rem.start(), h.to_static()),
        Err(_) => return Out::err(),
    };
    buf.iter_mut().for_each(|b| *b = 0x55);
    drop(buf);
    let mut v = vec![];
    fl_header(&mut v, &o);
    let (_, h) = Header::parse_ber(Input::from_slice(i)).unwrap();
    if h != o || o.raw_tag() != h.raw_tag() {
        return Out::bad(6);
    }
    Out::ok(n, v)
}

macro_rules! m { ($f:ident $ty:expr, $i:expr; $($n:literal: $t:ty),* $(,)?) => { match $ty { $($n => return Some($f::<$t>($i)),)* _ => {} } } }
macro_rules! m_ta { ($ty:expr, $i:expr; $($n:literal: $t:ty),* $(,)?) => { match $ty { $($n => return Some(ta::<$t>($i)),)* _ => {} } } }

macro_rules! with_leafs { ($mac:ident $($pre:tt)*) => { $mac!{ $($pre)*;
    "u8": u8, "u16": u16, "u32": u32, "u64": u64, "u128": u128, "usize": usize,
    "i8": i8, "i16": i16, "i32": i32, "i64": i64, "i128": i128, "isize": isize,
    "integer": Integer, "bool": bool, "boolean": Boolean, "null": Null, "unit": (), "enumerated": Enumerated,
    "octetstring": OctetString, "bytes": &[u8], "bitstring": BitString, "oid": Oid,
    "utf8": Utf8String, "numeric": NumericString, "printable": PrintableString, "visible": VisibleString,
    "ia5": Ia5String, "general": GeneralString, "graphic": GraphicString, "teletex": TeletexString,
    "videotex": VideotexString, "objdesc": ObjectDescriptor, "bmp": BmpString, "universal": UniversalString,
    "str": &str, "string": String, "utctime": UtcTime, "gentime": GeneralizedTime,
    "real": Real, "f32": f32, "f64": f64, "seqraw": Sequence, "setraw": Set,
} } }
pub type PE<'a> = BerError<Input<'a>>;
macro_rules! with_conts { ($mac:ident $($pre:tt)*) => { $mac!{ $($pre)*;
    "vec_u8": Vec<u8>, "vec_bool": Vec<bool>, "vec_octets": Vec<OctetString>, "vec_vec_u8": Vec<Vec<u8>>, "vec_any": Vec<Any>,
    "seqof_u8": SequenceOf<u8>, "seqof_octets": SequenceOf<OctetString>, "seqof_seqof_bool": SequenceOf<SequenceOf<bool>>,
    "setof_u8": SetOf<u8>, "setof_octets": SetOf<OctetString>, "btree_u16": BTreeSet<u16>,
    "vec_setof_u8": Vec<SetOf<u8>>,
} } }
macro_rules! with_conts_nolegacy { ($mac:ident $($pre:tt)*) => { $mac!{ $($pre)*;
    "arr2_u8": [u8; 2], "arr0_bool": [bool; 0], "anyseq": AnySequence, "anyset": AnySet,
    "te0_u8": TaggedExplicit<u8, PE, 0>, "te1_octets": TaggedExplicit<OctetString, PE, 1>, "te31_bool": TaggedExplicit<bool, PE, 31>,
    "te300_null": TaggedExplicit<Null, PE, 300>,
    "ti0_u8": TaggedImplicit<u8, PE, 0>, "ti1_octets": TaggedImplicit<OctetString, PE, 1>, "ti31_bool": TaggedImplicit<bool, PE, 31>,
    "ti2_vec_u8": TaggedImplicit<Vec<u8>, PE, 2>, "ti16384_null": TaggedImplicit<Null, PE, 16384>,
    "ti5_utf8": TaggedImplicit<Utf8String, PE, 5>,
    "te0_te1_u8": TaggedExplicit<TaggedExplicit<u8, PE, 1>, PE, 0>, "te0_ti1_u8": TaggedExplicit<TaggedImplicit<u8, PE, 1>, PE, 0>,
    "ti0_te1_u8": TaggedImplicit<TaggedExplicit<u8, PE, 1>, PE, 0>,  "ti3_ti4_bool": TaggedImplicit<TaggedImplicit<bool, PE, 4>, PE, 3>,
    "ae2_u8": ApplicationExplicit<u8, PE, 2>, "ai2_u8": ApplicationImplicit<u8, PE, 2>, "ai200_octets": ApplicationImplicit<OctetString, PE, 200>,
    "pe3_bool": PrivateExplicit<bool, PE, 3>, "pi3_bool": PrivateImplicit<bool, PE, 3>,
    "vec_te0_u8": Vec<TaggedExplicit<u8, PE, 0>>, "vec_ti1_octets": Vec<TaggedImplicit<OctetString, PE, 1>>,
    "te0_vec_u8": TaggedExplicit<Vec<u8>, PE, 0>, "ue17_u8": TaggedValue<u8, PE, Explicit, 0, 17>, "ui17_u8": TaggedValue<u8, PE, Implicit, 0, 17>,
} } }
macro_rules! with_opts { ($mac:ident $($pre:tt)*) => { $mac!{ $($pre)*;
    "opt_u8": Option<u8>, "opt_bool": Option<bool>, "opt_octets": Option<OctetString>, "opt_null": Option<Null>, "opt_vec_u8": Option<Vec<u8>>,
    "opt_oid": Option<Oid>, "opt_enum": Option<Enumerated>, "opt_utf8": Option<Utf8String>,
} } }
macro_rules! with_opts_tag { ($mac:ident $($pre:tt)*) => { $mac!{ $($pre)*;
    "opt_te2_u8": Option<TaggedExplicit<u8, PE, 2>>, "opt_ti1_bool": Option<TaggedImplicit<bool, PE, 1>>,
    "opt_ae1_bool": Option<ApplicationExplicit<bool, PE, 1>>,
} } }
macro_rules! with_anys { ($mac:ident $($pre:tt)*) => { $mac!{ $($pre)*;
    "tup2_any": (Any, Any), "te0_any": TaggedExplicit<Any, PE, 0>, "opt_any": Option<Any>, "opt_te0_any": Option<TaggedExplicit<Any, PE, 0>>, "te0_te1_any": TaggedExplicit<TaggedExplicit<Any, PE, 1>, PE, 0>, "ti2_vec_any": TaggedImplicit<Vec<Any>, PE, 2>, "vec_vec_any": Vec<Vec<Any>>, "setof_any": SetOf<Any>, "seqof_any": SequenceOf<Any>, "arr2_any": [Any; 2], "te0_tup2_any": TaggedExplicit<(Any, Any), PE, 0>, "vec_tup2_any": Vec<(Any, Any)>, "tup2_vec_any": (Option<Vec<Any>>, Any), "ti1_any": TaggedImplicit<Any, PE, 1>, "te3_vec_te0_any": TaggedExplicit<Vec<TaggedExplicit<Any, PE, 0>>, PE, 3>, "ae1_any": ApplicationExplicit<Any, PE, 1>
} } }
macro_rules! with_ltags { ($mac:ident $($pre:tt)*) => { $mac!{ $($pre)*;
    "te0_u8": TaggedExplicit<u8, Error, 0>, "te1_octets": TaggedExplicit<OctetString, Error, 1>, "te31_bool": TaggedExplicit<bool, Error, 31>,
    "te300_null": TaggedExplicit<Null, Error, 300>,
    "ti0_u8": TaggedImplicit<u8, Error, 0>, "ti1_octets": TaggedImplicit<OctetString, Error, 1>, "ti31_bool": TaggedImplicit<bool, Error, 31>,
    "ti16384_null": TaggedImplicit<Null, Error, 16384>, "ti5_utf8": TaggedImplicit<Utf8String, Error, 5>,
    "te0_te1_u8": TaggedExplicit<TaggedExplicit<u8, Error, 1>, Error, 0>, "te0_ti1_u8": TaggedExplicit<TaggedImplicit<u8, Error, 1>, Error, 0>,
    "ae2_u8": ApplicationExplicit<u8, Error, 2>, "ai2_u8": ApplicationImplicit<u8, Error, 2>,
    "pe3_bool": PrivateExplicit<bool, Error, 3>, "pi3_bool": PrivateImplicit<bool, Error, 3>, "ai200_octets": ApplicationImplicit<OctetString, Error, 200>,
    "te0_vec_u8": TaggedExplicit<Vec<u8>, Error, 0>, "ti2_vec_u8": TaggedImplicit<Vec<u8>, Error, 2>,
    "ue17_u8": TaggedValue<u8, Error, Explicit, 0, 17>, "ui17_u8": TaggedValue<u8, Error, Implicit, 0, 17>,
} } }

/// arcs of an object identifier
fn oa(i: &[u8]) -> Out {
    match Oid::parse_ber(Input::from_slice(i)) {
        Ok((rem, o)) => {
            let mut v = vec![];
            let text = o.to_id_string();
            fl_bytes(&mut v, text.as_bytes());
            let big: Vec<String> = o.iter_bigint().map(|x| x.to_string()).collect();
            if big.join(".") != text || o.iter_bigint().len() != big.len() {
                return Out::bad(7);
            }
            let shown = if o.tag() == Tag::RelativeOid { format!("rel. {text}") } else { text.clone() };
            if o.to_string() != shown {
                return Out::bad(8);
            }
            v.push(big.len() as i64);
            match o.iter() {
                None => v.push(0),
                Some(it) => {
                    v.push(1);
                    let n = it.len();
                    let w: Vec<u64> = it.collect();
                    if n != w.len() || w.iter().map(|x| x.to_string()).collect::<Vec<_>>() != big {
                        return Out::bad(9);
                    }
                    w.iter().for_each(|x| x.flat(&mut v));
                    // construction from the arcs and from the text gives the same identifier
                    let again = if o.tag() == Tag::RelativeOid { Oid::from_relative(&w) } else { Oid::from(&w) };
                    let minimal = !o.as_bytes().iter().enumerate().any(|(k, b)| *b == 0x80 && (k == 0 || o.as_bytes()[k - 1] < 0x80));
                    if minimal && again.ok().as_ref() != Some(&o) {
                        return Out::bad(10);
                    }
                }
            }
            Out::ok(rem.start(), v)
        }
        _ => Out::err(),
    }
}
/// construction from arcs
fn oc(i: &V) -> Out {
    let rel = i.list()[0].int() == 1;
    let arcs: Vec<u64> = i.list()[1].list().iter().map(|a| u64::from_be_bytes(a.bytes().try_into().unwrap())).collect();
    let r = if rel { Oid::from_relative(&arcs) } else { Oid::from(&arcs) };
    if !rel {
        let text: Vec<String> = arcs.iter().map(|x| x.to_string()).collect();
        let t: std::result::Result<Oid, _> = text.join(".").parse();
        match (&r, &t) {
            (Ok(a), Ok(b)) if a == b && a.as_bytes() == b.as_bytes() => (),
            (Err(_), Err(_)) => (),
            _ => return Out::bad(11),
        }
    }
    match r {
        Ok(o) => Out::ok(0, o.as_bytes().iter().map(|x| *x as i64).collect()),
        Err(_) => Out::err(),
    }
}
macro_rules! m_w { ($f:ident $ty:expr, $i:expr, $l:expr; $($n:literal: $t:ty),* $(,)?) => { match $ty { $($n => return Some($f::<$t>($i, $l)),)* _ => {} } } }
/// encoding into a faulty destination: <<octets of the value, destination..., mode>>
fn faulty(op: &str, i: &V) -> Option<Out> {
    use crate::ops3::{wber, wder};
    let (api, ty) = op.split_once(':')?;
    let l = i.list();
    let b = l[0].bytes();
    let b = &b[..];
    if api == "Wb" {
        m_w! {wber ty, b, l; "any": Any};
        with_leafs!(m_w wber ty, b, l);
        with_conts!(m_w wber ty, b, l);
        with_conts_nolegacy!(m_w wber ty, b, l);
        with_opts!(m_w wber ty, b, l);
    } else {
        m_w! {wder ty, b, l; "any": Any};
        with_leafs!(m_w wder ty, b, l);
        with_conts!(m_w wder ty, b, l);
        with_conts_nolegacy!(m_w wder ty, b, l);
        with_opts!(m_w wder ty, b, l);
    }
    None
}
pub(crate) use {with_anys, with_conts, with_conts_nolegacy, with_leafs, with_ltags, with_opts, with_opts_tag};

/// operations with structured inputs, or with octets
pub fn run_v(op: &str, i: &V) -> Option<Out> {
    match op {
        "oc:oid" => Some(oc(i)),
        #[cfg(feature = "macros")]
        _ if op.starts_with("mc:") => crate::consts::constant(&op[3..], i.int() as usize),
        "vw:-" => Some(crate::views::vw(i)),
        _ if op.starts_with("Wb:") || op.starts_with("Wd:") => faulty(op, i),
        _ => match crate::ops4::run_v(op, i).or_else(|| crate::ops2::run_v(op, i)) {
            Some(o) => Some(o),
            None => match run(op, &i.bytes()) {
                Some(o) => Some(o),
                #[cfg(feature = "derived")]
                None => crate::derived::run(op, &i.bytes()),
                #[cfg(not(feature = "derived"))]
                None => None,
            },
        },
    }
}
pub fn run(op: &str, i: &[u8]) -> Option<Out> {
    let (api, ty) = op.split_once(':')?;
    match api {
        "pb" => {
            with_leafs!(m pb ty, i);
            m!{pb ty, i; "any": Any, "tup1": (OctetString,), "tup2": (u8, bool), "tup3": (bool, Null, Vec<u8>)};
            with_conts!(m pb ty, i);
            with_conts_nolegacy!(m pb ty, i);
            with_opts!(m pb ty, i);
            with_opts_tag!(m pb ty, i);
            with_anys!(m pb ty, i);
            m! {pb ty, i; "header": Header, "eoc": EndOfContent, "pdv": EmbeddedPdv, "hash_u16": HashSet<u16>, "vec_opt_u8": Vec<Option<u8>>};
            m! {pb ty, i; "tup2_opt": (Option<u8>, bool), "tup3_opt": (Option<bool>, Option<Null>, Option<Vec<u8>>) };
        }
        "pd" => {
            with_leafs!(m pd ty, i);
            m!{pd ty, i; "any": Any, "tup1": (OctetString,), "tup2": (u8, bool), "tup3": (bool, Null, Vec<u8>)};
            with_conts!(m pd ty, i);
            with_conts_nolegacy!(m pd ty, i);
            with_opts!(m pd ty, i);
            with_opts_tag!(m pd ty, i);
            with_anys!(m pd ty, i);
            m! {pd ty, i; "header": Header, "pdv": EmbeddedPdv, "hash_u16": HashSet<u16>};
            m! {pd ty, i; "tup2_opt": (Option<u8>, bool), "tup3_opt": (Option<bool>, Option<Null>, Option<Vec<u8>>) };
        }
        "pp" => {
            m! {pp ty, i; "any": Any, "vec_any": Vec<Any>, "anyseq": AnySequence, "anyset": AnySet};
            with_anys!(m pp ty, i);
        }
        "pq" => {
            m! {pq ty, i; "any": Any, "vec_any": Vec<Any>, "anyseq": AnySequence, "anyset": AnySet};
            with_anys!(m pq ty, i);
        }
        "ob" => {
            with_leafs!(m ob ty, i);
            m!{ob ty, i; "any": Any, "tup1": (OctetString,), "tup2": (u8, bool), "tup3": (bool, Null, Vec<u8>)};
            with_conts!(m ob ty, i);
            with_conts_nolegacy!(m ob ty, i);
        }
        "od" => {
            with_leafs!(m od ty, i);
            m!{od ty, i; "any": Any, "tup1": (OctetString,), "tup2": (u8, bool), "tup3": (bool, Null, Vec<u8>)};
            with_conts!(m od ty, i);
            with_conts_nolegacy!(m od ty, i);
        }
        "ib" => {
            m!{ib ty, i; "any": Any};
            with_leafs!(m ib ty, i);
        }
        "id" => {
            m!{id ty, i; "any": Any};
            with_leafs!(m id ty, i);
        }
        "lb" => {
            m!{lb ty, i; "any": Any};
            with_leafs!(m lb ty, i);
            with_conts!(m lb ty, i);
            with_opts!(m lb ty, i);
            with_ltags!(m lb ty, i);
            m! {lb ty, i; "header": Header, "pdv": EmbeddedPdv, "hash_u16": HashSet<u16>};
        }
        "ld" => {
            m!{ld ty, i; "any": Any};
            with_leafs!(m ld ty, i);
            with_conts!(m ld ty, i);
            with_opts!(m ld ty, i);
            with_ltags!(m ld ty, i);
            m! {ld ty, i; "header": Header, "pdv": EmbeddedPdv, "hash_u16": HashSet<u16>};
        }
        "eb" => {
            m!{eb ty, i; "any": Any};
            with_leafs!(m eb ty, i);
            with_conts!(m eb ty, i);
            with_conts_nolegacy!(m eb ty, i);
            with_opts!(m eb ty, i);
            m! {eb ty, i; "hash_u16": HashSet<u16>};
        }
        "ed" => {
            m!{ed ty, i; "any": Any};
            with_leafs!(m ed ty, i);
            with_conts!(m ed ty, i);
            with_conts_nolegacy!(m ed ty, i);
            with_opts!(m ed ty, i);
            m! {ed ty, i; "hash_u16": HashSet<u16>};
        }
        "ta" => {
            with_leafs!(m_ta ty, i);
            with_conts!(m_ta ty, i);
            m_ta! {ty, i; "hash_u16": HashSet<u16>, "pdv": EmbeddedPdv};
        }
        "cc" => {
            with_leafs!(m cc ty, i);
            with_conts!(m cc ty, i);
            with_opts!(m cc ty, i);
            with_ltags!(m cc ty, i);
            m! {cc ty, i; "hash_u16": HashSet<u16>, "pdv": EmbeddedPdv};
        }
        "oa" if ty == "oid" => return Some(oa(i)),
        "ts" => {
            ts_match! {ty, i; "u8": u8, "u16": u16, "u32": u32, "u64": u64, "u128": u128, "usize": usize,
                "i8": i8, "i16": i16, "i32": i32, "i64": i64, "i128": i128, "isize": isize, "bool": bool, "string": String,
                "seqraw": Sequence, "setraw": Set, "opt_u8": Option<u8>, "opt_bool": Option<bool>, "vec_u8": Vec<u8>, "vec_bool": Vec<bool>,
            };
            if ty == "header" {
                return Some(ts_header(i));
            }
        }
        _ => {}
    }
    None
}
