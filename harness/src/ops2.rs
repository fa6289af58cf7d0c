//! More operations: tagging on the fly, closures over content, accessors of generic objects, iterators.
use crate::flat::*;
use crate::ops::*;
use crate::out::Out;
use crate::replay::V;
use asn1_rs::nom::{Err, Parser as _};
use asn1_rs::*;
use std::borrow::Cow;

pub fn class_of(n: i64) -> Class {
    match n {
        0 => Class::Universal,
        1 => Class::Application,
        2 => Class::ContextSpecific,
        _ => Class::Private,
    }
}
/// (several methods borrow a container for the lifetime of its content)
fn leak<'a, T>(t: T) -> &'a T {
    Box::leak(Box::new(t))
}
fn fl<T: Flat>(t: &T) -> Vec<i64> {
    let mut v = vec![];
    t.flat(&mut v);
    v
}
fn bytes_out(n: usize, r: SerializeResult<usize>, w: Vec<u8>) -> Out {
    match r {
        Err(_) => Out { st: "eerr", n: 0, v: vec![] },
        Ok(k) if k != w.len() => Out::bad(20),
        Ok(_) => Out::ok(n, w.iter().map(|x| *x as i64).collect()),
    }
}
/// encode with a tag chosen at run time: (class, number, octets of the value)
fn xb<'a, T: BerParser<'a> + ToBer>(c: Class, no: u32, i: &'a [u8]) -> Out {
    match T::parse_ber(Input::from_slice(i)) {
        Ok((rem, t)) => {
            let mut w = vec![];
            let r = t.ber_encode_tagged_explicit(c, no, &mut w);
            bytes_out(rem.start(), r, w)
        }
        Err(_) => Out::err(),
    }
}
fn xd<'a, T: BerParser<'a> + ToDer>(c: Class, no: u32, i: &'a [u8]) -> Out {
    match T::parse_ber(Input::from_slice(i)) {
        Ok((rem, t)) => {
            let mut w = vec![];
            let r = t.der_encode_tagged_explicit(c, no, &mut w);
            bytes_out(rem.start(), r, w)
        }
        Err(_) => Out::err(),
    }
}
fn yb<'a, T: BerParser<'a> + ToBer>(c: Class, no: u32, i: &'a [u8]) -> Out {
    match T::parse_ber(Input::from_slice(i)) {
        Ok((rem, t)) => {
            let mut w = vec![];
            let r = t.ber_encode_tagged_implicit(c, no, &mut w);
            bytes_out(rem.start(), r, w)
        }
        Err(_) => Out::err(),
    }
}
fn yd<'a, T: BerParser<'a> + ToDer>(c: Class, no: u32, i: &'a [u8]) -> Out {
    match T::parse_ber(Input::from_slice(i)) {
        Ok((rem, t)) => {
            let mut w = vec![];
            let r = t.der_encode_tagged_implicit(c, no, &mut w);
            bytes_out(rem.start(), r, w)
        }
        Err(_) => Out::err(),
    }
}
/// decode with a tag chosen at run time
fn tb<'a, T: FromBer<'a> + Flat + ToBer>(c: Class, no: u32, i: &'a [u8]) -> Out {
    let mut p = TaggedParserBuilder::<Explicit>::explicit().with_class(c).with_tag(Tag(no)).ber_parser::<T>();
    match p.parse(i) {
        Ok((rem, t)) => {
            if t.class() != c || t.tag() != Tag(no) {
                return Out::bad(21);
            }
            let mut w = vec![];
            let mut x = vec![];
            if t.ber_encode(&mut w).is_ok() && t.inner.ber_encode_tagged_explicit(c, no, &mut x).is_ok() && w != x {
                return Out::bad(22);
            }
            lr(i, Ok::<_, Err<Error>>((rem, t.inner)))
        }
        Err(e) => lr(i, Err::<(&[u8], T), _>(e)),
    }
}
fn td<'a, T: FromDer<'a> + Flat + ToDer>(c: Class, no: u32, i: &'a [u8]) -> Out {
    let mut p = TaggedParserBuilder::<Explicit>::explicit().with_class(c).with_tag(Tag(no)).der_parser::<T>();
    match p.parse(i) {
        Ok((rem, t)) => {
            let mut w = vec![];
            let mut x = vec![];
            if t.der_encode(&mut w).is_ok() && t.inner.der_encode_tagged_explicit(c, no, &mut x).is_ok() && w != x {
                return Out::bad(22);
            }
            if c == Class::ContextSpecific {
                let mut q = parse_der_tagged_explicit::<_, T, Error>(no);
                match q.parse(i) {
                    Ok((rem2, t2)) if rem2 == rem && fl(&t2.inner) == fl(&t.inner) => (),
                    _ => return Out::bad(23),
                }
            }
            lr(i, Ok::<_, Err<Error>>((rem, t.inner)))
        }
        Err(e) => lr(i, Err::<(&[u8], T), _>(e)),
    }
}
fn ub<'a, T: TryFrom<Any<'a>, Error = Error> + Tagged + Flat>(c: Class, no: u32, i: &'a [u8]) -> Out {
    let mut p = TaggedParserBuilder::<Implicit>::implicit().with_class(c).with_tag(Tag(no)).ber_parser::<T>();
    lr(i, p.parse(i).map(|(rem, t)| (rem, t.inner)))
}
fn ud<'a, T: TryFrom<Any<'a>, Error = Error> + Tagged + CheckDerConstraints + Flat>(c: Class, no: u32, i: &'a [u8]) -> Out {
    let mut p = TaggedParserBuilder::<Implicit>::implicit().with_class(c).with_tag(Tag(no)).der_parser::<T>();
    lr(i, p.parse(i).map(|(rem, t)| (rem, t.inner)))
}
/// optional, with a closure over the content
fn vb<'a, T: FromBer<'a> + Flat>(c: Class, no: u32, i: &'a [u8]) -> Out {
    lr(i, OptTaggedParser::new(c, Tag(no)).parse_ber(i, |_, d| T::from_ber(d)))
}
fn vd<'a, T: FromDer<'a> + Flat>(c: Class, no: u32, i: &'a [u8]) -> Out {
    lr(i, OptTaggedParser::new(c, Tag(no)).parse_der(i, |_, d| T::from_der(d)))
}
fn wb<'a, T: FromBer<'a> + Flat>(c: Class, no: u32, i: &'a [u8]) -> Out {
    let r = lr(i, Any::from_ber_and_then(c, no, i, |d| T::from_ber(d)));
    if r != lr(i, TaggedParser::<Explicit, T>::from_ber_and_then(c, no, i, |d| T::from_ber(d))) {
        return Out::bad(24);
    }
    r
}
fn wd<'a, T: FromDer<'a> + Flat>(c: Class, no: u32, i: &'a [u8]) -> Out {
    let r = lr(i, Any::from_der_and_then(c, no, i, |d| T::from_der(d)));
    if r != lr(i, TaggedParser::<Explicit, T>::from_der_and_then(c, no, i, |d| T::from_der(d))) {
        return Out::bad(24);
    }
    r
}
macro_rules! tagged { ($f:ident $ty:expr, $c:expr, $no:expr, $i:expr; $($n:literal: $t:ty),* $(,)?) => { match $ty { $($n => return Some($f::<$t>($c, $no, $i)),)* _ => {} } } }
macro_rules! t_types { ($f:ident $ty:expr, $c:expr, $no:expr, $i:expr) => { tagged!{$f $ty, $c, $no, $i;
    "u8": u8, "u32": u32, "i64": i64, "bool": bool, "null": Null, "enumerated": Enumerated, "octetstring": OctetString, "bitstring": BitString, "utf8": Utf8String, "printable": PrintableString, "bmp": BmpString, "utctime": UtcTime, "gentime": GeneralizedTime, "real": Real, "seqraw": Sequence, "setraw": Set,
    "vec_u8": Vec<u8>, "integer": Integer, "string": String, "setof_u8": SetOf<u8>, "seqof_octets": SequenceOf<OctetString>
} } }
macro_rules! t_legacy { ($f:ident $ty:expr, $c:expr, $no:expr, $i:expr) => { tagged!{$f $ty, $c, $no, $i;
    "te1_octets": TaggedExplicit<OctetString, Error, 1>, "ti0_u8": TaggedImplicit<u8, Error, 0>, "ai200_octets": ApplicationImplicit<OctetString, Error, 200>, "oid": Oid,
} } }
macro_rules! t_new { ($f:ident $ty:expr, $c:expr, $no:expr, $i:expr) => { tagged!{$f $ty, $c, $no, $i;
    "te1_octets": TaggedExplicit<OctetString, BerError<Input>, 1>, "ti0_u8": TaggedImplicit<u8, BerError<Input>, 0>, "ai200_octets": ApplicationImplicit<OctetString, BerError<Input>, 200>,
    "anyseq": AnySequence, "any": Any, "opt_u8": Option<u8>, "opt_octets": Option<OctetString>, "arr2_u8": [u8; 2], "oid": Oid,
} } }

/// the closure based entry points of sequences and sets: element T is decoded from the content
fn and_then<'a, T: FromBer<'a> + FromDer<'a> + BerParser<'a, Error = BerError<Input<'a>>> + DerParser<'a, Error = BerError<Input<'a>>> + Flat>(api: &str, i: &'a [u8]) -> Out {
    let inp = Input::from_slice(i);
    match api {
        "qb" => {
            let r = lr(i, Sequence::from_ber_and_then(i, |d| T::from_ber(d)));
            if let Ok((rem, s)) = Sequence::from_ber(i) {
                let s = leak(s);
                // the same by other routes
                let a = match s.parse(T::from_ber) {
                    Ok((_, t)) => Out::ok(i.len() - rem.len(), fl(&t)),
                    Err(Err::Incomplete(n)) => Out::inc(n),
                    Err(_) => Out::err(),
                };
                let b = match s.clone().and_then(|c| match c { Cow::Borrowed(c) => T::from_ber(c), _ => unreachable!() }) {
                    Ok((_, t)) => Out::ok(i.len() - rem.len(), fl(&t)),
                    Err(Err::Incomplete(n)) => Out::inc(n),
                    Err(_) => Out::err(),
                };
                let c = match s.clone().parse_into(T::from_ber) {
                    Ok((_, t)) => Out::ok(i.len() - rem.len(), fl(&t)),
                    Err(Err::Incomplete(n)) => Out::inc(n),
                    Err(_) => Out::err(),
                };
                if a != r || b != r || c != r {
                    return Out::bad(25);
                }
            }
            r
        }
        "qd" => lr(i, Sequence::from_der_and_then(i, |d| T::from_der(d))),
        "sb" => {
            let r = lr(i, Set::from_ber_and_then(i, |d| T::from_ber(d)));
            if let Ok((rem, s)) = Set::from_ber(i) {
                let s = leak(s);
                let c = match s.parse(T::from_ber) {
                    Ok((_, t)) => Out::ok(i.len() - rem.len(), fl(&t)),
                    Err(Err::Incomplete(n)) => Out::inc(n),
                    Err(_) => Out::err(),
                };
                if c != r {
                    return Out::bad(25);
                }
            }
            r
        }
        "sd" => lr(i, Set::from_der_and_then(i, |d| T::from_der(d))),
        "rb" => pr(i, Sequence::parse_ber_and_then(inp, |h, d| if h.tag() == Tag(16) { T::parse_ber(d) } else { Err(Err::Error(BerError::new(d, InnerError::Unsupported))) })),
        "rd" => pr(i, Sequence::parse_der_and_then(inp, |_, d| T::parse_der(d))),
        "zb" => pr(i, Set::parse_ber_and_then(inp, |_, d| T::parse_ber(d))),
        _ => pr(i, Set::parse_der_and_then(inp, |_, d| T::parse_der(d))),
    }
}
/// the same with spans, behind five other octets
fn spans_then<'a>(api: &str, i: &'a [u8]) -> Out {
    let inp = Input::new(i, 5..5 + i.len());
    type R<'a> = asn1_rs::nom::IResult<Input<'a>, Vec<i64>, BerError<Input<'a>>>;
    fn seen<'a>(h: &Header<'a>, d: Input<'a>, der: bool) -> R<'a> {
        let mut v = vec![];
        h.raw_header().map(|r| r.spans(&mut v));
        d.spans(&mut v);
        let (rem, a) = if der { Any::parse_der(d)? } else { Any::parse_ber(d)? };
        rem.spans(&mut v);
        a.spans(&mut v);
        Ok((rem, v))
    }
    let r: R = match api {
        "Rb" => Sequence::parse_ber_and_then(inp, |h, d| seen(&h, d, false)),
        "Rd" => Sequence::parse_der_and_then(inp, |h, d| seen(&h, d, true)),
        "Zb" => Set::parse_ber_and_then(inp, |h, d| seen(&h, d, false)),
        "Zd" => Set::parse_der_and_then(inp, |h, d| seen(&h, d, true)),
        _ => {
            let r = match api {
                "Ib" => Any::parse_ber_as_input(inp),
                "Id" => Any::parse_der_as_input(inp),
                "Ob" => OctetString::parse_ber_as_input(inp),
                _ => OctetString::parse_der_as_input(inp),
            };
            r.map(|(rem, (h, c))| {
                let mut v = vec![];
                h.raw_header().map(|r| r.spans(&mut v));
                c.spans(&mut v);
                (rem, v)
            })
        }
    };
    match r {
        Ok((rem, w)) => {
            let mut v = vec![];
            rem.spans(&mut v);
            v.extend(w);
            Out::ok(rem.start() - 5, v)
        }
        Err(Err::Incomplete(n)) => Out::inc(n),
        Err(_) => Out::err(),
    }
}
macro_rules! mat { ($api:expr, $ty:expr, $i:expr; $($n:literal: $t:ty),*) => { match $ty { $($n => return Some(and_then::<$t>($api, $i)),)* _ => {} } } }

/// accessors of a generic object: by value, by reference, and the conversions
fn tm(ty: &str, i: &[u8]) -> Option<Out> {
    let (rem, a) = match Any::parse_ber(Input::from_slice(i)) {
        Ok(x) => x,
        Err(Err::Incomplete(n)) => return Some(Out::inc(n)),
        Err(_) => return Some(Out::err()),
    };
    let n = rem.start();
    macro_rules! acc { ($($t:literal: $f:ident $g:ident $ty:ty),* $(,)?) => { match ty { $($t => {
        let x = a.clone().$f().map(|v| fl(&v)).ok();
        let y = a.$g().map(|v| fl(&v)).ok();
        let z = <$ty>::try_from(&a).map(|v| fl(&v)).ok();
        if x != y || y != z { return Some(Out::bad(30)); }
        return Some(match x { Some(v) => Out::ok(n, v), None => Out::err() });
    })* _ => {} } } }
    acc! { "bitstring": bitstring as_bitstring BitString, "bmp": bmpstring as_bmpstring BmpString, "bool": bool as_bool bool, "boolean": boolean as_boolean Boolean,
        "enumerated": enumerated as_enumerated Enumerated, "general": generalstring as_generalstring GeneralString,
        "gentime": generalizedtime as_generalizedtime GeneralizedTime,
        "graphic": graphicstring as_graphicstring GraphicString, "i8": i8 as_i8 i8, "i16": i16 as_i16 i16, "i32": i32 as_i32 i32, "i64": i64 as_i64 i64, "i128": i128 as_i128 i128,
        "ia5": ia5string as_ia5string Ia5String, "integer": integer as_integer Integer, "null": null as_null Null, "numeric": numericstring as_numericstring NumericString,
        "objdesc": objectdescriptor as_objectdescriptor ObjectDescriptor, "octetstring": octetstring as_octetstring OctetString, "oid": oid as_oid Oid,
        "printable": printablestring as_printablestring PrintableString, "seqraw": sequence as_sequence Sequence, "setraw": set as_set Set, "str": str as_str &str,
        "string": string as_string String, "teletex": teletexstring as_teletexstring TeletexString, "u8": u8 as_u8 u8, "u16": u16 as_u16 u16, "u32": u32 as_u32 u32,
        "u64": u64 as_u64 u64, "u128": u128 as_u128 u128, "universal": universalstring as_universalstring UniversalString, "utctime": utctime as_utctime UtcTime,
        "utf8": utf8string as_utf8string Utf8String, "videotex": videotexstring as_videotexstring VideotexString, "visible": visiblestring as_visiblestring VisibleString,
        "pdv": embedded_pdv as_embedded_pdv EmbeddedPdv,
    }
    Some(match ty {
        "reloid" => match (a.as_relative_oid(), a.clone().relative_oid()) {
            (Ok(o), Ok(p)) if o == p => Out::ok(n, fl(&o)),
            (Err(_), Err(_)) => Out::err(),
            _ => Out::bad(31),
        },
        // the string, whatever its type
        "anystr" => match a.as_any_str() {
            Ok(s) => Out::ok(n, fl(&s)),
            Err(_) => Out::err(),
        },
        "anystring" => match a.as_any_string() {
            Ok(s) => Out::ok(n, fl(&s)),
            Err(_) => Out::err(),
        },
        _ => return None,
    })
}
fn ao<'a, T>(i: &'a [u8]) -> Out
where
    for<'b> T: TryFrom<&'b Any<'a>, Error = Error> + Flat,
{
    let (rem, a) = match Any::parse_ber(Input::from_slice(i)) {
        Ok(x) => x,
        Err(Err::Incomplete(n)) => return Out::inc(n),
        Err(_) => return Out::err(),
    };
    match a.as_optional::<T>() {
        Ok(o) => Out::ok(rem.start(), fl(&o)),
        Err(_) => Out::err(),
    }
}
macro_rules! mao { ($ty:expr, $i:expr; $($n:literal: $t:ty),*) => { match $ty { $($n => return Some(ao::<$t>($i)),)* _ => {} } } }

/// an INTEGER seen through all its accessors, and built from machine integers
fn ia(i: &[u8]) -> Out {
    let (rem, x) = match Integer::parse_ber(Input::from_slice(i)) {
        Ok(x) => x,
        _ => return Out::err(),
    };
    let mut v = vec![];
    macro_rules! acc { ($($f:ident)*) => { $( match x.$f() { Ok(k) => { v.push(1); k.flat(&mut v); } Err(_) => v.push(0) } )* } }
    acc! { as_u8 as_u16 as_u32 as_u64 as_u128 as_i8 as_i16 as_i32 as_i64 as_i128 }
    // arbitrary precision agrees with i128 whenever that is available
    let big = x.as_bigint();
    if let Ok(k) = x.as_i128() {
        if big.to_string() != k.to_string() {
            return Out::bad(40);
        }
        macro_rules! cons { ($($t:ident $f:ident)*) => { $( if let Ok(k) = x.$t() {
            let y = Integer::$f(k);
            // a constructed integer has the unique minimal content of this value
            if y.as_bigint() != big || y.to_der_vec().ok() != k.to_der_vec().ok() { return Out::bad(41); }
        } )* } }
        cons! { as_u8 from_u8 as_u16 from_u16 as_u32 from_u32 as_u64 from_u64 as_u128 from_u128 as_i8 from_i8 as_i16 from_i16 as_i32 from_i32 as_i64 from_i64 as_i128 from_i128 }
    }
    match (x.as_biguint(), x.as_u128()) {
        (Ok(b), Ok(k)) if b.to_string() != k.to_string() => return Out::bad(42),
        (Ok(b), _) if b.to_string() != big.to_string() => return Out::bad(43),
        (Err(_), Ok(_)) => return Out::bad(44),
        _ => (),
    }
    v.push(x.as_biguint().is_ok() as i64);
    // value as signed magnitude
    let (s, m) = big.to_bytes_be();
    v.push(match s { num_bigint::Sign::Minus => 1, _ => 0 });
    let m: Vec<u8> = m.into_iter().skip_while(|b| *b == 0).collect();
    fl_bytes(&mut v, &m);
    Out::ok(rem.start(), v)
}
/// prefix relation between two identifiers: <<a, b>> contents
fn sw(i: &V) -> Out {
    let a = Oid::new(Cow::Owned(i.list()[0].bytes()));
    let b = Oid::new(Cow::Owned(i.list()[1].bytes()));
    Out::ok(0, vec![a.starts_with(&b) as i64, (a == b) as i64])
}
/// a BIT STRING made by other means than decoding: (how, octets, a, b)
fn bt(i: &V) -> Out {
    use bitvec::prelude::*;
    let l = i.list();
    let (how, octets, a, b) = (l[0].int(), l[1].bytes(), l[2].int() as usize, l[3].int() as usize);
    let bits = octets.view_bits::<Msb0>();
    let s = match how {
        0 => BitString::new(a as u8, &octets),
        1 => BitString::from(&bits[a..b]),
        2 => {
            let (mut s, mut t) = (BitString::from(&bits[..a]), BitString::from(&bits[a..b]));
            s.append(&mut t);
            s
        }
        _ => {
            let mut s = BitString::from(&bits[a..b]);
            for mut bit in s.as_mut_bitslice().iter_mut() {
                *bit = !*bit;
            }
            s
        }
    };
    if s.as_ref() != s.as_raw_slice() || s.is_empty() != (s.len() == 0) || s.as_bitslice().len() != s.len() {
        return Out::bad(52);
    }
    let d = match s.to_der_vec() {
        Ok(d) => d,
        Err(_) => return Out { st: "eerr", n: 0, v: vec![] },
    };
    if s.to_ber_vec().ok().as_ref() != Some(&d) {
        return Out::bad(53);
    }
    let mut v = fl(&s);
    v.push(d.len() as i64);
    v.extend(d.iter().map(|x| *x as i64));
    Out::ok(0, v)
}
/// a binary REAL re-encoded with a requested base
fn re(i: &V) -> Out {
    let l = i.list();
    let (m, e, b) = (l[0].int() as f64, l[1].int() as i32, l[2].int() as u8);
    let r = Real::binary(m, 2, e).with_enc_base(b);
    let d = match r.to_der_vec() {
        Ok(d) => d,
        Err(_) => return Out { st: "eerr", n: 0, v: vec![] },
    };
    if r.to_ber_vec().ok().as_ref() != Some(&d) {
        return Out::bad(50);
    }
    match Real::parse_der(Input::from_slice(&d)) {
        Ok((rem, x)) if rem.is_empty() => Out::ok(0, fl(&x.f64())),
        _ => Out::bad(51),
    }
}
/// header built from its fields: (class, constructed, tag high, tag low, length; -1 = indefinite)
fn hd(i: &V) -> Out {
    let l = i.ints();
    let len = if l[4] < 0 { Length::Indefinite } else { Length::Definite(l[4] as usize) };
    let h = Header::new(class_of(l[0]), l[1] == 1, Tag((l[2] * 65536 + l[3]) as u32), len);
    let mut w = vec![];
    let n = h.ber_encode(&mut w);
    let mut w2 = vec![];
    let n2 = h.der_encode(&mut w2);
    match (n, n2) {
        (Ok(a), Ok(b)) if a == w.len() && b == w2.len() => {
            let mut v: Vec<i64> = vec![];
            fl_bytes(&mut v, &w);
            fl_bytes(&mut v, &w2);
            Out::ok(0, v)
        }
        (Ok(a), Err(_)) if a == w.len() => {
            let mut v: Vec<i64> = vec![];
            fl_bytes(&mut v, &w);
            v.push(-1);
            Out::ok(0, v)
        }
        (Err(_), Err(_)) => Out { st: "eerr", n: 0, v: vec![] },
        _ => Out::bad(60),
    }
}
/// the length helpers on (tag high, tag low, is the length definite, length octets)
fn hl(i: &V) -> Out {
    let l = i.list();
    let tag = Tag((l[0].int() * 65536 + l[1].int()) as u32);
    let len = match l[2].int() {
        0 => Length::Indefinite,
        _ => Length::Definite(l[3].bytes().iter().fold(0u64, |a, b| a * 256 + *b as u64) as usize),
    };
    let o = |r: std::result::Result<usize, InnerError>| r.map_or(-1, |x| x as i64);
    Out::ok(0, vec![ber_tag_length(tag) as i64, o(ber_length_length(len)), o(ber_header_length(tag, len))])
}
/// elements produced by an iterator: for each call, 1 and the value, 0 for an error, 2 for the end; two more calls after the end
fn iter_log<T: Flat, E>(it: impl Iterator<Item = std::result::Result<T, E>>) -> Out {
    let mut v = vec![];
    let mut it = it;
    let mut ends = 0;
    let mut errors = 0;
    for _ in 0..200_000 {
        match it.next() {
            Some(Ok(t)) => {
                v.push(1);
                t.flat(&mut v);
            }
            Some(Err(_)) => {
                v.push(0);
                errors += 1;
            }
            None => {
                v.push(2);
                ends += 1;
                if ends == 3 {
                    break;
                }
            }
        }
    }
    if ends != 3 || errors > 1 {
        return Out::bad(70);
    }
    Out::ok(0, v)
}
fn jb<'a, T: FromBer<'a> + Flat>(i: &'a [u8]) -> Out {
    let r = iter_log(SequenceIterator::<T, BerMode>::new(i));
    let s = leak(Sequence::new(Cow::Borrowed(i)));
    let t = leak(Set::new(Cow::Borrowed(i)));
    let all: std::result::Result<Vec<T>, Error> = SequenceIterator::<T, BerMode>::new(i).collect();
    let all = all.map(|x| fl(&x)).ok();
    if iter_log(s.ber_iter::<T, Error>()) != r || iter_log(t.ber_iter::<T, Error>()) != r {
        return Out::bad(71);
    }
    let a2: std::result::Result<Vec<T>, Error> = s.ber_sequence_of();
    let a3: std::result::Result<Vec<T>, Error> = t.ber_set_of();
    if a2.map(|x| fl(&x)).ok() != all || a3.map(|x| fl(&x)).ok() != all {
        return Out::bad(72);
    }
    r
}
fn jd<'a, T: FromDer<'a> + Flat>(i: &'a [u8]) -> Out {
    let r = iter_log(SequenceIterator::<T, DerMode>::new(i));
    let s = leak(Sequence::new(Cow::Borrowed(i)));
    let t = leak(Set::new(Cow::Borrowed(i)));
    let all: std::result::Result<Vec<T>, Error> = SequenceIterator::<T, DerMode>::new(i).collect();
    let all = all.map(|x| fl(&x)).ok();
    if iter_log(s.der_iter::<T, Error>()) != r || iter_log(t.der_iter::<T, Error>()) != r {
        return Out::bad(71);
    }
    let a2: std::result::Result<Vec<T>, Error> = s.der_sequence_of();
    let a3: std::result::Result<Vec<T>, Error> = t.der_set_of();
    let a4: std::result::Result<Vec<T>, Error> = Sequence::new(Cow::Borrowed(i)).into_der_sequence_of_ref();
    let a5: std::result::Result<Vec<T>, Error> = Set::new(Cow::Borrowed(i)).into_der_set_of_ref();
    if a2.map(|x| fl(&x)).ok() != all || a3.map(|x| fl(&x)).ok() != all || a4.map(|x| fl(&x)).ok() != all || a5.map(|x| fl(&x)).ok() != all {
        return Out::bad(72);
    }
    r
}
fn nb<'a, T: BerParser<'a, Error = BerError<Input<'a>>> + Flat>(i: &'a [u8]) -> Out {
    iter_log(SequenceIteratorInput::<T, BerMode>::new(Input::from_slice(i)))
}
fn nd<'a, T: DerParser<'a, Error = BerError<Input<'a>>> + Tagged + Flat>(i: &'a [u8]) -> Out {
    iter_log(SequenceIteratorInput::<T, DerMode>::new(Input::from_slice(i)))
}
struct Elt<'a>(Input<'a>, Any<'a>);
impl Flat for Elt<'_> {
    fn flat(&self, o: &mut Vec<i64>) {
        o.extend([self.0.start() as i64, self.0.end() as i64, self.1.data.start() as i64, self.1.data.end() as i64]);
        self.1.flat(o);
        if self.0.len() != self.0.end() - self.0.start() || self.1.data.len() != self.1.data.end() - self.1.data.start() {
            o.push(-70);
        }
    }
}
/// (the input is given with octets before it, so that spans are seen to be absolute)
fn kb(i: &[u8], der: bool) -> Out {
    use asn1_rs::nom::Input as _;
    let mut buf = vec![9; 5];
    buf.extend_from_slice(i);
    let inp = Input::from_slice(&buf).take_from(5);
    let r = if der {
        iter_log(AnyIterator::<DerMode>::new(inp).map(|r| r.map(|(a, b)| Elt(a, b))))
    } else {
        iter_log(AnyIterator::<BerMode>::new(inp).map(|r| r.map(|(a, b)| Elt(a, b))))
    };
    r
}
/// collect everything from an iterator of generic objects
fn ck<'a, T>(i: &'a [u8], der: bool) -> Out
where
    T: BerParser<'a, Error = BerError<Input<'a>>> + DerParser<'a, Error = BerError<Input<'a>>> + Flat,
{
    let r = if der {
        let mut it = AnyIterator::<DerMode>::new(Input::from_slice(i));
        it.try_parse_collect::<Vec<T>, T>()
    } else {
        let mut it = AnyIterator::<BerMode>::new(Input::from_slice(i));
        it.try_parse_collect::<Vec<T>, T>()
    };
    match r {
        Ok((rem, v)) => {
            if !rem.is_empty() || rem.start() != i.len() {
                return Out::bad(73);
            }
            Out::ok(i.len(), fl(&v))
        }
        Err(_) => Out::err(),
    }
}
fn ca(i: &[u8], der: bool) -> Out {
    let r = if der { AnyIterator::<DerMode>::new(Input::from_slice(i)).try_collect::<Vec<Any>>() } else { AnyIterator::<BerMode>::new(Input::from_slice(i)).try_collect::<Vec<Any>>() };
    match r {
        Ok((rem, v)) if rem.is_empty() => Out::ok(i.len(), fl(&v)),
        Ok(_) => Out::bad(73),
        Err(_) => Out::err(),
    }
}
macro_rules! it { ($f:ident $ty:expr, $i:expr; $($n:literal: $t:ty),*) => { match $ty { $($n => return Some($f::<$t>($i)),)* _ => {} } } }
macro_rules! itb { ($f:ident $ty:expr, $i:expr, $d:expr; $($n:literal: $t:ty),*) => { match $ty { $($n => return Some($f::<$t>($i, $d)),)* _ => {} } } }

/// containers built from values: (kind, list of encodings)
fn bl(ty: &str, i: &V) -> Option<Out> {
    let enc: Vec<Vec<u8>> = i.list().iter().map(|x| x.bytes()).collect();
    let vals: std::result::Result<Vec<u8>, ()> = enc.iter().map(|e| u8::parse_ber(Input::from_slice(e)).map(|x| x.1).map_err(|_| ())).collect();
    let anys: std::result::Result<Vec<Any>, ()> = enc.iter().map(|e| Any::parse_ber(Input::from_slice(e)).map(|x| x.1).map_err(|_| ())).collect();
    let show = |r: SerializeResult<Vec<u8>>| match r {
        Ok(b) => Out::ok(0, b.iter().map(|x| *x as i64).collect()),
        Err(_) => Out { st: "eerr", n: 0, v: vec![] },
    };
    Some(match ty {
        "seq_iter" => {
            let v = match vals { Ok(v) => v, _ => return Some(Out::err()) };
            show(Sequence::from_iter_to_der(v.iter()).and_then(|s| s.to_der_vec()))
        }
        "set_iter" => {
            let v = match vals { Ok(v) => v, _ => return Some(Out::err()) };
            show(Set::from_iter_to_der(v.iter()).and_then(|s| s.to_der_vec()))
        }
        "anyseq" => {
            let v = match anys { Ok(v) => v, _ => return Some(Out::err()) };
            let mut s = AnySequence::new(vec![]);
            for a in v.iter() { s.push(a.clone()); }
            if s.len() != v.len() || s.is_empty() != v.is_empty() { return Some(Out::bad(80)); }
            let t: AnySequence = v.into_iter().collect();
            if fl(&t) != fl(&s) { return Some(Out::bad(81)); }
            show(s.to_der_vec())
        }
        "anyset" => {
            let v = match anys { Ok(v) => v, _ => return Some(Out::err()) };
            let s: AnySet = v.into_iter().collect();
            show(s.to_der_vec())
        }
        "seqof" => {
            let v = match vals { Ok(v) => v, _ => return Some(Out::err()) };
            let mut s = SequenceOf::<u8>::new(vec![]);
            for a in v.iter() { s.push(*a); }
            let t: SequenceOf<u8> = v.iter().copied().collect();
            if s != t || t.len() != v.len() { return Some(Out::bad(82)); }
            show(s.to_der_vec())
        }
        "setof" => {
            let v = match vals { Ok(v) => v, _ => return Some(Out::err()) };
            let mut s = SetOf::<u8>::new(vec![]);
            for a in v.iter() { s.push(*a); }
            show(s.to_der_vec())
        }
        _ => return None,
    })
}

pub fn run_v(op: &str, i: &V) -> Option<Out> {
    let (api, ty) = op.split_once(':')?;
    match api {
        "xb" | "xd" | "yb" | "yd" | "tb" | "td" | "ub" | "ud" | "vb" | "vd" | "wb" | "wd" => {
            let l = i.list();
            let (c, no, b) = (class_of(l[0].int()), l[1].int() as u32, l[2].bytes());
            match api {
                "xb" => { t_types!(xb ty, c, no, &b); t_new!(xb ty, c, no, &b); }
                "xd" => { t_types!(xd ty, c, no, &b); t_new!(xd ty, c, no, &b); }
                "yb" => { t_types!(yb ty, c, no, &b); t_new!(yb ty, c, no, &b); }
                "yd" => { t_types!(yd ty, c, no, &b); t_new!(yd ty, c, no, &b); }
                "tb" => { t_types!(tb ty, c, no, &b); t_legacy!(tb ty, c, no, &b); }
                "td" => { t_types!(td ty, c, no, &b); t_legacy!(td ty, c, no, &b); }
                "ub" => { t_types!(ub ty, c, no, &b); }
                "ud" => { t_types!(ud ty, c, no, &b); }
                "vb" => { t_types!(vb ty, c, no, &b); t_legacy!(vb ty, c, no, &b); }
                "vd" => { t_types!(vd ty, c, no, &b); t_legacy!(vd ty, c, no, &b); }
                "wb" => { t_types!(wb ty, c, no, &b); t_legacy!(wb ty, c, no, &b); }
                _ => { t_types!(wd ty, c, no, &b); t_legacy!(wd ty, c, no, &b); }
            }
            None
        }
        "sw" => Some(sw(i)),
        "re" => Some(re(i)),
        "bt" => Some(bt(i)),
        "hd" => Some(hd(i)),
        "hl" => Some(hl(i)),
        "bl" => bl(ty, i),
        "ei" => ei(ty, i),
        _ => run(op, &i.bytes()),
    }
}
fn run(op: &str, i: &[u8]) -> Option<Out> {
    let (api, ty) = op.split_once(':')?;
    match api {
        "qb" | "qd" | "sb" | "sd" | "rb" | "rd" | "zb" | "zd" => { mat! {api, ty, i; "u8": u8, "octetstring": OctetString, "oid": Oid, "any": Any, "vec_u8": Vec<u8>, "opt_bool": Option<bool>} }
        "Rb" | "Rd" | "Zb" | "Zd" | "Ib" | "Id" | "Ob" | "Od" if ty == "any" => return Some(spans_then(api, i)),
        "tm" => return tm(ty, i),
        "ao" => { mao! {ty, i; "u8": u8, "octetstring": OctetString, "bool": bool, "utf8": Utf8String, "oid": Oid, "seqraw": Sequence, "integer": Integer, "null": Null, "gentime": GeneralizedTime} }
        "ia" => return Some(ia(i)),
        "rl" => return Some(lr(i, Oid::from_ber_relative(i))),
        "rm" => return Some(lr(i, Oid::from_der_relative(i))),
        "jb" => { it! {jb ty, i; "u8": u8, "any": Any, "bool": bool, "octetstring": OctetString, "vec_u8": Vec<u8>, "opt_u8": Option<u8>} }
        "jd" => { it! {jd ty, i; "u8": u8, "any": Any, "bool": bool, "octetstring": OctetString, "vec_u8": Vec<u8>} }
        "nb" => { it! {nb ty, i; "u8": u8, "any": Any, "bool": bool, "octetstring": OctetString, "vec_u8": Vec<u8>} }
        "nd" => { it! {nd ty, i; "u8": u8, "bool": bool, "octetstring": OctetString, "vec_u8": Vec<u8>} }
        "kb" if ty == "any" => return Some(kb(i, false)),
        "kd" if ty == "any" => return Some(kb(i, true)),
        "cb" if ty == "any" => return Some(ca(i, false)),
        "cd" if ty == "any" => return Some(ca(i, true)),
        "cb" => { itb! {ck ty, i, false; "u8": u8, "bool": bool, "octetstring": OctetString, "vec_u8": Vec<u8>} }
        "cd" => { itb! {ck ty, i, true; "u8": u8, "bool": bool, "octetstring": OctetString, "vec_u8": Vec<u8>} }
        _ => {}
    }
    None
}

/// indefinite-length encodings: a list of lists of numbers
fn ei(ty: &str, i: &V) -> Option<Out> {
    let ll: Vec<Vec<u8>> = i.list().iter().map(|x| x.bytes()).collect();
    let iv = |l: &Vec<u8>| IndefiniteVec(l.clone());
    fn show<T: ToBer>(t: &T) -> Out {
        let (mut a, mut h, mut c) = (vec![], vec![], vec![]);
        let (n, nh, nc) = match (t.ber_encode(&mut a), t.ber_write_header(&mut h), t.ber_write_content(&mut c)) {
            (Ok(a), Ok(b), Ok(c)) => (a, b, c),
            _ => return Out { st: "eerr", n: 0, v: vec![] },
        };
        if n != a.len() || nh != h.len() || nc != c.len() || t.to_ber_vec().ok().as_ref() != Some(&a) {
            return Out::bad(90);
        }
        if h.last() == Some(&0x80) && (t.ber_content_len() != Length::Indefinite || t.ber_total_len() != Length::Indefinite) {
            return Out::bad(91);
        }
        let mut v = vec![];
        fl_bytes(&mut v, &a);
        Out::ok(0, v)
    }
    let tagged = |r: SerializeResult<usize>, w: Vec<u8>| match r {
        Ok(n) if n == w.len() => {
            let mut v = vec![];
            fl_bytes(&mut v, &w);
            Out::ok(0, v)
        }
        Ok(_) => Out::bad(92),
        Err(_) => Out { st: "eerr", n: 0, v: vec![] },
    };
    let mut w = vec![];
    Some(match ty {
        "iv_u8" => show(&iv(&ll[0])),
        "iv_iv" => show(&IndefiniteVec(ll.iter().map(iv).collect::<Vec<_>>())),
        "iv_v" => show(&IndefiniteVec(ll.clone())),
        "v_iv" => show(&ll.iter().map(iv).collect::<Vec<_>>()),
        "te_iv" => {
            let r = iv(&ll[0]).ber_encode_tagged_explicit(Class::ContextSpecific, 1, &mut w);
            tagged(r, w)
        }
        "ti_iv" => {
            let r = iv(&ll[0]).ber_encode_tagged_implicit(Class::ContextSpecific, 1, &mut w);
            tagged(r, w)
        }
        "tve_iv" => show(&TaggedValue::<_, Error, Explicit, 2, 1>::explicit(iv(&ll[0]))),
        "tvi_iv" => show(&TaggedValue::<_, Error, Implicit, 2, 1>::implicit(iv(&ll[0]))),
        _ => return None,
    })
}
