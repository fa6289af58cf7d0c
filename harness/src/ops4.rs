//! More operations: formatting, moments in time, tagged values of generic objects, sub-objects.
use crate::flat::*;
use crate::ops::*;
use crate::ops2::class_of;
use crate::out::Out;
use crate::replay::V;
use asn1_rs::nom::{Err, Parser as _};
use asn1_rs::*;
use std::collections::BTreeSet;
use std::fmt::Debug;

fn fl<T: Flat>(t: &T) -> Vec<i64> {
    let mut v = vec![];
    t.flat(&mut v);
    v
}
/// formatting a value, or the error, must not panic (what is written is not specified)
pub fn fm<'a, T: BerParser<'a> + Debug>(i: &'a [u8]) -> Out
where
    T::Error: Debug,
{
    let inp = Input::from_slice(i);
    let n = match T::parse_ber(inp) {
        Ok((rem, t)) => format!("{t:?}{t:#?}{rem:?}{rem}").len(),
        Err(Err::Error(e)) | Err(Err::Failure(e)) => format!("{e:?}{e:#?}").len(),
        Err(e) => format!("{e:?}").len(),
    };
    Out::ok(n, vec![])
}
/// ... of the slice based interface
pub fn fl_<'a, T: FromBer<'a> + FromDer<'a> + Debug>(i: &'a [u8]) -> Out {
    let mut n = 0;
    for r in [T::from_ber(i), T::from_der(i)] {
        n += match r {
            Ok((rem, t)) => format!("{t:?}{t:#?}{rem:?}").len(),
            Err(Err::Error(e)) | Err(Err::Failure(e)) => format!("{e}{e:?}{e:#?}").len(),
            Err(e) => format!("{e:?}").len(),
        };
    }
    Out::ok(n, vec![])
}
/// text form, and the moment denoted: days since 1970-01-01, seconds of the day, milliseconds
fn moment(o: &mut Vec<i64>, r: Result<time::OffsetDateTime>) {
    match r {
        Ok(t) => {
            let s = t.unix_timestamp();
            o.extend([1, s.div_euclid(86400), s.rem_euclid(86400), t.millisecond() as i64, t.offset().whole_seconds() as i64]);
        }
        Err(_) => o.push(0),
    }
}
fn dt(ty: &str, i: &[u8]) -> Option<Out> {
    let mut v = vec![];
    let n = match ty {
        "utctime" => match UtcTime::parse_ber(Input::from_slice(i)) {
            Ok((rem, t)) => {
                t.to_string().into_bytes().flat(&mut v);
                moment(&mut v, t.utc_datetime());
                moment(&mut v, t.utc_adjusted_datetime());
                match t.timestamp() {
                    Ok(s) => v.extend([1, s.div_euclid(86400), s.rem_euclid(86400)]),
                    Err(_) => v.push(0),
                }
                rem.start()
            }
            Err(_) => return Some(Out::err()),
        },
        "gentime" => match GeneralizedTime::parse_ber(Input::from_slice(i)) {
            Ok((rem, t)) => {
                t.to_string().into_bytes().flat(&mut v);
                moment(&mut v, t.utc_datetime());
                rem.start()
            }
            Err(_) => return Some(Out::err()),
        },
        _ => return None,
    };
    Some(Out::ok(n, v))
}
/// a tagged value made from a generic object
fn ax<'a, T: FromBer<'a> + Flat, const C: u8, const N: u32>(i: &'a [u8]) -> Out {
    match Any::from_ber(i) {
        Ok((rem, a)) => {
            let r = a.as_tagged_explicit::<T, Error, C, N>().map(|t| fl(&t.into_inner()));
            let s = TaggedValue::<T, Error, Explicit, C, N>::try_from(a.clone()).map(|t| fl(&t.into_inner()));
            match (r, s) {
                (Ok(x), Ok(y)) if x == y => Out::ok(i.len() - rem.len(), x),
                (Err(_), Err(_)) => Out::err(),
                _ => Out::bad(60),
            }
        }
        Err(e) => lr(i, Err::<(&[u8], u8), _>(e)),
    }
}
fn ay<'a, T: TryFrom<Any<'a>, Error = Error> + Tagged + Flat, const C: u8, const N: u32>(i: &'a [u8]) -> Out {
    match Any::from_ber(i) {
        Ok((rem, a)) => {
            let r = a.as_tagged_implicit::<T, Error, C, N>().map(|t| fl(&t.into_inner()));
            let s = TaggedValue::<T, Error, Implicit, C, N>::try_from(a.clone()).map(|t| fl(&t.into_inner()));
            match (r, s) {
                (Ok(x), Ok(y)) if x == y => Out::ok(i.len() - rem.len(), x),
                (Err(_), Err(_)) => Out::err(),
                _ => Out::bad(60),
            }
        }
        Err(e) => lr(i, Err::<(&[u8], u8), _>(e)),
    }
}
/// the content of a generic object decoded as T: the octets used are those of the content
fn cn<T: FromBer<'static> + FromDer<'static> + Flat>(i: &[u8], der: bool) -> Out {
    // the object is leaked, for the borrow to last long enough for any T
    let i: &'static [u8] = Box::leak(i.to_vec().into_boxed_slice());
    match Any::from_ber(i) {
        Ok((_, a)) => {
            let a: &'static Any<'static> = Box::leak(Box::new(a));
            if a.as_bytes() != a.data.as_bytes2() {
                return Out::bad(61);
            }
            if der {
                lr(a.as_bytes(), a.parse_content_der::<T>())
            } else {
                lr(a.as_bytes(), a.parse_content_ber::<T>())
            }
        }
        Err(e) => lr(i, Err::<(&[u8], u8), _>(e)),
    }
}
/// the sub-objects of a generic object up to the first error
fn ie(i: &[u8], der: bool) -> Out {
    fn list<'a, I: Iterator<Item = core::result::Result<(Input<'a>, Any<'a>), BerError<Input<'a>>>>>(it: I, v: &mut Vec<i64>) {
        let mut n = 0;
        let mut all = vec![];
        let mut end = 0;
        for r in it {
            if end == 1 {
                end = 2;
                break;
            }
            match r {
                Ok((_, a)) => {
                    n += 1;
                    a.flat(&mut all);
                }
                Err(_) => end = 1,
            }
        }
        v.push(n);
        v.extend(all);
        v.push(end);
    }
    match Any::from_ber(i) {
        Ok((rem, a)) => {
            let mut v = vec![];
            if der {
                list(a.iter_elements::<DerMode>(), &mut v);
            } else {
                list(a.iter_elements::<BerMode>(), &mut v);
            }
            Out::ok(i.len() - rem.len(), v)
        }
        Err(e) => lr(i, Err::<(&[u8], u8), _>(e)),
    }
}
/// the helpers for tagged values in DER: the number is given, the class is left to the caller
fn gx<'a, T: FromDer<'a> + Flat>(no: u32, i: &'a [u8]) -> Out {
    let mut p = parse_der_tagged_explicit::<_, T, Error>(no);
    let r = lr(i, p.parse(i).map(|(rem, t)| (rem, t.inner)));
    let mut g = parse_der_tagged_explicit_g(no, |d: &'a [u8], h: Header<'a>| {
        if h.is_primitive() {
            return Err(Err::Error(Error::ConstructExpected));
        }
        match T::from_der(d) {
            Err(Err::Incomplete(_)) => Err(Err::Error(Error::InvalidLength)),
            r => r,
        }
    });
    if lr(i, g.parse(i)) != r {
        return Out::bad(62);
    }
    r
}
fn gy<'a, T: TryFrom<Any<'a>, Error = Error> + Tagged + CheckDerConstraints + Flat>(no: u32, i: &'a [u8]) -> Out {
    let mut p = parse_der_tagged_implicit::<_, T, Error>(no);
    let r = lr(i, p.parse(i).map(|(rem, t)| (rem, t.inner)));
    let mut g = parse_der_tagged_implicit_g(no, |d: &'a [u8], tag: Tag, h: Header<'a>| {
        if tag != Tag(no) || h.tag() != T::TAG {
            return Err(Err::Error(Error::BerTypeError));
        }
        let any = Any::new(h, Input::from_slice(d));
        T::check_constraints(&any).map_err(Err::Error)?;
        T::try_from(any).map(|t| (d, t)).map_err(Err::Error)
    });
    if lr(i, g.parse(i)) != r {
        return Out::bad(63);
    }
    r
}
/// encoding of values tagged at run time
fn tagged_out(n: usize, len: Result<usize>, r: SerializeResult<Vec<u8>>) -> Out {
    match r {
        Err(_) => Out { st: "eerr", n: 0, v: vec![] },
        Ok(w) if len.map_or(true, |l| l != w.len()) => Out::bad(64),
        Ok(w) => Out::ok(n, w.iter().map(|x| *x as i64).collect()),
    }
}
fn xp<'a, T: BerParser<'a> + ToBer + ToDer>(api: &str, c: Class, no: u32, i: &'a [u8]) -> Out {
    match T::parse_ber(Input::from_slice(i)) {
        Ok((rem, t)) => {
            let cons = t.ber_tag_info().1;
            let definite = |l: Length| l.definite();
            if api.starts_with('X') {
                let p = TaggedParser::<Explicit, T>::new_explicit(c, no, t);
                if api == "Xb" {
                    tagged_out(rem.start(), definite(p.ber_total_len()), p.to_ber_vec())
                } else {
                    tagged_out(rem.start(), definite(p.der_total_len()), p.to_der_vec())
                }
            } else {
                let p = TaggedParser::<Implicit, T>::new_implicit(c, cons, no, t);
                if api == "Yb" {
                    tagged_out(rem.start(), definite(p.ber_total_len()), p.to_ber_vec())
                } else {
                    tagged_out(rem.start(), definite(p.der_total_len()), p.to_der_vec())
                }
            }
        }
        Err(_) => Out::err(),
    }
}
macro_rules! m { ($f:ident $ty:expr, $i:expr; $($n:literal: $t:ty),* $(,)?) => { match $ty { $($n => return Some($f::<$t>($i)),)* _ => {} } } }
macro_rules! m2 { ($f:ident $ty:expr, $a:tt; $($n:literal: $t:ty),* $(,)?) => { match $ty { $($n => return Some($f::<$t>$a),)* _ => {} } } }
macro_rules! some_types { ($($pre:tt)*) => { m2!{ $($pre)*;
    "u8": u8, "u32": u32, "i64": i64, "bool": bool, "null": Null, "enumerated": Enumerated, "octetstring": OctetString, "bitstring": BitString, "utf8": Utf8String, "printable": PrintableString, "bmp": BmpString, "utctime": UtcTime, "gentime": GeneralizedTime, "real": Real, "seqraw": Sequence, "setraw": Set,
    "vec_u8": Vec<u8>, "integer": Integer, "string": String, "setof_u8": SetOf<u8>, "seqof_octets": SequenceOf<OctetString> } } }

pub fn run_v(op: &str, i: &V) -> Option<Out> {
    let (api, ty) = op.split_once(':')?;
    match api {
        "fm" => {
            let i = &i.bytes()[..];
            with_leafs!(m fm ty, i);
            m!{fm ty, i; "any": Any, "tup1": (OctetString,), "tup2": (u8, bool), "tup3": (bool, Null, Vec<u8>)};
            with_conts!(m fm ty, i);
            with_conts_nolegacy!(m fm ty, i);
            with_opts!(m fm ty, i);
            with_opts_tag!(m fm ty, i);
            with_anys!(m fm ty, i);
            m! {fm ty, i; "header": Header, "eoc": EndOfContent, "pdv": EmbeddedPdv};
        }
        "fl" => {
            let i = &i.bytes()[..];
            with_leafs!(m fl_ ty, i);
            m! {fl_ ty, i; "any": Any, "header": Header, "pdv": EmbeddedPdv};
            with_conts!(m fl_ ty, i);
            with_opts!(m fl_ ty, i);
            with_ltags!(m fl_ ty, i);
        }
        "dt" => return dt(ty, &i.bytes()),
        "ax" => {
            let i = &i.bytes()[..];
            match ty {
                "te0_u8" => return Some(ax::<u8, 2, 0>(i)),
                "te1_octets" => return Some(ax::<OctetString, 2, 1>(i)),
                "te31_bool" => return Some(ax::<bool, 2, 31>(i)),
                "ae2_u8" => return Some(ax::<u8, 1, 2>(i)),
                "pe3_bool" => return Some(ax::<bool, 3, 3>(i)),
                "ue17_u8" => return Some(ax::<u8, 0, 17>(i)),
                "te0_vec_u8" => return Some(ax::<Vec<u8>, 2, 0>(i)),
                _ => {}
            }
        }
        "ay" => {
            let i = &i.bytes()[..];
            match ty {
                "ti0_u8" => return Some(ay::<u8, 2, 0>(i)),
                "ti1_octets" => return Some(ay::<OctetString, 2, 1>(i)),
                "ti31_bool" => return Some(ay::<bool, 2, 31>(i)),
                "ai2_u8" => return Some(ay::<u8, 1, 2>(i)),
                "pi3_bool" => return Some(ay::<bool, 3, 3>(i)),
                "ui17_u8" => return Some(ay::<u8, 0, 17>(i)),
                "ti2_vec_u8" => return Some(ay::<Vec<u8>, 2, 2>(i)),
                "ti5_utf8" => return Some(ay::<Utf8String, 2, 5>(i)),
                _ => {}
            }
        }
        "cn" | "cm" => {
            let b = i.bytes();
            m2! {cn ty, (&b, api == "cm"); "u8": u8, "bool": bool, "octetstring": OctetString, "vec_u8": Vec<u8>, "any": Any, "oid": Oid, "utf8": Utf8String, "opt_u8": Option<u8>}
        }
        "ie" | "if" if ty == "any" => return Some(ie(&i.bytes(), api == "if")),
        "gx" | "gy" => {
            let x = i.list();
            let b = x[1].bytes();
            let no = x[0].int() as u32;
            if api == "gx" {
                some_types!(gx ty, (no, &b));
            } else {
                some_types!(gy ty, (no, &b));
            }
        }
        "Xb" | "Xd" | "Yb" | "Yd" => {
            let x = i.list();
            let b = x[2].bytes();
            some_types!(xp ty, (api, class_of(x[0].int()), x[1].int() as u32, &b));
        }
        _ => {}
    }
    None
}
