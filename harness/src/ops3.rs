//! Encoding into a destination that takes short pieces, is interrupted, or fails.
use crate::out::Out;
use crate::replay::V;
use asn1_rs::*;
use std::io::{Error as IoError, ErrorKind, Write};

pub struct Destination {
    pub got: Vec<u8>,
    short: usize,
    interruptions: Vec<usize>,
    fault: i64,
    kind: i64,
    failed: bool,
}
impl Write for Destination {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let p = self.got.len();
        if let Some(k) = self.interruptions.iter().position(|x| *x == p) {
            self.interruptions.swap_remove(k);
            return Err(IoError::new(ErrorKind::Interrupted, "interrupted"));
        }
        if self.failed || self.fault == p as i64 {
            self.failed = true;
            return if self.kind == 0 { Err(IoError::new(ErrorKind::Other, "fault")) } else { Ok(0) };
        }
        let mut n = if self.short == 0 { b.len() } else { b.len().min(self.short) };
        if self.fault > p as i64 {
            n = n.min(self.fault as usize - p);
        }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl Destination {
    fn new(l: &[V]) -> Self {
        Destination { got: vec![], short: l[1].int() as usize, interruptions: l[2].ints().iter().map(|x| *x as usize).collect(), fault: l[3].int(), kind: l[4].int(), failed: false }
    }
}
fn report(w: Destination, r: SerializeResult<usize>) -> Out {
    let v: Vec<i64> = w.got.iter().map(|x| *x as i64).collect();
    match r {
        Ok(n) => Out::ok(n, v),
        Err(_) => Out { st: "fail", n: 0, v },
    }
}
pub fn wber<'a, T: BerParser<'a> + ToBer>(i: &'a [u8], l: &[V]) -> Out {
    let t = match T::parse_ber(Input::from_slice(i)) {
        Ok((_, t)) => t,
        Err(_) => return Out::err(),
    };
    let mut w = Destination::new(l);
    let r = match l[5].int() {
        0 => t.ber_encode(&mut w),
        1 => t.write_ber(&mut w),
        2 => t.ber_encode_tagged_explicit(Class::ContextSpecific, 31, &mut w),
        3 => t.ber_encode_tagged_implicit(Class::ContextSpecific, 31, &mut w),
        4 => t.ber_write_header(&mut w),
        _ => t.ber_write_content(&mut w),
    };
    report(w, r)
}
pub fn wder<'a, T: BerParser<'a> + ToDer>(i: &'a [u8], l: &[V]) -> Out {
    let t = match T::parse_ber(Input::from_slice(i)) {
        Ok((_, t)) => t,
        Err(_) => return Out::err(),
    };
    let mut w = Destination::new(l);
    let r = match l[5].int() {
        0 => t.der_encode(&mut w),
        1 => t.write_der(&mut w),
        2 => t.der_encode_tagged_explicit(Class::ContextSpecific, 31, &mut w),
        3 => t.der_encode_tagged_implicit(Class::ContextSpecific, 31, &mut w),
        4 => t.der_write_header(&mut w),
        _ => t.der_write_content(&mut w),
    };
    report(w, r)
}
