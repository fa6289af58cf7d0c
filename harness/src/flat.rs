//! Projection of decoded values to the abstract values of the specification (flat integer lists).
use asn1_rs::*;
use std::collections::{BTreeSet, HashSet};

pub trait Flat {
    fn flat(&self, o: &mut Vec<i64>);
    /// spans (header, content) of the generic objects inside
    fn spans(&self, _o: &mut Vec<i64>) {}
}

pub fn fl_bytes(o: &mut Vec<i64>, b: &[u8]) {
    o.push(b.len() as i64);
    o.extend(b.iter().map(|&x| x as i64));
}

macro_rules! flat_int { ($($t:ty),*) => {$(
    impl Flat for $t { fn flat(&self, o: &mut Vec<i64>) { o.extend(self.to_be_bytes().iter().map(|&x| x as i64)); } }
)*} }
flat_int!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);

macro_rules! flat_asref { ($($t:ty),*) => {$(
    impl Flat for $t { fn flat(&self, o: &mut Vec<i64>) { let r: &[u8] = self.as_ref(); fl_bytes(o, r); } }
)*} }
flat_asref!(Integer<'_>, OctetString<'_>);
macro_rules! flat_str { ($($t:ty),*) => {$(
    impl Flat for $t { fn flat(&self, o: &mut Vec<i64>) { let r: &str = self.as_ref(); fl_bytes(o, r.as_bytes()); } }
)*} }
flat_str!(
    Utf8String<'_>, NumericString<'_>, PrintableString<'_>, VisibleString<'_>, Ia5String<'_>, GeneralString<'_>,
    GraphicString<'_>, TeletexString<'_>, VideotexString<'_>, ObjectDescriptor<'_>, String
);
impl Flat for &str {
    fn flat(&self, o: &mut Vec<i64>) {
        fl_bytes(o, self.as_bytes());
    }
}
impl Flat for &[u8] {
    fn flat(&self, o: &mut Vec<i64>) {
        fl_bytes(o, self);
    }
}
fn fl_chars(o: &mut Vec<i64>, s: &str) {
    o.push(s.chars().count() as i64);
    o.extend(s.chars().map(|c| c as u32 as i64));
}
impl Flat for BmpString<'_> {
    fn flat(&self, o: &mut Vec<i64>) {
        let r: &str = self.as_ref();
        fl_chars(o, r);
    }
}
impl Flat for UniversalString<'_> {
    fn flat(&self, o: &mut Vec<i64>) {
        let r: &str = self.as_ref();
        fl_chars(o, r);
    }
}
impl Flat for bool {
    fn flat(&self, o: &mut Vec<i64>) {
        o.push(*self as i64);
    }
}
impl Flat for Boolean {
    fn flat(&self, o: &mut Vec<i64>) {
        o.push(self.value as i64);
        o.push(self.bool() as i64);
    }
}
impl Flat for Null {
    fn flat(&self, _: &mut Vec<i64>) {}
}
impl Flat for EndOfContent {
    fn flat(&self, _: &mut Vec<i64>) {}
}
impl Flat for () {
    fn flat(&self, _: &mut Vec<i64>) {}
}
impl Flat for Enumerated {
    fn flat(&self, o: &mut Vec<i64>) {
        self.0.flat(o);
    }
}
impl Flat for BitString {
    fn flat(&self, o: &mut Vec<i64>) {
        o.push(self.len() as i64);
        fl_bytes(o, self.as_raw_slice());
        // the individual bits must be the same as those of the raw data
        for i in 0..self.len() + 9 {
            let raw = self.as_raw_slice().get(i / 8).map_or(false, |b| b & (0x80 >> (i % 8)) != 0);
            let want = i < self.len() && raw;
            if self.is_set(i) != want {
                o.push(-1000 - i as i64);
            }
        }
    }
}
impl Flat for Oid<'_> {
    fn flat(&self, o: &mut Vec<i64>) {
        o.push((self.tag() == Tag::RelativeOid) as i64);
        fl_bytes(o, self.as_bytes());
    }
}
pub fn fl_dt(o: &mut Vec<i64>, d: &ASN1DateTime) {
    o.extend([d.year as i64, d.month as i64, d.day as i64, d.hour as i64, d.minute as i64, d.second as i64]);
    o.push(d.millisecond.map_or(-1, |m| m as i64));
    match d.tz {
        ASN1TimeZone::Undefined => o.extend([0, 0, 0]),
        ASN1TimeZone::Z => o.extend([1, 0, 0]),
        ASN1TimeZone::Offset(h, m) => o.extend([2, h as i64, m as i64]),
    }
}
impl Flat for UtcTime {
    fn flat(&self, o: &mut Vec<i64>) {
        fl_dt(o, &self.0);
    }
}
impl Flat for GeneralizedTime {
    fn flat(&self, o: &mut Vec<i64>) {
        fl_dt(o, &self.0);
    }
}
impl Flat for Real {
    fn flat(&self, o: &mut Vec<i64>) {
        match self {
            Real::Zero => o.push(0),
            Real::Infinity => o.push(1),
            Real::NegInfinity => o.push(2),
            Real::NaN => o.push(3),
            Real::Binary { mantissa, base, exponent, enc_base } => {
                if *base == 10 {
                    // decimal: sign, digits, exponent of the last digit
                    let t = format!("{:.11e}", mantissa.abs());
                    let (m, e) = t.split_once('e').unwrap();
                    let mut d: Vec<i64> = m.bytes().filter(|c| *c != b'.').map(|c| (c - b'0') as i64).collect();
                    let mut e: i64 = e.parse::<i64>().unwrap() - 11 + *exponent as i64;
                    while d.last() == Some(&0) {
                        d.pop();
                        e += 1;
                    }
                    o.extend([5, mantissa.is_sign_negative() as i64]);
                    o.push(d.len() as i64);
                    o.extend(d);
                    o.push(e);
                    return;
                }
                // binary: sign, mantissa as 3-bytes-limb integer (only for integral |mantissa|), base, exponent
                o.push(4);
                o.push(mantissa.is_sign_negative() as i64);
                let m = mantissa.abs();
                if m.fract() == 0.0 && m < 3.4e38 {
                    let v = m as u128;
                    let b = v.to_be_bytes();
                    let s = b.iter().position(|x| *x != 0).unwrap_or(b.len());
                    fl_bytes(o, &b[s..]);
                } else {
                    o.push(-1);
                }
                o.push(*base as i64);
                o.push(*enc_base as i64);
                o.push(*exponent as i64);
            }
        }
    }
}
impl Flat for f64 {
    fn flat(&self, o: &mut Vec<i64>) {
        let b = if self.is_nan() { f64::NAN.to_bits() } else { self.to_bits() };
        o.extend(b.to_be_bytes().iter().map(|&x| x as i64));
    }
}
impl Flat for f32 {
    fn flat(&self, o: &mut Vec<i64>) {
        let b = if self.is_nan() { f32::NAN.to_bits() } else { self.to_bits() };
        o.extend(b.to_be_bytes().iter().map(|&x| x as i64));
    }
}
pub fn fl_header(o: &mut Vec<i64>, h: &Header) {
    o.push(h.class() as u8 as i64);
    o.push(h.is_constructed() as i64);
    o.push((h.tag().0 >> 16) as i64);
    o.push((h.tag().0 & 0xffff) as i64);
    match h.length() {
        Length::Definite(l) => {
            o.push(1);
            let b = (l as u64).to_be_bytes();
            let s = b.iter().position(|x| *x != 0).unwrap_or(8);
            fl_bytes(o, &b[s..]);
        }
        Length::Indefinite => {
            o.push(0);
            o.push(0);
        }
    }
    o.push(h.raw_tag().map_or(-1, |t| t.len() as i64));
}
impl Flat for Header<'_> {
    fn flat(&self, o: &mut Vec<i64>) {
        fl_header(o, self);
        // raw header: length and position
        match self.raw_header() {
            Some(r) => {
                o.push(r.len() as i64);
                if r.end() - r.start() != r.len() {
                    o.push(-7);
                }
            }
            None => o.push(-1),
        }
    }
}
impl Flat for Any<'_> {
    fn flat(&self, o: &mut Vec<i64>) {
        fl_header(o, &self.header);
        fl_bytes(o, self.as_bytes());
    }
    fn spans(&self, o: &mut Vec<i64>) {
        match self.header.raw_header() {
            Some(r) => r.spans(o),
            None => o.extend([-1, -1]),
        }
        self.data.spans(o);
    }
}
impl Flat for Sequence<'_> {
    fn flat(&self, o: &mut Vec<i64>) {
        fl_bytes(o, &self.content);
    }
}
impl Flat for Set<'_> {
    fn flat(&self, o: &mut Vec<i64>) {
        fl_bytes(o, &self.content);
    }
}
impl Flat for AnySequence<'_> {
    fn flat(&self, o: &mut Vec<i64>) {
        o.push(self.len() as i64);
        for x in self.iter() {
            x.flat(o);
        }
    }
    fn spans(&self, o: &mut Vec<i64>) {
        self.iter().for_each(|x| x.spans(o));
    }
}
/// element lists of unordered collections are reported sorted by their projection
pub fn fl_sorted<'a, T: Flat + 'a>(o: &mut Vec<i64>, it: impl Iterator<Item = &'a T>) {
    let mut v: Vec<Vec<i64>> = it
        .map(|x| {
            let mut w = vec![];
            x.flat(&mut w);
            w
        })
        .collect();
    v.sort();
    o.push(v.len() as i64);
    for x in v {
        o.extend(x);
    }
}
impl Flat for AnySet<'_> {
    fn flat(&self, o: &mut Vec<i64>) {
        fl_sorted(o, self.iter());
    }
    fn spans(&self, o: &mut Vec<i64>) {
        let mut v: Vec<Vec<i64>> = self
            .iter()
            .map(|x| {
                let mut w = vec![];
                x.spans(&mut w);
                w
            })
            .collect();
        v.sort();
        o.extend(v.concat());
    }
}
impl<T: Flat> Flat for Vec<T> {
    fn flat(&self, o: &mut Vec<i64>) {
        o.push(self.len() as i64);
        for x in self {
            x.flat(o);
        }
    }
    fn spans(&self, o: &mut Vec<i64>) {
        self.iter().for_each(|x| x.spans(o));
    }
}
impl<T: Flat> Flat for SequenceOf<T> {
    fn flat(&self, o: &mut Vec<i64>) {
        o.push(self.len() as i64);
        for x in self.iter() {
            x.flat(o);
        }
    }
    fn spans(&self, o: &mut Vec<i64>) {
        self.iter().for_each(|x| x.spans(o));
    }
}
impl<T: Flat> Flat for SetOf<T> {
    fn flat(&self, o: &mut Vec<i64>) {
        o.push(self.len() as i64);
        for x in self.iter() {
            x.flat(o);
        }
    }
    fn spans(&self, o: &mut Vec<i64>) {
        self.iter().for_each(|x| x.spans(o));
    }
}
impl<T: Flat> Flat for BTreeSet<T> {
    fn flat(&self, o: &mut Vec<i64>) {
        fl_sorted(o, self.iter());
    }
}
impl<T: Flat> Flat for HashSet<T> {
    fn flat(&self, o: &mut Vec<i64>) {
        fl_sorted(o, self.iter());
    }
}
impl<T: Flat, const N: usize> Flat for [T; N] {
    fn flat(&self, o: &mut Vec<i64>) {
        o.push(N as i64);
        for x in self {
            x.flat(o);
        }
    }
    fn spans(&self, o: &mut Vec<i64>) {
        self.iter().for_each(|x| x.spans(o));
    }
}
macro_rules! flat_tuple { ($($n:ident),+) => {
    impl<$($n: Flat),+> Flat for ($($n,)+) {
        #[allow(non_snake_case)]
        fn flat(&self, o: &mut Vec<i64>) { let ($($n,)+) = self; $($n.flat(o);)+ }
        #[allow(non_snake_case)]
        fn spans(&self, o: &mut Vec<i64>) { let ($($n,)+) = self; $($n.spans(o);)+ }
    }
} }
flat_tuple!(A);
flat_tuple!(A, B);
flat_tuple!(A, B, C);
impl<T: Flat> Flat for Option<T> {
    fn flat(&self, o: &mut Vec<i64>) {
        match self {
            None => o.push(0),
            Some(x) => {
                o.push(1);
                x.flat(o)
            }
        }
    }
    fn spans(&self, o: &mut Vec<i64>) {
        self.iter().for_each(|x| x.spans(o));
    }
}
impl<T: Flat, E, K, const C: u8, const N: u32> Flat for TaggedValue<T, E, K, C, N> {
    fn flat(&self, o: &mut Vec<i64>) {
        self.as_ref().flat(o);
    }
    fn spans(&self, o: &mut Vec<i64>) {
        self.as_ref().spans(o);
    }
}
impl Flat for EmbeddedPdv<'_> {
    fn flat(&self, o: &mut Vec<i64>) {
        match &self.identification {
            PdvIdentification::Syntaxes { s_abstract, s_transfer } => {
                o.push(1);
                s_abstract.flat(o);
                s_transfer.flat(o);
            }
            PdvIdentification::Syntax(x) => {
                o.push(2);
                x.flat(o)
            }
            PdvIdentification::PresentationContextId(x) => {
                o.push(3);
                x.flat(o)
            }
            PdvIdentification::ContextNegotiation { presentation_context_id, presentation_syntax } => {
                o.push(4);
                presentation_context_id.flat(o);
                presentation_syntax.flat(o);
            }
            PdvIdentification::TransferSyntax(x) => {
                o.push(5);
                x.flat(o)
            }
            PdvIdentification::Fixed => o.push(6),
        }
        self.data_value_descriptor.flat(o);
        fl_bytes(o, self.data_value);
    }
}
impl<T: Flat> Flat for &T {
    fn flat(&self, o: &mut Vec<i64>) {
        (**self).flat(o)
    }
    fn spans(&self, o: &mut Vec<i64>) {
        (**self).spans(o)
    }
}
