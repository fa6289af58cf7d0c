//! Inputs as views into one buffer: replays a script of operations and reports the spans of everything returned.
use crate::flat::*;
use crate::out::Out;
use crate::replay::V;
use asn1_rs::nom::bytes::streaming::take;
use asn1_rs::nom::{AsBytes as _, Err, IResult, Input as _, Needed};
use asn1_rs::*;

struct World<'a> {
    buffer: &'a [u8],
    base: usize,
    inputs: Vec<Input<'a>>,
    headers: Vec<Header<'a>>,
    record: Vec<i64>,
    bad: i64,
}
impl<'a> World<'a> {
    /// the span of an input, which must be the place of its octets in the buffer
    fn view(&mut self, i: &Input<'a>) {
        let (s, e) = (i.start(), i.end());
        if *i.span() != (s..e) || e < s || i.len() != e - s || i.input_len() != e - s || i.is_empty() != (e == s) {
            self.bad = 1;
            return;
        }
        if s < self.base || e > self.base + self.buffer.len() {
            self.bad = 2;
            return;
        }
        let want = &self.buffer[s - self.base..e - self.base];
        let r: &[u8] = i.as_ref();
        if i.as_bytes2().as_ptr() != want.as_ptr() || i.as_bytes2() != want || r != want || i.as_bytes() != want || i.clone().into_bytes() != want {
            self.bad = 3;
        }
        if !i.iter_elements().eq(want.iter().cloned()) || !i.iter_indices().eq(want.iter().cloned().enumerate()) {
            self.bad = 4;
        }
        if i.to_string() != format!("Input(start={s} end={e})") {
            self.bad = 5;
        }
        self.record.extend([s as i64, e as i64]);
        self.inputs.push(i.const_clone());
    }
    fn fails<T>(&mut self, e: Err<T>) {
        match e {
            Err::Incomplete(Needed::Size(n)) => self.record.extend([-1, n.get() as i64]),
            Err::Incomplete(_) => self.record.extend([-1, 0]),
            _ => self.record.push(-2),
        }
    }
    fn pair<E>(&mut self, r: IResult<Input<'a>, Input<'a>, E>) {
        match r {
            Ok((a, b)) => {
                self.record.push(0);
                self.view(&a);
                self.view(&b);
            }
            Err(e) => self.fails(e),
        }
    }
    fn raw(&mut self, h: &Header<'a>) {
        match h.raw_header() {
            Some(r) => {
                let r = r.clone();
                self.view(&r)
            }
            None => self.bad = 6,
        }
    }
}
/// <<octets, base, script>>
pub fn vw(i: &V) -> Out {
    let l = i.list();
    let buffer = l[0].bytes();
    let base = l[1].int() as usize;
    let first = Input::new(&buffer, base..base + buffer.len());
    let mut w = World { buffer: &buffer, base, inputs: vec![first], headers: vec![], record: vec![], bad: 0 };
    for step in l[2].list() {
        let s = step.ints();
        let x = s[2] as usize;
        let from = w.inputs[s[1] as usize].clone();
        match s[0] {
            0 | 1 => {
                w.record.push(0);
                let r = if s[0] == 0 { from.take(x) } else { from.take_from(x) };
                w.view(&r);
            }
            2 => {
                let (a, b) = from.take_split(x);
                w.record.push(0);
                w.view(&a);
                w.view(&b);
            }
            3 => {
                w.record.push(0);
                w.view(&from.const_clone());
            }
            4 | 5 => {
                let r = if s[0] == 4 { Header::parse_ber(from) } else { Header::parse_der(from) };
                match r {
                    Ok((rem, h)) => {
                        w.record.push(0);
                        fl_header(&mut w.record, &h);
                        w.view(&rem);
                        w.raw(&h);
                        w.headers.push(h);
                    }
                    Err(e) => w.fails(e),
                }
            }
            6 | 7 => {
                let r = if s[0] == 6 { Any::parse_ber(from) } else { Any::parse_der(from) };
                match r {
                    Ok((rem, a)) => {
                        w.record.push(0);
                        fl_header(&mut w.record, &a.header);
                        w.view(&rem);
                        w.raw(&a.header);
                        w.view(&a.data);
                        w.headers.push(a.header);
                    }
                    Err(e) => w.fails(e),
                }
            }
            8 | 9 => {
                let h = w.headers[x].clone();
                let (r, r2) = if s[0] == 8 {
                    (h.parse_ber_content(from.clone()), Any::parse_ber_content(from, &h))
                } else {
                    (h.parse_der_content(from.clone()), Any::parse_der_content(from, &h))
                };
                if r.is_ok() != r2.is_ok() || r.is_ok() && r != r2 {
                    return Out::bad(7);
                }
                w.pair(r);
            }
            10 => {
                if from.slice_index(x).is_ok() != (x <= from.len()) {
                    return Out::bad(8);
                }
                w.pair(take::<_, _, nom::error::Error<Input>>(x)(from));
            }
            _ => w.record.push(from.position(|b| b == x as u8).map_or(-1, |p| p as i64)),
        }
        if w.bad != 0 {
            return Out::bad(w.bad);
        }
    }
    Out::ok(0, w.record)
}
