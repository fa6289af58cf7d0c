//! Operations on types using the derive macros (schemas.rs).
use crate::flat::*;
use crate::ops::*;
use crate::out::Out;
use crate::schemas::*;
use asn1_rs::nom;
use asn1_rs::*;

#[derive(Debug, PartialEq)]
pub enum MyErr {
    Any,
}
impl From<BerError<Input<'_>>> for MyErr {
    fn from(_: BerError<Input>) -> Self {
        MyErr::Any
    }
}
impl nom::error::ParseError<Input<'_>> for MyErr {
    fn from_error_kind(_: Input, _: nom::error::ErrorKind) -> Self {
        MyErr::Any
    }
    fn append(_: Input, _: nom::error::ErrorKind, _: Self) -> Self {
        MyErr::Any
    }
}

impl std::fmt::Display for MyErr {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "error")
    }
}
impl std::error::Error for MyErr {}

impl Flat for Input<'_> {
    fn flat(&self, o: &mut Vec<i64>) {
        self.as_bytes2().flat(o)
    }
    fn spans(&self, o: &mut Vec<i64>) {
        if self.len() != self.end() - self.start() {
            o.push(-9);
        }
        o.extend([self.start() as i64, self.end() as i64]);
    }
}

macro_rules! m { ($f:ident $ty:expr, $i:expr; $($n:literal: $t:ty),* $(,)?) => { match $ty { $($n => return Some($f::<$t>($i)),)* _ => {} } } }
macro_rules! m_ta { ($ty:expr, $i:expr; $($n:literal: $t:ty),* $(,)?) => { match $ty { $($n => return Some(ta::<$t>($i)),)* _ => {} } } }

pub fn run(op: &str, i: &[u8]) -> Option<Out> {
    let (api, ty) = op.split_once(':')?;
    match api {
        "pb" => {
            with_new_ber!(m pb ty, i);
            with_par!(m pb ty, i);
        }
        "pd" => {
            with_new_der!(m pd ty, i);
            with_par!(m pd ty, i);
        }
        "ob" => with_new_ber!(m ob ty, i),
        "od" => with_new_der!(m od ty, i),
        "ib" => with_new_ber!(m ib ty, i),
        "id" => with_new_der!(m id ty, i),
        "eb" => {
            with_new_enc!(m eb ty, i);
            with_par_enc!(m eb ty, i);
        }
        "ed" => {
            with_new_enc!(m ed ty, i);
            with_par_enc!(m ed ty, i);
        }
        "lb" => {
            with_old!(m lb ty, i);
            with_bold!(m lb ty, i);
        }
        "ld" => with_old!(m ld ty, i),
        "ta" => {
            with_old!(m_ta ty, i);
            with_bold!(m_ta ty, i);
        }
        "pp" => with_new_ber!(m pp ty, i),
        "pq" => with_new_der!(m pq ty, i),
        "ts" => with_new_ts!(ts_match ty, i),
        _ => {}
    }
    None
}
