//! Values of the compile-time macros, by their number in the table; compared with the encodings made at run time.
use crate::macros::*;
use crate::out::Out;
use asn1_rs::*;

fn out(v: &[u8]) -> Out {
    Out::ok(0, v.iter().map(|x| *x as i64).collect())
}
/// kind, number (from 1)
pub fn constant(kind: &str, k: usize) -> Option<Out> {
    let k = k - 1;
    Some(match kind {
        "absolute" => {
            let (raw, oid, arcs) = &ABSOLUTE[k];
            if oid.as_bytes() != *raw || oid.tag() != Tag::Oid {
                return Some(Out::bad(1));
            }
            if let Some(a) = arcs {
                match Oid::from(a) {
                    Ok(o) if o == *oid && o.as_bytes() == oid.as_bytes() && o.to_der_vec().ok() == oid.to_der_vec().ok() && o.to_ber_vec().ok() == oid.to_ber_vec().ok() => (),
                    _ => return Some(Out::bad(2)),
                }
            }
            out(raw)
        }
        "relative" => {
            let (oid, arcs) = &RELATIVE[k];
            if oid.tag() != Tag::RelativeOid {
                return Some(Out::bad(1));
            }
            if let Some(a) = arcs {
                match Oid::from_relative(a) {
                    Ok(o) if o == *oid && o.as_bytes() == oid.as_bytes() && o.to_der_vec().ok() == oid.to_der_vec().ok() && o.to_ber_vec().ok() == oid.to_ber_vec().ok() => (),
                    _ => return Some(Out::bad(2)),
                }
            }
            out(oid.as_bytes())
        }
        "passed" => out(PASSED[k].as_bytes()),
        "zero" => match Oid::from(&[0]) {
            Ok(o) if o == ZERO => out(ZERO.as_bytes()),
            _ => Out::bad(2),
        },
        "number" => {
            let (raw, int, n) = &NUMBERS[k];
            if int.as_ref() != *raw {
                return Some(Out::bad(1));
            }
            let rt = Integer::from(*n);
            if rt.as_ref() != *raw || rt.to_der_vec().ok() != int.to_der_vec().ok() || n.to_der_vec().ok() != int.to_der_vec().ok() || int.as_u64().ok() != Some(*n) {
                return Some(Out::bad(2));
            }
            out(raw)
        }
        _ => return None,
    })
}
