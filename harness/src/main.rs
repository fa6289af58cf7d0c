#[cfg(feature = "macros")]
mod consts;
#[cfg(feature = "derived")]
mod derived;
mod flat;
#[cfg(feature = "macros")]
mod macros;
mod ops;
mod ops2;
mod ops3;
mod ops4;
mod out;
mod replay;
#[cfg(feature = "derived")]
mod schemas;
mod views;
use out::Out;
use replay::V;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// run one operation on a structured input (most operations take octets)
pub fn run_v(op: &str, i: &V) -> Out {
    let r = catch_unwind(AssertUnwindSafe(|| ops::run_v(op, i)));
    match r {
        Ok(Some(o)) => o,
        // (built without the types or constants that do not compile: see check.py)
        Ok(None) if !cfg!(all(feature = "derived", feature = "macros")) => Out { st: "skip", n: 0, v: vec![] },
        Ok(None) => {
            eprintln!("TOOL-ERROR unknown operation {op}");
            std::process::exit(2)
        }
        Err(_) => Out { st: "panic", n: 0, v: vec![] },
    }
}
fn unhex(s: &str) -> Vec<u8> {
    let s: Vec<u8> = s.bytes().filter(|b| b.is_ascii_hexdigit()).collect();
    s.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect()
}
/// inputs on the command line: hexadecimal octets, or a TLA+ value
fn input_arg(a: &str) -> V {
    let t = a.trim();
    if t.starts_with("<<") {
        let mut x = t.as_bytes().to_vec();
        x.push(b' ');
        replay::parse(&x, &mut 0)
    } else {
        V::T(unhex(t).into_iter().map(|b| V::I(b as i64)).collect())
    }
}
fn main() {
    if std::env::var("SHOW_PANIC").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("eval") => {
            println!("{}", run_v(&a[2], &input_arg(&a[3..].join(" "))));
            0
        }
        // replay DIR KNOWN,... < TLC output
        Some("replay") => {
            let known: Vec<String> = a.get(3).map(|s| s.split(',').map(|x| x.to_string()).collect()).unwrap_or_default();
            replay::replay(&mut std::io::stdin().lock(), &a[2], &known)
        }
        // supported < lines "API:TYPE INPUT": the operations that exist (for tools/mk_ops.py)
        Some("supported") => {
            for l in std::io::stdin().lines() {
                let l = l.unwrap();
                let (op, input) = l.split_once(' ').unwrap();
                let i = input_arg(input);
                if matches!(catch_unwind(AssertUnwindSafe(|| ops::run_v(op, &i))), Ok(Some(_))) {
                    println!("{op}");
                }
            }
            0
        }
        // try DIR INPUT
        Some("try") => replay::attempt(&a[2], &input_arg(&a[3..].join(" "))),
        _ => 2,
    };
    std::process::exit(code);
}
