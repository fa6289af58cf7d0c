//! Outcomes, as in the specification.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Out {
    pub st: &'static str, // "ok" | "err" | "inc" | "panic" | "bad" (inconsistent)
    pub n: i64,
    pub v: Vec<i64>,
}
impl Out {
    pub fn ok(n: usize, v: Vec<i64>) -> Out {
        Out { st: "ok", n: n as i64, v }
    }
    pub fn err() -> Out {
        Out { st: "err", n: 0, v: vec![] }
    }
    pub fn bad(why: i64) -> Out {
        Out { st: "bad", n: why, v: vec![] }
    }
    pub fn inc(n: asn1_rs::nom::Needed) -> Out {
        let n = match n {
            asn1_rs::nom::Needed::Unknown => 0,
            asn1_rs::nom::Needed::Size(s) => s.get().min(1 << 30) as i64,
        };
        Out { st: "inc", n, v: vec![] }
    }
}
impl std::fmt::Display for Out {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{} {} {:?}", self.st, self.n, self.v)
    }
}
