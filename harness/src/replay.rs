//! Replays vectors emitted by TLC (or read from a file) on the library and compares outcomes.
use crate::out::Out;
use std::collections::BTreeMap;
use std::io::{BufRead, Write};
use std::os::unix::fs::FileExt;

#[derive(Debug, Clone, PartialEq)]
pub enum V {
    I(i64),
    S(String),
    T(Vec<V>),
}
impl V {
    pub fn int(&self) -> i64 {
        match self {
            V::I(i) => *i,
            _ => panic!("int expected: {self:?}"),
        }
    }
    pub fn str(&self) -> &str {
        match self {
            V::S(s) => s,
            _ => panic!("string expected: {self:?}"),
        }
    }
    pub fn list(&self) -> &[V] {
        match self {
            V::T(t) => t,
            _ => panic!("tuple expected: {self:?}"),
        }
    }
    pub fn ints(&self) -> Vec<i64> {
        self.list().iter().map(|x| x.int()).collect()
    }
    pub fn bytes(&self) -> Vec<u8> {
        let l = self.list();
        // octets given by their repetitions: <<"rep", <<n, octets>>, ...>>
        if l.first() == Some(&V::S("rep".to_string())) {
            return l[1..].iter().flat_map(|r| r.list()[1].bytes().repeat(r.list()[0].int() as usize)).collect();
        }
        l.iter().map(|x| u8::try_from(x.int()).expect("octet")).collect()
    }
}
/// parse a TLA+ value: integers, strings, tuples
pub fn parse(s: &[u8], p: &mut usize) -> V {
    while s[*p] == b' ' || s[*p] == b',' {
        *p += 1;
    }
    match s[*p] {
        b'<' => {
            *p += 2;
            let mut v = vec![];
            loop {
                while s[*p] == b' ' || s[*p] == b',' {
                    *p += 1;
                }
                if s[*p] == b'>' {
                    *p += 2;
                    return V::T(v);
                }
                v.push(parse(s, p));
            }
        }
        // octets in hexadecimal, as violations are shown
        b'[' => {
            let b = *p + 1;
            while s[*p] != b']' {
                *p += 1;
            }
            *p += 1;
            let t = std::str::from_utf8(&s[b..*p - 1]).unwrap();
            V::T(t.split_whitespace().map(|x| V::I(i64::from_str_radix(x, 16).unwrap())).collect())
        }
        b'"' => {
            let b = *p + 1;
            let mut e = b;
            while s[e] != b'"' {
                e += 1;
            }
            *p = e + 1;
            V::S(String::from_utf8_lossy(&s[b..e]).into_owned())
        }
        _ => {
            let b = *p;
            *p += 1;
            while s[*p].is_ascii_digit() {
                *p += 1;
            }
            V::I(std::str::from_utf8(&s[b..*p]).unwrap().parse().unwrap())
        }
    }
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect::<Vec<_>>().join(" ")
}
fn sorted(v: &[i64]) -> Vec<i64> {
    let mut v = v.to_vec();
    v.sort_unstable();
    v
}
/// does the outcome of the library satisfy the outcome of the specification?
pub fn agrees(got: &Out, st: &str, n: i64, v: &[i64]) -> bool {
    match st {
        // (the specification only knows that huge lengths are huge)
        "inc" => got.st == "inc" && (got.n <= n || n >= (1 << 30) - 65536),
        "skip" => true,
        "tot" => got.st != "panic" && got.st != "bad",
        "perm" => got.st == "ok" && got.n == n && sorted(&got.v) == sorted(v),
        "err" | "eerr" => got.st == st,
        _ => got.st == st && got.n == n && got.v == v,
    }
}

const SLOTS: usize = 16;
static TICK: [std::sync::atomic::AtomicU64; SLOTS] = [const { std::sync::atomic::AtomicU64::new(0) }; SLOTS];
/// ends the process (status 3) if one operation takes more than 30 s; the journals name it
pub fn watchdog() {
    std::thread::spawn(|| {
        let (mut last, mut since) = ([0; SLOTS], [0; SLOTS]);
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            for k in 0..SLOTS {
                let t = TICK[k].load(std::sync::atomic::Ordering::SeqCst);
                since[k] = if t % 2 == 1 && t == last[k] { since[k] + 1 } else { 0 };
                last[k] = t;
                if since[k] >= 30 {
                    std::process::exit(3);
                }
            }
        }
    });
}
/// odd while an operation is running
pub fn tick(slot: usize) {
    TICK[slot].fetch_add(1, std::sync::atomic::Ordering::SeqCst);
}
fn note(journal: &std::fs::File, text: &str) {
    let mut j = text.as_bytes().to_vec();
    j.push(b'\n');
    j.extend_from_slice(&[0; 8]);
    journal.write_all_at(&j, 0).unwrap();
}

/// the operations of a group, given the same octets: operations with structured inputs get fixed parameters
fn member_input(op: &str, i: &V) -> V {
    match op.split_once(':').map_or("", |x| x.0) {
        "xb" | "xd" | "yb" | "yd" | "tb" | "td" | "ub" | "ud" | "vb" | "vd" | "wb" | "wd" | "Xb" | "Xd" | "Yb" | "Yd" => V::T(vec![V::I(2), V::I(0), i.clone()]),
        "gx" | "gy" => V::T(vec![V::I(0), i.clone()]),
        _ => i.clone(),
    }
}
struct Group {
    ops: Vec<String>,
    stats: std::sync::Mutex<Vec<[u64; 5]>>,
}
/// runs every operation of a group on the inputs it is sent: no outcome may be a panic, or inconsistent in itself
fn worker(slot: usize, dir: &str, rx: &std::sync::Mutex<std::sync::mpsc::Receiver<(std::sync::Arc<Group>, V)>>, bad: &std::sync::Mutex<Vec<String>>) {
    let path = format!("{dir}/journal.{slot}");
    let journal = std::fs::File::create(&path).unwrap();
    loop {
        let m = rx.lock().unwrap().recv();
        let Ok((g, v)) = m else { break };
        let text = op_input_text("", &v);
        note(&journal, &text);
        let mut st = vec![[0u64; 5]; g.ops.len()];
        for (k, op) in g.ops.iter().enumerate() {
            tick(slot);
            let got = crate::run_v(op, &member_input(op, &v));
            tick(slot);
            st[k][0] += 1;
            st[k][match got.st { "ok" => 1, "err" | "eerr" => 2, "inc" => 3, _ => 4 }] += 1;
            if !agrees(&got, "tot", 0, &[]) {
                bad.lock().unwrap().push(format!("{op} {} expected: a value or an error got: {got}", op_input_text("", &member_input(op, &v))));
            }
        }
        let mut all = g.stats.lock().unwrap();
        for (a, b) in all.iter_mut().zip(&st) {
            a.iter_mut().zip(b).for_each(|(x, y)| *x += y);
        }
    }
    let _ = std::fs::remove_file(path);
}
/// try DIR INPUT: the operations of the groups of a run, one by one, announced before they run
pub fn attempt(dir: &str, input: &V) -> i32 {
    watchdog();
    let ops = std::fs::read_to_string(format!("{dir}/groups")).unwrap_or_default();
    // (in a thread like that of a worker, with the same stack)
    std::thread::scope(|s| {
        s.spawn(|| {
            for op in ops.lines() {
                println!("{op}");
                std::io::stdout().flush().unwrap();
                tick(0);
                crate::run_v(op, &member_input(op, input));
                tick(0);
            }
        });
    });
    0
}

/// exit code: 0 all agree or known, 1 mismatch
pub fn replay(inp: &mut dyn BufRead, dir: &str, known: &[String]) -> i32 {
    watchdog();
    let journal = std::fs::File::create(format!("{dir}/journal")).unwrap();
    let mut log = std::io::BufWriter::new(std::fs::File::create(format!("{dir}/tlc.log")).unwrap());
    let mut viol = std::io::BufWriter::new(std::fs::File::create(format!("{dir}/violations")).unwrap());
    let (mut total, mut bad) = (0u64, 0u64);
    let mut per_op: BTreeMap<String, [u64; 5]> = BTreeMap::new();
    let mut kn: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut groups: BTreeMap<String, std::sync::Arc<Group>> = BTreeMap::new();
    let (tx, rx) = std::sync::mpsc::sync_channel(256);
    let rx = std::sync::Arc::new(std::sync::Mutex::new(rx));
    let group_bad = std::sync::Arc::new(std::sync::Mutex::new(vec![]));
    let mut pool: Vec<std::thread::JoinHandle<()>> = vec![];
    let mut line = vec![];
    loop {
        line.clear();
        if inp.read_until(b'\n', &mut line).unwrap() == 0 {
            break;
        }
        // a group of operations: all of them are to be run on the inputs which name it
        if line.starts_with(b"\"<<\\\"G\\\"") {
            let l: Vec<u8> = line.iter().copied().filter(|c| *c != b'\\').collect();
            let t = parse(&l, &mut 1);
            let ops: Vec<String> = t.list()[2].list().iter().map(|x| x.str().to_string()).collect();
            std::fs::write(format!("{dir}/groups"), ops.join("\n")).unwrap();
            groups.insert(t.list()[1].str().to_string(), std::sync::Arc::new(Group { stats: std::sync::Mutex::new(vec![[0; 5]; ops.len()]), ops }));
            while pool.len() < 8 {
                let (slot, d, rx, b) = (pool.len() + 1, dir.to_string(), rx.clone(), group_bad.clone());
                pool.push(std::thread::spawn(move || worker(slot, &d, &rx, &b)));
            }
            continue;
        }
        if !line.starts_with(b"\"<<\\\"V\\\"") {
            log.write_all(&line).unwrap();
            if line.starts_with(b"Progress") { log.flush().unwrap(); }
            continue;
        }
        let l: Vec<u8> = line.iter().copied().filter(|c| *c != b'\\').collect();
        let t = parse(&l, &mut 1);
        let t = t.list();
        let (api, ty, input) = (t[1].str(), t[2].str(), &t[3]);
        let (st, n, v) = (t[4].str(), t[5].int(), t[6].ints());
        let alts = t[7].list();
        if api == "all" {
            let g = groups[ty].clone();
            total += g.ops.len() as u64;
            if samples.len() < 6 && (total == g.ops.len() as u64 || total % 9973 == 0) {
                samples.push(format!("{} operations on {}", g.ops.len(), op_input_text("", input)));
            }
            tx.send((g, input.clone())).unwrap();
            continue;
        }
        let op = format!("{api}:{ty}");
        let text = format!("{op} {}", op_input_text(api, input));
        note(&journal, &text);
        tick(0);
        let got = crate::run_v(&op, input);
        tick(0);
        total += 1;
        let e = per_op.entry(op.clone()).or_default();
        e[0] += 1;
        match st {
            "ok" => e[1] += 1,
            "err" | "eerr" => e[2] += 1,
            "inc" => e[3] += 1,
            _ => e[4] += 1,
        }
        if samples.len() < 6 && (total == 1 || (total.is_power_of_two() && total > 64)) {
            samples.push(format!("{text} => {st} {n} {v:?}"));
        }
        if agrees(&got, st, n, &v) {
            continue;
        }
        let mut ok = false;
        for a in alts {
            let a = a.list();
            let k = a[0].str();
            if agrees(&got, a[1].str(), a[2].int(), &a[3].ints()) {
                let listed = if k == "*" { alts.iter().any(|x| known.iter().any(|y| y == x.list()[0].str())) } else { known.iter().any(|y| y == k) };
                if listed {
                    let e = kn.entry(k.to_string()).or_insert((0, format!("{text} => {got} (should be {st} {n} {v:?})")));
                    e.0 += 1;
                    ok = true;
                    break;
                }
            }
        }
        if !ok {
            bad += 1;
            if bad <= 200 {
                writeln!(viol, "{text} expected: {st} {n} {v:?} got: {got}").unwrap();
            }
        }
    }
    drop(tx);
    for h in pool {
        let _ = h.join();
    }
    for b in group_bad.lock().unwrap().iter() {
        bad += 1;
        if bad <= 200 {
            writeln!(viol, "{b}").unwrap();
        }
    }
    for g in groups.values() {
        for (op, st) in g.ops.iter().zip(g.stats.lock().unwrap().iter()) {
            let e = per_op.entry(op.clone()).or_default();
            e.iter_mut().zip(st).for_each(|(x, y)| *x += y);
        }
    }
    log.flush().unwrap();
    viol.flush().unwrap();
    let mut s = std::fs::File::create(format!("{dir}/summary")).unwrap();
    writeln!(s, "total {total}\nbad {bad}").unwrap();
    for (op, e) in &per_op {
        writeln!(s, "op {op} {} {} {} {} {}", e[0], e[1], e[2], e[3], e[4]).unwrap();
    }
    for (k, (c, x)) in &kn {
        writeln!(s, "known {k} {c} {x}").unwrap();
    }
    for x in &samples {
        writeln!(s, "sample {x}").unwrap();
    }
    let _ = std::fs::remove_file(format!("{dir}/journal"));
    (bad > 0) as i32
}
/// text form of the input of an operation (for messages and replay files)
pub fn op_input_text(_api: &str, input: &V) -> String {
    fn txt(v: &V) -> String {
        match v {
            V::I(i) => i.to_string(),
            V::S(s) => format!("\"{s}\""),
            V::T(t) => {
                if t.iter().all(|x| matches!(x, V::I(i) if (0..256).contains(i))) {
                    format!("[{}]", t.iter().map(|x| format!("{:02x}", x.int())).collect::<Vec<_>>().join(" "))
                } else {
                    format!("<<{}>>", t.iter().map(txt).collect::<Vec<_>>().join(", "))
                }
            }
        }
    }
    txt(input)
}
