#!/usr/bin/env python3
"""Writes the uses of the compile-time macros twice: harness/src/macros.rs (Rust) and spec/Macros.tla (the same
identifiers as arcs, the same numbers as octets). Deterministic; both are committed."""
import os, random

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rnd = random.Random(23)
EDGE = sorted({0, 1, 2, 39, 40, 47, 79, 80, 127, 128, 129, 255, 256, 840, 8191, 8192, 16383, 16384, 16385, 113549, 2097151, 2097152, 268435455, 268435456, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 128,
               2**35 - 1, 2**35, 2**42 - 1, 2**42, 2**49, 2**56 - 1, 2**56, 2**63 - 1, 2**63, 2**64 - 1, 2**64, 2**64 + 1, 2**70 - 1, 2**70, 2**77, 2**100, 2**119, 2**126, 2**127 - 1, 2**127, 2**128 - 1})


def groups(n):
    g = [n % 128]
    n //= 128
    while n:
        g.insert(0, n % 128)
        n //= 128
    return g


def arc():
    k = rnd.choice([0, 0, 1, 2, 3])
    return rnd.choice(EDGE) if k == 0 else rnd.getrandbits(rnd.choice([7, 8, 14, 15])) if k < 3 else rnd.getrandbits(rnd.choice([21, 22, 28, 35, 63, 64, 65, 128]))


absolute = [[a, b] for a in (0, 1, 2) for b in (0, 1, 7, 8, 15, 16, 38, 39)]
absolute += [[1, 2, e] for e in EDGE] + [[2, 39, e, 0, e] for e in EDGE] + [[0, 0, 0], [0, 9, 2342, 19200300, 100, 1, 25], [2, 16, 840, 1, 101, 3, 4, 2, 1], [1, 3, 6, 1, 4, 1, 311, 60, 2, 1, 3]]
absolute += [[rnd.randrange(3), rnd.randrange(40)] + [arc() for _ in range(rnd.choice([1, 2, 3, 4, 5, 8, 13, 30]))] for _ in range(120)]
relative = [[e] for e in EDGE] + [[e, 0] for e in EDGE] + [[0, e, 1] for e in EDGE] + [[40, 40], [3, 3, 3], [0, 0, 0, 0]]
relative += [[arc() for _ in range(rnd.choice([1, 2, 3, 4, 5, 8, 13, 30]))] for _ in range(100)]
numbers = sorted({0, 1, 2, 127, 128, 129, 255, 256, 257} | {2**k + d for k in range(7, 65) for d in (-1, 0, 1)} | {0x80 << k for k in range(0, 57, 8)} | {0xff << k for k in range(0, 57, 8)} | {rnd.getrandbits(b) for b in range(1, 65) for _ in range(2)})
numbers = [n for n in numbers if n < 2**64]
spell = [("0xff", 255), ("0x80", 128), ("1_000_000", 10**6), ("0b1000_0000", 128), ("0o377", 255), ("7u8", 7), ("200u64", 200), ("0x8000_0000_0000_0000", 2**63), ("0x00ff", 255)]

u64 = lambda l: "Some(&[" + ", ".join(f"{x}" for x in l) + "])" if all(x < 2**64 for x in l) else "None"
dots = lambda l: ".".join(str(x) for x in l)
rust = ["//! GENERATED by tools/mk_macros.py: uses of the compile-time macros. The same arcs and numbers are in spec/Macros.tla.",
        "use asn1_rs::{int, oid, Integer, Oid};", "",
        "macro_rules! three { ($a:literal $b:literal $c:literal) => { oid!($a.$b.$c) } }", "",
        "/// (raw content, identifier, arcs if they fit machine words)",
        "pub const ABSOLUTE: &[(&[u8], Oid<'static>, Option<&[u64]>)] = &["]
rust += [f"    (&oid!(raw {dots(l)}), oid!({dots(l)}), {u64(l)})," for l in absolute]
rust += ["];", "pub const RELATIVE: &[(Oid<'static>, Option<&[u64]>)] = &["]
rust += [f"    (oid!(rel {dots(l)}), {u64(l)})," for l in relative]
rust += ["];", "pub const PASSED: &[Oid<'static>] = &["]
passed = [l for l in absolute if len(l) == 3]
rust += [f"    three!({l[0]} {l[1]} {l[2]})," for l in passed]
rust += ["];", "pub const ZERO: Oid<'static> = oid!(0);", "pub const NUMBERS: &[(&[u8], Integer<'static>, u64)] = &["]
rust += [f"    (&int!(raw {n}), int!({n}), {n})," for n in numbers]
rust += [f"    (&int!(raw {t}), int!({t}), {n})," for t, n in spell]
rust += ["];"]
open(os.path.join(ROOT, "harness/src/macros.rs"), "w").write("\n".join(rust) + "\n")

seq = lambda l: "<<" + ", ".join(str(x) for x in l) + ">>"
arcs = lambda l: seq(seq(groups(x)) for x in l)
octs = lambda n: seq(n.to_bytes(8, "big"))
t = ["-------------------------------- MODULE Macros -------------------------------",
     "(***************************************************************************)",
     "(* GENERATED by tools/mk_macros.py: identifiers (as arcs, in groups of     *)",
     "(* seven bits) and numbers (as eight octets) written with the compile-time *)",
     "(* macros in harness/src/macros.rs, in the same order.                     *)",
     "(***************************************************************************)"]
t += ["MacroAbsolute == <<\n  " + ",\n  ".join(arcs(l) for l in absolute) + " >>"]
t += ["MacroRelative == <<\n  " + ",\n  ".join(arcs(l) for l in relative) + " >>"]
t += ["MacroPassed == <<\n  " + ",\n  ".join(arcs(l) for l in passed) + " >>"]
t += ["MacroNumbers == <<\n  " + ",\n  ".join(octs(n) for n in numbers + [n for _, n in spell]) + " >>"]
t += ["============================================================================="]
open(os.path.join(ROOT, "spec/Macros.tla"), "w").write("\n".join(t) + "\n")
print(len(absolute), len(relative), len(passed), len(numbers) + len(spell))
