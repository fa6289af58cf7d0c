#!/usr/bin/env python3
"""Writes spec/Ops.tla: every operation of the harness that takes octets (structured operations get fixed parameters:
see member_input in harness/src/replay.rs). Run it after adding types or operations."""
import os, re, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
read = lambda f: open(os.path.join(ROOT, "spec", f)).read()
names = set(re.findall(r"([a-z0-9_]+) \|->", read("Desc.tla"))) | {"vec_opt_u8"}
names |= set(re.findall(r"^\s*[\[,]?\s*([a-z]_?[a-z0-9_]+) \|->", read("Schemas.tla"), re.M))
other = re.search(r"OtherNames == \{(.*?)\}", read("Desc.tla")).group(1)
names |= set(re.findall(r'"([^"]+)"', other))
apis = "pb pd lb ld ib id ob od eb ed ta ts oa tm ao ia rl rm cb cd qb qd rb rd sb sd zb zd pp pq Rb Rd Zb Zd Ib Id Ob Od jb jd nb nd kb kd fm fl dt ax ay cn cm ie if cc".split()
framed = "xb xd yb yd tb td ub ud vb vd wb wd Xb Xd Yb Yd".split()
ONLY = dict(ia="integer", rl="oid", rm="oid")
q = ["%s:%s 0500" % (a, n) for a in apis for n in names if a not in ONLY or n == ONLY[a]] + ["%s:%s <<2, 0, <<5, 0>>>>" % (a, n) for a in framed for n in names] + ["%s:%s <<0, <<5, 0>>>>" % (a, n) for a in ("gx", "gy") for n in names]
r = subprocess.run([os.path.join(ROOT, "harness/target/debug/harness"), "supported"], input="\n".join(q) + "\n", stdout=subprocess.PIPE, text=True, check=True)
ops = {}
for l in r.stdout.split():
    a, n = l.split(":", 1)
    ops.setdefault(a, []).append(n)
out = ["---------------------------------- MODULE Ops ----------------------------------",
       "(***************************************************************************)",
       "(* GENERATED by tools/mk_ops.py: the operations of the conformance         *)",
       "(* protocol which are given octets, by entry point and type.               *)",
       "(***************************************************************************)",
       "AllOps ==", "  <<"]
flat = ["%s:%s" % (a, n) for a in sorted(ops) for n in sorted(ops[a])]
for i in range(0, len(flat), 12):
    out.append("    " + ", ".join('"%s"' % x for x in flat[i:i + 12]) + ("," if i + 12 < len(flat) else ""))
out += ["  >>", "=" * 77]
open(os.path.join(ROOT, "spec/Ops.tla"), "w").write("\n".join(out) + "\n")
print(len(flat), {a: len(n) for a, n in ops.items()})
