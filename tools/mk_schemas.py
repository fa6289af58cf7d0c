#!/usr/bin/env python3
"""Writes the schemas of derived types twice: harness/src/schemas.rs (Rust types using the derive
macros) and spec/Schemas.tla (the descriptors of the same types). Deterministic; both are committed."""
import os, random

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# base types: name -> (Rust type, lifetime?, TLA descriptor, Rust default, TLA default, universal tag, usable by the slice-based traits)
BASE = {
    "u8": ("u8", 0, "TInt(FALSE, 1)", "9_u8", "<<9>>", 2),
    "u32": ("u32", 0, "TInt(FALSE, 4)", "258_u32", "<<0, 0, 1, 2>>", 2),
    "i16": ("i16", 0, "TInt(TRUE, 2)", "-2_i16", "<<255, 254>>", 2),
    "bool": ("bool", 0, 'T0("bool")', "true", "255", 1),
    "oct": ("OctetString<'a>", 1, 'T0("octets")', 'OctetString::new(b"xy")', "<<120, 121>>", 4),
    "utf8": ("Utf8String<'a>", 1, 'TStr("utf8", 12)', 'Utf8String::new("z")', "<<122>>", 12),
    "ia5": ("Ia5String<'a>", 1, 'TStr("ascii", 22)', 'Ia5String::new("z")', "<<122>>", 22),
    "oid": ("Oid<'a>", 1, 'T0("oid")', None, None, 6),
    "int": ("Integer<'a>", 1, 'T0("integer")', None, None, 2),
    "null": ("Null", 0, 'T0("null")', "Null {}", "0", 5),
    "bits": ("BitString", 0, 'T0("bits")', None, None, 3),
    "utc": ("UtcTime", 0, 'T0("utctime")', None, None, 23),
    "enum": ("Enumerated", 0, 'T0("enum")', "Enumerated(3)", "<<0, 0, 0, 3>>", 10),
    "vecu8": ("Vec<u8>", 0, 'TList("seq", TInt(FALSE, 1))', "vec![1_u8]", "<<<<1>>>>", 16),
    "any": ("Any<'a>", 1, 'T0("any")', None, None, None),
}
CLS = {"": 2, "APPLICATION": 1, "PRIVATE": 3, "UNIVERSAL": 0}
rust = {"new": [], "par": [], "old": [], "bold": []}
tla = []            # (name, descriptor)
names = {}          # name -> dict(life, flavours, tls, tag)
order = []


def ty(t):
    """(Rust type, lifetime?, TLA)"""
    if t in BASE:
        return BASE[t][:3]
    if t.startswith("vec:"):
        r, l, d = ty(t[4:])
        return (f"Vec<{r}>", l, f'TList("seq", {d})')
    n = names[t]
    return (n["rust"] + ("<'a>" if n["life"] else ""), n["life"], "%" + t)


def static(t):
    if t.startswith("vec:"):
        return static(t[4:])
    return names[t]["ts"] if t in names else t in ("u8", "u32", "i16", "bool", "vecu8")


def F(t, occ="req", tag=None, extra=None, raw=None):
    return dict(t=t, occ=occ, tag=tag, extra=extra, raw=raw)


def tagattr(tag):
    k, c, n = tag
    return f"#[tag_{'explicit' if k == 'exp' else 'implicit'}({(c + ' ') if c else ''}{n})]"


def derives(l):
    """(the older derives look at the attributes below them: one attribute each)"""
    return "#[derive(Debug, PartialEq)]\n" + "".join(f"#[derive({x})]\n" for x in l)


def camel(n):
    return "".join(p.capitalize() for p in n.split("_"))


def struct(name, w, fields, fl=("new", "par", "old", "bold"), attrs=(), enc=True, ts=True):
    life = any(ty(f["t"])[1] for f in fields if f["t"] in BASE or f["t"] in names or f["t"].startswith("vec:")) or any(f["raw"] == "orig" for f in fields)
    rn = camel(name)
    ts = ts and enc and all(static(f["t"]) for f in fields)
    body, flat, desc = [], [], []
    for i, f in enumerate(fields):
        a = []
        fn = "abcdefgh"[i]
        if f["raw"] == "orig":
            body.append(f'#[asn1(parse = "|input| Ok((input, orig_input))")] pub {fn}: Input<\'a>,')
            desc.append('[t |-> T0("octets"), o |-> "orig", d |-> 0, at |-> FALSE]')
        elif f["raw"] == "const":
            body.append(f'#[asn1(parse = "|input| Ok((input, 0xfe))")] pub {fn}: u8,')
            desc.append('[t |-> TInt(FALSE, 1), o |-> "const", d |-> <<254>>, at |-> FALSE]')
        elif f["raw"] == "octet":
            body.append(f'#[asn1(parse = "super::one_octet")] pub {fn}: u8,')
            desc.append('[t |-> TInt(FALSE, 1), o |-> "octet", d |-> 0, at |-> FALSE]')
        else:
            r, l, d = ty(f["t"])
            if f["occ"] == "opt":
                a.append("#[optional]")
                r = f"Option<{r}>"
            elif f["occ"] == "def":
                a.append(f"#[default({BASE[f['t']][3]})]")
            if f["tag"]:
                a.append(tagattr(f["tag"]))
                k, c, n = f["tag"]
                d = f"{'TExp' if k == 'exp' else 'TImp'}({CLS[c]}, {n}, {d})"
            if f["extra"]:
                a.append(f["extra"])
            dv = BASE[f["t"]][4] if f["occ"] == "def" else "0"
            body.append(" ".join(a) + f" pub {fn}: {r},")
            desc.append(f'[t |-> {d}, o |-> "{f["occ"]}", d |-> {dv}, at |-> {"TRUE" if f["tag"] else "FALSE"}]')
        flat.append(f"self.{fn}.flat(o);")
    W = "Sequence" if w == "seq" else "Set"
    lf = "<'a>" if life else ""
    for x in fl:
        der = {"new": [W] + (["ToStatic"] if ts else []),
               "par": [f"BerParser{W}", f"DerParser{W}"] + ([f"ToBer{W}", f"ToDer{W}"] if enc else []),
               "old": [f"Der{W}"], "bold": [f"Ber{W}"]}[x]
        rust[x].append(derives(der)
                       + "".join(at + "\n" for at in attrs)
                       + f"pub struct {rn}{lf} {{\n    " + "\n    ".join(body) + "\n}\n"
                       + f"impl{lf} Flat for {rn}{lf} {{\n    fn flat(&self, {'o' if fields else '_'}: &mut Vec<i64>) {{ {' '.join(flat)} }}\n"
                       + f"    fn spans(&self, {'o' if fields else '_'}: &mut Vec<i64>) {{ {' '.join(flat).replace('.flat(', '.spans(')} }}\n}}\n")
    tla.append((name, f'[k |-> "struct", w |-> "{w}", fs |-> <<' + ", ".join(desc) + ">>]"))
    names[name] = dict(life=life, rust=rn, fl=fl, enc=enc, ts=ts, tag={16 if w == "seq" else 17}, kind="struct", m="der" if "orig" in [f["raw"] for f in fields] else "")
    order.append(name)


def choice(name, w, variants, fl=("new",), ts=True):
    """variants: (type, tag or None)"""
    life = any(ty(t)[1] for t, _ in variants)
    rn = camel(name)
    lf = "<'a>" if life else ""
    ts = ts and all(static(t) for t, _ in variants)
    cur, vs, vd, arms, arms2 = 0, [], [], [], []
    for i, (t, no) in enumerate(variants):
        v = "ABCDEFGH"[i]
        if no is not None:
            cur = no
        r, _, d = ty(t)
        vs.append((f"#[tag({no})] " if no is not None else "") + f"{v}({r}),")
        vd.append(f"[no |-> {cur}, e |-> {d}]")
        arms.append(f"{rn}::{v}(x) => {{ o.push({i + 1}); x.flat(o) }}")
        arms2.append(f"{rn}::{v}(x) => x.spans(o),")
        cur += 1
    for x in fl:
        der = {"new": ["Choice"] + (["ToStatic"] if ts else []), "par": ["BerParserChoice", "DerParserChoice"]}[x]
        at = {"un": "", "exp": "#[tagged_explicit]\n", "imp": "#[tagged_implicit]\n"}[w]
        rust[x].append(derives(der) + f"{at}pub enum {rn}{lf} {{\n    " + "\n    ".join(vs)
                       + f"\n}}\nimpl{lf} Flat for {rn}{lf} {{\n    fn flat(&self, o: &mut Vec<i64>) {{ match self {{ {' '.join(arms)} }} }}\n"
                       + f"    fn spans(&self, o: &mut Vec<i64>) {{ match self {{ {' '.join(arms2)} }} }}\n}}\n")
    tla.append((name, f'[k |-> "choice", w |-> "{w}", vs |-> <<' + ", ".join(vd) + ">>]"))
    names[name] = dict(life=life, rust=rn, fl=fl, enc="par" not in fl or "new" in fl, ts=ts, tag=set(), kind="choice", m="")
    order.append(name)


def enumerated(name, vals, explicit):
    rn = camel(name)
    vs = [f"V{i}" + (f" = {v}" if e else "") + "," for i, (v, e) in enumerate(zip(vals, explicit))]
    rust["new"].append(f"#[derive(Debug, Clone, Copy, PartialEq, asn1_rs::Enumerated, asn1_rs::ToStatic)]\npub enum {rn} {{\n    " + "\n    ".join(vs)
                       + f"\n}}\nimpl Flat for {rn} {{\n    fn flat(&self, o: &mut Vec<i64>) {{ (*self as u32).flat(o) }}\n}}\n")
    oct4 = lambda v: f"<<{v >> 24}, {(v >> 16) & 255}, {(v >> 8) & 255}, {v & 255}>>"
    tla.append((name, '[k |-> "denum", vals |-> {' + ", ".join(oct4(v) for v in vals) + "}]"))
    names[name] = dict(life=False, rust=rn, fl=("new",), enc=True, ts=True, tag={10}, kind="denum", m="")
    order.append(name)


def alias(name, t, fl=("new",), ts=True, rtype=None, tdesc=None, life=None):
    r, l, d = (rtype, life, tdesc) if rtype else ty(t)
    rn = camel(name)
    ts = ts and not rtype and static(t)
    lf = "<'a>" if l else ""
    for x in fl:
        der = {"new": ["Alias"] + (["ToStatic"] if ts else []), "par": ["BerParserAlias", "DerParserAlias"], "old": ["DerAlias"], "bold": ["BerAlias"]}[x]
        rust[x].append(derives(der) + f"pub struct {rn}{lf}(pub {r});\n"
                       f"impl{lf} Flat for {rn}{lf} {{\n    fn flat(&self, o: &mut Vec<i64>) {{ self.0.flat(o) }}\n    fn spans(&self, o: &mut Vec<i64>) {{ self.0.spans(o) }}\n}}\n")
    tla.append((name, d))
    names[name] = dict(life=l, rust=rn, fl=fl, enc="new" in fl, ts=ts, tag=set(), kind="alias", m="")
    order.append(name)


ALL = ("new", "par", "old", "bold")
struct("s_plain", "seq", [F("u8"), F("bool")])
struct("s_opt", "seq", [F("u8", "opt"), F("bool"), F("oct", "opt")])
struct("s_def", "seq", [F("u8", "def"), F("bool", "def"), F("utf8", "def")])
struct("s_exp", "seq", [F("u8", tag=("exp", "", 0)), F("bool", "opt", ("exp", "", 1)), F("u8", "def", ("exp", "", 2))])
struct("s_imp", "seq", [F("u8", tag=("imp", "", 0)), F("oct", "opt", ("imp", "", 1)), F("u8", "def", ("imp", "", 2)), F("vecu8", "opt", ("imp", "", 3))])
struct("s_cls", "seq", [F("u8", tag=("exp", "APPLICATION", 1)), F("oct", tag=("imp", "PRIVATE", 2)), F("bool", "opt", ("imp", "APPLICATION", 3)), F("u8", "opt", ("exp", "UNIVERSAL", 17))])
struct("s_same", "seq", [F("u8", "opt", ("imp", "", 1)), F("u8", "opt", ("imp", "APPLICATION", 1)), F("bool", "def", ("exp", "PRIVATE", 1)), F("null", "opt", ("imp", "UNIVERSAL", 1))])
struct("s_any", "seq", [F("oid"), F("any", "opt")])
struct("s_long", "seq", [F("u8", tag=("exp", "", 31)), F("u8", "opt", ("imp", "", 1000)), F("bool", tag=("imp", "APPLICATION", 65535))])
struct("s_leaf", "seq", [F("int"), F("bits"), F("utc"), F("utf8"), F("oid")])
struct("s_nest", "seq", [F("s_plain"), F("s_opt", "opt", ("exp", "", 0)), F("s_plain", "opt", ("imp", "", 1)), F("u8")])
struct("s_opts", "seq", [F("s_plain", "opt"), F("u8", "opt"), F("oct", "opt"), F("bool", "opt")])
struct("s_vec", "seq", [F("vec:s_plain"), F("vec:u8", "opt", ("exp", "", 3))])
struct("s_one", "seq", [F("vecu8", "def", ("exp", "", 0))])
struct("s_empty", "seq", [], fl=("new", "par"))
struct("t_plain", "set", [F("u8"), F("bool")])
struct("t_opt", "set", [F("bool", "opt"), F("u8"), F("oct", "opt")])
struct("t_tag", "set", [F("u8", tag=("imp", "", 0)), F("oct", "opt", ("exp", "", 1)), F("bool", "def", ("imp", "APPLICATION", 2))])
struct("t_nest", "set", [F("t_plain"), F("s_def", "opt", ("imp", "", 1))])
struct("s_inset", "seq", [F("t_opt", "opt"), F("t_plain", tag=("imp", "", 4))])
choice("c_un", "un", [("u8", None), ("bool", None), ("oct", None), ("s_plain", None)])
choice("c_exp", "exp", [("u8", None), ("oct", None), ("bool", 4), ("vecu8", None)])
choice("c_imp", "imp", [("u8", None), ("oct", None), ("bool", 4), ("vecu8", None), ("s_opt", 31)])
choice("c_any", "un", [("u8", None), ("any", None)])
choice("c_one", "exp", [("c_un", 300)])
choice("c_struct", "imp", [("s_plain", None), ("s_imp", None), ("null", None)])
choice("c_lit", "un", [("utf8", None), ("ia5", None), ("utc", None)])
enumerated("e_vals", [0, 4, 5, 300, 65536, 0x7fffffff], [1, 1, 1, 1, 1, 1])
enumerated("e_seq", [0, 1, 10, 11], [0, 0, 1, 0])
enumerated("e_one", [128], [1])
choice("c_nest", "un", [("c_imp", None), ("vecu8", None)])
choice("c_enum", "un", [("e_seq", None), ("null", None)])
struct("s_cho", "seq", [F("c_un"), F("c_un", "opt", ("exp", "", 0)), F("e_vals"), F("c_exp", "opt", ("exp", "APPLICATION", 1))], fl=("new",))
struct("s_echo", "seq", [F("e_seq", "opt"), F("c_imp"), F("e_seq", "opt", ("imp", "", 7))], fl=("new",))
choice("p_exp", "exp", [("u8", None), ("utf8", None), ("bool", None)], fl=("par",))
choice("p_imp", "imp", [("u8", None), ("utf8", None), ("bool", None)], fl=("par",))
alias("a_u8", "u8", fl=ALL)
alias("a_oct", "oct", fl=ALL)
alias("a_bool", "bool", fl=ALL)
alias("a_any", "any", fl=ALL)
alias("a_utf8", "utf8", fl=ALL)
alias("a_oid", "oid", fl=("new",))
alias("a_vec", "vecu8", fl=("new",))
alias("a_plain", "s_plain", fl=("new",))
alias("a_def", "s_def", fl=("new",))
alias("a_cho", "c_exp", fl=("new",))
alias("a_enum", "e_vals", fl=("new",))
alias("a_bytes", None, rtype="&'a [u8]", tdesc='T0("octetsP")', life=1, ts=False)
alias("a_a", "a_u8")
struct("s_alias", "seq", [F("a_u8"), F("a_utf8", "opt", ("imp", "", 1)), F("a_plain", "opt"), F("a_cho", "opt", ("exp", "", 2))], fl=("new",))
struct("s_deep", "seq", [F("any", "opt", ("exp", "", 0)), F("s_any"), F("vec:any", "opt"), F("c_any", tag=("exp", "APPLICATION", 1)), F("s_any", "opt", ("imp", "", 2)), F("any")], fl=("new",))
struct("t_deep", "set", [F("s_deep", "opt"), F("any", tag=("exp", "PRIVATE", 3)), F("a_any", "opt")], fl=("new",))
choice("c_deep", "exp", [("any", None), ("s_deep", None), ("vec:any", None)])
choice("c_deepi", "imp", [("s_any", None), ("s_deep", None), ("vec:any", None)])
# errors, closures
struct("s_err", "seq", [F("u8"), F("bool", "opt"), F("oct", "opt", ("imp", "", 1))], fl=("new",), attrs=["#[error(crate::derived::MyErr)]"])
struct("s_maperr", "seq", [F("s_err", extra="#[map_err(|_| BerError::new(Input::from(&[]), InnerError::Unsupported))]"), F("u8", "opt", ("exp", "", 0), extra="#[map_err(|e| e)]")], fl=("new",))
struct("s_const", "seq", [F("u8"), F("u8", raw="const"), F("bool", "opt")], fl=("new",), attrs=['#[asn1(encode = "")]'], enc=False)
struct("s_octet", "seq", [F("u8", raw="octet"), F("bool"), F("u8", raw="octet")], fl=("new",), attrs=['#[asn1(encode = "")]'], enc=False)
struct("s_orig", "seq", [F("u8"), F("u8", raw="orig"), F("bool", "opt")], fl=("new",), attrs=['#[asn1(parse = "DER", encode = "", orig_input)]'], enc=False, ts=False)

# generated schemas: fields with pseudo-random types, presence and tags (unambiguous: an optional
# element never has the tag of one that may follow it)
rnd = random.Random(20240607)
for n in range(40):
    while True:
        k = rnd.choice([1, 2, 2, 3, 3, 4])
        fs = []
        for i in range(k):
            t = rnd.choice(["u8", "u32", "i16", "bool", "oct", "utf8", "ia5", "oid", "int", "null", "bits", "enum", "vecu8"])
            occ = rnd.choice(["req", "req", "opt", "opt", "def"])
            if occ == "def" and BASE[t][3] is None:
                occ = "opt"
            tag = None
            if rnd.random() < 0.55:
                tag = (rnd.choice(["exp", "imp"]), rnd.choice(["", "", "", "APPLICATION", "PRIVATE"]), rnd.choice([0, 1, 2, 3, 30, 31, 127, 128, 300]))
            fs.append(F(t, occ, tag))
        ok = True
        for i in range(k):
            if fs[i]["occ"] == "req":
                continue
            for j in range(i + 1, k):
                a = lambda f: (f["tag"][1], f["tag"][2]) if f["tag"] else ("U", BASE[f["t"]][5])
                if a(fs[i])[1] == a(fs[j])[1] and not (fs[i]["tag"] and fs[j]["tag"] and a(fs[i]) != a(fs[j])):
                    ok = False
                if not fs[i]["tag"] and fs[i]["t"] == "oid" and a(fs[j])[1] == 13:
                    ok = False
                if fs[j]["occ"] == "req":
                    break
        if ok:
            break
    # (the slice-based traits do not support an OBJECT IDENTIFIER with an IMPLICIT tag)
    fl = ("new", "par") if any(f["t"] == "oid" and f["tag"] and f["tag"][0] == "imp" for f in fs) else ALL
    struct(f"g{n}", rnd.choice(["seq", "seq", "set"]), fs, fl=fl)

# ------------------------------------------------------------------ Rust
out = ["//! GENERATED by tools/mk_schemas.py: types using the derive macros. Their descriptors are in spec/Schemas.tla.\n",
       "#![allow(dead_code)]\nuse asn1_rs::nom;\n",
       "/// parsing function of a field: any octet\npub fn one_octet(i: asn1_rs::Input) -> nom::IResult<asn1_rs::Input, u8, asn1_rs::BerError<asn1_rs::Input>> {\n"
       "    use asn1_rs::nom::Input as _;\n    if i.is_empty() {\n        return Err(nom::Err::Incomplete(nom::Needed::new(1)));\n    }\n    let (rem, x) = i.take_split(1);\n    Ok((rem, x.as_bytes2()[0]))\n}\n"]
for x in ("new", "par", "old", "bold"):
    uses = {"new": "asn1_rs::{nom, Alias, Any, Choice, Sequence, Set, ToStatic, BerError, BitString, Enumerated, Ia5String, InnerError, Input, Integer, Null, OctetString, Oid, TaggedExplicit, TaggedImplicit, UtcTime, Utf8String}",
            "par": "asn1_rs::{nom, BerParserAlias, DerParserAlias, BerParserChoice, DerParserChoice, BerParserSequence, DerParserSequence, BerParserSet, DerParserSet, ToBerSequence, ToDerSequence, ToBerSet, ToDerSet, Any, BitString, Enumerated, Ia5String, Integer, Null, OctetString, Oid, UtcTime, Utf8String}",
            "old": "asn1_rs::{nom, DerAlias, DerSequence, DerSet, Any, BitString, Enumerated, Ia5String, Integer, Null, OctetString, Oid, UtcTime, Utf8String}",
            "bold": "asn1_rs::{nom, BerAlias, BerSequence, BerSet, Any, BitString, Enumerated, Ia5String, Integer, Null, OctetString, Oid, UtcTime, Utf8String}"}[x]
    out.append(f"pub mod {x} {{\n    #![allow(unused_imports)]\n    use crate::flat::Flat;\n    use asn1_rs::nom::Err;\n    use asn1_rs::Tagged;\n    use {uses};\n\n" + "\n".join("    " + l if l else "" for l in "\n".join(rust[x]).split("\n")) + "}\n")


def rty(x, n):
    return f"crate::schemas::{x}::{names[n]['rust']}"


def table(mac, x, sel, pre=""):
    rows = "".join(f'    "{pre}{n}": {rty(x, n)},\n' for n in order if x in names[n]["fl"] and sel(names[n]))
    return f"macro_rules! {mac} {{ ($mac:ident $($pre:tt)*) => {{ $mac!{{ $($pre)*;\n{rows}}} }} }}\npub(crate) use {mac};\n"


out.append(table("with_new_ber", "new", lambda n: n["m"] != "der"))
out.append(table("with_new_der", "new", lambda n: True))
out.append(table("with_new_enc", "new", lambda n: n["enc"]))
out.append(table("with_new_ts", "new", lambda n: n["ts"]))
out.append(table("with_par", "par", lambda n: True, "p_"))
out.append(table("with_par_enc", "par", lambda n: n["enc"] and n["kind"] != "alias", "p_"))
out.append(table("with_old", "old", lambda n: True))
out.append(table("with_bold", "bold", lambda n: True, "b_"))
text = "\n".join(out)
open(os.path.join(ROOT, "harness/src/schemas.rs"), "w").write(text)

# ------------------------------------------------------------------- TLA
t = ["------------------------------ MODULE Schemas -------------------------------",
     "(***************************************************************************)",
     "(* GENERATED by tools/mk_schemas.py: descriptors of the derived types of   *)",
     "(* harness/src/schemas.rs. A field has a type t, a presence o (\"req\",      *)",
     "(* \"opt\", \"def\" with default d, or a parsing function: \"const\", \"octet\",  *)",
     "(* \"orig\"), and at = the tag is given by an attribute.                     *)",
     "(***************************************************************************)",
     "EXTENDS Kinds", ""]
ident = lambda n: "D_" + n
for n, d in tla:
    for m in sorted(names, key=len, reverse=True):
        d = d.replace("%" + m, ident(m))
    t.append(f"LOCAL {ident(n)} == {d}")
t.append("")


def setof(nm, l):
    t.append(f"{nm} == {{" + ", ".join(f'"{x}"' for x in l) + "}")


t.append("DerivedTypes ==\n  [ " + ",\n    ".join(f"{n} |-> {ident(n)}" for n, _ in tla) + " ]")
t.append("ParTypes ==\n  [ " + ", ".join(f"p_{n} |-> {ident(n)}" for n, _ in tla if "par" in names[n]["fl"]) + " ]")
t.append("BoldTypes ==\n  [ " + ", ".join(f"b_{n} |-> {ident(n)}" for n, _ in tla if "bold" in names[n]["fl"]) + " ]")
setof("DNewBer", [n for n in order if "new" in names[n]["fl"] and names[n]["m"] != "der"])
setof("DNewDer", [n for n in order if "new" in names[n]["fl"]])
setof("DEnc", [n for n in order if "new" in names[n]["fl"] and names[n]["enc"]])
setof("DStatic", [n for n in order if "new" in names[n]["fl"] and names[n]["ts"]])
setof("DPar", ["p_" + n for n in order if "par" in names[n]["fl"]])
setof("DParEnc", ["p_" + n for n in order if "par" in names[n]["fl"] and names[n]["enc"] and names[n]["kind"] != "alias"])
setof("DOld", [n for n in order if "old" in names[n]["fl"]])
setof("DBold", ["b_" + n for n in order if "bold" in names[n]["fl"]])
t.append("=============================================================================")
open(os.path.join(ROOT, "spec/Schemas.tla"), "w").write("\n".join(t) + "\n")
print(len(order), "schemas")
