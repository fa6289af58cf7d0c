------------------------------- MODULE Kinds --------------------------------
(***************************************************************************)
(* Descriptors of types. Derived types (see Schemas) are also              *)
(*   [k |-> "struct", w |-> "seq" or "set", fs |-> fields]                 *)
(*   [k |-> "choice", w |-> "un", "exp" or "imp", vs |-> variants]         *)
(*   [k |-> "denum", vals |-> the values (four octets each)]               *)
(***************************************************************************)
EXTENDS Integers, Sequences

(*------------------------------- descriptors -----------------------------*)
TInt(s, n) == [k |-> "int", s |-> s, n |-> n]
T0(k) == [k |-> k]
TStr(cs, t) == [k |-> "str", cs |-> cs, t |-> t, prim |-> FALSE]
TStrP(cs, t) == [k |-> "str", cs |-> cs, t |-> t, prim |-> TRUE]
TRaw(t) == [k |-> "raw", t |-> t]
\* lists: w = "seq" (tag 16), "set" (tag 17), "ord" (sorted, no duplicates), "hash" (unordered, no duplicates)
TList(w, e) == [k |-> "list", w |-> w, e |-> e]
TArr(n, e) == [k |-> "arr", n |-> n, e |-> e]
TTup(ts) == [k |-> "tup", ts |-> ts]
TOpt(e) == [k |-> "opt", e |-> e]
TExp(cls, no, e) == [k |-> "exp", cls |-> cls, no |-> no, e |-> e]
TImp(cls, no, e) == [k |-> "imp", cls |-> cls, no |-> no, e |-> e]
\* tag number of a derived container
StructNo(ty) == CASE ty.w = "seq" -> 16 [] ty.w = "set" -> 17 [] ty.w = "pdv" -> 11
\* EMBEDDED PDV (X.680: 36.5) as a SEQUENCE with automatic tags and another tag; the first member is a CHOICE, hence EXPLICIT
LOCAL Must(t) == [t |-> t, o |-> "req", d |-> 0, at |-> FALSE]
LOCAL Two(a, b) == [k |-> "struct", w |-> "seq", fs |-> <<Must(TImp(2, 0, a)), Must(TImp(2, 1, b))>>]
TPdvId == [k |-> "choice", w |-> "imp", vs |->
             <<[no |-> 0, e |-> Two(T0("oid"), T0("oid"))], [no |-> 1, e |-> T0("oid")], [no |-> 2, e |-> T0("integer")],
               [no |-> 3, e |-> Two(T0("integer"), T0("oid"))], [no |-> 4, e |-> T0("oid")], [no |-> 5, e |-> T0("null")]>>]
TPdv == [k |-> "struct", w |-> "pdv", fs |-> <<Must(TExp(2, 0, TPdvId)), [t |-> TImp(2, 1, TStr("ascii", 7)), o |-> "opt", d |-> 0, at |-> TRUE], Must(TImp(2, 2, T0("octetsP")))>>]
=============================================================================
