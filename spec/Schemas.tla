------------------------------ MODULE Schemas -------------------------------
(***************************************************************************)
(* GENERATED by tools/mk_schemas.py: descriptors of the derived types of   *)
(* harness/src/schemas.rs. A field has a type t, a presence o ("req",      *)
(* "opt", "def" with default d, or a parsing function: "const", "octet",  *)
(* "orig"), and at = the tag is given by an attribute.                     *)
(***************************************************************************)
EXTENDS Kinds

LOCAL D_s_plain == [k |-> "struct", w |-> "seq", fs |-> <<[t |-> TInt(FALSE, 1), o |-> "req", d |-> 0, at |-> FALSE], [t |-> T0("bool"), o |-> "req", d |-> 0, at |-> FALSE]>>]
LOCAL D_s_opt == [k |-> "struct", w |-> "seq", fs |-> <<[t |-> TInt(FALSE, 1), o |-> "opt", d |-> 0, at |-> FALSE], [t |-> T0("bool"), o |-> "req", d |-> 0, at |-> FALSE], [t |-> T0("octets"), o |-> "opt", d |-> 0, at |-> FALSE]>>]
LOCAL D_s_def == [k |-> "struct", w |-> "seq", fs |-> <<[t |-> TInt(FALSE, 1), o |-> "def", d |-> <<9>>, at |-> FALSE], [t |-> T0("bool"), o |-> "def", d |-> 255, at |-> FALSE], [t |-> TStr("utf8", 12), o |-> "def", d |-> <<122>>, at |-> FALSE]>>]
LOCAL D_s_exp == [k |-> "struct", w |-> "seq", fs |-> <<[t |-> TExp(2, 0, TInt(FALSE, 1)), o |-> "req", d |-> 0, at |-> TRUE], [t |-> TExp(2, 1, T0("bool")), o |-> "opt", d |-> 0, at |-> TRUE], [t |-> TExp(2, 2, TInt(FALSE, 1)), o |-> "def", d |-> <<9>>, at |-> TRUE]>>]
LOCAL D_s_imp == [k |-> "struct", w |-> "seq", fs |-> <<[t |-> TImp(2, 0, TInt(FALSE, 1)), o |-> "req", d |-> 0, at |-> TRUE], [t |-> TImp(2, 1, T0("octets")), o |-> "opt", d |-> 0, at |-> TRUE], [t |-> TImp(2, 2, TInt(FALSE, 1)), o |-> "def", d |-> <<9>>, at |-> TRUE], [t |-> TImp(2, 3, TList("seq", TInt(FALSE, 1))), o |-> "opt", d |-> 0, at |-> TRUE]>>]
LOCAL D_s_cls == [k |-> "struct", w |-> "seq", fs |-> <<[t |-> TExp(1, 1, TInt(FALSE, 1)), o |-> "req", d |-> 0, at |-> TRUE], [t |-> TImp(3, 2, T0("octets")), o |-> "req", d |-> 0, at |-> TRUE], [t |-> TImp(1, 3, T0("bool")), o |-> "opt", d |-> 0, at |-> TRUE], [t |-> TExp(0, 17, TInt(FALSE, 1)), o |-> "opt", d |-> 0, at |-> TRUE]>>]
LOCAL D_s_same == [k |-> "struct", w |-> "seq", fs |-> <<[t |-> TImp(2, 1, TInt(FALSE, 1)), o |-> "opt", d |-> 0, at |-> TRUE], [t |-> TImp(1, 1, TInt(FALSE, 1)), o |-> "opt", d |-> 0, at |-> TRUE], [t |-> TExp(3, 1, T0("bool")), o |-> "def", d |-> 255, at |-> TRUE], [t |-> TImp(0, 1, T0("null")), o |-> "opt", d |-> 0, at |-> TRUE]>>]
LOCAL D_s_any == [k |-> "struct", w |-> "seq", fs |-> <<[t |-> T0("oid"), o |-> "req", d |-> 0, at |-> FALSE], [t |-> T0("any"), o |-> "opt", d |-> 0, at |-> FALSE]>>]
LOCAL D_s_long == [k |-> "struct", w |-> "seq", fs |-> <<[t |-> TExp(2, 31, TInt(FALSE, 1)), o |-> "req", d |-> 0, at |-> TRUE], [t |-> TImp(2, 1000, TInt(FALSE, 1)), o |-> "opt", d |-> 0, at |-> TRUE], [t |-> TImp(1, 65535, T0("bool")), o |-> "req", d |-> 0, at |-> TRUE]>>]
LOCAL D_s_leaf == [k |-> "struct", w |-> "seq", fs |-> <<[t |-> T0("integer"), o |-> "req", d |-> 0, at |-> FALSE], [t |-> T0("bits"), o |-> "req", d |-> 0, at |-> FALSE], [t |-> T0("utctime"), o |-> "req", d |-> 0, at |-> FALSE], [t |-> TStr("utf8", 12), o |-> "req", d |-> 0, at |-> FALSE], [t |-> T0("oid"), o |-> "req", d |-> 0, at |-> FALSE]>>]
LOCAL D_s_nest == [k |-> "struct", w |-> "seq", fs |-> <<[t |-> D_s_plain, o |-> "req", d |-> 0, at |-> FALSE], [t |-> TExp(2, 0, D_s_opt), o |-> "opt", d |-> 0, at |-> TRUE], [t |-> TImp(2, 1, D_s_plain), o |-> "opt", d |-> 0, at |-> TRUE], [t |-> TInt(FALSE, 1), o |-> "req", d |-> 0, at |-> FALSE]>>]
LOCAL D_s_opts == [k |-> "struct", w |-> "seq", fs |-> <<[t |-> D_s_plain, o |-> "opt", d |-> 0, at |-> FALSE], [t |-> TInt(FALSE, 1), o |-> "opt", d |-> 0, at |-> FALSE], [t |-> T0("octets"), o |-> "opt", d |-> 0, at |-> FALSE], [t |-> T0("bool"), o |-> "opt", d |-> 0, at |-> FALSE]>>]
LOCAL D_s_vec == [k |-> "struct", w |-> "seq", fs |-> <<[t |-> TList("seq", D_s_plain), o |-> "req", d |-> 0, at |-> FALSE], [t |-> TExp(2, 3, TList("seq", TInt(FALSE, 1))), o |-> "opt", d |-> 0, at |-> TRUE]>>]
LOCAL D_s_one == [k |-> "struct", w |-> "seq", fs |-> <<[t |-> TExp(2, 0, TList("seq", TInt(FALSE, 1))), o |-> "def", d |-> <<<<1>>>>, at |-> TRUE]>>]
LOCAL D_s_empty == [k |-> "struct", w |-> "seq", fs |-> <<>>]
LOCAL D_t_plain == [k |-> "struct", w |-> "set", fs |-> <<[t |-> TInt(FALSE, 1), o |-> "req", d |-> 0, at |-> FALSE], [t |-> T0("bool"), o |-> "req", d |-> 0, at |-> FALSE]>>]
LOCAL D_t_opt == [k |-> "struct", w |-> "set", fs |-> <<[t |-> T0("bool"), o |-> "opt", d |-> 0, at |-> FALSE], [t |-> TInt(FALSE, 1), o |-> "req", d |-> 0, at |-> FALSE], [t |-> T0("octets"), o |-> "opt", d |-> 0, at |-> FALSE]>>]
LOCAL D_t_tag == [k |-> "struct", w |-> "set", fs |-> <<[t |-> TImp(2, 0, TInt(FALSE, 1)), o |-> "req", d |-> 0, at |-> TRUE], [t |-> TExp(2, 1, T0("octets")), o |-> "opt", d |-> 0, at |-> TRUE], [t |-> TImp(1, 2, T0("bool")), o |-> "def", d |-> 255, at |-> TRUE]>>]
LOCAL D_t_nest == [k |-> "struct", w |-> "set", fs |-> <<[t |-> D_t_plain, o |-> "req", d |-> 0, at |-> FALSE], [t |-> TImp(2, 1, D_s_def), o |-> "opt", d |-> 0, at |-> TRUE]>>]
LOCAL D_s_inset == [k |-> "struct", w |-> "seq", fs |-> <<[t |-> D_t_opt, o |-> "opt", d |-> 0, at |-> FALSE], [t |-> TImp(2, 4, D_t_plain), o |-> "req", d |-> 0, at |-> TRUE]>>]
LOCAL D_c_un == [k |-> "choice", w |-> "un", vs |-> <<[no |-> 0, e |-> TInt(FALSE, 1)], [no |-> 1, e |-> T0("bool")], [no |-> 2, e |-> T0("octets")], [no |-> 3, e |-> D_s_plain]>>]
LOCAL D_c_exp == [k |-> "choice", w |-> "exp", vs |-> <<[no |-> 0, e |-> TInt(FALSE, 1)], [no |-> 1, e |-> T0("octets")], [no |-> 4, e |-> T0("bool")], [no |-> 5, e |-> TList("seq", TInt(FALSE, 1))]>>]
LOCAL D_c_imp == [k |-> "choice", w |-> "imp", vs |-> <<[no |-> 0, e |-> TInt(FALSE, 1)], [no |-> 1, e |-> T0("octets")], [no |-> 4, e |-> T0("bool")], [no |-> 5, e |-> TList("seq", TInt(FALSE, 1))], [no |-> 31, e |-> D_s_opt]>>]
LOCAL D_c_any == [k |-> "choice", w |-> "un", vs |-> <<[no |-> 0, e |-> TInt(FALSE, 1)], [no |-> 1, e |-> T0("any")]>>]
LOCAL D_c_one == [k |-> "choice", w |-> "exp", vs |-> <<[no |-> 300, e |-> D_c_un]>>]
LOCAL D_c_struct == [k |-> "choice", w |-> "imp", vs |-> <<[no |-> 0, e |-> D_s_plain], [no |-> 1, e |-> D_s_imp], [no |-> 2, e |-> T0("null")]>>]
LOCAL D_c_lit == [k |-> "choice", w |-> "un", vs |-> <<[no |-> 0, e |-> TStr("utf8", 12)], [no |-> 1, e |-> TStr("ascii", 22)], [no |-> 2, e |-> T0("utctime")]>>]
LOCAL D_e_vals == [k |-> "denum", vals |-> {<<0, 0, 0, 0>>, <<0, 0, 0, 4>>, <<0, 0, 0, 5>>, <<0, 0, 1, 44>>, <<0, 1, 0, 0>>, <<127, 255, 255, 255>>}]
LOCAL D_e_seq == [k |-> "denum", vals |-> {<<0, 0, 0, 0>>, <<0, 0, 0, 1>>, <<0, 0, 0, 10>>, <<0, 0, 0, 11>>}]
LOCAL D_e_one == [k |-> "denum", vals |-> {<<0, 0, 0, 128>>}]
LOCAL D_c_nest == [k |-> "choice", w |-> "un", vs |-> <<[no |-> 0, e |-> D_c_imp], [no |-> 1, e |-> TList("seq", TInt(FALSE, 1))]>>]
LOCAL D_c_enum == [k |-> "choice", w |-> "un", vs |-> <<[no |-> 0, e |-> D_e_seq], [no |-> 1, e |-> T0("null")]>>]
LOCAL D_s_cho == [k |-> "struct", w |-> "seq", fs |-> <<[t |-> D_c_un, o |-> "req", d |-> 0, at |-> FALSE], [t |-> TExp(2, 0, D_c_un), o |-> "opt", d |-> 0, at |-> TRUE], [t |-> D_e_vals, o |-> "req", d |-> 0, at |-> FALSE], [t |-> TExp(1, 1, D_c_exp), o |-> "opt", d |-> 0, at |-> TRUE]>>]
LOCAL D_s_echo == [k |-> "struct", w |-> "seq", fs |-> <<[t |-> D_e_seq, o |-> "opt", d |-> 0, at |-> FALSE], [t |-> D_c_imp, o |-> "req", d |-> 0, at |-> FALSE], [t |-> TImp(2, 7, D_e_seq), o |-> "opt", d |-> 0, at |-> TRUE]>>]
LOCAL D_p_exp == [k |-> "choice", w |-> "exp", vs |-> <<[no |-> 0, e |-> TInt(FALSE, 1)], [no |-> 1, e |-> TStr("utf8", 12)], [no |-> 2, e |-> T0("bool")]>>]
LOCAL D_p_imp == [k |-> "choice", w |-> "imp", vs |-> <<[no |-> 0, e |-> TInt(FALSE, 1)], [no |-> 1, e |-> TStr("utf8", 12)], [no |-> 2, e |-> T0("bool")]>>]
LOCAL D_a_u8 == TInt(FALSE, 1)
LOCAL D_a_oct == T0("octets")
LOCAL D_a_bool == T0("bool")
LOCAL D_a_any == T0("any")
LOCAL D_a_utf8 == TStr("utf8", 12)
LOCAL D_a_oid == T0("oid")
LOCAL D_a_vec == TList("seq", TInt(FALSE, 1))
LOCAL D_a_plain == D_s_plain
LOCAL D_a_def == D_s_def
LOCAL D_a_cho == D_c_exp
LOCAL D_a_enum == D_e_vals
LOCAL D_a_bytes == T0("octetsP")
LOCAL D_a_a == D_a_u8
LOCAL D_s_alias == [k |-> "struct", w |-> "seq", fs |-> <<[t |-> D_a_u8, o |-> "req", d |-> 0, at |-> FALSE], [t |-> TImp(2, 1, D_a_utf8), o |-> "opt", d |-> 0, at |-> TRUE], [t |-> D_a_plain, o |-> "opt", d |-> 0, at |-> FALSE], [t |-> TExp(2, 2, D_a_cho), o |-> "opt", d |-> 0, at |-> TRUE]>>]
LOCAL D_s_deep == [k |-> "struct", w |-> "seq", fs |-> <<[t |-> TExp(2, 0, T0("any")), o |-> "opt", d |-> 0, at |-> TRUE], [t |-> D_s_any, o |-> "req", d |-> 0, at |-> FALSE], [t |-> TList("seq", T0("any")), o |-> "opt", d |-> 0, at |-> FALSE], [t |-> TExp(1, 1, D_c_any), o |-> "req", d |-> 0, at |-> TRUE], [t |-> TImp(2, 2, D_s_any), o |-> "opt", d |-> 0, at |-> TRUE], [t |-> T0("any"), o |-> "req", d |-> 0, at |-> FALSE]>>]
LOCAL D_t_deep == [k |-> "struct", w |-> "set", fs |-> <<[t |-> D_s_deep, o |-> "opt", d |-> 0, at |-> FALSE], [t |-> TExp(3, 3, T0("any")), o |-> "req", d |-> 0, at |-> TRUE], [t |-> D_a_any, o |-> "opt", d |-> 0, at |-> FALSE]>>]
LOCAL D_c_deep == [k |-> "choice", w |-> "exp", vs |-> <<[no |-> 0, e |-> T0("any")], [no |-> 1, e |-> D_s_deep], [no |-> 2, e |-> TList("seq", T0("any"))]>>]
LOCAL D_c_deepi == [k |-> "choice", w |-> "imp", vs |-> <<[no |-> 0, e |-> D_s_any], [no |-> 1, e |-> D_s_deep], [no |-> 2, e |-> TList("seq", T0("any"))]>>]
LOCAL D_s_err == [k |-> "struct", w |-> "seq", fs |-> <<[t |-> TInt(FALSE, 1), o |-> "req", d |-> 0, at |-> FALSE], [t |-> T0("bool"), o |-> "opt", d |-> 0, at |-> FALSE], [t |-> TImp(2, 1, T0("octets")), o |-> "opt", d |-> 0, at |-> TRUE]>>]
LOCAL D_s_maperr == [k |-> "struct", w |-> "seq", fs |-> <<[t |-> D_s_err, o |-> "req", d |-> 0, at |-> FALSE], [t |-> TExp(2, 0, TInt(FALSE, 1)), o |-> "opt", d |-> 0, at |-> TRUE]>>]
LOCAL D_s_const == [k |-> "struct", w |-> "seq", fs |-> <<[t |-> TInt(FALSE, 1), o |-> "req", d |-> 0, at |-> FALSE], [t |-> TInt(FALSE, 1), o |-> "const", d |-> <<254>>, at |-> FALSE], [t |-> T0("bool"), o |-> "opt", d |-> 0, at |-> FALSE]>>]
LOCAL D_s_octet == [k |-> "struct", w |-> "seq", fs |-> <<[t |-> TInt(FALSE, 1), o |-> "octet", d |-> 0, at |-> FALSE], [t |-> T0("bool"), o |-> "req", d |-> 0, at |-> FALSE], [t |-> TInt(FALSE, 1), o |-> "octet", d |-> 0, at |-> FALSE]>>]
LOCAL D_s_orig == [k |-> "struct", w |-> "seq", fs |-> <<[t |-> TInt(FALSE, 1), o |-> "req", d |-> 0, at |-> FALSE], [t |-> T0("octets"), o |-> "orig", d |-> 0, at |-> FALSE], [t |-> T0("bool"), o |-> "opt", d |-> 0, at |-> FALSE]>>]
LOCAL D_g0 == [k |-> "struct", w |-> "seq", fs |-> <<[t |-> TExp(3, 3, TStr("ascii", 22)), o |-> "def", d |-> <<122>>, at |-> TRUE], [t |-> TImp(2, 30, T0("null")), o |-> "req", d |-> 0, at |-> TRUE], [t |-> TInt(FALSE, 1), o |-> "def", d |-> <<9>>, at |-> FALSE]>>]
LOCAL D_g1 == [k |-> "struct", w |-> "set", fs |-> <<[t |-> T0("null"), o |-> "opt", d |-> 0, at |-> FALSE], [t |-> T0("octets"), o |-> "def", d |-> <<120, 121>>, at |-> FALSE], [t |-> TExp(1, 2, TInt(TRUE, 2)), o |-> "req", d |-> 0, at |-> TRUE], [t |-> T0("octets"), o |-> "req", d |-> 0, at |-> FALSE]>>]
LOCAL D_g2 == [k |-> "struct", w |-> "set", fs |-> <<[t |-> TExp(2, 128, T0("oid")), o |-> "req", d |-> 0, at |-> TRUE], [t |-> T0("oid"), o |-> "req", d |-> 0, at |-> FALSE]>>]
LOCAL D_g3 == [k |-> "struct", w |-> "set", fs |-> <<[t |-> TList("seq", TInt(FALSE, 1)), o |-> "opt", d |-> 0, at |-> FALSE], [t |-> T0("bool"), o |-> "opt", d |-> 0, at |-> FALSE], [t |-> TExp(2, 128, T0("bits")), o |-> "opt", d |-> 0, at |-> TRUE]>>]
LOCAL D_g4 == [k |-> "struct", w |-> "seq", fs |-> <<[t |-> T0("bits"), o |-> "opt", d |-> 0, at |-> FALSE], [t |-> T0("bool"), o |-> "req", d |-> 0, at |-> FALSE], [t |-> TExp(2, 128, T0("bits")), o |-> "opt", d |-> 0, at |-> TRUE], [t |-> TImp(3, 31, T0("octets")), o |-> "opt", d |-> 0, at |-> TRUE]>>]
LOCAL D_g5 == [k |-> "struct", w |-> "seq", fs |-> <<[t |-> TInt(FALSE, 4), o |-> "req", d |-> 0, at |-> FALSE], [t |-> TInt(FALSE, 1), o |-> "req", d |-> 0, at |-> FALSE], [t |-> T0("oid"), o |-> "opt", d |-> 0, at |-> FALSE]>>]
LOCAL D_g6 == [k |-> "struct", w |-> "seq", fs |-> <<[t |-> TImp(2, 128, T0("octets")), o |-> "req", d |-> 0, at |-> TRUE]>>]
LOCAL D_g7 == [k |-> "struct", w |-> "seq", fs |-> <<[t |-> TExp(2, 31, TInt(TRUE, 2)), o |-> "req", d |-> 0, at |-> TRUE], [t |-> TImp(2, 3, TStr("ascii", 22)), o |-> "req", d |-> 0, at |-> TRUE], [t |-> TImp(2, 300, T0("oid")), o |-> "req", d |-> 0, at |-> TRUE]>>]
LOCAL D_g8 == [k |-> "struct", w |-> "seq", fs |-> <<[t |-> TList("seq", TInt(FALSE, 1)), o |-> "req", d |-> 0, at |-> FALSE], [t |-> TExp(2, 30, TList("seq", TInt(FALSE, 1))), o |-> "def", d |-> <<<<1>>>>, at |-> TRUE]>>]
LOCAL D_g9 == [k |-> "struct", w |-> "seq", fs |-> <<[t |-> TImp(1, 127, T0("null")), o |-> "req", d |-> 0, at |-> TRUE], [t |-> TStr("utf8", 12), o |-> "def", d |-> <<122>>, at |-> FALSE], [t |-> TStr("ascii", 22), o |-> "def", d |-> <<122>>, at |-> FALSE]>>]
LOCAL D_g10 == [k |-> "struct", w |-> "seq", fs |-> <<[t |-> TImp(3, 30, T0("enum")), o |-> "req", d |-> 0, at |-> TRUE], [t |-> TInt(FALSE, 4), o |-> "req", d |-> 0, at |-> FALSE]>>]
LOCAL D_g11 == [k |-> "struct", w |-> "seq", fs |-> <<[t |-> TExp(2, 127, TStr("utf8", 12)), o |-> "req", d |-> 0, at |-> TRUE], [t |-> T0("bool"), o |-> "def", d |-> 255, at |-> FALSE], [t |-> T0("null"), o |-> "req", d |-> 0, at |-> FALSE]>>]
LOCAL D_g12 == [k |-> "struct", w |-> "seq", fs |-> <<[t |-> T0("null"), o |-> "opt", d |-> 0, at |-> FALSE], [t |-> T0("integer"), o |-> "opt", d |-> 0, at |-> FALSE]>>]
LOCAL D_g13 == [k |-> "struct", w |-> "set", fs |-> <<[t |-> TExp(2, 30, T0("octets")), o |-> "req", d |-> 0, at |-> TRUE], [t |-> TImp(2, 300, TStr("ascii", 22)), o |-> "req", d |-> 0, at |-> TRUE], [t |-> T0("null"), o |-> "req", d |-> 0, at |-> FALSE]>>]
LOCAL D_g14 == [k |-> "struct", w |-> "seq", fs |-> <<[t |-> TImp(3, 30, T0("octets")), o |-> "req", d |-> 0, at |-> TRUE], [t |-> TImp(1, 1, T0("bool")), o |-> "opt", d |-> 0, at |-> TRUE], [t |-> TExp(1, 3, TList("seq", TInt(FALSE, 1))), o |-> "def", d |-> <<<<1>>>>, at |-> TRUE]>>]
LOCAL D_g15 == [k |-> "struct", w |-> "set", fs |-> <<[t |-> TInt(FALSE, 1), o |-> "opt", d |-> 0, at |-> FALSE], [t |-> TExp(2, 127, T0("null")), o |-> "def", d |-> 0, at |-> TRUE]>>]
LOCAL D_g16 == [k |-> "struct", w |-> "seq", fs |-> <<[t |-> TStr("utf8", 12), o |-> "def", d |-> <<122>>, at |-> FALSE], [t |-> T0("oid"), o |-> "opt", d |-> 0, at |-> FALSE], [t |-> T0("integer"), o |-> "opt", d |-> 0, at |-> FALSE]>>]
LOCAL D_g17 == [k |-> "struct", w |-> "seq", fs |-> <<[t |-> TImp(1, 127, T0("null")), o |-> "req", d |-> 0, at |-> TRUE], [t |-> TImp(1, 2, TList("seq", TInt(FALSE, 1))), o |-> "req", d |-> 0, at |-> TRUE], [t |-> TImp(2, 30, T0("octets")), o |-> "req", d |-> 0, at |-> TRUE]>>]
LOCAL D_g18 == [k |-> "struct", w |-> "seq", fs |-> <<[t |-> T0("integer"), o |-> "req", d |-> 0, at |-> FALSE]>>]
LOCAL D_g19 == [k |-> "struct", w |-> "seq", fs |-> <<[t |-> TStr("ascii", 22), o |-> "req", d |-> 0, at |-> FALSE]>>]
LOCAL D_g20 == [k |-> "struct", w |-> "set", fs |-> <<[t |-> T0("enum"), o |-> "req", d |-> 0, at |-> FALSE], [t |-> TExp(2, 31, T0("oid")), o |-> "opt", d |-> 0, at |-> TRUE]>>]
LOCAL D_g21 == [k |-> "struct", w |-> "set", fs |-> <<[t |-> TExp(2, 1, TInt(TRUE, 2)), o |-> "opt", d |-> 0, at |-> TRUE], [t |-> T0("bits"), o |-> "req", d |-> 0, at |-> FALSE], [t |-> TExp(2, 0, TInt(FALSE, 4)), o |-> "req", d |-> 0, at |-> TRUE]>>]
LOCAL D_g22 == [k |-> "struct", w |-> "seq", fs |-> <<[t |-> TInt(FALSE, 1), o |-> "req", d |-> 0, at |-> FALSE], [t |-> TExp(2, 30, T0("bool")), o |-> "opt", d |-> 0, at |-> TRUE], [t |-> TExp(2, 300, T0("null")), o |-> "opt", d |-> 0, at |-> TRUE]>>]
LOCAL D_g23 == [k |-> "struct", w |-> "set", fs |-> <<[t |-> TExp(2, 300, TStr("ascii", 22)), o |-> "opt", d |-> 0, at |-> TRUE], [t |-> TInt(TRUE, 2), o |-> "req", d |-> 0, at |-> FALSE], [t |-> TImp(1, 300, TInt(FALSE, 1)), o |-> "opt", d |-> 0, at |-> TRUE]>>]
LOCAL D_g24 == [k |-> "struct", w |-> "seq", fs |-> <<[t |-> TExp(1, 0, T0("oid")), o |-> "opt", d |-> 0, at |-> TRUE], [t |-> TExp(2, 31, T0("bool")), o |-> "req", d |-> 0, at |-> TRUE], [t |-> TImp(1, 1, T0("oid")), o |-> "req", d |-> 0, at |-> TRUE], [t |-> TExp(2, 128, T0("oid")), o |-> "opt", d |-> 0, at |-> TRUE]>>]
LOCAL D_g25 == [k |-> "struct", w |-> "set", fs |-> <<[t |-> TImp(1, 1, TInt(TRUE, 2)), o |-> "def", d |-> <<255, 254>>, at |-> TRUE], [t |-> TExp(3, 300, TInt(FALSE, 4)), o |-> "opt", d |-> 0, at |-> TRUE], [t |-> TImp(2, 31, T0("oid")), o |-> "req", d |-> 0, at |-> TRUE], [t |-> TExp(2, 127, TInt(FALSE, 1)), o |-> "opt", d |-> 0, at |-> TRUE]>>]
LOCAL D_g26 == [k |-> "struct", w |-> "seq", fs |-> <<[t |-> T0("octets"), o |-> "req", d |-> 0, at |-> FALSE], [t |-> TImp(1, 2, T0("integer")), o |-> "opt", d |-> 0, at |-> TRUE]>>]
LOCAL D_g27 == [k |-> "struct", w |-> "set", fs |-> <<[t |-> TImp(3, 3, TInt(FALSE, 1)), o |-> "req", d |-> 0, at |-> TRUE], [t |-> T0("bits"), o |-> "opt", d |-> 0, at |-> FALSE], [t |-> TImp(1, 1, TInt(TRUE, 2)), o |-> "def", d |-> <<255, 254>>, at |-> TRUE]>>]
LOCAL D_g28 == [k |-> "struct", w |-> "seq", fs |-> <<[t |-> T0("bool"), o |-> "def", d |-> 255, at |-> FALSE], [t |-> TImp(2, 127, T0("oid")), o |-> "req", d |-> 0, at |-> TRUE]>>]
LOCAL D_g29 == [k |-> "struct", w |-> "set", fs |-> <<[t |-> TImp(1, 127, T0("enum")), o |-> "req", d |-> 0, at |-> TRUE], [t |-> T0("octets"), o |-> "req", d |-> 0, at |-> FALSE], [t |-> TImp(2, 31, T0("oid")), o |-> "opt", d |-> 0, at |-> TRUE], [t |-> TList("seq", TInt(FALSE, 1)), o |-> "req", d |-> 0, at |-> FALSE]>>]
LOCAL D_g30 == [k |-> "struct", w |-> "seq", fs |-> <<[t |-> TExp(3, 300, T0("bool")), o |-> "opt", d |-> 0, at |-> TRUE], [t |-> TImp(1, 1, T0("null")), o |-> "opt", d |-> 0, at |-> TRUE], [t |-> TList("seq", TInt(FALSE, 1)), o |-> "def", d |-> <<<<1>>>>, at |-> FALSE]>>]
LOCAL D_g31 == [k |-> "struct", w |-> "seq", fs |-> <<[t |-> T0("octets"), o |-> "req", d |-> 0, at |-> FALSE], [t |-> TImp(2, 30, T0("oid")), o |-> "opt", d |-> 0, at |-> TRUE], [t |-> TInt(TRUE, 2), o |-> "def", d |-> <<255, 254>>, at |-> FALSE]>>]
LOCAL D_g32 == [k |-> "struct", w |-> "seq", fs |-> <<[t |-> TInt(FALSE, 4), o |-> "opt", d |-> 0, at |-> FALSE], [t |-> T0("null"), o |-> "req", d |-> 0, at |-> FALSE], [t |-> TImp(3, 0, T0("integer")), o |-> "req", d |-> 0, at |-> TRUE], [t |-> TExp(2, 300, TList("seq", TInt(FALSE, 1))), o |-> "def", d |-> <<<<1>>>>, at |-> TRUE]>>]
LOCAL D_g33 == [k |-> "struct", w |-> "set", fs |-> <<[t |-> TImp(3, 1, T0("integer")), o |-> "req", d |-> 0, at |-> TRUE], [t |-> TImp(2, 31, T0("oid")), o |-> "opt", d |-> 0, at |-> TRUE], [t |-> T0("bool"), o |-> "def", d |-> 255, at |-> FALSE], [t |-> TExp(2, 2, TInt(FALSE, 4)), o |-> "req", d |-> 0, at |-> TRUE]>>]
LOCAL D_g34 == [k |-> "struct", w |-> "seq", fs |-> <<[t |-> TImp(2, 31, T0("integer")), o |-> "opt", d |-> 0, at |-> TRUE], [t |-> TImp(1, 1, T0("bool")), o |-> "req", d |-> 0, at |-> TRUE], [t |-> TInt(FALSE, 4), o |-> "req", d |-> 0, at |-> FALSE], [t |-> TExp(2, 3, T0("bits")), o |-> "opt", d |-> 0, at |-> TRUE]>>]
LOCAL D_g35 == [k |-> "struct", w |-> "set", fs |-> <<[t |-> TExp(2, 3, T0("bits")), o |-> "opt", d |-> 0, at |-> TRUE]>>]
LOCAL D_g36 == [k |-> "struct", w |-> "seq", fs |-> <<[t |-> TExp(2, 31, T0("octets")), o |-> "def", d |-> <<120, 121>>, at |-> TRUE], [t |-> TImp(1, 3, T0("octets")), o |-> "req", d |-> 0, at |-> TRUE], [t |-> TExp(2, 0, T0("integer")), o |-> "req", d |-> 0, at |-> TRUE]>>]
LOCAL D_g37 == [k |-> "struct", w |-> "seq", fs |-> <<[t |-> TStr("utf8", 12), o |-> "def", d |-> <<122>>, at |-> FALSE], [t |-> TImp(2, 2, TInt(TRUE, 2)), o |-> "def", d |-> <<255, 254>>, at |-> TRUE]>>]
LOCAL D_g38 == [k |-> "struct", w |-> "seq", fs |-> <<[t |-> TExp(2, 31, TInt(FALSE, 1)), o |-> "req", d |-> 0, at |-> TRUE], [t |-> T0("oid"), o |-> "opt", d |-> 0, at |-> FALSE], [t |-> T0("bits"), o |-> "opt", d |-> 0, at |-> FALSE]>>]
LOCAL D_g39 == [k |-> "struct", w |-> "seq", fs |-> <<[t |-> TList("seq", TInt(FALSE, 1)), o |-> "opt", d |-> 0, at |-> FALSE], [t |-> T0("null"), o |-> "def", d |-> 0, at |-> FALSE], [t |-> T0("bits"), o |-> "opt", d |-> 0, at |-> FALSE], [t |-> T0("oid"), o |-> "opt", d |-> 0, at |-> FALSE]>>]

DerivedTypes ==
  [ s_plain |-> D_s_plain,
    s_opt |-> D_s_opt,
    s_def |-> D_s_def,
    s_exp |-> D_s_exp,
    s_imp |-> D_s_imp,
    s_cls |-> D_s_cls,
    s_same |-> D_s_same,
    s_any |-> D_s_any,
    s_long |-> D_s_long,
    s_leaf |-> D_s_leaf,
    s_nest |-> D_s_nest,
    s_opts |-> D_s_opts,
    s_vec |-> D_s_vec,
    s_one |-> D_s_one,
    s_empty |-> D_s_empty,
    t_plain |-> D_t_plain,
    t_opt |-> D_t_opt,
    t_tag |-> D_t_tag,
    t_nest |-> D_t_nest,
    s_inset |-> D_s_inset,
    c_un |-> D_c_un,
    c_exp |-> D_c_exp,
    c_imp |-> D_c_imp,
    c_any |-> D_c_any,
    c_one |-> D_c_one,
    c_struct |-> D_c_struct,
    c_lit |-> D_c_lit,
    e_vals |-> D_e_vals,
    e_seq |-> D_e_seq,
    e_one |-> D_e_one,
    c_nest |-> D_c_nest,
    c_enum |-> D_c_enum,
    s_cho |-> D_s_cho,
    s_echo |-> D_s_echo,
    p_exp |-> D_p_exp,
    p_imp |-> D_p_imp,
    a_u8 |-> D_a_u8,
    a_oct |-> D_a_oct,
    a_bool |-> D_a_bool,
    a_any |-> D_a_any,
    a_utf8 |-> D_a_utf8,
    a_oid |-> D_a_oid,
    a_vec |-> D_a_vec,
    a_plain |-> D_a_plain,
    a_def |-> D_a_def,
    a_cho |-> D_a_cho,
    a_enum |-> D_a_enum,
    a_bytes |-> D_a_bytes,
    a_a |-> D_a_a,
    s_alias |-> D_s_alias,
    s_deep |-> D_s_deep,
    t_deep |-> D_t_deep,
    c_deep |-> D_c_deep,
    c_deepi |-> D_c_deepi,
    s_err |-> D_s_err,
    s_maperr |-> D_s_maperr,
    s_const |-> D_s_const,
    s_octet |-> D_s_octet,
    s_orig |-> D_s_orig,
    g0 |-> D_g0,
    g1 |-> D_g1,
    g2 |-> D_g2,
    g3 |-> D_g3,
    g4 |-> D_g4,
    g5 |-> D_g5,
    g6 |-> D_g6,
    g7 |-> D_g7,
    g8 |-> D_g8,
    g9 |-> D_g9,
    g10 |-> D_g10,
    g11 |-> D_g11,
    g12 |-> D_g12,
    g13 |-> D_g13,
    g14 |-> D_g14,
    g15 |-> D_g15,
    g16 |-> D_g16,
    g17 |-> D_g17,
    g18 |-> D_g18,
    g19 |-> D_g19,
    g20 |-> D_g20,
    g21 |-> D_g21,
    g22 |-> D_g22,
    g23 |-> D_g23,
    g24 |-> D_g24,
    g25 |-> D_g25,
    g26 |-> D_g26,
    g27 |-> D_g27,
    g28 |-> D_g28,
    g29 |-> D_g29,
    g30 |-> D_g30,
    g31 |-> D_g31,
    g32 |-> D_g32,
    g33 |-> D_g33,
    g34 |-> D_g34,
    g35 |-> D_g35,
    g36 |-> D_g36,
    g37 |-> D_g37,
    g38 |-> D_g38,
    g39 |-> D_g39 ]
ParTypes ==
  [ p_s_plain |-> D_s_plain, p_s_opt |-> D_s_opt, p_s_def |-> D_s_def, p_s_exp |-> D_s_exp, p_s_imp |-> D_s_imp, p_s_cls |-> D_s_cls, p_s_same |-> D_s_same, p_s_any |-> D_s_any, p_s_long |-> D_s_long, p_s_leaf |-> D_s_leaf, p_s_nest |-> D_s_nest, p_s_opts |-> D_s_opts, p_s_vec |-> D_s_vec, p_s_one |-> D_s_one, p_s_empty |-> D_s_empty, p_t_plain |-> D_t_plain, p_t_opt |-> D_t_opt, p_t_tag |-> D_t_tag, p_t_nest |-> D_t_nest, p_s_inset |-> D_s_inset, p_p_exp |-> D_p_exp, p_p_imp |-> D_p_imp, p_a_u8 |-> D_a_u8, p_a_oct |-> D_a_oct, p_a_bool |-> D_a_bool, p_a_any |-> D_a_any, p_a_utf8 |-> D_a_utf8, p_g0 |-> D_g0, p_g1 |-> D_g1, p_g2 |-> D_g2, p_g3 |-> D_g3, p_g4 |-> D_g4, p_g5 |-> D_g5, p_g6 |-> D_g6, p_g7 |-> D_g7, p_g8 |-> D_g8, p_g9 |-> D_g9, p_g10 |-> D_g10, p_g11 |-> D_g11, p_g12 |-> D_g12, p_g13 |-> D_g13, p_g14 |-> D_g14, p_g15 |-> D_g15, p_g16 |-> D_g16, p_g17 |-> D_g17, p_g18 |-> D_g18, p_g19 |-> D_g19, p_g20 |-> D_g20, p_g21 |-> D_g21, p_g22 |-> D_g22, p_g23 |-> D_g23, p_g24 |-> D_g24, p_g25 |-> D_g25, p_g26 |-> D_g26, p_g27 |-> D_g27, p_g28 |-> D_g28, p_g29 |-> D_g29, p_g30 |-> D_g30, p_g31 |-> D_g31, p_g32 |-> D_g32, p_g33 |-> D_g33, p_g34 |-> D_g34, p_g35 |-> D_g35, p_g36 |-> D_g36, p_g37 |-> D_g37, p_g38 |-> D_g38, p_g39 |-> D_g39 ]
BoldTypes ==
  [ b_s_plain |-> D_s_plain, b_s_opt |-> D_s_opt, b_s_def |-> D_s_def, b_s_exp |-> D_s_exp, b_s_imp |-> D_s_imp, b_s_cls |-> D_s_cls, b_s_same |-> D_s_same, b_s_any |-> D_s_any, b_s_long |-> D_s_long, b_s_leaf |-> D_s_leaf, b_s_nest |-> D_s_nest, b_s_opts |-> D_s_opts, b_s_vec |-> D_s_vec, b_s_one |-> D_s_one, b_t_plain |-> D_t_plain, b_t_opt |-> D_t_opt, b_t_tag |-> D_t_tag, b_t_nest |-> D_t_nest, b_s_inset |-> D_s_inset, b_a_u8 |-> D_a_u8, b_a_oct |-> D_a_oct, b_a_bool |-> D_a_bool, b_a_any |-> D_a_any, b_a_utf8 |-> D_a_utf8, b_g0 |-> D_g0, b_g1 |-> D_g1, b_g2 |-> D_g2, b_g3 |-> D_g3, b_g4 |-> D_g4, b_g5 |-> D_g5, b_g6 |-> D_g6, b_g8 |-> D_g8, b_g9 |-> D_g9, b_g10 |-> D_g10, b_g11 |-> D_g11, b_g12 |-> D_g12, b_g13 |-> D_g13, b_g14 |-> D_g14, b_g15 |-> D_g15, b_g16 |-> D_g16, b_g17 |-> D_g17, b_g18 |-> D_g18, b_g19 |-> D_g19, b_g20 |-> D_g20, b_g21 |-> D_g21, b_g22 |-> D_g22, b_g23 |-> D_g23, b_g26 |-> D_g26, b_g27 |-> D_g27, b_g30 |-> D_g30, b_g32 |-> D_g32, b_g34 |-> D_g34, b_g35 |-> D_g35, b_g36 |-> D_g36, b_g37 |-> D_g37, b_g38 |-> D_g38, b_g39 |-> D_g39 ]
DNewBer == {"s_plain", "s_opt", "s_def", "s_exp", "s_imp", "s_cls", "s_same", "s_any", "s_long", "s_leaf", "s_nest", "s_opts", "s_vec", "s_one", "s_empty", "t_plain", "t_opt", "t_tag", "t_nest", "s_inset", "c_un", "c_exp", "c_imp", "c_any", "c_one", "c_struct", "c_lit", "e_vals", "e_seq", "e_one", "c_nest", "c_enum", "s_cho", "s_echo", "a_u8", "a_oct", "a_bool", "a_any", "a_utf8", "a_oid", "a_vec", "a_plain", "a_def", "a_cho", "a_enum", "a_bytes", "a_a", "s_alias", "s_deep", "t_deep", "c_deep", "c_deepi", "s_err", "s_maperr", "s_const", "s_octet", "g0", "g1", "g2", "g3", "g4", "g5", "g6", "g7", "g8", "g9", "g10", "g11", "g12", "g13", "g14", "g15", "g16", "g17", "g18", "g19", "g20", "g21", "g22", "g23", "g24", "g25", "g26", "g27", "g28", "g29", "g30", "g31", "g32", "g33", "g34", "g35", "g36", "g37", "g38", "g39"}
DNewDer == {"s_plain", "s_opt", "s_def", "s_exp", "s_imp", "s_cls", "s_same", "s_any", "s_long", "s_leaf", "s_nest", "s_opts", "s_vec", "s_one", "s_empty", "t_plain", "t_opt", "t_tag", "t_nest", "s_inset", "c_un", "c_exp", "c_imp", "c_any", "c_one", "c_struct", "c_lit", "e_vals", "e_seq", "e_one", "c_nest", "c_enum", "s_cho", "s_echo", "a_u8", "a_oct", "a_bool", "a_any", "a_utf8", "a_oid", "a_vec", "a_plain", "a_def", "a_cho", "a_enum", "a_bytes", "a_a", "s_alias", "s_deep", "t_deep", "c_deep", "c_deepi", "s_err", "s_maperr", "s_const", "s_octet", "s_orig", "g0", "g1", "g2", "g3", "g4", "g5", "g6", "g7", "g8", "g9", "g10", "g11", "g12", "g13", "g14", "g15", "g16", "g17", "g18", "g19", "g20", "g21", "g22", "g23", "g24", "g25", "g26", "g27", "g28", "g29", "g30", "g31", "g32", "g33", "g34", "g35", "g36", "g37", "g38", "g39"}
DEnc == {"s_plain", "s_opt", "s_def", "s_exp", "s_imp", "s_cls", "s_same", "s_any", "s_long", "s_leaf", "s_nest", "s_opts", "s_vec", "s_one", "s_empty", "t_plain", "t_opt", "t_tag", "t_nest", "s_inset", "c_un", "c_exp", "c_imp", "c_any", "c_one", "c_struct", "c_lit", "e_vals", "e_seq", "e_one", "c_nest", "c_enum", "s_cho", "s_echo", "a_u8", "a_oct", "a_bool", "a_any", "a_utf8", "a_oid", "a_vec", "a_plain", "a_def", "a_cho", "a_enum", "a_bytes", "a_a", "s_alias", "s_deep", "t_deep", "c_deep", "c_deepi", "s_err", "s_maperr", "g0", "g1", "g2", "g3", "g4", "g5", "g6", "g7", "g8", "g9", "g10", "g11", "g12", "g13", "g14", "g15", "g16", "g17", "g18", "g19", "g20", "g21", "g22", "g23", "g24", "g25", "g26", "g27", "g28", "g29", "g30", "g31", "g32", "g33", "g34", "g35", "g36", "g37", "g38", "g39"}
DStatic == {"s_plain", "s_exp", "s_long", "s_vec", "s_one", "s_empty", "t_plain", "e_vals", "e_seq", "e_one", "a_u8", "a_bool", "a_vec", "a_plain", "a_enum", "a_a", "g8"}
DPar == {"p_s_plain", "p_s_opt", "p_s_def", "p_s_exp", "p_s_imp", "p_s_cls", "p_s_same", "p_s_any", "p_s_long", "p_s_leaf", "p_s_nest", "p_s_opts", "p_s_vec", "p_s_one", "p_s_empty", "p_t_plain", "p_t_opt", "p_t_tag", "p_t_nest", "p_s_inset", "p_p_exp", "p_p_imp", "p_a_u8", "p_a_oct", "p_a_bool", "p_a_any", "p_a_utf8", "p_g0", "p_g1", "p_g2", "p_g3", "p_g4", "p_g5", "p_g6", "p_g7", "p_g8", "p_g9", "p_g10", "p_g11", "p_g12", "p_g13", "p_g14", "p_g15", "p_g16", "p_g17", "p_g18", "p_g19", "p_g20", "p_g21", "p_g22", "p_g23", "p_g24", "p_g25", "p_g26", "p_g27", "p_g28", "p_g29", "p_g30", "p_g31", "p_g32", "p_g33", "p_g34", "p_g35", "p_g36", "p_g37", "p_g38", "p_g39"}
DParEnc == {"p_s_plain", "p_s_opt", "p_s_def", "p_s_exp", "p_s_imp", "p_s_cls", "p_s_same", "p_s_any", "p_s_long", "p_s_leaf", "p_s_nest", "p_s_opts", "p_s_vec", "p_s_one", "p_s_empty", "p_t_plain", "p_t_opt", "p_t_tag", "p_t_nest", "p_s_inset", "p_g0", "p_g1", "p_g2", "p_g3", "p_g4", "p_g5", "p_g6", "p_g7", "p_g8", "p_g9", "p_g10", "p_g11", "p_g12", "p_g13", "p_g14", "p_g15", "p_g16", "p_g17", "p_g18", "p_g19", "p_g20", "p_g21", "p_g22", "p_g23", "p_g24", "p_g25", "p_g26", "p_g27", "p_g28", "p_g29", "p_g30", "p_g31", "p_g32", "p_g33", "p_g34", "p_g35", "p_g36", "p_g37", "p_g38", "p_g39"}
DOld == {"s_plain", "s_opt", "s_def", "s_exp", "s_imp", "s_cls", "s_same", "s_any", "s_long", "s_leaf", "s_nest", "s_opts", "s_vec", "s_one", "t_plain", "t_opt", "t_tag", "t_nest", "s_inset", "a_u8", "a_oct", "a_bool", "a_any", "a_utf8", "g0", "g1", "g2", "g3", "g4", "g5", "g6", "g8", "g9", "g10", "g11", "g12", "g13", "g14", "g15", "g16", "g17", "g18", "g19", "g20", "g21", "g22", "g23", "g26", "g27", "g30", "g32", "g34", "g35", "g36", "g37", "g38", "g39"}
DBold == {"b_s_plain", "b_s_opt", "b_s_def", "b_s_exp", "b_s_imp", "b_s_cls", "b_s_same", "b_s_any", "b_s_long", "b_s_leaf", "b_s_nest", "b_s_opts", "b_s_vec", "b_s_one", "b_t_plain", "b_t_opt", "b_t_tag", "b_t_nest", "b_s_inset", "b_a_u8", "b_a_oct", "b_a_bool", "b_a_any", "b_a_utf8", "b_g0", "b_g1", "b_g2", "b_g3", "b_g4", "b_g5", "b_g6", "b_g8", "b_g9", "b_g10", "b_g11", "b_g12", "b_g13", "b_g14", "b_g15", "b_g16", "b_g17", "b_g18", "b_g19", "b_g20", "b_g21", "b_g22", "b_g23", "b_g26", "b_g27", "b_g30", "b_g32", "b_g34", "b_g35", "b_g36", "b_g37", "b_g38", "b_g39"}
=============================================================================
