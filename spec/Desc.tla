-------------------------------- MODULE Desc --------------------------------
(***************************************************************************)
(* Type descriptors, and the table of the types the conformance protocol   *)
(* can name (each is instantiated in harness/src/ops.rs under this name).  *)
(***************************************************************************)
EXTENDS Kinds, Schemas

LOCAL u8 == TInt(FALSE, 1)
LOCAL bool == T0("bool")
LOCAL oct == T0("octets")
LOCAL ctx == 2
LeafTypes ==
 [ u8 |-> TInt(FALSE, 1), u16 |-> TInt(FALSE, 2), u32 |-> TInt(FALSE, 4), u64 |-> TInt(FALSE, 8), u128 |-> TInt(FALSE, 16), usize |-> TInt(FALSE, 8),
   i8 |-> TInt(TRUE, 1), i16 |-> TInt(TRUE, 2), i32 |-> TInt(TRUE, 4), i64 |-> TInt(TRUE, 8), i128 |-> TInt(TRUE, 16), isize |-> TInt(TRUE, 8),
   integer |-> T0("integer"), bool |-> T0("bool"), boolean |-> T0("boolean"), null |-> T0("null"), unit |-> T0("null"), enumerated |-> T0("enum"),
   octetstring |-> T0("octets"), bytes |-> T0("octetsP"), bitstring |-> T0("bits"), oid |-> T0("oid"),
   utf8 |-> TStr("utf8", 12), numeric |-> TStr("numeric", 18), printable |-> TStr("printable", 19), visible |-> TStr("visible", 26),
   ia5 |-> TStr("ascii", 22), general |-> TStr("ascii", 27), graphic |-> TStr("ascii", 25), teletex |-> TStr("teletex", 20),
   videotex |-> TStr("teletex", 21), objdesc |-> TStr("ascii", 7), bmp |-> T0("bmp"), universal |-> T0("univ"),
   str |-> TStrP("utf8", 12), string |-> TStr("utf8", 12), utctime |-> T0("utctime"), gentime |-> T0("gentime"),
   real |-> T0("real"), f32 |-> T0("f32"), f64 |-> T0("f64"), seqraw |-> TRaw(16), setraw |-> TRaw(17) ]
OtherTypes ==
 [ any |-> T0("any"), header |-> T0("header"), eoc |-> T0("eoc"),
   tup1 |-> TTup(<<oct>>), tup2 |-> TTup(<<u8, bool>>), tup3 |-> TTup(<<bool, T0("null"), TList("seq", u8)>>),
   tup2_opt |-> TTup(<<TOpt(u8), bool>>), tup3_opt |-> TTup(<<TOpt(bool), TOpt(T0("null")), TOpt(TList("seq", u8))>>),
   vec_u8 |-> TList("seq", u8), vec_bool |-> TList("seq", bool), vec_octets |-> TList("seq", oct),
   vec_vec_u8 |-> TList("seq", TList("seq", u8)), vec_any |-> TList("seq", T0("any")),
   seqof_u8 |-> TList("seq", u8), seqof_octets |-> TList("seq", oct), seqof_seqof_bool |-> TList("seq", TList("seq", bool)),
   setof_u8 |-> TList("set", u8), setof_octets |-> TList("set", oct), btree_u16 |-> TList("ord", TInt(FALSE, 2)),
   hash_u16 |-> TList("hash", TInt(FALSE, 2)), vec_setof_u8 |-> TList("seq", TList("set", u8)),
   arr2_u8 |-> TArr(2, u8), arr0_bool |-> TArr(0, bool), anyseq |-> [k |-> "anyseq", n |-> "anyseq"], anyset |-> [k |-> "anyset", n |-> "anyset"], pdv |-> TPdv ]
TagTypes ==
 [ te0_u8 |-> TExp(ctx, 0, u8), te1_octets |-> TExp(ctx, 1, oct), te31_bool |-> TExp(ctx, 31, bool), te300_null |-> TExp(ctx, 300, T0("null")),
   ti0_u8 |-> TImp(ctx, 0, u8), ti1_octets |-> TImp(ctx, 1, oct), ti31_bool |-> TImp(ctx, 31, bool), ti2_vec_u8 |-> TImp(ctx, 2, TList("seq", u8)),
   ti16384_null |-> TImp(ctx, 16384, T0("null")), ti5_utf8 |-> TImp(ctx, 5, TStr("utf8", 12)),
   te0_te1_u8 |-> TExp(ctx, 0, TExp(ctx, 1, u8)), te0_ti1_u8 |-> TExp(ctx, 0, TImp(ctx, 1, u8)),
   ti0_te1_u8 |-> TImp(ctx, 0, TExp(ctx, 1, u8)), ti3_ti4_bool |-> TImp(ctx, 3, TImp(ctx, 4, bool)),
   ae2_u8 |-> TExp(1, 2, u8), ai2_u8 |-> TImp(1, 2, u8), ai200_octets |-> TImp(1, 200, oct), pe3_bool |-> TExp(3, 3, bool), pi3_bool |-> TImp(3, 3, bool),
   vec_te0_u8 |-> TList("seq", TExp(ctx, 0, u8)), vec_ti1_octets |-> TList("seq", TImp(ctx, 1, oct)), te0_vec_u8 |-> TExp(ctx, 0, TList("seq", u8)),
   ue17_u8 |-> TExp(0, 17, u8), ui17_u8 |-> TImp(0, 17, u8) ]
OptTypes ==
 [ opt_u8 |-> TOpt(u8), opt_bool |-> TOpt(bool), opt_octets |-> TOpt(oct), opt_null |-> TOpt(T0("null")), opt_vec_u8 |-> TOpt(TList("seq", u8)),
   opt_oid |-> TOpt(T0("oid")), opt_enum |-> TOpt(T0("enum")), opt_utf8 |-> TOpt(TStr("utf8", 12)),
   opt_te2_u8 |-> TOpt(TExp(ctx, 2, u8)), opt_ti1_bool |-> TOpt(TImp(ctx, 1, bool)), opt_ae1_bool |-> TOpt(TExp(1, 1, bool)) ]
LOCAL any == T0("any")
LOCAL tup2any == TTup(<<any, any>>)
AnyTypes ==
 [ tup2_any |-> tup2any, te0_any |-> TExp(ctx, 0, any), opt_any |-> TOpt(any), opt_te0_any |-> TOpt(TExp(ctx, 0, any)),
   te0_te1_any |-> TExp(ctx, 0, TExp(ctx, 1, any)), ti2_vec_any |-> TImp(ctx, 2, TList("seq", any)), vec_vec_any |-> TList("seq", TList("seq", any)),
   setof_any |-> TList("set", any), seqof_any |-> TList("seq", any), arr2_any |-> TArr(2, any), te0_tup2_any |-> TExp(ctx, 0, tup2any), vec_tup2_any |-> TList("seq", tup2any),
   tup2_vec_any |-> TTup(<<TOpt(TList("seq", any)), any>>), ti1_any |-> TImp(ctx, 1, any), te3_vec_te0_any |-> TExp(ctx, 3, TList("seq", TExp(ctx, 0, any))), ae1_any |-> TExp(1, 1, any) ]
\* names of things that are not types
OtherNames == {"absolute", "relative", "passed", "number", "zero", "reloid", "anystr", "anystring", "header_", "seq_iter", "set_iter", "seqof", "setof", "-", "iv_u8", "iv_iv", "iv_v", "v_iv", "te_iv", "ti_iv", "tve_iv", "tvi_iv"}
\* names, as sets
Leafs == DOMAIN LeafTypes
TyOf(n) == IF n \in OtherNames THEN [k |-> "name", n |-> n]
           ELSE IF n \in Leafs THEN LeafTypes[n] ELSE IF n \in DOMAIN OtherTypes THEN OtherTypes[n]
           ELSE IF n \in DOMAIN TagTypes THEN TagTypes[n] ELSE IF n \in DOMAIN OptTypes THEN OptTypes[n] ELSE IF n \in DOMAIN AnyTypes THEN AnyTypes[n]
           ELSE IF n \in DOMAIN DerivedTypes THEN DerivedTypes[n] ELSE IF n \in DOMAIN ParTypes THEN ParTypes[n] ELSE BoldTypes[n]
=============================================================================
