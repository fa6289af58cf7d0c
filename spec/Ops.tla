---------------------------------- MODULE Ops ----------------------------------
(***************************************************************************)
(* GENERATED by tools/mk_ops.py: the operations of the conformance         *)
(* protocol which are given octets, by entry point and type.               *)
(***************************************************************************)
AllOps ==
  <<
    "Ib:any", "Id:any", "Ob:any", "Od:any", "Rb:any", "Rd:any", "Xb:bitstring", "Xb:bmp", "Xb:bool", "Xb:enumerated", "Xb:gentime", "Xb:i64",
    "Xb:integer", "Xb:null", "Xb:octetstring", "Xb:printable", "Xb:real", "Xb:seqof_octets", "Xb:seqraw", "Xb:setof_u8", "Xb:setraw", "Xb:string", "Xb:u32", "Xb:u8",
    "Xb:utctime", "Xb:utf8", "Xb:vec_u8", "Xd:bitstring", "Xd:bmp", "Xd:bool", "Xd:enumerated", "Xd:gentime", "Xd:i64", "Xd:integer", "Xd:null", "Xd:octetstring",
    "Xd:printable", "Xd:real", "Xd:seqof_octets", "Xd:seqraw", "Xd:setof_u8", "Xd:setraw", "Xd:string", "Xd:u32", "Xd:u8", "Xd:utctime", "Xd:utf8", "Xd:vec_u8",
    "Yb:bitstring", "Yb:bmp", "Yb:bool", "Yb:enumerated", "Yb:gentime", "Yb:i64", "Yb:integer", "Yb:null", "Yb:octetstring", "Yb:printable", "Yb:real", "Yb:seqof_octets",
    "Yb:seqraw", "Yb:setof_u8", "Yb:setraw", "Yb:string", "Yb:u32", "Yb:u8", "Yb:utctime", "Yb:utf8", "Yb:vec_u8", "Yd:bitstring", "Yd:bmp", "Yd:bool",
    "Yd:enumerated", "Yd:gentime", "Yd:i64", "Yd:integer", "Yd:null", "Yd:octetstring", "Yd:printable", "Yd:real", "Yd:seqof_octets", "Yd:seqraw", "Yd:setof_u8", "Yd:setraw",
    "Yd:string", "Yd:u32", "Yd:u8", "Yd:utctime", "Yd:utf8", "Yd:vec_u8", "Zb:any", "Zd:any", "ao:bool", "ao:gentime", "ao:integer", "ao:null",
    "ao:octetstring", "ao:oid", "ao:seqraw", "ao:u8", "ao:utf8", "ax:ae2_u8", "ax:pe3_bool", "ax:te0_u8", "ax:te0_vec_u8", "ax:te1_octets", "ax:te31_bool", "ax:ue17_u8",
    "ay:ai2_u8", "ay:pi3_bool", "ay:ti0_u8", "ay:ti1_octets", "ay:ti2_vec_u8", "ay:ti31_bool", "ay:ti5_utf8", "ay:ui17_u8", "cb:any", "cb:bool", "cb:octetstring", "cb:u8",
    "cb:vec_u8", "cc:ae2_u8", "cc:ai200_octets", "cc:ai2_u8", "cc:bitstring", "cc:bmp", "cc:bool", "cc:boolean", "cc:btree_u16", "cc:bytes", "cc:enumerated", "cc:f32",
    "cc:f64", "cc:general", "cc:gentime", "cc:graphic", "cc:hash_u16", "cc:i128", "cc:i16", "cc:i32", "cc:i64", "cc:i8", "cc:ia5", "cc:integer",
    "cc:isize", "cc:null", "cc:numeric", "cc:objdesc", "cc:octetstring", "cc:oid", "cc:opt_bool", "cc:opt_enum", "cc:opt_null", "cc:opt_octets", "cc:opt_oid", "cc:opt_u8",
    "cc:opt_utf8", "cc:opt_vec_u8", "cc:pdv", "cc:pe3_bool", "cc:pi3_bool", "cc:printable", "cc:real", "cc:seqof_octets", "cc:seqof_seqof_bool", "cc:seqof_u8", "cc:seqraw", "cc:setof_octets",
    "cc:setof_u8", "cc:setraw", "cc:str", "cc:string", "cc:te0_te1_u8", "cc:te0_ti1_u8", "cc:te0_u8", "cc:te0_vec_u8", "cc:te1_octets", "cc:te300_null", "cc:te31_bool", "cc:teletex",
    "cc:ti0_u8", "cc:ti16384_null", "cc:ti1_octets", "cc:ti2_vec_u8", "cc:ti31_bool", "cc:ti5_utf8", "cc:u128", "cc:u16", "cc:u32", "cc:u64", "cc:u8", "cc:ue17_u8",
    "cc:ui17_u8", "cc:unit", "cc:universal", "cc:usize", "cc:utctime", "cc:utf8", "cc:vec_any", "cc:vec_bool", "cc:vec_octets", "cc:vec_setof_u8", "cc:vec_u8", "cc:vec_vec_u8",
    "cc:videotex", "cc:visible", "cd:any", "cd:bool", "cd:octetstring", "cd:u8", "cd:vec_u8", "cm:any", "cm:bool", "cm:octetstring", "cm:oid", "cm:opt_u8",
    "cm:u8", "cm:utf8", "cm:vec_u8", "cn:any", "cn:bool", "cn:octetstring", "cn:oid", "cn:opt_u8", "cn:u8", "cn:utf8", "cn:vec_u8", "dt:gentime",
    "dt:utctime", "eb:a_a", "eb:a_any", "eb:a_bool", "eb:a_bytes", "eb:a_cho", "eb:a_def", "eb:a_enum", "eb:a_oct", "eb:a_oid", "eb:a_plain", "eb:a_u8",
    "eb:a_utf8", "eb:a_vec", "eb:ae2_u8", "eb:ai200_octets", "eb:ai2_u8", "eb:any", "eb:anyseq", "eb:anyset", "eb:arr0_bool", "eb:arr2_u8", "eb:bitstring", "eb:bmp",
    "eb:bool", "eb:boolean", "eb:btree_u16", "eb:bytes", "eb:c_any", "eb:c_deep", "eb:c_deepi", "eb:c_enum", "eb:c_exp", "eb:c_imp", "eb:c_lit", "eb:c_nest",
    "eb:c_one", "eb:c_struct", "eb:c_un", "eb:e_one", "eb:e_seq", "eb:e_vals", "eb:enumerated", "eb:f32", "eb:f64", "eb:g0", "eb:g1", "eb:g10",
    "eb:g11", "eb:g12", "eb:g13", "eb:g14", "eb:g15", "eb:g16", "eb:g17", "eb:g18", "eb:g19", "eb:g2", "eb:g20", "eb:g21",
    "eb:g22", "eb:g23", "eb:g24", "eb:g25", "eb:g26", "eb:g27", "eb:g28", "eb:g29", "eb:g3", "eb:g30", "eb:g31", "eb:g32",
    "eb:g33", "eb:g34", "eb:g35", "eb:g36", "eb:g37", "eb:g38", "eb:g39", "eb:g4", "eb:g5", "eb:g6", "eb:g7", "eb:g8",
    "eb:g9", "eb:general", "eb:gentime", "eb:graphic", "eb:hash_u16", "eb:i128", "eb:i16", "eb:i32", "eb:i64", "eb:i8", "eb:ia5", "eb:integer",
    "eb:isize", "eb:null", "eb:numeric", "eb:objdesc", "eb:octetstring", "eb:oid", "eb:opt_bool", "eb:opt_enum", "eb:opt_null", "eb:opt_octets", "eb:opt_oid", "eb:opt_u8",
    "eb:opt_utf8", "eb:opt_vec_u8", "eb:p_s_plain", "eb:pe3_bool", "eb:pi3_bool", "eb:printable", "eb:real", "eb:s_alias", "eb:s_any", "eb:s_cho", "eb:s_cls", "eb:s_deep",
    "eb:s_def", "eb:s_echo", "eb:s_empty", "eb:s_err", "eb:s_exp", "eb:s_imp", "eb:s_inset", "eb:s_leaf", "eb:s_long", "eb:s_maperr", "eb:s_nest", "eb:s_one",
    "eb:s_opt", "eb:s_opts", "eb:s_plain", "eb:s_same", "eb:s_vec", "eb:seqof_octets", "eb:seqof_seqof_bool", "eb:seqof_u8", "eb:seqraw", "eb:setof_octets", "eb:setof_u8", "eb:setraw",
    "eb:str", "eb:string", "eb:t_deep", "eb:t_nest", "eb:t_opt", "eb:t_plain", "eb:t_tag", "eb:te0_te1_u8", "eb:te0_ti1_u8", "eb:te0_u8", "eb:te0_vec_u8", "eb:te1_octets",
    "eb:te300_null", "eb:te31_bool", "eb:teletex", "eb:ti0_te1_u8", "eb:ti0_u8", "eb:ti16384_null", "eb:ti1_octets", "eb:ti2_vec_u8", "eb:ti31_bool", "eb:ti3_ti4_bool", "eb:ti5_utf8", "eb:u128",
    "eb:u16", "eb:u32", "eb:u64", "eb:u8", "eb:ue17_u8", "eb:ui17_u8", "eb:unit", "eb:universal", "eb:usize", "eb:utctime", "eb:utf8", "eb:vec_any",
    "eb:vec_bool", "eb:vec_octets", "eb:vec_setof_u8", "eb:vec_te0_u8", "eb:vec_ti1_octets", "eb:vec_u8", "eb:vec_vec_u8", "eb:videotex", "eb:visible", "ed:a_a", "ed:a_any", "ed:a_bool",
    "ed:a_bytes", "ed:a_cho", "ed:a_def", "ed:a_enum", "ed:a_oct", "ed:a_oid", "ed:a_plain", "ed:a_u8", "ed:a_utf8", "ed:a_vec", "ed:ae2_u8", "ed:ai200_octets",
    "ed:ai2_u8", "ed:any", "ed:anyseq", "ed:anyset", "ed:arr0_bool", "ed:arr2_u8", "ed:bitstring", "ed:bmp", "ed:bool", "ed:boolean", "ed:btree_u16", "ed:bytes",
    "ed:c_any", "ed:c_deep", "ed:c_deepi", "ed:c_enum", "ed:c_exp", "ed:c_imp", "ed:c_lit", "ed:c_nest", "ed:c_one", "ed:c_struct", "ed:c_un", "ed:e_one",
    "ed:e_seq", "ed:e_vals", "ed:enumerated", "ed:f32", "ed:f64", "ed:g0", "ed:g1", "ed:g10", "ed:g11", "ed:g12", "ed:g13", "ed:g14",
    "ed:g15", "ed:g16", "ed:g17", "ed:g18", "ed:g19", "ed:g2", "ed:g20", "ed:g21", "ed:g22", "ed:g23", "ed:g24", "ed:g25",
    "ed:g26", "ed:g27", "ed:g28", "ed:g29", "ed:g3", "ed:g30", "ed:g31", "ed:g32", "ed:g33", "ed:g34", "ed:g35", "ed:g36",
    "ed:g37", "ed:g38", "ed:g39", "ed:g4", "ed:g5", "ed:g6", "ed:g7", "ed:g8", "ed:g9", "ed:general", "ed:gentime", "ed:graphic",
    "ed:hash_u16", "ed:i128", "ed:i16", "ed:i32", "ed:i64", "ed:i8", "ed:ia5", "ed:integer", "ed:isize", "ed:null", "ed:numeric", "ed:objdesc",
    "ed:octetstring", "ed:oid", "ed:opt_bool", "ed:opt_enum", "ed:opt_null", "ed:opt_octets", "ed:opt_oid", "ed:opt_u8", "ed:opt_utf8", "ed:opt_vec_u8", "ed:p_s_plain", "ed:pe3_bool",
    "ed:pi3_bool", "ed:printable", "ed:real", "ed:s_alias", "ed:s_any", "ed:s_cho", "ed:s_cls", "ed:s_deep", "ed:s_def", "ed:s_echo", "ed:s_empty", "ed:s_err",
    "ed:s_exp", "ed:s_imp", "ed:s_inset", "ed:s_leaf", "ed:s_long", "ed:s_maperr", "ed:s_nest", "ed:s_one", "ed:s_opt", "ed:s_opts", "ed:s_plain", "ed:s_same",
    "ed:s_vec", "ed:seqof_octets", "ed:seqof_seqof_bool", "ed:seqof_u8", "ed:seqraw", "ed:setof_octets", "ed:setof_u8", "ed:setraw", "ed:str", "ed:string", "ed:t_deep", "ed:t_nest",
    "ed:t_opt", "ed:t_plain", "ed:t_tag", "ed:te0_te1_u8", "ed:te0_ti1_u8", "ed:te0_u8", "ed:te0_vec_u8", "ed:te1_octets", "ed:te300_null", "ed:te31_bool", "ed:teletex", "ed:ti0_te1_u8",
    "ed:ti0_u8", "ed:ti16384_null", "ed:ti1_octets", "ed:ti2_vec_u8", "ed:ti31_bool", "ed:ti3_ti4_bool", "ed:ti5_utf8", "ed:u128", "ed:u16", "ed:u32", "ed:u64", "ed:u8",
    "ed:ue17_u8", "ed:ui17_u8", "ed:unit", "ed:universal", "ed:usize", "ed:utctime", "ed:utf8", "ed:vec_any", "ed:vec_bool", "ed:vec_octets", "ed:vec_setof_u8", "ed:vec_te0_u8",
    "ed:vec_ti1_octets", "ed:vec_u8", "ed:vec_vec_u8", "ed:videotex", "ed:visible", "fl:ae2_u8", "fl:ai200_octets", "fl:ai2_u8", "fl:any", "fl:bitstring", "fl:bmp", "fl:bool",
    "fl:boolean", "fl:btree_u16", "fl:bytes", "fl:enumerated", "fl:f32", "fl:f64", "fl:general", "fl:gentime", "fl:graphic", "fl:header", "fl:i128", "fl:i16",
    "fl:i32", "fl:i64", "fl:i8", "fl:ia5", "fl:integer", "fl:isize", "fl:null", "fl:numeric", "fl:objdesc", "fl:octetstring", "fl:oid", "fl:opt_bool",
    "fl:opt_enum", "fl:opt_null", "fl:opt_octets", "fl:opt_oid", "fl:opt_u8", "fl:opt_utf8", "fl:opt_vec_u8", "fl:pdv", "fl:pe3_bool", "fl:pi3_bool", "fl:printable", "fl:real",
    "fl:seqof_octets", "fl:seqof_seqof_bool", "fl:seqof_u8", "fl:seqraw", "fl:setof_octets", "fl:setof_u8", "fl:setraw", "fl:str", "fl:string", "fl:te0_te1_u8", "fl:te0_ti1_u8", "fl:te0_u8",
    "fl:te0_vec_u8", "fl:te1_octets", "fl:te300_null", "fl:te31_bool", "fl:teletex", "fl:ti0_u8", "fl:ti16384_null", "fl:ti1_octets", "fl:ti2_vec_u8", "fl:ti31_bool", "fl:ti5_utf8", "fl:u128",
    "fl:u16", "fl:u32", "fl:u64", "fl:u8", "fl:ue17_u8", "fl:ui17_u8", "fl:unit", "fl:universal", "fl:usize", "fl:utctime", "fl:utf8", "fl:vec_any",
    "fl:vec_bool", "fl:vec_octets", "fl:vec_setof_u8", "fl:vec_u8", "fl:vec_vec_u8", "fl:videotex", "fl:visible", "fm:ae1_any", "fm:ae2_u8", "fm:ai200_octets", "fm:ai2_u8", "fm:any",
    "fm:anyseq", "fm:anyset", "fm:arr0_bool", "fm:arr2_any", "fm:arr2_u8", "fm:bitstring", "fm:bmp", "fm:bool", "fm:boolean", "fm:btree_u16", "fm:bytes", "fm:enumerated",
    "fm:eoc", "fm:f32", "fm:f64", "fm:general", "fm:gentime", "fm:graphic", "fm:header", "fm:i128", "fm:i16", "fm:i32", "fm:i64", "fm:i8",
    "fm:ia5", "fm:integer", "fm:isize", "fm:null", "fm:numeric", "fm:objdesc", "fm:octetstring", "fm:oid", "fm:opt_ae1_bool", "fm:opt_any", "fm:opt_bool", "fm:opt_enum",
    "fm:opt_null", "fm:opt_octets", "fm:opt_oid", "fm:opt_te0_any", "fm:opt_te2_u8", "fm:opt_ti1_bool", "fm:opt_u8", "fm:opt_utf8", "fm:opt_vec_u8", "fm:pdv", "fm:pe3_bool", "fm:pi3_bool",
    "fm:printable", "fm:real", "fm:seqof_any", "fm:seqof_octets", "fm:seqof_seqof_bool", "fm:seqof_u8", "fm:seqraw", "fm:setof_any", "fm:setof_octets", "fm:setof_u8", "fm:setraw", "fm:str",
    "fm:string", "fm:te0_any", "fm:te0_te1_any", "fm:te0_te1_u8", "fm:te0_ti1_u8", "fm:te0_tup2_any", "fm:te0_u8", "fm:te0_vec_u8", "fm:te1_octets", "fm:te300_null", "fm:te31_bool", "fm:te3_vec_te0_any",
    "fm:teletex", "fm:ti0_te1_u8", "fm:ti0_u8", "fm:ti16384_null", "fm:ti1_any", "fm:ti1_octets", "fm:ti2_vec_any", "fm:ti2_vec_u8", "fm:ti31_bool", "fm:ti3_ti4_bool", "fm:ti5_utf8", "fm:tup1",
    "fm:tup2", "fm:tup2_any", "fm:tup2_vec_any", "fm:tup3", "fm:u128", "fm:u16", "fm:u32", "fm:u64", "fm:u8", "fm:ue17_u8", "fm:ui17_u8", "fm:unit",
    "fm:universal", "fm:usize", "fm:utctime", "fm:utf8", "fm:vec_any", "fm:vec_bool", "fm:vec_octets", "fm:vec_setof_u8", "fm:vec_te0_u8", "fm:vec_ti1_octets", "fm:vec_tup2_any", "fm:vec_u8",
    "fm:vec_vec_any", "fm:vec_vec_u8", "fm:videotex", "fm:visible", "gx:bitstring", "gx:bmp", "gx:bool", "gx:enumerated", "gx:gentime", "gx:i64", "gx:integer", "gx:null",
    "gx:octetstring", "gx:printable", "gx:real", "gx:seqof_octets", "gx:seqraw", "gx:setof_u8", "gx:setraw", "gx:string", "gx:u32", "gx:u8", "gx:utctime", "gx:utf8",
    "gx:vec_u8", "gy:bitstring", "gy:bmp", "gy:bool", "gy:enumerated", "gy:gentime", "gy:i64", "gy:integer", "gy:null", "gy:octetstring", "gy:printable", "gy:real",
    "gy:seqof_octets", "gy:seqraw", "gy:setof_u8", "gy:setraw", "gy:string", "gy:u32", "gy:u8", "gy:utctime", "gy:utf8", "gy:vec_u8", "ia:integer", "ib:a_a",
    "ib:a_any", "ib:a_bool", "ib:a_bytes", "ib:a_cho", "ib:a_def", "ib:a_enum", "ib:a_oct", "ib:a_oid", "ib:a_plain", "ib:a_u8", "ib:a_utf8", "ib:a_vec",
    "ib:any", "ib:bitstring", "ib:bmp", "ib:bool", "ib:boolean", "ib:bytes", "ib:c_any", "ib:c_deep", "ib:c_deepi", "ib:c_enum", "ib:c_exp", "ib:c_imp",
    "ib:c_lit", "ib:c_nest", "ib:c_one", "ib:c_struct", "ib:c_un", "ib:e_one", "ib:e_seq", "ib:e_vals", "ib:enumerated", "ib:f32", "ib:f64", "ib:g0",
    "ib:g1", "ib:g10", "ib:g11", "ib:g12", "ib:g13", "ib:g14", "ib:g15", "ib:g16", "ib:g17", "ib:g18", "ib:g19", "ib:g2",
    "ib:g20", "ib:g21", "ib:g22", "ib:g23", "ib:g24", "ib:g25", "ib:g26", "ib:g27", "ib:g28", "ib:g29", "ib:g3", "ib:g30",
    "ib:g31", "ib:g32", "ib:g33", "ib:g34", "ib:g35", "ib:g36", "ib:g37", "ib:g38", "ib:g39", "ib:g4", "ib:g5", "ib:g6",
    "ib:g7", "ib:g8", "ib:g9", "ib:general", "ib:gentime", "ib:graphic", "ib:i128", "ib:i16", "ib:i32", "ib:i64", "ib:i8", "ib:ia5",
    "ib:integer", "ib:isize", "ib:null", "ib:numeric", "ib:objdesc", "ib:octetstring", "ib:oid", "ib:printable", "ib:real", "ib:s_alias", "ib:s_any", "ib:s_cho",
    "ib:s_cls", "ib:s_const", "ib:s_deep", "ib:s_def", "ib:s_echo", "ib:s_empty", "ib:s_err", "ib:s_exp", "ib:s_imp", "ib:s_inset", "ib:s_leaf", "ib:s_long",
    "ib:s_maperr", "ib:s_nest", "ib:s_octet", "ib:s_one", "ib:s_opt", "ib:s_opts", "ib:s_plain", "ib:s_same", "ib:s_vec", "ib:seqraw", "ib:setraw", "ib:str",
    "ib:string", "ib:t_deep", "ib:t_nest", "ib:t_opt", "ib:t_plain", "ib:t_tag", "ib:teletex", "ib:u128", "ib:u16", "ib:u32", "ib:u64", "ib:u8",
    "ib:unit", "ib:universal", "ib:usize", "ib:utctime", "ib:utf8", "ib:videotex", "ib:visible", "id:a_a", "id:a_any", "id:a_bool", "id:a_bytes", "id:a_cho",
    "id:a_def", "id:a_enum", "id:a_oct", "id:a_oid", "id:a_plain", "id:a_u8", "id:a_utf8", "id:a_vec", "id:any", "id:bitstring", "id:bmp", "id:bool",
    "id:boolean", "id:bytes", "id:c_any", "id:c_deep", "id:c_deepi", "id:c_enum", "id:c_exp", "id:c_imp", "id:c_lit", "id:c_nest", "id:c_one", "id:c_struct",
    "id:c_un", "id:e_one", "id:e_seq", "id:e_vals", "id:enumerated", "id:f32", "id:f64", "id:g0", "id:g1", "id:g10", "id:g11", "id:g12",
    "id:g13", "id:g14", "id:g15", "id:g16", "id:g17", "id:g18", "id:g19", "id:g2", "id:g20", "id:g21", "id:g22", "id:g23",
    "id:g24", "id:g25", "id:g26", "id:g27", "id:g28", "id:g29", "id:g3", "id:g30", "id:g31", "id:g32", "id:g33", "id:g34",
    "id:g35", "id:g36", "id:g37", "id:g38", "id:g39", "id:g4", "id:g5", "id:g6", "id:g7", "id:g8", "id:g9", "id:general",
    "id:gentime", "id:graphic", "id:i128", "id:i16", "id:i32", "id:i64", "id:i8", "id:ia5", "id:integer", "id:isize", "id:null", "id:numeric",
    "id:objdesc", "id:octetstring", "id:oid", "id:printable", "id:real", "id:s_alias", "id:s_any", "id:s_cho", "id:s_cls", "id:s_const", "id:s_deep", "id:s_def",
    "id:s_echo", "id:s_empty", "id:s_err", "id:s_exp", "id:s_imp", "id:s_inset", "id:s_leaf", "id:s_long", "id:s_maperr", "id:s_nest", "id:s_octet", "id:s_one",
    "id:s_opt", "id:s_opts", "id:s_orig", "id:s_plain", "id:s_same", "id:s_vec", "id:seqraw", "id:setraw", "id:str", "id:string", "id:t_deep", "id:t_nest",
    "id:t_opt", "id:t_plain", "id:t_tag", "id:teletex", "id:u128", "id:u16", "id:u32", "id:u64", "id:u8", "id:unit", "id:universal", "id:usize",
    "id:utctime", "id:utf8", "id:videotex", "id:visible", "ie:any", "if:any", "jb:any", "jb:bool", "jb:octetstring", "jb:opt_u8", "jb:u8", "jb:vec_u8",
    "jd:any", "jd:bool", "jd:octetstring", "jd:u8", "jd:vec_u8", "kb:any", "kd:any", "lb:a_any", "lb:a_bool", "lb:a_oct", "lb:a_u8", "lb:a_utf8",
    "lb:ae2_u8", "lb:ai200_octets", "lb:ai2_u8", "lb:any", "lb:b_s_plain", "lb:bitstring", "lb:bmp", "lb:bool", "lb:boolean", "lb:btree_u16", "lb:bytes", "lb:enumerated",
    "lb:f32", "lb:f64", "lb:g0", "lb:g1", "lb:g10", "lb:g11", "lb:g12", "lb:g13", "lb:g14", "lb:g15", "lb:g16", "lb:g17",
    "lb:g18", "lb:g19", "lb:g2", "lb:g20", "lb:g21", "lb:g22", "lb:g23", "lb:g26", "lb:g27", "lb:g3", "lb:g30", "lb:g32",
    "lb:g34", "lb:g35", "lb:g36", "lb:g37", "lb:g38", "lb:g39", "lb:g4", "lb:g5", "lb:g6", "lb:g8", "lb:g9", "lb:general",
    "lb:gentime", "lb:graphic", "lb:hash_u16", "lb:header", "lb:i128", "lb:i16", "lb:i32", "lb:i64", "lb:i8", "lb:ia5", "lb:integer", "lb:isize",
    "lb:null", "lb:numeric", "lb:objdesc", "lb:octetstring", "lb:oid", "lb:opt_bool", "lb:opt_enum", "lb:opt_null", "lb:opt_octets", "lb:opt_oid", "lb:opt_u8", "lb:opt_utf8",
    "lb:opt_vec_u8", "lb:pdv", "lb:pe3_bool", "lb:pi3_bool", "lb:printable", "lb:real", "lb:s_any", "lb:s_cls", "lb:s_def", "lb:s_exp", "lb:s_imp", "lb:s_inset",
    "lb:s_leaf", "lb:s_long", "lb:s_nest", "lb:s_one", "lb:s_opt", "lb:s_opts", "lb:s_plain", "lb:s_same", "lb:s_vec", "lb:seqof_octets", "lb:seqof_seqof_bool", "lb:seqof_u8",
    "lb:seqraw", "lb:setof_octets", "lb:setof_u8", "lb:setraw", "lb:str", "lb:string", "lb:t_nest", "lb:t_opt", "lb:t_plain", "lb:t_tag", "lb:te0_te1_u8", "lb:te0_ti1_u8",
    "lb:te0_u8", "lb:te0_vec_u8", "lb:te1_octets", "lb:te300_null", "lb:te31_bool", "lb:teletex", "lb:ti0_u8", "lb:ti16384_null", "lb:ti1_octets", "lb:ti2_vec_u8", "lb:ti31_bool", "lb:ti5_utf8",
    "lb:u128", "lb:u16", "lb:u32", "lb:u64", "lb:u8", "lb:ue17_u8", "lb:ui17_u8", "lb:unit", "lb:universal", "lb:usize", "lb:utctime", "lb:utf8",
    "lb:vec_any", "lb:vec_bool", "lb:vec_octets", "lb:vec_setof_u8", "lb:vec_u8", "lb:vec_vec_u8", "lb:videotex", "lb:visible", "ld:a_any", "ld:a_bool", "ld:a_oct", "ld:a_u8",
    "ld:a_utf8", "ld:ae2_u8", "ld:ai200_octets", "ld:ai2_u8", "ld:any", "ld:bitstring", "ld:bmp", "ld:bool", "ld:boolean", "ld:btree_u16", "ld:bytes", "ld:enumerated",
    "ld:f32", "ld:f64", "ld:g0", "ld:g1", "ld:g10", "ld:g11", "ld:g12", "ld:g13", "ld:g14", "ld:g15", "ld:g16", "ld:g17",
    "ld:g18", "ld:g19", "ld:g2", "ld:g20", "ld:g21", "ld:g22", "ld:g23", "ld:g26", "ld:g27", "ld:g3", "ld:g30", "ld:g32",
    "ld:g34", "ld:g35", "ld:g36", "ld:g37", "ld:g38", "ld:g39", "ld:g4", "ld:g5", "ld:g6", "ld:g8", "ld:g9", "ld:general",
    "ld:gentime", "ld:graphic", "ld:hash_u16", "ld:header", "ld:i128", "ld:i16", "ld:i32", "ld:i64", "ld:i8", "ld:ia5", "ld:integer", "ld:isize",
    "ld:null", "ld:numeric", "ld:objdesc", "ld:octetstring", "ld:oid", "ld:opt_bool", "ld:opt_enum", "ld:opt_null", "ld:opt_octets", "ld:opt_oid", "ld:opt_u8", "ld:opt_utf8",
    "ld:opt_vec_u8", "ld:pdv", "ld:pe3_bool", "ld:pi3_bool", "ld:printable", "ld:real", "ld:s_any", "ld:s_cls", "ld:s_def", "ld:s_exp", "ld:s_imp", "ld:s_inset",
    "ld:s_leaf", "ld:s_long", "ld:s_nest", "ld:s_one", "ld:s_opt", "ld:s_opts", "ld:s_plain", "ld:s_same", "ld:s_vec", "ld:seqof_octets", "ld:seqof_seqof_bool", "ld:seqof_u8",
    "ld:seqraw", "ld:setof_octets", "ld:setof_u8", "ld:setraw", "ld:str", "ld:string", "ld:t_nest", "ld:t_opt", "ld:t_plain", "ld:t_tag", "ld:te0_te1_u8", "ld:te0_ti1_u8",
    "ld:te0_u8", "ld:te0_vec_u8", "ld:te1_octets", "ld:te300_null", "ld:te31_bool", "ld:teletex", "ld:ti0_u8", "ld:ti16384_null", "ld:ti1_octets", "ld:ti2_vec_u8", "ld:ti31_bool", "ld:ti5_utf8",
    "ld:u128", "ld:u16", "ld:u32", "ld:u64", "ld:u8", "ld:ue17_u8", "ld:ui17_u8", "ld:unit", "ld:universal", "ld:usize", "ld:utctime", "ld:utf8",
    "ld:vec_any", "ld:vec_bool", "ld:vec_octets", "ld:vec_setof_u8", "ld:vec_u8", "ld:vec_vec_u8", "ld:videotex", "ld:visible", "nb:any", "nb:bool", "nb:octetstring", "nb:u8",
    "nb:vec_u8", "nd:bool", "nd:octetstring", "nd:u8", "nd:vec_u8", "oa:oid", "ob:a_a", "ob:a_any", "ob:a_bool", "ob:a_bytes", "ob:a_cho", "ob:a_def",
    "ob:a_enum", "ob:a_oct", "ob:a_oid", "ob:a_plain", "ob:a_u8", "ob:a_utf8", "ob:a_vec", "ob:ae2_u8", "ob:ai200_octets", "ob:ai2_u8", "ob:any", "ob:anyseq",
    "ob:anyset", "ob:arr0_bool", "ob:arr2_u8", "ob:bitstring", "ob:bmp", "ob:bool", "ob:boolean", "ob:btree_u16", "ob:bytes", "ob:c_any", "ob:c_deep", "ob:c_deepi",
    "ob:c_enum", "ob:c_exp", "ob:c_imp", "ob:c_lit", "ob:c_nest", "ob:c_one", "ob:c_struct", "ob:c_un", "ob:e_one", "ob:e_seq", "ob:e_vals", "ob:enumerated",
    "ob:f32", "ob:f64", "ob:g0", "ob:g1", "ob:g10", "ob:g11", "ob:g12", "ob:g13", "ob:g14", "ob:g15", "ob:g16", "ob:g17",
    "ob:g18", "ob:g19", "ob:g2", "ob:g20", "ob:g21", "ob:g22", "ob:g23", "ob:g24", "ob:g25", "ob:g26", "ob:g27", "ob:g28",
    "ob:g29", "ob:g3", "ob:g30", "ob:g31", "ob:g32", "ob:g33", "ob:g34", "ob:g35", "ob:g36", "ob:g37", "ob:g38", "ob:g39",
    "ob:g4", "ob:g5", "ob:g6", "ob:g7", "ob:g8", "ob:g9", "ob:general", "ob:gentime", "ob:graphic", "ob:i128", "ob:i16", "ob:i32",
    "ob:i64", "ob:i8", "ob:ia5", "ob:integer", "ob:isize", "ob:null", "ob:numeric", "ob:objdesc", "ob:octetstring", "ob:oid", "ob:pe3_bool", "ob:pi3_bool",
    "ob:printable", "ob:real", "ob:s_alias", "ob:s_any", "ob:s_cho", "ob:s_cls", "ob:s_const", "ob:s_deep", "ob:s_def", "ob:s_echo", "ob:s_empty", "ob:s_err",
    "ob:s_exp", "ob:s_imp", "ob:s_inset", "ob:s_leaf", "ob:s_long", "ob:s_maperr", "ob:s_nest", "ob:s_octet", "ob:s_one", "ob:s_opt", "ob:s_opts", "ob:s_plain",
    "ob:s_same", "ob:s_vec", "ob:seqof_octets", "ob:seqof_seqof_bool", "ob:seqof_u8", "ob:seqraw", "ob:setof_octets", "ob:setof_u8", "ob:setraw", "ob:str", "ob:string", "ob:t_deep",
    "ob:t_nest", "ob:t_opt", "ob:t_plain", "ob:t_tag", "ob:te0_te1_u8", "ob:te0_ti1_u8", "ob:te0_u8", "ob:te0_vec_u8", "ob:te1_octets", "ob:te300_null", "ob:te31_bool", "ob:teletex",
    "ob:ti0_te1_u8", "ob:ti0_u8", "ob:ti16384_null", "ob:ti1_octets", "ob:ti2_vec_u8", "ob:ti31_bool", "ob:ti3_ti4_bool", "ob:ti5_utf8", "ob:tup1", "ob:tup2", "ob:tup3", "ob:u128",
    "ob:u16", "ob:u32", "ob:u64", "ob:u8", "ob:ue17_u8", "ob:ui17_u8", "ob:unit", "ob:universal", "ob:usize", "ob:utctime", "ob:utf8", "ob:vec_any",
    "ob:vec_bool", "ob:vec_octets", "ob:vec_setof_u8", "ob:vec_te0_u8", "ob:vec_ti1_octets", "ob:vec_u8", "ob:vec_vec_u8", "ob:videotex", "ob:visible", "od:a_a", "od:a_any", "od:a_bool",
    "od:a_bytes", "od:a_cho", "od:a_def", "od:a_enum", "od:a_oct", "od:a_oid", "od:a_plain", "od:a_u8", "od:a_utf8", "od:a_vec", "od:ae2_u8", "od:ai200_octets",
    "od:ai2_u8", "od:any", "od:anyseq", "od:anyset", "od:arr0_bool", "od:arr2_u8", "od:bitstring", "od:bmp", "od:bool", "od:boolean", "od:btree_u16", "od:bytes",
    "od:c_any", "od:c_deep", "od:c_deepi", "od:c_enum", "od:c_exp", "od:c_imp", "od:c_lit", "od:c_nest", "od:c_one", "od:c_struct", "od:c_un", "od:e_one",
    "od:e_seq", "od:e_vals", "od:enumerated", "od:f32", "od:f64", "od:g0", "od:g1", "od:g10", "od:g11", "od:g12", "od:g13", "od:g14",
    "od:g15", "od:g16", "od:g17", "od:g18", "od:g19", "od:g2", "od:g20", "od:g21", "od:g22", "od:g23", "od:g24", "od:g25",
    "od:g26", "od:g27", "od:g28", "od:g29", "od:g3", "od:g30", "od:g31", "od:g32", "od:g33", "od:g34", "od:g35", "od:g36",
    "od:g37", "od:g38", "od:g39", "od:g4", "od:g5", "od:g6", "od:g7", "od:g8", "od:g9", "od:general", "od:gentime", "od:graphic",
    "od:i128", "od:i16", "od:i32", "od:i64", "od:i8", "od:ia5", "od:integer", "od:isize", "od:null", "od:numeric", "od:objdesc", "od:octetstring",
    "od:oid", "od:pe3_bool", "od:pi3_bool", "od:printable", "od:real", "od:s_alias", "od:s_any", "od:s_cho", "od:s_cls", "od:s_const", "od:s_deep", "od:s_def",
    "od:s_echo", "od:s_empty", "od:s_err", "od:s_exp", "od:s_imp", "od:s_inset", "od:s_leaf", "od:s_long", "od:s_maperr", "od:s_nest", "od:s_octet", "od:s_one",
    "od:s_opt", "od:s_opts", "od:s_orig", "od:s_plain", "od:s_same", "od:s_vec", "od:seqof_octets", "od:seqof_seqof_bool", "od:seqof_u8", "od:seqraw", "od:setof_octets", "od:setof_u8",
    "od:setraw", "od:str", "od:string", "od:t_deep", "od:t_nest", "od:t_opt", "od:t_plain", "od:t_tag", "od:te0_te1_u8", "od:te0_ti1_u8", "od:te0_u8", "od:te0_vec_u8",
    "od:te1_octets", "od:te300_null", "od:te31_bool", "od:teletex", "od:ti0_te1_u8", "od:ti0_u8", "od:ti16384_null", "od:ti1_octets", "od:ti2_vec_u8", "od:ti31_bool", "od:ti3_ti4_bool", "od:ti5_utf8",
    "od:tup1", "od:tup2", "od:tup3", "od:u128", "od:u16", "od:u32", "od:u64", "od:u8", "od:ue17_u8", "od:ui17_u8", "od:unit", "od:universal",
    "od:usize", "od:utctime", "od:utf8", "od:vec_any", "od:vec_bool", "od:vec_octets", "od:vec_setof_u8", "od:vec_te0_u8", "od:vec_ti1_octets", "od:vec_u8", "od:vec_vec_u8", "od:videotex",
    "od:visible", "pb:a_a", "pb:a_any", "pb:a_bool", "pb:a_bytes", "pb:a_cho", "pb:a_def", "pb:a_enum", "pb:a_oct", "pb:a_oid", "pb:a_plain", "pb:a_u8",
    "pb:a_utf8", "pb:a_vec", "pb:ae1_any", "pb:ae2_u8", "pb:ai200_octets", "pb:ai2_u8", "pb:any", "pb:anyseq", "pb:anyset", "pb:arr0_bool", "pb:arr2_any", "pb:arr2_u8",
    "pb:bitstring", "pb:bmp", "pb:bool", "pb:boolean", "pb:btree_u16", "pb:bytes", "pb:c_any", "pb:c_deep", "pb:c_deepi", "pb:c_enum", "pb:c_exp", "pb:c_imp",
    "pb:c_lit", "pb:c_nest", "pb:c_one", "pb:c_struct", "pb:c_un", "pb:e_one", "pb:e_seq", "pb:e_vals", "pb:enumerated", "pb:eoc", "pb:f32", "pb:f64",
    "pb:g0", "pb:g1", "pb:g10", "pb:g11", "pb:g12", "pb:g13", "pb:g14", "pb:g15", "pb:g16", "pb:g17", "pb:g18", "pb:g19",
    "pb:g2", "pb:g20", "pb:g21", "pb:g22", "pb:g23", "pb:g24", "pb:g25", "pb:g26", "pb:g27", "pb:g28", "pb:g29", "pb:g3",
    "pb:g30", "pb:g31", "pb:g32", "pb:g33", "pb:g34", "pb:g35", "pb:g36", "pb:g37", "pb:g38", "pb:g39", "pb:g4", "pb:g5",
    "pb:g6", "pb:g7", "pb:g8", "pb:g9", "pb:general", "pb:gentime", "pb:graphic", "pb:hash_u16", "pb:header", "pb:i128", "pb:i16", "pb:i32",
    "pb:i64", "pb:i8", "pb:ia5", "pb:integer", "pb:isize", "pb:null", "pb:numeric", "pb:objdesc", "pb:octetstring", "pb:oid", "pb:opt_ae1_bool", "pb:opt_any",
    "pb:opt_bool", "pb:opt_enum", "pb:opt_null", "pb:opt_octets", "pb:opt_oid", "pb:opt_te0_any", "pb:opt_te2_u8", "pb:opt_ti1_bool", "pb:opt_u8", "pb:opt_utf8", "pb:opt_vec_u8", "pb:p_s_plain",
    "pb:pdv", "pb:pe3_bool", "pb:pi3_bool", "pb:printable", "pb:real", "pb:s_alias", "pb:s_any", "pb:s_cho", "pb:s_cls", "pb:s_const", "pb:s_deep", "pb:s_def",
    "pb:s_echo", "pb:s_empty", "pb:s_err", "pb:s_exp", "pb:s_imp", "pb:s_inset", "pb:s_leaf", "pb:s_long", "pb:s_maperr", "pb:s_nest", "pb:s_octet", "pb:s_one",
    "pb:s_opt", "pb:s_opts", "pb:s_plain", "pb:s_same", "pb:s_vec", "pb:seqof_any", "pb:seqof_octets", "pb:seqof_seqof_bool", "pb:seqof_u8", "pb:seqraw", "pb:setof_any", "pb:setof_octets",
    "pb:setof_u8", "pb:setraw", "pb:str", "pb:string", "pb:t_deep", "pb:t_nest", "pb:t_opt", "pb:t_plain", "pb:t_tag", "pb:te0_any", "pb:te0_te1_any", "pb:te0_te1_u8",
    "pb:te0_ti1_u8", "pb:te0_tup2_any", "pb:te0_u8", "pb:te0_vec_u8", "pb:te1_octets", "pb:te300_null", "pb:te31_bool", "pb:te3_vec_te0_any", "pb:teletex", "pb:ti0_te1_u8", "pb:ti0_u8", "pb:ti16384_null",
    "pb:ti1_any", "pb:ti1_octets", "pb:ti2_vec_any", "pb:ti2_vec_u8", "pb:ti31_bool", "pb:ti3_ti4_bool", "pb:ti5_utf8", "pb:tup1", "pb:tup2", "pb:tup2_any", "pb:tup2_opt", "pb:tup2_vec_any",
    "pb:tup3", "pb:tup3_opt", "pb:u128", "pb:u16", "pb:u32", "pb:u64", "pb:u8", "pb:ue17_u8", "pb:ui17_u8", "pb:unit", "pb:universal", "pb:usize",
    "pb:utctime", "pb:utf8", "pb:vec_any", "pb:vec_bool", "pb:vec_octets", "pb:vec_opt_u8", "pb:vec_setof_u8", "pb:vec_te0_u8", "pb:vec_ti1_octets", "pb:vec_tup2_any", "pb:vec_u8", "pb:vec_vec_any",
    "pb:vec_vec_u8", "pb:videotex", "pb:visible", "pd:a_a", "pd:a_any", "pd:a_bool", "pd:a_bytes", "pd:a_cho", "pd:a_def", "pd:a_enum", "pd:a_oct", "pd:a_oid",
    "pd:a_plain", "pd:a_u8", "pd:a_utf8", "pd:a_vec", "pd:ae1_any", "pd:ae2_u8", "pd:ai200_octets", "pd:ai2_u8", "pd:any", "pd:anyseq", "pd:anyset", "pd:arr0_bool",
    "pd:arr2_any", "pd:arr2_u8", "pd:bitstring", "pd:bmp", "pd:bool", "pd:boolean", "pd:btree_u16", "pd:bytes", "pd:c_any", "pd:c_deep", "pd:c_deepi", "pd:c_enum",
    "pd:c_exp", "pd:c_imp", "pd:c_lit", "pd:c_nest", "pd:c_one", "pd:c_struct", "pd:c_un", "pd:e_one", "pd:e_seq", "pd:e_vals", "pd:enumerated", "pd:f32",
    "pd:f64", "pd:g0", "pd:g1", "pd:g10", "pd:g11", "pd:g12", "pd:g13", "pd:g14", "pd:g15", "pd:g16", "pd:g17", "pd:g18",
    "pd:g19", "pd:g2", "pd:g20", "pd:g21", "pd:g22", "pd:g23", "pd:g24", "pd:g25", "pd:g26", "pd:g27", "pd:g28", "pd:g29",
    "pd:g3", "pd:g30", "pd:g31", "pd:g32", "pd:g33", "pd:g34", "pd:g35", "pd:g36", "pd:g37", "pd:g38", "pd:g39", "pd:g4",
    "pd:g5", "pd:g6", "pd:g7", "pd:g8", "pd:g9", "pd:general", "pd:gentime", "pd:graphic", "pd:hash_u16", "pd:header", "pd:i128", "pd:i16",
    "pd:i32", "pd:i64", "pd:i8", "pd:ia5", "pd:integer", "pd:isize", "pd:null", "pd:numeric", "pd:objdesc", "pd:octetstring", "pd:oid", "pd:opt_ae1_bool",
    "pd:opt_any", "pd:opt_bool", "pd:opt_enum", "pd:opt_null", "pd:opt_octets", "pd:opt_oid", "pd:opt_te0_any", "pd:opt_te2_u8", "pd:opt_ti1_bool", "pd:opt_u8", "pd:opt_utf8", "pd:opt_vec_u8",
    "pd:p_s_plain", "pd:pdv", "pd:pe3_bool", "pd:pi3_bool", "pd:printable", "pd:real", "pd:s_alias", "pd:s_any", "pd:s_cho", "pd:s_cls", "pd:s_const", "pd:s_deep",
    "pd:s_def", "pd:s_echo", "pd:s_empty", "pd:s_err", "pd:s_exp", "pd:s_imp", "pd:s_inset", "pd:s_leaf", "pd:s_long", "pd:s_maperr", "pd:s_nest", "pd:s_octet",
    "pd:s_one", "pd:s_opt", "pd:s_opts", "pd:s_orig", "pd:s_plain", "pd:s_same", "pd:s_vec", "pd:seqof_any", "pd:seqof_octets", "pd:seqof_seqof_bool", "pd:seqof_u8", "pd:seqraw",
    "pd:setof_any", "pd:setof_octets", "pd:setof_u8", "pd:setraw", "pd:str", "pd:string", "pd:t_deep", "pd:t_nest", "pd:t_opt", "pd:t_plain", "pd:t_tag", "pd:te0_any",
    "pd:te0_te1_any", "pd:te0_te1_u8", "pd:te0_ti1_u8", "pd:te0_tup2_any", "pd:te0_u8", "pd:te0_vec_u8", "pd:te1_octets", "pd:te300_null", "pd:te31_bool", "pd:te3_vec_te0_any", "pd:teletex", "pd:ti0_te1_u8",
    "pd:ti0_u8", "pd:ti16384_null", "pd:ti1_any", "pd:ti1_octets", "pd:ti2_vec_any", "pd:ti2_vec_u8", "pd:ti31_bool", "pd:ti3_ti4_bool", "pd:ti5_utf8", "pd:tup1", "pd:tup2", "pd:tup2_any",
    "pd:tup2_opt", "pd:tup2_vec_any", "pd:tup3", "pd:tup3_opt", "pd:u128", "pd:u16", "pd:u32", "pd:u64", "pd:u8", "pd:ue17_u8", "pd:ui17_u8", "pd:unit",
    "pd:universal", "pd:usize", "pd:utctime", "pd:utf8", "pd:vec_any", "pd:vec_bool", "pd:vec_octets", "pd:vec_setof_u8", "pd:vec_te0_u8", "pd:vec_ti1_octets", "pd:vec_tup2_any", "pd:vec_u8",
    "pd:vec_vec_any", "pd:vec_vec_u8", "pd:videotex", "pd:visible", "pp:a_a", "pp:a_any", "pp:a_bool", "pp:a_bytes", "pp:a_cho", "pp:a_def", "pp:a_enum", "pp:a_oct",
    "pp:a_oid", "pp:a_plain", "pp:a_u8", "pp:a_utf8", "pp:a_vec", "pp:ae1_any", "pp:any", "pp:anyseq", "pp:anyset", "pp:arr2_any", "pp:c_any", "pp:c_deep",
    "pp:c_deepi", "pp:c_enum", "pp:c_exp", "pp:c_imp", "pp:c_lit", "pp:c_nest", "pp:c_one", "pp:c_struct", "pp:c_un", "pp:e_one", "pp:e_seq", "pp:e_vals",
    "pp:g0", "pp:g1", "pp:g10", "pp:g11", "pp:g12", "pp:g13", "pp:g14", "pp:g15", "pp:g16", "pp:g17", "pp:g18", "pp:g19",
    "pp:g2", "pp:g20", "pp:g21", "pp:g22", "pp:g23", "pp:g24", "pp:g25", "pp:g26", "pp:g27", "pp:g28", "pp:g29", "pp:g3",
    "pp:g30", "pp:g31", "pp:g32", "pp:g33", "pp:g34", "pp:g35", "pp:g36", "pp:g37", "pp:g38", "pp:g39", "pp:g4", "pp:g5",
    "pp:g6", "pp:g7", "pp:g8", "pp:g9", "pp:opt_any", "pp:opt_te0_any", "pp:s_alias", "pp:s_any", "pp:s_cho", "pp:s_cls", "pp:s_const", "pp:s_deep",
    "pp:s_def", "pp:s_echo", "pp:s_empty", "pp:s_err", "pp:s_exp", "pp:s_imp", "pp:s_inset", "pp:s_leaf", "pp:s_long", "pp:s_maperr", "pp:s_nest", "pp:s_octet",
    "pp:s_one", "pp:s_opt", "pp:s_opts", "pp:s_plain", "pp:s_same", "pp:s_vec", "pp:seqof_any", "pp:setof_any", "pp:t_deep", "pp:t_nest", "pp:t_opt", "pp:t_plain",
    "pp:t_tag", "pp:te0_any", "pp:te0_te1_any", "pp:te0_tup2_any", "pp:te3_vec_te0_any", "pp:ti1_any", "pp:ti2_vec_any", "pp:tup2_any", "pp:tup2_vec_any", "pp:vec_any", "pp:vec_tup2_any", "pp:vec_vec_any",
    "pq:a_a", "pq:a_any", "pq:a_bool", "pq:a_bytes", "pq:a_cho", "pq:a_def", "pq:a_enum", "pq:a_oct", "pq:a_oid", "pq:a_plain", "pq:a_u8", "pq:a_utf8",
    "pq:a_vec", "pq:ae1_any", "pq:any", "pq:anyseq", "pq:anyset", "pq:arr2_any", "pq:c_any", "pq:c_deep", "pq:c_deepi", "pq:c_enum", "pq:c_exp", "pq:c_imp",
    "pq:c_lit", "pq:c_nest", "pq:c_one", "pq:c_struct", "pq:c_un", "pq:e_one", "pq:e_seq", "pq:e_vals", "pq:g0", "pq:g1", "pq:g10", "pq:g11",
    "pq:g12", "pq:g13", "pq:g14", "pq:g15", "pq:g16", "pq:g17", "pq:g18", "pq:g19", "pq:g2", "pq:g20", "pq:g21", "pq:g22",
    "pq:g23", "pq:g24", "pq:g25", "pq:g26", "pq:g27", "pq:g28", "pq:g29", "pq:g3", "pq:g30", "pq:g31", "pq:g32", "pq:g33",
    "pq:g34", "pq:g35", "pq:g36", "pq:g37", "pq:g38", "pq:g39", "pq:g4", "pq:g5", "pq:g6", "pq:g7", "pq:g8", "pq:g9",
    "pq:opt_any", "pq:opt_te0_any", "pq:s_alias", "pq:s_any", "pq:s_cho", "pq:s_cls", "pq:s_const", "pq:s_deep", "pq:s_def", "pq:s_echo", "pq:s_empty", "pq:s_err",
    "pq:s_exp", "pq:s_imp", "pq:s_inset", "pq:s_leaf", "pq:s_long", "pq:s_maperr", "pq:s_nest", "pq:s_octet", "pq:s_one", "pq:s_opt", "pq:s_opts", "pq:s_orig",
    "pq:s_plain", "pq:s_same", "pq:s_vec", "pq:seqof_any", "pq:setof_any", "pq:t_deep", "pq:t_nest", "pq:t_opt", "pq:t_plain", "pq:t_tag", "pq:te0_any", "pq:te0_te1_any",
    "pq:te0_tup2_any", "pq:te3_vec_te0_any", "pq:ti1_any", "pq:ti2_vec_any", "pq:tup2_any", "pq:tup2_vec_any", "pq:vec_any", "pq:vec_tup2_any", "pq:vec_vec_any", "qb:any", "qb:octetstring", "qb:oid",
    "qb:opt_bool", "qb:u8", "qb:vec_u8", "qd:any", "qd:octetstring", "qd:oid", "qd:opt_bool", "qd:u8", "qd:vec_u8", "rb:any", "rb:octetstring", "rb:oid",
    "rb:opt_bool", "rb:u8", "rb:vec_u8", "rd:any", "rd:octetstring", "rd:oid", "rd:opt_bool", "rd:u8", "rd:vec_u8", "rl:oid", "rm:oid", "sb:any",
    "sb:octetstring", "sb:oid", "sb:opt_bool", "sb:u8", "sb:vec_u8", "sd:any", "sd:octetstring", "sd:oid", "sd:opt_bool", "sd:u8", "sd:vec_u8", "ta:a_any",
    "ta:a_bool", "ta:a_oct", "ta:a_u8", "ta:a_utf8", "ta:b_s_plain", "ta:bitstring", "ta:bmp", "ta:bool", "ta:boolean", "ta:btree_u16", "ta:bytes", "ta:enumerated",
    "ta:f32", "ta:f64", "ta:g0", "ta:g1", "ta:g10", "ta:g11", "ta:g12", "ta:g13", "ta:g14", "ta:g15", "ta:g16", "ta:g17",
    "ta:g18", "ta:g19", "ta:g2", "ta:g20", "ta:g21", "ta:g22", "ta:g23", "ta:g26", "ta:g27", "ta:g3", "ta:g30", "ta:g32",
    "ta:g34", "ta:g35", "ta:g36", "ta:g37", "ta:g38", "ta:g39", "ta:g4", "ta:g5", "ta:g6", "ta:g8", "ta:g9", "ta:general",
    "ta:gentime", "ta:graphic", "ta:hash_u16", "ta:i128", "ta:i16", "ta:i32", "ta:i64", "ta:i8", "ta:ia5", "ta:integer", "ta:isize", "ta:null",
    "ta:numeric", "ta:objdesc", "ta:octetstring", "ta:oid", "ta:pdv", "ta:printable", "ta:real", "ta:s_any", "ta:s_cls", "ta:s_def", "ta:s_exp", "ta:s_imp",
    "ta:s_inset", "ta:s_leaf", "ta:s_long", "ta:s_nest", "ta:s_one", "ta:s_opt", "ta:s_opts", "ta:s_plain", "ta:s_same", "ta:s_vec", "ta:seqof_octets", "ta:seqof_seqof_bool",
    "ta:seqof_u8", "ta:seqraw", "ta:setof_octets", "ta:setof_u8", "ta:setraw", "ta:str", "ta:string", "ta:t_nest", "ta:t_opt", "ta:t_plain", "ta:t_tag", "ta:teletex",
    "ta:u128", "ta:u16", "ta:u32", "ta:u64", "ta:u8", "ta:unit", "ta:universal", "ta:usize", "ta:utctime", "ta:utf8", "ta:vec_any", "ta:vec_bool",
    "ta:vec_octets", "ta:vec_setof_u8", "ta:vec_u8", "ta:vec_vec_u8", "ta:videotex", "ta:visible", "tb:ai200_octets", "tb:bitstring", "tb:bmp", "tb:bool", "tb:enumerated", "tb:gentime",
    "tb:i64", "tb:integer", "tb:null", "tb:octetstring", "tb:oid", "tb:printable", "tb:real", "tb:seqof_octets", "tb:seqraw", "tb:setof_u8", "tb:setraw", "tb:string",
    "tb:te1_octets", "tb:ti0_u8", "tb:u32", "tb:u8", "tb:utctime", "tb:utf8", "tb:vec_u8", "td:ai200_octets", "td:bitstring", "td:bmp", "td:bool", "td:enumerated",
    "td:gentime", "td:i64", "td:integer", "td:null", "td:octetstring", "td:oid", "td:printable", "td:real", "td:seqof_octets", "td:seqraw", "td:setof_u8", "td:setraw",
    "td:string", "td:te1_octets", "td:ti0_u8", "td:u32", "td:u8", "td:utctime", "td:utf8", "td:vec_u8", "tm:anystr", "tm:anystring", "tm:bitstring", "tm:bmp",
    "tm:bool", "tm:boolean", "tm:enumerated", "tm:general", "tm:gentime", "tm:graphic", "tm:i128", "tm:i16", "tm:i32", "tm:i64", "tm:i8", "tm:ia5",
    "tm:integer", "tm:null", "tm:numeric", "tm:objdesc", "tm:octetstring", "tm:oid", "tm:pdv", "tm:printable", "tm:reloid", "tm:seqraw", "tm:setraw", "tm:str",
    "tm:string", "tm:teletex", "tm:u128", "tm:u16", "tm:u32", "tm:u64", "tm:u8", "tm:universal", "tm:utctime", "tm:utf8", "tm:videotex", "tm:visible",
    "ts:a_a", "ts:a_bool", "ts:a_enum", "ts:a_plain", "ts:a_u8", "ts:a_vec", "ts:bool", "ts:e_one", "ts:e_seq", "ts:e_vals", "ts:g8", "ts:header",
    "ts:i128", "ts:i16", "ts:i32", "ts:i64", "ts:i8", "ts:isize", "ts:opt_bool", "ts:opt_u8", "ts:s_empty", "ts:s_exp", "ts:s_long", "ts:s_one",
    "ts:s_plain", "ts:s_vec", "ts:seqraw", "ts:setraw", "ts:string", "ts:t_plain", "ts:u128", "ts:u16", "ts:u32", "ts:u64", "ts:u8", "ts:usize",
    "ts:vec_bool", "ts:vec_u8", "ub:bitstring", "ub:bmp", "ub:bool", "ub:enumerated", "ub:gentime", "ub:i64", "ub:integer", "ub:null", "ub:octetstring", "ub:printable",
    "ub:real", "ub:seqof_octets", "ub:seqraw", "ub:setof_u8", "ub:setraw", "ub:string", "ub:u32", "ub:u8", "ub:utctime", "ub:utf8", "ub:vec_u8", "ud:bitstring",
    "ud:bmp", "ud:bool", "ud:enumerated", "ud:gentime", "ud:i64", "ud:integer", "ud:null", "ud:octetstring", "ud:printable", "ud:real", "ud:seqof_octets", "ud:seqraw",
    "ud:setof_u8", "ud:setraw", "ud:string", "ud:u32", "ud:u8", "ud:utctime", "ud:utf8", "ud:vec_u8", "vb:ai200_octets", "vb:bitstring", "vb:bmp", "vb:bool",
    "vb:enumerated", "vb:gentime", "vb:i64", "vb:integer", "vb:null", "vb:octetstring", "vb:oid", "vb:printable", "vb:real", "vb:seqof_octets", "vb:seqraw", "vb:setof_u8",
    "vb:setraw", "vb:string", "vb:te1_octets", "vb:ti0_u8", "vb:u32", "vb:u8", "vb:utctime", "vb:utf8", "vb:vec_u8", "vd:ai200_octets", "vd:bitstring", "vd:bmp",
    "vd:bool", "vd:enumerated", "vd:gentime", "vd:i64", "vd:integer", "vd:null", "vd:octetstring", "vd:oid", "vd:printable", "vd:real", "vd:seqof_octets", "vd:seqraw",
    "vd:setof_u8", "vd:setraw", "vd:string", "vd:te1_octets", "vd:ti0_u8", "vd:u32", "vd:u8", "vd:utctime", "vd:utf8", "vd:vec_u8", "wb:ai200_octets", "wb:bitstring",
    "wb:bmp", "wb:bool", "wb:enumerated", "wb:gentime", "wb:i64", "wb:integer", "wb:null", "wb:octetstring", "wb:oid", "wb:printable", "wb:real", "wb:seqof_octets",
    "wb:seqraw", "wb:setof_u8", "wb:setraw", "wb:string", "wb:te1_octets", "wb:ti0_u8", "wb:u32", "wb:u8", "wb:utctime", "wb:utf8", "wb:vec_u8", "wd:ai200_octets",
    "wd:bitstring", "wd:bmp", "wd:bool", "wd:enumerated", "wd:gentime", "wd:i64", "wd:integer", "wd:null", "wd:octetstring", "wd:oid", "wd:printable", "wd:real",
    "wd:seqof_octets", "wd:seqraw", "wd:setof_u8", "wd:setraw", "wd:string", "wd:te1_octets", "wd:ti0_u8", "wd:u32", "wd:u8", "wd:utctime", "wd:utf8", "wd:vec_u8",
    "xb:ai200_octets", "xb:any", "xb:anyseq", "xb:arr2_u8", "xb:bitstring", "xb:bmp", "xb:bool", "xb:enumerated", "xb:gentime", "xb:i64", "xb:integer", "xb:null",
    "xb:octetstring", "xb:oid", "xb:opt_octets", "xb:opt_u8", "xb:printable", "xb:real", "xb:seqof_octets", "xb:seqraw", "xb:setof_u8", "xb:setraw", "xb:string", "xb:te1_octets",
    "xb:ti0_u8", "xb:u32", "xb:u8", "xb:utctime", "xb:utf8", "xb:vec_u8", "xd:ai200_octets", "xd:any", "xd:anyseq", "xd:arr2_u8", "xd:bitstring", "xd:bmp",
    "xd:bool", "xd:enumerated", "xd:gentime", "xd:i64", "xd:integer", "xd:null", "xd:octetstring", "xd:oid", "xd:opt_octets", "xd:opt_u8", "xd:printable", "xd:real",
    "xd:seqof_octets", "xd:seqraw", "xd:setof_u8", "xd:setraw", "xd:string", "xd:te1_octets", "xd:ti0_u8", "xd:u32", "xd:u8", "xd:utctime", "xd:utf8", "xd:vec_u8",
    "yb:ai200_octets", "yb:any", "yb:anyseq", "yb:arr2_u8", "yb:bitstring", "yb:bmp", "yb:bool", "yb:enumerated", "yb:gentime", "yb:i64", "yb:integer", "yb:null",
    "yb:octetstring", "yb:oid", "yb:opt_octets", "yb:opt_u8", "yb:printable", "yb:real", "yb:seqof_octets", "yb:seqraw", "yb:setof_u8", "yb:setraw", "yb:string", "yb:te1_octets",
    "yb:ti0_u8", "yb:u32", "yb:u8", "yb:utctime", "yb:utf8", "yb:vec_u8", "yd:ai200_octets", "yd:any", "yd:anyseq", "yd:arr2_u8", "yd:bitstring", "yd:bmp",
    "yd:bool", "yd:enumerated", "yd:gentime", "yd:i64", "yd:integer", "yd:null", "yd:octetstring", "yd:oid", "yd:opt_octets", "yd:opt_u8", "yd:printable", "yd:real",
    "yd:seqof_octets", "yd:seqraw", "yd:setof_u8", "yd:setraw", "yd:string", "yd:te1_octets", "yd:ti0_u8", "yd:u32", "yd:u8", "yd:utctime", "yd:utf8", "yd:vec_u8",
    "zb:any", "zb:octetstring", "zb:oid", "zb:opt_bool", "zb:u8", "zb:vec_u8", "zd:any", "zd:octetstring", "zd:oid", "zd:opt_bool", "zd:u8", "zd:vec_u8"
  >>
=============================================================================
