//! GENERATED by tools/mk_macros.py: uses of the compile-time macros. The same arcs and numbers are in spec/Macros.tla.
use asn1_rs::{int, oid, Integer, Oid};

macro_rules! three { ($a:literal $b:literal $c:literal) => { oid!($a.$b.$c) } }

/// (raw content, identifier, arcs if they fit machine words)
pub const ABSOLUTE: &[(&[u8], Oid<'static>, Option<&[u64]>)] = &[
    (&oid!(raw 0.0), oid!(0.0), Some(&[0, 0])),
    (&oid!(raw 0.1), oid!(0.1), Some(&[0, 1])),
    (&oid!(raw 0.7), oid!(0.7), Some(&[0, 7])),
    (&oid!(raw 0.8), oid!(0.8), Some(&[0, 8])),
    (&oid!(raw 0.15), oid!(0.15), Some(&[0, 15])),
    (&oid!(raw 0.16), oid!(0.16), Some(&[0, 16])),
    (&oid!(raw 0.38), oid!(0.38), Some(&[0, 38])),
    (&oid!(raw 0.39), oid!(0.39), Some(&[0, 39])),
    (&oid!(raw 1.0), oid!(1.0), Some(&[1, 0])),
    (&oid!(raw 1.1), oid!(1.1), Some(&[1, 1])),
    (&oid!(raw 1.7), oid!(1.7), Some(&[1, 7])),
    (&oid!(raw 1.8), oid!(1.8), Some(&[1, 8])),
    (&oid!(raw 1.15), oid!(1.15), Some(&[1, 15])),
    (&oid!(raw 1.16), oid!(1.16), Some(&[1, 16])),
    (&oid!(raw 1.38), oid!(1.38), Some(&[1, 38])),
    (&oid!(raw 1.39), oid!(1.39), Some(&[1, 39])),
    (&oid!(raw 2.0), oid!(2.0), Some(&[2, 0])),
    (&oid!(raw 2.1), oid!(2.1), Some(&[2, 1])),
    (&oid!(raw 2.7), oid!(2.7), Some(&[2, 7])),
    (&oid!(raw 2.8), oid!(2.8), Some(&[2, 8])),
    (&oid!(raw 2.15), oid!(2.15), Some(&[2, 15])),
    (&oid!(raw 2.16), oid!(2.16), Some(&[2, 16])),
    (&oid!(raw 2.38), oid!(2.38), Some(&[2, 38])),
    (&oid!(raw 2.39), oid!(2.39), Some(&[2, 39])),
    (&oid!(raw 1.2.0), oid!(1.2.0), Some(&[1, 2, 0])),
    (&oid!(raw 1.2.1), oid!(1.2.1), Some(&[1, 2, 1])),
    (&oid!(raw 1.2.2), oid!(1.2.2), Some(&[1, 2, 2])),
    (&oid!(raw 1.2.39), oid!(1.2.39), Some(&[1, 2, 39])),
    (&oid!(raw 1.2.40), oid!(1.2.40), Some(&[1, 2, 40])),
    (&oid!(raw 1.2.47), oid!(1.2.47), Some(&[1, 2, 47])),
    (&oid!(raw 1.2.79), oid!(1.2.79), Some(&[1, 2, 79])),
    (&oid!(raw 1.2.80), oid!(1.2.80), Some(&[1, 2, 80])),
    (&oid!(raw 1.2.127), oid!(1.2.127), Some(&[1, 2, 127])),
    (&oid!(raw 1.2.128), oid!(1.2.128), Some(&[1, 2, 128])),
    (&oid!(raw 1.2.129), oid!(1.2.129), Some(&[1, 2, 129])),
    (&oid!(raw 1.2.255), oid!(1.2.255), Some(&[1, 2, 255])),
    (&oid!(raw 1.2.256), oid!(1.2.256), Some(&[1, 2, 256])),
    (&oid!(raw 1.2.840), oid!(1.2.840), Some(&[1, 2, 840])),
    (&oid!(raw 1.2.8191), oid!(1.2.8191), Some(&[1, 2, 8191])),
    (&oid!(raw 1.2.8192), oid!(1.2.8192), Some(&[1, 2, 8192])),
    (&oid!(raw 1.2.16383), oid!(1.2.16383), Some(&[1, 2, 16383])),
    (&oid!(raw 1.2.16384), oid!(1.2.16384), Some(&[1, 2, 16384])),
    (&oid!(raw 1.2.16385), oid!(1.2.16385), Some(&[1, 2, 16385])),
    (&oid!(raw 1.2.113549), oid!(1.2.113549), Some(&[1, 2, 113549])),
    (&oid!(raw 1.2.2097151), oid!(1.2.2097151), Some(&[1, 2, 2097151])),
    (&oid!(raw 1.2.2097152), oid!(1.2.2097152), Some(&[1, 2, 2097152])),
    (&oid!(raw 1.2.268435455), oid!(1.2.268435455), Some(&[1, 2, 268435455])),
    (&oid!(raw 1.2.268435456), oid!(1.2.268435456), Some(&[1, 2, 268435456])),
    (&oid!(raw 1.2.2147483647), oid!(1.2.2147483647), Some(&[1, 2, 2147483647])),
    (&oid!(raw 1.2.2147483648), oid!(1.2.2147483648), Some(&[1, 2, 2147483648])),
    (&oid!(raw 1.2.4294967295), oid!(1.2.4294967295), Some(&[1, 2, 4294967295])),
    (&oid!(raw 1.2.4294967296), oid!(1.2.4294967296), Some(&[1, 2, 4294967296])),
    (&oid!(raw 1.2.4294967424), oid!(1.2.4294967424), Some(&[1, 2, 4294967424])),
    (&oid!(raw 1.2.34359738367), oid!(1.2.34359738367), Some(&[1, 2, 34359738367])),
    (&oid!(raw 1.2.34359738368), oid!(1.2.34359738368), Some(&[1, 2, 34359738368])),
    (&oid!(raw 1.2.4398046511103), oid!(1.2.4398046511103), Some(&[1, 2, 4398046511103])),
    (&oid!(raw 1.2.4398046511104), oid!(1.2.4398046511104), Some(&[1, 2, 4398046511104])),
    (&oid!(raw 1.2.562949953421312), oid!(1.2.562949953421312), Some(&[1, 2, 562949953421312])),
    (&oid!(raw 1.2.72057594037927935), oid!(1.2.72057594037927935), Some(&[1, 2, 72057594037927935])),
    (&oid!(raw 1.2.72057594037927936), oid!(1.2.72057594037927936), Some(&[1, 2, 72057594037927936])),
    (&oid!(raw 1.2.9223372036854775807), oid!(1.2.9223372036854775807), Some(&[1, 2, 9223372036854775807])),
    (&oid!(raw 1.2.9223372036854775808), oid!(1.2.9223372036854775808), Some(&[1, 2, 9223372036854775808])),
    (&oid!(raw 1.2.18446744073709551615), oid!(1.2.18446744073709551615), Some(&[1, 2, 18446744073709551615])),
    (&oid!(raw 1.2.18446744073709551616), oid!(1.2.18446744073709551616), None),
    (&oid!(raw 1.2.18446744073709551617), oid!(1.2.18446744073709551617), None),
    (&oid!(raw 1.2.1180591620717411303423), oid!(1.2.1180591620717411303423), None),
    (&oid!(raw 1.2.1180591620717411303424), oid!(1.2.1180591620717411303424), None),
    (&oid!(raw 1.2.151115727451828646838272), oid!(1.2.151115727451828646838272), None),
    (&oid!(raw 1.2.1267650600228229401496703205376), oid!(1.2.1267650600228229401496703205376), None),
    (&oid!(raw 1.2.664613997892457936451903530140172288), oid!(1.2.664613997892457936451903530140172288), None),
    (&oid!(raw 1.2.85070591730234615865843651857942052864), oid!(1.2.85070591730234615865843651857942052864), None),
    (&oid!(raw 1.2.170141183460469231731687303715884105727), oid!(1.2.170141183460469231731687303715884105727), None),
    (&oid!(raw 1.2.170141183460469231731687303715884105728), oid!(1.2.170141183460469231731687303715884105728), None),
    (&oid!(raw 1.2.340282366920938463463374607431768211455), oid!(1.2.340282366920938463463374607431768211455), None),
    (&oid!(raw 2.39.0.0.0), oid!(2.39.0.0.0), Some(&[2, 39, 0, 0, 0])),
    (&oid!(raw 2.39.1.0.1), oid!(2.39.1.0.1), Some(&[2, 39, 1, 0, 1])),
    (&oid!(raw 2.39.2.0.2), oid!(2.39.2.0.2), Some(&[2, 39, 2, 0, 2])),
    (&oid!(raw 2.39.39.0.39), oid!(2.39.39.0.39), Some(&[2, 39, 39, 0, 39])),
    (&oid!(raw 2.39.40.0.40), oid!(2.39.40.0.40), Some(&[2, 39, 40, 0, 40])),
    (&oid!(raw 2.39.47.0.47), oid!(2.39.47.0.47), Some(&[2, 39, 47, 0, 47])),
    (&oid!(raw 2.39.79.0.79), oid!(2.39.79.0.79), Some(&[2, 39, 79, 0, 79])),
    (&oid!(raw 2.39.80.0.80), oid!(2.39.80.0.80), Some(&[2, 39, 80, 0, 80])),
    (&oid!(raw 2.39.127.0.127), oid!(2.39.127.0.127), Some(&[2, 39, 127, 0, 127])),
    (&oid!(raw 2.39.128.0.128), oid!(2.39.128.0.128), Some(&[2, 39, 128, 0, 128])),
    (&oid!(raw 2.39.129.0.129), oid!(2.39.129.0.129), Some(&[2, 39, 129, 0, 129])),
    (&oid!(raw 2.39.255.0.255), oid!(2.39.255.0.255), Some(&[2, 39, 255, 0, 255])),
    (&oid!(raw 2.39.256.0.256), oid!(2.39.256.0.256), Some(&[2, 39, 256, 0, 256])),
    (&oid!(raw 2.39.840.0.840), oid!(2.39.840.0.840), Some(&[2, 39, 840, 0, 840])),
    (&oid!(raw 2.39.8191.0.8191), oid!(2.39.8191.0.8191), Some(&[2, 39, 8191, 0, 8191])),
    (&oid!(raw 2.39.8192.0.8192), oid!(2.39.8192.0.8192), Some(&[2, 39, 8192, 0, 8192])),
    (&oid!(raw 2.39.16383.0.16383), oid!(2.39.16383.0.16383), Some(&[2, 39, 16383, 0, 16383])),
    (&oid!(raw 2.39.16384.0.16384), oid!(2.39.16384.0.16384), Some(&[2, 39, 16384, 0, 16384])),
    (&oid!(raw 2.39.16385.0.16385), oid!(2.39.16385.0.16385), Some(&[2, 39, 16385, 0, 16385])),
    (&oid!(raw 2.39.113549.0.113549), oid!(2.39.113549.0.113549), Some(&[2, 39, 113549, 0, 113549])),
    (&oid!(raw 2.39.2097151.0.2097151), oid!(2.39.2097151.0.2097151), Some(&[2, 39, 2097151, 0, 2097151])),
    (&oid!(raw 2.39.2097152.0.2097152), oid!(2.39.2097152.0.2097152), Some(&[2, 39, 2097152, 0, 2097152])),
    (&oid!(raw 2.39.268435455.0.268435455), oid!(2.39.268435455.0.268435455), Some(&[2, 39, 268435455, 0, 268435455])),
    (&oid!(raw 2.39.268435456.0.268435456), oid!(2.39.268435456.0.268435456), Some(&[2, 39, 268435456, 0, 268435456])),
    (&oid!(raw 2.39.2147483647.0.2147483647), oid!(2.39.2147483647.0.2147483647), Some(&[2, 39, 2147483647, 0, 2147483647])),
    (&oid!(raw 2.39.2147483648.0.2147483648), oid!(2.39.2147483648.0.2147483648), Some(&[2, 39, 2147483648, 0, 2147483648])),
    (&oid!(raw 2.39.4294967295.0.4294967295), oid!(2.39.4294967295.0.4294967295), Some(&[2, 39, 4294967295, 0, 4294967295])),
    (&oid!(raw 2.39.4294967296.0.4294967296), oid!(2.39.4294967296.0.4294967296), Some(&[2, 39, 4294967296, 0, 4294967296])),
    (&oid!(raw 2.39.4294967424.0.4294967424), oid!(2.39.4294967424.0.4294967424), Some(&[2, 39, 4294967424, 0, 4294967424])),
    (&oid!(raw 2.39.34359738367.0.34359738367), oid!(2.39.34359738367.0.34359738367), Some(&[2, 39, 34359738367, 0, 34359738367])),
    (&oid!(raw 2.39.34359738368.0.34359738368), oid!(2.39.34359738368.0.34359738368), Some(&[2, 39, 34359738368, 0, 34359738368])),
    (&oid!(raw 2.39.4398046511103.0.4398046511103), oid!(2.39.4398046511103.0.4398046511103), Some(&[2, 39, 4398046511103, 0, 4398046511103])),
    (&oid!(raw 2.39.4398046511104.0.4398046511104), oid!(2.39.4398046511104.0.4398046511104), Some(&[2, 39, 4398046511104, 0, 4398046511104])),
    (&oid!(raw 2.39.562949953421312.0.562949953421312), oid!(2.39.562949953421312.0.562949953421312), Some(&[2, 39, 562949953421312, 0, 562949953421312])),
    (&oid!(raw 2.39.72057594037927935.0.72057594037927935), oid!(2.39.72057594037927935.0.72057594037927935), Some(&[2, 39, 72057594037927935, 0, 72057594037927935])),
    (&oid!(raw 2.39.72057594037927936.0.72057594037927936), oid!(2.39.72057594037927936.0.72057594037927936), Some(&[2, 39, 72057594037927936, 0, 72057594037927936])),
    (&oid!(raw 2.39.9223372036854775807.0.9223372036854775807), oid!(2.39.9223372036854775807.0.9223372036854775807), Some(&[2, 39, 9223372036854775807, 0, 9223372036854775807])),
    (&oid!(raw 2.39.9223372036854775808.0.9223372036854775808), oid!(2.39.9223372036854775808.0.9223372036854775808), Some(&[2, 39, 9223372036854775808, 0, 9223372036854775808])),
    (&oid!(raw 2.39.18446744073709551615.0.18446744073709551615), oid!(2.39.18446744073709551615.0.18446744073709551615), Some(&[2, 39, 18446744073709551615, 0, 18446744073709551615])),
    (&oid!(raw 2.39.18446744073709551616.0.18446744073709551616), oid!(2.39.18446744073709551616.0.18446744073709551616), None),
    (&oid!(raw 2.39.18446744073709551617.0.18446744073709551617), oid!(2.39.18446744073709551617.0.18446744073709551617), None),
    (&oid!(raw 2.39.1180591620717411303423.0.1180591620717411303423), oid!(2.39.1180591620717411303423.0.1180591620717411303423), None),
    (&oid!(raw 2.39.1180591620717411303424.0.1180591620717411303424), oid!(2.39.1180591620717411303424.0.1180591620717411303424), None),
    (&oid!(raw 2.39.151115727451828646838272.0.151115727451828646838272), oid!(2.39.151115727451828646838272.0.151115727451828646838272), None),
    (&oid!(raw 2.39.1267650600228229401496703205376.0.1267650600228229401496703205376), oid!(2.39.1267650600228229401496703205376.0.1267650600228229401496703205376), None),
    (&oid!(raw 2.39.664613997892457936451903530140172288.0.664613997892457936451903530140172288), oid!(2.39.664613997892457936451903530140172288.0.664613997892457936451903530140172288), None),
    (&oid!(raw 2.39.85070591730234615865843651857942052864.0.85070591730234615865843651857942052864), oid!(2.39.85070591730234615865843651857942052864.0.85070591730234615865843651857942052864), None),
    (&oid!(raw 2.39.170141183460469231731687303715884105727.0.170141183460469231731687303715884105727), oid!(2.39.170141183460469231731687303715884105727.0.170141183460469231731687303715884105727), None),
    (&oid!(raw 2.39.170141183460469231731687303715884105728.0.170141183460469231731687303715884105728), oid!(2.39.170141183460469231731687303715884105728.0.170141183460469231731687303715884105728), None),
    (&oid!(raw 2.39.340282366920938463463374607431768211455.0.340282366920938463463374607431768211455), oid!(2.39.340282366920938463463374607431768211455.0.340282366920938463463374607431768211455), None),
    (&oid!(raw 0.0.0), oid!(0.0.0), Some(&[0, 0, 0])),
    (&oid!(raw 0.9.2342.19200300.100.1.25), oid!(0.9.2342.19200300.100.1.25), Some(&[0, 9, 2342, 19200300, 100, 1, 25])),
    (&oid!(raw 2.16.840.1.101.3.4.2.1), oid!(2.16.840.1.101.3.4.2.1), Some(&[2, 16, 840, 1, 101, 3, 4, 2, 1])),
    (&oid!(raw 1.3.6.1.4.1.311.60.2.1.3), oid!(1.3.6.1.4.1.311.60.2.1.3), Some(&[1, 3, 6, 1, 4, 1, 311, 60, 2, 1, 3])),
    (&oid!(raw 1.5.3497364383162086857), oid!(1.5.3497364383162086857), Some(&[1, 5, 3497364383162086857])),
    (&oid!(raw 2.22.16384.28.29187408837516131052994186664175931146), oid!(2.22.16384.28.29187408837516131052994186664175931146), None),
    (&oid!(raw 2.31.4398046511104.12628.840.9223372036854775808.158.170141183460469231731687303715884105727.15868.8989333331792929244.104.183.22142.255.72057594037927935), oid!(2.31.4398046511104.12628.840.9223372036854775808.158.170141183460469231731687303715884105727.15868.8989333331792929244.104.183.22142.255.72057594037927935), None),
    (&oid!(raw 1.33.345305.4294967296.9223372036854775807.13445), oid!(1.33.345305.4294967296.9223372036854775807.13445), Some(&[1, 33, 345305, 4294967296, 9223372036854775807, 13445])),
    (&oid!(raw 2.21.8882.17989), oid!(2.21.8882.17989), Some(&[2, 21, 8882, 17989])),
    (&oid!(raw 0.16.18446744073709551616.664613997892457936451903530140172288.84), oid!(0.16.18446744073709551616.664613997892457936451903530140172288.84), None),
    (&oid!(raw 2.9.115.39), oid!(2.9.115.39), Some(&[2, 9, 115, 39])),
    (&oid!(raw 2.26.129.151115727451828646838272.8191.72057594037927935.44.2147483647.9.16383.193.3538.79.185384082.1086894556), oid!(2.26.129.151115727451828646838272.8191.72057594037927935.44.2147483647.9.16383.193.3538.79.185384082.1086894556), None),
    (&oid!(raw 1.10.10757), oid!(1.10.10757), Some(&[1, 10, 10757])),
    (&oid!(raw 1.10.1267650600228229401496703205376.72057594037927935.13422.105.3.2097152.21496472340165559008.2097152.985999.244452112578380117845492866561442993608.43.100.170141183460469231731687303715884105727), oid!(1.10.1267650600228229401496703205376.72057594037927935.13422.105.3.2097152.21496472340165559008.2097152.985999.244452112578380117845492866561442993608.43.100.170141183460469231731687303715884105727), None),
    (&oid!(raw 1.13.1180591620717411303423), oid!(1.13.1180591620717411303423), None),
    (&oid!(raw 1.27.7867.141231059), oid!(1.27.7867.141231059), Some(&[1, 27, 7867, 141231059])),
    (&oid!(raw 2.19.8191.4398046511103.86.9556.11448), oid!(2.19.8191.4398046511103.86.9556.11448), Some(&[2, 19, 8191, 4398046511103, 86, 9556, 11448])),
    (&oid!(raw 1.17.2147483647.4294967295.8827.49.16383.4398046511104.79.35), oid!(1.17.2147483647.4294967295.8827.49.16383.4398046511104.79.35), Some(&[1, 17, 2147483647, 4294967295, 8827, 49, 16383, 4398046511104, 79, 35])),
    (&oid!(raw 2.28.16383), oid!(2.28.16383), Some(&[2, 28, 16383])),
    (&oid!(raw 0.15.4294967295.16384.268435456.166972620.255.12533501075352718178.79.11009986.170141183460469231731687303715884105727.1.18446744073709551616.85070591730234615865843651857942052864.29381.105.18446744073709551615.1370946.127.20.840.12411.19470574471.8710.170141183460469231731687303715884105727.8176303602401041568.268435455.13615.4398046511103.11864.170141183460469231731687303715884105728.56520160), oid!(0.15.4294967295.16384.268435456.166972620.255.12533501075352718178.79.11009986.170141183460469231731687303715884105727.1.18446744073709551616.85070591730234615865843651857942052864.29381.105.18446744073709551615.1370946.127.20.840.12411.19470574471.8710.170141183460469231731687303715884105727.8176303602401041568.268435455.13615.4398046511103.11864.170141183460469231731687303715884105728.56520160), None),
    (&oid!(raw 1.26.2.15483.9223372036854775808.4029.85.26820.2147483648.31703.72057594037927935.11220850137311290973.169.58.2147483648), oid!(1.26.2.15483.9223372036854775808.4029.85.26820.2147483648.31703.72057594037927935.11220850137311290973.169.58.2147483648), Some(&[1, 26, 2, 15483, 9223372036854775808, 4029, 85, 26820, 2147483648, 31703, 72057594037927935, 11220850137311290973, 169, 58, 2147483648])),
    (&oid!(raw 2.24.170141183460469231731687303715884105727.4294967295.15969.36.3150768), oid!(2.24.170141183460469231731687303715884105727.4294967295.15969.36.3150768), None),
    (&oid!(raw 2.32.3891663.4294967296.250.79.170141183460469231731687303715884105728.23757969019.268435455.11529.16163.8880519045474085482.8191.16997642.1180591620717411303424.1267650600228229401496703205376.1815.3478248.2.65.8923.30163478719033883663.256.1180591620717411303424.255.4398046511103.170141183460469231731687303715884105727.16383.18446744073709551615.72.19291584528174828933.127), oid!(2.32.3891663.4294967296.250.79.170141183460469231731687303715884105728.23757969019.268435455.11529.16163.8880519045474085482.8191.16997642.1180591620717411303424.1267650600228229401496703205376.1815.3478248.2.65.8923.30163478719033883663.256.1180591620717411303424.255.4398046511103.170141183460469231731687303715884105727.16383.18446744073709551615.72.19291584528174828933.127), None),
    (&oid!(raw 0.0.15742815659855509031.34359738367.10986.1745499.840.18.127.2574175), oid!(0.0.15742815659855509031.34359738367.10986.1745499.840.18.127.2574175), Some(&[0, 0, 15742815659855509031, 34359738367, 10986, 1745499, 840, 18, 127, 2574175])),
    (&oid!(raw 1.32.562949953421312.3604113370.105.30908275), oid!(1.32.562949953421312.3604113370.105.30908275), Some(&[1, 32, 562949953421312, 3604113370, 105, 30908275])),
    (&oid!(raw 2.27.840.24616365466497921568.664613997892457936451903530140172288.128.15056.129.1440182548.3254428), oid!(2.27.840.24616365466497921568.664613997892457936451903530140172288.128.15056.129.1440182548.3254428), None),
    (&oid!(raw 0.9.579447827483955496.4294967424), oid!(0.9.579447827483955496.4294967424), Some(&[0, 9, 579447827483955496, 4294967424])),
    (&oid!(raw 0.10.118.1514.25876.2147483648.30279183370110227856), oid!(0.10.118.1514.25876.2147483648.30279183370110227856), None),
    (&oid!(raw 0.11.2.27), oid!(0.11.2.27), Some(&[0, 11, 2, 27])),
    (&oid!(raw 2.21.4294967295.135.22122.18446744073709551615.23758.208.2097152.112.11498.340282366920938463463374607431768211455.35.80.18446744073709551616), oid!(2.21.4294967295.135.22122.18446744073709551615.23758.208.2097152.112.11498.340282366920938463463374607431768211455.35.80.18446744073709551616), None),
    (&oid!(raw 2.14.154.18446744073709551617.8718555501971571846.840.72057594037927935.4398046511103.11126.150), oid!(2.14.154.18446744073709551617.8718555501971571846.840.72057594037927935.4398046511103.11126.150), None),
    (&oid!(raw 1.3.8.127.255.4294967296.90.79.4828.210825948797464011859283245631024909004.9223372036854775807.16235.1619575.85070591730234615865843651857942052864.34359738367), oid!(1.3.8.127.255.4294967296.90.79.4828.210825948797464011859283245631024909004.9223372036854775807.16235.1619575.85070591730234615865843651857942052864.34359738367), None),
    (&oid!(raw 2.25.34359738368), oid!(2.25.34359738368), Some(&[2, 25, 34359738368])),
    (&oid!(raw 0.23.72057594037927935.1180591620717411303424.664613997892457936451903530140172288.16384.9060103101.103.7942.337387802100815541049286680876418413778.25886.80.2147483647.4294967295.170141183460469231731687303715884105727.68.840.0.106.255.50.72057594037927935.40.0.268435456.170141183460469231731687303715884105727.1080960.9442.113.16384.340282366920938463463374607431768211455.0), oid!(0.23.72057594037927935.1180591620717411303424.664613997892457936451903530140172288.16384.9060103101.103.7942.337387802100815541049286680876418413778.25886.80.2147483647.4294967295.170141183460469231731687303715884105727.68.840.0.106.255.50.72057594037927935.40.0.268435456.170141183460469231731687303715884105727.1080960.9442.113.16384.340282366920938463463374607431768211455.0), None),
    (&oid!(raw 0.3.47.127.1267650600228229401496703205376.8135), oid!(0.3.47.127.1267650600228229401496703205376.8135), None),
    (&oid!(raw 1.32.72057594037927936), oid!(1.32.72057594037927936), Some(&[1, 32, 72057594037927936])),
    (&oid!(raw 2.10.27836), oid!(2.10.27836), Some(&[2, 10, 27836])),
    (&oid!(raw 0.36.2097151.696149.130791183.26.10433.7250606792132572130.4294967295.1180591620717411303423.39.2097151.22641.148.4398046511104), oid!(0.36.2097151.696149.130791183.26.10433.7250606792132572130.4294967295.1180591620717411303423.39.2097151.22641.148.4398046511104), None),
    (&oid!(raw 0.14.69.4294967424.1006949.49), oid!(0.14.69.4294967424.1006949.49), Some(&[0, 14, 69, 4294967424, 1006949, 49])),
    (&oid!(raw 0.33.2097152.72057594037927935.90.1522464759718995474), oid!(0.33.2097152.72057594037927935.90.1522464759718995474), Some(&[0, 33, 2097152, 72057594037927935, 90, 1522464759718995474])),
    (&oid!(raw 0.21.340282366920938463463374607431768211455.219392282.5191), oid!(0.21.340282366920938463463374607431768211455.219392282.5191), None),
    (&oid!(raw 2.25.256), oid!(2.25.256), Some(&[2, 25, 256])),
    (&oid!(raw 2.27.12503525564.34359738367.9223372036854775808.281185266099682463886046729987591600641), oid!(2.27.12503525564.34359738367.9223372036854775808.281185266099682463886046729987591600641), None),
    (&oid!(raw 2.28.79.10546.20030371785048832037.2097151.151115727451828646838272.14327.1.9563.861576347.18446744073709551615.170141183460469231731687303715884105728.268435456.8191.72057594037927936.256.43.2097151.1043133.2110.16930074766.1267650600228229401496703205376.1743.29783.255.10551063820393437019.28359490317.151115727451828646838272.14463822183260200883.36654865070060370327.2147483648), oid!(2.28.79.10546.20030371785048832037.2097151.151115727451828646838272.14327.1.9563.861576347.18446744073709551615.170141183460469231731687303715884105728.268435456.8191.72057594037927936.256.43.2097151.1043133.2110.16930074766.1267650600228229401496703205376.1743.29783.255.10551063820393437019.28359490317.151115727451828646838272.14463822183260200883.36654865070060370327.2147483648), None),
    (&oid!(raw 0.30.2509643.0), oid!(0.30.2509643.0), Some(&[0, 30, 2509643, 0])),
    (&oid!(raw 1.39.4294967296.34359738368.10231), oid!(1.39.4294967296.34359738368.10231), Some(&[1, 39, 4294967296, 34359738368, 10231])),
    (&oid!(raw 2.36.11477.177.165.6306.127.664613997892457936451903530140172288.176.49), oid!(2.36.11477.177.165.6306.127.664613997892457936451903530140172288.176.49), None),
    (&oid!(raw 2.26.664613997892457936451903530140172288.34359738367), oid!(2.26.664613997892457936451903530140172288.34359738367), None),
    (&oid!(raw 1.5.311369.1051832308320291192.10633474410.4398046511103), oid!(1.5.311369.1051832308320291192.10633474410.4398046511103), Some(&[1, 5, 311369, 1051832308320291192, 10633474410, 4398046511103])),
    (&oid!(raw 0.26.111.1180591620717411303424.8183.47.4294967295.151115727451828646838272.268435455.1589362.16384.340282366920938463463374607431768211455.3897751.21185831064.120.18408870442117646751.202.1267650600228229401496703205376.29.303.41.1180591620717411303423.562949953421312.222639583855579433546714788533724764665.4398046511104.9683.43.9223372036854775808.1180591620717411303423.72057594037927935.48.79301679525908070003346859023908358634), oid!(0.26.111.1180591620717411303424.8183.47.4294967295.151115727451828646838272.268435455.1589362.16384.340282366920938463463374607431768211455.3897751.21185831064.120.18408870442117646751.202.1267650600228229401496703205376.29.303.41.1180591620717411303423.562949953421312.222639583855579433546714788533724764665.4398046511104.9683.43.9223372036854775808.1180591620717411303423.72057594037927935.48.79301679525908070003346859023908358634), None),
    (&oid!(raw 0.28.4351.12), oid!(0.28.4351.12), Some(&[0, 28, 4351, 12])),
    (&oid!(raw 0.28.6115.12135083539.151115727451828646838272.170141183460469231731687303715884105728.35054362756399342542), oid!(0.28.6115.12135083539.151115727451828646838272.170141183460469231731687303715884105728.35054362756399342542), None),
    (&oid!(raw 0.0.106.72057594037927935.266758749727194010731837046024008217256.664613997892457936451903530140172288.2886.1.14196.4398046511103.5684.170141183460469231731687303715884105727.36.21027497547.6), oid!(0.0.106.72057594037927935.266758749727194010731837046024008217256.664613997892457936451903530140172288.2886.1.14196.4398046511103.5684.170141183460469231731687303715884105727.36.21027497547.6), None),
    (&oid!(raw 2.4.151115727451828646838272.20059087355.9018.1476), oid!(2.4.151115727451828646838272.20059087355.9018.1476), None),
    (&oid!(raw 0.14.2097152.2208922920358550109), oid!(0.14.2097152.2208922920358550109), Some(&[0, 14, 2097152, 2208922920358550109])),
    (&oid!(raw 0.20.111.2147483648.14420183335962760092.26352124542.2827.127.111.110), oid!(0.20.111.2147483648.14420183335962760092.26352124542.2827.127.111.110), Some(&[0, 20, 111, 2147483648, 14420183335962760092, 26352124542, 2827, 127, 111, 110])),
    (&oid!(raw 2.17.8702), oid!(2.17.8702), Some(&[2, 17, 8702])),
    (&oid!(raw 1.21.27.113.27886668277.2), oid!(1.21.27.113.27886668277.2), Some(&[1, 21, 27, 113, 27886668277, 2])),
    (&oid!(raw 2.38.128.1.16385.12114.129255534385225570298589402936002273089.5043.2233.16383.268435455.10429.85070591730234615865843651857942052864.233.92774397867616086038417988310796245589.8471.177.170141183460469231731687303715884105728.43.28571.129.13845.31789354937314485756.72057594037927935.10.170141183460469231731687303715884105727.2.30707.129.14413.562949953421312.175), oid!(2.38.128.1.16385.12114.129255534385225570298589402936002273089.5043.2233.16383.268435455.10429.85070591730234615865843651857942052864.233.92774397867616086038417988310796245589.8471.177.170141183460469231731687303715884105728.43.28571.129.13845.31789354937314485756.72057594037927935.10.170141183460469231731687303715884105727.2.30707.129.14413.562949953421312.175), None),
    (&oid!(raw 2.3.80.58.170141183460469231731687303715884105727), oid!(2.3.80.58.170141183460469231731687303715884105727), None),
    (&oid!(raw 0.37.7624898119619178430.8694873150223941248.14277), oid!(0.37.7624898119619178430.8694873150223941248.14277), Some(&[0, 37, 7624898119619178430, 8694873150223941248, 14277])),
    (&oid!(raw 2.5.80.196), oid!(2.5.80.196), Some(&[2, 5, 80, 196])),
    (&oid!(raw 2.10.16791807084474548373.46.129.67.61.80.43.21304), oid!(2.10.16791807084474548373.46.129.67.61.80.43.21304), Some(&[2, 10, 16791807084474548373, 46, 129, 67, 61, 80, 43, 21304])),
    (&oid!(raw 1.39.5960.34.28086066115.268435455.4294967296), oid!(1.39.5960.34.28086066115.268435455.4294967296), Some(&[1, 39, 5960, 34, 28086066115, 268435455, 4294967296])),
    (&oid!(raw 0.13.128.136.1373535469120096128.2097151), oid!(0.13.128.136.1373535469120096128.2097151), Some(&[0, 13, 128, 136, 1373535469120096128, 2097151])),
    (&oid!(raw 1.5.0.6316.1719954.18446744073709551617.118.177418096.4294967296.127763006), oid!(1.5.0.6316.1719954.18446744073709551617.118.177418096.4294967296.127763006), None),
    (&oid!(raw 0.29.1180591620717411303423), oid!(0.29.1180591620717411303423), None),
    (&oid!(raw 1.16.16249.2147483648.4664), oid!(1.16.16249.2147483648.4664), Some(&[1, 16, 16249, 2147483648, 4664])),
    (&oid!(raw 0.39.0.150), oid!(0.39.0.150), Some(&[0, 39, 0, 150])),
    (&oid!(raw 2.10.13306.3938.8192.299564.265897.5037016078646538646.50440517757262747902456912434214256558.1180591620717411303423.8191.34359738367.340282366920938463463374607431768211455.0.256.151115727451828646838272.88504.1.206.203.1977514321262589788.128.340282366920938463463374607431768211455.8086.315104547821717683459081541155150046451.9223372036854775807.160833421442691197145727513534194021483.164787031242024077434559615632447039546.8744.2097151.17195536619252488.12493), oid!(2.10.13306.3938.8192.299564.265897.5037016078646538646.50440517757262747902456912434214256558.1180591620717411303423.8191.34359738367.340282366920938463463374607431768211455.0.256.151115727451828646838272.88504.1.206.203.1977514321262589788.128.340282366920938463463374607431768211455.8086.315104547821717683459081541155150046451.9223372036854775807.160833421442691197145727513534194021483.164787031242024077434559615632447039546.8744.2097151.17195536619252488.12493), None),
    (&oid!(raw 1.27.16383.34359738367.151115727451828646838272.39.0.1967337.3102461499582625251.8959.1267650600228229401496703205376.636.562949953421312.4621197847.1), oid!(1.27.16383.34359738367.151115727451828646838272.39.0.1967337.3102461499582625251.8959.1267650600228229401496703205376.636.562949953421312.4621197847.1), None),
    (&oid!(raw 0.4.516), oid!(0.4.516), Some(&[0, 4, 516])),
    (&oid!(raw 2.32.67.102.5156492157692656733.465773.79.231522122.12753.18866.33604838880681404428.34.840.262771077855940315555871235669181621245.1895050.127.47.151115727451828646838272.2147483648.2097151.252734232466714294036585478942950793778.22740692430324288611.22672.268435455.6312.127.14834.80.10909.30300.1222884.12368), oid!(2.32.67.102.5156492157692656733.465773.79.231522122.12753.18866.33604838880681404428.34.840.262771077855940315555871235669181621245.1895050.127.47.151115727451828646838272.2147483648.2097151.252734232466714294036585478942950793778.22740692430324288611.22672.268435455.6312.127.14834.80.10909.30300.1222884.12368), None),
    (&oid!(raw 2.24.19424.9982.16702.15050.1062.56.18446744073709551617.128.102.1267650600228229401496703205376.20.1375513.10717), oid!(2.24.19424.9982.16702.15050.1062.56.18446744073709551617.128.102.1267650600228229401496703205376.20.1375513.10717), None),
    (&oid!(raw 2.8.10893770569411585713.1267650600228229401496703205376.4294967296), oid!(2.8.10893770569411585713.1267650600228229401496703205376.4294967296), None),
    (&oid!(raw 0.0.215), oid!(0.0.215), Some(&[0, 0, 215])),
    (&oid!(raw 1.34.54.73952217924352644815932909060575568233.268435456.18094.128), oid!(1.34.54.73952217924352644815932909060575568233.268435456.18094.128), None),
    (&oid!(raw 2.6.72057594037927936.42), oid!(2.6.72057594037927936.42), Some(&[2, 6, 72057594037927936, 42])),
    (&oid!(raw 0.16.196.4294967296.13896.340282366920938463463374607431768211455.28217.13.170141183460469231731687303715884105727.804.55.4051.0.266596935.35043553378711454104.2415878.5583642393067685052.72057594037927936.170141183460469231731687303715884105727.9223372036854775807.75.91.2097152.268435456.4398046511103.32190.6335.1960524.168.10133722098.7656.129), oid!(0.16.196.4294967296.13896.340282366920938463463374607431768211455.28217.13.170141183460469231731687303715884105727.804.55.4051.0.266596935.35043553378711454104.2415878.5583642393067685052.72057594037927936.170141183460469231731687303715884105727.9223372036854775807.75.91.2097152.268435456.4398046511103.32190.6335.1960524.168.10133722098.7656.129), None),
    (&oid!(raw 2.13.128.7483.85.4398046511104.4398046511104.3691422310105167056.1180591620717411303424.255), oid!(2.13.128.7483.85.4398046511104.4398046511104.3691422310105167056.1180591620717411303424.255), None),
    (&oid!(raw 1.18.170141183460469231731687303715884105728.26209975017428365082878443588207779232.16383.79.78.0.9.14), oid!(1.18.170141183460469231731687303715884105728.26209975017428365082878443588207779232.16383.79.78.0.9.14), None),
    (&oid!(raw 1.22.1939982.26.9223372036854775808.9912), oid!(1.22.1939982.26.9223372036854775808.9912), Some(&[1, 22, 1939982, 26, 9223372036854775808, 9912])),
    (&oid!(raw 0.39.255.3760.25019.9514.16710), oid!(0.39.255.3760.25019.9514.16710), Some(&[0, 39, 255, 3760, 25019, 9514, 16710])),
    (&oid!(raw 2.3.215.3851712510197230588.268435456.16385.39.13804897675443633237.48.12497357508477368315.84.244700116506431430333478934698600886048.840.1539843890246285739.16384.4783373373148787107.17.255.4294967424.44.16385.79884704.67397186527663645707525912907281805614.4398046511104.1122743.17822114948935701158.76.2321322395635686717.3012.18446744073709551615.128.29), oid!(2.3.215.3851712510197230588.268435456.16385.39.13804897675443633237.48.12497357508477368315.84.244700116506431430333478934698600886048.840.1539843890246285739.16384.4783373373148787107.17.255.4294967424.44.16385.79884704.67397186527663645707525912907281805614.4398046511104.1122743.17822114948935701158.76.2321322395635686717.3012.18446744073709551615.128.29), None),
    (&oid!(raw 0.30.14774.278623611910230389059543218428705932327.77.6957.21634.143.544082.81), oid!(0.30.14774.278623611910230389059543218428705932327.77.6957.21634.143.544082.81), None),
    (&oid!(raw 0.30.5280.2.19843480707815127917893502404502170339), oid!(0.30.5280.2.19843480707815127917893502404502170339), None),
    (&oid!(raw 0.26.6285815871236944111.227.18446744073709551615.129.102.152.12064.18446744073709551615), oid!(0.26.6285815871236944111.227.18446744073709551615.129.102.152.12064.18446744073709551615), Some(&[0, 26, 6285815871236944111, 227, 18446744073709551615, 129, 102, 152, 12064, 18446744073709551615])),
    (&oid!(raw 0.15.18807.49542990.14), oid!(0.15.18807.49542990.14), Some(&[0, 15, 18807, 49542990, 14])),
    (&oid!(raw 1.38.27470.170604626.221.72057594037927936), oid!(1.38.27470.170604626.221.72057594037927936), Some(&[1, 38, 27470, 170604626, 221, 72057594037927936])),
    (&oid!(raw 2.10.8192), oid!(2.10.8192), Some(&[2, 10, 8192])),
    (&oid!(raw 1.3.77.7924), oid!(1.3.77.7924), Some(&[1, 3, 77, 7924])),
    (&oid!(raw 1.15.28474), oid!(1.15.28474), Some(&[1, 15, 28474])),
    (&oid!(raw 2.29.14144.1743891), oid!(2.29.14144.1743891), Some(&[2, 29, 14144, 1743891])),
    (&oid!(raw 1.1.225866012876773849725219600082515133442.1180591620717411303423.4398046511104.8125488108979317285.3044.177.11929.3821), oid!(1.1.225866012876773849725219600082515133442.1180591620717411303423.4398046511104.8125488108979317285.3044.177.11929.3821), None),
    (&oid!(raw 0.4.210.3.1267650600228229401496703205376.9223372036854775808), oid!(0.4.210.3.1267650600228229401496703205376.9223372036854775808), None),
    (&oid!(raw 2.29.268435455.8372744519926138306.30413150725969988313.104), oid!(2.29.268435455.8372744519926138306.30413150725969988313.104), None),
    (&oid!(raw 1.21.264867552.80.36.222.1446927906362767970.19497156675466296147.21338.2.186.9509.1380362.18446744073709551615.129), oid!(1.21.264867552.80.36.222.1446927906362767970.19497156675466296147.21338.2.186.9509.1380362.18446744073709551615.129), None),
    (&oid!(raw 2.24.4294967424.9223372036854775807.103.5266.4398046511103.8761.4294967296.945866), oid!(2.24.4294967424.9223372036854775807.103.5266.4398046511103.8761.4294967296.945866), Some(&[2, 24, 4294967424, 9223372036854775807, 103, 5266, 4398046511103, 8761, 4294967296, 945866])),
    (&oid!(raw 1.35.9223372036854775808.89.19735), oid!(1.35.9223372036854775808.89.19735), Some(&[1, 35, 9223372036854775808, 89, 19735])),
    (&oid!(raw 2.23.9.139.72057594037927936.8402.9560.6492.14409.664613997892457936451903530140172288.30152065.94.9223372036854775808.338783.1267650600228229401496703205376), oid!(2.23.9.139.72057594037927936.8402.9560.6492.14409.664613997892457936451903530140172288.30152065.94.9223372036854775808.338783.1267650600228229401496703205376), None),
    (&oid!(raw 2.8.9072.12168.18124534831106709753.18337228821467550307), oid!(2.8.9072.12168.18124534831106709753.18337228821467550307), Some(&[2, 8, 9072, 12168, 18124534831106709753, 18337228821467550307])),
    (&oid!(raw 1.16.2.167.20245.255.39.93.8546.489034.664613997892457936451903530140172288.36.359.160914596423185585041477319206507766228.729995), oid!(1.16.2.167.20245.255.39.93.8546.489034.664613997892457936451903530140172288.36.359.160914596423185585041477319206507766228.729995), None),
    (&oid!(raw 0.31.128.84.2439.1180591620717411303424.9140), oid!(0.31.128.84.2439.1180591620717411303424.9140), None),
    (&oid!(raw 2.19.129.12449403600.79.129), oid!(2.19.129.12449403600.79.129), Some(&[2, 19, 129, 12449403600, 79, 129])),
    (&oid!(raw 0.16.1180591620717411303423.170033998006452949022676942117461222666.1267650600228229401496703205376.10160.1971.1180591620717411303423.664613997892457936451903530140172288.1180591620717411303424.5971.340282366920938463463374607431768211455.18446744073709551617.1811040.1333), oid!(0.16.1180591620717411303423.170033998006452949022676942117461222666.1267650600228229401496703205376.10160.1971.1180591620717411303423.664613997892457936451903530140172288.1180591620717411303424.5971.340282366920938463463374607431768211455.18446744073709551617.1811040.1333), None),
    (&oid!(raw 1.20.2097151.1836601.4398046511104.63.61.4735.128.54.840.9223372036854775808.11971.109.4398046511103), oid!(1.20.2097151.1836601.4398046511104.63.61.4735.128.54.840.9223372036854775808.11971.109.4398046511103), Some(&[1, 20, 2097151, 1836601, 4398046511104, 63, 61, 4735, 128, 54, 840, 9223372036854775808, 11971, 109, 4398046511103])),
    (&oid!(raw 0.4.0.23158.40.18446744073709551617.2097152.9385.139914661483242750230607126262759039238.3.2.34359738368.46708080.14372800498268471940.4181110), oid!(0.4.0.23158.40.18446744073709551617.2097152.9385.139914661483242750230607126262759039238.3.2.34359738368.46708080.14372800498268471940.4181110), None),
    (&oid!(raw 1.7.8112.281345578464859724127505894787386700800.4294967424.1526.13369), oid!(1.7.8112.281345578464859724127505894787386700800.4294967424.1526.13369), None),
    (&oid!(raw 0.9.1770.21621.15313.232.16383.36554579011299674344242648832700043867.268435455.268435456.26.215.80.10649165550.9223372036854775808), oid!(0.9.1770.21621.15313.232.16383.36554579011299674344242648832700043867.268435455.268435456.26.215.80.10649165550.9223372036854775808), None),
    (&oid!(raw 1.7.13464.129.2097152.34359738367), oid!(1.7.13464.129.2097152.34359738367), Some(&[1, 7, 13464, 129, 2097152, 34359738367])),
    (&oid!(raw 0.6.19322.10044068316108135482.129.167.93.4398046511103.127.30725926252122454918.24.340282366920938463463374607431768211455.83.123.31621017928), oid!(0.6.19322.10044068316108135482.129.167.93.4398046511103.127.30725926252122454918.24.340282366920938463463374607431768211455.83.123.31621017928), None),
    (&oid!(raw 1.7.151115727451828646838272), oid!(1.7.151115727451828646838272), None),
    (&oid!(raw 2.39.4294967424.215093), oid!(2.39.4294967424.215093), Some(&[2, 39, 4294967424, 215093])),
    (&oid!(raw 2.37.18446744073709551615.874092.18446744073709551616.33897233216296118276.4398046511103.246.11617653176118123112.4398046511104), oid!(2.37.18446744073709551615.874092.18446744073709551616.33897233216296118276.4398046511103.246.11617653176118123112.4398046511104), None),
    (&oid!(raw 0.14.840), oid!(0.14.840), Some(&[0, 14, 840])),
    (&oid!(raw 2.35.113549.18446744073709551616.27872), oid!(2.35.113549.18446744073709551616.27872), None),
    (&oid!(raw 1.6.13224.16385.106.562949953421312), oid!(1.6.13224.16385.106.562949953421312), Some(&[1, 6, 13224, 16385, 106, 562949953421312])),
    (&oid!(raw 1.7.1267650600228229401496703205376.4294967424), oid!(1.7.1267650600228229401496703205376.4294967424), None),
    (&oid!(raw 0.1.4398046511103.148083609480032378194302573444898827818.170141183460469231731687303715884105728.653310.29733), oid!(0.1.4398046511103.148083609480032378194302573444898827818.170141183460469231731687303715884105728.653310.29733), None),
    (&oid!(raw 2.15.935527), oid!(2.15.935527), Some(&[2, 15, 935527])),
    (&oid!(raw 2.15.1051043.151115727451828646838272.2147483648), oid!(2.15.1051043.151115727451828646838272.2147483648), None),
    (&oid!(raw 0.15.1290238.101.29882987321139851246), oid!(0.15.1290238.101.29882987321139851246), None),
    (&oid!(raw 0.7.0.18446744073709551617.6664539519063822168.15947.13.47.127.117.80.3123.91.16385.9223372036854775808), oid!(0.7.0.18446744073709551617.6664539519063822168.15947.13.47.127.117.80.3123.91.16385.9223372036854775808), None),
    (&oid!(raw 0.12.664613997892457936451903530140172288.8170.127), oid!(0.12.664613997892457936451903530140172288.8170.127), None),
];
pub const RELATIVE: &[(Oid<'static>, Option<&[u64]>)] = &[
    (oid!(rel 0), Some(&[0])),
    (oid!(rel 1), Some(&[1])),
    (oid!(rel 2), Some(&[2])),
    (oid!(rel 39), Some(&[39])),
    (oid!(rel 40), Some(&[40])),
    (oid!(rel 47), Some(&[47])),
    (oid!(rel 79), Some(&[79])),
    (oid!(rel 80), Some(&[80])),
    (oid!(rel 127), Some(&[127])),
    (oid!(rel 128), Some(&[128])),
    (oid!(rel 129), Some(&[129])),
    (oid!(rel 255), Some(&[255])),
    (oid!(rel 256), Some(&[256])),
    (oid!(rel 840), Some(&[840])),
    (oid!(rel 8191), Some(&[8191])),
    (oid!(rel 8192), Some(&[8192])),
    (oid!(rel 16383), Some(&[16383])),
    (oid!(rel 16384), Some(&[16384])),
    (oid!(rel 16385), Some(&[16385])),
    (oid!(rel 113549), Some(&[113549])),
    (oid!(rel 2097151), Some(&[2097151])),
    (oid!(rel 2097152), Some(&[2097152])),
    (oid!(rel 268435455), Some(&[268435455])),
    (oid!(rel 268435456), Some(&[268435456])),
    (oid!(rel 2147483647), Some(&[2147483647])),
    (oid!(rel 2147483648), Some(&[2147483648])),
    (oid!(rel 4294967295), Some(&[4294967295])),
    (oid!(rel 4294967296), Some(&[4294967296])),
    (oid!(rel 4294967424), Some(&[4294967424])),
    (oid!(rel 34359738367), Some(&[34359738367])),
    (oid!(rel 34359738368), Some(&[34359738368])),
    (oid!(rel 4398046511103), Some(&[4398046511103])),
    (oid!(rel 4398046511104), Some(&[4398046511104])),
    (oid!(rel 562949953421312), Some(&[562949953421312])),
    (oid!(rel 72057594037927935), Some(&[72057594037927935])),
    (oid!(rel 72057594037927936), Some(&[72057594037927936])),
    (oid!(rel 9223372036854775807), Some(&[9223372036854775807])),
    (oid!(rel 9223372036854775808), Some(&[9223372036854775808])),
    (oid!(rel 18446744073709551615), Some(&[18446744073709551615])),
    (oid!(rel 18446744073709551616), None),
    (oid!(rel 18446744073709551617), None),
    (oid!(rel 1180591620717411303423), None),
    (oid!(rel 1180591620717411303424), None),
    (oid!(rel 151115727451828646838272), None),
    (oid!(rel 1267650600228229401496703205376), None),
    (oid!(rel 664613997892457936451903530140172288), None),
    (oid!(rel 85070591730234615865843651857942052864), None),
    (oid!(rel 170141183460469231731687303715884105727), None),
    (oid!(rel 170141183460469231731687303715884105728), None),
    (oid!(rel 340282366920938463463374607431768211455), None),
    (oid!(rel 0.0), Some(&[0, 0])),
    (oid!(rel 1.0), Some(&[1, 0])),
    (oid!(rel 2.0), Some(&[2, 0])),
    (oid!(rel 39.0), Some(&[39, 0])),
    (oid!(rel 40.0), Some(&[40, 0])),
    (oid!(rel 47.0), Some(&[47, 0])),
    (oid!(rel 79.0), Some(&[79, 0])),
    (oid!(rel 80.0), Some(&[80, 0])),
    (oid!(rel 127.0), Some(&[127, 0])),
    (oid!(rel 128.0), Some(&[128, 0])),
    (oid!(rel 129.0), Some(&[129, 0])),
    (oid!(rel 255.0), Some(&[255, 0])),
    (oid!(rel 256.0), Some(&[256, 0])),
    (oid!(rel 840.0), Some(&[840, 0])),
    (oid!(rel 8191.0), Some(&[8191, 0])),
    (oid!(rel 8192.0), Some(&[8192, 0])),
    (oid!(rel 16383.0), Some(&[16383, 0])),
    (oid!(rel 16384.0), Some(&[16384, 0])),
    (oid!(rel 16385.0), Some(&[16385, 0])),
    (oid!(rel 113549.0), Some(&[113549, 0])),
    (oid!(rel 2097151.0), Some(&[2097151, 0])),
    (oid!(rel 2097152.0), Some(&[2097152, 0])),
    (oid!(rel 268435455.0), Some(&[268435455, 0])),
    (oid!(rel 268435456.0), Some(&[268435456, 0])),
    (oid!(rel 2147483647.0), Some(&[2147483647, 0])),
    (oid!(rel 2147483648.0), Some(&[2147483648, 0])),
    (oid!(rel 4294967295.0), Some(&[4294967295, 0])),
    (oid!(rel 4294967296.0), Some(&[4294967296, 0])),
    (oid!(rel 4294967424.0), Some(&[4294967424, 0])),
    (oid!(rel 34359738367.0), Some(&[34359738367, 0])),
    (oid!(rel 34359738368.0), Some(&[34359738368, 0])),
    (oid!(rel 4398046511103.0), Some(&[4398046511103, 0])),
    (oid!(rel 4398046511104.0), Some(&[4398046511104, 0])),
    (oid!(rel 562949953421312.0), Some(&[562949953421312, 0])),
    (oid!(rel 72057594037927935.0), Some(&[72057594037927935, 0])),
    (oid!(rel 72057594037927936.0), Some(&[72057594037927936, 0])),
    (oid!(rel 9223372036854775807.0), Some(&[9223372036854775807, 0])),
    (oid!(rel 9223372036854775808.0), Some(&[9223372036854775808, 0])),
    (oid!(rel 18446744073709551615.0), Some(&[18446744073709551615, 0])),
    (oid!(rel 18446744073709551616.0), None),
    (oid!(rel 18446744073709551617.0), None),
    (oid!(rel 1180591620717411303423.0), None),
    (oid!(rel 1180591620717411303424.0), None),
    (oid!(rel 151115727451828646838272.0), None),
    (oid!(rel 1267650600228229401496703205376.0), None),
    (oid!(rel 664613997892457936451903530140172288.0), None),
    (oid!(rel 85070591730234615865843651857942052864.0), None),
    (oid!(rel 170141183460469231731687303715884105727.0), None),
    (oid!(rel 170141183460469231731687303715884105728.0), None),
    (oid!(rel 340282366920938463463374607431768211455.0), None),
    (oid!(rel 0.0.1), Some(&[0, 0, 1])),
    (oid!(rel 0.1.1), Some(&[0, 1, 1])),
    (oid!(rel 0.2.1), Some(&[0, 2, 1])),
    (oid!(rel 0.39.1), Some(&[0, 39, 1])),
    (oid!(rel 0.40.1), Some(&[0, 40, 1])),
    (oid!(rel 0.47.1), Some(&[0, 47, 1])),
    (oid!(rel 0.79.1), Some(&[0, 79, 1])),
    (oid!(rel 0.80.1), Some(&[0, 80, 1])),
    (oid!(rel 0.127.1), Some(&[0, 127, 1])),
    (oid!(rel 0.128.1), Some(&[0, 128, 1])),
    (oid!(rel 0.129.1), Some(&[0, 129, 1])),
    (oid!(rel 0.255.1), Some(&[0, 255, 1])),
    (oid!(rel 0.256.1), Some(&[0, 256, 1])),
    (oid!(rel 0.840.1), Some(&[0, 840, 1])),
    (oid!(rel 0.8191.1), Some(&[0, 8191, 1])),
    (oid!(rel 0.8192.1), Some(&[0, 8192, 1])),
    (oid!(rel 0.16383.1), Some(&[0, 16383, 1])),
    (oid!(rel 0.16384.1), Some(&[0, 16384, 1])),
    (oid!(rel 0.16385.1), Some(&[0, 16385, 1])),
    (oid!(rel 0.113549.1), Some(&[0, 113549, 1])),
    (oid!(rel 0.2097151.1), Some(&[0, 2097151, 1])),
    (oid!(rel 0.2097152.1), Some(&[0, 2097152, 1])),
    (oid!(rel 0.268435455.1), Some(&[0, 268435455, 1])),
    (oid!(rel 0.268435456.1), Some(&[0, 268435456, 1])),
    (oid!(rel 0.2147483647.1), Some(&[0, 2147483647, 1])),
    (oid!(rel 0.2147483648.1), Some(&[0, 2147483648, 1])),
    (oid!(rel 0.4294967295.1), Some(&[0, 4294967295, 1])),
    (oid!(rel 0.4294967296.1), Some(&[0, 4294967296, 1])),
    (oid!(rel 0.4294967424.1), Some(&[0, 4294967424, 1])),
    (oid!(rel 0.34359738367.1), Some(&[0, 34359738367, 1])),
    (oid!(rel 0.34359738368.1), Some(&[0, 34359738368, 1])),
    (oid!(rel 0.4398046511103.1), Some(&[0, 4398046511103, 1])),
    (oid!(rel 0.4398046511104.1), Some(&[0, 4398046511104, 1])),
    (oid!(rel 0.562949953421312.1), Some(&[0, 562949953421312, 1])),
    (oid!(rel 0.72057594037927935.1), Some(&[0, 72057594037927935, 1])),
    (oid!(rel 0.72057594037927936.1), Some(&[0, 72057594037927936, 1])),
    (oid!(rel 0.9223372036854775807.1), Some(&[0, 9223372036854775807, 1])),
    (oid!(rel 0.9223372036854775808.1), Some(&[0, 9223372036854775808, 1])),
    (oid!(rel 0.18446744073709551615.1), Some(&[0, 18446744073709551615, 1])),
    (oid!(rel 0.18446744073709551616.1), None),
    (oid!(rel 0.18446744073709551617.1), None),
    (oid!(rel 0.1180591620717411303423.1), None),
    (oid!(rel 0.1180591620717411303424.1), None),
    (oid!(rel 0.151115727451828646838272.1), None),
    (oid!(rel 0.1267650600228229401496703205376.1), None),
    (oid!(rel 0.664613997892457936451903530140172288.1), None),
    (oid!(rel 0.85070591730234615865843651857942052864.1), None),
    (oid!(rel 0.170141183460469231731687303715884105727.1), None),
    (oid!(rel 0.170141183460469231731687303715884105728.1), None),
    (oid!(rel 0.340282366920938463463374607431768211455.1), None),
    (oid!(rel 40.40), Some(&[40, 40])),
    (oid!(rel 3.3.3), Some(&[3, 3, 3])),
    (oid!(rel 0.0.0.0), Some(&[0, 0, 0, 0])),
    (oid!(rel 9223372036854775808.2097151), Some(&[9223372036854775808, 2097151])),
    (oid!(rel 45700049.575143), Some(&[45700049, 575143])),
    (oid!(rel 79.19788.72057594037927936.40.2.147.24743.16384), Some(&[79, 19788, 72057594037927936, 40, 2, 147, 24743, 16384])),
    (oid!(rel 15112.63.3723023692525194635.1180591620717411303424.4294967296.664613997892457936451903530140172288.80.79.66.8.47.8191.34359738368.4294967424.224425285.1267650600228229401496703205376.62.2.651910706816097805.268435455.64.8589.7365.9223372036854775808.85070591730234615865843651857942052864.4294967424.13678.31225.80.37), None),
    (oid!(rel 234106206.2.28832472114.5203.106.8192.8949.4398046511104.268435455.1.128.180.199), Some(&[234106206, 2, 28832472114, 5203, 106, 8192, 8949, 4398046511104, 268435455, 1, 128, 180, 199])),
    (oid!(rel 255.8192.13376.3352.69.98.8817.840.4294967424.13701.12136.2643.34359738367.170141183460469231731687303715884105728.4294967296.107.57.3793067.5711550070828357629.10156.1.18446744073709551616.29006.18446744073709551616.2097152.2230.1180591620717411303423.279306213276038469991509056655474207901.23729.634737), None),
    (oid!(rel 170141183460469231731687303715884105728.20522076219.840), None),
    (oid!(rel 16384.10177.2097151.233.15174), Some(&[16384, 10177, 2097151, 233, 15174])),
    (oid!(rel 340282366920938463463374607431768211455.9223372036854775808.34359738368.39), None),
    (oid!(rel 66452431786619096544596691514883371762.21068.106.562949953421312), None),
    (oid!(rel 6250), Some(&[6250])),
    (oid!(rel 9116083128976164226.114.245), Some(&[9116083128976164226, 114, 245])),
    (oid!(rel 20737.256.5107.4294967295.8191.33.21.114), Some(&[20737, 256, 5107, 4294967295, 8191, 33, 21, 114])),
    (oid!(rel 9151.170141183460469231731687303715884105727.79.20793.95.17350641503138659274.18446744073709551616.8192.9223372036854775808.130.1250.2090998.14157), None),
    (oid!(rel 8195.65.172.127.20.8191.8191.85070591730234615865843651857942052864.9223372036854775807.8192.10567749358900063605.16385.161), None),
    (oid!(rel 72057594037927936.170141183460469231731687303715884105727.6305.34359738367.34359738367.60.12208985828.664613997892457936451903530140172288.53.8192.1180591620717411303424.79.840), None),
    (oid!(rel 170141183460469231731687303715884105727.33812268082302473243.7427060422024563761.256), None),
    (oid!(rel 319902528454448430978078421950158255501.2147483647), None),
    (oid!(rel 1349.4398046511103.8904976705297423981.37), Some(&[1349, 4398046511103, 8904976705297423981, 37])),
    (oid!(rel 2363), Some(&[2363])),
    (oid!(rel 9223372036854775807.1180591620717411303424), None),
    (oid!(rel 268435456.20971.79.3762.638551564586942979.131.4136.76554269295449091083649037253813480869), None),
    (oid!(rel 18446744073709551617.12417.4294967295.34359738368.75325590138864833493151070809498892641), None),
    (oid!(rel 11291971369.1361055581766036197.40.8823), Some(&[11291971369, 1361055581766036197, 40, 8823])),
    (oid!(rel 10875), Some(&[10875])),
    (oid!(rel 14003.256.1267650600228229401496703205376.2.8192.222.10342634.860188553210260426), None),
    (oid!(rel 6256790210858985062.72057594037927936.16385.16385.47.4398046511104.122.1605747011.8191.2097151.32370.47.228.30.4398046511103.13.11379324335555301776.3899865.51576394129781675093521929566490993146.256.8580.2370387.85070591730234615865843651857942052864.255.2605.9040490257576027586.8192.9223372036854775808.2097151.249), None),
    (oid!(rel 39.16384.4294967296.18.2626130.203.4706.0.2147483648.47.59.8401.133), Some(&[39, 16384, 4294967296, 18, 2626130, 203, 4706, 0, 2147483648, 47, 59, 8401, 133])),
    (oid!(rel 33021002353559084397.105.6835.47), None),
    (oid!(rel 0.3283728.39.2097152.113549.1353858.29.1143014.3617075.664613997892457936451903530140172288.2.256.8191), None),
    (oid!(rel 4398046511104.28.12406.26489.194.1861.18446744073709551615.1267650600228229401496703205376.6762.296664486666595244746950535352179565962.18446744073709551616.4294967424.118), None),
    (oid!(rel 18000242322658886922.0.34359738368.13458.34359738368.8191.1334572625644332592.151115727451828646838272.2859225.330809858404792187536644434640650019899.1.36531045.242.788299.114220565.497.215.20782.21.223398654.15304790614287814347.128.689.11213.25.9165.8.175.1719473.28195), None),
    (oid!(rel 170141183460469231731687303715884105727.4398046511104.2046404296010046943.125.113549.2097152.14531.7819649855254344589.1180591620717411303424.6173.268435456.9223372036854775808.26700), None),
    (oid!(rel 1766), Some(&[1766])),
    (oid!(rel 71.13872.664613997892457936451903530140172288.10939.3856571135186137803), None),
    (oid!(rel 36808198232422408595.4218547033529262164), None),
    (oid!(rel 170141183460469231731687303715884105728.3300.128), None),
    (oid!(rel 18446744073709551616.12558), None),
    (oid!(rel 129.74663124.18446744073709551615.15512.2097151), Some(&[129, 74663124, 18446744073709551615, 15512, 2097151])),
    (oid!(rel 16385.24), Some(&[16385, 24])),
    (oid!(rel 1180591620717411303424.664613997892457936451903530140172288.43457954.228.13), None),
    (oid!(rel 121611879.2147483647.15566122867284255418053026681955754330.15239783689223719743371163090522519211.6290.7988.8191.4259), None),
    (oid!(rel 2512117358189335552.562949953421312.3685), Some(&[2512117358189335552, 562949953421312, 3685])),
    (oid!(rel 85070591730234615865843651857942052864.688069808238126882.34359738368.31331595963664769409.55.10382.947271.3799.113549.633306.14055749233484101810.1.170141183460469231731687303715884105727), None),
    (oid!(rel 6851664806820346438.8257938655), Some(&[6851664806820346438, 8257938655])),
    (oid!(rel 4584.1267650600228229401496703205376.3407926.2732395451413590065), None),
    (oid!(rel 16383.207728177164460152016377864672686848326.2424.170.2097152.255.4294967295.17254.2147483647.41.79.7290969333959663257.72.1.127.2361458.18446744073709551615.4268.8191.16383.3451.151115727451828646838272.194.80.202.1465.58.156.1180591620717411303423.2147483647), None),
    (oid!(rel 79.79.2.79.151115727451828646838272), None),
    (oid!(rel 773.116), Some(&[773, 116])),
    (oid!(rel 151115727451828646838272.79.309160384387063929889334236898663525374.248345717), None),
    (oid!(rel 18446744073709551616.129.111855.24.777.230032416438008421848986869137070823226.1613220772020011734.62), None),
    (oid!(rel 223.2097152.255), Some(&[223, 2097152, 255])),
    (oid!(rel 1180591620717411303423.12491.39296922033418502633902129710979421175), None),
    (oid!(rel 4398046511103.63.664613997892457936451903530140172288.562949953421312.7961.2969.2097152.1180591620717411303424.217.2689271.11121.79.24.45.134.200.72057594037927936.72057594037927935.65.8780.9223372036854775807.170141183460469231731687303715884105727.39418049395696040454605895229198309893.256.151115727451828646838272.72057594037927936.740931.16384.4294967296.19), None),
    (oid!(rel 74.1180591620717411303424.20638324268503438530.118.155.255.18446744073709551616.1811147.4294967296.30.18446744073709551617.1180591620717411303423.1529), None),
    (oid!(rel 1180591620717411303424.2097151.10636.80.59.268435455.4294967296.20.9564.316430264489653926819397485755930436669.2147483647.9920.7031.268435455.11612.33.27271370078.79.16564.13.9223372036854775808.0.18446744073709551617.9223372036854775808.9223372036854775807.664613997892457936451903530140172288.10728.8937380243483877960.18446744073709551617.14866422761282577524), None),
    (oid!(rel 4294967424.8192.9223372036854775807), Some(&[4294967424, 8192, 9223372036854775807])),
    (oid!(rel 25892.1267650600228229401496703205376.169190848307485289235819736954447587266), None),
    (oid!(rel 12067.664613997892457936451903530140172288), None),
    (oid!(rel 18342), Some(&[18342])),
    (oid!(rel 268435455.15623.18446744073709551617.4294967424.47.21328094.1250.131002929823873745803738434608082929580), None),
    (oid!(rel 3170.328018145644762559821598878125378841696.9808.129.3.15.127.85070591730234615865843651857942052864.61.129.268435455.6816708913249494363.5435), None),
    (oid!(rel 7268619371091009655.5493099167.4391677293847876762332876219834034890.3.562949953421312.794045.125.2147483647.214416538804509588567312671777889756291.127.113549.34359738367.37.562949953421312.3616809.16383.191.156.31.13922.25820214513.127.207000904.18446744073709551616.249.268435456.10247323583415536378.28658.85070591730234615865843651857942052864.10), None),
    (oid!(rel 3168.2097152.9223372036854775808.30567.250.9223372036854775808.1267650600228229401496703205376.225), None),
    (oid!(rel 338407978255784289006006779597220690332.16385), None),
    (oid!(rel 26492941254.113549.1666083.8148159861296260788.7.40.27.4480.69.562949953421312.17289.664613997892457936451903530140172288.12093), None),
    (oid!(rel 8192), Some(&[8192])),
    (oid!(rel 96.4294967424.21473.112.12923554277302548665.227.16384.2015.136284580917585678309867119993622126607.653471.12917.92266106.13668285971.170141183460469231731687303715884105727.34359738368.1.2.86.2570997.151115727451828646838272.3298986000.7970.16385.5747.80.26644562295044896858.102684469138701307702747539204841507847.132.2.40), None),
    (oid!(rel 2097151.981.242616.5383.4794179045335823589.3557383.23371.79.170.8192.275899852156089899011812225574595875443.47.123.29.11606.112.15518.165038378.65.9189.8191.3987888480082910273.151115727451828646838272.72057594037927935.9223372036854775808.47.14047.89.79.18446744073709551615), None),
    (oid!(rel 4874505676295144623.2097152.4294967424.786.194920663.127.2147483648.14315.1180591620717411303423.110.7081234249469425446.113.151115727451828646838272.202251992.127.47.58.15414.5503.10643.1108.220081909857651557095441936327316232806.9223372036854775807.22354.1180591620717411303424.21437271091.9223372036854775807.35.127.233), None),
    (oid!(rel 28646545287715318287.79.34359738368.26041018.13196.79.24.1267650600228229401496703205376.2147483647.9223372036854775808.674481.28573.170141183460469231731687303715884105728), None),
    (oid!(rel 168.1180591620717411303423.2097151.34359738368.129.72057594037927935.6096.47), None),
    (oid!(rel 85070591730234615865843651857942052864.840.4550.67), None),
    (oid!(rel 151115727451828646838272.2), None),
    (oid!(rel 3418.9223372036854775807.3218990.197.129.840.97.62), Some(&[3418, 9223372036854775807, 3218990, 197, 129, 840, 97, 62])),
    (oid!(rel 18446744073709551615), Some(&[18446744073709551615])),
    (oid!(rel 127), Some(&[127])),
    (oid!(rel 8464770989.57.170141183460469231731687303715884105727.16954660383052246458.14293691424711586180.8191.256.122.10993247226735598841.6365.18446744073709551615.8191.2097152), None),
    (oid!(rel 1180591620717411303423.69.4294967295.16383.1.996416.170141183460469231731687303715884105728.56.26.5400427760141154122.235199953502952664353486643446164188977.16675956079.214.11110.72057594037927936.6.42869354.268435455.89.268435455.49.34359738368.6321.2097152.3558105901.40.2147483647.2147483647.3652236330135548325.39), None),
    (oid!(rel 113549.3809.95.127.3745), Some(&[113549, 3809, 95, 127, 3745])),
    (oid!(rel 82666126556839030717037432056580283467.42406766.3.41985311.255.85070591730234615865843651857942052864.169.114), None),
    (oid!(rel 3794861), Some(&[3794861])),
    (oid!(rel 6186.11242.4398046511104.140.268435456.2575.7939.13471), Some(&[6186, 11242, 4398046511104, 140, 268435456, 2575, 7939, 13471])),
    (oid!(rel 40), Some(&[40])),
    (oid!(rel 26.30392.31851119302.18446744073709551617), None),
    (oid!(rel 34359738367.8191.1180591620717411303423.15148), None),
    (oid!(rel 8191.47.37), Some(&[8191, 47, 37])),
    (oid!(rel 6219381519946214989.170141183460469231731687303715884105727), None),
    (oid!(rel 13246717967.73.150767403495916084190774393067474854309.4294967296.27450), None),
    (oid!(rel 15051.68.8021.79), Some(&[15051, 68, 8021, 79])),
    (oid!(rel 1425.34359738368.76108488426535957979306169326165849224.80.5956.42.9223372036854775807.27059), None),
    (oid!(rel 243369391.182.125.1267650600228229401496703205376.22254.4294967296.1156.145326116371572883322503318585849250670.72057594037927935.18446744073709551617.10898.209.17516826971414823401), None),
    (oid!(rel 167.30897.1180591620717411303423.2097151.1267650600228229401496703205376.9926.12942.7770), None),
    (oid!(rel 340282366920938463463374607431768211455.2769.180339942.22955.2097151.6091.5131.593175), None),
    (oid!(rel 170141183460469231731687303715884105728.10190298864.12208166903833452223.2110.562949953421312.5918856339115572930.840.127), None),
    (oid!(rel 9223372036854775807.72057594037927936.1835410.249680110745482250772519527121816789047.9223372036854775807.20771219761.16383.8191.149.26000.151115727451828646838272.8850783562482307476.17072157233877714792), None),
    (oid!(rel 2066.1180591620717411303424.16383.562949953421312.21377), None),
    (oid!(rel 40.255.3657.48.16383.238.9223372036854775808.129.162.268435455.15204.47.2097152.62.64.2.7043691159438441289.0.4507.9911.4294967295.1447.16582787924772822203.1108034044998777253.2.4181587999577701788.2147483647.160.5614.4294967424), Some(&[40, 255, 3657, 48, 16383, 238, 9223372036854775808, 129, 162, 268435455, 15204, 47, 2097152, 62, 64, 2, 7043691159438441289, 0, 4507, 9911, 4294967295, 1447, 16582787924772822203, 1108034044998777253, 2, 4181587999577701788, 2147483647, 160, 5614, 4294967424])),
    (oid!(rel 2286.79), Some(&[2286, 79])),
    (oid!(rel 235.1498485.255.8191.2866.4.40.2147483648), Some(&[235, 1498485, 255, 8191, 2866, 4, 40, 2147483648])),
];
pub const PASSED: &[Oid<'static>] = &[
    three!(1 2 0),
    three!(1 2 1),
    three!(1 2 2),
    three!(1 2 39),
    three!(1 2 40),
    three!(1 2 47),
    three!(1 2 79),
    three!(1 2 80),
    three!(1 2 127),
    three!(1 2 128),
    three!(1 2 129),
    three!(1 2 255),
    three!(1 2 256),
    three!(1 2 840),
    three!(1 2 8191),
    three!(1 2 8192),
    three!(1 2 16383),
    three!(1 2 16384),
    three!(1 2 16385),
    three!(1 2 113549),
    three!(1 2 2097151),
    three!(1 2 2097152),
    three!(1 2 268435455),
    three!(1 2 268435456),
    three!(1 2 2147483647),
    three!(1 2 2147483648),
    three!(1 2 4294967295),
    three!(1 2 4294967296),
    three!(1 2 4294967424),
    three!(1 2 34359738367),
    three!(1 2 34359738368),
    three!(1 2 4398046511103),
    three!(1 2 4398046511104),
    three!(1 2 562949953421312),
    three!(1 2 72057594037927935),
    three!(1 2 72057594037927936),
    three!(1 2 9223372036854775807),
    three!(1 2 9223372036854775808),
    three!(1 2 18446744073709551615),
    three!(1 2 18446744073709551616),
    three!(1 2 18446744073709551617),
    three!(1 2 1180591620717411303423),
    three!(1 2 1180591620717411303424),
    three!(1 2 151115727451828646838272),
    three!(1 2 1267650600228229401496703205376),
    three!(1 2 664613997892457936451903530140172288),
    three!(1 2 85070591730234615865843651857942052864),
    three!(1 2 170141183460469231731687303715884105727),
    three!(1 2 170141183460469231731687303715884105728),
    three!(1 2 340282366920938463463374607431768211455),
    three!(0 0 0),
    three!(1 5 3497364383162086857),
    three!(1 10 10757),
    three!(1 13 1180591620717411303423),
    three!(2 28 16383),
    three!(2 25 34359738368),
    three!(1 32 72057594037927936),
    three!(2 10 27836),
    three!(2 25 256),
    three!(2 17 8702),
    three!(0 29 1180591620717411303423),
    three!(0 4 516),
    three!(0 0 215),
    three!(2 10 8192),
    three!(1 15 28474),
    three!(1 7 151115727451828646838272),
    three!(0 14 840),
    three!(2 15 935527),
];
pub const ZERO: Oid<'static> = oid!(0);
pub const NUMBERS: &[(&[u8], Integer<'static>, u64)] = &[
    (&int!(raw 0), int!(0), 0),
    (&int!(raw 1), int!(1), 1),
    (&int!(raw 2), int!(2), 2),
    (&int!(raw 4), int!(4), 4),
    (&int!(raw 5), int!(5), 5),
    (&int!(raw 6), int!(6), 6),
    (&int!(raw 8), int!(8), 8),
    (&int!(raw 11), int!(11), 11),
    (&int!(raw 17), int!(17), 17),
    (&int!(raw 44), int!(44), 44),
    (&int!(raw 59), int!(59), 59),
    (&int!(raw 100), int!(100), 100),
    (&int!(raw 110), int!(110), 110),
    (&int!(raw 111), int!(111), 111),
    (&int!(raw 127), int!(127), 127),
    (&int!(raw 128), int!(128), 128),
    (&int!(raw 129), int!(129), 129),
    (&int!(raw 201), int!(201), 201),
    (&int!(raw 255), int!(255), 255),
    (&int!(raw 256), int!(256), 256),
    (&int!(raw 257), int!(257), 257),
    (&int!(raw 265), int!(265), 265),
    (&int!(raw 329), int!(329), 329),
    (&int!(raw 511), int!(511), 511),
    (&int!(raw 512), int!(512), 512),
    (&int!(raw 513), int!(513), 513),
    (&int!(raw 647), int!(647), 647),
    (&int!(raw 1023), int!(1023), 1023),
    (&int!(raw 1024), int!(1024), 1024),
    (&int!(raw 1025), int!(1025), 1025),
    (&int!(raw 1078), int!(1078), 1078),
    (&int!(raw 1515), int!(1515), 1515),
    (&int!(raw 1845), int!(1845), 1845),
    (&int!(raw 2047), int!(2047), 2047),
    (&int!(raw 2048), int!(2048), 2048),
    (&int!(raw 2049), int!(2049), 2049),
    (&int!(raw 2915), int!(2915), 2915),
    (&int!(raw 3111), int!(3111), 3111),
    (&int!(raw 4095), int!(4095), 4095),
    (&int!(raw 4096), int!(4096), 4096),
    (&int!(raw 4097), int!(4097), 4097),
    (&int!(raw 5762), int!(5762), 5762),
    (&int!(raw 8191), int!(8191), 8191),
    (&int!(raw 8192), int!(8192), 8192),
    (&int!(raw 8193), int!(8193), 8193),
    (&int!(raw 12617), int!(12617), 12617),
    (&int!(raw 16383), int!(16383), 16383),
    (&int!(raw 16384), int!(16384), 16384),
    (&int!(raw 16385), int!(16385), 16385),
    (&int!(raw 19887), int!(19887), 19887),
    (&int!(raw 23392), int!(23392), 23392),
    (&int!(raw 24062), int!(24062), 24062),
    (&int!(raw 32767), int!(32767), 32767),
    (&int!(raw 32768), int!(32768), 32768),
    (&int!(raw 32769), int!(32769), 32769),
    (&int!(raw 52410), int!(52410), 52410),
    (&int!(raw 65280), int!(65280), 65280),
    (&int!(raw 65535), int!(65535), 65535),
    (&int!(raw 65536), int!(65536), 65536),
    (&int!(raw 65537), int!(65537), 65537),
    (&int!(raw 96889), int!(96889), 96889),
    (&int!(raw 100797), int!(100797), 100797),
    (&int!(raw 131071), int!(131071), 131071),
    (&int!(raw 131072), int!(131072), 131072),
    (&int!(raw 131073), int!(131073), 131073),
    (&int!(raw 183354), int!(183354), 183354),
    (&int!(raw 257395), int!(257395), 257395),
    (&int!(raw 259456), int!(259456), 259456),
    (&int!(raw 262143), int!(262143), 262143),
    (&int!(raw 262144), int!(262144), 262144),
    (&int!(raw 262145), int!(262145), 262145),
    (&int!(raw 358653), int!(358653), 358653),
    (&int!(raw 524287), int!(524287), 524287),
    (&int!(raw 524288), int!(524288), 524288),
    (&int!(raw 524289), int!(524289), 524289),
    (&int!(raw 628926), int!(628926), 628926),
    (&int!(raw 634713), int!(634713), 634713),
    (&int!(raw 684896), int!(684896), 684896),
    (&int!(raw 702876), int!(702876), 702876),
    (&int!(raw 1048575), int!(1048575), 1048575),
    (&int!(raw 1048576), int!(1048576), 1048576),
    (&int!(raw 1048577), int!(1048577), 1048577),
    (&int!(raw 1104246), int!(1104246), 1104246),
    (&int!(raw 2029862), int!(2029862), 2029862),
    (&int!(raw 2097151), int!(2097151), 2097151),
    (&int!(raw 2097152), int!(2097152), 2097152),
    (&int!(raw 2097153), int!(2097153), 2097153),
    (&int!(raw 3486818), int!(3486818), 3486818),
    (&int!(raw 4194303), int!(4194303), 4194303),
    (&int!(raw 4194304), int!(4194304), 4194304),
    (&int!(raw 4194305), int!(4194305), 4194305),
    (&int!(raw 4878988), int!(4878988), 4878988),
    (&int!(raw 8388607), int!(8388607), 8388607),
    (&int!(raw 8388608), int!(8388608), 8388608),
    (&int!(raw 8388609), int!(8388609), 8388609),
    (&int!(raw 9743110), int!(9743110), 9743110),
    (&int!(raw 12742306), int!(12742306), 12742306),
    (&int!(raw 14634343), int!(14634343), 14634343),
    (&int!(raw 16487013), int!(16487013), 16487013),
    (&int!(raw 16711680), int!(16711680), 16711680),
    (&int!(raw 16777215), int!(16777215), 16777215),
    (&int!(raw 16777216), int!(16777216), 16777216),
    (&int!(raw 16777217), int!(16777217), 16777217),
    (&int!(raw 33554431), int!(33554431), 33554431),
    (&int!(raw 33554432), int!(33554432), 33554432),
    (&int!(raw 33554433), int!(33554433), 33554433),
    (&int!(raw 39685407), int!(39685407), 39685407),
    (&int!(raw 58433161), int!(58433161), 58433161),
    (&int!(raw 65053626), int!(65053626), 65053626),
    (&int!(raw 66626548), int!(66626548), 66626548),
    (&int!(raw 67108863), int!(67108863), 67108863),
    (&int!(raw 67108864), int!(67108864), 67108864),
    (&int!(raw 67108865), int!(67108865), 67108865),
    (&int!(raw 83123583), int!(83123583), 83123583),
    (&int!(raw 131215197), int!(131215197), 131215197),
    (&int!(raw 134217727), int!(134217727), 134217727),
    (&int!(raw 134217728), int!(134217728), 134217728),
    (&int!(raw 134217729), int!(134217729), 134217729),
    (&int!(raw 146992440), int!(146992440), 146992440),
    (&int!(raw 195964607), int!(195964607), 195964607),
    (&int!(raw 268435455), int!(268435455), 268435455),
    (&int!(raw 268435456), int!(268435456), 268435456),
    (&int!(raw 268435457), int!(268435457), 268435457),
    (&int!(raw 274651097), int!(274651097), 274651097),
    (&int!(raw 308649401), int!(308649401), 308649401),
    (&int!(raw 536870911), int!(536870911), 536870911),
    (&int!(raw 536870912), int!(536870912), 536870912),
    (&int!(raw 536870913), int!(536870913), 536870913),
    (&int!(raw 664457380), int!(664457380), 664457380),
    (&int!(raw 952051139), int!(952051139), 952051139),
    (&int!(raw 1073741823), int!(1073741823), 1073741823),
    (&int!(raw 1073741824), int!(1073741824), 1073741824),
    (&int!(raw 1073741825), int!(1073741825), 1073741825),
    (&int!(raw 1535555939), int!(1535555939), 1535555939),
    (&int!(raw 2147483647), int!(2147483647), 2147483647),
    (&int!(raw 2147483648), int!(2147483648), 2147483648),
    (&int!(raw 2147483649), int!(2147483649), 2147483649),
    (&int!(raw 2277232210), int!(2277232210), 2277232210),
    (&int!(raw 3693211362), int!(3693211362), 3693211362),
    (&int!(raw 4201341650), int!(4201341650), 4201341650),
    (&int!(raw 4278190080), int!(4278190080), 4278190080),
    (&int!(raw 4294967295), int!(4294967295), 4294967295),
    (&int!(raw 4294967296), int!(4294967296), 4294967296),
    (&int!(raw 4294967297), int!(4294967297), 4294967297),
    (&int!(raw 6121304756), int!(6121304756), 6121304756),
    (&int!(raw 6437391524), int!(6437391524), 6437391524),
    (&int!(raw 6599546352), int!(6599546352), 6599546352),
    (&int!(raw 8589934591), int!(8589934591), 8589934591),
    (&int!(raw 8589934592), int!(8589934592), 8589934592),
    (&int!(raw 8589934593), int!(8589934593), 8589934593),
    (&int!(raw 15592749920), int!(15592749920), 15592749920),
    (&int!(raw 17179869183), int!(17179869183), 17179869183),
    (&int!(raw 17179869184), int!(17179869184), 17179869184),
    (&int!(raw 17179869185), int!(17179869185), 17179869185),
    (&int!(raw 24220040498), int!(24220040498), 24220040498),
    (&int!(raw 32978616784), int!(32978616784), 32978616784),
    (&int!(raw 34359738367), int!(34359738367), 34359738367),
    (&int!(raw 34359738368), int!(34359738368), 34359738368),
    (&int!(raw 34359738369), int!(34359738369), 34359738369),
    (&int!(raw 40032569303), int!(40032569303), 40032569303),
    (&int!(raw 54731399687), int!(54731399687), 54731399687),
    (&int!(raw 60896239026), int!(60896239026), 60896239026),
    (&int!(raw 64427299627), int!(64427299627), 64427299627),
    (&int!(raw 68719476735), int!(68719476735), 68719476735),
    (&int!(raw 68719476736), int!(68719476736), 68719476736),
    (&int!(raw 68719476737), int!(68719476737), 68719476737),
    (&int!(raw 137206191170), int!(137206191170), 137206191170),
    (&int!(raw 137438953471), int!(137438953471), 137438953471),
    (&int!(raw 137438953472), int!(137438953472), 137438953472),
    (&int!(raw 137438953473), int!(137438953473), 137438953473),
    (&int!(raw 274877906943), int!(274877906943), 274877906943),
    (&int!(raw 274877906944), int!(274877906944), 274877906944),
    (&int!(raw 274877906945), int!(274877906945), 274877906945),
    (&int!(raw 397740748387), int!(397740748387), 397740748387),
    (&int!(raw 415600060619), int!(415600060619), 415600060619),
    (&int!(raw 531179300630), int!(531179300630), 531179300630),
    (&int!(raw 549755813887), int!(549755813887), 549755813887),
    (&int!(raw 549755813888), int!(549755813888), 549755813888),
    (&int!(raw 549755813889), int!(549755813889), 549755813889),
    (&int!(raw 900386058746), int!(900386058746), 900386058746),
    (&int!(raw 1027113414395), int!(1027113414395), 1027113414395),
    (&int!(raw 1095216660480), int!(1095216660480), 1095216660480),
    (&int!(raw 1099511627775), int!(1099511627775), 1099511627775),
    (&int!(raw 1099511627776), int!(1099511627776), 1099511627776),
    (&int!(raw 1099511627777), int!(1099511627777), 1099511627777),
    (&int!(raw 1396647185731), int!(1396647185731), 1396647185731),
    (&int!(raw 2199023255551), int!(2199023255551), 2199023255551),
    (&int!(raw 2199023255552), int!(2199023255552), 2199023255552),
    (&int!(raw 2199023255553), int!(2199023255553), 2199023255553),
    (&int!(raw 3812244265783), int!(3812244265783), 3812244265783),
    (&int!(raw 4398046511103), int!(4398046511103), 4398046511103),
    (&int!(raw 4398046511104), int!(4398046511104), 4398046511104),
    (&int!(raw 4398046511105), int!(4398046511105), 4398046511105),
    (&int!(raw 4566616128699), int!(4566616128699), 4566616128699),
    (&int!(raw 4718137341445), int!(4718137341445), 4718137341445),
    (&int!(raw 5689843284830), int!(5689843284830), 5689843284830),
    (&int!(raw 7311588474907), int!(7311588474907), 7311588474907),
    (&int!(raw 8796093022207), int!(8796093022207), 8796093022207),
    (&int!(raw 8796093022208), int!(8796093022208), 8796093022208),
    (&int!(raw 8796093022209), int!(8796093022209), 8796093022209),
    (&int!(raw 15540728023382), int!(15540728023382), 15540728023382),
    (&int!(raw 17592186044415), int!(17592186044415), 17592186044415),
    (&int!(raw 17592186044416), int!(17592186044416), 17592186044416),
    (&int!(raw 17592186044417), int!(17592186044417), 17592186044417),
    (&int!(raw 20608121516585), int!(20608121516585), 20608121516585),
    (&int!(raw 35184372088831), int!(35184372088831), 35184372088831),
    (&int!(raw 35184372088832), int!(35184372088832), 35184372088832),
    (&int!(raw 35184372088833), int!(35184372088833), 35184372088833),
    (&int!(raw 35319518929064), int!(35319518929064), 35319518929064),
    (&int!(raw 46450343921586), int!(46450343921586), 46450343921586),
    (&int!(raw 67096271883216), int!(67096271883216), 67096271883216),
    (&int!(raw 70368744177663), int!(70368744177663), 70368744177663),
    (&int!(raw 70368744177664), int!(70368744177664), 70368744177664),
    (&int!(raw 70368744177665), int!(70368744177665), 70368744177665),
    (&int!(raw 88567771363907), int!(88567771363907), 88567771363907),
    (&int!(raw 97008393158251), int!(97008393158251), 97008393158251),
    (&int!(raw 99315973836033), int!(99315973836033), 99315973836033),
    (&int!(raw 129560826550631), int!(129560826550631), 129560826550631),
    (&int!(raw 140737488355327), int!(140737488355327), 140737488355327),
    (&int!(raw 140737488355328), int!(140737488355328), 140737488355328),
    (&int!(raw 140737488355329), int!(140737488355329), 140737488355329),
    (&int!(raw 280375465082880), int!(280375465082880), 280375465082880),
    (&int!(raw 281474976710655), int!(281474976710655), 281474976710655),
    (&int!(raw 281474976710656), int!(281474976710656), 281474976710656),
    (&int!(raw 281474976710657), int!(281474976710657), 281474976710657),
    (&int!(raw 443558717834780), int!(443558717834780), 443558717834780),
    (&int!(raw 562949953421311), int!(562949953421311), 562949953421311),
    (&int!(raw 562949953421312), int!(562949953421312), 562949953421312),
    (&int!(raw 562949953421313), int!(562949953421313), 562949953421313),
    (&int!(raw 960121423867420), int!(960121423867420), 960121423867420),
    (&int!(raw 979772000532687), int!(979772000532687), 979772000532687),
    (&int!(raw 1125899906842623), int!(1125899906842623), 1125899906842623),
    (&int!(raw 1125899906842624), int!(1125899906842624), 1125899906842624),
    (&int!(raw 1125899906842625), int!(1125899906842625), 1125899906842625),
    (&int!(raw 1508777911285575), int!(1508777911285575), 1508777911285575),
    (&int!(raw 1906673889585116), int!(1906673889585116), 1906673889585116),
    (&int!(raw 2072460949286075), int!(2072460949286075), 2072460949286075),
    (&int!(raw 2232472368977100), int!(2232472368977100), 2232472368977100),
    (&int!(raw 2251799813685247), int!(2251799813685247), 2251799813685247),
    (&int!(raw 2251799813685248), int!(2251799813685248), 2251799813685248),
    (&int!(raw 2251799813685249), int!(2251799813685249), 2251799813685249),
    (&int!(raw 3312493894952024), int!(3312493894952024), 3312493894952024),
    (&int!(raw 3886123446154141), int!(3886123446154141), 3886123446154141),
    (&int!(raw 3930663874507171), int!(3930663874507171), 3930663874507171),
    (&int!(raw 4006806526285291), int!(4006806526285291), 4006806526285291),
    (&int!(raw 4503599627370495), int!(4503599627370495), 4503599627370495),
    (&int!(raw 4503599627370496), int!(4503599627370496), 4503599627370496),
    (&int!(raw 4503599627370497), int!(4503599627370497), 4503599627370497),
    (&int!(raw 7319707400989115), int!(7319707400989115), 7319707400989115),
    (&int!(raw 9007199254740991), int!(9007199254740991), 9007199254740991),
    (&int!(raw 9007199254740992), int!(9007199254740992), 9007199254740992),
    (&int!(raw 9007199254740993), int!(9007199254740993), 9007199254740993),
    (&int!(raw 11641156198182273), int!(11641156198182273), 11641156198182273),
    (&int!(raw 18014398509481983), int!(18014398509481983), 18014398509481983),
    (&int!(raw 18014398509481984), int!(18014398509481984), 18014398509481984),
    (&int!(raw 18014398509481985), int!(18014398509481985), 18014398509481985),
    (&int!(raw 26074957231290456), int!(26074957231290456), 26074957231290456),
    (&int!(raw 28802855939649535), int!(28802855939649535), 28802855939649535),
    (&int!(raw 30611753897272056), int!(30611753897272056), 30611753897272056),
    (&int!(raw 36028797018963967), int!(36028797018963967), 36028797018963967),
    (&int!(raw 36028797018963968), int!(36028797018963968), 36028797018963968),
    (&int!(raw 36028797018963969), int!(36028797018963969), 36028797018963969),
    (&int!(raw 47394749351630358), int!(47394749351630358), 47394749351630358),
    (&int!(raw 71776119061217280), int!(71776119061217280), 71776119061217280),
    (&int!(raw 72057594037927935), int!(72057594037927935), 72057594037927935),
    (&int!(raw 72057594037927936), int!(72057594037927936), 72057594037927936),
    (&int!(raw 72057594037927937), int!(72057594037927937), 72057594037927937),
    (&int!(raw 144115188075855871), int!(144115188075855871), 144115188075855871),
    (&int!(raw 144115188075855872), int!(144115188075855872), 144115188075855872),
    (&int!(raw 144115188075855873), int!(144115188075855873), 144115188075855873),
    (&int!(raw 151821825609031323), int!(151821825609031323), 151821825609031323),
    (&int!(raw 160460553869013064), int!(160460553869013064), 160460553869013064),
    (&int!(raw 274777588931549090), int!(274777588931549090), 274777588931549090),
    (&int!(raw 281772669321627362), int!(281772669321627362), 281772669321627362),
    (&int!(raw 288230376151711743), int!(288230376151711743), 288230376151711743),
    (&int!(raw 288230376151711744), int!(288230376151711744), 288230376151711744),
    (&int!(raw 288230376151711745), int!(288230376151711745), 288230376151711745),
    (&int!(raw 576460752303423487), int!(576460752303423487), 576460752303423487),
    (&int!(raw 576460752303423488), int!(576460752303423488), 576460752303423488),
    (&int!(raw 576460752303423489), int!(576460752303423489), 576460752303423489),
    (&int!(raw 629349358895070561), int!(629349358895070561), 629349358895070561),
    (&int!(raw 744774532932478163), int!(744774532932478163), 744774532932478163),
    (&int!(raw 1152921504606846975), int!(1152921504606846975), 1152921504606846975),
    (&int!(raw 1152921504606846976), int!(1152921504606846976), 1152921504606846976),
    (&int!(raw 1152921504606846977), int!(1152921504606846977), 1152921504606846977),
    (&int!(raw 1202107190419859444), int!(1202107190419859444), 1202107190419859444),
    (&int!(raw 1229071362920711113), int!(1229071362920711113), 1229071362920711113),
    (&int!(raw 2305843009213693951), int!(2305843009213693951), 2305843009213693951),
    (&int!(raw 2305843009213693952), int!(2305843009213693952), 2305843009213693952),
    (&int!(raw 2305843009213693953), int!(2305843009213693953), 2305843009213693953),
    (&int!(raw 3403648341787456624), int!(3403648341787456624), 3403648341787456624),
    (&int!(raw 4309836435346746658), int!(4309836435346746658), 4309836435346746658),
    (&int!(raw 4611686018427387903), int!(4611686018427387903), 4611686018427387903),
    (&int!(raw 4611686018427387904), int!(4611686018427387904), 4611686018427387904),
    (&int!(raw 4611686018427387905), int!(4611686018427387905), 4611686018427387905),
    (&int!(raw 6548423718341416954), int!(6548423718341416954), 6548423718341416954),
    (&int!(raw 7490689947251541888), int!(7490689947251541888), 7490689947251541888),
    (&int!(raw 7979136486474775335), int!(7979136486474775335), 7979136486474775335),
    (&int!(raw 9223372036854775807), int!(9223372036854775807), 9223372036854775807),
    (&int!(raw 9223372036854775808), int!(9223372036854775808), 9223372036854775808),
    (&int!(raw 9223372036854775809), int!(9223372036854775809), 9223372036854775809),
    (&int!(raw 12116780951127842318), int!(12116780951127842318), 12116780951127842318),
    (&int!(raw 18374686479671623680), int!(18374686479671623680), 18374686479671623680),
    (&int!(raw 18446744073709551615), int!(18446744073709551615), 18446744073709551615),
    (&int!(raw 0xff), int!(0xff), 255),
    (&int!(raw 0x80), int!(0x80), 128),
    (&int!(raw 1_000_000), int!(1_000_000), 1000000),
    (&int!(raw 0b1000_0000), int!(0b1000_0000), 128),
    (&int!(raw 0o377), int!(0o377), 255),
    (&int!(raw 7u8), int!(7u8), 7),
    (&int!(raw 200u64), int!(200u64), 200),
    (&int!(raw 0x8000_0000_0000_0000), int!(0x8000_0000_0000_0000), 9223372036854775808),
    (&int!(raw 0x00ff), int!(0x00ff), 255),
];
