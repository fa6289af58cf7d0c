//! GENERATED by tools/mk_schemas.py: types using the derive macros. Their descriptors are in spec/Schemas.tla.

#![allow(dead_code)]
use asn1_rs::nom;

/// parsing function of a field: any octet
pub fn one_octet(i: asn1_rs::Input) -> nom::IResult<asn1_rs::Input, u8, asn1_rs::BerError<asn1_rs::Input>> {
    use asn1_rs::nom::Input as _;
    if i.is_empty() {
        return Err(nom::Err::Incomplete(nom::Needed::new(1)));
    }
    let (rem, x) = i.take_split(1);
    Ok((rem, x.as_bytes2()[0]))
}

pub mod new {
    #![allow(unused_imports)]
    use crate::flat::Flat;
    use asn1_rs::nom::Err;
    use asn1_rs::Tagged;
    use asn1_rs::{nom, Alias, Any, Choice, Sequence, Set, ToStatic, BerError, BitString, Enumerated, Ia5String, InnerError, Input, Integer, Null, OctetString, Oid, TaggedExplicit, TaggedImplicit, UtcTime, Utf8String};

    #[derive(Debug, PartialEq)]
    #[derive(Sequence)]
    #[derive(ToStatic)]
    pub struct SPlain {
         pub a: u8,
         pub b: bool,
    }
    impl Flat for SPlain {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Sequence)]
    pub struct SOpt<'a> {
        #[optional] pub a: Option<u8>,
         pub b: bool,
        #[optional] pub c: Option<OctetString<'a>>,
    }
    impl<'a> Flat for SOpt<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Sequence)]
    pub struct SDef<'a> {
        #[default(9_u8)] pub a: u8,
        #[default(true)] pub b: bool,
        #[default(Utf8String::new("z"))] pub c: Utf8String<'a>,
    }
    impl<'a> Flat for SDef<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Sequence)]
    #[derive(ToStatic)]
    pub struct SExp {
        #[tag_explicit(0)] pub a: u8,
        #[optional] #[tag_explicit(1)] pub b: Option<bool>,
        #[default(9_u8)] #[tag_explicit(2)] pub c: u8,
    }
    impl Flat for SExp {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Sequence)]
    pub struct SImp<'a> {
        #[tag_implicit(0)] pub a: u8,
        #[optional] #[tag_implicit(1)] pub b: Option<OctetString<'a>>,
        #[default(9_u8)] #[tag_implicit(2)] pub c: u8,
        #[optional] #[tag_implicit(3)] pub d: Option<Vec<u8>>,
    }
    impl<'a> Flat for SImp<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Sequence)]
    pub struct SCls<'a> {
        #[tag_explicit(APPLICATION 1)] pub a: u8,
        #[tag_implicit(PRIVATE 2)] pub b: OctetString<'a>,
        #[optional] #[tag_implicit(APPLICATION 3)] pub c: Option<bool>,
        #[optional] #[tag_explicit(UNIVERSAL 17)] pub d: Option<u8>,
    }
    impl<'a> Flat for SCls<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Sequence)]
    pub struct SSame {
        #[optional] #[tag_implicit(1)] pub a: Option<u8>,
        #[optional] #[tag_implicit(APPLICATION 1)] pub b: Option<u8>,
        #[default(true)] #[tag_explicit(PRIVATE 1)] pub c: bool,
        #[optional] #[tag_implicit(UNIVERSAL 1)] pub d: Option<Null>,
    }
    impl Flat for SSame {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Sequence)]
    pub struct SAny<'a> {
         pub a: Oid<'a>,
        #[optional] pub b: Option<Any<'a>>,
    }
    impl<'a> Flat for SAny<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Sequence)]
    #[derive(ToStatic)]
    pub struct SLong {
        #[tag_explicit(31)] pub a: u8,
        #[optional] #[tag_implicit(1000)] pub b: Option<u8>,
        #[tag_implicit(APPLICATION 65535)] pub c: bool,
    }
    impl Flat for SLong {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Sequence)]
    pub struct SLeaf<'a> {
         pub a: Integer<'a>,
         pub b: BitString,
         pub c: UtcTime,
         pub d: Utf8String<'a>,
         pub e: Oid<'a>,
    }
    impl<'a> Flat for SLeaf<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); self.e.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); self.e.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Sequence)]
    pub struct SNest<'a> {
         pub a: SPlain,
        #[optional] #[tag_explicit(0)] pub b: Option<SOpt<'a>>,
        #[optional] #[tag_implicit(1)] pub c: Option<SPlain>,
         pub d: u8,
    }
    impl<'a> Flat for SNest<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Sequence)]
    pub struct SOpts<'a> {
        #[optional] pub a: Option<SPlain>,
        #[optional] pub b: Option<u8>,
        #[optional] pub c: Option<OctetString<'a>>,
        #[optional] pub d: Option<bool>,
    }
    impl<'a> Flat for SOpts<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Sequence)]
    #[derive(ToStatic)]
    pub struct SVec {
         pub a: Vec<SPlain>,
        #[optional] #[tag_explicit(3)] pub b: Option<Vec<u8>>,
    }
    impl Flat for SVec {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Sequence)]
    #[derive(ToStatic)]
    pub struct SOne {
        #[default(vec![1_u8])] #[tag_explicit(0)] pub a: Vec<u8>,
    }
    impl Flat for SOne {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Sequence)]
    #[derive(ToStatic)]
    pub struct SEmpty {
        
    }
    impl Flat for SEmpty {
        fn flat(&self, _: &mut Vec<i64>) {  }
        fn spans(&self, _: &mut Vec<i64>) {  }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Set)]
    #[derive(ToStatic)]
    pub struct TPlain {
         pub a: u8,
         pub b: bool,
    }
    impl Flat for TPlain {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Set)]
    pub struct TOpt<'a> {
        #[optional] pub a: Option<bool>,
         pub b: u8,
        #[optional] pub c: Option<OctetString<'a>>,
    }
    impl<'a> Flat for TOpt<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Set)]
    pub struct TTag<'a> {
        #[tag_implicit(0)] pub a: u8,
        #[optional] #[tag_explicit(1)] pub b: Option<OctetString<'a>>,
        #[default(true)] #[tag_implicit(APPLICATION 2)] pub c: bool,
    }
    impl<'a> Flat for TTag<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Set)]
    pub struct TNest<'a> {
         pub a: TPlain,
        #[optional] #[tag_implicit(1)] pub b: Option<SDef<'a>>,
    }
    impl<'a> Flat for TNest<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Sequence)]
    pub struct SInset<'a> {
        #[optional] pub a: Option<TOpt<'a>>,
        #[tag_implicit(4)] pub b: TPlain,
    }
    impl<'a> Flat for SInset<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Choice)]
    pub enum CUn<'a> {
        A(u8),
        B(bool),
        C(OctetString<'a>),
        D(SPlain),
    }
    impl<'a> Flat for CUn<'a> {
        fn flat(&self, o: &mut Vec<i64>) { match self { CUn::A(x) => { o.push(1); x.flat(o) } CUn::B(x) => { o.push(2); x.flat(o) } CUn::C(x) => { o.push(3); x.flat(o) } CUn::D(x) => { o.push(4); x.flat(o) } } }
        fn spans(&self, o: &mut Vec<i64>) { match self { CUn::A(x) => x.spans(o), CUn::B(x) => x.spans(o), CUn::C(x) => x.spans(o), CUn::D(x) => x.spans(o), } }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Choice)]
    #[tagged_explicit]
    pub enum CExp<'a> {
        A(u8),
        B(OctetString<'a>),
        #[tag(4)] C(bool),
        D(Vec<u8>),
    }
    impl<'a> Flat for CExp<'a> {
        fn flat(&self, o: &mut Vec<i64>) { match self { CExp::A(x) => { o.push(1); x.flat(o) } CExp::B(x) => { o.push(2); x.flat(o) } CExp::C(x) => { o.push(3); x.flat(o) } CExp::D(x) => { o.push(4); x.flat(o) } } }
        fn spans(&self, o: &mut Vec<i64>) { match self { CExp::A(x) => x.spans(o), CExp::B(x) => x.spans(o), CExp::C(x) => x.spans(o), CExp::D(x) => x.spans(o), } }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Choice)]
    #[tagged_implicit]
    pub enum CImp<'a> {
        A(u8),
        B(OctetString<'a>),
        #[tag(4)] C(bool),
        D(Vec<u8>),
        #[tag(31)] E(SOpt<'a>),
    }
    impl<'a> Flat for CImp<'a> {
        fn flat(&self, o: &mut Vec<i64>) { match self { CImp::A(x) => { o.push(1); x.flat(o) } CImp::B(x) => { o.push(2); x.flat(o) } CImp::C(x) => { o.push(3); x.flat(o) } CImp::D(x) => { o.push(4); x.flat(o) } CImp::E(x) => { o.push(5); x.flat(o) } } }
        fn spans(&self, o: &mut Vec<i64>) { match self { CImp::A(x) => x.spans(o), CImp::B(x) => x.spans(o), CImp::C(x) => x.spans(o), CImp::D(x) => x.spans(o), CImp::E(x) => x.spans(o), } }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Choice)]
    pub enum CAny<'a> {
        A(u8),
        B(Any<'a>),
    }
    impl<'a> Flat for CAny<'a> {
        fn flat(&self, o: &mut Vec<i64>) { match self { CAny::A(x) => { o.push(1); x.flat(o) } CAny::B(x) => { o.push(2); x.flat(o) } } }
        fn spans(&self, o: &mut Vec<i64>) { match self { CAny::A(x) => x.spans(o), CAny::B(x) => x.spans(o), } }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Choice)]
    #[tagged_explicit]
    pub enum COne<'a> {
        #[tag(300)] A(CUn<'a>),
    }
    impl<'a> Flat for COne<'a> {
        fn flat(&self, o: &mut Vec<i64>) { match self { COne::A(x) => { o.push(1); x.flat(o) } } }
        fn spans(&self, o: &mut Vec<i64>) { match self { COne::A(x) => x.spans(o), } }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Choice)]
    #[tagged_implicit]
    pub enum CStruct<'a> {
        A(SPlain),
        B(SImp<'a>),
        C(Null),
    }
    impl<'a> Flat for CStruct<'a> {
        fn flat(&self, o: &mut Vec<i64>) { match self { CStruct::A(x) => { o.push(1); x.flat(o) } CStruct::B(x) => { o.push(2); x.flat(o) } CStruct::C(x) => { o.push(3); x.flat(o) } } }
        fn spans(&self, o: &mut Vec<i64>) { match self { CStruct::A(x) => x.spans(o), CStruct::B(x) => x.spans(o), CStruct::C(x) => x.spans(o), } }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Choice)]
    pub enum CLit<'a> {
        A(Utf8String<'a>),
        B(Ia5String<'a>),
        C(UtcTime),
    }
    impl<'a> Flat for CLit<'a> {
        fn flat(&self, o: &mut Vec<i64>) { match self { CLit::A(x) => { o.push(1); x.flat(o) } CLit::B(x) => { o.push(2); x.flat(o) } CLit::C(x) => { o.push(3); x.flat(o) } } }
        fn spans(&self, o: &mut Vec<i64>) { match self { CLit::A(x) => x.spans(o), CLit::B(x) => x.spans(o), CLit::C(x) => x.spans(o), } }
    }

    #[derive(Debug, Clone, Copy, PartialEq, asn1_rs::Enumerated, asn1_rs::ToStatic)]
    pub enum EVals {
        V0 = 0,
        V1 = 4,
        V2 = 5,
        V3 = 300,
        V4 = 65536,
        V5 = 2147483647,
    }
    impl Flat for EVals {
        fn flat(&self, o: &mut Vec<i64>) { (*self as u32).flat(o) }
    }

    #[derive(Debug, Clone, Copy, PartialEq, asn1_rs::Enumerated, asn1_rs::ToStatic)]
    pub enum ESeq {
        V0,
        V1,
        V2 = 10,
        V3,
    }
    impl Flat for ESeq {
        fn flat(&self, o: &mut Vec<i64>) { (*self as u32).flat(o) }
    }

    #[derive(Debug, Clone, Copy, PartialEq, asn1_rs::Enumerated, asn1_rs::ToStatic)]
    pub enum EOne {
        V0 = 128,
    }
    impl Flat for EOne {
        fn flat(&self, o: &mut Vec<i64>) { (*self as u32).flat(o) }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Choice)]
    pub enum CNest<'a> {
        A(CImp<'a>),
        B(Vec<u8>),
    }
    impl<'a> Flat for CNest<'a> {
        fn flat(&self, o: &mut Vec<i64>) { match self { CNest::A(x) => { o.push(1); x.flat(o) } CNest::B(x) => { o.push(2); x.flat(o) } } }
        fn spans(&self, o: &mut Vec<i64>) { match self { CNest::A(x) => x.spans(o), CNest::B(x) => x.spans(o), } }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Choice)]
    pub enum CEnum {
        A(ESeq),
        B(Null),
    }
    impl Flat for CEnum {
        fn flat(&self, o: &mut Vec<i64>) { match self { CEnum::A(x) => { o.push(1); x.flat(o) } CEnum::B(x) => { o.push(2); x.flat(o) } } }
        fn spans(&self, o: &mut Vec<i64>) { match self { CEnum::A(x) => x.spans(o), CEnum::B(x) => x.spans(o), } }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Sequence)]
    pub struct SCho<'a> {
         pub a: CUn<'a>,
        #[optional] #[tag_explicit(0)] pub b: Option<CUn<'a>>,
         pub c: EVals,
        #[optional] #[tag_explicit(APPLICATION 1)] pub d: Option<CExp<'a>>,
    }
    impl<'a> Flat for SCho<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Sequence)]
    pub struct SEcho<'a> {
        #[optional] pub a: Option<ESeq>,
         pub b: CImp<'a>,
        #[optional] #[tag_implicit(7)] pub c: Option<ESeq>,
    }
    impl<'a> Flat for SEcho<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Alias)]
    #[derive(ToStatic)]
    pub struct AU8(pub u8);
    impl Flat for AU8 {
        fn flat(&self, o: &mut Vec<i64>) { self.0.flat(o) }
        fn spans(&self, o: &mut Vec<i64>) { self.0.spans(o) }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Alias)]
    pub struct AOct<'a>(pub OctetString<'a>);
    impl<'a> Flat for AOct<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.0.flat(o) }
        fn spans(&self, o: &mut Vec<i64>) { self.0.spans(o) }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Alias)]
    #[derive(ToStatic)]
    pub struct ABool(pub bool);
    impl Flat for ABool {
        fn flat(&self, o: &mut Vec<i64>) { self.0.flat(o) }
        fn spans(&self, o: &mut Vec<i64>) { self.0.spans(o) }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Alias)]
    pub struct AAny<'a>(pub Any<'a>);
    impl<'a> Flat for AAny<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.0.flat(o) }
        fn spans(&self, o: &mut Vec<i64>) { self.0.spans(o) }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Alias)]
    pub struct AUtf8<'a>(pub Utf8String<'a>);
    impl<'a> Flat for AUtf8<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.0.flat(o) }
        fn spans(&self, o: &mut Vec<i64>) { self.0.spans(o) }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Alias)]
    pub struct AOid<'a>(pub Oid<'a>);
    impl<'a> Flat for AOid<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.0.flat(o) }
        fn spans(&self, o: &mut Vec<i64>) { self.0.spans(o) }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Alias)]
    #[derive(ToStatic)]
    pub struct AVec(pub Vec<u8>);
    impl Flat for AVec {
        fn flat(&self, o: &mut Vec<i64>) { self.0.flat(o) }
        fn spans(&self, o: &mut Vec<i64>) { self.0.spans(o) }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Alias)]
    #[derive(ToStatic)]
    pub struct APlain(pub SPlain);
    impl Flat for APlain {
        fn flat(&self, o: &mut Vec<i64>) { self.0.flat(o) }
        fn spans(&self, o: &mut Vec<i64>) { self.0.spans(o) }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Alias)]
    pub struct ADef<'a>(pub SDef<'a>);
    impl<'a> Flat for ADef<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.0.flat(o) }
        fn spans(&self, o: &mut Vec<i64>) { self.0.spans(o) }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Alias)]
    pub struct ACho<'a>(pub CExp<'a>);
    impl<'a> Flat for ACho<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.0.flat(o) }
        fn spans(&self, o: &mut Vec<i64>) { self.0.spans(o) }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Alias)]
    #[derive(ToStatic)]
    pub struct AEnum(pub EVals);
    impl Flat for AEnum {
        fn flat(&self, o: &mut Vec<i64>) { self.0.flat(o) }
        fn spans(&self, o: &mut Vec<i64>) { self.0.spans(o) }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Alias)]
    pub struct ABytes<'a>(pub &'a [u8]);
    impl<'a> Flat for ABytes<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.0.flat(o) }
        fn spans(&self, o: &mut Vec<i64>) { self.0.spans(o) }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Alias)]
    #[derive(ToStatic)]
    pub struct AA(pub AU8);
    impl Flat for AA {
        fn flat(&self, o: &mut Vec<i64>) { self.0.flat(o) }
        fn spans(&self, o: &mut Vec<i64>) { self.0.spans(o) }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Sequence)]
    pub struct SAlias<'a> {
         pub a: AU8,
        #[optional] #[tag_implicit(1)] pub b: Option<AUtf8<'a>>,
        #[optional] pub c: Option<APlain>,
        #[optional] #[tag_explicit(2)] pub d: Option<ACho<'a>>,
    }
    impl<'a> Flat for SAlias<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Sequence)]
    pub struct SDeep<'a> {
        #[optional] #[tag_explicit(0)] pub a: Option<Any<'a>>,
         pub b: SAny<'a>,
        #[optional] pub c: Option<Vec<Any<'a>>>,
        #[tag_explicit(APPLICATION 1)] pub d: CAny<'a>,
        #[optional] #[tag_implicit(2)] pub e: Option<SAny<'a>>,
         pub f: Any<'a>,
    }
    impl<'a> Flat for SDeep<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); self.e.flat(o); self.f.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); self.e.spans(o); self.f.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Set)]
    pub struct TDeep<'a> {
        #[optional] pub a: Option<SDeep<'a>>,
        #[tag_explicit(PRIVATE 3)] pub b: Any<'a>,
        #[optional] pub c: Option<AAny<'a>>,
    }
    impl<'a> Flat for TDeep<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Choice)]
    #[tagged_explicit]
    pub enum CDeep<'a> {
        A(Any<'a>),
        B(SDeep<'a>),
        C(Vec<Any<'a>>),
    }
    impl<'a> Flat for CDeep<'a> {
        fn flat(&self, o: &mut Vec<i64>) { match self { CDeep::A(x) => { o.push(1); x.flat(o) } CDeep::B(x) => { o.push(2); x.flat(o) } CDeep::C(x) => { o.push(3); x.flat(o) } } }
        fn spans(&self, o: &mut Vec<i64>) { match self { CDeep::A(x) => x.spans(o), CDeep::B(x) => x.spans(o), CDeep::C(x) => x.spans(o), } }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Choice)]
    #[tagged_implicit]
    pub enum CDeepi<'a> {
        A(SAny<'a>),
        B(SDeep<'a>),
        C(Vec<Any<'a>>),
    }
    impl<'a> Flat for CDeepi<'a> {
        fn flat(&self, o: &mut Vec<i64>) { match self { CDeepi::A(x) => { o.push(1); x.flat(o) } CDeepi::B(x) => { o.push(2); x.flat(o) } CDeepi::C(x) => { o.push(3); x.flat(o) } } }
        fn spans(&self, o: &mut Vec<i64>) { match self { CDeepi::A(x) => x.spans(o), CDeepi::B(x) => x.spans(o), CDeepi::C(x) => x.spans(o), } }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Sequence)]
    #[error(crate::derived::MyErr)]
    pub struct SErr<'a> {
         pub a: u8,
        #[optional] pub b: Option<bool>,
        #[optional] #[tag_implicit(1)] pub c: Option<OctetString<'a>>,
    }
    impl<'a> Flat for SErr<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Sequence)]
    pub struct SMaperr<'a> {
        #[map_err(|_| BerError::new(Input::from(&[]), InnerError::Unsupported))] pub a: SErr<'a>,
        #[optional] #[tag_explicit(0)] #[map_err(|e| e)] pub b: Option<u8>,
    }
    impl<'a> Flat for SMaperr<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Sequence)]
    #[asn1(encode = "")]
    pub struct SConst {
         pub a: u8,
        #[asn1(parse = "|input| Ok((input, 0xfe))")] pub b: u8,
        #[optional] pub c: Option<bool>,
    }
    impl Flat for SConst {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Sequence)]
    #[asn1(encode = "")]
    pub struct SOctet {
        #[asn1(parse = "super::one_octet")] pub a: u8,
         pub b: bool,
        #[asn1(parse = "super::one_octet")] pub c: u8,
    }
    impl Flat for SOctet {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Sequence)]
    #[asn1(parse = "DER", encode = "", orig_input)]
    pub struct SOrig<'a> {
         pub a: u8,
        #[asn1(parse = "|input| Ok((input, orig_input))")] pub b: Input<'a>,
        #[optional] pub c: Option<bool>,
    }
    impl<'a> Flat for SOrig<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Sequence)]
    pub struct G0<'a> {
        #[default(Ia5String::new("z"))] #[tag_explicit(PRIVATE 3)] pub a: Ia5String<'a>,
        #[tag_implicit(30)] pub b: Null,
        #[default(9_u8)] pub c: u8,
    }
    impl<'a> Flat for G0<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Set)]
    pub struct G1<'a> {
        #[optional] pub a: Option<Null>,
        #[default(OctetString::new(b"xy"))] pub b: OctetString<'a>,
        #[tag_explicit(APPLICATION 2)] pub c: i16,
         pub d: OctetString<'a>,
    }
    impl<'a> Flat for G1<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Set)]
    pub struct G2<'a> {
        #[tag_explicit(128)] pub a: Oid<'a>,
         pub b: Oid<'a>,
    }
    impl<'a> Flat for G2<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Set)]
    pub struct G3 {
        #[optional] pub a: Option<Vec<u8>>,
        #[optional] pub b: Option<bool>,
        #[optional] #[tag_explicit(128)] pub c: Option<BitString>,
    }
    impl Flat for G3 {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Sequence)]
    pub struct G4<'a> {
        #[optional] pub a: Option<BitString>,
         pub b: bool,
        #[optional] #[tag_explicit(128)] pub c: Option<BitString>,
        #[optional] #[tag_implicit(PRIVATE 31)] pub d: Option<OctetString<'a>>,
    }
    impl<'a> Flat for G4<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Sequence)]
    pub struct G5<'a> {
         pub a: u32,
         pub b: u8,
        #[optional] pub c: Option<Oid<'a>>,
    }
    impl<'a> Flat for G5<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Sequence)]
    pub struct G6<'a> {
        #[tag_implicit(128)] pub a: OctetString<'a>,
    }
    impl<'a> Flat for G6<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Sequence)]
    pub struct G7<'a> {
        #[tag_explicit(31)] pub a: i16,
        #[tag_implicit(3)] pub b: Ia5String<'a>,
        #[tag_implicit(300)] pub c: Oid<'a>,
    }
    impl<'a> Flat for G7<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Sequence)]
    #[derive(ToStatic)]
    pub struct G8 {
         pub a: Vec<u8>,
        #[default(vec![1_u8])] #[tag_explicit(30)] pub b: Vec<u8>,
    }
    impl Flat for G8 {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Sequence)]
    pub struct G9<'a> {
        #[tag_implicit(APPLICATION 127)] pub a: Null,
        #[default(Utf8String::new("z"))] pub b: Utf8String<'a>,
        #[default(Ia5String::new("z"))] pub c: Ia5String<'a>,
    }
    impl<'a> Flat for G9<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Sequence)]
    pub struct G10 {
        #[tag_implicit(PRIVATE 30)] pub a: Enumerated,
         pub b: u32,
    }
    impl Flat for G10 {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Sequence)]
    pub struct G11<'a> {
        #[tag_explicit(127)] pub a: Utf8String<'a>,
        #[default(true)] pub b: bool,
         pub c: Null,
    }
    impl<'a> Flat for G11<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Sequence)]
    pub struct G12<'a> {
        #[optional] pub a: Option<Null>,
        #[optional] pub b: Option<Integer<'a>>,
    }
    impl<'a> Flat for G12<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Set)]
    pub struct G13<'a> {
        #[tag_explicit(30)] pub a: OctetString<'a>,
        #[tag_implicit(300)] pub b: Ia5String<'a>,
         pub c: Null,
    }
    impl<'a> Flat for G13<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Sequence)]
    pub struct G14<'a> {
        #[tag_implicit(PRIVATE 30)] pub a: OctetString<'a>,
        #[optional] #[tag_implicit(APPLICATION 1)] pub b: Option<bool>,
        #[default(vec![1_u8])] #[tag_explicit(APPLICATION 3)] pub c: Vec<u8>,
    }
    impl<'a> Flat for G14<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Set)]
    pub struct G15 {
        #[optional] pub a: Option<u8>,
        #[default(Null {})] #[tag_explicit(127)] pub b: Null,
    }
    impl Flat for G15 {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Sequence)]
    pub struct G16<'a> {
        #[default(Utf8String::new("z"))] pub a: Utf8String<'a>,
        #[optional] pub b: Option<Oid<'a>>,
        #[optional] pub c: Option<Integer<'a>>,
    }
    impl<'a> Flat for G16<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Sequence)]
    pub struct G17<'a> {
        #[tag_implicit(APPLICATION 127)] pub a: Null,
        #[tag_implicit(APPLICATION 2)] pub b: Vec<u8>,
        #[tag_implicit(30)] pub c: OctetString<'a>,
    }
    impl<'a> Flat for G17<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Sequence)]
    pub struct G18<'a> {
         pub a: Integer<'a>,
    }
    impl<'a> Flat for G18<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Sequence)]
    pub struct G19<'a> {
         pub a: Ia5String<'a>,
    }
    impl<'a> Flat for G19<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Set)]
    pub struct G20<'a> {
         pub a: Enumerated,
        #[optional] #[tag_explicit(31)] pub b: Option<Oid<'a>>,
    }
    impl<'a> Flat for G20<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Set)]
    pub struct G21 {
        #[optional] #[tag_explicit(1)] pub a: Option<i16>,
         pub b: BitString,
        #[tag_explicit(0)] pub c: u32,
    }
    impl Flat for G21 {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Sequence)]
    pub struct G22 {
         pub a: u8,
        #[optional] #[tag_explicit(30)] pub b: Option<bool>,
        #[optional] #[tag_explicit(300)] pub c: Option<Null>,
    }
    impl Flat for G22 {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Set)]
    pub struct G23<'a> {
        #[optional] #[tag_explicit(300)] pub a: Option<Ia5String<'a>>,
         pub b: i16,
        #[optional] #[tag_implicit(APPLICATION 300)] pub c: Option<u8>,
    }
    impl<'a> Flat for G23<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Sequence)]
    pub struct G24<'a> {
        #[optional] #[tag_explicit(APPLICATION 0)] pub a: Option<Oid<'a>>,
        #[tag_explicit(31)] pub b: bool,
        #[tag_implicit(APPLICATION 1)] pub c: Oid<'a>,
        #[optional] #[tag_explicit(128)] pub d: Option<Oid<'a>>,
    }
    impl<'a> Flat for G24<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Set)]
    pub struct G25<'a> {
        #[default(-2_i16)] #[tag_implicit(APPLICATION 1)] pub a: i16,
        #[optional] #[tag_explicit(PRIVATE 300)] pub b: Option<u32>,
        #[tag_implicit(31)] pub c: Oid<'a>,
        #[optional] #[tag_explicit(127)] pub d: Option<u8>,
    }
    impl<'a> Flat for G25<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Sequence)]
    pub struct G26<'a> {
         pub a: OctetString<'a>,
        #[optional] #[tag_implicit(APPLICATION 2)] pub b: Option<Integer<'a>>,
    }
    impl<'a> Flat for G26<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Set)]
    pub struct G27 {
        #[tag_implicit(PRIVATE 3)] pub a: u8,
        #[optional] pub b: Option<BitString>,
        #[default(-2_i16)] #[tag_implicit(APPLICATION 1)] pub c: i16,
    }
    impl Flat for G27 {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Sequence)]
    pub struct G28<'a> {
        #[default(true)] pub a: bool,
        #[tag_implicit(127)] pub b: Oid<'a>,
    }
    impl<'a> Flat for G28<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Set)]
    pub struct G29<'a> {
        #[tag_implicit(APPLICATION 127)] pub a: Enumerated,
         pub b: OctetString<'a>,
        #[optional] #[tag_implicit(31)] pub c: Option<Oid<'a>>,
         pub d: Vec<u8>,
    }
    impl<'a> Flat for G29<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Sequence)]
    pub struct G30 {
        #[optional] #[tag_explicit(PRIVATE 300)] pub a: Option<bool>,
        #[optional] #[tag_implicit(APPLICATION 1)] pub b: Option<Null>,
        #[default(vec![1_u8])] pub c: Vec<u8>,
    }
    impl Flat for G30 {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Sequence)]
    pub struct G31<'a> {
         pub a: OctetString<'a>,
        #[optional] #[tag_implicit(30)] pub b: Option<Oid<'a>>,
        #[default(-2_i16)] pub c: i16,
    }
    impl<'a> Flat for G31<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Sequence)]
    pub struct G32<'a> {
        #[optional] pub a: Option<u32>,
         pub b: Null,
        #[tag_implicit(PRIVATE 0)] pub c: Integer<'a>,
        #[default(vec![1_u8])] #[tag_explicit(300)] pub d: Vec<u8>,
    }
    impl<'a> Flat for G32<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Set)]
    pub struct G33<'a> {
        #[tag_implicit(PRIVATE 1)] pub a: Integer<'a>,
        #[optional] #[tag_implicit(31)] pub b: Option<Oid<'a>>,
        #[default(true)] pub c: bool,
        #[tag_explicit(2)] pub d: u32,
    }
    impl<'a> Flat for G33<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Sequence)]
    pub struct G34<'a> {
        #[optional] #[tag_implicit(31)] pub a: Option<Integer<'a>>,
        #[tag_implicit(APPLICATION 1)] pub b: bool,
         pub c: u32,
        #[optional] #[tag_explicit(3)] pub d: Option<BitString>,
    }
    impl<'a> Flat for G34<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Set)]
    pub struct G35 {
        #[optional] #[tag_explicit(3)] pub a: Option<BitString>,
    }
    impl Flat for G35 {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Sequence)]
    pub struct G36<'a> {
        #[default(OctetString::new(b"xy"))] #[tag_explicit(31)] pub a: OctetString<'a>,
        #[tag_implicit(APPLICATION 3)] pub b: OctetString<'a>,
        #[tag_explicit(0)] pub c: Integer<'a>,
    }
    impl<'a> Flat for G36<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Sequence)]
    pub struct G37<'a> {
        #[default(Utf8String::new("z"))] pub a: Utf8String<'a>,
        #[default(-2_i16)] #[tag_implicit(2)] pub b: i16,
    }
    impl<'a> Flat for G37<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Sequence)]
    pub struct G38<'a> {
        #[tag_explicit(31)] pub a: u8,
        #[optional] pub b: Option<Oid<'a>>,
        #[optional] pub c: Option<BitString>,
    }
    impl<'a> Flat for G38<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(Sequence)]
    pub struct G39<'a> {
        #[optional] pub a: Option<Vec<u8>>,
        #[default(Null {})] pub b: Null,
        #[optional] pub c: Option<BitString>,
        #[optional] pub d: Option<Oid<'a>>,
    }
    impl<'a> Flat for G39<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); }
    }
}

pub mod par {
    #![allow(unused_imports)]
    use crate::flat::Flat;
    use asn1_rs::nom::Err;
    use asn1_rs::Tagged;
    use asn1_rs::{nom, BerParserAlias, DerParserAlias, BerParserChoice, DerParserChoice, BerParserSequence, DerParserSequence, BerParserSet, DerParserSet, ToBerSequence, ToDerSequence, ToBerSet, ToDerSet, Any, BitString, Enumerated, Ia5String, Integer, Null, OctetString, Oid, UtcTime, Utf8String};

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSequence)]
    #[derive(DerParserSequence)]
    #[derive(ToBerSequence)]
    #[derive(ToDerSequence)]
    pub struct SPlain {
         pub a: u8,
         pub b: bool,
    }
    impl Flat for SPlain {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSequence)]
    #[derive(DerParserSequence)]
    #[derive(ToBerSequence)]
    #[derive(ToDerSequence)]
    pub struct SOpt<'a> {
        #[optional] pub a: Option<u8>,
         pub b: bool,
        #[optional] pub c: Option<OctetString<'a>>,
    }
    impl<'a> Flat for SOpt<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSequence)]
    #[derive(DerParserSequence)]
    #[derive(ToBerSequence)]
    #[derive(ToDerSequence)]
    pub struct SDef<'a> {
        #[default(9_u8)] pub a: u8,
        #[default(true)] pub b: bool,
        #[default(Utf8String::new("z"))] pub c: Utf8String<'a>,
    }
    impl<'a> Flat for SDef<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSequence)]
    #[derive(DerParserSequence)]
    #[derive(ToBerSequence)]
    #[derive(ToDerSequence)]
    pub struct SExp {
        #[tag_explicit(0)] pub a: u8,
        #[optional] #[tag_explicit(1)] pub b: Option<bool>,
        #[default(9_u8)] #[tag_explicit(2)] pub c: u8,
    }
    impl Flat for SExp {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSequence)]
    #[derive(DerParserSequence)]
    #[derive(ToBerSequence)]
    #[derive(ToDerSequence)]
    pub struct SImp<'a> {
        #[tag_implicit(0)] pub a: u8,
        #[optional] #[tag_implicit(1)] pub b: Option<OctetString<'a>>,
        #[default(9_u8)] #[tag_implicit(2)] pub c: u8,
        #[optional] #[tag_implicit(3)] pub d: Option<Vec<u8>>,
    }
    impl<'a> Flat for SImp<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSequence)]
    #[derive(DerParserSequence)]
    #[derive(ToBerSequence)]
    #[derive(ToDerSequence)]
    pub struct SCls<'a> {
        #[tag_explicit(APPLICATION 1)] pub a: u8,
        #[tag_implicit(PRIVATE 2)] pub b: OctetString<'a>,
        #[optional] #[tag_implicit(APPLICATION 3)] pub c: Option<bool>,
        #[optional] #[tag_explicit(UNIVERSAL 17)] pub d: Option<u8>,
    }
    impl<'a> Flat for SCls<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSequence)]
    #[derive(DerParserSequence)]
    #[derive(ToBerSequence)]
    #[derive(ToDerSequence)]
    pub struct SSame {
        #[optional] #[tag_implicit(1)] pub a: Option<u8>,
        #[optional] #[tag_implicit(APPLICATION 1)] pub b: Option<u8>,
        #[default(true)] #[tag_explicit(PRIVATE 1)] pub c: bool,
        #[optional] #[tag_implicit(UNIVERSAL 1)] pub d: Option<Null>,
    }
    impl Flat for SSame {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSequence)]
    #[derive(DerParserSequence)]
    #[derive(ToBerSequence)]
    #[derive(ToDerSequence)]
    pub struct SAny<'a> {
         pub a: Oid<'a>,
        #[optional] pub b: Option<Any<'a>>,
    }
    impl<'a> Flat for SAny<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSequence)]
    #[derive(DerParserSequence)]
    #[derive(ToBerSequence)]
    #[derive(ToDerSequence)]
    pub struct SLong {
        #[tag_explicit(31)] pub a: u8,
        #[optional] #[tag_implicit(1000)] pub b: Option<u8>,
        #[tag_implicit(APPLICATION 65535)] pub c: bool,
    }
    impl Flat for SLong {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSequence)]
    #[derive(DerParserSequence)]
    #[derive(ToBerSequence)]
    #[derive(ToDerSequence)]
    pub struct SLeaf<'a> {
         pub a: Integer<'a>,
         pub b: BitString,
         pub c: UtcTime,
         pub d: Utf8String<'a>,
         pub e: Oid<'a>,
    }
    impl<'a> Flat for SLeaf<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); self.e.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); self.e.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSequence)]
    #[derive(DerParserSequence)]
    #[derive(ToBerSequence)]
    #[derive(ToDerSequence)]
    pub struct SNest<'a> {
         pub a: SPlain,
        #[optional] #[tag_explicit(0)] pub b: Option<SOpt<'a>>,
        #[optional] #[tag_implicit(1)] pub c: Option<SPlain>,
         pub d: u8,
    }
    impl<'a> Flat for SNest<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSequence)]
    #[derive(DerParserSequence)]
    #[derive(ToBerSequence)]
    #[derive(ToDerSequence)]
    pub struct SOpts<'a> {
        #[optional] pub a: Option<SPlain>,
        #[optional] pub b: Option<u8>,
        #[optional] pub c: Option<OctetString<'a>>,
        #[optional] pub d: Option<bool>,
    }
    impl<'a> Flat for SOpts<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSequence)]
    #[derive(DerParserSequence)]
    #[derive(ToBerSequence)]
    #[derive(ToDerSequence)]
    pub struct SVec {
         pub a: Vec<SPlain>,
        #[optional] #[tag_explicit(3)] pub b: Option<Vec<u8>>,
    }
    impl Flat for SVec {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSequence)]
    #[derive(DerParserSequence)]
    #[derive(ToBerSequence)]
    #[derive(ToDerSequence)]
    pub struct SOne {
        #[default(vec![1_u8])] #[tag_explicit(0)] pub a: Vec<u8>,
    }
    impl Flat for SOne {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSequence)]
    #[derive(DerParserSequence)]
    #[derive(ToBerSequence)]
    #[derive(ToDerSequence)]
    pub struct SEmpty {
        
    }
    impl Flat for SEmpty {
        fn flat(&self, _: &mut Vec<i64>) {  }
        fn spans(&self, _: &mut Vec<i64>) {  }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSet)]
    #[derive(DerParserSet)]
    #[derive(ToBerSet)]
    #[derive(ToDerSet)]
    pub struct TPlain {
         pub a: u8,
         pub b: bool,
    }
    impl Flat for TPlain {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSet)]
    #[derive(DerParserSet)]
    #[derive(ToBerSet)]
    #[derive(ToDerSet)]
    pub struct TOpt<'a> {
        #[optional] pub a: Option<bool>,
         pub b: u8,
        #[optional] pub c: Option<OctetString<'a>>,
    }
    impl<'a> Flat for TOpt<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSet)]
    #[derive(DerParserSet)]
    #[derive(ToBerSet)]
    #[derive(ToDerSet)]
    pub struct TTag<'a> {
        #[tag_implicit(0)] pub a: u8,
        #[optional] #[tag_explicit(1)] pub b: Option<OctetString<'a>>,
        #[default(true)] #[tag_implicit(APPLICATION 2)] pub c: bool,
    }
    impl<'a> Flat for TTag<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSet)]
    #[derive(DerParserSet)]
    #[derive(ToBerSet)]
    #[derive(ToDerSet)]
    pub struct TNest<'a> {
         pub a: TPlain,
        #[optional] #[tag_implicit(1)] pub b: Option<SDef<'a>>,
    }
    impl<'a> Flat for TNest<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSequence)]
    #[derive(DerParserSequence)]
    #[derive(ToBerSequence)]
    #[derive(ToDerSequence)]
    pub struct SInset<'a> {
        #[optional] pub a: Option<TOpt<'a>>,
        #[tag_implicit(4)] pub b: TPlain,
    }
    impl<'a> Flat for SInset<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserChoice)]
    #[derive(DerParserChoice)]
    #[tagged_explicit]
    pub enum PExp<'a> {
        A(u8),
        B(Utf8String<'a>),
        C(bool),
    }
    impl<'a> Flat for PExp<'a> {
        fn flat(&self, o: &mut Vec<i64>) { match self { PExp::A(x) => { o.push(1); x.flat(o) } PExp::B(x) => { o.push(2); x.flat(o) } PExp::C(x) => { o.push(3); x.flat(o) } } }
        fn spans(&self, o: &mut Vec<i64>) { match self { PExp::A(x) => x.spans(o), PExp::B(x) => x.spans(o), PExp::C(x) => x.spans(o), } }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserChoice)]
    #[derive(DerParserChoice)]
    #[tagged_implicit]
    pub enum PImp<'a> {
        A(u8),
        B(Utf8String<'a>),
        C(bool),
    }
    impl<'a> Flat for PImp<'a> {
        fn flat(&self, o: &mut Vec<i64>) { match self { PImp::A(x) => { o.push(1); x.flat(o) } PImp::B(x) => { o.push(2); x.flat(o) } PImp::C(x) => { o.push(3); x.flat(o) } } }
        fn spans(&self, o: &mut Vec<i64>) { match self { PImp::A(x) => x.spans(o), PImp::B(x) => x.spans(o), PImp::C(x) => x.spans(o), } }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserAlias)]
    #[derive(DerParserAlias)]
    pub struct AU8(pub u8);
    impl Flat for AU8 {
        fn flat(&self, o: &mut Vec<i64>) { self.0.flat(o) }
        fn spans(&self, o: &mut Vec<i64>) { self.0.spans(o) }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserAlias)]
    #[derive(DerParserAlias)]
    pub struct AOct<'a>(pub OctetString<'a>);
    impl<'a> Flat for AOct<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.0.flat(o) }
        fn spans(&self, o: &mut Vec<i64>) { self.0.spans(o) }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserAlias)]
    #[derive(DerParserAlias)]
    pub struct ABool(pub bool);
    impl Flat for ABool {
        fn flat(&self, o: &mut Vec<i64>) { self.0.flat(o) }
        fn spans(&self, o: &mut Vec<i64>) { self.0.spans(o) }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserAlias)]
    #[derive(DerParserAlias)]
    pub struct AAny<'a>(pub Any<'a>);
    impl<'a> Flat for AAny<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.0.flat(o) }
        fn spans(&self, o: &mut Vec<i64>) { self.0.spans(o) }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserAlias)]
    #[derive(DerParserAlias)]
    pub struct AUtf8<'a>(pub Utf8String<'a>);
    impl<'a> Flat for AUtf8<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.0.flat(o) }
        fn spans(&self, o: &mut Vec<i64>) { self.0.spans(o) }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSequence)]
    #[derive(DerParserSequence)]
    #[derive(ToBerSequence)]
    #[derive(ToDerSequence)]
    pub struct G0<'a> {
        #[default(Ia5String::new("z"))] #[tag_explicit(PRIVATE 3)] pub a: Ia5String<'a>,
        #[tag_implicit(30)] pub b: Null,
        #[default(9_u8)] pub c: u8,
    }
    impl<'a> Flat for G0<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSet)]
    #[derive(DerParserSet)]
    #[derive(ToBerSet)]
    #[derive(ToDerSet)]
    pub struct G1<'a> {
        #[optional] pub a: Option<Null>,
        #[default(OctetString::new(b"xy"))] pub b: OctetString<'a>,
        #[tag_explicit(APPLICATION 2)] pub c: i16,
         pub d: OctetString<'a>,
    }
    impl<'a> Flat for G1<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSet)]
    #[derive(DerParserSet)]
    #[derive(ToBerSet)]
    #[derive(ToDerSet)]
    pub struct G2<'a> {
        #[tag_explicit(128)] pub a: Oid<'a>,
         pub b: Oid<'a>,
    }
    impl<'a> Flat for G2<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSet)]
    #[derive(DerParserSet)]
    #[derive(ToBerSet)]
    #[derive(ToDerSet)]
    pub struct G3 {
        #[optional] pub a: Option<Vec<u8>>,
        #[optional] pub b: Option<bool>,
        #[optional] #[tag_explicit(128)] pub c: Option<BitString>,
    }
    impl Flat for G3 {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSequence)]
    #[derive(DerParserSequence)]
    #[derive(ToBerSequence)]
    #[derive(ToDerSequence)]
    pub struct G4<'a> {
        #[optional] pub a: Option<BitString>,
         pub b: bool,
        #[optional] #[tag_explicit(128)] pub c: Option<BitString>,
        #[optional] #[tag_implicit(PRIVATE 31)] pub d: Option<OctetString<'a>>,
    }
    impl<'a> Flat for G4<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSequence)]
    #[derive(DerParserSequence)]
    #[derive(ToBerSequence)]
    #[derive(ToDerSequence)]
    pub struct G5<'a> {
         pub a: u32,
         pub b: u8,
        #[optional] pub c: Option<Oid<'a>>,
    }
    impl<'a> Flat for G5<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSequence)]
    #[derive(DerParserSequence)]
    #[derive(ToBerSequence)]
    #[derive(ToDerSequence)]
    pub struct G6<'a> {
        #[tag_implicit(128)] pub a: OctetString<'a>,
    }
    impl<'a> Flat for G6<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSequence)]
    #[derive(DerParserSequence)]
    #[derive(ToBerSequence)]
    #[derive(ToDerSequence)]
    pub struct G7<'a> {
        #[tag_explicit(31)] pub a: i16,
        #[tag_implicit(3)] pub b: Ia5String<'a>,
        #[tag_implicit(300)] pub c: Oid<'a>,
    }
    impl<'a> Flat for G7<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSequence)]
    #[derive(DerParserSequence)]
    #[derive(ToBerSequence)]
    #[derive(ToDerSequence)]
    pub struct G8 {
         pub a: Vec<u8>,
        #[default(vec![1_u8])] #[tag_explicit(30)] pub b: Vec<u8>,
    }
    impl Flat for G8 {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSequence)]
    #[derive(DerParserSequence)]
    #[derive(ToBerSequence)]
    #[derive(ToDerSequence)]
    pub struct G9<'a> {
        #[tag_implicit(APPLICATION 127)] pub a: Null,
        #[default(Utf8String::new("z"))] pub b: Utf8String<'a>,
        #[default(Ia5String::new("z"))] pub c: Ia5String<'a>,
    }
    impl<'a> Flat for G9<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSequence)]
    #[derive(DerParserSequence)]
    #[derive(ToBerSequence)]
    #[derive(ToDerSequence)]
    pub struct G10 {
        #[tag_implicit(PRIVATE 30)] pub a: Enumerated,
         pub b: u32,
    }
    impl Flat for G10 {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSequence)]
    #[derive(DerParserSequence)]
    #[derive(ToBerSequence)]
    #[derive(ToDerSequence)]
    pub struct G11<'a> {
        #[tag_explicit(127)] pub a: Utf8String<'a>,
        #[default(true)] pub b: bool,
         pub c: Null,
    }
    impl<'a> Flat for G11<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSequence)]
    #[derive(DerParserSequence)]
    #[derive(ToBerSequence)]
    #[derive(ToDerSequence)]
    pub struct G12<'a> {
        #[optional] pub a: Option<Null>,
        #[optional] pub b: Option<Integer<'a>>,
    }
    impl<'a> Flat for G12<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSet)]
    #[derive(DerParserSet)]
    #[derive(ToBerSet)]
    #[derive(ToDerSet)]
    pub struct G13<'a> {
        #[tag_explicit(30)] pub a: OctetString<'a>,
        #[tag_implicit(300)] pub b: Ia5String<'a>,
         pub c: Null,
    }
    impl<'a> Flat for G13<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSequence)]
    #[derive(DerParserSequence)]
    #[derive(ToBerSequence)]
    #[derive(ToDerSequence)]
    pub struct G14<'a> {
        #[tag_implicit(PRIVATE 30)] pub a: OctetString<'a>,
        #[optional] #[tag_implicit(APPLICATION 1)] pub b: Option<bool>,
        #[default(vec![1_u8])] #[tag_explicit(APPLICATION 3)] pub c: Vec<u8>,
    }
    impl<'a> Flat for G14<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSet)]
    #[derive(DerParserSet)]
    #[derive(ToBerSet)]
    #[derive(ToDerSet)]
    pub struct G15 {
        #[optional] pub a: Option<u8>,
        #[default(Null {})] #[tag_explicit(127)] pub b: Null,
    }
    impl Flat for G15 {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSequence)]
    #[derive(DerParserSequence)]
    #[derive(ToBerSequence)]
    #[derive(ToDerSequence)]
    pub struct G16<'a> {
        #[default(Utf8String::new("z"))] pub a: Utf8String<'a>,
        #[optional] pub b: Option<Oid<'a>>,
        #[optional] pub c: Option<Integer<'a>>,
    }
    impl<'a> Flat for G16<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSequence)]
    #[derive(DerParserSequence)]
    #[derive(ToBerSequence)]
    #[derive(ToDerSequence)]
    pub struct G17<'a> {
        #[tag_implicit(APPLICATION 127)] pub a: Null,
        #[tag_implicit(APPLICATION 2)] pub b: Vec<u8>,
        #[tag_implicit(30)] pub c: OctetString<'a>,
    }
    impl<'a> Flat for G17<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSequence)]
    #[derive(DerParserSequence)]
    #[derive(ToBerSequence)]
    #[derive(ToDerSequence)]
    pub struct G18<'a> {
         pub a: Integer<'a>,
    }
    impl<'a> Flat for G18<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSequence)]
    #[derive(DerParserSequence)]
    #[derive(ToBerSequence)]
    #[derive(ToDerSequence)]
    pub struct G19<'a> {
         pub a: Ia5String<'a>,
    }
    impl<'a> Flat for G19<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSet)]
    #[derive(DerParserSet)]
    #[derive(ToBerSet)]
    #[derive(ToDerSet)]
    pub struct G20<'a> {
         pub a: Enumerated,
        #[optional] #[tag_explicit(31)] pub b: Option<Oid<'a>>,
    }
    impl<'a> Flat for G20<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSet)]
    #[derive(DerParserSet)]
    #[derive(ToBerSet)]
    #[derive(ToDerSet)]
    pub struct G21 {
        #[optional] #[tag_explicit(1)] pub a: Option<i16>,
         pub b: BitString,
        #[tag_explicit(0)] pub c: u32,
    }
    impl Flat for G21 {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSequence)]
    #[derive(DerParserSequence)]
    #[derive(ToBerSequence)]
    #[derive(ToDerSequence)]
    pub struct G22 {
         pub a: u8,
        #[optional] #[tag_explicit(30)] pub b: Option<bool>,
        #[optional] #[tag_explicit(300)] pub c: Option<Null>,
    }
    impl Flat for G22 {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSet)]
    #[derive(DerParserSet)]
    #[derive(ToBerSet)]
    #[derive(ToDerSet)]
    pub struct G23<'a> {
        #[optional] #[tag_explicit(300)] pub a: Option<Ia5String<'a>>,
         pub b: i16,
        #[optional] #[tag_implicit(APPLICATION 300)] pub c: Option<u8>,
    }
    impl<'a> Flat for G23<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSequence)]
    #[derive(DerParserSequence)]
    #[derive(ToBerSequence)]
    #[derive(ToDerSequence)]
    pub struct G24<'a> {
        #[optional] #[tag_explicit(APPLICATION 0)] pub a: Option<Oid<'a>>,
        #[tag_explicit(31)] pub b: bool,
        #[tag_implicit(APPLICATION 1)] pub c: Oid<'a>,
        #[optional] #[tag_explicit(128)] pub d: Option<Oid<'a>>,
    }
    impl<'a> Flat for G24<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSet)]
    #[derive(DerParserSet)]
    #[derive(ToBerSet)]
    #[derive(ToDerSet)]
    pub struct G25<'a> {
        #[default(-2_i16)] #[tag_implicit(APPLICATION 1)] pub a: i16,
        #[optional] #[tag_explicit(PRIVATE 300)] pub b: Option<u32>,
        #[tag_implicit(31)] pub c: Oid<'a>,
        #[optional] #[tag_explicit(127)] pub d: Option<u8>,
    }
    impl<'a> Flat for G25<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSequence)]
    #[derive(DerParserSequence)]
    #[derive(ToBerSequence)]
    #[derive(ToDerSequence)]
    pub struct G26<'a> {
         pub a: OctetString<'a>,
        #[optional] #[tag_implicit(APPLICATION 2)] pub b: Option<Integer<'a>>,
    }
    impl<'a> Flat for G26<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSet)]
    #[derive(DerParserSet)]
    #[derive(ToBerSet)]
    #[derive(ToDerSet)]
    pub struct G27 {
        #[tag_implicit(PRIVATE 3)] pub a: u8,
        #[optional] pub b: Option<BitString>,
        #[default(-2_i16)] #[tag_implicit(APPLICATION 1)] pub c: i16,
    }
    impl Flat for G27 {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSequence)]
    #[derive(DerParserSequence)]
    #[derive(ToBerSequence)]
    #[derive(ToDerSequence)]
    pub struct G28<'a> {
        #[default(true)] pub a: bool,
        #[tag_implicit(127)] pub b: Oid<'a>,
    }
    impl<'a> Flat for G28<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSet)]
    #[derive(DerParserSet)]
    #[derive(ToBerSet)]
    #[derive(ToDerSet)]
    pub struct G29<'a> {
        #[tag_implicit(APPLICATION 127)] pub a: Enumerated,
         pub b: OctetString<'a>,
        #[optional] #[tag_implicit(31)] pub c: Option<Oid<'a>>,
         pub d: Vec<u8>,
    }
    impl<'a> Flat for G29<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSequence)]
    #[derive(DerParserSequence)]
    #[derive(ToBerSequence)]
    #[derive(ToDerSequence)]
    pub struct G30 {
        #[optional] #[tag_explicit(PRIVATE 300)] pub a: Option<bool>,
        #[optional] #[tag_implicit(APPLICATION 1)] pub b: Option<Null>,
        #[default(vec![1_u8])] pub c: Vec<u8>,
    }
    impl Flat for G30 {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSequence)]
    #[derive(DerParserSequence)]
    #[derive(ToBerSequence)]
    #[derive(ToDerSequence)]
    pub struct G31<'a> {
         pub a: OctetString<'a>,
        #[optional] #[tag_implicit(30)] pub b: Option<Oid<'a>>,
        #[default(-2_i16)] pub c: i16,
    }
    impl<'a> Flat for G31<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSequence)]
    #[derive(DerParserSequence)]
    #[derive(ToBerSequence)]
    #[derive(ToDerSequence)]
    pub struct G32<'a> {
        #[optional] pub a: Option<u32>,
         pub b: Null,
        #[tag_implicit(PRIVATE 0)] pub c: Integer<'a>,
        #[default(vec![1_u8])] #[tag_explicit(300)] pub d: Vec<u8>,
    }
    impl<'a> Flat for G32<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSet)]
    #[derive(DerParserSet)]
    #[derive(ToBerSet)]
    #[derive(ToDerSet)]
    pub struct G33<'a> {
        #[tag_implicit(PRIVATE 1)] pub a: Integer<'a>,
        #[optional] #[tag_implicit(31)] pub b: Option<Oid<'a>>,
        #[default(true)] pub c: bool,
        #[tag_explicit(2)] pub d: u32,
    }
    impl<'a> Flat for G33<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSequence)]
    #[derive(DerParserSequence)]
    #[derive(ToBerSequence)]
    #[derive(ToDerSequence)]
    pub struct G34<'a> {
        #[optional] #[tag_implicit(31)] pub a: Option<Integer<'a>>,
        #[tag_implicit(APPLICATION 1)] pub b: bool,
         pub c: u32,
        #[optional] #[tag_explicit(3)] pub d: Option<BitString>,
    }
    impl<'a> Flat for G34<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSet)]
    #[derive(DerParserSet)]
    #[derive(ToBerSet)]
    #[derive(ToDerSet)]
    pub struct G35 {
        #[optional] #[tag_explicit(3)] pub a: Option<BitString>,
    }
    impl Flat for G35 {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSequence)]
    #[derive(DerParserSequence)]
    #[derive(ToBerSequence)]
    #[derive(ToDerSequence)]
    pub struct G36<'a> {
        #[default(OctetString::new(b"xy"))] #[tag_explicit(31)] pub a: OctetString<'a>,
        #[tag_implicit(APPLICATION 3)] pub b: OctetString<'a>,
        #[tag_explicit(0)] pub c: Integer<'a>,
    }
    impl<'a> Flat for G36<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSequence)]
    #[derive(DerParserSequence)]
    #[derive(ToBerSequence)]
    #[derive(ToDerSequence)]
    pub struct G37<'a> {
        #[default(Utf8String::new("z"))] pub a: Utf8String<'a>,
        #[default(-2_i16)] #[tag_implicit(2)] pub b: i16,
    }
    impl<'a> Flat for G37<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSequence)]
    #[derive(DerParserSequence)]
    #[derive(ToBerSequence)]
    #[derive(ToDerSequence)]
    pub struct G38<'a> {
        #[tag_explicit(31)] pub a: u8,
        #[optional] pub b: Option<Oid<'a>>,
        #[optional] pub c: Option<BitString>,
    }
    impl<'a> Flat for G38<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerParserSequence)]
    #[derive(DerParserSequence)]
    #[derive(ToBerSequence)]
    #[derive(ToDerSequence)]
    pub struct G39<'a> {
        #[optional] pub a: Option<Vec<u8>>,
        #[default(Null {})] pub b: Null,
        #[optional] pub c: Option<BitString>,
        #[optional] pub d: Option<Oid<'a>>,
    }
    impl<'a> Flat for G39<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); }
    }
}

pub mod old {
    #![allow(unused_imports)]
    use crate::flat::Flat;
    use asn1_rs::nom::Err;
    use asn1_rs::Tagged;
    use asn1_rs::{nom, DerAlias, DerSequence, DerSet, Any, BitString, Enumerated, Ia5String, Integer, Null, OctetString, Oid, UtcTime, Utf8String};

    #[derive(Debug, PartialEq)]
    #[derive(DerSequence)]
    pub struct SPlain {
         pub a: u8,
         pub b: bool,
    }
    impl Flat for SPlain {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerSequence)]
    pub struct SOpt<'a> {
        #[optional] pub a: Option<u8>,
         pub b: bool,
        #[optional] pub c: Option<OctetString<'a>>,
    }
    impl<'a> Flat for SOpt<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerSequence)]
    pub struct SDef<'a> {
        #[default(9_u8)] pub a: u8,
        #[default(true)] pub b: bool,
        #[default(Utf8String::new("z"))] pub c: Utf8String<'a>,
    }
    impl<'a> Flat for SDef<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerSequence)]
    pub struct SExp {
        #[tag_explicit(0)] pub a: u8,
        #[optional] #[tag_explicit(1)] pub b: Option<bool>,
        #[default(9_u8)] #[tag_explicit(2)] pub c: u8,
    }
    impl Flat for SExp {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerSequence)]
    pub struct SImp<'a> {
        #[tag_implicit(0)] pub a: u8,
        #[optional] #[tag_implicit(1)] pub b: Option<OctetString<'a>>,
        #[default(9_u8)] #[tag_implicit(2)] pub c: u8,
        #[optional] #[tag_implicit(3)] pub d: Option<Vec<u8>>,
    }
    impl<'a> Flat for SImp<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerSequence)]
    pub struct SCls<'a> {
        #[tag_explicit(APPLICATION 1)] pub a: u8,
        #[tag_implicit(PRIVATE 2)] pub b: OctetString<'a>,
        #[optional] #[tag_implicit(APPLICATION 3)] pub c: Option<bool>,
        #[optional] #[tag_explicit(UNIVERSAL 17)] pub d: Option<u8>,
    }
    impl<'a> Flat for SCls<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerSequence)]
    pub struct SSame {
        #[optional] #[tag_implicit(1)] pub a: Option<u8>,
        #[optional] #[tag_implicit(APPLICATION 1)] pub b: Option<u8>,
        #[default(true)] #[tag_explicit(PRIVATE 1)] pub c: bool,
        #[optional] #[tag_implicit(UNIVERSAL 1)] pub d: Option<Null>,
    }
    impl Flat for SSame {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerSequence)]
    pub struct SAny<'a> {
         pub a: Oid<'a>,
        #[optional] pub b: Option<Any<'a>>,
    }
    impl<'a> Flat for SAny<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerSequence)]
    pub struct SLong {
        #[tag_explicit(31)] pub a: u8,
        #[optional] #[tag_implicit(1000)] pub b: Option<u8>,
        #[tag_implicit(APPLICATION 65535)] pub c: bool,
    }
    impl Flat for SLong {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerSequence)]
    pub struct SLeaf<'a> {
         pub a: Integer<'a>,
         pub b: BitString,
         pub c: UtcTime,
         pub d: Utf8String<'a>,
         pub e: Oid<'a>,
    }
    impl<'a> Flat for SLeaf<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); self.e.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); self.e.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerSequence)]
    pub struct SNest<'a> {
         pub a: SPlain,
        #[optional] #[tag_explicit(0)] pub b: Option<SOpt<'a>>,
        #[optional] #[tag_implicit(1)] pub c: Option<SPlain>,
         pub d: u8,
    }
    impl<'a> Flat for SNest<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerSequence)]
    pub struct SOpts<'a> {
        #[optional] pub a: Option<SPlain>,
        #[optional] pub b: Option<u8>,
        #[optional] pub c: Option<OctetString<'a>>,
        #[optional] pub d: Option<bool>,
    }
    impl<'a> Flat for SOpts<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerSequence)]
    pub struct SVec {
         pub a: Vec<SPlain>,
        #[optional] #[tag_explicit(3)] pub b: Option<Vec<u8>>,
    }
    impl Flat for SVec {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerSequence)]
    pub struct SOne {
        #[default(vec![1_u8])] #[tag_explicit(0)] pub a: Vec<u8>,
    }
    impl Flat for SOne {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerSet)]
    pub struct TPlain {
         pub a: u8,
         pub b: bool,
    }
    impl Flat for TPlain {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerSet)]
    pub struct TOpt<'a> {
        #[optional] pub a: Option<bool>,
         pub b: u8,
        #[optional] pub c: Option<OctetString<'a>>,
    }
    impl<'a> Flat for TOpt<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerSet)]
    pub struct TTag<'a> {
        #[tag_implicit(0)] pub a: u8,
        #[optional] #[tag_explicit(1)] pub b: Option<OctetString<'a>>,
        #[default(true)] #[tag_implicit(APPLICATION 2)] pub c: bool,
    }
    impl<'a> Flat for TTag<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerSet)]
    pub struct TNest<'a> {
         pub a: TPlain,
        #[optional] #[tag_implicit(1)] pub b: Option<SDef<'a>>,
    }
    impl<'a> Flat for TNest<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerSequence)]
    pub struct SInset<'a> {
        #[optional] pub a: Option<TOpt<'a>>,
        #[tag_implicit(4)] pub b: TPlain,
    }
    impl<'a> Flat for SInset<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerAlias)]
    pub struct AU8(pub u8);
    impl Flat for AU8 {
        fn flat(&self, o: &mut Vec<i64>) { self.0.flat(o) }
        fn spans(&self, o: &mut Vec<i64>) { self.0.spans(o) }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerAlias)]
    pub struct AOct<'a>(pub OctetString<'a>);
    impl<'a> Flat for AOct<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.0.flat(o) }
        fn spans(&self, o: &mut Vec<i64>) { self.0.spans(o) }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerAlias)]
    pub struct ABool(pub bool);
    impl Flat for ABool {
        fn flat(&self, o: &mut Vec<i64>) { self.0.flat(o) }
        fn spans(&self, o: &mut Vec<i64>) { self.0.spans(o) }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerAlias)]
    pub struct AAny<'a>(pub Any<'a>);
    impl<'a> Flat for AAny<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.0.flat(o) }
        fn spans(&self, o: &mut Vec<i64>) { self.0.spans(o) }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerAlias)]
    pub struct AUtf8<'a>(pub Utf8String<'a>);
    impl<'a> Flat for AUtf8<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.0.flat(o) }
        fn spans(&self, o: &mut Vec<i64>) { self.0.spans(o) }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerSequence)]
    pub struct G0<'a> {
        #[default(Ia5String::new("z"))] #[tag_explicit(PRIVATE 3)] pub a: Ia5String<'a>,
        #[tag_implicit(30)] pub b: Null,
        #[default(9_u8)] pub c: u8,
    }
    impl<'a> Flat for G0<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerSet)]
    pub struct G1<'a> {
        #[optional] pub a: Option<Null>,
        #[default(OctetString::new(b"xy"))] pub b: OctetString<'a>,
        #[tag_explicit(APPLICATION 2)] pub c: i16,
         pub d: OctetString<'a>,
    }
    impl<'a> Flat for G1<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerSet)]
    pub struct G2<'a> {
        #[tag_explicit(128)] pub a: Oid<'a>,
         pub b: Oid<'a>,
    }
    impl<'a> Flat for G2<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerSet)]
    pub struct G3 {
        #[optional] pub a: Option<Vec<u8>>,
        #[optional] pub b: Option<bool>,
        #[optional] #[tag_explicit(128)] pub c: Option<BitString>,
    }
    impl Flat for G3 {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerSequence)]
    pub struct G4<'a> {
        #[optional] pub a: Option<BitString>,
         pub b: bool,
        #[optional] #[tag_explicit(128)] pub c: Option<BitString>,
        #[optional] #[tag_implicit(PRIVATE 31)] pub d: Option<OctetString<'a>>,
    }
    impl<'a> Flat for G4<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerSequence)]
    pub struct G5<'a> {
         pub a: u32,
         pub b: u8,
        #[optional] pub c: Option<Oid<'a>>,
    }
    impl<'a> Flat for G5<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerSequence)]
    pub struct G6<'a> {
        #[tag_implicit(128)] pub a: OctetString<'a>,
    }
    impl<'a> Flat for G6<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerSequence)]
    pub struct G8 {
         pub a: Vec<u8>,
        #[default(vec![1_u8])] #[tag_explicit(30)] pub b: Vec<u8>,
    }
    impl Flat for G8 {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerSequence)]
    pub struct G9<'a> {
        #[tag_implicit(APPLICATION 127)] pub a: Null,
        #[default(Utf8String::new("z"))] pub b: Utf8String<'a>,
        #[default(Ia5String::new("z"))] pub c: Ia5String<'a>,
    }
    impl<'a> Flat for G9<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerSequence)]
    pub struct G10 {
        #[tag_implicit(PRIVATE 30)] pub a: Enumerated,
         pub b: u32,
    }
    impl Flat for G10 {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerSequence)]
    pub struct G11<'a> {
        #[tag_explicit(127)] pub a: Utf8String<'a>,
        #[default(true)] pub b: bool,
         pub c: Null,
    }
    impl<'a> Flat for G11<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerSequence)]
    pub struct G12<'a> {
        #[optional] pub a: Option<Null>,
        #[optional] pub b: Option<Integer<'a>>,
    }
    impl<'a> Flat for G12<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerSet)]
    pub struct G13<'a> {
        #[tag_explicit(30)] pub a: OctetString<'a>,
        #[tag_implicit(300)] pub b: Ia5String<'a>,
         pub c: Null,
    }
    impl<'a> Flat for G13<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerSequence)]
    pub struct G14<'a> {
        #[tag_implicit(PRIVATE 30)] pub a: OctetString<'a>,
        #[optional] #[tag_implicit(APPLICATION 1)] pub b: Option<bool>,
        #[default(vec![1_u8])] #[tag_explicit(APPLICATION 3)] pub c: Vec<u8>,
    }
    impl<'a> Flat for G14<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerSet)]
    pub struct G15 {
        #[optional] pub a: Option<u8>,
        #[default(Null {})] #[tag_explicit(127)] pub b: Null,
    }
    impl Flat for G15 {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerSequence)]
    pub struct G16<'a> {
        #[default(Utf8String::new("z"))] pub a: Utf8String<'a>,
        #[optional] pub b: Option<Oid<'a>>,
        #[optional] pub c: Option<Integer<'a>>,
    }
    impl<'a> Flat for G16<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerSequence)]
    pub struct G17<'a> {
        #[tag_implicit(APPLICATION 127)] pub a: Null,
        #[tag_implicit(APPLICATION 2)] pub b: Vec<u8>,
        #[tag_implicit(30)] pub c: OctetString<'a>,
    }
    impl<'a> Flat for G17<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerSequence)]
    pub struct G18<'a> {
         pub a: Integer<'a>,
    }
    impl<'a> Flat for G18<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerSequence)]
    pub struct G19<'a> {
         pub a: Ia5String<'a>,
    }
    impl<'a> Flat for G19<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerSet)]
    pub struct G20<'a> {
         pub a: Enumerated,
        #[optional] #[tag_explicit(31)] pub b: Option<Oid<'a>>,
    }
    impl<'a> Flat for G20<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerSet)]
    pub struct G21 {
        #[optional] #[tag_explicit(1)] pub a: Option<i16>,
         pub b: BitString,
        #[tag_explicit(0)] pub c: u32,
    }
    impl Flat for G21 {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerSequence)]
    pub struct G22 {
         pub a: u8,
        #[optional] #[tag_explicit(30)] pub b: Option<bool>,
        #[optional] #[tag_explicit(300)] pub c: Option<Null>,
    }
    impl Flat for G22 {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerSet)]
    pub struct G23<'a> {
        #[optional] #[tag_explicit(300)] pub a: Option<Ia5String<'a>>,
         pub b: i16,
        #[optional] #[tag_implicit(APPLICATION 300)] pub c: Option<u8>,
    }
    impl<'a> Flat for G23<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerSequence)]
    pub struct G26<'a> {
         pub a: OctetString<'a>,
        #[optional] #[tag_implicit(APPLICATION 2)] pub b: Option<Integer<'a>>,
    }
    impl<'a> Flat for G26<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerSet)]
    pub struct G27 {
        #[tag_implicit(PRIVATE 3)] pub a: u8,
        #[optional] pub b: Option<BitString>,
        #[default(-2_i16)] #[tag_implicit(APPLICATION 1)] pub c: i16,
    }
    impl Flat for G27 {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerSequence)]
    pub struct G30 {
        #[optional] #[tag_explicit(PRIVATE 300)] pub a: Option<bool>,
        #[optional] #[tag_implicit(APPLICATION 1)] pub b: Option<Null>,
        #[default(vec![1_u8])] pub c: Vec<u8>,
    }
    impl Flat for G30 {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerSequence)]
    pub struct G32<'a> {
        #[optional] pub a: Option<u32>,
         pub b: Null,
        #[tag_implicit(PRIVATE 0)] pub c: Integer<'a>,
        #[default(vec![1_u8])] #[tag_explicit(300)] pub d: Vec<u8>,
    }
    impl<'a> Flat for G32<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerSequence)]
    pub struct G34<'a> {
        #[optional] #[tag_implicit(31)] pub a: Option<Integer<'a>>,
        #[tag_implicit(APPLICATION 1)] pub b: bool,
         pub c: u32,
        #[optional] #[tag_explicit(3)] pub d: Option<BitString>,
    }
    impl<'a> Flat for G34<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerSet)]
    pub struct G35 {
        #[optional] #[tag_explicit(3)] pub a: Option<BitString>,
    }
    impl Flat for G35 {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerSequence)]
    pub struct G36<'a> {
        #[default(OctetString::new(b"xy"))] #[tag_explicit(31)] pub a: OctetString<'a>,
        #[tag_implicit(APPLICATION 3)] pub b: OctetString<'a>,
        #[tag_explicit(0)] pub c: Integer<'a>,
    }
    impl<'a> Flat for G36<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerSequence)]
    pub struct G37<'a> {
        #[default(Utf8String::new("z"))] pub a: Utf8String<'a>,
        #[default(-2_i16)] #[tag_implicit(2)] pub b: i16,
    }
    impl<'a> Flat for G37<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerSequence)]
    pub struct G38<'a> {
        #[tag_explicit(31)] pub a: u8,
        #[optional] pub b: Option<Oid<'a>>,
        #[optional] pub c: Option<BitString>,
    }
    impl<'a> Flat for G38<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(DerSequence)]
    pub struct G39<'a> {
        #[optional] pub a: Option<Vec<u8>>,
        #[default(Null {})] pub b: Null,
        #[optional] pub c: Option<BitString>,
        #[optional] pub d: Option<Oid<'a>>,
    }
    impl<'a> Flat for G39<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); }
    }
}

pub mod bold {
    #![allow(unused_imports)]
    use crate::flat::Flat;
    use asn1_rs::nom::Err;
    use asn1_rs::Tagged;
    use asn1_rs::{nom, BerAlias, BerSequence, BerSet, Any, BitString, Enumerated, Ia5String, Integer, Null, OctetString, Oid, UtcTime, Utf8String};

    #[derive(Debug, PartialEq)]
    #[derive(BerSequence)]
    pub struct SPlain {
         pub a: u8,
         pub b: bool,
    }
    impl Flat for SPlain {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerSequence)]
    pub struct SOpt<'a> {
        #[optional] pub a: Option<u8>,
         pub b: bool,
        #[optional] pub c: Option<OctetString<'a>>,
    }
    impl<'a> Flat for SOpt<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerSequence)]
    pub struct SDef<'a> {
        #[default(9_u8)] pub a: u8,
        #[default(true)] pub b: bool,
        #[default(Utf8String::new("z"))] pub c: Utf8String<'a>,
    }
    impl<'a> Flat for SDef<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerSequence)]
    pub struct SExp {
        #[tag_explicit(0)] pub a: u8,
        #[optional] #[tag_explicit(1)] pub b: Option<bool>,
        #[default(9_u8)] #[tag_explicit(2)] pub c: u8,
    }
    impl Flat for SExp {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerSequence)]
    pub struct SImp<'a> {
        #[tag_implicit(0)] pub a: u8,
        #[optional] #[tag_implicit(1)] pub b: Option<OctetString<'a>>,
        #[default(9_u8)] #[tag_implicit(2)] pub c: u8,
        #[optional] #[tag_implicit(3)] pub d: Option<Vec<u8>>,
    }
    impl<'a> Flat for SImp<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerSequence)]
    pub struct SCls<'a> {
        #[tag_explicit(APPLICATION 1)] pub a: u8,
        #[tag_implicit(PRIVATE 2)] pub b: OctetString<'a>,
        #[optional] #[tag_implicit(APPLICATION 3)] pub c: Option<bool>,
        #[optional] #[tag_explicit(UNIVERSAL 17)] pub d: Option<u8>,
    }
    impl<'a> Flat for SCls<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerSequence)]
    pub struct SSame {
        #[optional] #[tag_implicit(1)] pub a: Option<u8>,
        #[optional] #[tag_implicit(APPLICATION 1)] pub b: Option<u8>,
        #[default(true)] #[tag_explicit(PRIVATE 1)] pub c: bool,
        #[optional] #[tag_implicit(UNIVERSAL 1)] pub d: Option<Null>,
    }
    impl Flat for SSame {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerSequence)]
    pub struct SAny<'a> {
         pub a: Oid<'a>,
        #[optional] pub b: Option<Any<'a>>,
    }
    impl<'a> Flat for SAny<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerSequence)]
    pub struct SLong {
        #[tag_explicit(31)] pub a: u8,
        #[optional] #[tag_implicit(1000)] pub b: Option<u8>,
        #[tag_implicit(APPLICATION 65535)] pub c: bool,
    }
    impl Flat for SLong {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerSequence)]
    pub struct SLeaf<'a> {
         pub a: Integer<'a>,
         pub b: BitString,
         pub c: UtcTime,
         pub d: Utf8String<'a>,
         pub e: Oid<'a>,
    }
    impl<'a> Flat for SLeaf<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); self.e.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); self.e.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerSequence)]
    pub struct SNest<'a> {
         pub a: SPlain,
        #[optional] #[tag_explicit(0)] pub b: Option<SOpt<'a>>,
        #[optional] #[tag_implicit(1)] pub c: Option<SPlain>,
         pub d: u8,
    }
    impl<'a> Flat for SNest<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerSequence)]
    pub struct SOpts<'a> {
        #[optional] pub a: Option<SPlain>,
        #[optional] pub b: Option<u8>,
        #[optional] pub c: Option<OctetString<'a>>,
        #[optional] pub d: Option<bool>,
    }
    impl<'a> Flat for SOpts<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerSequence)]
    pub struct SVec {
         pub a: Vec<SPlain>,
        #[optional] #[tag_explicit(3)] pub b: Option<Vec<u8>>,
    }
    impl Flat for SVec {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerSequence)]
    pub struct SOne {
        #[default(vec![1_u8])] #[tag_explicit(0)] pub a: Vec<u8>,
    }
    impl Flat for SOne {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerSet)]
    pub struct TPlain {
         pub a: u8,
         pub b: bool,
    }
    impl Flat for TPlain {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerSet)]
    pub struct TOpt<'a> {
        #[optional] pub a: Option<bool>,
         pub b: u8,
        #[optional] pub c: Option<OctetString<'a>>,
    }
    impl<'a> Flat for TOpt<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerSet)]
    pub struct TTag<'a> {
        #[tag_implicit(0)] pub a: u8,
        #[optional] #[tag_explicit(1)] pub b: Option<OctetString<'a>>,
        #[default(true)] #[tag_implicit(APPLICATION 2)] pub c: bool,
    }
    impl<'a> Flat for TTag<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerSet)]
    pub struct TNest<'a> {
         pub a: TPlain,
        #[optional] #[tag_implicit(1)] pub b: Option<SDef<'a>>,
    }
    impl<'a> Flat for TNest<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerSequence)]
    pub struct SInset<'a> {
        #[optional] pub a: Option<TOpt<'a>>,
        #[tag_implicit(4)] pub b: TPlain,
    }
    impl<'a> Flat for SInset<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerAlias)]
    pub struct AU8(pub u8);
    impl Flat for AU8 {
        fn flat(&self, o: &mut Vec<i64>) { self.0.flat(o) }
        fn spans(&self, o: &mut Vec<i64>) { self.0.spans(o) }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerAlias)]
    pub struct AOct<'a>(pub OctetString<'a>);
    impl<'a> Flat for AOct<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.0.flat(o) }
        fn spans(&self, o: &mut Vec<i64>) { self.0.spans(o) }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerAlias)]
    pub struct ABool(pub bool);
    impl Flat for ABool {
        fn flat(&self, o: &mut Vec<i64>) { self.0.flat(o) }
        fn spans(&self, o: &mut Vec<i64>) { self.0.spans(o) }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerAlias)]
    pub struct AAny<'a>(pub Any<'a>);
    impl<'a> Flat for AAny<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.0.flat(o) }
        fn spans(&self, o: &mut Vec<i64>) { self.0.spans(o) }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerAlias)]
    pub struct AUtf8<'a>(pub Utf8String<'a>);
    impl<'a> Flat for AUtf8<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.0.flat(o) }
        fn spans(&self, o: &mut Vec<i64>) { self.0.spans(o) }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerSequence)]
    pub struct G0<'a> {
        #[default(Ia5String::new("z"))] #[tag_explicit(PRIVATE 3)] pub a: Ia5String<'a>,
        #[tag_implicit(30)] pub b: Null,
        #[default(9_u8)] pub c: u8,
    }
    impl<'a> Flat for G0<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerSet)]
    pub struct G1<'a> {
        #[optional] pub a: Option<Null>,
        #[default(OctetString::new(b"xy"))] pub b: OctetString<'a>,
        #[tag_explicit(APPLICATION 2)] pub c: i16,
         pub d: OctetString<'a>,
    }
    impl<'a> Flat for G1<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerSet)]
    pub struct G2<'a> {
        #[tag_explicit(128)] pub a: Oid<'a>,
         pub b: Oid<'a>,
    }
    impl<'a> Flat for G2<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerSet)]
    pub struct G3 {
        #[optional] pub a: Option<Vec<u8>>,
        #[optional] pub b: Option<bool>,
        #[optional] #[tag_explicit(128)] pub c: Option<BitString>,
    }
    impl Flat for G3 {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerSequence)]
    pub struct G4<'a> {
        #[optional] pub a: Option<BitString>,
         pub b: bool,
        #[optional] #[tag_explicit(128)] pub c: Option<BitString>,
        #[optional] #[tag_implicit(PRIVATE 31)] pub d: Option<OctetString<'a>>,
    }
    impl<'a> Flat for G4<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerSequence)]
    pub struct G5<'a> {
         pub a: u32,
         pub b: u8,
        #[optional] pub c: Option<Oid<'a>>,
    }
    impl<'a> Flat for G5<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerSequence)]
    pub struct G6<'a> {
        #[tag_implicit(128)] pub a: OctetString<'a>,
    }
    impl<'a> Flat for G6<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerSequence)]
    pub struct G8 {
         pub a: Vec<u8>,
        #[default(vec![1_u8])] #[tag_explicit(30)] pub b: Vec<u8>,
    }
    impl Flat for G8 {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerSequence)]
    pub struct G9<'a> {
        #[tag_implicit(APPLICATION 127)] pub a: Null,
        #[default(Utf8String::new("z"))] pub b: Utf8String<'a>,
        #[default(Ia5String::new("z"))] pub c: Ia5String<'a>,
    }
    impl<'a> Flat for G9<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerSequence)]
    pub struct G10 {
        #[tag_implicit(PRIVATE 30)] pub a: Enumerated,
         pub b: u32,
    }
    impl Flat for G10 {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerSequence)]
    pub struct G11<'a> {
        #[tag_explicit(127)] pub a: Utf8String<'a>,
        #[default(true)] pub b: bool,
         pub c: Null,
    }
    impl<'a> Flat for G11<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerSequence)]
    pub struct G12<'a> {
        #[optional] pub a: Option<Null>,
        #[optional] pub b: Option<Integer<'a>>,
    }
    impl<'a> Flat for G12<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerSet)]
    pub struct G13<'a> {
        #[tag_explicit(30)] pub a: OctetString<'a>,
        #[tag_implicit(300)] pub b: Ia5String<'a>,
         pub c: Null,
    }
    impl<'a> Flat for G13<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerSequence)]
    pub struct G14<'a> {
        #[tag_implicit(PRIVATE 30)] pub a: OctetString<'a>,
        #[optional] #[tag_implicit(APPLICATION 1)] pub b: Option<bool>,
        #[default(vec![1_u8])] #[tag_explicit(APPLICATION 3)] pub c: Vec<u8>,
    }
    impl<'a> Flat for G14<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerSet)]
    pub struct G15 {
        #[optional] pub a: Option<u8>,
        #[default(Null {})] #[tag_explicit(127)] pub b: Null,
    }
    impl Flat for G15 {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerSequence)]
    pub struct G16<'a> {
        #[default(Utf8String::new("z"))] pub a: Utf8String<'a>,
        #[optional] pub b: Option<Oid<'a>>,
        #[optional] pub c: Option<Integer<'a>>,
    }
    impl<'a> Flat for G16<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerSequence)]
    pub struct G17<'a> {
        #[tag_implicit(APPLICATION 127)] pub a: Null,
        #[tag_implicit(APPLICATION 2)] pub b: Vec<u8>,
        #[tag_implicit(30)] pub c: OctetString<'a>,
    }
    impl<'a> Flat for G17<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerSequence)]
    pub struct G18<'a> {
         pub a: Integer<'a>,
    }
    impl<'a> Flat for G18<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerSequence)]
    pub struct G19<'a> {
         pub a: Ia5String<'a>,
    }
    impl<'a> Flat for G19<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerSet)]
    pub struct G20<'a> {
         pub a: Enumerated,
        #[optional] #[tag_explicit(31)] pub b: Option<Oid<'a>>,
    }
    impl<'a> Flat for G20<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerSet)]
    pub struct G21 {
        #[optional] #[tag_explicit(1)] pub a: Option<i16>,
         pub b: BitString,
        #[tag_explicit(0)] pub c: u32,
    }
    impl Flat for G21 {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerSequence)]
    pub struct G22 {
         pub a: u8,
        #[optional] #[tag_explicit(30)] pub b: Option<bool>,
        #[optional] #[tag_explicit(300)] pub c: Option<Null>,
    }
    impl Flat for G22 {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerSet)]
    pub struct G23<'a> {
        #[optional] #[tag_explicit(300)] pub a: Option<Ia5String<'a>>,
         pub b: i16,
        #[optional] #[tag_implicit(APPLICATION 300)] pub c: Option<u8>,
    }
    impl<'a> Flat for G23<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerSequence)]
    pub struct G26<'a> {
         pub a: OctetString<'a>,
        #[optional] #[tag_implicit(APPLICATION 2)] pub b: Option<Integer<'a>>,
    }
    impl<'a> Flat for G26<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerSet)]
    pub struct G27 {
        #[tag_implicit(PRIVATE 3)] pub a: u8,
        #[optional] pub b: Option<BitString>,
        #[default(-2_i16)] #[tag_implicit(APPLICATION 1)] pub c: i16,
    }
    impl Flat for G27 {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerSequence)]
    pub struct G30 {
        #[optional] #[tag_explicit(PRIVATE 300)] pub a: Option<bool>,
        #[optional] #[tag_implicit(APPLICATION 1)] pub b: Option<Null>,
        #[default(vec![1_u8])] pub c: Vec<u8>,
    }
    impl Flat for G30 {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerSequence)]
    pub struct G32<'a> {
        #[optional] pub a: Option<u32>,
         pub b: Null,
        #[tag_implicit(PRIVATE 0)] pub c: Integer<'a>,
        #[default(vec![1_u8])] #[tag_explicit(300)] pub d: Vec<u8>,
    }
    impl<'a> Flat for G32<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerSequence)]
    pub struct G34<'a> {
        #[optional] #[tag_implicit(31)] pub a: Option<Integer<'a>>,
        #[tag_implicit(APPLICATION 1)] pub b: bool,
         pub c: u32,
        #[optional] #[tag_explicit(3)] pub d: Option<BitString>,
    }
    impl<'a> Flat for G34<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerSet)]
    pub struct G35 {
        #[optional] #[tag_explicit(3)] pub a: Option<BitString>,
    }
    impl Flat for G35 {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerSequence)]
    pub struct G36<'a> {
        #[default(OctetString::new(b"xy"))] #[tag_explicit(31)] pub a: OctetString<'a>,
        #[tag_implicit(APPLICATION 3)] pub b: OctetString<'a>,
        #[tag_explicit(0)] pub c: Integer<'a>,
    }
    impl<'a> Flat for G36<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerSequence)]
    pub struct G37<'a> {
        #[default(Utf8String::new("z"))] pub a: Utf8String<'a>,
        #[default(-2_i16)] #[tag_implicit(2)] pub b: i16,
    }
    impl<'a> Flat for G37<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerSequence)]
    pub struct G38<'a> {
        #[tag_explicit(31)] pub a: u8,
        #[optional] pub b: Option<Oid<'a>>,
        #[optional] pub c: Option<BitString>,
    }
    impl<'a> Flat for G38<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); }
    }

    #[derive(Debug, PartialEq)]
    #[derive(BerSequence)]
    pub struct G39<'a> {
        #[optional] pub a: Option<Vec<u8>>,
        #[default(Null {})] pub b: Null,
        #[optional] pub c: Option<BitString>,
        #[optional] pub d: Option<Oid<'a>>,
    }
    impl<'a> Flat for G39<'a> {
        fn flat(&self, o: &mut Vec<i64>) { self.a.flat(o); self.b.flat(o); self.c.flat(o); self.d.flat(o); }
        fn spans(&self, o: &mut Vec<i64>) { self.a.spans(o); self.b.spans(o); self.c.spans(o); self.d.spans(o); }
    }
}

macro_rules! with_new_ber { ($mac:ident $($pre:tt)*) => { $mac!{ $($pre)*;
    "s_plain": crate::schemas::new::SPlain,
    "s_opt": crate::schemas::new::SOpt,
    "s_def": crate::schemas::new::SDef,
    "s_exp": crate::schemas::new::SExp,
    "s_imp": crate::schemas::new::SImp,
    "s_cls": crate::schemas::new::SCls,
    "s_same": crate::schemas::new::SSame,
    "s_any": crate::schemas::new::SAny,
    "s_long": crate::schemas::new::SLong,
    "s_leaf": crate::schemas::new::SLeaf,
    "s_nest": crate::schemas::new::SNest,
    "s_opts": crate::schemas::new::SOpts,
    "s_vec": crate::schemas::new::SVec,
    "s_one": crate::schemas::new::SOne,
    "s_empty": crate::schemas::new::SEmpty,
    "t_plain": crate::schemas::new::TPlain,
    "t_opt": crate::schemas::new::TOpt,
    "t_tag": crate::schemas::new::TTag,
    "t_nest": crate::schemas::new::TNest,
    "s_inset": crate::schemas::new::SInset,
    "c_un": crate::schemas::new::CUn,
    "c_exp": crate::schemas::new::CExp,
    "c_imp": crate::schemas::new::CImp,
    "c_any": crate::schemas::new::CAny,
    "c_one": crate::schemas::new::COne,
    "c_struct": crate::schemas::new::CStruct,
    "c_lit": crate::schemas::new::CLit,
    "e_vals": crate::schemas::new::EVals,
    "e_seq": crate::schemas::new::ESeq,
    "e_one": crate::schemas::new::EOne,
    "c_nest": crate::schemas::new::CNest,
    "c_enum": crate::schemas::new::CEnum,
    "s_cho": crate::schemas::new::SCho,
    "s_echo": crate::schemas::new::SEcho,
    "a_u8": crate::schemas::new::AU8,
    "a_oct": crate::schemas::new::AOct,
    "a_bool": crate::schemas::new::ABool,
    "a_any": crate::schemas::new::AAny,
    "a_utf8": crate::schemas::new::AUtf8,
    "a_oid": crate::schemas::new::AOid,
    "a_vec": crate::schemas::new::AVec,
    "a_plain": crate::schemas::new::APlain,
    "a_def": crate::schemas::new::ADef,
    "a_cho": crate::schemas::new::ACho,
    "a_enum": crate::schemas::new::AEnum,
    "a_bytes": crate::schemas::new::ABytes,
    "a_a": crate::schemas::new::AA,
    "s_alias": crate::schemas::new::SAlias,
    "s_deep": crate::schemas::new::SDeep,
    "t_deep": crate::schemas::new::TDeep,
    "c_deep": crate::schemas::new::CDeep,
    "c_deepi": crate::schemas::new::CDeepi,
    "s_err": crate::schemas::new::SErr,
    "s_maperr": crate::schemas::new::SMaperr,
    "s_const": crate::schemas::new::SConst,
    "s_octet": crate::schemas::new::SOctet,
    "g0": crate::schemas::new::G0,
    "g1": crate::schemas::new::G1,
    "g2": crate::schemas::new::G2,
    "g3": crate::schemas::new::G3,
    "g4": crate::schemas::new::G4,
    "g5": crate::schemas::new::G5,
    "g6": crate::schemas::new::G6,
    "g7": crate::schemas::new::G7,
    "g8": crate::schemas::new::G8,
    "g9": crate::schemas::new::G9,
    "g10": crate::schemas::new::G10,
    "g11": crate::schemas::new::G11,
    "g12": crate::schemas::new::G12,
    "g13": crate::schemas::new::G13,
    "g14": crate::schemas::new::G14,
    "g15": crate::schemas::new::G15,
    "g16": crate::schemas::new::G16,
    "g17": crate::schemas::new::G17,
    "g18": crate::schemas::new::G18,
    "g19": crate::schemas::new::G19,
    "g20": crate::schemas::new::G20,
    "g21": crate::schemas::new::G21,
    "g22": crate::schemas::new::G22,
    "g23": crate::schemas::new::G23,
    "g24": crate::schemas::new::G24,
    "g25": crate::schemas::new::G25,
    "g26": crate::schemas::new::G26,
    "g27": crate::schemas::new::G27,
    "g28": crate::schemas::new::G28,
    "g29": crate::schemas::new::G29,
    "g30": crate::schemas::new::G30,
    "g31": crate::schemas::new::G31,
    "g32": crate::schemas::new::G32,
    "g33": crate::schemas::new::G33,
    "g34": crate::schemas::new::G34,
    "g35": crate::schemas::new::G35,
    "g36": crate::schemas::new::G36,
    "g37": crate::schemas::new::G37,
    "g38": crate::schemas::new::G38,
    "g39": crate::schemas::new::G39,
} } }
pub(crate) use with_new_ber;

macro_rules! with_new_der { ($mac:ident $($pre:tt)*) => { $mac!{ $($pre)*;
    "s_plain": crate::schemas::new::SPlain,
    "s_opt": crate::schemas::new::SOpt,
    "s_def": crate::schemas::new::SDef,
    "s_exp": crate::schemas::new::SExp,
    "s_imp": crate::schemas::new::SImp,
    "s_cls": crate::schemas::new::SCls,
    "s_same": crate::schemas::new::SSame,
    "s_any": crate::schemas::new::SAny,
    "s_long": crate::schemas::new::SLong,
    "s_leaf": crate::schemas::new::SLeaf,
    "s_nest": crate::schemas::new::SNest,
    "s_opts": crate::schemas::new::SOpts,
    "s_vec": crate::schemas::new::SVec,
    "s_one": crate::schemas::new::SOne,
    "s_empty": crate::schemas::new::SEmpty,
    "t_plain": crate::schemas::new::TPlain,
    "t_opt": crate::schemas::new::TOpt,
    "t_tag": crate::schemas::new::TTag,
    "t_nest": crate::schemas::new::TNest,
    "s_inset": crate::schemas::new::SInset,
    "c_un": crate::schemas::new::CUn,
    "c_exp": crate::schemas::new::CExp,
    "c_imp": crate::schemas::new::CImp,
    "c_any": crate::schemas::new::CAny,
    "c_one": crate::schemas::new::COne,
    "c_struct": crate::schemas::new::CStruct,
    "c_lit": crate::schemas::new::CLit,
    "e_vals": crate::schemas::new::EVals,
    "e_seq": crate::schemas::new::ESeq,
    "e_one": crate::schemas::new::EOne,
    "c_nest": crate::schemas::new::CNest,
    "c_enum": crate::schemas::new::CEnum,
    "s_cho": crate::schemas::new::SCho,
    "s_echo": crate::schemas::new::SEcho,
    "a_u8": crate::schemas::new::AU8,
    "a_oct": crate::schemas::new::AOct,
    "a_bool": crate::schemas::new::ABool,
    "a_any": crate::schemas::new::AAny,
    "a_utf8": crate::schemas::new::AUtf8,
    "a_oid": crate::schemas::new::AOid,
    "a_vec": crate::schemas::new::AVec,
    "a_plain": crate::schemas::new::APlain,
    "a_def": crate::schemas::new::ADef,
    "a_cho": crate::schemas::new::ACho,
    "a_enum": crate::schemas::new::AEnum,
    "a_bytes": crate::schemas::new::ABytes,
    "a_a": crate::schemas::new::AA,
    "s_alias": crate::schemas::new::SAlias,
    "s_deep": crate::schemas::new::SDeep,
    "t_deep": crate::schemas::new::TDeep,
    "c_deep": crate::schemas::new::CDeep,
    "c_deepi": crate::schemas::new::CDeepi,
    "s_err": crate::schemas::new::SErr,
    "s_maperr": crate::schemas::new::SMaperr,
    "s_const": crate::schemas::new::SConst,
    "s_octet": crate::schemas::new::SOctet,
    "s_orig": crate::schemas::new::SOrig,
    "g0": crate::schemas::new::G0,
    "g1": crate::schemas::new::G1,
    "g2": crate::schemas::new::G2,
    "g3": crate::schemas::new::G3,
    "g4": crate::schemas::new::G4,
    "g5": crate::schemas::new::G5,
    "g6": crate::schemas::new::G6,
    "g7": crate::schemas::new::G7,
    "g8": crate::schemas::new::G8,
    "g9": crate::schemas::new::G9,
    "g10": crate::schemas::new::G10,
    "g11": crate::schemas::new::G11,
    "g12": crate::schemas::new::G12,
    "g13": crate::schemas::new::G13,
    "g14": crate::schemas::new::G14,
    "g15": crate::schemas::new::G15,
    "g16": crate::schemas::new::G16,
    "g17": crate::schemas::new::G17,
    "g18": crate::schemas::new::G18,
    "g19": crate::schemas::new::G19,
    "g20": crate::schemas::new::G20,
    "g21": crate::schemas::new::G21,
    "g22": crate::schemas::new::G22,
    "g23": crate::schemas::new::G23,
    "g24": crate::schemas::new::G24,
    "g25": crate::schemas::new::G25,
    "g26": crate::schemas::new::G26,
    "g27": crate::schemas::new::G27,
    "g28": crate::schemas::new::G28,
    "g29": crate::schemas::new::G29,
    "g30": crate::schemas::new::G30,
    "g31": crate::schemas::new::G31,
    "g32": crate::schemas::new::G32,
    "g33": crate::schemas::new::G33,
    "g34": crate::schemas::new::G34,
    "g35": crate::schemas::new::G35,
    "g36": crate::schemas::new::G36,
    "g37": crate::schemas::new::G37,
    "g38": crate::schemas::new::G38,
    "g39": crate::schemas::new::G39,
} } }
pub(crate) use with_new_der;

macro_rules! with_new_enc { ($mac:ident $($pre:tt)*) => { $mac!{ $($pre)*;
    "s_plain": crate::schemas::new::SPlain,
    "s_opt": crate::schemas::new::SOpt,
    "s_def": crate::schemas::new::SDef,
    "s_exp": crate::schemas::new::SExp,
    "s_imp": crate::schemas::new::SImp,
    "s_cls": crate::schemas::new::SCls,
    "s_same": crate::schemas::new::SSame,
    "s_any": crate::schemas::new::SAny,
    "s_long": crate::schemas::new::SLong,
    "s_leaf": crate::schemas::new::SLeaf,
    "s_nest": crate::schemas::new::SNest,
    "s_opts": crate::schemas::new::SOpts,
    "s_vec": crate::schemas::new::SVec,
    "s_one": crate::schemas::new::SOne,
    "s_empty": crate::schemas::new::SEmpty,
    "t_plain": crate::schemas::new::TPlain,
    "t_opt": crate::schemas::new::TOpt,
    "t_tag": crate::schemas::new::TTag,
    "t_nest": crate::schemas::new::TNest,
    "s_inset": crate::schemas::new::SInset,
    "c_un": crate::schemas::new::CUn,
    "c_exp": crate::schemas::new::CExp,
    "c_imp": crate::schemas::new::CImp,
    "c_any": crate::schemas::new::CAny,
    "c_one": crate::schemas::new::COne,
    "c_struct": crate::schemas::new::CStruct,
    "c_lit": crate::schemas::new::CLit,
    "e_vals": crate::schemas::new::EVals,
    "e_seq": crate::schemas::new::ESeq,
    "e_one": crate::schemas::new::EOne,
    "c_nest": crate::schemas::new::CNest,
    "c_enum": crate::schemas::new::CEnum,
    "s_cho": crate::schemas::new::SCho,
    "s_echo": crate::schemas::new::SEcho,
    "a_u8": crate::schemas::new::AU8,
    "a_oct": crate::schemas::new::AOct,
    "a_bool": crate::schemas::new::ABool,
    "a_any": crate::schemas::new::AAny,
    "a_utf8": crate::schemas::new::AUtf8,
    "a_oid": crate::schemas::new::AOid,
    "a_vec": crate::schemas::new::AVec,
    "a_plain": crate::schemas::new::APlain,
    "a_def": crate::schemas::new::ADef,
    "a_cho": crate::schemas::new::ACho,
    "a_enum": crate::schemas::new::AEnum,
    "a_bytes": crate::schemas::new::ABytes,
    "a_a": crate::schemas::new::AA,
    "s_alias": crate::schemas::new::SAlias,
    "s_deep": crate::schemas::new::SDeep,
    "t_deep": crate::schemas::new::TDeep,
    "c_deep": crate::schemas::new::CDeep,
    "c_deepi": crate::schemas::new::CDeepi,
    "s_err": crate::schemas::new::SErr,
    "s_maperr": crate::schemas::new::SMaperr,
    "g0": crate::schemas::new::G0,
    "g1": crate::schemas::new::G1,
    "g2": crate::schemas::new::G2,
    "g3": crate::schemas::new::G3,
    "g4": crate::schemas::new::G4,
    "g5": crate::schemas::new::G5,
    "g6": crate::schemas::new::G6,
    "g7": crate::schemas::new::G7,
    "g8": crate::schemas::new::G8,
    "g9": crate::schemas::new::G9,
    "g10": crate::schemas::new::G10,
    "g11": crate::schemas::new::G11,
    "g12": crate::schemas::new::G12,
    "g13": crate::schemas::new::G13,
    "g14": crate::schemas::new::G14,
    "g15": crate::schemas::new::G15,
    "g16": crate::schemas::new::G16,
    "g17": crate::schemas::new::G17,
    "g18": crate::schemas::new::G18,
    "g19": crate::schemas::new::G19,
    "g20": crate::schemas::new::G20,
    "g21": crate::schemas::new::G21,
    "g22": crate::schemas::new::G22,
    "g23": crate::schemas::new::G23,
    "g24": crate::schemas::new::G24,
    "g25": crate::schemas::new::G25,
    "g26": crate::schemas::new::G26,
    "g27": crate::schemas::new::G27,
    "g28": crate::schemas::new::G28,
    "g29": crate::schemas::new::G29,
    "g30": crate::schemas::new::G30,
    "g31": crate::schemas::new::G31,
    "g32": crate::schemas::new::G32,
    "g33": crate::schemas::new::G33,
    "g34": crate::schemas::new::G34,
    "g35": crate::schemas::new::G35,
    "g36": crate::schemas::new::G36,
    "g37": crate::schemas::new::G37,
    "g38": crate::schemas::new::G38,
    "g39": crate::schemas::new::G39,
} } }
pub(crate) use with_new_enc;

macro_rules! with_new_ts { ($mac:ident $($pre:tt)*) => { $mac!{ $($pre)*;
    "s_plain": crate::schemas::new::SPlain,
    "s_exp": crate::schemas::new::SExp,
    "s_long": crate::schemas::new::SLong,
    "s_vec": crate::schemas::new::SVec,
    "s_one": crate::schemas::new::SOne,
    "s_empty": crate::schemas::new::SEmpty,
    "t_plain": crate::schemas::new::TPlain,
    "e_vals": crate::schemas::new::EVals,
    "e_seq": crate::schemas::new::ESeq,
    "e_one": crate::schemas::new::EOne,
    "a_u8": crate::schemas::new::AU8,
    "a_bool": crate::schemas::new::ABool,
    "a_vec": crate::schemas::new::AVec,
    "a_plain": crate::schemas::new::APlain,
    "a_enum": crate::schemas::new::AEnum,
    "a_a": crate::schemas::new::AA,
    "g8": crate::schemas::new::G8,
} } }
pub(crate) use with_new_ts;

macro_rules! with_par { ($mac:ident $($pre:tt)*) => { $mac!{ $($pre)*;
    "p_s_plain": crate::schemas::par::SPlain,
    "p_s_opt": crate::schemas::par::SOpt,
    "p_s_def": crate::schemas::par::SDef,
    "p_s_exp": crate::schemas::par::SExp,
    "p_s_imp": crate::schemas::par::SImp,
    "p_s_cls": crate::schemas::par::SCls,
    "p_s_same": crate::schemas::par::SSame,
    "p_s_any": crate::schemas::par::SAny,
    "p_s_long": crate::schemas::par::SLong,
    "p_s_leaf": crate::schemas::par::SLeaf,
    "p_s_nest": crate::schemas::par::SNest,
    "p_s_opts": crate::schemas::par::SOpts,
    "p_s_vec": crate::schemas::par::SVec,
    "p_s_one": crate::schemas::par::SOne,
    "p_s_empty": crate::schemas::par::SEmpty,
    "p_t_plain": crate::schemas::par::TPlain,
    "p_t_opt": crate::schemas::par::TOpt,
    "p_t_tag": crate::schemas::par::TTag,
    "p_t_nest": crate::schemas::par::TNest,
    "p_s_inset": crate::schemas::par::SInset,
    "p_p_exp": crate::schemas::par::PExp,
    "p_p_imp": crate::schemas::par::PImp,
    "p_a_u8": crate::schemas::par::AU8,
    "p_a_oct": crate::schemas::par::AOct,
    "p_a_bool": crate::schemas::par::ABool,
    "p_a_any": crate::schemas::par::AAny,
    "p_a_utf8": crate::schemas::par::AUtf8,
    "p_g0": crate::schemas::par::G0,
    "p_g1": crate::schemas::par::G1,
    "p_g2": crate::schemas::par::G2,
    "p_g3": crate::schemas::par::G3,
    "p_g4": crate::schemas::par::G4,
    "p_g5": crate::schemas::par::G5,
    "p_g6": crate::schemas::par::G6,
    "p_g7": crate::schemas::par::G7,
    "p_g8": crate::schemas::par::G8,
    "p_g9": crate::schemas::par::G9,
    "p_g10": crate::schemas::par::G10,
    "p_g11": crate::schemas::par::G11,
    "p_g12": crate::schemas::par::G12,
    "p_g13": crate::schemas::par::G13,
    "p_g14": crate::schemas::par::G14,
    "p_g15": crate::schemas::par::G15,
    "p_g16": crate::schemas::par::G16,
    "p_g17": crate::schemas::par::G17,
    "p_g18": crate::schemas::par::G18,
    "p_g19": crate::schemas::par::G19,
    "p_g20": crate::schemas::par::G20,
    "p_g21": crate::schemas::par::G21,
    "p_g22": crate::schemas::par::G22,
    "p_g23": crate::schemas::par::G23,
    "p_g24": crate::schemas::par::G24,
    "p_g25": crate::schemas::par::G25,
    "p_g26": crate::schemas::par::G26,
    "p_g27": crate::schemas::par::G27,
    "p_g28": crate::schemas::par::G28,
    "p_g29": crate::schemas::par::G29,
    "p_g30": crate::schemas::par::G30,
    "p_g31": crate::schemas::par::G31,
    "p_g32": crate::schemas::par::G32,
    "p_g33": crate::schemas::par::G33,
    "p_g34": crate::schemas::par::G34,
    "p_g35": crate::schemas::par::G35,
    "p_g36": crate::schemas::par::G36,
    "p_g37": crate::schemas::par::G37,
    "p_g38": crate::schemas::par::G38,
    "p_g39": crate::schemas::par::G39,
} } }
pub(crate) use with_par;

macro_rules! with_par_enc { ($mac:ident $($pre:tt)*) => { $mac!{ $($pre)*;
    "p_s_plain": crate::schemas::par::SPlain,
    "p_s_opt": crate::schemas::par::SOpt,
    "p_s_def": crate::schemas::par::SDef,
    "p_s_exp": crate::schemas::par::SExp,
    "p_s_imp": crate::schemas::par::SImp,
    "p_s_cls": crate::schemas::par::SCls,
    "p_s_same": crate::schemas::par::SSame,
    "p_s_any": crate::schemas::par::SAny,
    "p_s_long": crate::schemas::par::SLong,
    "p_s_leaf": crate::schemas::par::SLeaf,
    "p_s_nest": crate::schemas::par::SNest,
    "p_s_opts": crate::schemas::par::SOpts,
    "p_s_vec": crate::schemas::par::SVec,
    "p_s_one": crate::schemas::par::SOne,
    "p_s_empty": crate::schemas::par::SEmpty,
    "p_t_plain": crate::schemas::par::TPlain,
    "p_t_opt": crate::schemas::par::TOpt,
    "p_t_tag": crate::schemas::par::TTag,
    "p_t_nest": crate::schemas::par::TNest,
    "p_s_inset": crate::schemas::par::SInset,
    "p_g0": crate::schemas::par::G0,
    "p_g1": crate::schemas::par::G1,
    "p_g2": crate::schemas::par::G2,
    "p_g3": crate::schemas::par::G3,
    "p_g4": crate::schemas::par::G4,
    "p_g5": crate::schemas::par::G5,
    "p_g6": crate::schemas::par::G6,
    "p_g7": crate::schemas::par::G7,
    "p_g8": crate::schemas::par::G8,
    "p_g9": crate::schemas::par::G9,
    "p_g10": crate::schemas::par::G10,
    "p_g11": crate::schemas::par::G11,
    "p_g12": crate::schemas::par::G12,
    "p_g13": crate::schemas::par::G13,
    "p_g14": crate::schemas::par::G14,
    "p_g15": crate::schemas::par::G15,
    "p_g16": crate::schemas::par::G16,
    "p_g17": crate::schemas::par::G17,
    "p_g18": crate::schemas::par::G18,
    "p_g19": crate::schemas::par::G19,
    "p_g20": crate::schemas::par::G20,
    "p_g21": crate::schemas::par::G21,
    "p_g22": crate::schemas::par::G22,
    "p_g23": crate::schemas::par::G23,
    "p_g24": crate::schemas::par::G24,
    "p_g25": crate::schemas::par::G25,
    "p_g26": crate::schemas::par::G26,
    "p_g27": crate::schemas::par::G27,
    "p_g28": crate::schemas::par::G28,
    "p_g29": crate::schemas::par::G29,
    "p_g30": crate::schemas::par::G30,
    "p_g31": crate::schemas::par::G31,
    "p_g32": crate::schemas::par::G32,
    "p_g33": crate::schemas::par::G33,
    "p_g34": crate::schemas::par::G34,
    "p_g35": crate::schemas::par::G35,
    "p_g36": crate::schemas::par::G36,
    "p_g37": crate::schemas::par::G37,
    "p_g38": crate::schemas::par::G38,
    "p_g39": crate::schemas::par::G39,
} } }
pub(crate) use with_par_enc;

macro_rules! with_old { ($mac:ident $($pre:tt)*) => { $mac!{ $($pre)*;
    "s_plain": crate::schemas::old::SPlain,
    "s_opt": crate::schemas::old::SOpt,
    "s_def": crate::schemas::old::SDef,
    "s_exp": crate::schemas::old::SExp,
    "s_imp": crate::schemas::old::SImp,
    "s_cls": crate::schemas::old::SCls,
    "s_same": crate::schemas::old::SSame,
    "s_any": crate::schemas::old::SAny,
    "s_long": crate::schemas::old::SLong,
    "s_leaf": crate::schemas::old::SLeaf,
    "s_nest": crate::schemas::old::SNest,
    "s_opts": crate::schemas::old::SOpts,
    "s_vec": crate::schemas::old::SVec,
    "s_one": crate::schemas::old::SOne,
    "t_plain": crate::schemas::old::TPlain,
    "t_opt": crate::schemas::old::TOpt,
    "t_tag": crate::schemas::old::TTag,
    "t_nest": crate::schemas::old::TNest,
    "s_inset": crate::schemas::old::SInset,
    "a_u8": crate::schemas::old::AU8,
    "a_oct": crate::schemas::old::AOct,
    "a_bool": crate::schemas::old::ABool,
    "a_any": crate::schemas::old::AAny,
    "a_utf8": crate::schemas::old::AUtf8,
    "g0": crate::schemas::old::G0,
    "g1": crate::schemas::old::G1,
    "g2": crate::schemas::old::G2,
    "g3": crate::schemas::old::G3,
    "g4": crate::schemas::old::G4,
    "g5": crate::schemas::old::G5,
    "g6": crate::schemas::old::G6,
    "g8": crate::schemas::old::G8,
    "g9": crate::schemas::old::G9,
    "g10": crate::schemas::old::G10,
    "g11": crate::schemas::old::G11,
    "g12": crate::schemas::old::G12,
    "g13": crate::schemas::old::G13,
    "g14": crate::schemas::old::G14,
    "g15": crate::schemas::old::G15,
    "g16": crate::schemas::old::G16,
    "g17": crate::schemas::old::G17,
    "g18": crate::schemas::old::G18,
    "g19": crate::schemas::old::G19,
    "g20": crate::schemas::old::G20,
    "g21": crate::schemas::old::G21,
    "g22": crate::schemas::old::G22,
    "g23": crate::schemas::old::G23,
    "g26": crate::schemas::old::G26,
    "g27": crate::schemas::old::G27,
    "g30": crate::schemas::old::G30,
    "g32": crate::schemas::old::G32,
    "g34": crate::schemas::old::G34,
    "g35": crate::schemas::old::G35,
    "g36": crate::schemas::old::G36,
    "g37": crate::schemas::old::G37,
    "g38": crate::schemas::old::G38,
    "g39": crate::schemas::old::G39,
} } }
pub(crate) use with_old;

macro_rules! with_bold { ($mac:ident $($pre:tt)*) => { $mac!{ $($pre)*;
    "b_s_plain": crate::schemas::bold::SPlain,
    "b_s_opt": crate::schemas::bold::SOpt,
    "b_s_def": crate::schemas::bold::SDef,
    "b_s_exp": crate::schemas::bold::SExp,
    "b_s_imp": crate::schemas::bold::SImp,
    "b_s_cls": crate::schemas::bold::SCls,
    "b_s_same": crate::schemas::bold::SSame,
    "b_s_any": crate::schemas::bold::SAny,
    "b_s_long": crate::schemas::bold::SLong,
    "b_s_leaf": crate::schemas::bold::SLeaf,
    "b_s_nest": crate::schemas::bold::SNest,
    "b_s_opts": crate::schemas::bold::SOpts,
    "b_s_vec": crate::schemas::bold::SVec,
    "b_s_one": crate::schemas::bold::SOne,
    "b_t_plain": crate::schemas::bold::TPlain,
    "b_t_opt": crate::schemas::bold::TOpt,
    "b_t_tag": crate::schemas::bold::TTag,
    "b_t_nest": crate::schemas::bold::TNest,
    "b_s_inset": crate::schemas::bold::SInset,
    "b_a_u8": crate::schemas::bold::AU8,
    "b_a_oct": crate::schemas::bold::AOct,
    "b_a_bool": crate::schemas::bold::ABool,
    "b_a_any": crate::schemas::bold::AAny,
    "b_a_utf8": crate::schemas::bold::AUtf8,
    "b_g0": crate::schemas::bold::G0,
    "b_g1": crate::schemas::bold::G1,
    "b_g2": crate::schemas::bold::G2,
    "b_g3": crate::schemas::bold::G3,
    "b_g4": crate::schemas::bold::G4,
    "b_g5": crate::schemas::bold::G5,
    "b_g6": crate::schemas::bold::G6,
    "b_g8": crate::schemas::bold::G8,
    "b_g9": crate::schemas::bold::G9,
    "b_g10": crate::schemas::bold::G10,
    "b_g11": crate::schemas::bold::G11,
    "b_g12": crate::schemas::bold::G12,
    "b_g13": crate::schemas::bold::G13,
    "b_g14": crate::schemas::bold::G14,
    "b_g15": crate::schemas::bold::G15,
    "b_g16": crate::schemas::bold::G16,
    "b_g17": crate::schemas::bold::G17,
    "b_g18": crate::schemas::bold::G18,
    "b_g19": crate::schemas::bold::G19,
    "b_g20": crate::schemas::bold::G20,
    "b_g21": crate::schemas::bold::G21,
    "b_g22": crate::schemas::bold::G22,
    "b_g23": crate::schemas::bold::G23,
    "b_g26": crate::schemas::bold::G26,
    "b_g27": crate::schemas::bold::G27,
    "b_g30": crate::schemas::bold::G30,
    "b_g32": crate::schemas::bold::G32,
    "b_g34": crate::schemas::bold::G34,
    "b_g35": crate::schemas::bold::G35,
    "b_g36": crate::schemas::bold::G36,
    "b_g37": crate::schemas::bold::G37,
    "b_g38": crate::schemas::bold::G38,
    "b_g39": crate::schemas::bold::G39,
} } }
pub(crate) use with_bold;
