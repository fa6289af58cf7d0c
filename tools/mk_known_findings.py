import json,subprocess
P={"055be69":"P01","05d3c8f":"P01","a9bd444":"P13","dcafc82":"P05","44abbb1":"P05","d7a1e65":"P04","28c046b":"P08","1f5eb87":"P08","a3c136c":"P08","88a15fb":"P08","99964c0":"P08","d22499d":"P23","cc43f22":"P07","52b5a36":"P07","254ec40":"P07","f78091f":"P09","36e9427":"P09","ad941a3":"P09","93f8b6d":"P10","54ebf50":"P10","654cb4b":"P10","30ab997":"P10","f4ca071":"P10","8f88e09":"P10","8868183":"P16","ea3d71a":"P16","3a65561":"P18","6c80adb":"P18","a0f4cfe":"P12","edb2ce8":"P12","00f0902":"P12","252b26a":"P17","282d024":"P11","0eaf5d1":"P11","643d70d":"P11","3af68e7":"P11","6b8f172":"P11","4789261":"P11","28cd507":"P11","8826788":"P11","6afbecb":"P09","913a9c4":"P03","37bf43a":"P11","fba83a4":"P11","7267aae":"P11","1536fdb":"P16","517b206":"P15","f120c6f":"P21","92a2396":"P21","aedf721":"P21","da3392a":"P17","7874e1a":"P17","21e80f8":"P12","dcd1ba7":"P04","8d5eca1":"P13","0e595db":"P17","9769b6e":"P19","10d666c":"P19","ab00a03":"P18","dd914ff":"P23","6b62308":"P15","950199a":"P07","acdd2f5":"P15","74feac9":"P02"}
fixed=[]
for l in subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s"],capture_output=True,text=True).stdout.splitlines():
    h,s=l.split(" ",1)
    if s.startswith("fix:"):
        fixed.append(f"fixed: property={P[h]} {h} {s[4:].strip()}")
F=[
("K1",["P02","P16","P19","P20","P21"],"Option<Tagged...> (and Option of a derived tagged CHOICE) decides presence by the tag number only, whatever the class (DynTagged::accept_tag is not given the class)","pb:opt_te2_u8 [02 01]"),
("K2",["P12","P13"],"a definite-length container or explicit tag around an IndefiniteVec gets the length octet 80 but no end-of-contents octets","ei:v_iv <<[05]>>"),
("K3",["P03","P15","P18","P19","P21"],"the legacy FromDer of an implicitly tagged value does not apply the DER constraints of the inner type (it converts with TryFrom<Any>)","ld:ti1_octets [a1 00]"),
("K6",["P12","P17"],"the DER encoding of a HashSet writes the elements in the order of the iterator, not in ascending order (a unit test of the repository requires it)","ed:hash_u16 [31 06 02 01 05 02 01 06]"),
("K7",["P02","P03","P04","P12","P13","P15","P16","P17","P18","P19","P20","P21","P22"],"octets that follow the value inside an explicit tag (of a derived CHOICE, too), or the last element of a tuple, are ignored; tuples accept the primitive form","pb:te0_u8 [a0 06 02 01 05 02 01 06]"),
("K8",["P02","P03","P07","P12","P16","P21","P22"],"a constructed BIT STRING with unused bits in a segment which is not the last is accepted","pb:bitstring [23 07 03 02 04 f0 03 01 00]"),
("K9",["P01","P02","P03","P04","P09","P15","P16","P17","P18","P19","P20","P21"],"an input that ends inside a long-form tag number gives an error instead of Incomplete","pb:header [3f]"),
("K10",["P02","P03","P12","P13","P15","P16","P21"],"implicit tag over a tagged value, streaming interface: the class and number of the inner tag are compared with the outer header","pb:ti0_te1_u8 [a0 03 02 01 05]"),
("K11",["P02","P03","P06","P15","P16","P17","P18","P19","P21"],"the legacy DER decoder of ENUMERATED accepts redundant leading octets (a unit test of the repository requires it)","ld:enumerated [0a 02 00 01]"),
("K13",["P08"],"the identifier 0.0 (content 00) is shown and iterated as the single arc 0, and Oid::from(&[0]) gives content 00","oa:oid [06 01 00]"),
]
json.dump(dict(findings=[dict(id=a,properties=b,what=c,example=d) for a,b,c,d in F],fixed=fixed),open("/verif/known_findings.json","w"),indent=1)
