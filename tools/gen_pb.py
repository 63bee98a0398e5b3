#!/usr/bin/env python3
"""Writes harness/pbtypes.go: pairs of an amino message type and the golang/protobuf type that corresponds."""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# name, amino type, amino tag, pb type, pb encoding, repeated pb type ("" = scalar packed of the same)
S = [("bool","bool","","bool","varint"),("i8","int8","","int32","zigzag32"),("i16","int16","","int32","zigzag32"),
 ("i32","int32","","int32","varint"),("i64","int64","","int64","varint"),("int","int","","int64","varint"),
 ("u8","uint8","","uint32","varint"),("u16","uint16","","uint32","varint"),("u32","uint32","","uint32","varint"),
 ("u64","uint64","","uint64","varint"),("uint","uint","","uint64","varint"),
 ("f64","int64",'binary:"fixed64"',"int64","fixed64"),("fu64","uint64",'binary:"fixed64"',"uint64","fixed64"),
 ("f32","int32",'binary:"fixed32"',"int32","fixed32"),("fu32","uint32",'binary:"fixed32"',"uint32","fixed32"),
 ("my","MyInt","","int64","varint")]
K = []
for n,a,t,p,e in S:
    K.append((n,a,t,p,e+",{n},opt,name={N},proto3"))
    if a != "uint8":
        K.append(("rep_"+n,"[]"+a,t,"[]"+p,e+",{n},rep,packed,name={N},proto3"))
        K.append(("arr_"+n,"[2]"+a,t,"[]"+p,e+",{n},rep,packed,name={N},proto3"))
B = [("str","string","string"),("mystr","MyString","string"),("bytes","[]byte","[]byte"),("mybytes","MyBytes","[]byte"),("arr3b","[3]byte","[]byte"),
 ("time","time.Time","*timestamp.Timestamp"),("ptime","*time.Time","*timestamp.Timestamp"),
 ("n1","AN1","*PN1"),("pn1","*AN1","*PN1"),("n2","AN2","*PN2"),("pn2","*AN2","*PN2"),("pn3","*AN3","*PN3"),("empty","Empty","*PEmpty"),("pempty","*Empty","*PEmpty")]
for n,a,p in B:
    K.append((n,a,"",p,"bytes,{n},opt,name={N},proto3"))
    K.append(("rep_"+n,"[]"+a,"","[]"+p,"bytes,{n},rep,name={N},proto3"))
    if n in ("str","bytes","time","n1","pn1"):
        K.append(("arr_"+n,"[2]"+a,"","[]"+p,"bytes,{n},rep,name={N},proto3"))
byname = {k[0]: k for k in K}
out = ["// Code generated by tools/gen_pb.py. DO NOT EDIT.","","package main","",'import (','"time"','"github.com/golang/protobuf/ptypes/timestamp"',')',""]
def msg(i, parts):
    a, p = [], []
    for n,(nm,at,tag,pt,pe) in enumerate(parts, 1):
        N = "F%d" % n
        a.append("%s %s%s" % (N, at, " `"+tag+"`" if tag else ""))
        p.append('%s %s `protobuf:"%s"`' % (N, pt, pe.format(n=n,N=N)))
    out.append("type pA%d struct { %s }" % (i, "; ".join(a)))
    out.append("type pP%d struct { %s }" % (i, "; ".join(p)))
    out.append("func (m *pP%d) Reset() { *m = pP%d{} }" % (i,i))
    out.append('func (m *pP%d) String() string { return "" }' % i)
    out.append("func (*pP%d) ProtoMessage() {}" % i)
    return '{"%s", pA%d{}, &pP%d{}},' % (",".join(x[0] for x in parts), i, i)
ms = []
second = ["i8","u64","f32","str","bytes","rep_int","rep_str","time","pn1","rep_pn2"]
for k in K:
    ms.append([k])
    for s in second:
        ms.append([k, byname[s]]); 
        if s in ("rep_int","rep_str","pn1"): ms.append([byname[s], k, byname["str"]])
    ms.append([byname["i16"]]*16 + [k, byname["str"]])
rows = [msg(i, m) for i, m in enumerate(ms)]
out.append("var pbPairs = []pbPair{")
out += rows
out.append("}")
open(os.path.join(V,"harness/pbtypes.go"),"w").write("\n".join(out)+"\n")
print(len(ms))
