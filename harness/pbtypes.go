// Code generated by tools/gen_pb.py. DO NOT EDIT.

package main

import (
	"github.com/golang/protobuf/ptypes/timestamp"
	"time"
)

type pA0 struct{ F1 bool }
type pP0 struct {
	F1 bool `protobuf:"varint,1,opt,name=F1,proto3"`
}

func (m *pP0) Reset()         { *m = pP0{} }
func (m *pP0) String() string { return "" }
func (*pP0) ProtoMessage()    {}

type pA1 struct {
	F1 bool
	F2 int8
}
type pP1 struct {
	F1 bool  `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 int32 `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP1) Reset()         { *m = pP1{} }
func (m *pP1) String() string { return "" }
func (*pP1) ProtoMessage()    {}

type pA2 struct {
	F1 bool
	F2 uint64
}
type pP2 struct {
	F1 bool   `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 uint64 `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP2) Reset()         { *m = pP2{} }
func (m *pP2) String() string { return "" }
func (*pP2) ProtoMessage()    {}

type pA3 struct {
	F1 bool
	F2 int32 `binary:"fixed32"`
}
type pP3 struct {
	F1 bool  `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 int32 `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP3) Reset()         { *m = pP3{} }
func (m *pP3) String() string { return "" }
func (*pP3) ProtoMessage()    {}

type pA4 struct {
	F1 bool
	F2 string
}
type pP4 struct {
	F1 bool   `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 string `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP4) Reset()         { *m = pP4{} }
func (m *pP4) String() string { return "" }
func (*pP4) ProtoMessage()    {}

type pA5 struct {
	F1 bool
	F2 []byte
}
type pP5 struct {
	F1 bool   `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 []byte `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP5) Reset()         { *m = pP5{} }
func (m *pP5) String() string { return "" }
func (*pP5) ProtoMessage()    {}

type pA6 struct {
	F1 bool
	F2 []int
}
type pP6 struct {
	F1 bool    `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP6) Reset()         { *m = pP6{} }
func (m *pP6) String() string { return "" }
func (*pP6) ProtoMessage()    {}

type pA7 struct {
	F1 []int
	F2 bool
	F3 string
}
type pP7 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 bool    `protobuf:"varint,2,opt,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP7) Reset()         { *m = pP7{} }
func (m *pP7) String() string { return "" }
func (*pP7) ProtoMessage()    {}

type pA8 struct {
	F1 bool
	F2 []string
}
type pP8 struct {
	F1 bool     `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP8) Reset()         { *m = pP8{} }
func (m *pP8) String() string { return "" }
func (*pP8) ProtoMessage()    {}

type pA9 struct {
	F1 []string
	F2 bool
	F3 string
}
type pP9 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 bool     `protobuf:"varint,2,opt,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP9) Reset()         { *m = pP9{} }
func (m *pP9) String() string { return "" }
func (*pP9) ProtoMessage()    {}

type pA10 struct {
	F1 bool
	F2 time.Time
}
type pP10 struct {
	F1 bool                 `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP10) Reset()         { *m = pP10{} }
func (m *pP10) String() string { return "" }
func (*pP10) ProtoMessage()    {}

type pA11 struct {
	F1 bool
	F2 *AN1
}
type pP11 struct {
	F1 bool `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 *PN1 `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP11) Reset()         { *m = pP11{} }
func (m *pP11) String() string { return "" }
func (*pP11) ProtoMessage()    {}

type pA12 struct {
	F1 *AN1
	F2 bool
	F3 string
}
type pP12 struct {
	F1 *PN1   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 bool   `protobuf:"varint,2,opt,name=F2,proto3"`
	F3 string `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP12) Reset()         { *m = pP12{} }
func (m *pP12) String() string { return "" }
func (*pP12) ProtoMessage()    {}

type pA13 struct {
	F1 bool
	F2 []*AN2
}
type pP13 struct {
	F1 bool   `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 []*PN2 `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP13) Reset()         { *m = pP13{} }
func (m *pP13) String() string { return "" }
func (*pP13) ProtoMessage()    {}

type pA14 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 bool
	F18 string
}
type pP14 struct {
	F1  int32  `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32  `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32  `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32  `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32  `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32  `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32  `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32  `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32  `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32  `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32  `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32  `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32  `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32  `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32  `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 bool   `protobuf:"varint,17,opt,name=F17,proto3"`
	F18 string `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP14) Reset()         { *m = pP14{} }
func (m *pP14) String() string { return "" }
func (*pP14) ProtoMessage()    {}

type pA15 struct{ F1 []bool }
type pP15 struct {
	F1 []bool `protobuf:"varint,1,rep,packed,name=F1,proto3"`
}

func (m *pP15) Reset()         { *m = pP15{} }
func (m *pP15) String() string { return "" }
func (*pP15) ProtoMessage()    {}

type pA16 struct {
	F1 []bool
	F2 int8
}
type pP16 struct {
	F1 []bool `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP16) Reset()         { *m = pP16{} }
func (m *pP16) String() string { return "" }
func (*pP16) ProtoMessage()    {}

type pA17 struct {
	F1 []bool
	F2 uint64
}
type pP17 struct {
	F1 []bool `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 uint64 `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP17) Reset()         { *m = pP17{} }
func (m *pP17) String() string { return "" }
func (*pP17) ProtoMessage()    {}

type pA18 struct {
	F1 []bool
	F2 int32 `binary:"fixed32"`
}
type pP18 struct {
	F1 []bool `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 int32  `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP18) Reset()         { *m = pP18{} }
func (m *pP18) String() string { return "" }
func (*pP18) ProtoMessage()    {}

type pA19 struct {
	F1 []bool
	F2 string
}
type pP19 struct {
	F1 []bool `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 string `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP19) Reset()         { *m = pP19{} }
func (m *pP19) String() string { return "" }
func (*pP19) ProtoMessage()    {}

type pA20 struct {
	F1 []bool
	F2 []byte
}
type pP20 struct {
	F1 []bool `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []byte `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP20) Reset()         { *m = pP20{} }
func (m *pP20) String() string { return "" }
func (*pP20) ProtoMessage()    {}

type pA21 struct {
	F1 []bool
	F2 []int
}
type pP21 struct {
	F1 []bool  `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP21) Reset()         { *m = pP21{} }
func (m *pP21) String() string { return "" }
func (*pP21) ProtoMessage()    {}

type pA22 struct {
	F1 []int
	F2 []bool
	F3 string
}
type pP22 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []bool  `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP22) Reset()         { *m = pP22{} }
func (m *pP22) String() string { return "" }
func (*pP22) ProtoMessage()    {}

type pA23 struct {
	F1 []bool
	F2 []string
}
type pP23 struct {
	F1 []bool   `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP23) Reset()         { *m = pP23{} }
func (m *pP23) String() string { return "" }
func (*pP23) ProtoMessage()    {}

type pA24 struct {
	F1 []string
	F2 []bool
	F3 string
}
type pP24 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []bool   `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP24) Reset()         { *m = pP24{} }
func (m *pP24) String() string { return "" }
func (*pP24) ProtoMessage()    {}

type pA25 struct {
	F1 []bool
	F2 time.Time
}
type pP25 struct {
	F1 []bool               `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP25) Reset()         { *m = pP25{} }
func (m *pP25) String() string { return "" }
func (*pP25) ProtoMessage()    {}

type pA26 struct {
	F1 []bool
	F2 *AN1
}
type pP26 struct {
	F1 []bool `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 *PN1   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP26) Reset()         { *m = pP26{} }
func (m *pP26) String() string { return "" }
func (*pP26) ProtoMessage()    {}

type pA27 struct {
	F1 *AN1
	F2 []bool
	F3 string
}
type pP27 struct {
	F1 *PN1   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []bool `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3 string `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP27) Reset()         { *m = pP27{} }
func (m *pP27) String() string { return "" }
func (*pP27) ProtoMessage()    {}

type pA28 struct {
	F1 []bool
	F2 []*AN2
}
type pP28 struct {
	F1 []bool `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []*PN2 `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP28) Reset()         { *m = pP28{} }
func (m *pP28) String() string { return "" }
func (*pP28) ProtoMessage()    {}

type pA29 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 []bool
	F18 string
}
type pP29 struct {
	F1  int32  `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32  `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32  `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32  `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32  `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32  `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32  `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32  `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32  `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32  `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32  `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32  `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32  `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32  `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32  `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 []bool `protobuf:"varint,17,rep,packed,name=F17,proto3"`
	F18 string `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP29) Reset()         { *m = pP29{} }
func (m *pP29) String() string { return "" }
func (*pP29) ProtoMessage()    {}

type pA30 struct{ F1 [2]bool }
type pP30 struct {
	F1 []bool `protobuf:"varint,1,rep,packed,name=F1,proto3"`
}

func (m *pP30) Reset()         { *m = pP30{} }
func (m *pP30) String() string { return "" }
func (*pP30) ProtoMessage()    {}

type pA31 struct {
	F1 [2]bool
	F2 int8
}
type pP31 struct {
	F1 []bool `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP31) Reset()         { *m = pP31{} }
func (m *pP31) String() string { return "" }
func (*pP31) ProtoMessage()    {}

type pA32 struct {
	F1 [2]bool
	F2 uint64
}
type pP32 struct {
	F1 []bool `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 uint64 `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP32) Reset()         { *m = pP32{} }
func (m *pP32) String() string { return "" }
func (*pP32) ProtoMessage()    {}

type pA33 struct {
	F1 [2]bool
	F2 int32 `binary:"fixed32"`
}
type pP33 struct {
	F1 []bool `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 int32  `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP33) Reset()         { *m = pP33{} }
func (m *pP33) String() string { return "" }
func (*pP33) ProtoMessage()    {}

type pA34 struct {
	F1 [2]bool
	F2 string
}
type pP34 struct {
	F1 []bool `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 string `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP34) Reset()         { *m = pP34{} }
func (m *pP34) String() string { return "" }
func (*pP34) ProtoMessage()    {}

type pA35 struct {
	F1 [2]bool
	F2 []byte
}
type pP35 struct {
	F1 []bool `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []byte `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP35) Reset()         { *m = pP35{} }
func (m *pP35) String() string { return "" }
func (*pP35) ProtoMessage()    {}

type pA36 struct {
	F1 [2]bool
	F2 []int
}
type pP36 struct {
	F1 []bool  `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP36) Reset()         { *m = pP36{} }
func (m *pP36) String() string { return "" }
func (*pP36) ProtoMessage()    {}

type pA37 struct {
	F1 []int
	F2 [2]bool
	F3 string
}
type pP37 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []bool  `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP37) Reset()         { *m = pP37{} }
func (m *pP37) String() string { return "" }
func (*pP37) ProtoMessage()    {}

type pA38 struct {
	F1 [2]bool
	F2 []string
}
type pP38 struct {
	F1 []bool   `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP38) Reset()         { *m = pP38{} }
func (m *pP38) String() string { return "" }
func (*pP38) ProtoMessage()    {}

type pA39 struct {
	F1 []string
	F2 [2]bool
	F3 string
}
type pP39 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []bool   `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP39) Reset()         { *m = pP39{} }
func (m *pP39) String() string { return "" }
func (*pP39) ProtoMessage()    {}

type pA40 struct {
	F1 [2]bool
	F2 time.Time
}
type pP40 struct {
	F1 []bool               `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP40) Reset()         { *m = pP40{} }
func (m *pP40) String() string { return "" }
func (*pP40) ProtoMessage()    {}

type pA41 struct {
	F1 [2]bool
	F2 *AN1
}
type pP41 struct {
	F1 []bool `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 *PN1   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP41) Reset()         { *m = pP41{} }
func (m *pP41) String() string { return "" }
func (*pP41) ProtoMessage()    {}

type pA42 struct {
	F1 *AN1
	F2 [2]bool
	F3 string
}
type pP42 struct {
	F1 *PN1   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []bool `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3 string `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP42) Reset()         { *m = pP42{} }
func (m *pP42) String() string { return "" }
func (*pP42) ProtoMessage()    {}

type pA43 struct {
	F1 [2]bool
	F2 []*AN2
}
type pP43 struct {
	F1 []bool `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []*PN2 `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP43) Reset()         { *m = pP43{} }
func (m *pP43) String() string { return "" }
func (*pP43) ProtoMessage()    {}

type pA44 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 [2]bool
	F18 string
}
type pP44 struct {
	F1  int32  `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32  `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32  `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32  `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32  `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32  `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32  `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32  `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32  `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32  `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32  `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32  `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32  `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32  `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32  `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 []bool `protobuf:"varint,17,rep,packed,name=F17,proto3"`
	F18 string `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP44) Reset()         { *m = pP44{} }
func (m *pP44) String() string { return "" }
func (*pP44) ProtoMessage()    {}

type pA45 struct{ F1 int8 }
type pP45 struct {
	F1 int32 `protobuf:"zigzag32,1,opt,name=F1,proto3"`
}

func (m *pP45) Reset()         { *m = pP45{} }
func (m *pP45) String() string { return "" }
func (*pP45) ProtoMessage()    {}

type pA46 struct {
	F1 int8
	F2 int8
}
type pP46 struct {
	F1 int32 `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2 int32 `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP46) Reset()         { *m = pP46{} }
func (m *pP46) String() string { return "" }
func (*pP46) ProtoMessage()    {}

type pA47 struct {
	F1 int8
	F2 uint64
}
type pP47 struct {
	F1 int32  `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2 uint64 `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP47) Reset()         { *m = pP47{} }
func (m *pP47) String() string { return "" }
func (*pP47) ProtoMessage()    {}

type pA48 struct {
	F1 int8
	F2 int32 `binary:"fixed32"`
}
type pP48 struct {
	F1 int32 `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2 int32 `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP48) Reset()         { *m = pP48{} }
func (m *pP48) String() string { return "" }
func (*pP48) ProtoMessage()    {}

type pA49 struct {
	F1 int8
	F2 string
}
type pP49 struct {
	F1 int32  `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2 string `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP49) Reset()         { *m = pP49{} }
func (m *pP49) String() string { return "" }
func (*pP49) ProtoMessage()    {}

type pA50 struct {
	F1 int8
	F2 []byte
}
type pP50 struct {
	F1 int32  `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2 []byte `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP50) Reset()         { *m = pP50{} }
func (m *pP50) String() string { return "" }
func (*pP50) ProtoMessage()    {}

type pA51 struct {
	F1 int8
	F2 []int
}
type pP51 struct {
	F1 int32   `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP51) Reset()         { *m = pP51{} }
func (m *pP51) String() string { return "" }
func (*pP51) ProtoMessage()    {}

type pA52 struct {
	F1 []int
	F2 int8
	F3 string
}
type pP52 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 int32   `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP52) Reset()         { *m = pP52{} }
func (m *pP52) String() string { return "" }
func (*pP52) ProtoMessage()    {}

type pA53 struct {
	F1 int8
	F2 []string
}
type pP53 struct {
	F1 int32    `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP53) Reset()         { *m = pP53{} }
func (m *pP53) String() string { return "" }
func (*pP53) ProtoMessage()    {}

type pA54 struct {
	F1 []string
	F2 int8
	F3 string
}
type pP54 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 int32    `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP54) Reset()         { *m = pP54{} }
func (m *pP54) String() string { return "" }
func (*pP54) ProtoMessage()    {}

type pA55 struct {
	F1 int8
	F2 time.Time
}
type pP55 struct {
	F1 int32                `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP55) Reset()         { *m = pP55{} }
func (m *pP55) String() string { return "" }
func (*pP55) ProtoMessage()    {}

type pA56 struct {
	F1 int8
	F2 *AN1
}
type pP56 struct {
	F1 int32 `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2 *PN1  `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP56) Reset()         { *m = pP56{} }
func (m *pP56) String() string { return "" }
func (*pP56) ProtoMessage()    {}

type pA57 struct {
	F1 *AN1
	F2 int8
	F3 string
}
type pP57 struct {
	F1 *PN1   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3 string `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP57) Reset()         { *m = pP57{} }
func (m *pP57) String() string { return "" }
func (*pP57) ProtoMessage()    {}

type pA58 struct {
	F1 int8
	F2 []*AN2
}
type pP58 struct {
	F1 int32  `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2 []*PN2 `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP58) Reset()         { *m = pP58{} }
func (m *pP58) String() string { return "" }
func (*pP58) ProtoMessage()    {}

type pA59 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 int8
	F18 string
}
type pP59 struct {
	F1  int32  `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32  `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32  `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32  `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32  `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32  `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32  `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32  `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32  `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32  `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32  `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32  `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32  `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32  `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32  `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 int32  `protobuf:"zigzag32,17,opt,name=F17,proto3"`
	F18 string `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP59) Reset()         { *m = pP59{} }
func (m *pP59) String() string { return "" }
func (*pP59) ProtoMessage()    {}

type pA60 struct{ F1 []int8 }
type pP60 struct {
	F1 []int32 `protobuf:"zigzag32,1,rep,packed,name=F1,proto3"`
}

func (m *pP60) Reset()         { *m = pP60{} }
func (m *pP60) String() string { return "" }
func (*pP60) ProtoMessage()    {}

type pA61 struct {
	F1 []int8
	F2 int8
}
type pP61 struct {
	F1 []int32 `protobuf:"zigzag32,1,rep,packed,name=F1,proto3"`
	F2 int32   `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP61) Reset()         { *m = pP61{} }
func (m *pP61) String() string { return "" }
func (*pP61) ProtoMessage()    {}

type pA62 struct {
	F1 []int8
	F2 uint64
}
type pP62 struct {
	F1 []int32 `protobuf:"zigzag32,1,rep,packed,name=F1,proto3"`
	F2 uint64  `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP62) Reset()         { *m = pP62{} }
func (m *pP62) String() string { return "" }
func (*pP62) ProtoMessage()    {}

type pA63 struct {
	F1 []int8
	F2 int32 `binary:"fixed32"`
}
type pP63 struct {
	F1 []int32 `protobuf:"zigzag32,1,rep,packed,name=F1,proto3"`
	F2 int32   `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP63) Reset()         { *m = pP63{} }
func (m *pP63) String() string { return "" }
func (*pP63) ProtoMessage()    {}

type pA64 struct {
	F1 []int8
	F2 string
}
type pP64 struct {
	F1 []int32 `protobuf:"zigzag32,1,rep,packed,name=F1,proto3"`
	F2 string  `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP64) Reset()         { *m = pP64{} }
func (m *pP64) String() string { return "" }
func (*pP64) ProtoMessage()    {}

type pA65 struct {
	F1 []int8
	F2 []byte
}
type pP65 struct {
	F1 []int32 `protobuf:"zigzag32,1,rep,packed,name=F1,proto3"`
	F2 []byte  `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP65) Reset()         { *m = pP65{} }
func (m *pP65) String() string { return "" }
func (*pP65) ProtoMessage()    {}

type pA66 struct {
	F1 []int8
	F2 []int
}
type pP66 struct {
	F1 []int32 `protobuf:"zigzag32,1,rep,packed,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP66) Reset()         { *m = pP66{} }
func (m *pP66) String() string { return "" }
func (*pP66) ProtoMessage()    {}

type pA67 struct {
	F1 []int
	F2 []int8
	F3 string
}
type pP67 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []int32 `protobuf:"zigzag32,2,rep,packed,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP67) Reset()         { *m = pP67{} }
func (m *pP67) String() string { return "" }
func (*pP67) ProtoMessage()    {}

type pA68 struct {
	F1 []int8
	F2 []string
}
type pP68 struct {
	F1 []int32  `protobuf:"zigzag32,1,rep,packed,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP68) Reset()         { *m = pP68{} }
func (m *pP68) String() string { return "" }
func (*pP68) ProtoMessage()    {}

type pA69 struct {
	F1 []string
	F2 []int8
	F3 string
}
type pP69 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []int32  `protobuf:"zigzag32,2,rep,packed,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP69) Reset()         { *m = pP69{} }
func (m *pP69) String() string { return "" }
func (*pP69) ProtoMessage()    {}

type pA70 struct {
	F1 []int8
	F2 time.Time
}
type pP70 struct {
	F1 []int32              `protobuf:"zigzag32,1,rep,packed,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP70) Reset()         { *m = pP70{} }
func (m *pP70) String() string { return "" }
func (*pP70) ProtoMessage()    {}

type pA71 struct {
	F1 []int8
	F2 *AN1
}
type pP71 struct {
	F1 []int32 `protobuf:"zigzag32,1,rep,packed,name=F1,proto3"`
	F2 *PN1    `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP71) Reset()         { *m = pP71{} }
func (m *pP71) String() string { return "" }
func (*pP71) ProtoMessage()    {}

type pA72 struct {
	F1 *AN1
	F2 []int8
	F3 string
}
type pP72 struct {
	F1 *PN1    `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []int32 `protobuf:"zigzag32,2,rep,packed,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP72) Reset()         { *m = pP72{} }
func (m *pP72) String() string { return "" }
func (*pP72) ProtoMessage()    {}

type pA73 struct {
	F1 []int8
	F2 []*AN2
}
type pP73 struct {
	F1 []int32 `protobuf:"zigzag32,1,rep,packed,name=F1,proto3"`
	F2 []*PN2  `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP73) Reset()         { *m = pP73{} }
func (m *pP73) String() string { return "" }
func (*pP73) ProtoMessage()    {}

type pA74 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 []int8
	F18 string
}
type pP74 struct {
	F1  int32   `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32   `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32   `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32   `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32   `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32   `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32   `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32   `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32   `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32   `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32   `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32   `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32   `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32   `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32   `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32   `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 []int32 `protobuf:"zigzag32,17,rep,packed,name=F17,proto3"`
	F18 string  `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP74) Reset()         { *m = pP74{} }
func (m *pP74) String() string { return "" }
func (*pP74) ProtoMessage()    {}

type pA75 struct{ F1 [2]int8 }
type pP75 struct {
	F1 []int32 `protobuf:"zigzag32,1,rep,packed,name=F1,proto3"`
}

func (m *pP75) Reset()         { *m = pP75{} }
func (m *pP75) String() string { return "" }
func (*pP75) ProtoMessage()    {}

type pA76 struct {
	F1 [2]int8
	F2 int8
}
type pP76 struct {
	F1 []int32 `protobuf:"zigzag32,1,rep,packed,name=F1,proto3"`
	F2 int32   `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP76) Reset()         { *m = pP76{} }
func (m *pP76) String() string { return "" }
func (*pP76) ProtoMessage()    {}

type pA77 struct {
	F1 [2]int8
	F2 uint64
}
type pP77 struct {
	F1 []int32 `protobuf:"zigzag32,1,rep,packed,name=F1,proto3"`
	F2 uint64  `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP77) Reset()         { *m = pP77{} }
func (m *pP77) String() string { return "" }
func (*pP77) ProtoMessage()    {}

type pA78 struct {
	F1 [2]int8
	F2 int32 `binary:"fixed32"`
}
type pP78 struct {
	F1 []int32 `protobuf:"zigzag32,1,rep,packed,name=F1,proto3"`
	F2 int32   `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP78) Reset()         { *m = pP78{} }
func (m *pP78) String() string { return "" }
func (*pP78) ProtoMessage()    {}

type pA79 struct {
	F1 [2]int8
	F2 string
}
type pP79 struct {
	F1 []int32 `protobuf:"zigzag32,1,rep,packed,name=F1,proto3"`
	F2 string  `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP79) Reset()         { *m = pP79{} }
func (m *pP79) String() string { return "" }
func (*pP79) ProtoMessage()    {}

type pA80 struct {
	F1 [2]int8
	F2 []byte
}
type pP80 struct {
	F1 []int32 `protobuf:"zigzag32,1,rep,packed,name=F1,proto3"`
	F2 []byte  `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP80) Reset()         { *m = pP80{} }
func (m *pP80) String() string { return "" }
func (*pP80) ProtoMessage()    {}

type pA81 struct {
	F1 [2]int8
	F2 []int
}
type pP81 struct {
	F1 []int32 `protobuf:"zigzag32,1,rep,packed,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP81) Reset()         { *m = pP81{} }
func (m *pP81) String() string { return "" }
func (*pP81) ProtoMessage()    {}

type pA82 struct {
	F1 []int
	F2 [2]int8
	F3 string
}
type pP82 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []int32 `protobuf:"zigzag32,2,rep,packed,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP82) Reset()         { *m = pP82{} }
func (m *pP82) String() string { return "" }
func (*pP82) ProtoMessage()    {}

type pA83 struct {
	F1 [2]int8
	F2 []string
}
type pP83 struct {
	F1 []int32  `protobuf:"zigzag32,1,rep,packed,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP83) Reset()         { *m = pP83{} }
func (m *pP83) String() string { return "" }
func (*pP83) ProtoMessage()    {}

type pA84 struct {
	F1 []string
	F2 [2]int8
	F3 string
}
type pP84 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []int32  `protobuf:"zigzag32,2,rep,packed,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP84) Reset()         { *m = pP84{} }
func (m *pP84) String() string { return "" }
func (*pP84) ProtoMessage()    {}

type pA85 struct {
	F1 [2]int8
	F2 time.Time
}
type pP85 struct {
	F1 []int32              `protobuf:"zigzag32,1,rep,packed,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP85) Reset()         { *m = pP85{} }
func (m *pP85) String() string { return "" }
func (*pP85) ProtoMessage()    {}

type pA86 struct {
	F1 [2]int8
	F2 *AN1
}
type pP86 struct {
	F1 []int32 `protobuf:"zigzag32,1,rep,packed,name=F1,proto3"`
	F2 *PN1    `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP86) Reset()         { *m = pP86{} }
func (m *pP86) String() string { return "" }
func (*pP86) ProtoMessage()    {}

type pA87 struct {
	F1 *AN1
	F2 [2]int8
	F3 string
}
type pP87 struct {
	F1 *PN1    `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []int32 `protobuf:"zigzag32,2,rep,packed,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP87) Reset()         { *m = pP87{} }
func (m *pP87) String() string { return "" }
func (*pP87) ProtoMessage()    {}

type pA88 struct {
	F1 [2]int8
	F2 []*AN2
}
type pP88 struct {
	F1 []int32 `protobuf:"zigzag32,1,rep,packed,name=F1,proto3"`
	F2 []*PN2  `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP88) Reset()         { *m = pP88{} }
func (m *pP88) String() string { return "" }
func (*pP88) ProtoMessage()    {}

type pA89 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 [2]int8
	F18 string
}
type pP89 struct {
	F1  int32   `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32   `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32   `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32   `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32   `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32   `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32   `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32   `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32   `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32   `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32   `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32   `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32   `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32   `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32   `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32   `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 []int32 `protobuf:"zigzag32,17,rep,packed,name=F17,proto3"`
	F18 string  `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP89) Reset()         { *m = pP89{} }
func (m *pP89) String() string { return "" }
func (*pP89) ProtoMessage()    {}

type pA90 struct{ F1 int16 }
type pP90 struct {
	F1 int32 `protobuf:"zigzag32,1,opt,name=F1,proto3"`
}

func (m *pP90) Reset()         { *m = pP90{} }
func (m *pP90) String() string { return "" }
func (*pP90) ProtoMessage()    {}

type pA91 struct {
	F1 int16
	F2 int8
}
type pP91 struct {
	F1 int32 `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2 int32 `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP91) Reset()         { *m = pP91{} }
func (m *pP91) String() string { return "" }
func (*pP91) ProtoMessage()    {}

type pA92 struct {
	F1 int16
	F2 uint64
}
type pP92 struct {
	F1 int32  `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2 uint64 `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP92) Reset()         { *m = pP92{} }
func (m *pP92) String() string { return "" }
func (*pP92) ProtoMessage()    {}

type pA93 struct {
	F1 int16
	F2 int32 `binary:"fixed32"`
}
type pP93 struct {
	F1 int32 `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2 int32 `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP93) Reset()         { *m = pP93{} }
func (m *pP93) String() string { return "" }
func (*pP93) ProtoMessage()    {}

type pA94 struct {
	F1 int16
	F2 string
}
type pP94 struct {
	F1 int32  `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2 string `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP94) Reset()         { *m = pP94{} }
func (m *pP94) String() string { return "" }
func (*pP94) ProtoMessage()    {}

type pA95 struct {
	F1 int16
	F2 []byte
}
type pP95 struct {
	F1 int32  `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2 []byte `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP95) Reset()         { *m = pP95{} }
func (m *pP95) String() string { return "" }
func (*pP95) ProtoMessage()    {}

type pA96 struct {
	F1 int16
	F2 []int
}
type pP96 struct {
	F1 int32   `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP96) Reset()         { *m = pP96{} }
func (m *pP96) String() string { return "" }
func (*pP96) ProtoMessage()    {}

type pA97 struct {
	F1 []int
	F2 int16
	F3 string
}
type pP97 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 int32   `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP97) Reset()         { *m = pP97{} }
func (m *pP97) String() string { return "" }
func (*pP97) ProtoMessage()    {}

type pA98 struct {
	F1 int16
	F2 []string
}
type pP98 struct {
	F1 int32    `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP98) Reset()         { *m = pP98{} }
func (m *pP98) String() string { return "" }
func (*pP98) ProtoMessage()    {}

type pA99 struct {
	F1 []string
	F2 int16
	F3 string
}
type pP99 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 int32    `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP99) Reset()         { *m = pP99{} }
func (m *pP99) String() string { return "" }
func (*pP99) ProtoMessage()    {}

type pA100 struct {
	F1 int16
	F2 time.Time
}
type pP100 struct {
	F1 int32                `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP100) Reset()         { *m = pP100{} }
func (m *pP100) String() string { return "" }
func (*pP100) ProtoMessage()    {}

type pA101 struct {
	F1 int16
	F2 *AN1
}
type pP101 struct {
	F1 int32 `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2 *PN1  `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP101) Reset()         { *m = pP101{} }
func (m *pP101) String() string { return "" }
func (*pP101) ProtoMessage()    {}

type pA102 struct {
	F1 *AN1
	F2 int16
	F3 string
}
type pP102 struct {
	F1 *PN1   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3 string `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP102) Reset()         { *m = pP102{} }
func (m *pP102) String() string { return "" }
func (*pP102) ProtoMessage()    {}

type pA103 struct {
	F1 int16
	F2 []*AN2
}
type pP103 struct {
	F1 int32  `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2 []*PN2 `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP103) Reset()         { *m = pP103{} }
func (m *pP103) String() string { return "" }
func (*pP103) ProtoMessage()    {}

type pA104 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 int16
	F18 string
}
type pP104 struct {
	F1  int32  `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32  `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32  `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32  `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32  `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32  `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32  `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32  `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32  `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32  `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32  `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32  `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32  `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32  `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32  `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 int32  `protobuf:"zigzag32,17,opt,name=F17,proto3"`
	F18 string `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP104) Reset()         { *m = pP104{} }
func (m *pP104) String() string { return "" }
func (*pP104) ProtoMessage()    {}

type pA105 struct{ F1 []int16 }
type pP105 struct {
	F1 []int32 `protobuf:"zigzag32,1,rep,packed,name=F1,proto3"`
}

func (m *pP105) Reset()         { *m = pP105{} }
func (m *pP105) String() string { return "" }
func (*pP105) ProtoMessage()    {}

type pA106 struct {
	F1 []int16
	F2 int8
}
type pP106 struct {
	F1 []int32 `protobuf:"zigzag32,1,rep,packed,name=F1,proto3"`
	F2 int32   `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP106) Reset()         { *m = pP106{} }
func (m *pP106) String() string { return "" }
func (*pP106) ProtoMessage()    {}

type pA107 struct {
	F1 []int16
	F2 uint64
}
type pP107 struct {
	F1 []int32 `protobuf:"zigzag32,1,rep,packed,name=F1,proto3"`
	F2 uint64  `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP107) Reset()         { *m = pP107{} }
func (m *pP107) String() string { return "" }
func (*pP107) ProtoMessage()    {}

type pA108 struct {
	F1 []int16
	F2 int32 `binary:"fixed32"`
}
type pP108 struct {
	F1 []int32 `protobuf:"zigzag32,1,rep,packed,name=F1,proto3"`
	F2 int32   `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP108) Reset()         { *m = pP108{} }
func (m *pP108) String() string { return "" }
func (*pP108) ProtoMessage()    {}

type pA109 struct {
	F1 []int16
	F2 string
}
type pP109 struct {
	F1 []int32 `protobuf:"zigzag32,1,rep,packed,name=F1,proto3"`
	F2 string  `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP109) Reset()         { *m = pP109{} }
func (m *pP109) String() string { return "" }
func (*pP109) ProtoMessage()    {}

type pA110 struct {
	F1 []int16
	F2 []byte
}
type pP110 struct {
	F1 []int32 `protobuf:"zigzag32,1,rep,packed,name=F1,proto3"`
	F2 []byte  `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP110) Reset()         { *m = pP110{} }
func (m *pP110) String() string { return "" }
func (*pP110) ProtoMessage()    {}

type pA111 struct {
	F1 []int16
	F2 []int
}
type pP111 struct {
	F1 []int32 `protobuf:"zigzag32,1,rep,packed,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP111) Reset()         { *m = pP111{} }
func (m *pP111) String() string { return "" }
func (*pP111) ProtoMessage()    {}

type pA112 struct {
	F1 []int
	F2 []int16
	F3 string
}
type pP112 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []int32 `protobuf:"zigzag32,2,rep,packed,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP112) Reset()         { *m = pP112{} }
func (m *pP112) String() string { return "" }
func (*pP112) ProtoMessage()    {}

type pA113 struct {
	F1 []int16
	F2 []string
}
type pP113 struct {
	F1 []int32  `protobuf:"zigzag32,1,rep,packed,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP113) Reset()         { *m = pP113{} }
func (m *pP113) String() string { return "" }
func (*pP113) ProtoMessage()    {}

type pA114 struct {
	F1 []string
	F2 []int16
	F3 string
}
type pP114 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []int32  `protobuf:"zigzag32,2,rep,packed,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP114) Reset()         { *m = pP114{} }
func (m *pP114) String() string { return "" }
func (*pP114) ProtoMessage()    {}

type pA115 struct {
	F1 []int16
	F2 time.Time
}
type pP115 struct {
	F1 []int32              `protobuf:"zigzag32,1,rep,packed,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP115) Reset()         { *m = pP115{} }
func (m *pP115) String() string { return "" }
func (*pP115) ProtoMessage()    {}

type pA116 struct {
	F1 []int16
	F2 *AN1
}
type pP116 struct {
	F1 []int32 `protobuf:"zigzag32,1,rep,packed,name=F1,proto3"`
	F2 *PN1    `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP116) Reset()         { *m = pP116{} }
func (m *pP116) String() string { return "" }
func (*pP116) ProtoMessage()    {}

type pA117 struct {
	F1 *AN1
	F2 []int16
	F3 string
}
type pP117 struct {
	F1 *PN1    `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []int32 `protobuf:"zigzag32,2,rep,packed,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP117) Reset()         { *m = pP117{} }
func (m *pP117) String() string { return "" }
func (*pP117) ProtoMessage()    {}

type pA118 struct {
	F1 []int16
	F2 []*AN2
}
type pP118 struct {
	F1 []int32 `protobuf:"zigzag32,1,rep,packed,name=F1,proto3"`
	F2 []*PN2  `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP118) Reset()         { *m = pP118{} }
func (m *pP118) String() string { return "" }
func (*pP118) ProtoMessage()    {}

type pA119 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 []int16
	F18 string
}
type pP119 struct {
	F1  int32   `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32   `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32   `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32   `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32   `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32   `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32   `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32   `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32   `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32   `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32   `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32   `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32   `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32   `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32   `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32   `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 []int32 `protobuf:"zigzag32,17,rep,packed,name=F17,proto3"`
	F18 string  `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP119) Reset()         { *m = pP119{} }
func (m *pP119) String() string { return "" }
func (*pP119) ProtoMessage()    {}

type pA120 struct{ F1 [2]int16 }
type pP120 struct {
	F1 []int32 `protobuf:"zigzag32,1,rep,packed,name=F1,proto3"`
}

func (m *pP120) Reset()         { *m = pP120{} }
func (m *pP120) String() string { return "" }
func (*pP120) ProtoMessage()    {}

type pA121 struct {
	F1 [2]int16
	F2 int8
}
type pP121 struct {
	F1 []int32 `protobuf:"zigzag32,1,rep,packed,name=F1,proto3"`
	F2 int32   `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP121) Reset()         { *m = pP121{} }
func (m *pP121) String() string { return "" }
func (*pP121) ProtoMessage()    {}

type pA122 struct {
	F1 [2]int16
	F2 uint64
}
type pP122 struct {
	F1 []int32 `protobuf:"zigzag32,1,rep,packed,name=F1,proto3"`
	F2 uint64  `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP122) Reset()         { *m = pP122{} }
func (m *pP122) String() string { return "" }
func (*pP122) ProtoMessage()    {}

type pA123 struct {
	F1 [2]int16
	F2 int32 `binary:"fixed32"`
}
type pP123 struct {
	F1 []int32 `protobuf:"zigzag32,1,rep,packed,name=F1,proto3"`
	F2 int32   `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP123) Reset()         { *m = pP123{} }
func (m *pP123) String() string { return "" }
func (*pP123) ProtoMessage()    {}

type pA124 struct {
	F1 [2]int16
	F2 string
}
type pP124 struct {
	F1 []int32 `protobuf:"zigzag32,1,rep,packed,name=F1,proto3"`
	F2 string  `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP124) Reset()         { *m = pP124{} }
func (m *pP124) String() string { return "" }
func (*pP124) ProtoMessage()    {}

type pA125 struct {
	F1 [2]int16
	F2 []byte
}
type pP125 struct {
	F1 []int32 `protobuf:"zigzag32,1,rep,packed,name=F1,proto3"`
	F2 []byte  `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP125) Reset()         { *m = pP125{} }
func (m *pP125) String() string { return "" }
func (*pP125) ProtoMessage()    {}

type pA126 struct {
	F1 [2]int16
	F2 []int
}
type pP126 struct {
	F1 []int32 `protobuf:"zigzag32,1,rep,packed,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP126) Reset()         { *m = pP126{} }
func (m *pP126) String() string { return "" }
func (*pP126) ProtoMessage()    {}

type pA127 struct {
	F1 []int
	F2 [2]int16
	F3 string
}
type pP127 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []int32 `protobuf:"zigzag32,2,rep,packed,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP127) Reset()         { *m = pP127{} }
func (m *pP127) String() string { return "" }
func (*pP127) ProtoMessage()    {}

type pA128 struct {
	F1 [2]int16
	F2 []string
}
type pP128 struct {
	F1 []int32  `protobuf:"zigzag32,1,rep,packed,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP128) Reset()         { *m = pP128{} }
func (m *pP128) String() string { return "" }
func (*pP128) ProtoMessage()    {}

type pA129 struct {
	F1 []string
	F2 [2]int16
	F3 string
}
type pP129 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []int32  `protobuf:"zigzag32,2,rep,packed,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP129) Reset()         { *m = pP129{} }
func (m *pP129) String() string { return "" }
func (*pP129) ProtoMessage()    {}

type pA130 struct {
	F1 [2]int16
	F2 time.Time
}
type pP130 struct {
	F1 []int32              `protobuf:"zigzag32,1,rep,packed,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP130) Reset()         { *m = pP130{} }
func (m *pP130) String() string { return "" }
func (*pP130) ProtoMessage()    {}

type pA131 struct {
	F1 [2]int16
	F2 *AN1
}
type pP131 struct {
	F1 []int32 `protobuf:"zigzag32,1,rep,packed,name=F1,proto3"`
	F2 *PN1    `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP131) Reset()         { *m = pP131{} }
func (m *pP131) String() string { return "" }
func (*pP131) ProtoMessage()    {}

type pA132 struct {
	F1 *AN1
	F2 [2]int16
	F3 string
}
type pP132 struct {
	F1 *PN1    `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []int32 `protobuf:"zigzag32,2,rep,packed,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP132) Reset()         { *m = pP132{} }
func (m *pP132) String() string { return "" }
func (*pP132) ProtoMessage()    {}

type pA133 struct {
	F1 [2]int16
	F2 []*AN2
}
type pP133 struct {
	F1 []int32 `protobuf:"zigzag32,1,rep,packed,name=F1,proto3"`
	F2 []*PN2  `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP133) Reset()         { *m = pP133{} }
func (m *pP133) String() string { return "" }
func (*pP133) ProtoMessage()    {}

type pA134 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 [2]int16
	F18 string
}
type pP134 struct {
	F1  int32   `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32   `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32   `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32   `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32   `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32   `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32   `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32   `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32   `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32   `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32   `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32   `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32   `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32   `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32   `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32   `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 []int32 `protobuf:"zigzag32,17,rep,packed,name=F17,proto3"`
	F18 string  `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP134) Reset()         { *m = pP134{} }
func (m *pP134) String() string { return "" }
func (*pP134) ProtoMessage()    {}

type pA135 struct{ F1 int32 }
type pP135 struct {
	F1 int32 `protobuf:"varint,1,opt,name=F1,proto3"`
}

func (m *pP135) Reset()         { *m = pP135{} }
func (m *pP135) String() string { return "" }
func (*pP135) ProtoMessage()    {}

type pA136 struct {
	F1 int32
	F2 int8
}
type pP136 struct {
	F1 int32 `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 int32 `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP136) Reset()         { *m = pP136{} }
func (m *pP136) String() string { return "" }
func (*pP136) ProtoMessage()    {}

type pA137 struct {
	F1 int32
	F2 uint64
}
type pP137 struct {
	F1 int32  `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 uint64 `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP137) Reset()         { *m = pP137{} }
func (m *pP137) String() string { return "" }
func (*pP137) ProtoMessage()    {}

type pA138 struct {
	F1 int32
	F2 int32 `binary:"fixed32"`
}
type pP138 struct {
	F1 int32 `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 int32 `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP138) Reset()         { *m = pP138{} }
func (m *pP138) String() string { return "" }
func (*pP138) ProtoMessage()    {}

type pA139 struct {
	F1 int32
	F2 string
}
type pP139 struct {
	F1 int32  `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 string `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP139) Reset()         { *m = pP139{} }
func (m *pP139) String() string { return "" }
func (*pP139) ProtoMessage()    {}

type pA140 struct {
	F1 int32
	F2 []byte
}
type pP140 struct {
	F1 int32  `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 []byte `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP140) Reset()         { *m = pP140{} }
func (m *pP140) String() string { return "" }
func (*pP140) ProtoMessage()    {}

type pA141 struct {
	F1 int32
	F2 []int
}
type pP141 struct {
	F1 int32   `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP141) Reset()         { *m = pP141{} }
func (m *pP141) String() string { return "" }
func (*pP141) ProtoMessage()    {}

type pA142 struct {
	F1 []int
	F2 int32
	F3 string
}
type pP142 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 int32   `protobuf:"varint,2,opt,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP142) Reset()         { *m = pP142{} }
func (m *pP142) String() string { return "" }
func (*pP142) ProtoMessage()    {}

type pA143 struct {
	F1 int32
	F2 []string
}
type pP143 struct {
	F1 int32    `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP143) Reset()         { *m = pP143{} }
func (m *pP143) String() string { return "" }
func (*pP143) ProtoMessage()    {}

type pA144 struct {
	F1 []string
	F2 int32
	F3 string
}
type pP144 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 int32    `protobuf:"varint,2,opt,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP144) Reset()         { *m = pP144{} }
func (m *pP144) String() string { return "" }
func (*pP144) ProtoMessage()    {}

type pA145 struct {
	F1 int32
	F2 time.Time
}
type pP145 struct {
	F1 int32                `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP145) Reset()         { *m = pP145{} }
func (m *pP145) String() string { return "" }
func (*pP145) ProtoMessage()    {}

type pA146 struct {
	F1 int32
	F2 *AN1
}
type pP146 struct {
	F1 int32 `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 *PN1  `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP146) Reset()         { *m = pP146{} }
func (m *pP146) String() string { return "" }
func (*pP146) ProtoMessage()    {}

type pA147 struct {
	F1 *AN1
	F2 int32
	F3 string
}
type pP147 struct {
	F1 *PN1   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 int32  `protobuf:"varint,2,opt,name=F2,proto3"`
	F3 string `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP147) Reset()         { *m = pP147{} }
func (m *pP147) String() string { return "" }
func (*pP147) ProtoMessage()    {}

type pA148 struct {
	F1 int32
	F2 []*AN2
}
type pP148 struct {
	F1 int32  `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 []*PN2 `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP148) Reset()         { *m = pP148{} }
func (m *pP148) String() string { return "" }
func (*pP148) ProtoMessage()    {}

type pA149 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 int32
	F18 string
}
type pP149 struct {
	F1  int32  `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32  `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32  `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32  `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32  `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32  `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32  `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32  `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32  `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32  `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32  `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32  `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32  `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32  `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32  `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 int32  `protobuf:"varint,17,opt,name=F17,proto3"`
	F18 string `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP149) Reset()         { *m = pP149{} }
func (m *pP149) String() string { return "" }
func (*pP149) ProtoMessage()    {}

type pA150 struct{ F1 []int32 }
type pP150 struct {
	F1 []int32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
}

func (m *pP150) Reset()         { *m = pP150{} }
func (m *pP150) String() string { return "" }
func (*pP150) ProtoMessage()    {}

type pA151 struct {
	F1 []int32
	F2 int8
}
type pP151 struct {
	F1 []int32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 int32   `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP151) Reset()         { *m = pP151{} }
func (m *pP151) String() string { return "" }
func (*pP151) ProtoMessage()    {}

type pA152 struct {
	F1 []int32
	F2 uint64
}
type pP152 struct {
	F1 []int32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 uint64  `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP152) Reset()         { *m = pP152{} }
func (m *pP152) String() string { return "" }
func (*pP152) ProtoMessage()    {}

type pA153 struct {
	F1 []int32
	F2 int32 `binary:"fixed32"`
}
type pP153 struct {
	F1 []int32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 int32   `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP153) Reset()         { *m = pP153{} }
func (m *pP153) String() string { return "" }
func (*pP153) ProtoMessage()    {}

type pA154 struct {
	F1 []int32
	F2 string
}
type pP154 struct {
	F1 []int32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 string  `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP154) Reset()         { *m = pP154{} }
func (m *pP154) String() string { return "" }
func (*pP154) ProtoMessage()    {}

type pA155 struct {
	F1 []int32
	F2 []byte
}
type pP155 struct {
	F1 []int32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []byte  `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP155) Reset()         { *m = pP155{} }
func (m *pP155) String() string { return "" }
func (*pP155) ProtoMessage()    {}

type pA156 struct {
	F1 []int32
	F2 []int
}
type pP156 struct {
	F1 []int32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP156) Reset()         { *m = pP156{} }
func (m *pP156) String() string { return "" }
func (*pP156) ProtoMessage()    {}

type pA157 struct {
	F1 []int
	F2 []int32
	F3 string
}
type pP157 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []int32 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP157) Reset()         { *m = pP157{} }
func (m *pP157) String() string { return "" }
func (*pP157) ProtoMessage()    {}

type pA158 struct {
	F1 []int32
	F2 []string
}
type pP158 struct {
	F1 []int32  `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP158) Reset()         { *m = pP158{} }
func (m *pP158) String() string { return "" }
func (*pP158) ProtoMessage()    {}

type pA159 struct {
	F1 []string
	F2 []int32
	F3 string
}
type pP159 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []int32  `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP159) Reset()         { *m = pP159{} }
func (m *pP159) String() string { return "" }
func (*pP159) ProtoMessage()    {}

type pA160 struct {
	F1 []int32
	F2 time.Time
}
type pP160 struct {
	F1 []int32              `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP160) Reset()         { *m = pP160{} }
func (m *pP160) String() string { return "" }
func (*pP160) ProtoMessage()    {}

type pA161 struct {
	F1 []int32
	F2 *AN1
}
type pP161 struct {
	F1 []int32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 *PN1    `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP161) Reset()         { *m = pP161{} }
func (m *pP161) String() string { return "" }
func (*pP161) ProtoMessage()    {}

type pA162 struct {
	F1 *AN1
	F2 []int32
	F3 string
}
type pP162 struct {
	F1 *PN1    `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []int32 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP162) Reset()         { *m = pP162{} }
func (m *pP162) String() string { return "" }
func (*pP162) ProtoMessage()    {}

type pA163 struct {
	F1 []int32
	F2 []*AN2
}
type pP163 struct {
	F1 []int32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []*PN2  `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP163) Reset()         { *m = pP163{} }
func (m *pP163) String() string { return "" }
func (*pP163) ProtoMessage()    {}

type pA164 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 []int32
	F18 string
}
type pP164 struct {
	F1  int32   `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32   `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32   `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32   `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32   `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32   `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32   `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32   `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32   `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32   `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32   `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32   `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32   `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32   `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32   `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32   `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 []int32 `protobuf:"varint,17,rep,packed,name=F17,proto3"`
	F18 string  `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP164) Reset()         { *m = pP164{} }
func (m *pP164) String() string { return "" }
func (*pP164) ProtoMessage()    {}

type pA165 struct{ F1 [2]int32 }
type pP165 struct {
	F1 []int32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
}

func (m *pP165) Reset()         { *m = pP165{} }
func (m *pP165) String() string { return "" }
func (*pP165) ProtoMessage()    {}

type pA166 struct {
	F1 [2]int32
	F2 int8
}
type pP166 struct {
	F1 []int32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 int32   `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP166) Reset()         { *m = pP166{} }
func (m *pP166) String() string { return "" }
func (*pP166) ProtoMessage()    {}

type pA167 struct {
	F1 [2]int32
	F2 uint64
}
type pP167 struct {
	F1 []int32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 uint64  `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP167) Reset()         { *m = pP167{} }
func (m *pP167) String() string { return "" }
func (*pP167) ProtoMessage()    {}

type pA168 struct {
	F1 [2]int32
	F2 int32 `binary:"fixed32"`
}
type pP168 struct {
	F1 []int32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 int32   `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP168) Reset()         { *m = pP168{} }
func (m *pP168) String() string { return "" }
func (*pP168) ProtoMessage()    {}

type pA169 struct {
	F1 [2]int32
	F2 string
}
type pP169 struct {
	F1 []int32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 string  `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP169) Reset()         { *m = pP169{} }
func (m *pP169) String() string { return "" }
func (*pP169) ProtoMessage()    {}

type pA170 struct {
	F1 [2]int32
	F2 []byte
}
type pP170 struct {
	F1 []int32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []byte  `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP170) Reset()         { *m = pP170{} }
func (m *pP170) String() string { return "" }
func (*pP170) ProtoMessage()    {}

type pA171 struct {
	F1 [2]int32
	F2 []int
}
type pP171 struct {
	F1 []int32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP171) Reset()         { *m = pP171{} }
func (m *pP171) String() string { return "" }
func (*pP171) ProtoMessage()    {}

type pA172 struct {
	F1 []int
	F2 [2]int32
	F3 string
}
type pP172 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []int32 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP172) Reset()         { *m = pP172{} }
func (m *pP172) String() string { return "" }
func (*pP172) ProtoMessage()    {}

type pA173 struct {
	F1 [2]int32
	F2 []string
}
type pP173 struct {
	F1 []int32  `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP173) Reset()         { *m = pP173{} }
func (m *pP173) String() string { return "" }
func (*pP173) ProtoMessage()    {}

type pA174 struct {
	F1 []string
	F2 [2]int32
	F3 string
}
type pP174 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []int32  `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP174) Reset()         { *m = pP174{} }
func (m *pP174) String() string { return "" }
func (*pP174) ProtoMessage()    {}

type pA175 struct {
	F1 [2]int32
	F2 time.Time
}
type pP175 struct {
	F1 []int32              `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP175) Reset()         { *m = pP175{} }
func (m *pP175) String() string { return "" }
func (*pP175) ProtoMessage()    {}

type pA176 struct {
	F1 [2]int32
	F2 *AN1
}
type pP176 struct {
	F1 []int32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 *PN1    `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP176) Reset()         { *m = pP176{} }
func (m *pP176) String() string { return "" }
func (*pP176) ProtoMessage()    {}

type pA177 struct {
	F1 *AN1
	F2 [2]int32
	F3 string
}
type pP177 struct {
	F1 *PN1    `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []int32 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP177) Reset()         { *m = pP177{} }
func (m *pP177) String() string { return "" }
func (*pP177) ProtoMessage()    {}

type pA178 struct {
	F1 [2]int32
	F2 []*AN2
}
type pP178 struct {
	F1 []int32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []*PN2  `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP178) Reset()         { *m = pP178{} }
func (m *pP178) String() string { return "" }
func (*pP178) ProtoMessage()    {}

type pA179 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 [2]int32
	F18 string
}
type pP179 struct {
	F1  int32   `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32   `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32   `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32   `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32   `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32   `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32   `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32   `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32   `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32   `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32   `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32   `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32   `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32   `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32   `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32   `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 []int32 `protobuf:"varint,17,rep,packed,name=F17,proto3"`
	F18 string  `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP179) Reset()         { *m = pP179{} }
func (m *pP179) String() string { return "" }
func (*pP179) ProtoMessage()    {}

type pA180 struct{ F1 int64 }
type pP180 struct {
	F1 int64 `protobuf:"varint,1,opt,name=F1,proto3"`
}

func (m *pP180) Reset()         { *m = pP180{} }
func (m *pP180) String() string { return "" }
func (*pP180) ProtoMessage()    {}

type pA181 struct {
	F1 int64
	F2 int8
}
type pP181 struct {
	F1 int64 `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 int32 `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP181) Reset()         { *m = pP181{} }
func (m *pP181) String() string { return "" }
func (*pP181) ProtoMessage()    {}

type pA182 struct {
	F1 int64
	F2 uint64
}
type pP182 struct {
	F1 int64  `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 uint64 `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP182) Reset()         { *m = pP182{} }
func (m *pP182) String() string { return "" }
func (*pP182) ProtoMessage()    {}

type pA183 struct {
	F1 int64
	F2 int32 `binary:"fixed32"`
}
type pP183 struct {
	F1 int64 `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 int32 `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP183) Reset()         { *m = pP183{} }
func (m *pP183) String() string { return "" }
func (*pP183) ProtoMessage()    {}

type pA184 struct {
	F1 int64
	F2 string
}
type pP184 struct {
	F1 int64  `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 string `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP184) Reset()         { *m = pP184{} }
func (m *pP184) String() string { return "" }
func (*pP184) ProtoMessage()    {}

type pA185 struct {
	F1 int64
	F2 []byte
}
type pP185 struct {
	F1 int64  `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 []byte `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP185) Reset()         { *m = pP185{} }
func (m *pP185) String() string { return "" }
func (*pP185) ProtoMessage()    {}

type pA186 struct {
	F1 int64
	F2 []int
}
type pP186 struct {
	F1 int64   `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP186) Reset()         { *m = pP186{} }
func (m *pP186) String() string { return "" }
func (*pP186) ProtoMessage()    {}

type pA187 struct {
	F1 []int
	F2 int64
	F3 string
}
type pP187 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 int64   `protobuf:"varint,2,opt,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP187) Reset()         { *m = pP187{} }
func (m *pP187) String() string { return "" }
func (*pP187) ProtoMessage()    {}

type pA188 struct {
	F1 int64
	F2 []string
}
type pP188 struct {
	F1 int64    `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP188) Reset()         { *m = pP188{} }
func (m *pP188) String() string { return "" }
func (*pP188) ProtoMessage()    {}

type pA189 struct {
	F1 []string
	F2 int64
	F3 string
}
type pP189 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 int64    `protobuf:"varint,2,opt,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP189) Reset()         { *m = pP189{} }
func (m *pP189) String() string { return "" }
func (*pP189) ProtoMessage()    {}

type pA190 struct {
	F1 int64
	F2 time.Time
}
type pP190 struct {
	F1 int64                `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP190) Reset()         { *m = pP190{} }
func (m *pP190) String() string { return "" }
func (*pP190) ProtoMessage()    {}

type pA191 struct {
	F1 int64
	F2 *AN1
}
type pP191 struct {
	F1 int64 `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 *PN1  `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP191) Reset()         { *m = pP191{} }
func (m *pP191) String() string { return "" }
func (*pP191) ProtoMessage()    {}

type pA192 struct {
	F1 *AN1
	F2 int64
	F3 string
}
type pP192 struct {
	F1 *PN1   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 int64  `protobuf:"varint,2,opt,name=F2,proto3"`
	F3 string `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP192) Reset()         { *m = pP192{} }
func (m *pP192) String() string { return "" }
func (*pP192) ProtoMessage()    {}

type pA193 struct {
	F1 int64
	F2 []*AN2
}
type pP193 struct {
	F1 int64  `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 []*PN2 `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP193) Reset()         { *m = pP193{} }
func (m *pP193) String() string { return "" }
func (*pP193) ProtoMessage()    {}

type pA194 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 int64
	F18 string
}
type pP194 struct {
	F1  int32  `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32  `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32  `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32  `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32  `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32  `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32  `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32  `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32  `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32  `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32  `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32  `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32  `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32  `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32  `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 int64  `protobuf:"varint,17,opt,name=F17,proto3"`
	F18 string `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP194) Reset()         { *m = pP194{} }
func (m *pP194) String() string { return "" }
func (*pP194) ProtoMessage()    {}

type pA195 struct{ F1 []int64 }
type pP195 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
}

func (m *pP195) Reset()         { *m = pP195{} }
func (m *pP195) String() string { return "" }
func (*pP195) ProtoMessage()    {}

type pA196 struct {
	F1 []int64
	F2 int8
}
type pP196 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 int32   `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP196) Reset()         { *m = pP196{} }
func (m *pP196) String() string { return "" }
func (*pP196) ProtoMessage()    {}

type pA197 struct {
	F1 []int64
	F2 uint64
}
type pP197 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 uint64  `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP197) Reset()         { *m = pP197{} }
func (m *pP197) String() string { return "" }
func (*pP197) ProtoMessage()    {}

type pA198 struct {
	F1 []int64
	F2 int32 `binary:"fixed32"`
}
type pP198 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 int32   `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP198) Reset()         { *m = pP198{} }
func (m *pP198) String() string { return "" }
func (*pP198) ProtoMessage()    {}

type pA199 struct {
	F1 []int64
	F2 string
}
type pP199 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 string  `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP199) Reset()         { *m = pP199{} }
func (m *pP199) String() string { return "" }
func (*pP199) ProtoMessage()    {}

type pA200 struct {
	F1 []int64
	F2 []byte
}
type pP200 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []byte  `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP200) Reset()         { *m = pP200{} }
func (m *pP200) String() string { return "" }
func (*pP200) ProtoMessage()    {}

type pA201 struct {
	F1 []int64
	F2 []int
}
type pP201 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP201) Reset()         { *m = pP201{} }
func (m *pP201) String() string { return "" }
func (*pP201) ProtoMessage()    {}

type pA202 struct {
	F1 []int
	F2 []int64
	F3 string
}
type pP202 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP202) Reset()         { *m = pP202{} }
func (m *pP202) String() string { return "" }
func (*pP202) ProtoMessage()    {}

type pA203 struct {
	F1 []int64
	F2 []string
}
type pP203 struct {
	F1 []int64  `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP203) Reset()         { *m = pP203{} }
func (m *pP203) String() string { return "" }
func (*pP203) ProtoMessage()    {}

type pA204 struct {
	F1 []string
	F2 []int64
	F3 string
}
type pP204 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []int64  `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP204) Reset()         { *m = pP204{} }
func (m *pP204) String() string { return "" }
func (*pP204) ProtoMessage()    {}

type pA205 struct {
	F1 []int64
	F2 time.Time
}
type pP205 struct {
	F1 []int64              `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP205) Reset()         { *m = pP205{} }
func (m *pP205) String() string { return "" }
func (*pP205) ProtoMessage()    {}

type pA206 struct {
	F1 []int64
	F2 *AN1
}
type pP206 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 *PN1    `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP206) Reset()         { *m = pP206{} }
func (m *pP206) String() string { return "" }
func (*pP206) ProtoMessage()    {}

type pA207 struct {
	F1 *AN1
	F2 []int64
	F3 string
}
type pP207 struct {
	F1 *PN1    `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP207) Reset()         { *m = pP207{} }
func (m *pP207) String() string { return "" }
func (*pP207) ProtoMessage()    {}

type pA208 struct {
	F1 []int64
	F2 []*AN2
}
type pP208 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []*PN2  `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP208) Reset()         { *m = pP208{} }
func (m *pP208) String() string { return "" }
func (*pP208) ProtoMessage()    {}

type pA209 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 []int64
	F18 string
}
type pP209 struct {
	F1  int32   `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32   `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32   `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32   `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32   `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32   `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32   `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32   `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32   `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32   `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32   `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32   `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32   `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32   `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32   `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32   `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 []int64 `protobuf:"varint,17,rep,packed,name=F17,proto3"`
	F18 string  `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP209) Reset()         { *m = pP209{} }
func (m *pP209) String() string { return "" }
func (*pP209) ProtoMessage()    {}

type pA210 struct{ F1 [2]int64 }
type pP210 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
}

func (m *pP210) Reset()         { *m = pP210{} }
func (m *pP210) String() string { return "" }
func (*pP210) ProtoMessage()    {}

type pA211 struct {
	F1 [2]int64
	F2 int8
}
type pP211 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 int32   `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP211) Reset()         { *m = pP211{} }
func (m *pP211) String() string { return "" }
func (*pP211) ProtoMessage()    {}

type pA212 struct {
	F1 [2]int64
	F2 uint64
}
type pP212 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 uint64  `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP212) Reset()         { *m = pP212{} }
func (m *pP212) String() string { return "" }
func (*pP212) ProtoMessage()    {}

type pA213 struct {
	F1 [2]int64
	F2 int32 `binary:"fixed32"`
}
type pP213 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 int32   `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP213) Reset()         { *m = pP213{} }
func (m *pP213) String() string { return "" }
func (*pP213) ProtoMessage()    {}

type pA214 struct {
	F1 [2]int64
	F2 string
}
type pP214 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 string  `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP214) Reset()         { *m = pP214{} }
func (m *pP214) String() string { return "" }
func (*pP214) ProtoMessage()    {}

type pA215 struct {
	F1 [2]int64
	F2 []byte
}
type pP215 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []byte  `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP215) Reset()         { *m = pP215{} }
func (m *pP215) String() string { return "" }
func (*pP215) ProtoMessage()    {}

type pA216 struct {
	F1 [2]int64
	F2 []int
}
type pP216 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP216) Reset()         { *m = pP216{} }
func (m *pP216) String() string { return "" }
func (*pP216) ProtoMessage()    {}

type pA217 struct {
	F1 []int
	F2 [2]int64
	F3 string
}
type pP217 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP217) Reset()         { *m = pP217{} }
func (m *pP217) String() string { return "" }
func (*pP217) ProtoMessage()    {}

type pA218 struct {
	F1 [2]int64
	F2 []string
}
type pP218 struct {
	F1 []int64  `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP218) Reset()         { *m = pP218{} }
func (m *pP218) String() string { return "" }
func (*pP218) ProtoMessage()    {}

type pA219 struct {
	F1 []string
	F2 [2]int64
	F3 string
}
type pP219 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []int64  `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP219) Reset()         { *m = pP219{} }
func (m *pP219) String() string { return "" }
func (*pP219) ProtoMessage()    {}

type pA220 struct {
	F1 [2]int64
	F2 time.Time
}
type pP220 struct {
	F1 []int64              `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP220) Reset()         { *m = pP220{} }
func (m *pP220) String() string { return "" }
func (*pP220) ProtoMessage()    {}

type pA221 struct {
	F1 [2]int64
	F2 *AN1
}
type pP221 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 *PN1    `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP221) Reset()         { *m = pP221{} }
func (m *pP221) String() string { return "" }
func (*pP221) ProtoMessage()    {}

type pA222 struct {
	F1 *AN1
	F2 [2]int64
	F3 string
}
type pP222 struct {
	F1 *PN1    `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP222) Reset()         { *m = pP222{} }
func (m *pP222) String() string { return "" }
func (*pP222) ProtoMessage()    {}

type pA223 struct {
	F1 [2]int64
	F2 []*AN2
}
type pP223 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []*PN2  `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP223) Reset()         { *m = pP223{} }
func (m *pP223) String() string { return "" }
func (*pP223) ProtoMessage()    {}

type pA224 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 [2]int64
	F18 string
}
type pP224 struct {
	F1  int32   `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32   `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32   `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32   `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32   `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32   `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32   `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32   `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32   `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32   `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32   `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32   `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32   `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32   `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32   `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32   `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 []int64 `protobuf:"varint,17,rep,packed,name=F17,proto3"`
	F18 string  `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP224) Reset()         { *m = pP224{} }
func (m *pP224) String() string { return "" }
func (*pP224) ProtoMessage()    {}

type pA225 struct{ F1 int }
type pP225 struct {
	F1 int64 `protobuf:"varint,1,opt,name=F1,proto3"`
}

func (m *pP225) Reset()         { *m = pP225{} }
func (m *pP225) String() string { return "" }
func (*pP225) ProtoMessage()    {}

type pA226 struct {
	F1 int
	F2 int8
}
type pP226 struct {
	F1 int64 `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 int32 `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP226) Reset()         { *m = pP226{} }
func (m *pP226) String() string { return "" }
func (*pP226) ProtoMessage()    {}

type pA227 struct {
	F1 int
	F2 uint64
}
type pP227 struct {
	F1 int64  `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 uint64 `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP227) Reset()         { *m = pP227{} }
func (m *pP227) String() string { return "" }
func (*pP227) ProtoMessage()    {}

type pA228 struct {
	F1 int
	F2 int32 `binary:"fixed32"`
}
type pP228 struct {
	F1 int64 `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 int32 `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP228) Reset()         { *m = pP228{} }
func (m *pP228) String() string { return "" }
func (*pP228) ProtoMessage()    {}

type pA229 struct {
	F1 int
	F2 string
}
type pP229 struct {
	F1 int64  `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 string `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP229) Reset()         { *m = pP229{} }
func (m *pP229) String() string { return "" }
func (*pP229) ProtoMessage()    {}

type pA230 struct {
	F1 int
	F2 []byte
}
type pP230 struct {
	F1 int64  `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 []byte `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP230) Reset()         { *m = pP230{} }
func (m *pP230) String() string { return "" }
func (*pP230) ProtoMessage()    {}

type pA231 struct {
	F1 int
	F2 []int
}
type pP231 struct {
	F1 int64   `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP231) Reset()         { *m = pP231{} }
func (m *pP231) String() string { return "" }
func (*pP231) ProtoMessage()    {}

type pA232 struct {
	F1 []int
	F2 int
	F3 string
}
type pP232 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 int64   `protobuf:"varint,2,opt,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP232) Reset()         { *m = pP232{} }
func (m *pP232) String() string { return "" }
func (*pP232) ProtoMessage()    {}

type pA233 struct {
	F1 int
	F2 []string
}
type pP233 struct {
	F1 int64    `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP233) Reset()         { *m = pP233{} }
func (m *pP233) String() string { return "" }
func (*pP233) ProtoMessage()    {}

type pA234 struct {
	F1 []string
	F2 int
	F3 string
}
type pP234 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 int64    `protobuf:"varint,2,opt,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP234) Reset()         { *m = pP234{} }
func (m *pP234) String() string { return "" }
func (*pP234) ProtoMessage()    {}

type pA235 struct {
	F1 int
	F2 time.Time
}
type pP235 struct {
	F1 int64                `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP235) Reset()         { *m = pP235{} }
func (m *pP235) String() string { return "" }
func (*pP235) ProtoMessage()    {}

type pA236 struct {
	F1 int
	F2 *AN1
}
type pP236 struct {
	F1 int64 `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 *PN1  `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP236) Reset()         { *m = pP236{} }
func (m *pP236) String() string { return "" }
func (*pP236) ProtoMessage()    {}

type pA237 struct {
	F1 *AN1
	F2 int
	F3 string
}
type pP237 struct {
	F1 *PN1   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 int64  `protobuf:"varint,2,opt,name=F2,proto3"`
	F3 string `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP237) Reset()         { *m = pP237{} }
func (m *pP237) String() string { return "" }
func (*pP237) ProtoMessage()    {}

type pA238 struct {
	F1 int
	F2 []*AN2
}
type pP238 struct {
	F1 int64  `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 []*PN2 `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP238) Reset()         { *m = pP238{} }
func (m *pP238) String() string { return "" }
func (*pP238) ProtoMessage()    {}

type pA239 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 int
	F18 string
}
type pP239 struct {
	F1  int32  `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32  `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32  `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32  `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32  `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32  `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32  `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32  `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32  `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32  `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32  `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32  `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32  `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32  `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32  `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 int64  `protobuf:"varint,17,opt,name=F17,proto3"`
	F18 string `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP239) Reset()         { *m = pP239{} }
func (m *pP239) String() string { return "" }
func (*pP239) ProtoMessage()    {}

type pA240 struct{ F1 []int }
type pP240 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
}

func (m *pP240) Reset()         { *m = pP240{} }
func (m *pP240) String() string { return "" }
func (*pP240) ProtoMessage()    {}

type pA241 struct {
	F1 []int
	F2 int8
}
type pP241 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 int32   `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP241) Reset()         { *m = pP241{} }
func (m *pP241) String() string { return "" }
func (*pP241) ProtoMessage()    {}

type pA242 struct {
	F1 []int
	F2 uint64
}
type pP242 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 uint64  `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP242) Reset()         { *m = pP242{} }
func (m *pP242) String() string { return "" }
func (*pP242) ProtoMessage()    {}

type pA243 struct {
	F1 []int
	F2 int32 `binary:"fixed32"`
}
type pP243 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 int32   `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP243) Reset()         { *m = pP243{} }
func (m *pP243) String() string { return "" }
func (*pP243) ProtoMessage()    {}

type pA244 struct {
	F1 []int
	F2 string
}
type pP244 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 string  `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP244) Reset()         { *m = pP244{} }
func (m *pP244) String() string { return "" }
func (*pP244) ProtoMessage()    {}

type pA245 struct {
	F1 []int
	F2 []byte
}
type pP245 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []byte  `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP245) Reset()         { *m = pP245{} }
func (m *pP245) String() string { return "" }
func (*pP245) ProtoMessage()    {}

type pA246 struct {
	F1 []int
	F2 []int
}
type pP246 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP246) Reset()         { *m = pP246{} }
func (m *pP246) String() string { return "" }
func (*pP246) ProtoMessage()    {}

type pA247 struct {
	F1 []int
	F2 []int
	F3 string
}
type pP247 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP247) Reset()         { *m = pP247{} }
func (m *pP247) String() string { return "" }
func (*pP247) ProtoMessage()    {}

type pA248 struct {
	F1 []int
	F2 []string
}
type pP248 struct {
	F1 []int64  `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP248) Reset()         { *m = pP248{} }
func (m *pP248) String() string { return "" }
func (*pP248) ProtoMessage()    {}

type pA249 struct {
	F1 []string
	F2 []int
	F3 string
}
type pP249 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []int64  `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP249) Reset()         { *m = pP249{} }
func (m *pP249) String() string { return "" }
func (*pP249) ProtoMessage()    {}

type pA250 struct {
	F1 []int
	F2 time.Time
}
type pP250 struct {
	F1 []int64              `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP250) Reset()         { *m = pP250{} }
func (m *pP250) String() string { return "" }
func (*pP250) ProtoMessage()    {}

type pA251 struct {
	F1 []int
	F2 *AN1
}
type pP251 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 *PN1    `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP251) Reset()         { *m = pP251{} }
func (m *pP251) String() string { return "" }
func (*pP251) ProtoMessage()    {}

type pA252 struct {
	F1 *AN1
	F2 []int
	F3 string
}
type pP252 struct {
	F1 *PN1    `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP252) Reset()         { *m = pP252{} }
func (m *pP252) String() string { return "" }
func (*pP252) ProtoMessage()    {}

type pA253 struct {
	F1 []int
	F2 []*AN2
}
type pP253 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []*PN2  `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP253) Reset()         { *m = pP253{} }
func (m *pP253) String() string { return "" }
func (*pP253) ProtoMessage()    {}

type pA254 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 []int
	F18 string
}
type pP254 struct {
	F1  int32   `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32   `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32   `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32   `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32   `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32   `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32   `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32   `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32   `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32   `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32   `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32   `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32   `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32   `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32   `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32   `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 []int64 `protobuf:"varint,17,rep,packed,name=F17,proto3"`
	F18 string  `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP254) Reset()         { *m = pP254{} }
func (m *pP254) String() string { return "" }
func (*pP254) ProtoMessage()    {}

type pA255 struct{ F1 [2]int }
type pP255 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
}

func (m *pP255) Reset()         { *m = pP255{} }
func (m *pP255) String() string { return "" }
func (*pP255) ProtoMessage()    {}

type pA256 struct {
	F1 [2]int
	F2 int8
}
type pP256 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 int32   `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP256) Reset()         { *m = pP256{} }
func (m *pP256) String() string { return "" }
func (*pP256) ProtoMessage()    {}

type pA257 struct {
	F1 [2]int
	F2 uint64
}
type pP257 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 uint64  `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP257) Reset()         { *m = pP257{} }
func (m *pP257) String() string { return "" }
func (*pP257) ProtoMessage()    {}

type pA258 struct {
	F1 [2]int
	F2 int32 `binary:"fixed32"`
}
type pP258 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 int32   `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP258) Reset()         { *m = pP258{} }
func (m *pP258) String() string { return "" }
func (*pP258) ProtoMessage()    {}

type pA259 struct {
	F1 [2]int
	F2 string
}
type pP259 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 string  `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP259) Reset()         { *m = pP259{} }
func (m *pP259) String() string { return "" }
func (*pP259) ProtoMessage()    {}

type pA260 struct {
	F1 [2]int
	F2 []byte
}
type pP260 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []byte  `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP260) Reset()         { *m = pP260{} }
func (m *pP260) String() string { return "" }
func (*pP260) ProtoMessage()    {}

type pA261 struct {
	F1 [2]int
	F2 []int
}
type pP261 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP261) Reset()         { *m = pP261{} }
func (m *pP261) String() string { return "" }
func (*pP261) ProtoMessage()    {}

type pA262 struct {
	F1 []int
	F2 [2]int
	F3 string
}
type pP262 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP262) Reset()         { *m = pP262{} }
func (m *pP262) String() string { return "" }
func (*pP262) ProtoMessage()    {}

type pA263 struct {
	F1 [2]int
	F2 []string
}
type pP263 struct {
	F1 []int64  `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP263) Reset()         { *m = pP263{} }
func (m *pP263) String() string { return "" }
func (*pP263) ProtoMessage()    {}

type pA264 struct {
	F1 []string
	F2 [2]int
	F3 string
}
type pP264 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []int64  `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP264) Reset()         { *m = pP264{} }
func (m *pP264) String() string { return "" }
func (*pP264) ProtoMessage()    {}

type pA265 struct {
	F1 [2]int
	F2 time.Time
}
type pP265 struct {
	F1 []int64              `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP265) Reset()         { *m = pP265{} }
func (m *pP265) String() string { return "" }
func (*pP265) ProtoMessage()    {}

type pA266 struct {
	F1 [2]int
	F2 *AN1
}
type pP266 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 *PN1    `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP266) Reset()         { *m = pP266{} }
func (m *pP266) String() string { return "" }
func (*pP266) ProtoMessage()    {}

type pA267 struct {
	F1 *AN1
	F2 [2]int
	F3 string
}
type pP267 struct {
	F1 *PN1    `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP267) Reset()         { *m = pP267{} }
func (m *pP267) String() string { return "" }
func (*pP267) ProtoMessage()    {}

type pA268 struct {
	F1 [2]int
	F2 []*AN2
}
type pP268 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []*PN2  `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP268) Reset()         { *m = pP268{} }
func (m *pP268) String() string { return "" }
func (*pP268) ProtoMessage()    {}

type pA269 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 [2]int
	F18 string
}
type pP269 struct {
	F1  int32   `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32   `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32   `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32   `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32   `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32   `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32   `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32   `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32   `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32   `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32   `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32   `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32   `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32   `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32   `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32   `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 []int64 `protobuf:"varint,17,rep,packed,name=F17,proto3"`
	F18 string  `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP269) Reset()         { *m = pP269{} }
func (m *pP269) String() string { return "" }
func (*pP269) ProtoMessage()    {}

type pA270 struct{ F1 uint8 }
type pP270 struct {
	F1 uint32 `protobuf:"varint,1,opt,name=F1,proto3"`
}

func (m *pP270) Reset()         { *m = pP270{} }
func (m *pP270) String() string { return "" }
func (*pP270) ProtoMessage()    {}

type pA271 struct {
	F1 uint8
	F2 int8
}
type pP271 struct {
	F1 uint32 `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP271) Reset()         { *m = pP271{} }
func (m *pP271) String() string { return "" }
func (*pP271) ProtoMessage()    {}

type pA272 struct {
	F1 uint8
	F2 uint64
}
type pP272 struct {
	F1 uint32 `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 uint64 `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP272) Reset()         { *m = pP272{} }
func (m *pP272) String() string { return "" }
func (*pP272) ProtoMessage()    {}

type pA273 struct {
	F1 uint8
	F2 int32 `binary:"fixed32"`
}
type pP273 struct {
	F1 uint32 `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 int32  `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP273) Reset()         { *m = pP273{} }
func (m *pP273) String() string { return "" }
func (*pP273) ProtoMessage()    {}

type pA274 struct {
	F1 uint8
	F2 string
}
type pP274 struct {
	F1 uint32 `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 string `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP274) Reset()         { *m = pP274{} }
func (m *pP274) String() string { return "" }
func (*pP274) ProtoMessage()    {}

type pA275 struct {
	F1 uint8
	F2 []byte
}
type pP275 struct {
	F1 uint32 `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 []byte `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP275) Reset()         { *m = pP275{} }
func (m *pP275) String() string { return "" }
func (*pP275) ProtoMessage()    {}

type pA276 struct {
	F1 uint8
	F2 []int
}
type pP276 struct {
	F1 uint32  `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP276) Reset()         { *m = pP276{} }
func (m *pP276) String() string { return "" }
func (*pP276) ProtoMessage()    {}

type pA277 struct {
	F1 []int
	F2 uint8
	F3 string
}
type pP277 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 uint32  `protobuf:"varint,2,opt,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP277) Reset()         { *m = pP277{} }
func (m *pP277) String() string { return "" }
func (*pP277) ProtoMessage()    {}

type pA278 struct {
	F1 uint8
	F2 []string
}
type pP278 struct {
	F1 uint32   `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP278) Reset()         { *m = pP278{} }
func (m *pP278) String() string { return "" }
func (*pP278) ProtoMessage()    {}

type pA279 struct {
	F1 []string
	F2 uint8
	F3 string
}
type pP279 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 uint32   `protobuf:"varint,2,opt,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP279) Reset()         { *m = pP279{} }
func (m *pP279) String() string { return "" }
func (*pP279) ProtoMessage()    {}

type pA280 struct {
	F1 uint8
	F2 time.Time
}
type pP280 struct {
	F1 uint32               `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP280) Reset()         { *m = pP280{} }
func (m *pP280) String() string { return "" }
func (*pP280) ProtoMessage()    {}

type pA281 struct {
	F1 uint8
	F2 *AN1
}
type pP281 struct {
	F1 uint32 `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 *PN1   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP281) Reset()         { *m = pP281{} }
func (m *pP281) String() string { return "" }
func (*pP281) ProtoMessage()    {}

type pA282 struct {
	F1 *AN1
	F2 uint8
	F3 string
}
type pP282 struct {
	F1 *PN1   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 uint32 `protobuf:"varint,2,opt,name=F2,proto3"`
	F3 string `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP282) Reset()         { *m = pP282{} }
func (m *pP282) String() string { return "" }
func (*pP282) ProtoMessage()    {}

type pA283 struct {
	F1 uint8
	F2 []*AN2
}
type pP283 struct {
	F1 uint32 `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 []*PN2 `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP283) Reset()         { *m = pP283{} }
func (m *pP283) String() string { return "" }
func (*pP283) ProtoMessage()    {}

type pA284 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 uint8
	F18 string
}
type pP284 struct {
	F1  int32  `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32  `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32  `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32  `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32  `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32  `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32  `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32  `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32  `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32  `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32  `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32  `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32  `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32  `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32  `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 uint32 `protobuf:"varint,17,opt,name=F17,proto3"`
	F18 string `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP284) Reset()         { *m = pP284{} }
func (m *pP284) String() string { return "" }
func (*pP284) ProtoMessage()    {}

type pA285 struct{ F1 uint16 }
type pP285 struct {
	F1 uint32 `protobuf:"varint,1,opt,name=F1,proto3"`
}

func (m *pP285) Reset()         { *m = pP285{} }
func (m *pP285) String() string { return "" }
func (*pP285) ProtoMessage()    {}

type pA286 struct {
	F1 uint16
	F2 int8
}
type pP286 struct {
	F1 uint32 `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP286) Reset()         { *m = pP286{} }
func (m *pP286) String() string { return "" }
func (*pP286) ProtoMessage()    {}

type pA287 struct {
	F1 uint16
	F2 uint64
}
type pP287 struct {
	F1 uint32 `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 uint64 `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP287) Reset()         { *m = pP287{} }
func (m *pP287) String() string { return "" }
func (*pP287) ProtoMessage()    {}

type pA288 struct {
	F1 uint16
	F2 int32 `binary:"fixed32"`
}
type pP288 struct {
	F1 uint32 `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 int32  `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP288) Reset()         { *m = pP288{} }
func (m *pP288) String() string { return "" }
func (*pP288) ProtoMessage()    {}

type pA289 struct {
	F1 uint16
	F2 string
}
type pP289 struct {
	F1 uint32 `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 string `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP289) Reset()         { *m = pP289{} }
func (m *pP289) String() string { return "" }
func (*pP289) ProtoMessage()    {}

type pA290 struct {
	F1 uint16
	F2 []byte
}
type pP290 struct {
	F1 uint32 `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 []byte `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP290) Reset()         { *m = pP290{} }
func (m *pP290) String() string { return "" }
func (*pP290) ProtoMessage()    {}

type pA291 struct {
	F1 uint16
	F2 []int
}
type pP291 struct {
	F1 uint32  `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP291) Reset()         { *m = pP291{} }
func (m *pP291) String() string { return "" }
func (*pP291) ProtoMessage()    {}

type pA292 struct {
	F1 []int
	F2 uint16
	F3 string
}
type pP292 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 uint32  `protobuf:"varint,2,opt,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP292) Reset()         { *m = pP292{} }
func (m *pP292) String() string { return "" }
func (*pP292) ProtoMessage()    {}

type pA293 struct {
	F1 uint16
	F2 []string
}
type pP293 struct {
	F1 uint32   `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP293) Reset()         { *m = pP293{} }
func (m *pP293) String() string { return "" }
func (*pP293) ProtoMessage()    {}

type pA294 struct {
	F1 []string
	F2 uint16
	F3 string
}
type pP294 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 uint32   `protobuf:"varint,2,opt,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP294) Reset()         { *m = pP294{} }
func (m *pP294) String() string { return "" }
func (*pP294) ProtoMessage()    {}

type pA295 struct {
	F1 uint16
	F2 time.Time
}
type pP295 struct {
	F1 uint32               `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP295) Reset()         { *m = pP295{} }
func (m *pP295) String() string { return "" }
func (*pP295) ProtoMessage()    {}

type pA296 struct {
	F1 uint16
	F2 *AN1
}
type pP296 struct {
	F1 uint32 `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 *PN1   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP296) Reset()         { *m = pP296{} }
func (m *pP296) String() string { return "" }
func (*pP296) ProtoMessage()    {}

type pA297 struct {
	F1 *AN1
	F2 uint16
	F3 string
}
type pP297 struct {
	F1 *PN1   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 uint32 `protobuf:"varint,2,opt,name=F2,proto3"`
	F3 string `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP297) Reset()         { *m = pP297{} }
func (m *pP297) String() string { return "" }
func (*pP297) ProtoMessage()    {}

type pA298 struct {
	F1 uint16
	F2 []*AN2
}
type pP298 struct {
	F1 uint32 `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 []*PN2 `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP298) Reset()         { *m = pP298{} }
func (m *pP298) String() string { return "" }
func (*pP298) ProtoMessage()    {}

type pA299 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 uint16
	F18 string
}
type pP299 struct {
	F1  int32  `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32  `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32  `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32  `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32  `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32  `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32  `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32  `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32  `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32  `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32  `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32  `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32  `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32  `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32  `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 uint32 `protobuf:"varint,17,opt,name=F17,proto3"`
	F18 string `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP299) Reset()         { *m = pP299{} }
func (m *pP299) String() string { return "" }
func (*pP299) ProtoMessage()    {}

type pA300 struct{ F1 []uint16 }
type pP300 struct {
	F1 []uint32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
}

func (m *pP300) Reset()         { *m = pP300{} }
func (m *pP300) String() string { return "" }
func (*pP300) ProtoMessage()    {}

type pA301 struct {
	F1 []uint16
	F2 int8
}
type pP301 struct {
	F1 []uint32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 int32    `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP301) Reset()         { *m = pP301{} }
func (m *pP301) String() string { return "" }
func (*pP301) ProtoMessage()    {}

type pA302 struct {
	F1 []uint16
	F2 uint64
}
type pP302 struct {
	F1 []uint32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 uint64   `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP302) Reset()         { *m = pP302{} }
func (m *pP302) String() string { return "" }
func (*pP302) ProtoMessage()    {}

type pA303 struct {
	F1 []uint16
	F2 int32 `binary:"fixed32"`
}
type pP303 struct {
	F1 []uint32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 int32    `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP303) Reset()         { *m = pP303{} }
func (m *pP303) String() string { return "" }
func (*pP303) ProtoMessage()    {}

type pA304 struct {
	F1 []uint16
	F2 string
}
type pP304 struct {
	F1 []uint32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 string   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP304) Reset()         { *m = pP304{} }
func (m *pP304) String() string { return "" }
func (*pP304) ProtoMessage()    {}

type pA305 struct {
	F1 []uint16
	F2 []byte
}
type pP305 struct {
	F1 []uint32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []byte   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP305) Reset()         { *m = pP305{} }
func (m *pP305) String() string { return "" }
func (*pP305) ProtoMessage()    {}

type pA306 struct {
	F1 []uint16
	F2 []int
}
type pP306 struct {
	F1 []uint32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []int64  `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP306) Reset()         { *m = pP306{} }
func (m *pP306) String() string { return "" }
func (*pP306) ProtoMessage()    {}

type pA307 struct {
	F1 []int
	F2 []uint16
	F3 string
}
type pP307 struct {
	F1 []int64  `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []uint32 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP307) Reset()         { *m = pP307{} }
func (m *pP307) String() string { return "" }
func (*pP307) ProtoMessage()    {}

type pA308 struct {
	F1 []uint16
	F2 []string
}
type pP308 struct {
	F1 []uint32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP308) Reset()         { *m = pP308{} }
func (m *pP308) String() string { return "" }
func (*pP308) ProtoMessage()    {}

type pA309 struct {
	F1 []string
	F2 []uint16
	F3 string
}
type pP309 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []uint32 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP309) Reset()         { *m = pP309{} }
func (m *pP309) String() string { return "" }
func (*pP309) ProtoMessage()    {}

type pA310 struct {
	F1 []uint16
	F2 time.Time
}
type pP310 struct {
	F1 []uint32             `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP310) Reset()         { *m = pP310{} }
func (m *pP310) String() string { return "" }
func (*pP310) ProtoMessage()    {}

type pA311 struct {
	F1 []uint16
	F2 *AN1
}
type pP311 struct {
	F1 []uint32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 *PN1     `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP311) Reset()         { *m = pP311{} }
func (m *pP311) String() string { return "" }
func (*pP311) ProtoMessage()    {}

type pA312 struct {
	F1 *AN1
	F2 []uint16
	F3 string
}
type pP312 struct {
	F1 *PN1     `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []uint32 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP312) Reset()         { *m = pP312{} }
func (m *pP312) String() string { return "" }
func (*pP312) ProtoMessage()    {}

type pA313 struct {
	F1 []uint16
	F2 []*AN2
}
type pP313 struct {
	F1 []uint32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []*PN2   `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP313) Reset()         { *m = pP313{} }
func (m *pP313) String() string { return "" }
func (*pP313) ProtoMessage()    {}

type pA314 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 []uint16
	F18 string
}
type pP314 struct {
	F1  int32    `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32    `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32    `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32    `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32    `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32    `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32    `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32    `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32    `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32    `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32    `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32    `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32    `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32    `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32    `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32    `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 []uint32 `protobuf:"varint,17,rep,packed,name=F17,proto3"`
	F18 string   `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP314) Reset()         { *m = pP314{} }
func (m *pP314) String() string { return "" }
func (*pP314) ProtoMessage()    {}

type pA315 struct{ F1 [2]uint16 }
type pP315 struct {
	F1 []uint32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
}

func (m *pP315) Reset()         { *m = pP315{} }
func (m *pP315) String() string { return "" }
func (*pP315) ProtoMessage()    {}

type pA316 struct {
	F1 [2]uint16
	F2 int8
}
type pP316 struct {
	F1 []uint32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 int32    `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP316) Reset()         { *m = pP316{} }
func (m *pP316) String() string { return "" }
func (*pP316) ProtoMessage()    {}

type pA317 struct {
	F1 [2]uint16
	F2 uint64
}
type pP317 struct {
	F1 []uint32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 uint64   `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP317) Reset()         { *m = pP317{} }
func (m *pP317) String() string { return "" }
func (*pP317) ProtoMessage()    {}

type pA318 struct {
	F1 [2]uint16
	F2 int32 `binary:"fixed32"`
}
type pP318 struct {
	F1 []uint32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 int32    `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP318) Reset()         { *m = pP318{} }
func (m *pP318) String() string { return "" }
func (*pP318) ProtoMessage()    {}

type pA319 struct {
	F1 [2]uint16
	F2 string
}
type pP319 struct {
	F1 []uint32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 string   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP319) Reset()         { *m = pP319{} }
func (m *pP319) String() string { return "" }
func (*pP319) ProtoMessage()    {}

type pA320 struct {
	F1 [2]uint16
	F2 []byte
}
type pP320 struct {
	F1 []uint32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []byte   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP320) Reset()         { *m = pP320{} }
func (m *pP320) String() string { return "" }
func (*pP320) ProtoMessage()    {}

type pA321 struct {
	F1 [2]uint16
	F2 []int
}
type pP321 struct {
	F1 []uint32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []int64  `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP321) Reset()         { *m = pP321{} }
func (m *pP321) String() string { return "" }
func (*pP321) ProtoMessage()    {}

type pA322 struct {
	F1 []int
	F2 [2]uint16
	F3 string
}
type pP322 struct {
	F1 []int64  `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []uint32 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP322) Reset()         { *m = pP322{} }
func (m *pP322) String() string { return "" }
func (*pP322) ProtoMessage()    {}

type pA323 struct {
	F1 [2]uint16
	F2 []string
}
type pP323 struct {
	F1 []uint32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP323) Reset()         { *m = pP323{} }
func (m *pP323) String() string { return "" }
func (*pP323) ProtoMessage()    {}

type pA324 struct {
	F1 []string
	F2 [2]uint16
	F3 string
}
type pP324 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []uint32 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP324) Reset()         { *m = pP324{} }
func (m *pP324) String() string { return "" }
func (*pP324) ProtoMessage()    {}

type pA325 struct {
	F1 [2]uint16
	F2 time.Time
}
type pP325 struct {
	F1 []uint32             `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP325) Reset()         { *m = pP325{} }
func (m *pP325) String() string { return "" }
func (*pP325) ProtoMessage()    {}

type pA326 struct {
	F1 [2]uint16
	F2 *AN1
}
type pP326 struct {
	F1 []uint32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 *PN1     `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP326) Reset()         { *m = pP326{} }
func (m *pP326) String() string { return "" }
func (*pP326) ProtoMessage()    {}

type pA327 struct {
	F1 *AN1
	F2 [2]uint16
	F3 string
}
type pP327 struct {
	F1 *PN1     `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []uint32 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP327) Reset()         { *m = pP327{} }
func (m *pP327) String() string { return "" }
func (*pP327) ProtoMessage()    {}

type pA328 struct {
	F1 [2]uint16
	F2 []*AN2
}
type pP328 struct {
	F1 []uint32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []*PN2   `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP328) Reset()         { *m = pP328{} }
func (m *pP328) String() string { return "" }
func (*pP328) ProtoMessage()    {}

type pA329 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 [2]uint16
	F18 string
}
type pP329 struct {
	F1  int32    `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32    `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32    `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32    `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32    `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32    `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32    `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32    `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32    `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32    `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32    `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32    `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32    `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32    `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32    `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32    `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 []uint32 `protobuf:"varint,17,rep,packed,name=F17,proto3"`
	F18 string   `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP329) Reset()         { *m = pP329{} }
func (m *pP329) String() string { return "" }
func (*pP329) ProtoMessage()    {}

type pA330 struct{ F1 uint32 }
type pP330 struct {
	F1 uint32 `protobuf:"varint,1,opt,name=F1,proto3"`
}

func (m *pP330) Reset()         { *m = pP330{} }
func (m *pP330) String() string { return "" }
func (*pP330) ProtoMessage()    {}

type pA331 struct {
	F1 uint32
	F2 int8
}
type pP331 struct {
	F1 uint32 `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP331) Reset()         { *m = pP331{} }
func (m *pP331) String() string { return "" }
func (*pP331) ProtoMessage()    {}

type pA332 struct {
	F1 uint32
	F2 uint64
}
type pP332 struct {
	F1 uint32 `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 uint64 `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP332) Reset()         { *m = pP332{} }
func (m *pP332) String() string { return "" }
func (*pP332) ProtoMessage()    {}

type pA333 struct {
	F1 uint32
	F2 int32 `binary:"fixed32"`
}
type pP333 struct {
	F1 uint32 `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 int32  `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP333) Reset()         { *m = pP333{} }
func (m *pP333) String() string { return "" }
func (*pP333) ProtoMessage()    {}

type pA334 struct {
	F1 uint32
	F2 string
}
type pP334 struct {
	F1 uint32 `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 string `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP334) Reset()         { *m = pP334{} }
func (m *pP334) String() string { return "" }
func (*pP334) ProtoMessage()    {}

type pA335 struct {
	F1 uint32
	F2 []byte
}
type pP335 struct {
	F1 uint32 `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 []byte `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP335) Reset()         { *m = pP335{} }
func (m *pP335) String() string { return "" }
func (*pP335) ProtoMessage()    {}

type pA336 struct {
	F1 uint32
	F2 []int
}
type pP336 struct {
	F1 uint32  `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP336) Reset()         { *m = pP336{} }
func (m *pP336) String() string { return "" }
func (*pP336) ProtoMessage()    {}

type pA337 struct {
	F1 []int
	F2 uint32
	F3 string
}
type pP337 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 uint32  `protobuf:"varint,2,opt,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP337) Reset()         { *m = pP337{} }
func (m *pP337) String() string { return "" }
func (*pP337) ProtoMessage()    {}

type pA338 struct {
	F1 uint32
	F2 []string
}
type pP338 struct {
	F1 uint32   `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP338) Reset()         { *m = pP338{} }
func (m *pP338) String() string { return "" }
func (*pP338) ProtoMessage()    {}

type pA339 struct {
	F1 []string
	F2 uint32
	F3 string
}
type pP339 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 uint32   `protobuf:"varint,2,opt,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP339) Reset()         { *m = pP339{} }
func (m *pP339) String() string { return "" }
func (*pP339) ProtoMessage()    {}

type pA340 struct {
	F1 uint32
	F2 time.Time
}
type pP340 struct {
	F1 uint32               `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP340) Reset()         { *m = pP340{} }
func (m *pP340) String() string { return "" }
func (*pP340) ProtoMessage()    {}

type pA341 struct {
	F1 uint32
	F2 *AN1
}
type pP341 struct {
	F1 uint32 `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 *PN1   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP341) Reset()         { *m = pP341{} }
func (m *pP341) String() string { return "" }
func (*pP341) ProtoMessage()    {}

type pA342 struct {
	F1 *AN1
	F2 uint32
	F3 string
}
type pP342 struct {
	F1 *PN1   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 uint32 `protobuf:"varint,2,opt,name=F2,proto3"`
	F3 string `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP342) Reset()         { *m = pP342{} }
func (m *pP342) String() string { return "" }
func (*pP342) ProtoMessage()    {}

type pA343 struct {
	F1 uint32
	F2 []*AN2
}
type pP343 struct {
	F1 uint32 `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 []*PN2 `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP343) Reset()         { *m = pP343{} }
func (m *pP343) String() string { return "" }
func (*pP343) ProtoMessage()    {}

type pA344 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 uint32
	F18 string
}
type pP344 struct {
	F1  int32  `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32  `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32  `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32  `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32  `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32  `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32  `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32  `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32  `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32  `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32  `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32  `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32  `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32  `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32  `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 uint32 `protobuf:"varint,17,opt,name=F17,proto3"`
	F18 string `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP344) Reset()         { *m = pP344{} }
func (m *pP344) String() string { return "" }
func (*pP344) ProtoMessage()    {}

type pA345 struct{ F1 []uint32 }
type pP345 struct {
	F1 []uint32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
}

func (m *pP345) Reset()         { *m = pP345{} }
func (m *pP345) String() string { return "" }
func (*pP345) ProtoMessage()    {}

type pA346 struct {
	F1 []uint32
	F2 int8
}
type pP346 struct {
	F1 []uint32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 int32    `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP346) Reset()         { *m = pP346{} }
func (m *pP346) String() string { return "" }
func (*pP346) ProtoMessage()    {}

type pA347 struct {
	F1 []uint32
	F2 uint64
}
type pP347 struct {
	F1 []uint32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 uint64   `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP347) Reset()         { *m = pP347{} }
func (m *pP347) String() string { return "" }
func (*pP347) ProtoMessage()    {}

type pA348 struct {
	F1 []uint32
	F2 int32 `binary:"fixed32"`
}
type pP348 struct {
	F1 []uint32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 int32    `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP348) Reset()         { *m = pP348{} }
func (m *pP348) String() string { return "" }
func (*pP348) ProtoMessage()    {}

type pA349 struct {
	F1 []uint32
	F2 string
}
type pP349 struct {
	F1 []uint32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 string   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP349) Reset()         { *m = pP349{} }
func (m *pP349) String() string { return "" }
func (*pP349) ProtoMessage()    {}

type pA350 struct {
	F1 []uint32
	F2 []byte
}
type pP350 struct {
	F1 []uint32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []byte   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP350) Reset()         { *m = pP350{} }
func (m *pP350) String() string { return "" }
func (*pP350) ProtoMessage()    {}

type pA351 struct {
	F1 []uint32
	F2 []int
}
type pP351 struct {
	F1 []uint32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []int64  `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP351) Reset()         { *m = pP351{} }
func (m *pP351) String() string { return "" }
func (*pP351) ProtoMessage()    {}

type pA352 struct {
	F1 []int
	F2 []uint32
	F3 string
}
type pP352 struct {
	F1 []int64  `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []uint32 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP352) Reset()         { *m = pP352{} }
func (m *pP352) String() string { return "" }
func (*pP352) ProtoMessage()    {}

type pA353 struct {
	F1 []uint32
	F2 []string
}
type pP353 struct {
	F1 []uint32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP353) Reset()         { *m = pP353{} }
func (m *pP353) String() string { return "" }
func (*pP353) ProtoMessage()    {}

type pA354 struct {
	F1 []string
	F2 []uint32
	F3 string
}
type pP354 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []uint32 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP354) Reset()         { *m = pP354{} }
func (m *pP354) String() string { return "" }
func (*pP354) ProtoMessage()    {}

type pA355 struct {
	F1 []uint32
	F2 time.Time
}
type pP355 struct {
	F1 []uint32             `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP355) Reset()         { *m = pP355{} }
func (m *pP355) String() string { return "" }
func (*pP355) ProtoMessage()    {}

type pA356 struct {
	F1 []uint32
	F2 *AN1
}
type pP356 struct {
	F1 []uint32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 *PN1     `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP356) Reset()         { *m = pP356{} }
func (m *pP356) String() string { return "" }
func (*pP356) ProtoMessage()    {}

type pA357 struct {
	F1 *AN1
	F2 []uint32
	F3 string
}
type pP357 struct {
	F1 *PN1     `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []uint32 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP357) Reset()         { *m = pP357{} }
func (m *pP357) String() string { return "" }
func (*pP357) ProtoMessage()    {}

type pA358 struct {
	F1 []uint32
	F2 []*AN2
}
type pP358 struct {
	F1 []uint32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []*PN2   `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP358) Reset()         { *m = pP358{} }
func (m *pP358) String() string { return "" }
func (*pP358) ProtoMessage()    {}

type pA359 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 []uint32
	F18 string
}
type pP359 struct {
	F1  int32    `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32    `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32    `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32    `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32    `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32    `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32    `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32    `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32    `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32    `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32    `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32    `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32    `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32    `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32    `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32    `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 []uint32 `protobuf:"varint,17,rep,packed,name=F17,proto3"`
	F18 string   `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP359) Reset()         { *m = pP359{} }
func (m *pP359) String() string { return "" }
func (*pP359) ProtoMessage()    {}

type pA360 struct{ F1 [2]uint32 }
type pP360 struct {
	F1 []uint32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
}

func (m *pP360) Reset()         { *m = pP360{} }
func (m *pP360) String() string { return "" }
func (*pP360) ProtoMessage()    {}

type pA361 struct {
	F1 [2]uint32
	F2 int8
}
type pP361 struct {
	F1 []uint32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 int32    `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP361) Reset()         { *m = pP361{} }
func (m *pP361) String() string { return "" }
func (*pP361) ProtoMessage()    {}

type pA362 struct {
	F1 [2]uint32
	F2 uint64
}
type pP362 struct {
	F1 []uint32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 uint64   `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP362) Reset()         { *m = pP362{} }
func (m *pP362) String() string { return "" }
func (*pP362) ProtoMessage()    {}

type pA363 struct {
	F1 [2]uint32
	F2 int32 `binary:"fixed32"`
}
type pP363 struct {
	F1 []uint32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 int32    `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP363) Reset()         { *m = pP363{} }
func (m *pP363) String() string { return "" }
func (*pP363) ProtoMessage()    {}

type pA364 struct {
	F1 [2]uint32
	F2 string
}
type pP364 struct {
	F1 []uint32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 string   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP364) Reset()         { *m = pP364{} }
func (m *pP364) String() string { return "" }
func (*pP364) ProtoMessage()    {}

type pA365 struct {
	F1 [2]uint32
	F2 []byte
}
type pP365 struct {
	F1 []uint32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []byte   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP365) Reset()         { *m = pP365{} }
func (m *pP365) String() string { return "" }
func (*pP365) ProtoMessage()    {}

type pA366 struct {
	F1 [2]uint32
	F2 []int
}
type pP366 struct {
	F1 []uint32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []int64  `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP366) Reset()         { *m = pP366{} }
func (m *pP366) String() string { return "" }
func (*pP366) ProtoMessage()    {}

type pA367 struct {
	F1 []int
	F2 [2]uint32
	F3 string
}
type pP367 struct {
	F1 []int64  `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []uint32 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP367) Reset()         { *m = pP367{} }
func (m *pP367) String() string { return "" }
func (*pP367) ProtoMessage()    {}

type pA368 struct {
	F1 [2]uint32
	F2 []string
}
type pP368 struct {
	F1 []uint32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP368) Reset()         { *m = pP368{} }
func (m *pP368) String() string { return "" }
func (*pP368) ProtoMessage()    {}

type pA369 struct {
	F1 []string
	F2 [2]uint32
	F3 string
}
type pP369 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []uint32 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP369) Reset()         { *m = pP369{} }
func (m *pP369) String() string { return "" }
func (*pP369) ProtoMessage()    {}

type pA370 struct {
	F1 [2]uint32
	F2 time.Time
}
type pP370 struct {
	F1 []uint32             `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP370) Reset()         { *m = pP370{} }
func (m *pP370) String() string { return "" }
func (*pP370) ProtoMessage()    {}

type pA371 struct {
	F1 [2]uint32
	F2 *AN1
}
type pP371 struct {
	F1 []uint32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 *PN1     `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP371) Reset()         { *m = pP371{} }
func (m *pP371) String() string { return "" }
func (*pP371) ProtoMessage()    {}

type pA372 struct {
	F1 *AN1
	F2 [2]uint32
	F3 string
}
type pP372 struct {
	F1 *PN1     `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []uint32 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP372) Reset()         { *m = pP372{} }
func (m *pP372) String() string { return "" }
func (*pP372) ProtoMessage()    {}

type pA373 struct {
	F1 [2]uint32
	F2 []*AN2
}
type pP373 struct {
	F1 []uint32 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []*PN2   `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP373) Reset()         { *m = pP373{} }
func (m *pP373) String() string { return "" }
func (*pP373) ProtoMessage()    {}

type pA374 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 [2]uint32
	F18 string
}
type pP374 struct {
	F1  int32    `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32    `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32    `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32    `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32    `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32    `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32    `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32    `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32    `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32    `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32    `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32    `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32    `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32    `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32    `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32    `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 []uint32 `protobuf:"varint,17,rep,packed,name=F17,proto3"`
	F18 string   `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP374) Reset()         { *m = pP374{} }
func (m *pP374) String() string { return "" }
func (*pP374) ProtoMessage()    {}

type pA375 struct{ F1 uint64 }
type pP375 struct {
	F1 uint64 `protobuf:"varint,1,opt,name=F1,proto3"`
}

func (m *pP375) Reset()         { *m = pP375{} }
func (m *pP375) String() string { return "" }
func (*pP375) ProtoMessage()    {}

type pA376 struct {
	F1 uint64
	F2 int8
}
type pP376 struct {
	F1 uint64 `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP376) Reset()         { *m = pP376{} }
func (m *pP376) String() string { return "" }
func (*pP376) ProtoMessage()    {}

type pA377 struct {
	F1 uint64
	F2 uint64
}
type pP377 struct {
	F1 uint64 `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 uint64 `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP377) Reset()         { *m = pP377{} }
func (m *pP377) String() string { return "" }
func (*pP377) ProtoMessage()    {}

type pA378 struct {
	F1 uint64
	F2 int32 `binary:"fixed32"`
}
type pP378 struct {
	F1 uint64 `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 int32  `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP378) Reset()         { *m = pP378{} }
func (m *pP378) String() string { return "" }
func (*pP378) ProtoMessage()    {}

type pA379 struct {
	F1 uint64
	F2 string
}
type pP379 struct {
	F1 uint64 `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 string `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP379) Reset()         { *m = pP379{} }
func (m *pP379) String() string { return "" }
func (*pP379) ProtoMessage()    {}

type pA380 struct {
	F1 uint64
	F2 []byte
}
type pP380 struct {
	F1 uint64 `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 []byte `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP380) Reset()         { *m = pP380{} }
func (m *pP380) String() string { return "" }
func (*pP380) ProtoMessage()    {}

type pA381 struct {
	F1 uint64
	F2 []int
}
type pP381 struct {
	F1 uint64  `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP381) Reset()         { *m = pP381{} }
func (m *pP381) String() string { return "" }
func (*pP381) ProtoMessage()    {}

type pA382 struct {
	F1 []int
	F2 uint64
	F3 string
}
type pP382 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 uint64  `protobuf:"varint,2,opt,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP382) Reset()         { *m = pP382{} }
func (m *pP382) String() string { return "" }
func (*pP382) ProtoMessage()    {}

type pA383 struct {
	F1 uint64
	F2 []string
}
type pP383 struct {
	F1 uint64   `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP383) Reset()         { *m = pP383{} }
func (m *pP383) String() string { return "" }
func (*pP383) ProtoMessage()    {}

type pA384 struct {
	F1 []string
	F2 uint64
	F3 string
}
type pP384 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 uint64   `protobuf:"varint,2,opt,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP384) Reset()         { *m = pP384{} }
func (m *pP384) String() string { return "" }
func (*pP384) ProtoMessage()    {}

type pA385 struct {
	F1 uint64
	F2 time.Time
}
type pP385 struct {
	F1 uint64               `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP385) Reset()         { *m = pP385{} }
func (m *pP385) String() string { return "" }
func (*pP385) ProtoMessage()    {}

type pA386 struct {
	F1 uint64
	F2 *AN1
}
type pP386 struct {
	F1 uint64 `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 *PN1   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP386) Reset()         { *m = pP386{} }
func (m *pP386) String() string { return "" }
func (*pP386) ProtoMessage()    {}

type pA387 struct {
	F1 *AN1
	F2 uint64
	F3 string
}
type pP387 struct {
	F1 *PN1   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 uint64 `protobuf:"varint,2,opt,name=F2,proto3"`
	F3 string `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP387) Reset()         { *m = pP387{} }
func (m *pP387) String() string { return "" }
func (*pP387) ProtoMessage()    {}

type pA388 struct {
	F1 uint64
	F2 []*AN2
}
type pP388 struct {
	F1 uint64 `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 []*PN2 `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP388) Reset()         { *m = pP388{} }
func (m *pP388) String() string { return "" }
func (*pP388) ProtoMessage()    {}

type pA389 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 uint64
	F18 string
}
type pP389 struct {
	F1  int32  `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32  `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32  `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32  `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32  `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32  `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32  `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32  `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32  `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32  `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32  `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32  `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32  `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32  `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32  `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 uint64 `protobuf:"varint,17,opt,name=F17,proto3"`
	F18 string `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP389) Reset()         { *m = pP389{} }
func (m *pP389) String() string { return "" }
func (*pP389) ProtoMessage()    {}

type pA390 struct{ F1 []uint64 }
type pP390 struct {
	F1 []uint64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
}

func (m *pP390) Reset()         { *m = pP390{} }
func (m *pP390) String() string { return "" }
func (*pP390) ProtoMessage()    {}

type pA391 struct {
	F1 []uint64
	F2 int8
}
type pP391 struct {
	F1 []uint64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 int32    `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP391) Reset()         { *m = pP391{} }
func (m *pP391) String() string { return "" }
func (*pP391) ProtoMessage()    {}

type pA392 struct {
	F1 []uint64
	F2 uint64
}
type pP392 struct {
	F1 []uint64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 uint64   `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP392) Reset()         { *m = pP392{} }
func (m *pP392) String() string { return "" }
func (*pP392) ProtoMessage()    {}

type pA393 struct {
	F1 []uint64
	F2 int32 `binary:"fixed32"`
}
type pP393 struct {
	F1 []uint64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 int32    `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP393) Reset()         { *m = pP393{} }
func (m *pP393) String() string { return "" }
func (*pP393) ProtoMessage()    {}

type pA394 struct {
	F1 []uint64
	F2 string
}
type pP394 struct {
	F1 []uint64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 string   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP394) Reset()         { *m = pP394{} }
func (m *pP394) String() string { return "" }
func (*pP394) ProtoMessage()    {}

type pA395 struct {
	F1 []uint64
	F2 []byte
}
type pP395 struct {
	F1 []uint64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []byte   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP395) Reset()         { *m = pP395{} }
func (m *pP395) String() string { return "" }
func (*pP395) ProtoMessage()    {}

type pA396 struct {
	F1 []uint64
	F2 []int
}
type pP396 struct {
	F1 []uint64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []int64  `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP396) Reset()         { *m = pP396{} }
func (m *pP396) String() string { return "" }
func (*pP396) ProtoMessage()    {}

type pA397 struct {
	F1 []int
	F2 []uint64
	F3 string
}
type pP397 struct {
	F1 []int64  `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []uint64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP397) Reset()         { *m = pP397{} }
func (m *pP397) String() string { return "" }
func (*pP397) ProtoMessage()    {}

type pA398 struct {
	F1 []uint64
	F2 []string
}
type pP398 struct {
	F1 []uint64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP398) Reset()         { *m = pP398{} }
func (m *pP398) String() string { return "" }
func (*pP398) ProtoMessage()    {}

type pA399 struct {
	F1 []string
	F2 []uint64
	F3 string
}
type pP399 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []uint64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP399) Reset()         { *m = pP399{} }
func (m *pP399) String() string { return "" }
func (*pP399) ProtoMessage()    {}

type pA400 struct {
	F1 []uint64
	F2 time.Time
}
type pP400 struct {
	F1 []uint64             `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP400) Reset()         { *m = pP400{} }
func (m *pP400) String() string { return "" }
func (*pP400) ProtoMessage()    {}

type pA401 struct {
	F1 []uint64
	F2 *AN1
}
type pP401 struct {
	F1 []uint64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 *PN1     `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP401) Reset()         { *m = pP401{} }
func (m *pP401) String() string { return "" }
func (*pP401) ProtoMessage()    {}

type pA402 struct {
	F1 *AN1
	F2 []uint64
	F3 string
}
type pP402 struct {
	F1 *PN1     `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []uint64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP402) Reset()         { *m = pP402{} }
func (m *pP402) String() string { return "" }
func (*pP402) ProtoMessage()    {}

type pA403 struct {
	F1 []uint64
	F2 []*AN2
}
type pP403 struct {
	F1 []uint64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []*PN2   `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP403) Reset()         { *m = pP403{} }
func (m *pP403) String() string { return "" }
func (*pP403) ProtoMessage()    {}

type pA404 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 []uint64
	F18 string
}
type pP404 struct {
	F1  int32    `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32    `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32    `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32    `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32    `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32    `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32    `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32    `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32    `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32    `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32    `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32    `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32    `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32    `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32    `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32    `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 []uint64 `protobuf:"varint,17,rep,packed,name=F17,proto3"`
	F18 string   `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP404) Reset()         { *m = pP404{} }
func (m *pP404) String() string { return "" }
func (*pP404) ProtoMessage()    {}

type pA405 struct{ F1 [2]uint64 }
type pP405 struct {
	F1 []uint64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
}

func (m *pP405) Reset()         { *m = pP405{} }
func (m *pP405) String() string { return "" }
func (*pP405) ProtoMessage()    {}

type pA406 struct {
	F1 [2]uint64
	F2 int8
}
type pP406 struct {
	F1 []uint64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 int32    `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP406) Reset()         { *m = pP406{} }
func (m *pP406) String() string { return "" }
func (*pP406) ProtoMessage()    {}

type pA407 struct {
	F1 [2]uint64
	F2 uint64
}
type pP407 struct {
	F1 []uint64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 uint64   `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP407) Reset()         { *m = pP407{} }
func (m *pP407) String() string { return "" }
func (*pP407) ProtoMessage()    {}

type pA408 struct {
	F1 [2]uint64
	F2 int32 `binary:"fixed32"`
}
type pP408 struct {
	F1 []uint64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 int32    `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP408) Reset()         { *m = pP408{} }
func (m *pP408) String() string { return "" }
func (*pP408) ProtoMessage()    {}

type pA409 struct {
	F1 [2]uint64
	F2 string
}
type pP409 struct {
	F1 []uint64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 string   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP409) Reset()         { *m = pP409{} }
func (m *pP409) String() string { return "" }
func (*pP409) ProtoMessage()    {}

type pA410 struct {
	F1 [2]uint64
	F2 []byte
}
type pP410 struct {
	F1 []uint64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []byte   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP410) Reset()         { *m = pP410{} }
func (m *pP410) String() string { return "" }
func (*pP410) ProtoMessage()    {}

type pA411 struct {
	F1 [2]uint64
	F2 []int
}
type pP411 struct {
	F1 []uint64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []int64  `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP411) Reset()         { *m = pP411{} }
func (m *pP411) String() string { return "" }
func (*pP411) ProtoMessage()    {}

type pA412 struct {
	F1 []int
	F2 [2]uint64
	F3 string
}
type pP412 struct {
	F1 []int64  `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []uint64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP412) Reset()         { *m = pP412{} }
func (m *pP412) String() string { return "" }
func (*pP412) ProtoMessage()    {}

type pA413 struct {
	F1 [2]uint64
	F2 []string
}
type pP413 struct {
	F1 []uint64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP413) Reset()         { *m = pP413{} }
func (m *pP413) String() string { return "" }
func (*pP413) ProtoMessage()    {}

type pA414 struct {
	F1 []string
	F2 [2]uint64
	F3 string
}
type pP414 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []uint64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP414) Reset()         { *m = pP414{} }
func (m *pP414) String() string { return "" }
func (*pP414) ProtoMessage()    {}

type pA415 struct {
	F1 [2]uint64
	F2 time.Time
}
type pP415 struct {
	F1 []uint64             `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP415) Reset()         { *m = pP415{} }
func (m *pP415) String() string { return "" }
func (*pP415) ProtoMessage()    {}

type pA416 struct {
	F1 [2]uint64
	F2 *AN1
}
type pP416 struct {
	F1 []uint64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 *PN1     `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP416) Reset()         { *m = pP416{} }
func (m *pP416) String() string { return "" }
func (*pP416) ProtoMessage()    {}

type pA417 struct {
	F1 *AN1
	F2 [2]uint64
	F3 string
}
type pP417 struct {
	F1 *PN1     `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []uint64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP417) Reset()         { *m = pP417{} }
func (m *pP417) String() string { return "" }
func (*pP417) ProtoMessage()    {}

type pA418 struct {
	F1 [2]uint64
	F2 []*AN2
}
type pP418 struct {
	F1 []uint64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []*PN2   `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP418) Reset()         { *m = pP418{} }
func (m *pP418) String() string { return "" }
func (*pP418) ProtoMessage()    {}

type pA419 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 [2]uint64
	F18 string
}
type pP419 struct {
	F1  int32    `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32    `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32    `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32    `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32    `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32    `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32    `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32    `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32    `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32    `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32    `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32    `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32    `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32    `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32    `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32    `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 []uint64 `protobuf:"varint,17,rep,packed,name=F17,proto3"`
	F18 string   `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP419) Reset()         { *m = pP419{} }
func (m *pP419) String() string { return "" }
func (*pP419) ProtoMessage()    {}

type pA420 struct{ F1 uint }
type pP420 struct {
	F1 uint64 `protobuf:"varint,1,opt,name=F1,proto3"`
}

func (m *pP420) Reset()         { *m = pP420{} }
func (m *pP420) String() string { return "" }
func (*pP420) ProtoMessage()    {}

type pA421 struct {
	F1 uint
	F2 int8
}
type pP421 struct {
	F1 uint64 `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP421) Reset()         { *m = pP421{} }
func (m *pP421) String() string { return "" }
func (*pP421) ProtoMessage()    {}

type pA422 struct {
	F1 uint
	F2 uint64
}
type pP422 struct {
	F1 uint64 `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 uint64 `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP422) Reset()         { *m = pP422{} }
func (m *pP422) String() string { return "" }
func (*pP422) ProtoMessage()    {}

type pA423 struct {
	F1 uint
	F2 int32 `binary:"fixed32"`
}
type pP423 struct {
	F1 uint64 `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 int32  `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP423) Reset()         { *m = pP423{} }
func (m *pP423) String() string { return "" }
func (*pP423) ProtoMessage()    {}

type pA424 struct {
	F1 uint
	F2 string
}
type pP424 struct {
	F1 uint64 `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 string `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP424) Reset()         { *m = pP424{} }
func (m *pP424) String() string { return "" }
func (*pP424) ProtoMessage()    {}

type pA425 struct {
	F1 uint
	F2 []byte
}
type pP425 struct {
	F1 uint64 `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 []byte `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP425) Reset()         { *m = pP425{} }
func (m *pP425) String() string { return "" }
func (*pP425) ProtoMessage()    {}

type pA426 struct {
	F1 uint
	F2 []int
}
type pP426 struct {
	F1 uint64  `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP426) Reset()         { *m = pP426{} }
func (m *pP426) String() string { return "" }
func (*pP426) ProtoMessage()    {}

type pA427 struct {
	F1 []int
	F2 uint
	F3 string
}
type pP427 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 uint64  `protobuf:"varint,2,opt,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP427) Reset()         { *m = pP427{} }
func (m *pP427) String() string { return "" }
func (*pP427) ProtoMessage()    {}

type pA428 struct {
	F1 uint
	F2 []string
}
type pP428 struct {
	F1 uint64   `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP428) Reset()         { *m = pP428{} }
func (m *pP428) String() string { return "" }
func (*pP428) ProtoMessage()    {}

type pA429 struct {
	F1 []string
	F2 uint
	F3 string
}
type pP429 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 uint64   `protobuf:"varint,2,opt,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP429) Reset()         { *m = pP429{} }
func (m *pP429) String() string { return "" }
func (*pP429) ProtoMessage()    {}

type pA430 struct {
	F1 uint
	F2 time.Time
}
type pP430 struct {
	F1 uint64               `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP430) Reset()         { *m = pP430{} }
func (m *pP430) String() string { return "" }
func (*pP430) ProtoMessage()    {}

type pA431 struct {
	F1 uint
	F2 *AN1
}
type pP431 struct {
	F1 uint64 `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 *PN1   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP431) Reset()         { *m = pP431{} }
func (m *pP431) String() string { return "" }
func (*pP431) ProtoMessage()    {}

type pA432 struct {
	F1 *AN1
	F2 uint
	F3 string
}
type pP432 struct {
	F1 *PN1   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 uint64 `protobuf:"varint,2,opt,name=F2,proto3"`
	F3 string `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP432) Reset()         { *m = pP432{} }
func (m *pP432) String() string { return "" }
func (*pP432) ProtoMessage()    {}

type pA433 struct {
	F1 uint
	F2 []*AN2
}
type pP433 struct {
	F1 uint64 `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 []*PN2 `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP433) Reset()         { *m = pP433{} }
func (m *pP433) String() string { return "" }
func (*pP433) ProtoMessage()    {}

type pA434 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 uint
	F18 string
}
type pP434 struct {
	F1  int32  `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32  `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32  `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32  `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32  `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32  `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32  `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32  `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32  `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32  `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32  `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32  `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32  `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32  `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32  `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 uint64 `protobuf:"varint,17,opt,name=F17,proto3"`
	F18 string `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP434) Reset()         { *m = pP434{} }
func (m *pP434) String() string { return "" }
func (*pP434) ProtoMessage()    {}

type pA435 struct{ F1 []uint }
type pP435 struct {
	F1 []uint64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
}

func (m *pP435) Reset()         { *m = pP435{} }
func (m *pP435) String() string { return "" }
func (*pP435) ProtoMessage()    {}

type pA436 struct {
	F1 []uint
	F2 int8
}
type pP436 struct {
	F1 []uint64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 int32    `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP436) Reset()         { *m = pP436{} }
func (m *pP436) String() string { return "" }
func (*pP436) ProtoMessage()    {}

type pA437 struct {
	F1 []uint
	F2 uint64
}
type pP437 struct {
	F1 []uint64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 uint64   `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP437) Reset()         { *m = pP437{} }
func (m *pP437) String() string { return "" }
func (*pP437) ProtoMessage()    {}

type pA438 struct {
	F1 []uint
	F2 int32 `binary:"fixed32"`
}
type pP438 struct {
	F1 []uint64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 int32    `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP438) Reset()         { *m = pP438{} }
func (m *pP438) String() string { return "" }
func (*pP438) ProtoMessage()    {}

type pA439 struct {
	F1 []uint
	F2 string
}
type pP439 struct {
	F1 []uint64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 string   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP439) Reset()         { *m = pP439{} }
func (m *pP439) String() string { return "" }
func (*pP439) ProtoMessage()    {}

type pA440 struct {
	F1 []uint
	F2 []byte
}
type pP440 struct {
	F1 []uint64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []byte   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP440) Reset()         { *m = pP440{} }
func (m *pP440) String() string { return "" }
func (*pP440) ProtoMessage()    {}

type pA441 struct {
	F1 []uint
	F2 []int
}
type pP441 struct {
	F1 []uint64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []int64  `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP441) Reset()         { *m = pP441{} }
func (m *pP441) String() string { return "" }
func (*pP441) ProtoMessage()    {}

type pA442 struct {
	F1 []int
	F2 []uint
	F3 string
}
type pP442 struct {
	F1 []int64  `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []uint64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP442) Reset()         { *m = pP442{} }
func (m *pP442) String() string { return "" }
func (*pP442) ProtoMessage()    {}

type pA443 struct {
	F1 []uint
	F2 []string
}
type pP443 struct {
	F1 []uint64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP443) Reset()         { *m = pP443{} }
func (m *pP443) String() string { return "" }
func (*pP443) ProtoMessage()    {}

type pA444 struct {
	F1 []string
	F2 []uint
	F3 string
}
type pP444 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []uint64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP444) Reset()         { *m = pP444{} }
func (m *pP444) String() string { return "" }
func (*pP444) ProtoMessage()    {}

type pA445 struct {
	F1 []uint
	F2 time.Time
}
type pP445 struct {
	F1 []uint64             `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP445) Reset()         { *m = pP445{} }
func (m *pP445) String() string { return "" }
func (*pP445) ProtoMessage()    {}

type pA446 struct {
	F1 []uint
	F2 *AN1
}
type pP446 struct {
	F1 []uint64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 *PN1     `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP446) Reset()         { *m = pP446{} }
func (m *pP446) String() string { return "" }
func (*pP446) ProtoMessage()    {}

type pA447 struct {
	F1 *AN1
	F2 []uint
	F3 string
}
type pP447 struct {
	F1 *PN1     `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []uint64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP447) Reset()         { *m = pP447{} }
func (m *pP447) String() string { return "" }
func (*pP447) ProtoMessage()    {}

type pA448 struct {
	F1 []uint
	F2 []*AN2
}
type pP448 struct {
	F1 []uint64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []*PN2   `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP448) Reset()         { *m = pP448{} }
func (m *pP448) String() string { return "" }
func (*pP448) ProtoMessage()    {}

type pA449 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 []uint
	F18 string
}
type pP449 struct {
	F1  int32    `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32    `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32    `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32    `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32    `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32    `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32    `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32    `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32    `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32    `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32    `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32    `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32    `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32    `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32    `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32    `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 []uint64 `protobuf:"varint,17,rep,packed,name=F17,proto3"`
	F18 string   `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP449) Reset()         { *m = pP449{} }
func (m *pP449) String() string { return "" }
func (*pP449) ProtoMessage()    {}

type pA450 struct{ F1 [2]uint }
type pP450 struct {
	F1 []uint64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
}

func (m *pP450) Reset()         { *m = pP450{} }
func (m *pP450) String() string { return "" }
func (*pP450) ProtoMessage()    {}

type pA451 struct {
	F1 [2]uint
	F2 int8
}
type pP451 struct {
	F1 []uint64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 int32    `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP451) Reset()         { *m = pP451{} }
func (m *pP451) String() string { return "" }
func (*pP451) ProtoMessage()    {}

type pA452 struct {
	F1 [2]uint
	F2 uint64
}
type pP452 struct {
	F1 []uint64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 uint64   `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP452) Reset()         { *m = pP452{} }
func (m *pP452) String() string { return "" }
func (*pP452) ProtoMessage()    {}

type pA453 struct {
	F1 [2]uint
	F2 int32 `binary:"fixed32"`
}
type pP453 struct {
	F1 []uint64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 int32    `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP453) Reset()         { *m = pP453{} }
func (m *pP453) String() string { return "" }
func (*pP453) ProtoMessage()    {}

type pA454 struct {
	F1 [2]uint
	F2 string
}
type pP454 struct {
	F1 []uint64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 string   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP454) Reset()         { *m = pP454{} }
func (m *pP454) String() string { return "" }
func (*pP454) ProtoMessage()    {}

type pA455 struct {
	F1 [2]uint
	F2 []byte
}
type pP455 struct {
	F1 []uint64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []byte   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP455) Reset()         { *m = pP455{} }
func (m *pP455) String() string { return "" }
func (*pP455) ProtoMessage()    {}

type pA456 struct {
	F1 [2]uint
	F2 []int
}
type pP456 struct {
	F1 []uint64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []int64  `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP456) Reset()         { *m = pP456{} }
func (m *pP456) String() string { return "" }
func (*pP456) ProtoMessage()    {}

type pA457 struct {
	F1 []int
	F2 [2]uint
	F3 string
}
type pP457 struct {
	F1 []int64  `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []uint64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP457) Reset()         { *m = pP457{} }
func (m *pP457) String() string { return "" }
func (*pP457) ProtoMessage()    {}

type pA458 struct {
	F1 [2]uint
	F2 []string
}
type pP458 struct {
	F1 []uint64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP458) Reset()         { *m = pP458{} }
func (m *pP458) String() string { return "" }
func (*pP458) ProtoMessage()    {}

type pA459 struct {
	F1 []string
	F2 [2]uint
	F3 string
}
type pP459 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []uint64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP459) Reset()         { *m = pP459{} }
func (m *pP459) String() string { return "" }
func (*pP459) ProtoMessage()    {}

type pA460 struct {
	F1 [2]uint
	F2 time.Time
}
type pP460 struct {
	F1 []uint64             `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP460) Reset()         { *m = pP460{} }
func (m *pP460) String() string { return "" }
func (*pP460) ProtoMessage()    {}

type pA461 struct {
	F1 [2]uint
	F2 *AN1
}
type pP461 struct {
	F1 []uint64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 *PN1     `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP461) Reset()         { *m = pP461{} }
func (m *pP461) String() string { return "" }
func (*pP461) ProtoMessage()    {}

type pA462 struct {
	F1 *AN1
	F2 [2]uint
	F3 string
}
type pP462 struct {
	F1 *PN1     `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []uint64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP462) Reset()         { *m = pP462{} }
func (m *pP462) String() string { return "" }
func (*pP462) ProtoMessage()    {}

type pA463 struct {
	F1 [2]uint
	F2 []*AN2
}
type pP463 struct {
	F1 []uint64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []*PN2   `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP463) Reset()         { *m = pP463{} }
func (m *pP463) String() string { return "" }
func (*pP463) ProtoMessage()    {}

type pA464 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 [2]uint
	F18 string
}
type pP464 struct {
	F1  int32    `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32    `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32    `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32    `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32    `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32    `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32    `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32    `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32    `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32    `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32    `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32    `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32    `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32    `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32    `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32    `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 []uint64 `protobuf:"varint,17,rep,packed,name=F17,proto3"`
	F18 string   `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP464) Reset()         { *m = pP464{} }
func (m *pP464) String() string { return "" }
func (*pP464) ProtoMessage()    {}

type pA465 struct {
	F1 int64 `binary:"fixed64"`
}
type pP465 struct {
	F1 int64 `protobuf:"fixed64,1,opt,name=F1,proto3"`
}

func (m *pP465) Reset()         { *m = pP465{} }
func (m *pP465) String() string { return "" }
func (*pP465) ProtoMessage()    {}

type pA466 struct {
	F1 int64 `binary:"fixed64"`
	F2 int8
}
type pP466 struct {
	F1 int64 `protobuf:"fixed64,1,opt,name=F1,proto3"`
	F2 int32 `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP466) Reset()         { *m = pP466{} }
func (m *pP466) String() string { return "" }
func (*pP466) ProtoMessage()    {}

type pA467 struct {
	F1 int64 `binary:"fixed64"`
	F2 uint64
}
type pP467 struct {
	F1 int64  `protobuf:"fixed64,1,opt,name=F1,proto3"`
	F2 uint64 `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP467) Reset()         { *m = pP467{} }
func (m *pP467) String() string { return "" }
func (*pP467) ProtoMessage()    {}

type pA468 struct {
	F1 int64 `binary:"fixed64"`
	F2 int32 `binary:"fixed32"`
}
type pP468 struct {
	F1 int64 `protobuf:"fixed64,1,opt,name=F1,proto3"`
	F2 int32 `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP468) Reset()         { *m = pP468{} }
func (m *pP468) String() string { return "" }
func (*pP468) ProtoMessage()    {}

type pA469 struct {
	F1 int64 `binary:"fixed64"`
	F2 string
}
type pP469 struct {
	F1 int64  `protobuf:"fixed64,1,opt,name=F1,proto3"`
	F2 string `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP469) Reset()         { *m = pP469{} }
func (m *pP469) String() string { return "" }
func (*pP469) ProtoMessage()    {}

type pA470 struct {
	F1 int64 `binary:"fixed64"`
	F2 []byte
}
type pP470 struct {
	F1 int64  `protobuf:"fixed64,1,opt,name=F1,proto3"`
	F2 []byte `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP470) Reset()         { *m = pP470{} }
func (m *pP470) String() string { return "" }
func (*pP470) ProtoMessage()    {}

type pA471 struct {
	F1 int64 `binary:"fixed64"`
	F2 []int
}
type pP471 struct {
	F1 int64   `protobuf:"fixed64,1,opt,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP471) Reset()         { *m = pP471{} }
func (m *pP471) String() string { return "" }
func (*pP471) ProtoMessage()    {}

type pA472 struct {
	F1 []int
	F2 int64 `binary:"fixed64"`
	F3 string
}
type pP472 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 int64   `protobuf:"fixed64,2,opt,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP472) Reset()         { *m = pP472{} }
func (m *pP472) String() string { return "" }
func (*pP472) ProtoMessage()    {}

type pA473 struct {
	F1 int64 `binary:"fixed64"`
	F2 []string
}
type pP473 struct {
	F1 int64    `protobuf:"fixed64,1,opt,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP473) Reset()         { *m = pP473{} }
func (m *pP473) String() string { return "" }
func (*pP473) ProtoMessage()    {}

type pA474 struct {
	F1 []string
	F2 int64 `binary:"fixed64"`
	F3 string
}
type pP474 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 int64    `protobuf:"fixed64,2,opt,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP474) Reset()         { *m = pP474{} }
func (m *pP474) String() string { return "" }
func (*pP474) ProtoMessage()    {}

type pA475 struct {
	F1 int64 `binary:"fixed64"`
	F2 time.Time
}
type pP475 struct {
	F1 int64                `protobuf:"fixed64,1,opt,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP475) Reset()         { *m = pP475{} }
func (m *pP475) String() string { return "" }
func (*pP475) ProtoMessage()    {}

type pA476 struct {
	F1 int64 `binary:"fixed64"`
	F2 *AN1
}
type pP476 struct {
	F1 int64 `protobuf:"fixed64,1,opt,name=F1,proto3"`
	F2 *PN1  `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP476) Reset()         { *m = pP476{} }
func (m *pP476) String() string { return "" }
func (*pP476) ProtoMessage()    {}

type pA477 struct {
	F1 *AN1
	F2 int64 `binary:"fixed64"`
	F3 string
}
type pP477 struct {
	F1 *PN1   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 int64  `protobuf:"fixed64,2,opt,name=F2,proto3"`
	F3 string `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP477) Reset()         { *m = pP477{} }
func (m *pP477) String() string { return "" }
func (*pP477) ProtoMessage()    {}

type pA478 struct {
	F1 int64 `binary:"fixed64"`
	F2 []*AN2
}
type pP478 struct {
	F1 int64  `protobuf:"fixed64,1,opt,name=F1,proto3"`
	F2 []*PN2 `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP478) Reset()         { *m = pP478{} }
func (m *pP478) String() string { return "" }
func (*pP478) ProtoMessage()    {}

type pA479 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 int64 `binary:"fixed64"`
	F18 string
}
type pP479 struct {
	F1  int32  `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32  `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32  `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32  `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32  `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32  `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32  `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32  `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32  `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32  `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32  `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32  `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32  `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32  `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32  `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 int64  `protobuf:"fixed64,17,opt,name=F17,proto3"`
	F18 string `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP479) Reset()         { *m = pP479{} }
func (m *pP479) String() string { return "" }
func (*pP479) ProtoMessage()    {}

type pA480 struct {
	F1 []int64 `binary:"fixed64"`
}
type pP480 struct {
	F1 []int64 `protobuf:"fixed64,1,rep,packed,name=F1,proto3"`
}

func (m *pP480) Reset()         { *m = pP480{} }
func (m *pP480) String() string { return "" }
func (*pP480) ProtoMessage()    {}

type pA481 struct {
	F1 []int64 `binary:"fixed64"`
	F2 int8
}
type pP481 struct {
	F1 []int64 `protobuf:"fixed64,1,rep,packed,name=F1,proto3"`
	F2 int32   `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP481) Reset()         { *m = pP481{} }
func (m *pP481) String() string { return "" }
func (*pP481) ProtoMessage()    {}

type pA482 struct {
	F1 []int64 `binary:"fixed64"`
	F2 uint64
}
type pP482 struct {
	F1 []int64 `protobuf:"fixed64,1,rep,packed,name=F1,proto3"`
	F2 uint64  `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP482) Reset()         { *m = pP482{} }
func (m *pP482) String() string { return "" }
func (*pP482) ProtoMessage()    {}

type pA483 struct {
	F1 []int64 `binary:"fixed64"`
	F2 int32   `binary:"fixed32"`
}
type pP483 struct {
	F1 []int64 `protobuf:"fixed64,1,rep,packed,name=F1,proto3"`
	F2 int32   `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP483) Reset()         { *m = pP483{} }
func (m *pP483) String() string { return "" }
func (*pP483) ProtoMessage()    {}

type pA484 struct {
	F1 []int64 `binary:"fixed64"`
	F2 string
}
type pP484 struct {
	F1 []int64 `protobuf:"fixed64,1,rep,packed,name=F1,proto3"`
	F2 string  `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP484) Reset()         { *m = pP484{} }
func (m *pP484) String() string { return "" }
func (*pP484) ProtoMessage()    {}

type pA485 struct {
	F1 []int64 `binary:"fixed64"`
	F2 []byte
}
type pP485 struct {
	F1 []int64 `protobuf:"fixed64,1,rep,packed,name=F1,proto3"`
	F2 []byte  `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP485) Reset()         { *m = pP485{} }
func (m *pP485) String() string { return "" }
func (*pP485) ProtoMessage()    {}

type pA486 struct {
	F1 []int64 `binary:"fixed64"`
	F2 []int
}
type pP486 struct {
	F1 []int64 `protobuf:"fixed64,1,rep,packed,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP486) Reset()         { *m = pP486{} }
func (m *pP486) String() string { return "" }
func (*pP486) ProtoMessage()    {}

type pA487 struct {
	F1 []int
	F2 []int64 `binary:"fixed64"`
	F3 string
}
type pP487 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []int64 `protobuf:"fixed64,2,rep,packed,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP487) Reset()         { *m = pP487{} }
func (m *pP487) String() string { return "" }
func (*pP487) ProtoMessage()    {}

type pA488 struct {
	F1 []int64 `binary:"fixed64"`
	F2 []string
}
type pP488 struct {
	F1 []int64  `protobuf:"fixed64,1,rep,packed,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP488) Reset()         { *m = pP488{} }
func (m *pP488) String() string { return "" }
func (*pP488) ProtoMessage()    {}

type pA489 struct {
	F1 []string
	F2 []int64 `binary:"fixed64"`
	F3 string
}
type pP489 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []int64  `protobuf:"fixed64,2,rep,packed,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP489) Reset()         { *m = pP489{} }
func (m *pP489) String() string { return "" }
func (*pP489) ProtoMessage()    {}

type pA490 struct {
	F1 []int64 `binary:"fixed64"`
	F2 time.Time
}
type pP490 struct {
	F1 []int64              `protobuf:"fixed64,1,rep,packed,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP490) Reset()         { *m = pP490{} }
func (m *pP490) String() string { return "" }
func (*pP490) ProtoMessage()    {}

type pA491 struct {
	F1 []int64 `binary:"fixed64"`
	F2 *AN1
}
type pP491 struct {
	F1 []int64 `protobuf:"fixed64,1,rep,packed,name=F1,proto3"`
	F2 *PN1    `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP491) Reset()         { *m = pP491{} }
func (m *pP491) String() string { return "" }
func (*pP491) ProtoMessage()    {}

type pA492 struct {
	F1 *AN1
	F2 []int64 `binary:"fixed64"`
	F3 string
}
type pP492 struct {
	F1 *PN1    `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []int64 `protobuf:"fixed64,2,rep,packed,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP492) Reset()         { *m = pP492{} }
func (m *pP492) String() string { return "" }
func (*pP492) ProtoMessage()    {}

type pA493 struct {
	F1 []int64 `binary:"fixed64"`
	F2 []*AN2
}
type pP493 struct {
	F1 []int64 `protobuf:"fixed64,1,rep,packed,name=F1,proto3"`
	F2 []*PN2  `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP493) Reset()         { *m = pP493{} }
func (m *pP493) String() string { return "" }
func (*pP493) ProtoMessage()    {}

type pA494 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 []int64 `binary:"fixed64"`
	F18 string
}
type pP494 struct {
	F1  int32   `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32   `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32   `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32   `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32   `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32   `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32   `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32   `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32   `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32   `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32   `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32   `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32   `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32   `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32   `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32   `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 []int64 `protobuf:"fixed64,17,rep,packed,name=F17,proto3"`
	F18 string  `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP494) Reset()         { *m = pP494{} }
func (m *pP494) String() string { return "" }
func (*pP494) ProtoMessage()    {}

type pA495 struct {
	F1 [2]int64 `binary:"fixed64"`
}
type pP495 struct {
	F1 []int64 `protobuf:"fixed64,1,rep,packed,name=F1,proto3"`
}

func (m *pP495) Reset()         { *m = pP495{} }
func (m *pP495) String() string { return "" }
func (*pP495) ProtoMessage()    {}

type pA496 struct {
	F1 [2]int64 `binary:"fixed64"`
	F2 int8
}
type pP496 struct {
	F1 []int64 `protobuf:"fixed64,1,rep,packed,name=F1,proto3"`
	F2 int32   `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP496) Reset()         { *m = pP496{} }
func (m *pP496) String() string { return "" }
func (*pP496) ProtoMessage()    {}

type pA497 struct {
	F1 [2]int64 `binary:"fixed64"`
	F2 uint64
}
type pP497 struct {
	F1 []int64 `protobuf:"fixed64,1,rep,packed,name=F1,proto3"`
	F2 uint64  `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP497) Reset()         { *m = pP497{} }
func (m *pP497) String() string { return "" }
func (*pP497) ProtoMessage()    {}

type pA498 struct {
	F1 [2]int64 `binary:"fixed64"`
	F2 int32    `binary:"fixed32"`
}
type pP498 struct {
	F1 []int64 `protobuf:"fixed64,1,rep,packed,name=F1,proto3"`
	F2 int32   `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP498) Reset()         { *m = pP498{} }
func (m *pP498) String() string { return "" }
func (*pP498) ProtoMessage()    {}

type pA499 struct {
	F1 [2]int64 `binary:"fixed64"`
	F2 string
}
type pP499 struct {
	F1 []int64 `protobuf:"fixed64,1,rep,packed,name=F1,proto3"`
	F2 string  `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP499) Reset()         { *m = pP499{} }
func (m *pP499) String() string { return "" }
func (*pP499) ProtoMessage()    {}

type pA500 struct {
	F1 [2]int64 `binary:"fixed64"`
	F2 []byte
}
type pP500 struct {
	F1 []int64 `protobuf:"fixed64,1,rep,packed,name=F1,proto3"`
	F2 []byte  `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP500) Reset()         { *m = pP500{} }
func (m *pP500) String() string { return "" }
func (*pP500) ProtoMessage()    {}

type pA501 struct {
	F1 [2]int64 `binary:"fixed64"`
	F2 []int
}
type pP501 struct {
	F1 []int64 `protobuf:"fixed64,1,rep,packed,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP501) Reset()         { *m = pP501{} }
func (m *pP501) String() string { return "" }
func (*pP501) ProtoMessage()    {}

type pA502 struct {
	F1 []int
	F2 [2]int64 `binary:"fixed64"`
	F3 string
}
type pP502 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []int64 `protobuf:"fixed64,2,rep,packed,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP502) Reset()         { *m = pP502{} }
func (m *pP502) String() string { return "" }
func (*pP502) ProtoMessage()    {}

type pA503 struct {
	F1 [2]int64 `binary:"fixed64"`
	F2 []string
}
type pP503 struct {
	F1 []int64  `protobuf:"fixed64,1,rep,packed,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP503) Reset()         { *m = pP503{} }
func (m *pP503) String() string { return "" }
func (*pP503) ProtoMessage()    {}

type pA504 struct {
	F1 []string
	F2 [2]int64 `binary:"fixed64"`
	F3 string
}
type pP504 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []int64  `protobuf:"fixed64,2,rep,packed,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP504) Reset()         { *m = pP504{} }
func (m *pP504) String() string { return "" }
func (*pP504) ProtoMessage()    {}

type pA505 struct {
	F1 [2]int64 `binary:"fixed64"`
	F2 time.Time
}
type pP505 struct {
	F1 []int64              `protobuf:"fixed64,1,rep,packed,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP505) Reset()         { *m = pP505{} }
func (m *pP505) String() string { return "" }
func (*pP505) ProtoMessage()    {}

type pA506 struct {
	F1 [2]int64 `binary:"fixed64"`
	F2 *AN1
}
type pP506 struct {
	F1 []int64 `protobuf:"fixed64,1,rep,packed,name=F1,proto3"`
	F2 *PN1    `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP506) Reset()         { *m = pP506{} }
func (m *pP506) String() string { return "" }
func (*pP506) ProtoMessage()    {}

type pA507 struct {
	F1 *AN1
	F2 [2]int64 `binary:"fixed64"`
	F3 string
}
type pP507 struct {
	F1 *PN1    `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []int64 `protobuf:"fixed64,2,rep,packed,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP507) Reset()         { *m = pP507{} }
func (m *pP507) String() string { return "" }
func (*pP507) ProtoMessage()    {}

type pA508 struct {
	F1 [2]int64 `binary:"fixed64"`
	F2 []*AN2
}
type pP508 struct {
	F1 []int64 `protobuf:"fixed64,1,rep,packed,name=F1,proto3"`
	F2 []*PN2  `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP508) Reset()         { *m = pP508{} }
func (m *pP508) String() string { return "" }
func (*pP508) ProtoMessage()    {}

type pA509 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 [2]int64 `binary:"fixed64"`
	F18 string
}
type pP509 struct {
	F1  int32   `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32   `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32   `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32   `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32   `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32   `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32   `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32   `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32   `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32   `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32   `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32   `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32   `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32   `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32   `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32   `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 []int64 `protobuf:"fixed64,17,rep,packed,name=F17,proto3"`
	F18 string  `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP509) Reset()         { *m = pP509{} }
func (m *pP509) String() string { return "" }
func (*pP509) ProtoMessage()    {}

type pA510 struct {
	F1 uint64 `binary:"fixed64"`
}
type pP510 struct {
	F1 uint64 `protobuf:"fixed64,1,opt,name=F1,proto3"`
}

func (m *pP510) Reset()         { *m = pP510{} }
func (m *pP510) String() string { return "" }
func (*pP510) ProtoMessage()    {}

type pA511 struct {
	F1 uint64 `binary:"fixed64"`
	F2 int8
}
type pP511 struct {
	F1 uint64 `protobuf:"fixed64,1,opt,name=F1,proto3"`
	F2 int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP511) Reset()         { *m = pP511{} }
func (m *pP511) String() string { return "" }
func (*pP511) ProtoMessage()    {}

type pA512 struct {
	F1 uint64 `binary:"fixed64"`
	F2 uint64
}
type pP512 struct {
	F1 uint64 `protobuf:"fixed64,1,opt,name=F1,proto3"`
	F2 uint64 `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP512) Reset()         { *m = pP512{} }
func (m *pP512) String() string { return "" }
func (*pP512) ProtoMessage()    {}

type pA513 struct {
	F1 uint64 `binary:"fixed64"`
	F2 int32  `binary:"fixed32"`
}
type pP513 struct {
	F1 uint64 `protobuf:"fixed64,1,opt,name=F1,proto3"`
	F2 int32  `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP513) Reset()         { *m = pP513{} }
func (m *pP513) String() string { return "" }
func (*pP513) ProtoMessage()    {}

type pA514 struct {
	F1 uint64 `binary:"fixed64"`
	F2 string
}
type pP514 struct {
	F1 uint64 `protobuf:"fixed64,1,opt,name=F1,proto3"`
	F2 string `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP514) Reset()         { *m = pP514{} }
func (m *pP514) String() string { return "" }
func (*pP514) ProtoMessage()    {}

type pA515 struct {
	F1 uint64 `binary:"fixed64"`
	F2 []byte
}
type pP515 struct {
	F1 uint64 `protobuf:"fixed64,1,opt,name=F1,proto3"`
	F2 []byte `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP515) Reset()         { *m = pP515{} }
func (m *pP515) String() string { return "" }
func (*pP515) ProtoMessage()    {}

type pA516 struct {
	F1 uint64 `binary:"fixed64"`
	F2 []int
}
type pP516 struct {
	F1 uint64  `protobuf:"fixed64,1,opt,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP516) Reset()         { *m = pP516{} }
func (m *pP516) String() string { return "" }
func (*pP516) ProtoMessage()    {}

type pA517 struct {
	F1 []int
	F2 uint64 `binary:"fixed64"`
	F3 string
}
type pP517 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 uint64  `protobuf:"fixed64,2,opt,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP517) Reset()         { *m = pP517{} }
func (m *pP517) String() string { return "" }
func (*pP517) ProtoMessage()    {}

type pA518 struct {
	F1 uint64 `binary:"fixed64"`
	F2 []string
}
type pP518 struct {
	F1 uint64   `protobuf:"fixed64,1,opt,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP518) Reset()         { *m = pP518{} }
func (m *pP518) String() string { return "" }
func (*pP518) ProtoMessage()    {}

type pA519 struct {
	F1 []string
	F2 uint64 `binary:"fixed64"`
	F3 string
}
type pP519 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 uint64   `protobuf:"fixed64,2,opt,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP519) Reset()         { *m = pP519{} }
func (m *pP519) String() string { return "" }
func (*pP519) ProtoMessage()    {}

type pA520 struct {
	F1 uint64 `binary:"fixed64"`
	F2 time.Time
}
type pP520 struct {
	F1 uint64               `protobuf:"fixed64,1,opt,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP520) Reset()         { *m = pP520{} }
func (m *pP520) String() string { return "" }
func (*pP520) ProtoMessage()    {}

type pA521 struct {
	F1 uint64 `binary:"fixed64"`
	F2 *AN1
}
type pP521 struct {
	F1 uint64 `protobuf:"fixed64,1,opt,name=F1,proto3"`
	F2 *PN1   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP521) Reset()         { *m = pP521{} }
func (m *pP521) String() string { return "" }
func (*pP521) ProtoMessage()    {}

type pA522 struct {
	F1 *AN1
	F2 uint64 `binary:"fixed64"`
	F3 string
}
type pP522 struct {
	F1 *PN1   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 uint64 `protobuf:"fixed64,2,opt,name=F2,proto3"`
	F3 string `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP522) Reset()         { *m = pP522{} }
func (m *pP522) String() string { return "" }
func (*pP522) ProtoMessage()    {}

type pA523 struct {
	F1 uint64 `binary:"fixed64"`
	F2 []*AN2
}
type pP523 struct {
	F1 uint64 `protobuf:"fixed64,1,opt,name=F1,proto3"`
	F2 []*PN2 `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP523) Reset()         { *m = pP523{} }
func (m *pP523) String() string { return "" }
func (*pP523) ProtoMessage()    {}

type pA524 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 uint64 `binary:"fixed64"`
	F18 string
}
type pP524 struct {
	F1  int32  `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32  `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32  `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32  `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32  `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32  `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32  `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32  `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32  `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32  `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32  `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32  `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32  `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32  `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32  `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 uint64 `protobuf:"fixed64,17,opt,name=F17,proto3"`
	F18 string `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP524) Reset()         { *m = pP524{} }
func (m *pP524) String() string { return "" }
func (*pP524) ProtoMessage()    {}

type pA525 struct {
	F1 []uint64 `binary:"fixed64"`
}
type pP525 struct {
	F1 []uint64 `protobuf:"fixed64,1,rep,packed,name=F1,proto3"`
}

func (m *pP525) Reset()         { *m = pP525{} }
func (m *pP525) String() string { return "" }
func (*pP525) ProtoMessage()    {}

type pA526 struct {
	F1 []uint64 `binary:"fixed64"`
	F2 int8
}
type pP526 struct {
	F1 []uint64 `protobuf:"fixed64,1,rep,packed,name=F1,proto3"`
	F2 int32    `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP526) Reset()         { *m = pP526{} }
func (m *pP526) String() string { return "" }
func (*pP526) ProtoMessage()    {}

type pA527 struct {
	F1 []uint64 `binary:"fixed64"`
	F2 uint64
}
type pP527 struct {
	F1 []uint64 `protobuf:"fixed64,1,rep,packed,name=F1,proto3"`
	F2 uint64   `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP527) Reset()         { *m = pP527{} }
func (m *pP527) String() string { return "" }
func (*pP527) ProtoMessage()    {}

type pA528 struct {
	F1 []uint64 `binary:"fixed64"`
	F2 int32    `binary:"fixed32"`
}
type pP528 struct {
	F1 []uint64 `protobuf:"fixed64,1,rep,packed,name=F1,proto3"`
	F2 int32    `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP528) Reset()         { *m = pP528{} }
func (m *pP528) String() string { return "" }
func (*pP528) ProtoMessage()    {}

type pA529 struct {
	F1 []uint64 `binary:"fixed64"`
	F2 string
}
type pP529 struct {
	F1 []uint64 `protobuf:"fixed64,1,rep,packed,name=F1,proto3"`
	F2 string   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP529) Reset()         { *m = pP529{} }
func (m *pP529) String() string { return "" }
func (*pP529) ProtoMessage()    {}

type pA530 struct {
	F1 []uint64 `binary:"fixed64"`
	F2 []byte
}
type pP530 struct {
	F1 []uint64 `protobuf:"fixed64,1,rep,packed,name=F1,proto3"`
	F2 []byte   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP530) Reset()         { *m = pP530{} }
func (m *pP530) String() string { return "" }
func (*pP530) ProtoMessage()    {}

type pA531 struct {
	F1 []uint64 `binary:"fixed64"`
	F2 []int
}
type pP531 struct {
	F1 []uint64 `protobuf:"fixed64,1,rep,packed,name=F1,proto3"`
	F2 []int64  `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP531) Reset()         { *m = pP531{} }
func (m *pP531) String() string { return "" }
func (*pP531) ProtoMessage()    {}

type pA532 struct {
	F1 []int
	F2 []uint64 `binary:"fixed64"`
	F3 string
}
type pP532 struct {
	F1 []int64  `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []uint64 `protobuf:"fixed64,2,rep,packed,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP532) Reset()         { *m = pP532{} }
func (m *pP532) String() string { return "" }
func (*pP532) ProtoMessage()    {}

type pA533 struct {
	F1 []uint64 `binary:"fixed64"`
	F2 []string
}
type pP533 struct {
	F1 []uint64 `protobuf:"fixed64,1,rep,packed,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP533) Reset()         { *m = pP533{} }
func (m *pP533) String() string { return "" }
func (*pP533) ProtoMessage()    {}

type pA534 struct {
	F1 []string
	F2 []uint64 `binary:"fixed64"`
	F3 string
}
type pP534 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []uint64 `protobuf:"fixed64,2,rep,packed,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP534) Reset()         { *m = pP534{} }
func (m *pP534) String() string { return "" }
func (*pP534) ProtoMessage()    {}

type pA535 struct {
	F1 []uint64 `binary:"fixed64"`
	F2 time.Time
}
type pP535 struct {
	F1 []uint64             `protobuf:"fixed64,1,rep,packed,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP535) Reset()         { *m = pP535{} }
func (m *pP535) String() string { return "" }
func (*pP535) ProtoMessage()    {}

type pA536 struct {
	F1 []uint64 `binary:"fixed64"`
	F2 *AN1
}
type pP536 struct {
	F1 []uint64 `protobuf:"fixed64,1,rep,packed,name=F1,proto3"`
	F2 *PN1     `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP536) Reset()         { *m = pP536{} }
func (m *pP536) String() string { return "" }
func (*pP536) ProtoMessage()    {}

type pA537 struct {
	F1 *AN1
	F2 []uint64 `binary:"fixed64"`
	F3 string
}
type pP537 struct {
	F1 *PN1     `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []uint64 `protobuf:"fixed64,2,rep,packed,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP537) Reset()         { *m = pP537{} }
func (m *pP537) String() string { return "" }
func (*pP537) ProtoMessage()    {}

type pA538 struct {
	F1 []uint64 `binary:"fixed64"`
	F2 []*AN2
}
type pP538 struct {
	F1 []uint64 `protobuf:"fixed64,1,rep,packed,name=F1,proto3"`
	F2 []*PN2   `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP538) Reset()         { *m = pP538{} }
func (m *pP538) String() string { return "" }
func (*pP538) ProtoMessage()    {}

type pA539 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 []uint64 `binary:"fixed64"`
	F18 string
}
type pP539 struct {
	F1  int32    `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32    `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32    `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32    `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32    `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32    `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32    `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32    `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32    `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32    `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32    `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32    `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32    `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32    `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32    `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32    `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 []uint64 `protobuf:"fixed64,17,rep,packed,name=F17,proto3"`
	F18 string   `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP539) Reset()         { *m = pP539{} }
func (m *pP539) String() string { return "" }
func (*pP539) ProtoMessage()    {}

type pA540 struct {
	F1 [2]uint64 `binary:"fixed64"`
}
type pP540 struct {
	F1 []uint64 `protobuf:"fixed64,1,rep,packed,name=F1,proto3"`
}

func (m *pP540) Reset()         { *m = pP540{} }
func (m *pP540) String() string { return "" }
func (*pP540) ProtoMessage()    {}

type pA541 struct {
	F1 [2]uint64 `binary:"fixed64"`
	F2 int8
}
type pP541 struct {
	F1 []uint64 `protobuf:"fixed64,1,rep,packed,name=F1,proto3"`
	F2 int32    `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP541) Reset()         { *m = pP541{} }
func (m *pP541) String() string { return "" }
func (*pP541) ProtoMessage()    {}

type pA542 struct {
	F1 [2]uint64 `binary:"fixed64"`
	F2 uint64
}
type pP542 struct {
	F1 []uint64 `protobuf:"fixed64,1,rep,packed,name=F1,proto3"`
	F2 uint64   `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP542) Reset()         { *m = pP542{} }
func (m *pP542) String() string { return "" }
func (*pP542) ProtoMessage()    {}

type pA543 struct {
	F1 [2]uint64 `binary:"fixed64"`
	F2 int32     `binary:"fixed32"`
}
type pP543 struct {
	F1 []uint64 `protobuf:"fixed64,1,rep,packed,name=F1,proto3"`
	F2 int32    `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP543) Reset()         { *m = pP543{} }
func (m *pP543) String() string { return "" }
func (*pP543) ProtoMessage()    {}

type pA544 struct {
	F1 [2]uint64 `binary:"fixed64"`
	F2 string
}
type pP544 struct {
	F1 []uint64 `protobuf:"fixed64,1,rep,packed,name=F1,proto3"`
	F2 string   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP544) Reset()         { *m = pP544{} }
func (m *pP544) String() string { return "" }
func (*pP544) ProtoMessage()    {}

type pA545 struct {
	F1 [2]uint64 `binary:"fixed64"`
	F2 []byte
}
type pP545 struct {
	F1 []uint64 `protobuf:"fixed64,1,rep,packed,name=F1,proto3"`
	F2 []byte   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP545) Reset()         { *m = pP545{} }
func (m *pP545) String() string { return "" }
func (*pP545) ProtoMessage()    {}

type pA546 struct {
	F1 [2]uint64 `binary:"fixed64"`
	F2 []int
}
type pP546 struct {
	F1 []uint64 `protobuf:"fixed64,1,rep,packed,name=F1,proto3"`
	F2 []int64  `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP546) Reset()         { *m = pP546{} }
func (m *pP546) String() string { return "" }
func (*pP546) ProtoMessage()    {}

type pA547 struct {
	F1 []int
	F2 [2]uint64 `binary:"fixed64"`
	F3 string
}
type pP547 struct {
	F1 []int64  `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []uint64 `protobuf:"fixed64,2,rep,packed,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP547) Reset()         { *m = pP547{} }
func (m *pP547) String() string { return "" }
func (*pP547) ProtoMessage()    {}

type pA548 struct {
	F1 [2]uint64 `binary:"fixed64"`
	F2 []string
}
type pP548 struct {
	F1 []uint64 `protobuf:"fixed64,1,rep,packed,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP548) Reset()         { *m = pP548{} }
func (m *pP548) String() string { return "" }
func (*pP548) ProtoMessage()    {}

type pA549 struct {
	F1 []string
	F2 [2]uint64 `binary:"fixed64"`
	F3 string
}
type pP549 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []uint64 `protobuf:"fixed64,2,rep,packed,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP549) Reset()         { *m = pP549{} }
func (m *pP549) String() string { return "" }
func (*pP549) ProtoMessage()    {}

type pA550 struct {
	F1 [2]uint64 `binary:"fixed64"`
	F2 time.Time
}
type pP550 struct {
	F1 []uint64             `protobuf:"fixed64,1,rep,packed,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP550) Reset()         { *m = pP550{} }
func (m *pP550) String() string { return "" }
func (*pP550) ProtoMessage()    {}

type pA551 struct {
	F1 [2]uint64 `binary:"fixed64"`
	F2 *AN1
}
type pP551 struct {
	F1 []uint64 `protobuf:"fixed64,1,rep,packed,name=F1,proto3"`
	F2 *PN1     `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP551) Reset()         { *m = pP551{} }
func (m *pP551) String() string { return "" }
func (*pP551) ProtoMessage()    {}

type pA552 struct {
	F1 *AN1
	F2 [2]uint64 `binary:"fixed64"`
	F3 string
}
type pP552 struct {
	F1 *PN1     `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []uint64 `protobuf:"fixed64,2,rep,packed,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP552) Reset()         { *m = pP552{} }
func (m *pP552) String() string { return "" }
func (*pP552) ProtoMessage()    {}

type pA553 struct {
	F1 [2]uint64 `binary:"fixed64"`
	F2 []*AN2
}
type pP553 struct {
	F1 []uint64 `protobuf:"fixed64,1,rep,packed,name=F1,proto3"`
	F2 []*PN2   `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP553) Reset()         { *m = pP553{} }
func (m *pP553) String() string { return "" }
func (*pP553) ProtoMessage()    {}

type pA554 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 [2]uint64 `binary:"fixed64"`
	F18 string
}
type pP554 struct {
	F1  int32    `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32    `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32    `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32    `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32    `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32    `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32    `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32    `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32    `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32    `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32    `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32    `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32    `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32    `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32    `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32    `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 []uint64 `protobuf:"fixed64,17,rep,packed,name=F17,proto3"`
	F18 string   `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP554) Reset()         { *m = pP554{} }
func (m *pP554) String() string { return "" }
func (*pP554) ProtoMessage()    {}

type pA555 struct {
	F1 int32 `binary:"fixed32"`
}
type pP555 struct {
	F1 int32 `protobuf:"fixed32,1,opt,name=F1,proto3"`
}

func (m *pP555) Reset()         { *m = pP555{} }
func (m *pP555) String() string { return "" }
func (*pP555) ProtoMessage()    {}

type pA556 struct {
	F1 int32 `binary:"fixed32"`
	F2 int8
}
type pP556 struct {
	F1 int32 `protobuf:"fixed32,1,opt,name=F1,proto3"`
	F2 int32 `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP556) Reset()         { *m = pP556{} }
func (m *pP556) String() string { return "" }
func (*pP556) ProtoMessage()    {}

type pA557 struct {
	F1 int32 `binary:"fixed32"`
	F2 uint64
}
type pP557 struct {
	F1 int32  `protobuf:"fixed32,1,opt,name=F1,proto3"`
	F2 uint64 `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP557) Reset()         { *m = pP557{} }
func (m *pP557) String() string { return "" }
func (*pP557) ProtoMessage()    {}

type pA558 struct {
	F1 int32 `binary:"fixed32"`
	F2 int32 `binary:"fixed32"`
}
type pP558 struct {
	F1 int32 `protobuf:"fixed32,1,opt,name=F1,proto3"`
	F2 int32 `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP558) Reset()         { *m = pP558{} }
func (m *pP558) String() string { return "" }
func (*pP558) ProtoMessage()    {}

type pA559 struct {
	F1 int32 `binary:"fixed32"`
	F2 string
}
type pP559 struct {
	F1 int32  `protobuf:"fixed32,1,opt,name=F1,proto3"`
	F2 string `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP559) Reset()         { *m = pP559{} }
func (m *pP559) String() string { return "" }
func (*pP559) ProtoMessage()    {}

type pA560 struct {
	F1 int32 `binary:"fixed32"`
	F2 []byte
}
type pP560 struct {
	F1 int32  `protobuf:"fixed32,1,opt,name=F1,proto3"`
	F2 []byte `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP560) Reset()         { *m = pP560{} }
func (m *pP560) String() string { return "" }
func (*pP560) ProtoMessage()    {}

type pA561 struct {
	F1 int32 `binary:"fixed32"`
	F2 []int
}
type pP561 struct {
	F1 int32   `protobuf:"fixed32,1,opt,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP561) Reset()         { *m = pP561{} }
func (m *pP561) String() string { return "" }
func (*pP561) ProtoMessage()    {}

type pA562 struct {
	F1 []int
	F2 int32 `binary:"fixed32"`
	F3 string
}
type pP562 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 int32   `protobuf:"fixed32,2,opt,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP562) Reset()         { *m = pP562{} }
func (m *pP562) String() string { return "" }
func (*pP562) ProtoMessage()    {}

type pA563 struct {
	F1 int32 `binary:"fixed32"`
	F2 []string
}
type pP563 struct {
	F1 int32    `protobuf:"fixed32,1,opt,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP563) Reset()         { *m = pP563{} }
func (m *pP563) String() string { return "" }
func (*pP563) ProtoMessage()    {}

type pA564 struct {
	F1 []string
	F2 int32 `binary:"fixed32"`
	F3 string
}
type pP564 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 int32    `protobuf:"fixed32,2,opt,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP564) Reset()         { *m = pP564{} }
func (m *pP564) String() string { return "" }
func (*pP564) ProtoMessage()    {}

type pA565 struct {
	F1 int32 `binary:"fixed32"`
	F2 time.Time
}
type pP565 struct {
	F1 int32                `protobuf:"fixed32,1,opt,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP565) Reset()         { *m = pP565{} }
func (m *pP565) String() string { return "" }
func (*pP565) ProtoMessage()    {}

type pA566 struct {
	F1 int32 `binary:"fixed32"`
	F2 *AN1
}
type pP566 struct {
	F1 int32 `protobuf:"fixed32,1,opt,name=F1,proto3"`
	F2 *PN1  `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP566) Reset()         { *m = pP566{} }
func (m *pP566) String() string { return "" }
func (*pP566) ProtoMessage()    {}

type pA567 struct {
	F1 *AN1
	F2 int32 `binary:"fixed32"`
	F3 string
}
type pP567 struct {
	F1 *PN1   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 int32  `protobuf:"fixed32,2,opt,name=F2,proto3"`
	F3 string `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP567) Reset()         { *m = pP567{} }
func (m *pP567) String() string { return "" }
func (*pP567) ProtoMessage()    {}

type pA568 struct {
	F1 int32 `binary:"fixed32"`
	F2 []*AN2
}
type pP568 struct {
	F1 int32  `protobuf:"fixed32,1,opt,name=F1,proto3"`
	F2 []*PN2 `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP568) Reset()         { *m = pP568{} }
func (m *pP568) String() string { return "" }
func (*pP568) ProtoMessage()    {}

type pA569 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 int32 `binary:"fixed32"`
	F18 string
}
type pP569 struct {
	F1  int32  `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32  `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32  `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32  `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32  `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32  `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32  `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32  `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32  `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32  `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32  `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32  `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32  `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32  `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32  `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 int32  `protobuf:"fixed32,17,opt,name=F17,proto3"`
	F18 string `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP569) Reset()         { *m = pP569{} }
func (m *pP569) String() string { return "" }
func (*pP569) ProtoMessage()    {}

type pA570 struct {
	F1 []int32 `binary:"fixed32"`
}
type pP570 struct {
	F1 []int32 `protobuf:"fixed32,1,rep,packed,name=F1,proto3"`
}

func (m *pP570) Reset()         { *m = pP570{} }
func (m *pP570) String() string { return "" }
func (*pP570) ProtoMessage()    {}

type pA571 struct {
	F1 []int32 `binary:"fixed32"`
	F2 int8
}
type pP571 struct {
	F1 []int32 `protobuf:"fixed32,1,rep,packed,name=F1,proto3"`
	F2 int32   `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP571) Reset()         { *m = pP571{} }
func (m *pP571) String() string { return "" }
func (*pP571) ProtoMessage()    {}

type pA572 struct {
	F1 []int32 `binary:"fixed32"`
	F2 uint64
}
type pP572 struct {
	F1 []int32 `protobuf:"fixed32,1,rep,packed,name=F1,proto3"`
	F2 uint64  `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP572) Reset()         { *m = pP572{} }
func (m *pP572) String() string { return "" }
func (*pP572) ProtoMessage()    {}

type pA573 struct {
	F1 []int32 `binary:"fixed32"`
	F2 int32   `binary:"fixed32"`
}
type pP573 struct {
	F1 []int32 `protobuf:"fixed32,1,rep,packed,name=F1,proto3"`
	F2 int32   `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP573) Reset()         { *m = pP573{} }
func (m *pP573) String() string { return "" }
func (*pP573) ProtoMessage()    {}

type pA574 struct {
	F1 []int32 `binary:"fixed32"`
	F2 string
}
type pP574 struct {
	F1 []int32 `protobuf:"fixed32,1,rep,packed,name=F1,proto3"`
	F2 string  `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP574) Reset()         { *m = pP574{} }
func (m *pP574) String() string { return "" }
func (*pP574) ProtoMessage()    {}

type pA575 struct {
	F1 []int32 `binary:"fixed32"`
	F2 []byte
}
type pP575 struct {
	F1 []int32 `protobuf:"fixed32,1,rep,packed,name=F1,proto3"`
	F2 []byte  `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP575) Reset()         { *m = pP575{} }
func (m *pP575) String() string { return "" }
func (*pP575) ProtoMessage()    {}

type pA576 struct {
	F1 []int32 `binary:"fixed32"`
	F2 []int
}
type pP576 struct {
	F1 []int32 `protobuf:"fixed32,1,rep,packed,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP576) Reset()         { *m = pP576{} }
func (m *pP576) String() string { return "" }
func (*pP576) ProtoMessage()    {}

type pA577 struct {
	F1 []int
	F2 []int32 `binary:"fixed32"`
	F3 string
}
type pP577 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []int32 `protobuf:"fixed32,2,rep,packed,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP577) Reset()         { *m = pP577{} }
func (m *pP577) String() string { return "" }
func (*pP577) ProtoMessage()    {}

type pA578 struct {
	F1 []int32 `binary:"fixed32"`
	F2 []string
}
type pP578 struct {
	F1 []int32  `protobuf:"fixed32,1,rep,packed,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP578) Reset()         { *m = pP578{} }
func (m *pP578) String() string { return "" }
func (*pP578) ProtoMessage()    {}

type pA579 struct {
	F1 []string
	F2 []int32 `binary:"fixed32"`
	F3 string
}
type pP579 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []int32  `protobuf:"fixed32,2,rep,packed,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP579) Reset()         { *m = pP579{} }
func (m *pP579) String() string { return "" }
func (*pP579) ProtoMessage()    {}

type pA580 struct {
	F1 []int32 `binary:"fixed32"`
	F2 time.Time
}
type pP580 struct {
	F1 []int32              `protobuf:"fixed32,1,rep,packed,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP580) Reset()         { *m = pP580{} }
func (m *pP580) String() string { return "" }
func (*pP580) ProtoMessage()    {}

type pA581 struct {
	F1 []int32 `binary:"fixed32"`
	F2 *AN1
}
type pP581 struct {
	F1 []int32 `protobuf:"fixed32,1,rep,packed,name=F1,proto3"`
	F2 *PN1    `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP581) Reset()         { *m = pP581{} }
func (m *pP581) String() string { return "" }
func (*pP581) ProtoMessage()    {}

type pA582 struct {
	F1 *AN1
	F2 []int32 `binary:"fixed32"`
	F3 string
}
type pP582 struct {
	F1 *PN1    `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []int32 `protobuf:"fixed32,2,rep,packed,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP582) Reset()         { *m = pP582{} }
func (m *pP582) String() string { return "" }
func (*pP582) ProtoMessage()    {}

type pA583 struct {
	F1 []int32 `binary:"fixed32"`
	F2 []*AN2
}
type pP583 struct {
	F1 []int32 `protobuf:"fixed32,1,rep,packed,name=F1,proto3"`
	F2 []*PN2  `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP583) Reset()         { *m = pP583{} }
func (m *pP583) String() string { return "" }
func (*pP583) ProtoMessage()    {}

type pA584 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 []int32 `binary:"fixed32"`
	F18 string
}
type pP584 struct {
	F1  int32   `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32   `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32   `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32   `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32   `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32   `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32   `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32   `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32   `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32   `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32   `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32   `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32   `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32   `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32   `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32   `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 []int32 `protobuf:"fixed32,17,rep,packed,name=F17,proto3"`
	F18 string  `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP584) Reset()         { *m = pP584{} }
func (m *pP584) String() string { return "" }
func (*pP584) ProtoMessage()    {}

type pA585 struct {
	F1 [2]int32 `binary:"fixed32"`
}
type pP585 struct {
	F1 []int32 `protobuf:"fixed32,1,rep,packed,name=F1,proto3"`
}

func (m *pP585) Reset()         { *m = pP585{} }
func (m *pP585) String() string { return "" }
func (*pP585) ProtoMessage()    {}

type pA586 struct {
	F1 [2]int32 `binary:"fixed32"`
	F2 int8
}
type pP586 struct {
	F1 []int32 `protobuf:"fixed32,1,rep,packed,name=F1,proto3"`
	F2 int32   `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP586) Reset()         { *m = pP586{} }
func (m *pP586) String() string { return "" }
func (*pP586) ProtoMessage()    {}

type pA587 struct {
	F1 [2]int32 `binary:"fixed32"`
	F2 uint64
}
type pP587 struct {
	F1 []int32 `protobuf:"fixed32,1,rep,packed,name=F1,proto3"`
	F2 uint64  `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP587) Reset()         { *m = pP587{} }
func (m *pP587) String() string { return "" }
func (*pP587) ProtoMessage()    {}

type pA588 struct {
	F1 [2]int32 `binary:"fixed32"`
	F2 int32    `binary:"fixed32"`
}
type pP588 struct {
	F1 []int32 `protobuf:"fixed32,1,rep,packed,name=F1,proto3"`
	F2 int32   `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP588) Reset()         { *m = pP588{} }
func (m *pP588) String() string { return "" }
func (*pP588) ProtoMessage()    {}

type pA589 struct {
	F1 [2]int32 `binary:"fixed32"`
	F2 string
}
type pP589 struct {
	F1 []int32 `protobuf:"fixed32,1,rep,packed,name=F1,proto3"`
	F2 string  `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP589) Reset()         { *m = pP589{} }
func (m *pP589) String() string { return "" }
func (*pP589) ProtoMessage()    {}

type pA590 struct {
	F1 [2]int32 `binary:"fixed32"`
	F2 []byte
}
type pP590 struct {
	F1 []int32 `protobuf:"fixed32,1,rep,packed,name=F1,proto3"`
	F2 []byte  `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP590) Reset()         { *m = pP590{} }
func (m *pP590) String() string { return "" }
func (*pP590) ProtoMessage()    {}

type pA591 struct {
	F1 [2]int32 `binary:"fixed32"`
	F2 []int
}
type pP591 struct {
	F1 []int32 `protobuf:"fixed32,1,rep,packed,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP591) Reset()         { *m = pP591{} }
func (m *pP591) String() string { return "" }
func (*pP591) ProtoMessage()    {}

type pA592 struct {
	F1 []int
	F2 [2]int32 `binary:"fixed32"`
	F3 string
}
type pP592 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []int32 `protobuf:"fixed32,2,rep,packed,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP592) Reset()         { *m = pP592{} }
func (m *pP592) String() string { return "" }
func (*pP592) ProtoMessage()    {}

type pA593 struct {
	F1 [2]int32 `binary:"fixed32"`
	F2 []string
}
type pP593 struct {
	F1 []int32  `protobuf:"fixed32,1,rep,packed,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP593) Reset()         { *m = pP593{} }
func (m *pP593) String() string { return "" }
func (*pP593) ProtoMessage()    {}

type pA594 struct {
	F1 []string
	F2 [2]int32 `binary:"fixed32"`
	F3 string
}
type pP594 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []int32  `protobuf:"fixed32,2,rep,packed,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP594) Reset()         { *m = pP594{} }
func (m *pP594) String() string { return "" }
func (*pP594) ProtoMessage()    {}

type pA595 struct {
	F1 [2]int32 `binary:"fixed32"`
	F2 time.Time
}
type pP595 struct {
	F1 []int32              `protobuf:"fixed32,1,rep,packed,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP595) Reset()         { *m = pP595{} }
func (m *pP595) String() string { return "" }
func (*pP595) ProtoMessage()    {}

type pA596 struct {
	F1 [2]int32 `binary:"fixed32"`
	F2 *AN1
}
type pP596 struct {
	F1 []int32 `protobuf:"fixed32,1,rep,packed,name=F1,proto3"`
	F2 *PN1    `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP596) Reset()         { *m = pP596{} }
func (m *pP596) String() string { return "" }
func (*pP596) ProtoMessage()    {}

type pA597 struct {
	F1 *AN1
	F2 [2]int32 `binary:"fixed32"`
	F3 string
}
type pP597 struct {
	F1 *PN1    `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []int32 `protobuf:"fixed32,2,rep,packed,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP597) Reset()         { *m = pP597{} }
func (m *pP597) String() string { return "" }
func (*pP597) ProtoMessage()    {}

type pA598 struct {
	F1 [2]int32 `binary:"fixed32"`
	F2 []*AN2
}
type pP598 struct {
	F1 []int32 `protobuf:"fixed32,1,rep,packed,name=F1,proto3"`
	F2 []*PN2  `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP598) Reset()         { *m = pP598{} }
func (m *pP598) String() string { return "" }
func (*pP598) ProtoMessage()    {}

type pA599 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 [2]int32 `binary:"fixed32"`
	F18 string
}
type pP599 struct {
	F1  int32   `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32   `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32   `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32   `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32   `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32   `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32   `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32   `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32   `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32   `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32   `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32   `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32   `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32   `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32   `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32   `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 []int32 `protobuf:"fixed32,17,rep,packed,name=F17,proto3"`
	F18 string  `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP599) Reset()         { *m = pP599{} }
func (m *pP599) String() string { return "" }
func (*pP599) ProtoMessage()    {}

type pA600 struct {
	F1 uint32 `binary:"fixed32"`
}
type pP600 struct {
	F1 uint32 `protobuf:"fixed32,1,opt,name=F1,proto3"`
}

func (m *pP600) Reset()         { *m = pP600{} }
func (m *pP600) String() string { return "" }
func (*pP600) ProtoMessage()    {}

type pA601 struct {
	F1 uint32 `binary:"fixed32"`
	F2 int8
}
type pP601 struct {
	F1 uint32 `protobuf:"fixed32,1,opt,name=F1,proto3"`
	F2 int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP601) Reset()         { *m = pP601{} }
func (m *pP601) String() string { return "" }
func (*pP601) ProtoMessage()    {}

type pA602 struct {
	F1 uint32 `binary:"fixed32"`
	F2 uint64
}
type pP602 struct {
	F1 uint32 `protobuf:"fixed32,1,opt,name=F1,proto3"`
	F2 uint64 `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP602) Reset()         { *m = pP602{} }
func (m *pP602) String() string { return "" }
func (*pP602) ProtoMessage()    {}

type pA603 struct {
	F1 uint32 `binary:"fixed32"`
	F2 int32  `binary:"fixed32"`
}
type pP603 struct {
	F1 uint32 `protobuf:"fixed32,1,opt,name=F1,proto3"`
	F2 int32  `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP603) Reset()         { *m = pP603{} }
func (m *pP603) String() string { return "" }
func (*pP603) ProtoMessage()    {}

type pA604 struct {
	F1 uint32 `binary:"fixed32"`
	F2 string
}
type pP604 struct {
	F1 uint32 `protobuf:"fixed32,1,opt,name=F1,proto3"`
	F2 string `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP604) Reset()         { *m = pP604{} }
func (m *pP604) String() string { return "" }
func (*pP604) ProtoMessage()    {}

type pA605 struct {
	F1 uint32 `binary:"fixed32"`
	F2 []byte
}
type pP605 struct {
	F1 uint32 `protobuf:"fixed32,1,opt,name=F1,proto3"`
	F2 []byte `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP605) Reset()         { *m = pP605{} }
func (m *pP605) String() string { return "" }
func (*pP605) ProtoMessage()    {}

type pA606 struct {
	F1 uint32 `binary:"fixed32"`
	F2 []int
}
type pP606 struct {
	F1 uint32  `protobuf:"fixed32,1,opt,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP606) Reset()         { *m = pP606{} }
func (m *pP606) String() string { return "" }
func (*pP606) ProtoMessage()    {}

type pA607 struct {
	F1 []int
	F2 uint32 `binary:"fixed32"`
	F3 string
}
type pP607 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 uint32  `protobuf:"fixed32,2,opt,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP607) Reset()         { *m = pP607{} }
func (m *pP607) String() string { return "" }
func (*pP607) ProtoMessage()    {}

type pA608 struct {
	F1 uint32 `binary:"fixed32"`
	F2 []string
}
type pP608 struct {
	F1 uint32   `protobuf:"fixed32,1,opt,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP608) Reset()         { *m = pP608{} }
func (m *pP608) String() string { return "" }
func (*pP608) ProtoMessage()    {}

type pA609 struct {
	F1 []string
	F2 uint32 `binary:"fixed32"`
	F3 string
}
type pP609 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 uint32   `protobuf:"fixed32,2,opt,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP609) Reset()         { *m = pP609{} }
func (m *pP609) String() string { return "" }
func (*pP609) ProtoMessage()    {}

type pA610 struct {
	F1 uint32 `binary:"fixed32"`
	F2 time.Time
}
type pP610 struct {
	F1 uint32               `protobuf:"fixed32,1,opt,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP610) Reset()         { *m = pP610{} }
func (m *pP610) String() string { return "" }
func (*pP610) ProtoMessage()    {}

type pA611 struct {
	F1 uint32 `binary:"fixed32"`
	F2 *AN1
}
type pP611 struct {
	F1 uint32 `protobuf:"fixed32,1,opt,name=F1,proto3"`
	F2 *PN1   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP611) Reset()         { *m = pP611{} }
func (m *pP611) String() string { return "" }
func (*pP611) ProtoMessage()    {}

type pA612 struct {
	F1 *AN1
	F2 uint32 `binary:"fixed32"`
	F3 string
}
type pP612 struct {
	F1 *PN1   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 uint32 `protobuf:"fixed32,2,opt,name=F2,proto3"`
	F3 string `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP612) Reset()         { *m = pP612{} }
func (m *pP612) String() string { return "" }
func (*pP612) ProtoMessage()    {}

type pA613 struct {
	F1 uint32 `binary:"fixed32"`
	F2 []*AN2
}
type pP613 struct {
	F1 uint32 `protobuf:"fixed32,1,opt,name=F1,proto3"`
	F2 []*PN2 `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP613) Reset()         { *m = pP613{} }
func (m *pP613) String() string { return "" }
func (*pP613) ProtoMessage()    {}

type pA614 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 uint32 `binary:"fixed32"`
	F18 string
}
type pP614 struct {
	F1  int32  `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32  `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32  `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32  `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32  `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32  `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32  `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32  `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32  `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32  `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32  `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32  `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32  `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32  `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32  `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 uint32 `protobuf:"fixed32,17,opt,name=F17,proto3"`
	F18 string `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP614) Reset()         { *m = pP614{} }
func (m *pP614) String() string { return "" }
func (*pP614) ProtoMessage()    {}

type pA615 struct {
	F1 []uint32 `binary:"fixed32"`
}
type pP615 struct {
	F1 []uint32 `protobuf:"fixed32,1,rep,packed,name=F1,proto3"`
}

func (m *pP615) Reset()         { *m = pP615{} }
func (m *pP615) String() string { return "" }
func (*pP615) ProtoMessage()    {}

type pA616 struct {
	F1 []uint32 `binary:"fixed32"`
	F2 int8
}
type pP616 struct {
	F1 []uint32 `protobuf:"fixed32,1,rep,packed,name=F1,proto3"`
	F2 int32    `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP616) Reset()         { *m = pP616{} }
func (m *pP616) String() string { return "" }
func (*pP616) ProtoMessage()    {}

type pA617 struct {
	F1 []uint32 `binary:"fixed32"`
	F2 uint64
}
type pP617 struct {
	F1 []uint32 `protobuf:"fixed32,1,rep,packed,name=F1,proto3"`
	F2 uint64   `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP617) Reset()         { *m = pP617{} }
func (m *pP617) String() string { return "" }
func (*pP617) ProtoMessage()    {}

type pA618 struct {
	F1 []uint32 `binary:"fixed32"`
	F2 int32    `binary:"fixed32"`
}
type pP618 struct {
	F1 []uint32 `protobuf:"fixed32,1,rep,packed,name=F1,proto3"`
	F2 int32    `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP618) Reset()         { *m = pP618{} }
func (m *pP618) String() string { return "" }
func (*pP618) ProtoMessage()    {}

type pA619 struct {
	F1 []uint32 `binary:"fixed32"`
	F2 string
}
type pP619 struct {
	F1 []uint32 `protobuf:"fixed32,1,rep,packed,name=F1,proto3"`
	F2 string   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP619) Reset()         { *m = pP619{} }
func (m *pP619) String() string { return "" }
func (*pP619) ProtoMessage()    {}

type pA620 struct {
	F1 []uint32 `binary:"fixed32"`
	F2 []byte
}
type pP620 struct {
	F1 []uint32 `protobuf:"fixed32,1,rep,packed,name=F1,proto3"`
	F2 []byte   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP620) Reset()         { *m = pP620{} }
func (m *pP620) String() string { return "" }
func (*pP620) ProtoMessage()    {}

type pA621 struct {
	F1 []uint32 `binary:"fixed32"`
	F2 []int
}
type pP621 struct {
	F1 []uint32 `protobuf:"fixed32,1,rep,packed,name=F1,proto3"`
	F2 []int64  `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP621) Reset()         { *m = pP621{} }
func (m *pP621) String() string { return "" }
func (*pP621) ProtoMessage()    {}

type pA622 struct {
	F1 []int
	F2 []uint32 `binary:"fixed32"`
	F3 string
}
type pP622 struct {
	F1 []int64  `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []uint32 `protobuf:"fixed32,2,rep,packed,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP622) Reset()         { *m = pP622{} }
func (m *pP622) String() string { return "" }
func (*pP622) ProtoMessage()    {}

type pA623 struct {
	F1 []uint32 `binary:"fixed32"`
	F2 []string
}
type pP623 struct {
	F1 []uint32 `protobuf:"fixed32,1,rep,packed,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP623) Reset()         { *m = pP623{} }
func (m *pP623) String() string { return "" }
func (*pP623) ProtoMessage()    {}

type pA624 struct {
	F1 []string
	F2 []uint32 `binary:"fixed32"`
	F3 string
}
type pP624 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []uint32 `protobuf:"fixed32,2,rep,packed,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP624) Reset()         { *m = pP624{} }
func (m *pP624) String() string { return "" }
func (*pP624) ProtoMessage()    {}

type pA625 struct {
	F1 []uint32 `binary:"fixed32"`
	F2 time.Time
}
type pP625 struct {
	F1 []uint32             `protobuf:"fixed32,1,rep,packed,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP625) Reset()         { *m = pP625{} }
func (m *pP625) String() string { return "" }
func (*pP625) ProtoMessage()    {}

type pA626 struct {
	F1 []uint32 `binary:"fixed32"`
	F2 *AN1
}
type pP626 struct {
	F1 []uint32 `protobuf:"fixed32,1,rep,packed,name=F1,proto3"`
	F2 *PN1     `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP626) Reset()         { *m = pP626{} }
func (m *pP626) String() string { return "" }
func (*pP626) ProtoMessage()    {}

type pA627 struct {
	F1 *AN1
	F2 []uint32 `binary:"fixed32"`
	F3 string
}
type pP627 struct {
	F1 *PN1     `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []uint32 `protobuf:"fixed32,2,rep,packed,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP627) Reset()         { *m = pP627{} }
func (m *pP627) String() string { return "" }
func (*pP627) ProtoMessage()    {}

type pA628 struct {
	F1 []uint32 `binary:"fixed32"`
	F2 []*AN2
}
type pP628 struct {
	F1 []uint32 `protobuf:"fixed32,1,rep,packed,name=F1,proto3"`
	F2 []*PN2   `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP628) Reset()         { *m = pP628{} }
func (m *pP628) String() string { return "" }
func (*pP628) ProtoMessage()    {}

type pA629 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 []uint32 `binary:"fixed32"`
	F18 string
}
type pP629 struct {
	F1  int32    `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32    `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32    `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32    `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32    `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32    `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32    `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32    `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32    `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32    `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32    `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32    `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32    `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32    `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32    `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32    `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 []uint32 `protobuf:"fixed32,17,rep,packed,name=F17,proto3"`
	F18 string   `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP629) Reset()         { *m = pP629{} }
func (m *pP629) String() string { return "" }
func (*pP629) ProtoMessage()    {}

type pA630 struct {
	F1 [2]uint32 `binary:"fixed32"`
}
type pP630 struct {
	F1 []uint32 `protobuf:"fixed32,1,rep,packed,name=F1,proto3"`
}

func (m *pP630) Reset()         { *m = pP630{} }
func (m *pP630) String() string { return "" }
func (*pP630) ProtoMessage()    {}

type pA631 struct {
	F1 [2]uint32 `binary:"fixed32"`
	F2 int8
}
type pP631 struct {
	F1 []uint32 `protobuf:"fixed32,1,rep,packed,name=F1,proto3"`
	F2 int32    `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP631) Reset()         { *m = pP631{} }
func (m *pP631) String() string { return "" }
func (*pP631) ProtoMessage()    {}

type pA632 struct {
	F1 [2]uint32 `binary:"fixed32"`
	F2 uint64
}
type pP632 struct {
	F1 []uint32 `protobuf:"fixed32,1,rep,packed,name=F1,proto3"`
	F2 uint64   `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP632) Reset()         { *m = pP632{} }
func (m *pP632) String() string { return "" }
func (*pP632) ProtoMessage()    {}

type pA633 struct {
	F1 [2]uint32 `binary:"fixed32"`
	F2 int32     `binary:"fixed32"`
}
type pP633 struct {
	F1 []uint32 `protobuf:"fixed32,1,rep,packed,name=F1,proto3"`
	F2 int32    `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP633) Reset()         { *m = pP633{} }
func (m *pP633) String() string { return "" }
func (*pP633) ProtoMessage()    {}

type pA634 struct {
	F1 [2]uint32 `binary:"fixed32"`
	F2 string
}
type pP634 struct {
	F1 []uint32 `protobuf:"fixed32,1,rep,packed,name=F1,proto3"`
	F2 string   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP634) Reset()         { *m = pP634{} }
func (m *pP634) String() string { return "" }
func (*pP634) ProtoMessage()    {}

type pA635 struct {
	F1 [2]uint32 `binary:"fixed32"`
	F2 []byte
}
type pP635 struct {
	F1 []uint32 `protobuf:"fixed32,1,rep,packed,name=F1,proto3"`
	F2 []byte   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP635) Reset()         { *m = pP635{} }
func (m *pP635) String() string { return "" }
func (*pP635) ProtoMessage()    {}

type pA636 struct {
	F1 [2]uint32 `binary:"fixed32"`
	F2 []int
}
type pP636 struct {
	F1 []uint32 `protobuf:"fixed32,1,rep,packed,name=F1,proto3"`
	F2 []int64  `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP636) Reset()         { *m = pP636{} }
func (m *pP636) String() string { return "" }
func (*pP636) ProtoMessage()    {}

type pA637 struct {
	F1 []int
	F2 [2]uint32 `binary:"fixed32"`
	F3 string
}
type pP637 struct {
	F1 []int64  `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []uint32 `protobuf:"fixed32,2,rep,packed,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP637) Reset()         { *m = pP637{} }
func (m *pP637) String() string { return "" }
func (*pP637) ProtoMessage()    {}

type pA638 struct {
	F1 [2]uint32 `binary:"fixed32"`
	F2 []string
}
type pP638 struct {
	F1 []uint32 `protobuf:"fixed32,1,rep,packed,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP638) Reset()         { *m = pP638{} }
func (m *pP638) String() string { return "" }
func (*pP638) ProtoMessage()    {}

type pA639 struct {
	F1 []string
	F2 [2]uint32 `binary:"fixed32"`
	F3 string
}
type pP639 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []uint32 `protobuf:"fixed32,2,rep,packed,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP639) Reset()         { *m = pP639{} }
func (m *pP639) String() string { return "" }
func (*pP639) ProtoMessage()    {}

type pA640 struct {
	F1 [2]uint32 `binary:"fixed32"`
	F2 time.Time
}
type pP640 struct {
	F1 []uint32             `protobuf:"fixed32,1,rep,packed,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP640) Reset()         { *m = pP640{} }
func (m *pP640) String() string { return "" }
func (*pP640) ProtoMessage()    {}

type pA641 struct {
	F1 [2]uint32 `binary:"fixed32"`
	F2 *AN1
}
type pP641 struct {
	F1 []uint32 `protobuf:"fixed32,1,rep,packed,name=F1,proto3"`
	F2 *PN1     `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP641) Reset()         { *m = pP641{} }
func (m *pP641) String() string { return "" }
func (*pP641) ProtoMessage()    {}

type pA642 struct {
	F1 *AN1
	F2 [2]uint32 `binary:"fixed32"`
	F3 string
}
type pP642 struct {
	F1 *PN1     `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []uint32 `protobuf:"fixed32,2,rep,packed,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP642) Reset()         { *m = pP642{} }
func (m *pP642) String() string { return "" }
func (*pP642) ProtoMessage()    {}

type pA643 struct {
	F1 [2]uint32 `binary:"fixed32"`
	F2 []*AN2
}
type pP643 struct {
	F1 []uint32 `protobuf:"fixed32,1,rep,packed,name=F1,proto3"`
	F2 []*PN2   `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP643) Reset()         { *m = pP643{} }
func (m *pP643) String() string { return "" }
func (*pP643) ProtoMessage()    {}

type pA644 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 [2]uint32 `binary:"fixed32"`
	F18 string
}
type pP644 struct {
	F1  int32    `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32    `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32    `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32    `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32    `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32    `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32    `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32    `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32    `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32    `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32    `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32    `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32    `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32    `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32    `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32    `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 []uint32 `protobuf:"fixed32,17,rep,packed,name=F17,proto3"`
	F18 string   `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP644) Reset()         { *m = pP644{} }
func (m *pP644) String() string { return "" }
func (*pP644) ProtoMessage()    {}

type pA645 struct{ F1 MyInt }
type pP645 struct {
	F1 int64 `protobuf:"varint,1,opt,name=F1,proto3"`
}

func (m *pP645) Reset()         { *m = pP645{} }
func (m *pP645) String() string { return "" }
func (*pP645) ProtoMessage()    {}

type pA646 struct {
	F1 MyInt
	F2 int8
}
type pP646 struct {
	F1 int64 `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 int32 `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP646) Reset()         { *m = pP646{} }
func (m *pP646) String() string { return "" }
func (*pP646) ProtoMessage()    {}

type pA647 struct {
	F1 MyInt
	F2 uint64
}
type pP647 struct {
	F1 int64  `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 uint64 `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP647) Reset()         { *m = pP647{} }
func (m *pP647) String() string { return "" }
func (*pP647) ProtoMessage()    {}

type pA648 struct {
	F1 MyInt
	F2 int32 `binary:"fixed32"`
}
type pP648 struct {
	F1 int64 `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 int32 `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP648) Reset()         { *m = pP648{} }
func (m *pP648) String() string { return "" }
func (*pP648) ProtoMessage()    {}

type pA649 struct {
	F1 MyInt
	F2 string
}
type pP649 struct {
	F1 int64  `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 string `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP649) Reset()         { *m = pP649{} }
func (m *pP649) String() string { return "" }
func (*pP649) ProtoMessage()    {}

type pA650 struct {
	F1 MyInt
	F2 []byte
}
type pP650 struct {
	F1 int64  `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 []byte `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP650) Reset()         { *m = pP650{} }
func (m *pP650) String() string { return "" }
func (*pP650) ProtoMessage()    {}

type pA651 struct {
	F1 MyInt
	F2 []int
}
type pP651 struct {
	F1 int64   `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP651) Reset()         { *m = pP651{} }
func (m *pP651) String() string { return "" }
func (*pP651) ProtoMessage()    {}

type pA652 struct {
	F1 []int
	F2 MyInt
	F3 string
}
type pP652 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 int64   `protobuf:"varint,2,opt,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP652) Reset()         { *m = pP652{} }
func (m *pP652) String() string { return "" }
func (*pP652) ProtoMessage()    {}

type pA653 struct {
	F1 MyInt
	F2 []string
}
type pP653 struct {
	F1 int64    `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP653) Reset()         { *m = pP653{} }
func (m *pP653) String() string { return "" }
func (*pP653) ProtoMessage()    {}

type pA654 struct {
	F1 []string
	F2 MyInt
	F3 string
}
type pP654 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 int64    `protobuf:"varint,2,opt,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP654) Reset()         { *m = pP654{} }
func (m *pP654) String() string { return "" }
func (*pP654) ProtoMessage()    {}

type pA655 struct {
	F1 MyInt
	F2 time.Time
}
type pP655 struct {
	F1 int64                `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP655) Reset()         { *m = pP655{} }
func (m *pP655) String() string { return "" }
func (*pP655) ProtoMessage()    {}

type pA656 struct {
	F1 MyInt
	F2 *AN1
}
type pP656 struct {
	F1 int64 `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 *PN1  `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP656) Reset()         { *m = pP656{} }
func (m *pP656) String() string { return "" }
func (*pP656) ProtoMessage()    {}

type pA657 struct {
	F1 *AN1
	F2 MyInt
	F3 string
}
type pP657 struct {
	F1 *PN1   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 int64  `protobuf:"varint,2,opt,name=F2,proto3"`
	F3 string `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP657) Reset()         { *m = pP657{} }
func (m *pP657) String() string { return "" }
func (*pP657) ProtoMessage()    {}

type pA658 struct {
	F1 MyInt
	F2 []*AN2
}
type pP658 struct {
	F1 int64  `protobuf:"varint,1,opt,name=F1,proto3"`
	F2 []*PN2 `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP658) Reset()         { *m = pP658{} }
func (m *pP658) String() string { return "" }
func (*pP658) ProtoMessage()    {}

type pA659 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 MyInt
	F18 string
}
type pP659 struct {
	F1  int32  `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32  `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32  `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32  `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32  `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32  `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32  `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32  `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32  `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32  `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32  `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32  `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32  `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32  `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32  `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 int64  `protobuf:"varint,17,opt,name=F17,proto3"`
	F18 string `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP659) Reset()         { *m = pP659{} }
func (m *pP659) String() string { return "" }
func (*pP659) ProtoMessage()    {}

type pA660 struct{ F1 []MyInt }
type pP660 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
}

func (m *pP660) Reset()         { *m = pP660{} }
func (m *pP660) String() string { return "" }
func (*pP660) ProtoMessage()    {}

type pA661 struct {
	F1 []MyInt
	F2 int8
}
type pP661 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 int32   `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP661) Reset()         { *m = pP661{} }
func (m *pP661) String() string { return "" }
func (*pP661) ProtoMessage()    {}

type pA662 struct {
	F1 []MyInt
	F2 uint64
}
type pP662 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 uint64  `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP662) Reset()         { *m = pP662{} }
func (m *pP662) String() string { return "" }
func (*pP662) ProtoMessage()    {}

type pA663 struct {
	F1 []MyInt
	F2 int32 `binary:"fixed32"`
}
type pP663 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 int32   `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP663) Reset()         { *m = pP663{} }
func (m *pP663) String() string { return "" }
func (*pP663) ProtoMessage()    {}

type pA664 struct {
	F1 []MyInt
	F2 string
}
type pP664 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 string  `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP664) Reset()         { *m = pP664{} }
func (m *pP664) String() string { return "" }
func (*pP664) ProtoMessage()    {}

type pA665 struct {
	F1 []MyInt
	F2 []byte
}
type pP665 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []byte  `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP665) Reset()         { *m = pP665{} }
func (m *pP665) String() string { return "" }
func (*pP665) ProtoMessage()    {}

type pA666 struct {
	F1 []MyInt
	F2 []int
}
type pP666 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP666) Reset()         { *m = pP666{} }
func (m *pP666) String() string { return "" }
func (*pP666) ProtoMessage()    {}

type pA667 struct {
	F1 []int
	F2 []MyInt
	F3 string
}
type pP667 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP667) Reset()         { *m = pP667{} }
func (m *pP667) String() string { return "" }
func (*pP667) ProtoMessage()    {}

type pA668 struct {
	F1 []MyInt
	F2 []string
}
type pP668 struct {
	F1 []int64  `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP668) Reset()         { *m = pP668{} }
func (m *pP668) String() string { return "" }
func (*pP668) ProtoMessage()    {}

type pA669 struct {
	F1 []string
	F2 []MyInt
	F3 string
}
type pP669 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []int64  `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP669) Reset()         { *m = pP669{} }
func (m *pP669) String() string { return "" }
func (*pP669) ProtoMessage()    {}

type pA670 struct {
	F1 []MyInt
	F2 time.Time
}
type pP670 struct {
	F1 []int64              `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP670) Reset()         { *m = pP670{} }
func (m *pP670) String() string { return "" }
func (*pP670) ProtoMessage()    {}

type pA671 struct {
	F1 []MyInt
	F2 *AN1
}
type pP671 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 *PN1    `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP671) Reset()         { *m = pP671{} }
func (m *pP671) String() string { return "" }
func (*pP671) ProtoMessage()    {}

type pA672 struct {
	F1 *AN1
	F2 []MyInt
	F3 string
}
type pP672 struct {
	F1 *PN1    `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP672) Reset()         { *m = pP672{} }
func (m *pP672) String() string { return "" }
func (*pP672) ProtoMessage()    {}

type pA673 struct {
	F1 []MyInt
	F2 []*AN2
}
type pP673 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []*PN2  `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP673) Reset()         { *m = pP673{} }
func (m *pP673) String() string { return "" }
func (*pP673) ProtoMessage()    {}

type pA674 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 []MyInt
	F18 string
}
type pP674 struct {
	F1  int32   `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32   `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32   `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32   `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32   `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32   `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32   `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32   `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32   `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32   `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32   `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32   `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32   `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32   `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32   `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32   `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 []int64 `protobuf:"varint,17,rep,packed,name=F17,proto3"`
	F18 string  `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP674) Reset()         { *m = pP674{} }
func (m *pP674) String() string { return "" }
func (*pP674) ProtoMessage()    {}

type pA675 struct{ F1 [2]MyInt }
type pP675 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
}

func (m *pP675) Reset()         { *m = pP675{} }
func (m *pP675) String() string { return "" }
func (*pP675) ProtoMessage()    {}

type pA676 struct {
	F1 [2]MyInt
	F2 int8
}
type pP676 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 int32   `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP676) Reset()         { *m = pP676{} }
func (m *pP676) String() string { return "" }
func (*pP676) ProtoMessage()    {}

type pA677 struct {
	F1 [2]MyInt
	F2 uint64
}
type pP677 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 uint64  `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP677) Reset()         { *m = pP677{} }
func (m *pP677) String() string { return "" }
func (*pP677) ProtoMessage()    {}

type pA678 struct {
	F1 [2]MyInt
	F2 int32 `binary:"fixed32"`
}
type pP678 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 int32   `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP678) Reset()         { *m = pP678{} }
func (m *pP678) String() string { return "" }
func (*pP678) ProtoMessage()    {}

type pA679 struct {
	F1 [2]MyInt
	F2 string
}
type pP679 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 string  `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP679) Reset()         { *m = pP679{} }
func (m *pP679) String() string { return "" }
func (*pP679) ProtoMessage()    {}

type pA680 struct {
	F1 [2]MyInt
	F2 []byte
}
type pP680 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []byte  `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP680) Reset()         { *m = pP680{} }
func (m *pP680) String() string { return "" }
func (*pP680) ProtoMessage()    {}

type pA681 struct {
	F1 [2]MyInt
	F2 []int
}
type pP681 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP681) Reset()         { *m = pP681{} }
func (m *pP681) String() string { return "" }
func (*pP681) ProtoMessage()    {}

type pA682 struct {
	F1 []int
	F2 [2]MyInt
	F3 string
}
type pP682 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP682) Reset()         { *m = pP682{} }
func (m *pP682) String() string { return "" }
func (*pP682) ProtoMessage()    {}

type pA683 struct {
	F1 [2]MyInt
	F2 []string
}
type pP683 struct {
	F1 []int64  `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP683) Reset()         { *m = pP683{} }
func (m *pP683) String() string { return "" }
func (*pP683) ProtoMessage()    {}

type pA684 struct {
	F1 []string
	F2 [2]MyInt
	F3 string
}
type pP684 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []int64  `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP684) Reset()         { *m = pP684{} }
func (m *pP684) String() string { return "" }
func (*pP684) ProtoMessage()    {}

type pA685 struct {
	F1 [2]MyInt
	F2 time.Time
}
type pP685 struct {
	F1 []int64              `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP685) Reset()         { *m = pP685{} }
func (m *pP685) String() string { return "" }
func (*pP685) ProtoMessage()    {}

type pA686 struct {
	F1 [2]MyInt
	F2 *AN1
}
type pP686 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 *PN1    `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP686) Reset()         { *m = pP686{} }
func (m *pP686) String() string { return "" }
func (*pP686) ProtoMessage()    {}

type pA687 struct {
	F1 *AN1
	F2 [2]MyInt
	F3 string
}
type pP687 struct {
	F1 *PN1    `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP687) Reset()         { *m = pP687{} }
func (m *pP687) String() string { return "" }
func (*pP687) ProtoMessage()    {}

type pA688 struct {
	F1 [2]MyInt
	F2 []*AN2
}
type pP688 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []*PN2  `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP688) Reset()         { *m = pP688{} }
func (m *pP688) String() string { return "" }
func (*pP688) ProtoMessage()    {}

type pA689 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 [2]MyInt
	F18 string
}
type pP689 struct {
	F1  int32   `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32   `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32   `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32   `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32   `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32   `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32   `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32   `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32   `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32   `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32   `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32   `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32   `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32   `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32   `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32   `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 []int64 `protobuf:"varint,17,rep,packed,name=F17,proto3"`
	F18 string  `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP689) Reset()         { *m = pP689{} }
func (m *pP689) String() string { return "" }
func (*pP689) ProtoMessage()    {}

type pA690 struct{ F1 string }
type pP690 struct {
	F1 string `protobuf:"bytes,1,opt,name=F1,proto3"`
}

func (m *pP690) Reset()         { *m = pP690{} }
func (m *pP690) String() string { return "" }
func (*pP690) ProtoMessage()    {}

type pA691 struct {
	F1 string
	F2 int8
}
type pP691 struct {
	F1 string `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP691) Reset()         { *m = pP691{} }
func (m *pP691) String() string { return "" }
func (*pP691) ProtoMessage()    {}

type pA692 struct {
	F1 string
	F2 uint64
}
type pP692 struct {
	F1 string `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 uint64 `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP692) Reset()         { *m = pP692{} }
func (m *pP692) String() string { return "" }
func (*pP692) ProtoMessage()    {}

type pA693 struct {
	F1 string
	F2 int32 `binary:"fixed32"`
}
type pP693 struct {
	F1 string `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 int32  `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP693) Reset()         { *m = pP693{} }
func (m *pP693) String() string { return "" }
func (*pP693) ProtoMessage()    {}

type pA694 struct {
	F1 string
	F2 string
}
type pP694 struct {
	F1 string `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 string `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP694) Reset()         { *m = pP694{} }
func (m *pP694) String() string { return "" }
func (*pP694) ProtoMessage()    {}

type pA695 struct {
	F1 string
	F2 []byte
}
type pP695 struct {
	F1 string `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []byte `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP695) Reset()         { *m = pP695{} }
func (m *pP695) String() string { return "" }
func (*pP695) ProtoMessage()    {}

type pA696 struct {
	F1 string
	F2 []int
}
type pP696 struct {
	F1 string  `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP696) Reset()         { *m = pP696{} }
func (m *pP696) String() string { return "" }
func (*pP696) ProtoMessage()    {}

type pA697 struct {
	F1 []int
	F2 string
	F3 string
}
type pP697 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 string  `protobuf:"bytes,2,opt,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP697) Reset()         { *m = pP697{} }
func (m *pP697) String() string { return "" }
func (*pP697) ProtoMessage()    {}

type pA698 struct {
	F1 string
	F2 []string
}
type pP698 struct {
	F1 string   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP698) Reset()         { *m = pP698{} }
func (m *pP698) String() string { return "" }
func (*pP698) ProtoMessage()    {}

type pA699 struct {
	F1 []string
	F2 string
	F3 string
}
type pP699 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 string   `protobuf:"bytes,2,opt,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP699) Reset()         { *m = pP699{} }
func (m *pP699) String() string { return "" }
func (*pP699) ProtoMessage()    {}

type pA700 struct {
	F1 string
	F2 time.Time
}
type pP700 struct {
	F1 string               `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP700) Reset()         { *m = pP700{} }
func (m *pP700) String() string { return "" }
func (*pP700) ProtoMessage()    {}

type pA701 struct {
	F1 string
	F2 *AN1
}
type pP701 struct {
	F1 string `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 *PN1   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP701) Reset()         { *m = pP701{} }
func (m *pP701) String() string { return "" }
func (*pP701) ProtoMessage()    {}

type pA702 struct {
	F1 *AN1
	F2 string
	F3 string
}
type pP702 struct {
	F1 *PN1   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 string `protobuf:"bytes,2,opt,name=F2,proto3"`
	F3 string `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP702) Reset()         { *m = pP702{} }
func (m *pP702) String() string { return "" }
func (*pP702) ProtoMessage()    {}

type pA703 struct {
	F1 string
	F2 []*AN2
}
type pP703 struct {
	F1 string `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []*PN2 `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP703) Reset()         { *m = pP703{} }
func (m *pP703) String() string { return "" }
func (*pP703) ProtoMessage()    {}

type pA704 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 string
	F18 string
}
type pP704 struct {
	F1  int32  `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32  `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32  `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32  `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32  `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32  `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32  `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32  `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32  `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32  `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32  `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32  `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32  `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32  `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32  `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 string `protobuf:"bytes,17,opt,name=F17,proto3"`
	F18 string `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP704) Reset()         { *m = pP704{} }
func (m *pP704) String() string { return "" }
func (*pP704) ProtoMessage()    {}

type pA705 struct{ F1 []string }
type pP705 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
}

func (m *pP705) Reset()         { *m = pP705{} }
func (m *pP705) String() string { return "" }
func (*pP705) ProtoMessage()    {}

type pA706 struct {
	F1 []string
	F2 int8
}
type pP706 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 int32    `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP706) Reset()         { *m = pP706{} }
func (m *pP706) String() string { return "" }
func (*pP706) ProtoMessage()    {}

type pA707 struct {
	F1 []string
	F2 uint64
}
type pP707 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 uint64   `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP707) Reset()         { *m = pP707{} }
func (m *pP707) String() string { return "" }
func (*pP707) ProtoMessage()    {}

type pA708 struct {
	F1 []string
	F2 int32 `binary:"fixed32"`
}
type pP708 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 int32    `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP708) Reset()         { *m = pP708{} }
func (m *pP708) String() string { return "" }
func (*pP708) ProtoMessage()    {}

type pA709 struct {
	F1 []string
	F2 string
}
type pP709 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 string   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP709) Reset()         { *m = pP709{} }
func (m *pP709) String() string { return "" }
func (*pP709) ProtoMessage()    {}

type pA710 struct {
	F1 []string
	F2 []byte
}
type pP710 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []byte   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP710) Reset()         { *m = pP710{} }
func (m *pP710) String() string { return "" }
func (*pP710) ProtoMessage()    {}

type pA711 struct {
	F1 []string
	F2 []int
}
type pP711 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []int64  `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP711) Reset()         { *m = pP711{} }
func (m *pP711) String() string { return "" }
func (*pP711) ProtoMessage()    {}

type pA712 struct {
	F1 []int
	F2 []string
	F3 string
}
type pP712 struct {
	F1 []int64  `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP712) Reset()         { *m = pP712{} }
func (m *pP712) String() string { return "" }
func (*pP712) ProtoMessage()    {}

type pA713 struct {
	F1 []string
	F2 []string
}
type pP713 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP713) Reset()         { *m = pP713{} }
func (m *pP713) String() string { return "" }
func (*pP713) ProtoMessage()    {}

type pA714 struct {
	F1 []string
	F2 []string
	F3 string
}
type pP714 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP714) Reset()         { *m = pP714{} }
func (m *pP714) String() string { return "" }
func (*pP714) ProtoMessage()    {}

type pA715 struct {
	F1 []string
	F2 time.Time
}
type pP715 struct {
	F1 []string             `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP715) Reset()         { *m = pP715{} }
func (m *pP715) String() string { return "" }
func (*pP715) ProtoMessage()    {}

type pA716 struct {
	F1 []string
	F2 *AN1
}
type pP716 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 *PN1     `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP716) Reset()         { *m = pP716{} }
func (m *pP716) String() string { return "" }
func (*pP716) ProtoMessage()    {}

type pA717 struct {
	F1 *AN1
	F2 []string
	F3 string
}
type pP717 struct {
	F1 *PN1     `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP717) Reset()         { *m = pP717{} }
func (m *pP717) String() string { return "" }
func (*pP717) ProtoMessage()    {}

type pA718 struct {
	F1 []string
	F2 []*AN2
}
type pP718 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []*PN2   `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP718) Reset()         { *m = pP718{} }
func (m *pP718) String() string { return "" }
func (*pP718) ProtoMessage()    {}

type pA719 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 []string
	F18 string
}
type pP719 struct {
	F1  int32    `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32    `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32    `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32    `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32    `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32    `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32    `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32    `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32    `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32    `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32    `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32    `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32    `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32    `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32    `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32    `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 []string `protobuf:"bytes,17,rep,name=F17,proto3"`
	F18 string   `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP719) Reset()         { *m = pP719{} }
func (m *pP719) String() string { return "" }
func (*pP719) ProtoMessage()    {}

type pA720 struct{ F1 [2]string }
type pP720 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
}

func (m *pP720) Reset()         { *m = pP720{} }
func (m *pP720) String() string { return "" }
func (*pP720) ProtoMessage()    {}

type pA721 struct {
	F1 [2]string
	F2 int8
}
type pP721 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 int32    `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP721) Reset()         { *m = pP721{} }
func (m *pP721) String() string { return "" }
func (*pP721) ProtoMessage()    {}

type pA722 struct {
	F1 [2]string
	F2 uint64
}
type pP722 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 uint64   `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP722) Reset()         { *m = pP722{} }
func (m *pP722) String() string { return "" }
func (*pP722) ProtoMessage()    {}

type pA723 struct {
	F1 [2]string
	F2 int32 `binary:"fixed32"`
}
type pP723 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 int32    `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP723) Reset()         { *m = pP723{} }
func (m *pP723) String() string { return "" }
func (*pP723) ProtoMessage()    {}

type pA724 struct {
	F1 [2]string
	F2 string
}
type pP724 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 string   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP724) Reset()         { *m = pP724{} }
func (m *pP724) String() string { return "" }
func (*pP724) ProtoMessage()    {}

type pA725 struct {
	F1 [2]string
	F2 []byte
}
type pP725 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []byte   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP725) Reset()         { *m = pP725{} }
func (m *pP725) String() string { return "" }
func (*pP725) ProtoMessage()    {}

type pA726 struct {
	F1 [2]string
	F2 []int
}
type pP726 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []int64  `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP726) Reset()         { *m = pP726{} }
func (m *pP726) String() string { return "" }
func (*pP726) ProtoMessage()    {}

type pA727 struct {
	F1 []int
	F2 [2]string
	F3 string
}
type pP727 struct {
	F1 []int64  `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP727) Reset()         { *m = pP727{} }
func (m *pP727) String() string { return "" }
func (*pP727) ProtoMessage()    {}

type pA728 struct {
	F1 [2]string
	F2 []string
}
type pP728 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP728) Reset()         { *m = pP728{} }
func (m *pP728) String() string { return "" }
func (*pP728) ProtoMessage()    {}

type pA729 struct {
	F1 []string
	F2 [2]string
	F3 string
}
type pP729 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP729) Reset()         { *m = pP729{} }
func (m *pP729) String() string { return "" }
func (*pP729) ProtoMessage()    {}

type pA730 struct {
	F1 [2]string
	F2 time.Time
}
type pP730 struct {
	F1 []string             `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP730) Reset()         { *m = pP730{} }
func (m *pP730) String() string { return "" }
func (*pP730) ProtoMessage()    {}

type pA731 struct {
	F1 [2]string
	F2 *AN1
}
type pP731 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 *PN1     `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP731) Reset()         { *m = pP731{} }
func (m *pP731) String() string { return "" }
func (*pP731) ProtoMessage()    {}

type pA732 struct {
	F1 *AN1
	F2 [2]string
	F3 string
}
type pP732 struct {
	F1 *PN1     `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP732) Reset()         { *m = pP732{} }
func (m *pP732) String() string { return "" }
func (*pP732) ProtoMessage()    {}

type pA733 struct {
	F1 [2]string
	F2 []*AN2
}
type pP733 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []*PN2   `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP733) Reset()         { *m = pP733{} }
func (m *pP733) String() string { return "" }
func (*pP733) ProtoMessage()    {}

type pA734 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 [2]string
	F18 string
}
type pP734 struct {
	F1  int32    `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32    `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32    `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32    `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32    `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32    `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32    `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32    `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32    `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32    `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32    `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32    `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32    `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32    `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32    `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32    `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 []string `protobuf:"bytes,17,rep,name=F17,proto3"`
	F18 string   `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP734) Reset()         { *m = pP734{} }
func (m *pP734) String() string { return "" }
func (*pP734) ProtoMessage()    {}

type pA735 struct{ F1 MyString }
type pP735 struct {
	F1 string `protobuf:"bytes,1,opt,name=F1,proto3"`
}

func (m *pP735) Reset()         { *m = pP735{} }
func (m *pP735) String() string { return "" }
func (*pP735) ProtoMessage()    {}

type pA736 struct {
	F1 MyString
	F2 int8
}
type pP736 struct {
	F1 string `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP736) Reset()         { *m = pP736{} }
func (m *pP736) String() string { return "" }
func (*pP736) ProtoMessage()    {}

type pA737 struct {
	F1 MyString
	F2 uint64
}
type pP737 struct {
	F1 string `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 uint64 `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP737) Reset()         { *m = pP737{} }
func (m *pP737) String() string { return "" }
func (*pP737) ProtoMessage()    {}

type pA738 struct {
	F1 MyString
	F2 int32 `binary:"fixed32"`
}
type pP738 struct {
	F1 string `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 int32  `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP738) Reset()         { *m = pP738{} }
func (m *pP738) String() string { return "" }
func (*pP738) ProtoMessage()    {}

type pA739 struct {
	F1 MyString
	F2 string
}
type pP739 struct {
	F1 string `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 string `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP739) Reset()         { *m = pP739{} }
func (m *pP739) String() string { return "" }
func (*pP739) ProtoMessage()    {}

type pA740 struct {
	F1 MyString
	F2 []byte
}
type pP740 struct {
	F1 string `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []byte `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP740) Reset()         { *m = pP740{} }
func (m *pP740) String() string { return "" }
func (*pP740) ProtoMessage()    {}

type pA741 struct {
	F1 MyString
	F2 []int
}
type pP741 struct {
	F1 string  `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP741) Reset()         { *m = pP741{} }
func (m *pP741) String() string { return "" }
func (*pP741) ProtoMessage()    {}

type pA742 struct {
	F1 []int
	F2 MyString
	F3 string
}
type pP742 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 string  `protobuf:"bytes,2,opt,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP742) Reset()         { *m = pP742{} }
func (m *pP742) String() string { return "" }
func (*pP742) ProtoMessage()    {}

type pA743 struct {
	F1 MyString
	F2 []string
}
type pP743 struct {
	F1 string   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP743) Reset()         { *m = pP743{} }
func (m *pP743) String() string { return "" }
func (*pP743) ProtoMessage()    {}

type pA744 struct {
	F1 []string
	F2 MyString
	F3 string
}
type pP744 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 string   `protobuf:"bytes,2,opt,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP744) Reset()         { *m = pP744{} }
func (m *pP744) String() string { return "" }
func (*pP744) ProtoMessage()    {}

type pA745 struct {
	F1 MyString
	F2 time.Time
}
type pP745 struct {
	F1 string               `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP745) Reset()         { *m = pP745{} }
func (m *pP745) String() string { return "" }
func (*pP745) ProtoMessage()    {}

type pA746 struct {
	F1 MyString
	F2 *AN1
}
type pP746 struct {
	F1 string `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 *PN1   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP746) Reset()         { *m = pP746{} }
func (m *pP746) String() string { return "" }
func (*pP746) ProtoMessage()    {}

type pA747 struct {
	F1 *AN1
	F2 MyString
	F3 string
}
type pP747 struct {
	F1 *PN1   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 string `protobuf:"bytes,2,opt,name=F2,proto3"`
	F3 string `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP747) Reset()         { *m = pP747{} }
func (m *pP747) String() string { return "" }
func (*pP747) ProtoMessage()    {}

type pA748 struct {
	F1 MyString
	F2 []*AN2
}
type pP748 struct {
	F1 string `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []*PN2 `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP748) Reset()         { *m = pP748{} }
func (m *pP748) String() string { return "" }
func (*pP748) ProtoMessage()    {}

type pA749 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 MyString
	F18 string
}
type pP749 struct {
	F1  int32  `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32  `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32  `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32  `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32  `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32  `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32  `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32  `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32  `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32  `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32  `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32  `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32  `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32  `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32  `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 string `protobuf:"bytes,17,opt,name=F17,proto3"`
	F18 string `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP749) Reset()         { *m = pP749{} }
func (m *pP749) String() string { return "" }
func (*pP749) ProtoMessage()    {}

type pA750 struct{ F1 []MyString }
type pP750 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
}

func (m *pP750) Reset()         { *m = pP750{} }
func (m *pP750) String() string { return "" }
func (*pP750) ProtoMessage()    {}

type pA751 struct {
	F1 []MyString
	F2 int8
}
type pP751 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 int32    `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP751) Reset()         { *m = pP751{} }
func (m *pP751) String() string { return "" }
func (*pP751) ProtoMessage()    {}

type pA752 struct {
	F1 []MyString
	F2 uint64
}
type pP752 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 uint64   `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP752) Reset()         { *m = pP752{} }
func (m *pP752) String() string { return "" }
func (*pP752) ProtoMessage()    {}

type pA753 struct {
	F1 []MyString
	F2 int32 `binary:"fixed32"`
}
type pP753 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 int32    `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP753) Reset()         { *m = pP753{} }
func (m *pP753) String() string { return "" }
func (*pP753) ProtoMessage()    {}

type pA754 struct {
	F1 []MyString
	F2 string
}
type pP754 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 string   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP754) Reset()         { *m = pP754{} }
func (m *pP754) String() string { return "" }
func (*pP754) ProtoMessage()    {}

type pA755 struct {
	F1 []MyString
	F2 []byte
}
type pP755 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []byte   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP755) Reset()         { *m = pP755{} }
func (m *pP755) String() string { return "" }
func (*pP755) ProtoMessage()    {}

type pA756 struct {
	F1 []MyString
	F2 []int
}
type pP756 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []int64  `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP756) Reset()         { *m = pP756{} }
func (m *pP756) String() string { return "" }
func (*pP756) ProtoMessage()    {}

type pA757 struct {
	F1 []int
	F2 []MyString
	F3 string
}
type pP757 struct {
	F1 []int64  `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP757) Reset()         { *m = pP757{} }
func (m *pP757) String() string { return "" }
func (*pP757) ProtoMessage()    {}

type pA758 struct {
	F1 []MyString
	F2 []string
}
type pP758 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP758) Reset()         { *m = pP758{} }
func (m *pP758) String() string { return "" }
func (*pP758) ProtoMessage()    {}

type pA759 struct {
	F1 []string
	F2 []MyString
	F3 string
}
type pP759 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP759) Reset()         { *m = pP759{} }
func (m *pP759) String() string { return "" }
func (*pP759) ProtoMessage()    {}

type pA760 struct {
	F1 []MyString
	F2 time.Time
}
type pP760 struct {
	F1 []string             `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP760) Reset()         { *m = pP760{} }
func (m *pP760) String() string { return "" }
func (*pP760) ProtoMessage()    {}

type pA761 struct {
	F1 []MyString
	F2 *AN1
}
type pP761 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 *PN1     `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP761) Reset()         { *m = pP761{} }
func (m *pP761) String() string { return "" }
func (*pP761) ProtoMessage()    {}

type pA762 struct {
	F1 *AN1
	F2 []MyString
	F3 string
}
type pP762 struct {
	F1 *PN1     `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP762) Reset()         { *m = pP762{} }
func (m *pP762) String() string { return "" }
func (*pP762) ProtoMessage()    {}

type pA763 struct {
	F1 []MyString
	F2 []*AN2
}
type pP763 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []*PN2   `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP763) Reset()         { *m = pP763{} }
func (m *pP763) String() string { return "" }
func (*pP763) ProtoMessage()    {}

type pA764 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 []MyString
	F18 string
}
type pP764 struct {
	F1  int32    `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32    `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32    `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32    `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32    `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32    `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32    `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32    `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32    `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32    `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32    `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32    `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32    `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32    `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32    `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32    `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 []string `protobuf:"bytes,17,rep,name=F17,proto3"`
	F18 string   `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP764) Reset()         { *m = pP764{} }
func (m *pP764) String() string { return "" }
func (*pP764) ProtoMessage()    {}

type pA765 struct{ F1 []byte }
type pP765 struct {
	F1 []byte `protobuf:"bytes,1,opt,name=F1,proto3"`
}

func (m *pP765) Reset()         { *m = pP765{} }
func (m *pP765) String() string { return "" }
func (*pP765) ProtoMessage()    {}

type pA766 struct {
	F1 []byte
	F2 int8
}
type pP766 struct {
	F1 []byte `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP766) Reset()         { *m = pP766{} }
func (m *pP766) String() string { return "" }
func (*pP766) ProtoMessage()    {}

type pA767 struct {
	F1 []byte
	F2 uint64
}
type pP767 struct {
	F1 []byte `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 uint64 `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP767) Reset()         { *m = pP767{} }
func (m *pP767) String() string { return "" }
func (*pP767) ProtoMessage()    {}

type pA768 struct {
	F1 []byte
	F2 int32 `binary:"fixed32"`
}
type pP768 struct {
	F1 []byte `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 int32  `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP768) Reset()         { *m = pP768{} }
func (m *pP768) String() string { return "" }
func (*pP768) ProtoMessage()    {}

type pA769 struct {
	F1 []byte
	F2 string
}
type pP769 struct {
	F1 []byte `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 string `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP769) Reset()         { *m = pP769{} }
func (m *pP769) String() string { return "" }
func (*pP769) ProtoMessage()    {}

type pA770 struct {
	F1 []byte
	F2 []byte
}
type pP770 struct {
	F1 []byte `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []byte `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP770) Reset()         { *m = pP770{} }
func (m *pP770) String() string { return "" }
func (*pP770) ProtoMessage()    {}

type pA771 struct {
	F1 []byte
	F2 []int
}
type pP771 struct {
	F1 []byte  `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP771) Reset()         { *m = pP771{} }
func (m *pP771) String() string { return "" }
func (*pP771) ProtoMessage()    {}

type pA772 struct {
	F1 []int
	F2 []byte
	F3 string
}
type pP772 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []byte  `protobuf:"bytes,2,opt,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP772) Reset()         { *m = pP772{} }
func (m *pP772) String() string { return "" }
func (*pP772) ProtoMessage()    {}

type pA773 struct {
	F1 []byte
	F2 []string
}
type pP773 struct {
	F1 []byte   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP773) Reset()         { *m = pP773{} }
func (m *pP773) String() string { return "" }
func (*pP773) ProtoMessage()    {}

type pA774 struct {
	F1 []string
	F2 []byte
	F3 string
}
type pP774 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []byte   `protobuf:"bytes,2,opt,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP774) Reset()         { *m = pP774{} }
func (m *pP774) String() string { return "" }
func (*pP774) ProtoMessage()    {}

type pA775 struct {
	F1 []byte
	F2 time.Time
}
type pP775 struct {
	F1 []byte               `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP775) Reset()         { *m = pP775{} }
func (m *pP775) String() string { return "" }
func (*pP775) ProtoMessage()    {}

type pA776 struct {
	F1 []byte
	F2 *AN1
}
type pP776 struct {
	F1 []byte `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 *PN1   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP776) Reset()         { *m = pP776{} }
func (m *pP776) String() string { return "" }
func (*pP776) ProtoMessage()    {}

type pA777 struct {
	F1 *AN1
	F2 []byte
	F3 string
}
type pP777 struct {
	F1 *PN1   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []byte `protobuf:"bytes,2,opt,name=F2,proto3"`
	F3 string `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP777) Reset()         { *m = pP777{} }
func (m *pP777) String() string { return "" }
func (*pP777) ProtoMessage()    {}

type pA778 struct {
	F1 []byte
	F2 []*AN2
}
type pP778 struct {
	F1 []byte `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []*PN2 `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP778) Reset()         { *m = pP778{} }
func (m *pP778) String() string { return "" }
func (*pP778) ProtoMessage()    {}

type pA779 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 []byte
	F18 string
}
type pP779 struct {
	F1  int32  `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32  `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32  `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32  `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32  `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32  `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32  `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32  `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32  `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32  `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32  `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32  `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32  `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32  `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32  `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 []byte `protobuf:"bytes,17,opt,name=F17,proto3"`
	F18 string `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP779) Reset()         { *m = pP779{} }
func (m *pP779) String() string { return "" }
func (*pP779) ProtoMessage()    {}

type pA780 struct{ F1 [][]byte }
type pP780 struct {
	F1 [][]byte `protobuf:"bytes,1,rep,name=F1,proto3"`
}

func (m *pP780) Reset()         { *m = pP780{} }
func (m *pP780) String() string { return "" }
func (*pP780) ProtoMessage()    {}

type pA781 struct {
	F1 [][]byte
	F2 int8
}
type pP781 struct {
	F1 [][]byte `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 int32    `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP781) Reset()         { *m = pP781{} }
func (m *pP781) String() string { return "" }
func (*pP781) ProtoMessage()    {}

type pA782 struct {
	F1 [][]byte
	F2 uint64
}
type pP782 struct {
	F1 [][]byte `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 uint64   `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP782) Reset()         { *m = pP782{} }
func (m *pP782) String() string { return "" }
func (*pP782) ProtoMessage()    {}

type pA783 struct {
	F1 [][]byte
	F2 int32 `binary:"fixed32"`
}
type pP783 struct {
	F1 [][]byte `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 int32    `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP783) Reset()         { *m = pP783{} }
func (m *pP783) String() string { return "" }
func (*pP783) ProtoMessage()    {}

type pA784 struct {
	F1 [][]byte
	F2 string
}
type pP784 struct {
	F1 [][]byte `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 string   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP784) Reset()         { *m = pP784{} }
func (m *pP784) String() string { return "" }
func (*pP784) ProtoMessage()    {}

type pA785 struct {
	F1 [][]byte
	F2 []byte
}
type pP785 struct {
	F1 [][]byte `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []byte   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP785) Reset()         { *m = pP785{} }
func (m *pP785) String() string { return "" }
func (*pP785) ProtoMessage()    {}

type pA786 struct {
	F1 [][]byte
	F2 []int
}
type pP786 struct {
	F1 [][]byte `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []int64  `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP786) Reset()         { *m = pP786{} }
func (m *pP786) String() string { return "" }
func (*pP786) ProtoMessage()    {}

type pA787 struct {
	F1 []int
	F2 [][]byte
	F3 string
}
type pP787 struct {
	F1 []int64  `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 [][]byte `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP787) Reset()         { *m = pP787{} }
func (m *pP787) String() string { return "" }
func (*pP787) ProtoMessage()    {}

type pA788 struct {
	F1 [][]byte
	F2 []string
}
type pP788 struct {
	F1 [][]byte `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP788) Reset()         { *m = pP788{} }
func (m *pP788) String() string { return "" }
func (*pP788) ProtoMessage()    {}

type pA789 struct {
	F1 []string
	F2 [][]byte
	F3 string
}
type pP789 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 [][]byte `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP789) Reset()         { *m = pP789{} }
func (m *pP789) String() string { return "" }
func (*pP789) ProtoMessage()    {}

type pA790 struct {
	F1 [][]byte
	F2 time.Time
}
type pP790 struct {
	F1 [][]byte             `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP790) Reset()         { *m = pP790{} }
func (m *pP790) String() string { return "" }
func (*pP790) ProtoMessage()    {}

type pA791 struct {
	F1 [][]byte
	F2 *AN1
}
type pP791 struct {
	F1 [][]byte `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 *PN1     `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP791) Reset()         { *m = pP791{} }
func (m *pP791) String() string { return "" }
func (*pP791) ProtoMessage()    {}

type pA792 struct {
	F1 *AN1
	F2 [][]byte
	F3 string
}
type pP792 struct {
	F1 *PN1     `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 [][]byte `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP792) Reset()         { *m = pP792{} }
func (m *pP792) String() string { return "" }
func (*pP792) ProtoMessage()    {}

type pA793 struct {
	F1 [][]byte
	F2 []*AN2
}
type pP793 struct {
	F1 [][]byte `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []*PN2   `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP793) Reset()         { *m = pP793{} }
func (m *pP793) String() string { return "" }
func (*pP793) ProtoMessage()    {}

type pA794 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 [][]byte
	F18 string
}
type pP794 struct {
	F1  int32    `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32    `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32    `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32    `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32    `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32    `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32    `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32    `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32    `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32    `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32    `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32    `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32    `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32    `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32    `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32    `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 [][]byte `protobuf:"bytes,17,rep,name=F17,proto3"`
	F18 string   `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP794) Reset()         { *m = pP794{} }
func (m *pP794) String() string { return "" }
func (*pP794) ProtoMessage()    {}

type pA795 struct{ F1 [2][]byte }
type pP795 struct {
	F1 [][]byte `protobuf:"bytes,1,rep,name=F1,proto3"`
}

func (m *pP795) Reset()         { *m = pP795{} }
func (m *pP795) String() string { return "" }
func (*pP795) ProtoMessage()    {}

type pA796 struct {
	F1 [2][]byte
	F2 int8
}
type pP796 struct {
	F1 [][]byte `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 int32    `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP796) Reset()         { *m = pP796{} }
func (m *pP796) String() string { return "" }
func (*pP796) ProtoMessage()    {}

type pA797 struct {
	F1 [2][]byte
	F2 uint64
}
type pP797 struct {
	F1 [][]byte `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 uint64   `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP797) Reset()         { *m = pP797{} }
func (m *pP797) String() string { return "" }
func (*pP797) ProtoMessage()    {}

type pA798 struct {
	F1 [2][]byte
	F2 int32 `binary:"fixed32"`
}
type pP798 struct {
	F1 [][]byte `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 int32    `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP798) Reset()         { *m = pP798{} }
func (m *pP798) String() string { return "" }
func (*pP798) ProtoMessage()    {}

type pA799 struct {
	F1 [2][]byte
	F2 string
}
type pP799 struct {
	F1 [][]byte `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 string   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP799) Reset()         { *m = pP799{} }
func (m *pP799) String() string { return "" }
func (*pP799) ProtoMessage()    {}

type pA800 struct {
	F1 [2][]byte
	F2 []byte
}
type pP800 struct {
	F1 [][]byte `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []byte   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP800) Reset()         { *m = pP800{} }
func (m *pP800) String() string { return "" }
func (*pP800) ProtoMessage()    {}

type pA801 struct {
	F1 [2][]byte
	F2 []int
}
type pP801 struct {
	F1 [][]byte `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []int64  `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP801) Reset()         { *m = pP801{} }
func (m *pP801) String() string { return "" }
func (*pP801) ProtoMessage()    {}

type pA802 struct {
	F1 []int
	F2 [2][]byte
	F3 string
}
type pP802 struct {
	F1 []int64  `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 [][]byte `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP802) Reset()         { *m = pP802{} }
func (m *pP802) String() string { return "" }
func (*pP802) ProtoMessage()    {}

type pA803 struct {
	F1 [2][]byte
	F2 []string
}
type pP803 struct {
	F1 [][]byte `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP803) Reset()         { *m = pP803{} }
func (m *pP803) String() string { return "" }
func (*pP803) ProtoMessage()    {}

type pA804 struct {
	F1 []string
	F2 [2][]byte
	F3 string
}
type pP804 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 [][]byte `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP804) Reset()         { *m = pP804{} }
func (m *pP804) String() string { return "" }
func (*pP804) ProtoMessage()    {}

type pA805 struct {
	F1 [2][]byte
	F2 time.Time
}
type pP805 struct {
	F1 [][]byte             `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP805) Reset()         { *m = pP805{} }
func (m *pP805) String() string { return "" }
func (*pP805) ProtoMessage()    {}

type pA806 struct {
	F1 [2][]byte
	F2 *AN1
}
type pP806 struct {
	F1 [][]byte `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 *PN1     `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP806) Reset()         { *m = pP806{} }
func (m *pP806) String() string { return "" }
func (*pP806) ProtoMessage()    {}

type pA807 struct {
	F1 *AN1
	F2 [2][]byte
	F3 string
}
type pP807 struct {
	F1 *PN1     `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 [][]byte `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP807) Reset()         { *m = pP807{} }
func (m *pP807) String() string { return "" }
func (*pP807) ProtoMessage()    {}

type pA808 struct {
	F1 [2][]byte
	F2 []*AN2
}
type pP808 struct {
	F1 [][]byte `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []*PN2   `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP808) Reset()         { *m = pP808{} }
func (m *pP808) String() string { return "" }
func (*pP808) ProtoMessage()    {}

type pA809 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 [2][]byte
	F18 string
}
type pP809 struct {
	F1  int32    `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32    `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32    `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32    `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32    `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32    `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32    `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32    `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32    `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32    `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32    `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32    `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32    `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32    `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32    `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32    `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 [][]byte `protobuf:"bytes,17,rep,name=F17,proto3"`
	F18 string   `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP809) Reset()         { *m = pP809{} }
func (m *pP809) String() string { return "" }
func (*pP809) ProtoMessage()    {}

type pA810 struct{ F1 MyBytes }
type pP810 struct {
	F1 []byte `protobuf:"bytes,1,opt,name=F1,proto3"`
}

func (m *pP810) Reset()         { *m = pP810{} }
func (m *pP810) String() string { return "" }
func (*pP810) ProtoMessage()    {}

type pA811 struct {
	F1 MyBytes
	F2 int8
}
type pP811 struct {
	F1 []byte `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP811) Reset()         { *m = pP811{} }
func (m *pP811) String() string { return "" }
func (*pP811) ProtoMessage()    {}

type pA812 struct {
	F1 MyBytes
	F2 uint64
}
type pP812 struct {
	F1 []byte `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 uint64 `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP812) Reset()         { *m = pP812{} }
func (m *pP812) String() string { return "" }
func (*pP812) ProtoMessage()    {}

type pA813 struct {
	F1 MyBytes
	F2 int32 `binary:"fixed32"`
}
type pP813 struct {
	F1 []byte `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 int32  `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP813) Reset()         { *m = pP813{} }
func (m *pP813) String() string { return "" }
func (*pP813) ProtoMessage()    {}

type pA814 struct {
	F1 MyBytes
	F2 string
}
type pP814 struct {
	F1 []byte `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 string `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP814) Reset()         { *m = pP814{} }
func (m *pP814) String() string { return "" }
func (*pP814) ProtoMessage()    {}

type pA815 struct {
	F1 MyBytes
	F2 []byte
}
type pP815 struct {
	F1 []byte `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []byte `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP815) Reset()         { *m = pP815{} }
func (m *pP815) String() string { return "" }
func (*pP815) ProtoMessage()    {}

type pA816 struct {
	F1 MyBytes
	F2 []int
}
type pP816 struct {
	F1 []byte  `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP816) Reset()         { *m = pP816{} }
func (m *pP816) String() string { return "" }
func (*pP816) ProtoMessage()    {}

type pA817 struct {
	F1 []int
	F2 MyBytes
	F3 string
}
type pP817 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []byte  `protobuf:"bytes,2,opt,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP817) Reset()         { *m = pP817{} }
func (m *pP817) String() string { return "" }
func (*pP817) ProtoMessage()    {}

type pA818 struct {
	F1 MyBytes
	F2 []string
}
type pP818 struct {
	F1 []byte   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP818) Reset()         { *m = pP818{} }
func (m *pP818) String() string { return "" }
func (*pP818) ProtoMessage()    {}

type pA819 struct {
	F1 []string
	F2 MyBytes
	F3 string
}
type pP819 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []byte   `protobuf:"bytes,2,opt,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP819) Reset()         { *m = pP819{} }
func (m *pP819) String() string { return "" }
func (*pP819) ProtoMessage()    {}

type pA820 struct {
	F1 MyBytes
	F2 time.Time
}
type pP820 struct {
	F1 []byte               `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP820) Reset()         { *m = pP820{} }
func (m *pP820) String() string { return "" }
func (*pP820) ProtoMessage()    {}

type pA821 struct {
	F1 MyBytes
	F2 *AN1
}
type pP821 struct {
	F1 []byte `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 *PN1   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP821) Reset()         { *m = pP821{} }
func (m *pP821) String() string { return "" }
func (*pP821) ProtoMessage()    {}

type pA822 struct {
	F1 *AN1
	F2 MyBytes
	F3 string
}
type pP822 struct {
	F1 *PN1   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []byte `protobuf:"bytes,2,opt,name=F2,proto3"`
	F3 string `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP822) Reset()         { *m = pP822{} }
func (m *pP822) String() string { return "" }
func (*pP822) ProtoMessage()    {}

type pA823 struct {
	F1 MyBytes
	F2 []*AN2
}
type pP823 struct {
	F1 []byte `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []*PN2 `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP823) Reset()         { *m = pP823{} }
func (m *pP823) String() string { return "" }
func (*pP823) ProtoMessage()    {}

type pA824 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 MyBytes
	F18 string
}
type pP824 struct {
	F1  int32  `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32  `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32  `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32  `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32  `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32  `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32  `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32  `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32  `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32  `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32  `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32  `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32  `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32  `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32  `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 []byte `protobuf:"bytes,17,opt,name=F17,proto3"`
	F18 string `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP824) Reset()         { *m = pP824{} }
func (m *pP824) String() string { return "" }
func (*pP824) ProtoMessage()    {}

type pA825 struct{ F1 []MyBytes }
type pP825 struct {
	F1 [][]byte `protobuf:"bytes,1,rep,name=F1,proto3"`
}

func (m *pP825) Reset()         { *m = pP825{} }
func (m *pP825) String() string { return "" }
func (*pP825) ProtoMessage()    {}

type pA826 struct {
	F1 []MyBytes
	F2 int8
}
type pP826 struct {
	F1 [][]byte `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 int32    `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP826) Reset()         { *m = pP826{} }
func (m *pP826) String() string { return "" }
func (*pP826) ProtoMessage()    {}

type pA827 struct {
	F1 []MyBytes
	F2 uint64
}
type pP827 struct {
	F1 [][]byte `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 uint64   `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP827) Reset()         { *m = pP827{} }
func (m *pP827) String() string { return "" }
func (*pP827) ProtoMessage()    {}

type pA828 struct {
	F1 []MyBytes
	F2 int32 `binary:"fixed32"`
}
type pP828 struct {
	F1 [][]byte `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 int32    `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP828) Reset()         { *m = pP828{} }
func (m *pP828) String() string { return "" }
func (*pP828) ProtoMessage()    {}

type pA829 struct {
	F1 []MyBytes
	F2 string
}
type pP829 struct {
	F1 [][]byte `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 string   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP829) Reset()         { *m = pP829{} }
func (m *pP829) String() string { return "" }
func (*pP829) ProtoMessage()    {}

type pA830 struct {
	F1 []MyBytes
	F2 []byte
}
type pP830 struct {
	F1 [][]byte `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []byte   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP830) Reset()         { *m = pP830{} }
func (m *pP830) String() string { return "" }
func (*pP830) ProtoMessage()    {}

type pA831 struct {
	F1 []MyBytes
	F2 []int
}
type pP831 struct {
	F1 [][]byte `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []int64  `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP831) Reset()         { *m = pP831{} }
func (m *pP831) String() string { return "" }
func (*pP831) ProtoMessage()    {}

type pA832 struct {
	F1 []int
	F2 []MyBytes
	F3 string
}
type pP832 struct {
	F1 []int64  `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 [][]byte `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP832) Reset()         { *m = pP832{} }
func (m *pP832) String() string { return "" }
func (*pP832) ProtoMessage()    {}

type pA833 struct {
	F1 []MyBytes
	F2 []string
}
type pP833 struct {
	F1 [][]byte `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP833) Reset()         { *m = pP833{} }
func (m *pP833) String() string { return "" }
func (*pP833) ProtoMessage()    {}

type pA834 struct {
	F1 []string
	F2 []MyBytes
	F3 string
}
type pP834 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 [][]byte `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP834) Reset()         { *m = pP834{} }
func (m *pP834) String() string { return "" }
func (*pP834) ProtoMessage()    {}

type pA835 struct {
	F1 []MyBytes
	F2 time.Time
}
type pP835 struct {
	F1 [][]byte             `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP835) Reset()         { *m = pP835{} }
func (m *pP835) String() string { return "" }
func (*pP835) ProtoMessage()    {}

type pA836 struct {
	F1 []MyBytes
	F2 *AN1
}
type pP836 struct {
	F1 [][]byte `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 *PN1     `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP836) Reset()         { *m = pP836{} }
func (m *pP836) String() string { return "" }
func (*pP836) ProtoMessage()    {}

type pA837 struct {
	F1 *AN1
	F2 []MyBytes
	F3 string
}
type pP837 struct {
	F1 *PN1     `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 [][]byte `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP837) Reset()         { *m = pP837{} }
func (m *pP837) String() string { return "" }
func (*pP837) ProtoMessage()    {}

type pA838 struct {
	F1 []MyBytes
	F2 []*AN2
}
type pP838 struct {
	F1 [][]byte `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []*PN2   `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP838) Reset()         { *m = pP838{} }
func (m *pP838) String() string { return "" }
func (*pP838) ProtoMessage()    {}

type pA839 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 []MyBytes
	F18 string
}
type pP839 struct {
	F1  int32    `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32    `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32    `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32    `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32    `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32    `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32    `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32    `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32    `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32    `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32    `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32    `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32    `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32    `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32    `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32    `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 [][]byte `protobuf:"bytes,17,rep,name=F17,proto3"`
	F18 string   `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP839) Reset()         { *m = pP839{} }
func (m *pP839) String() string { return "" }
func (*pP839) ProtoMessage()    {}

type pA840 struct{ F1 [3]byte }
type pP840 struct {
	F1 []byte `protobuf:"bytes,1,opt,name=F1,proto3"`
}

func (m *pP840) Reset()         { *m = pP840{} }
func (m *pP840) String() string { return "" }
func (*pP840) ProtoMessage()    {}

type pA841 struct {
	F1 [3]byte
	F2 int8
}
type pP841 struct {
	F1 []byte `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP841) Reset()         { *m = pP841{} }
func (m *pP841) String() string { return "" }
func (*pP841) ProtoMessage()    {}

type pA842 struct {
	F1 [3]byte
	F2 uint64
}
type pP842 struct {
	F1 []byte `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 uint64 `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP842) Reset()         { *m = pP842{} }
func (m *pP842) String() string { return "" }
func (*pP842) ProtoMessage()    {}

type pA843 struct {
	F1 [3]byte
	F2 int32 `binary:"fixed32"`
}
type pP843 struct {
	F1 []byte `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 int32  `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP843) Reset()         { *m = pP843{} }
func (m *pP843) String() string { return "" }
func (*pP843) ProtoMessage()    {}

type pA844 struct {
	F1 [3]byte
	F2 string
}
type pP844 struct {
	F1 []byte `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 string `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP844) Reset()         { *m = pP844{} }
func (m *pP844) String() string { return "" }
func (*pP844) ProtoMessage()    {}

type pA845 struct {
	F1 [3]byte
	F2 []byte
}
type pP845 struct {
	F1 []byte `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []byte `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP845) Reset()         { *m = pP845{} }
func (m *pP845) String() string { return "" }
func (*pP845) ProtoMessage()    {}

type pA846 struct {
	F1 [3]byte
	F2 []int
}
type pP846 struct {
	F1 []byte  `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP846) Reset()         { *m = pP846{} }
func (m *pP846) String() string { return "" }
func (*pP846) ProtoMessage()    {}

type pA847 struct {
	F1 []int
	F2 [3]byte
	F3 string
}
type pP847 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []byte  `protobuf:"bytes,2,opt,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP847) Reset()         { *m = pP847{} }
func (m *pP847) String() string { return "" }
func (*pP847) ProtoMessage()    {}

type pA848 struct {
	F1 [3]byte
	F2 []string
}
type pP848 struct {
	F1 []byte   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP848) Reset()         { *m = pP848{} }
func (m *pP848) String() string { return "" }
func (*pP848) ProtoMessage()    {}

type pA849 struct {
	F1 []string
	F2 [3]byte
	F3 string
}
type pP849 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []byte   `protobuf:"bytes,2,opt,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP849) Reset()         { *m = pP849{} }
func (m *pP849) String() string { return "" }
func (*pP849) ProtoMessage()    {}

type pA850 struct {
	F1 [3]byte
	F2 time.Time
}
type pP850 struct {
	F1 []byte               `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP850) Reset()         { *m = pP850{} }
func (m *pP850) String() string { return "" }
func (*pP850) ProtoMessage()    {}

type pA851 struct {
	F1 [3]byte
	F2 *AN1
}
type pP851 struct {
	F1 []byte `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 *PN1   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP851) Reset()         { *m = pP851{} }
func (m *pP851) String() string { return "" }
func (*pP851) ProtoMessage()    {}

type pA852 struct {
	F1 *AN1
	F2 [3]byte
	F3 string
}
type pP852 struct {
	F1 *PN1   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []byte `protobuf:"bytes,2,opt,name=F2,proto3"`
	F3 string `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP852) Reset()         { *m = pP852{} }
func (m *pP852) String() string { return "" }
func (*pP852) ProtoMessage()    {}

type pA853 struct {
	F1 [3]byte
	F2 []*AN2
}
type pP853 struct {
	F1 []byte `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []*PN2 `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP853) Reset()         { *m = pP853{} }
func (m *pP853) String() string { return "" }
func (*pP853) ProtoMessage()    {}

type pA854 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 [3]byte
	F18 string
}
type pP854 struct {
	F1  int32  `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32  `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32  `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32  `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32  `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32  `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32  `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32  `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32  `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32  `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32  `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32  `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32  `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32  `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32  `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 []byte `protobuf:"bytes,17,opt,name=F17,proto3"`
	F18 string `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP854) Reset()         { *m = pP854{} }
func (m *pP854) String() string { return "" }
func (*pP854) ProtoMessage()    {}

type pA855 struct{ F1 [][3]byte }
type pP855 struct {
	F1 [][]byte `protobuf:"bytes,1,rep,name=F1,proto3"`
}

func (m *pP855) Reset()         { *m = pP855{} }
func (m *pP855) String() string { return "" }
func (*pP855) ProtoMessage()    {}

type pA856 struct {
	F1 [][3]byte
	F2 int8
}
type pP856 struct {
	F1 [][]byte `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 int32    `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP856) Reset()         { *m = pP856{} }
func (m *pP856) String() string { return "" }
func (*pP856) ProtoMessage()    {}

type pA857 struct {
	F1 [][3]byte
	F2 uint64
}
type pP857 struct {
	F1 [][]byte `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 uint64   `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP857) Reset()         { *m = pP857{} }
func (m *pP857) String() string { return "" }
func (*pP857) ProtoMessage()    {}

type pA858 struct {
	F1 [][3]byte
	F2 int32 `binary:"fixed32"`
}
type pP858 struct {
	F1 [][]byte `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 int32    `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP858) Reset()         { *m = pP858{} }
func (m *pP858) String() string { return "" }
func (*pP858) ProtoMessage()    {}

type pA859 struct {
	F1 [][3]byte
	F2 string
}
type pP859 struct {
	F1 [][]byte `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 string   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP859) Reset()         { *m = pP859{} }
func (m *pP859) String() string { return "" }
func (*pP859) ProtoMessage()    {}

type pA860 struct {
	F1 [][3]byte
	F2 []byte
}
type pP860 struct {
	F1 [][]byte `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []byte   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP860) Reset()         { *m = pP860{} }
func (m *pP860) String() string { return "" }
func (*pP860) ProtoMessage()    {}

type pA861 struct {
	F1 [][3]byte
	F2 []int
}
type pP861 struct {
	F1 [][]byte `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []int64  `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP861) Reset()         { *m = pP861{} }
func (m *pP861) String() string { return "" }
func (*pP861) ProtoMessage()    {}

type pA862 struct {
	F1 []int
	F2 [][3]byte
	F3 string
}
type pP862 struct {
	F1 []int64  `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 [][]byte `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP862) Reset()         { *m = pP862{} }
func (m *pP862) String() string { return "" }
func (*pP862) ProtoMessage()    {}

type pA863 struct {
	F1 [][3]byte
	F2 []string
}
type pP863 struct {
	F1 [][]byte `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP863) Reset()         { *m = pP863{} }
func (m *pP863) String() string { return "" }
func (*pP863) ProtoMessage()    {}

type pA864 struct {
	F1 []string
	F2 [][3]byte
	F3 string
}
type pP864 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 [][]byte `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP864) Reset()         { *m = pP864{} }
func (m *pP864) String() string { return "" }
func (*pP864) ProtoMessage()    {}

type pA865 struct {
	F1 [][3]byte
	F2 time.Time
}
type pP865 struct {
	F1 [][]byte             `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP865) Reset()         { *m = pP865{} }
func (m *pP865) String() string { return "" }
func (*pP865) ProtoMessage()    {}

type pA866 struct {
	F1 [][3]byte
	F2 *AN1
}
type pP866 struct {
	F1 [][]byte `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 *PN1     `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP866) Reset()         { *m = pP866{} }
func (m *pP866) String() string { return "" }
func (*pP866) ProtoMessage()    {}

type pA867 struct {
	F1 *AN1
	F2 [][3]byte
	F3 string
}
type pP867 struct {
	F1 *PN1     `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 [][]byte `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP867) Reset()         { *m = pP867{} }
func (m *pP867) String() string { return "" }
func (*pP867) ProtoMessage()    {}

type pA868 struct {
	F1 [][3]byte
	F2 []*AN2
}
type pP868 struct {
	F1 [][]byte `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []*PN2   `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP868) Reset()         { *m = pP868{} }
func (m *pP868) String() string { return "" }
func (*pP868) ProtoMessage()    {}

type pA869 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 [][3]byte
	F18 string
}
type pP869 struct {
	F1  int32    `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32    `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32    `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32    `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32    `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32    `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32    `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32    `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32    `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32    `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32    `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32    `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32    `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32    `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32    `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32    `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 [][]byte `protobuf:"bytes,17,rep,name=F17,proto3"`
	F18 string   `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP869) Reset()         { *m = pP869{} }
func (m *pP869) String() string { return "" }
func (*pP869) ProtoMessage()    {}

type pA870 struct{ F1 time.Time }
type pP870 struct {
	F1 *timestamp.Timestamp `protobuf:"bytes,1,opt,name=F1,proto3"`
}

func (m *pP870) Reset()         { *m = pP870{} }
func (m *pP870) String() string { return "" }
func (*pP870) ProtoMessage()    {}

type pA871 struct {
	F1 time.Time
	F2 int8
}
type pP871 struct {
	F1 *timestamp.Timestamp `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 int32                `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP871) Reset()         { *m = pP871{} }
func (m *pP871) String() string { return "" }
func (*pP871) ProtoMessage()    {}

type pA872 struct {
	F1 time.Time
	F2 uint64
}
type pP872 struct {
	F1 *timestamp.Timestamp `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 uint64               `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP872) Reset()         { *m = pP872{} }
func (m *pP872) String() string { return "" }
func (*pP872) ProtoMessage()    {}

type pA873 struct {
	F1 time.Time
	F2 int32 `binary:"fixed32"`
}
type pP873 struct {
	F1 *timestamp.Timestamp `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 int32                `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP873) Reset()         { *m = pP873{} }
func (m *pP873) String() string { return "" }
func (*pP873) ProtoMessage()    {}

type pA874 struct {
	F1 time.Time
	F2 string
}
type pP874 struct {
	F1 *timestamp.Timestamp `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 string               `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP874) Reset()         { *m = pP874{} }
func (m *pP874) String() string { return "" }
func (*pP874) ProtoMessage()    {}

type pA875 struct {
	F1 time.Time
	F2 []byte
}
type pP875 struct {
	F1 *timestamp.Timestamp `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []byte               `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP875) Reset()         { *m = pP875{} }
func (m *pP875) String() string { return "" }
func (*pP875) ProtoMessage()    {}

type pA876 struct {
	F1 time.Time
	F2 []int
}
type pP876 struct {
	F1 *timestamp.Timestamp `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []int64              `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP876) Reset()         { *m = pP876{} }
func (m *pP876) String() string { return "" }
func (*pP876) ProtoMessage()    {}

type pA877 struct {
	F1 []int
	F2 time.Time
	F3 string
}
type pP877 struct {
	F1 []int64              `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
	F3 string               `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP877) Reset()         { *m = pP877{} }
func (m *pP877) String() string { return "" }
func (*pP877) ProtoMessage()    {}

type pA878 struct {
	F1 time.Time
	F2 []string
}
type pP878 struct {
	F1 *timestamp.Timestamp `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []string             `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP878) Reset()         { *m = pP878{} }
func (m *pP878) String() string { return "" }
func (*pP878) ProtoMessage()    {}

type pA879 struct {
	F1 []string
	F2 time.Time
	F3 string
}
type pP879 struct {
	F1 []string             `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
	F3 string               `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP879) Reset()         { *m = pP879{} }
func (m *pP879) String() string { return "" }
func (*pP879) ProtoMessage()    {}

type pA880 struct {
	F1 time.Time
	F2 time.Time
}
type pP880 struct {
	F1 *timestamp.Timestamp `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP880) Reset()         { *m = pP880{} }
func (m *pP880) String() string { return "" }
func (*pP880) ProtoMessage()    {}

type pA881 struct {
	F1 time.Time
	F2 *AN1
}
type pP881 struct {
	F1 *timestamp.Timestamp `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 *PN1                 `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP881) Reset()         { *m = pP881{} }
func (m *pP881) String() string { return "" }
func (*pP881) ProtoMessage()    {}

type pA882 struct {
	F1 *AN1
	F2 time.Time
	F3 string
}
type pP882 struct {
	F1 *PN1                 `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
	F3 string               `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP882) Reset()         { *m = pP882{} }
func (m *pP882) String() string { return "" }
func (*pP882) ProtoMessage()    {}

type pA883 struct {
	F1 time.Time
	F2 []*AN2
}
type pP883 struct {
	F1 *timestamp.Timestamp `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []*PN2               `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP883) Reset()         { *m = pP883{} }
func (m *pP883) String() string { return "" }
func (*pP883) ProtoMessage()    {}

type pA884 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 time.Time
	F18 string
}
type pP884 struct {
	F1  int32                `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32                `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32                `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32                `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32                `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32                `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32                `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32                `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32                `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32                `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32                `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32                `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32                `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32                `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32                `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32                `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 *timestamp.Timestamp `protobuf:"bytes,17,opt,name=F17,proto3"`
	F18 string               `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP884) Reset()         { *m = pP884{} }
func (m *pP884) String() string { return "" }
func (*pP884) ProtoMessage()    {}

type pA885 struct{ F1 []time.Time }
type pP885 struct {
	F1 []*timestamp.Timestamp `protobuf:"bytes,1,rep,name=F1,proto3"`
}

func (m *pP885) Reset()         { *m = pP885{} }
func (m *pP885) String() string { return "" }
func (*pP885) ProtoMessage()    {}

type pA886 struct {
	F1 []time.Time
	F2 int8
}
type pP886 struct {
	F1 []*timestamp.Timestamp `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 int32                  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP886) Reset()         { *m = pP886{} }
func (m *pP886) String() string { return "" }
func (*pP886) ProtoMessage()    {}

type pA887 struct {
	F1 []time.Time
	F2 uint64
}
type pP887 struct {
	F1 []*timestamp.Timestamp `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 uint64                 `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP887) Reset()         { *m = pP887{} }
func (m *pP887) String() string { return "" }
func (*pP887) ProtoMessage()    {}

type pA888 struct {
	F1 []time.Time
	F2 int32 `binary:"fixed32"`
}
type pP888 struct {
	F1 []*timestamp.Timestamp `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 int32                  `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP888) Reset()         { *m = pP888{} }
func (m *pP888) String() string { return "" }
func (*pP888) ProtoMessage()    {}

type pA889 struct {
	F1 []time.Time
	F2 string
}
type pP889 struct {
	F1 []*timestamp.Timestamp `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 string                 `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP889) Reset()         { *m = pP889{} }
func (m *pP889) String() string { return "" }
func (*pP889) ProtoMessage()    {}

type pA890 struct {
	F1 []time.Time
	F2 []byte
}
type pP890 struct {
	F1 []*timestamp.Timestamp `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []byte                 `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP890) Reset()         { *m = pP890{} }
func (m *pP890) String() string { return "" }
func (*pP890) ProtoMessage()    {}

type pA891 struct {
	F1 []time.Time
	F2 []int
}
type pP891 struct {
	F1 []*timestamp.Timestamp `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []int64                `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP891) Reset()         { *m = pP891{} }
func (m *pP891) String() string { return "" }
func (*pP891) ProtoMessage()    {}

type pA892 struct {
	F1 []int
	F2 []time.Time
	F3 string
}
type pP892 struct {
	F1 []int64                `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []*timestamp.Timestamp `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string                 `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP892) Reset()         { *m = pP892{} }
func (m *pP892) String() string { return "" }
func (*pP892) ProtoMessage()    {}

type pA893 struct {
	F1 []time.Time
	F2 []string
}
type pP893 struct {
	F1 []*timestamp.Timestamp `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []string               `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP893) Reset()         { *m = pP893{} }
func (m *pP893) String() string { return "" }
func (*pP893) ProtoMessage()    {}

type pA894 struct {
	F1 []string
	F2 []time.Time
	F3 string
}
type pP894 struct {
	F1 []string               `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []*timestamp.Timestamp `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string                 `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP894) Reset()         { *m = pP894{} }
func (m *pP894) String() string { return "" }
func (*pP894) ProtoMessage()    {}

type pA895 struct {
	F1 []time.Time
	F2 time.Time
}
type pP895 struct {
	F1 []*timestamp.Timestamp `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 *timestamp.Timestamp   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP895) Reset()         { *m = pP895{} }
func (m *pP895) String() string { return "" }
func (*pP895) ProtoMessage()    {}

type pA896 struct {
	F1 []time.Time
	F2 *AN1
}
type pP896 struct {
	F1 []*timestamp.Timestamp `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 *PN1                   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP896) Reset()         { *m = pP896{} }
func (m *pP896) String() string { return "" }
func (*pP896) ProtoMessage()    {}

type pA897 struct {
	F1 *AN1
	F2 []time.Time
	F3 string
}
type pP897 struct {
	F1 *PN1                   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []*timestamp.Timestamp `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string                 `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP897) Reset()         { *m = pP897{} }
func (m *pP897) String() string { return "" }
func (*pP897) ProtoMessage()    {}

type pA898 struct {
	F1 []time.Time
	F2 []*AN2
}
type pP898 struct {
	F1 []*timestamp.Timestamp `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []*PN2                 `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP898) Reset()         { *m = pP898{} }
func (m *pP898) String() string { return "" }
func (*pP898) ProtoMessage()    {}

type pA899 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 []time.Time
	F18 string
}
type pP899 struct {
	F1  int32                  `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32                  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32                  `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32                  `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32                  `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32                  `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32                  `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32                  `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32                  `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32                  `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32                  `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32                  `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32                  `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32                  `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32                  `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32                  `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 []*timestamp.Timestamp `protobuf:"bytes,17,rep,name=F17,proto3"`
	F18 string                 `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP899) Reset()         { *m = pP899{} }
func (m *pP899) String() string { return "" }
func (*pP899) ProtoMessage()    {}

type pA900 struct{ F1 [2]time.Time }
type pP900 struct {
	F1 []*timestamp.Timestamp `protobuf:"bytes,1,rep,name=F1,proto3"`
}

func (m *pP900) Reset()         { *m = pP900{} }
func (m *pP900) String() string { return "" }
func (*pP900) ProtoMessage()    {}

type pA901 struct {
	F1 [2]time.Time
	F2 int8
}
type pP901 struct {
	F1 []*timestamp.Timestamp `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 int32                  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP901) Reset()         { *m = pP901{} }
func (m *pP901) String() string { return "" }
func (*pP901) ProtoMessage()    {}

type pA902 struct {
	F1 [2]time.Time
	F2 uint64
}
type pP902 struct {
	F1 []*timestamp.Timestamp `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 uint64                 `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP902) Reset()         { *m = pP902{} }
func (m *pP902) String() string { return "" }
func (*pP902) ProtoMessage()    {}

type pA903 struct {
	F1 [2]time.Time
	F2 int32 `binary:"fixed32"`
}
type pP903 struct {
	F1 []*timestamp.Timestamp `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 int32                  `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP903) Reset()         { *m = pP903{} }
func (m *pP903) String() string { return "" }
func (*pP903) ProtoMessage()    {}

type pA904 struct {
	F1 [2]time.Time
	F2 string
}
type pP904 struct {
	F1 []*timestamp.Timestamp `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 string                 `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP904) Reset()         { *m = pP904{} }
func (m *pP904) String() string { return "" }
func (*pP904) ProtoMessage()    {}

type pA905 struct {
	F1 [2]time.Time
	F2 []byte
}
type pP905 struct {
	F1 []*timestamp.Timestamp `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []byte                 `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP905) Reset()         { *m = pP905{} }
func (m *pP905) String() string { return "" }
func (*pP905) ProtoMessage()    {}

type pA906 struct {
	F1 [2]time.Time
	F2 []int
}
type pP906 struct {
	F1 []*timestamp.Timestamp `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []int64                `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP906) Reset()         { *m = pP906{} }
func (m *pP906) String() string { return "" }
func (*pP906) ProtoMessage()    {}

type pA907 struct {
	F1 []int
	F2 [2]time.Time
	F3 string
}
type pP907 struct {
	F1 []int64                `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []*timestamp.Timestamp `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string                 `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP907) Reset()         { *m = pP907{} }
func (m *pP907) String() string { return "" }
func (*pP907) ProtoMessage()    {}

type pA908 struct {
	F1 [2]time.Time
	F2 []string
}
type pP908 struct {
	F1 []*timestamp.Timestamp `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []string               `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP908) Reset()         { *m = pP908{} }
func (m *pP908) String() string { return "" }
func (*pP908) ProtoMessage()    {}

type pA909 struct {
	F1 []string
	F2 [2]time.Time
	F3 string
}
type pP909 struct {
	F1 []string               `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []*timestamp.Timestamp `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string                 `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP909) Reset()         { *m = pP909{} }
func (m *pP909) String() string { return "" }
func (*pP909) ProtoMessage()    {}

type pA910 struct {
	F1 [2]time.Time
	F2 time.Time
}
type pP910 struct {
	F1 []*timestamp.Timestamp `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 *timestamp.Timestamp   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP910) Reset()         { *m = pP910{} }
func (m *pP910) String() string { return "" }
func (*pP910) ProtoMessage()    {}

type pA911 struct {
	F1 [2]time.Time
	F2 *AN1
}
type pP911 struct {
	F1 []*timestamp.Timestamp `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 *PN1                   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP911) Reset()         { *m = pP911{} }
func (m *pP911) String() string { return "" }
func (*pP911) ProtoMessage()    {}

type pA912 struct {
	F1 *AN1
	F2 [2]time.Time
	F3 string
}
type pP912 struct {
	F1 *PN1                   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []*timestamp.Timestamp `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string                 `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP912) Reset()         { *m = pP912{} }
func (m *pP912) String() string { return "" }
func (*pP912) ProtoMessage()    {}

type pA913 struct {
	F1 [2]time.Time
	F2 []*AN2
}
type pP913 struct {
	F1 []*timestamp.Timestamp `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []*PN2                 `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP913) Reset()         { *m = pP913{} }
func (m *pP913) String() string { return "" }
func (*pP913) ProtoMessage()    {}

type pA914 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 [2]time.Time
	F18 string
}
type pP914 struct {
	F1  int32                  `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32                  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32                  `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32                  `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32                  `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32                  `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32                  `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32                  `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32                  `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32                  `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32                  `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32                  `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32                  `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32                  `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32                  `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32                  `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 []*timestamp.Timestamp `protobuf:"bytes,17,rep,name=F17,proto3"`
	F18 string                 `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP914) Reset()         { *m = pP914{} }
func (m *pP914) String() string { return "" }
func (*pP914) ProtoMessage()    {}

type pA915 struct{ F1 *time.Time }
type pP915 struct {
	F1 *timestamp.Timestamp `protobuf:"bytes,1,opt,name=F1,proto3"`
}

func (m *pP915) Reset()         { *m = pP915{} }
func (m *pP915) String() string { return "" }
func (*pP915) ProtoMessage()    {}

type pA916 struct {
	F1 *time.Time
	F2 int8
}
type pP916 struct {
	F1 *timestamp.Timestamp `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 int32                `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP916) Reset()         { *m = pP916{} }
func (m *pP916) String() string { return "" }
func (*pP916) ProtoMessage()    {}

type pA917 struct {
	F1 *time.Time
	F2 uint64
}
type pP917 struct {
	F1 *timestamp.Timestamp `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 uint64               `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP917) Reset()         { *m = pP917{} }
func (m *pP917) String() string { return "" }
func (*pP917) ProtoMessage()    {}

type pA918 struct {
	F1 *time.Time
	F2 int32 `binary:"fixed32"`
}
type pP918 struct {
	F1 *timestamp.Timestamp `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 int32                `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP918) Reset()         { *m = pP918{} }
func (m *pP918) String() string { return "" }
func (*pP918) ProtoMessage()    {}

type pA919 struct {
	F1 *time.Time
	F2 string
}
type pP919 struct {
	F1 *timestamp.Timestamp `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 string               `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP919) Reset()         { *m = pP919{} }
func (m *pP919) String() string { return "" }
func (*pP919) ProtoMessage()    {}

type pA920 struct {
	F1 *time.Time
	F2 []byte
}
type pP920 struct {
	F1 *timestamp.Timestamp `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []byte               `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP920) Reset()         { *m = pP920{} }
func (m *pP920) String() string { return "" }
func (*pP920) ProtoMessage()    {}

type pA921 struct {
	F1 *time.Time
	F2 []int
}
type pP921 struct {
	F1 *timestamp.Timestamp `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []int64              `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP921) Reset()         { *m = pP921{} }
func (m *pP921) String() string { return "" }
func (*pP921) ProtoMessage()    {}

type pA922 struct {
	F1 []int
	F2 *time.Time
	F3 string
}
type pP922 struct {
	F1 []int64              `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
	F3 string               `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP922) Reset()         { *m = pP922{} }
func (m *pP922) String() string { return "" }
func (*pP922) ProtoMessage()    {}

type pA923 struct {
	F1 *time.Time
	F2 []string
}
type pP923 struct {
	F1 *timestamp.Timestamp `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []string             `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP923) Reset()         { *m = pP923{} }
func (m *pP923) String() string { return "" }
func (*pP923) ProtoMessage()    {}

type pA924 struct {
	F1 []string
	F2 *time.Time
	F3 string
}
type pP924 struct {
	F1 []string             `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
	F3 string               `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP924) Reset()         { *m = pP924{} }
func (m *pP924) String() string { return "" }
func (*pP924) ProtoMessage()    {}

type pA925 struct {
	F1 *time.Time
	F2 time.Time
}
type pP925 struct {
	F1 *timestamp.Timestamp `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP925) Reset()         { *m = pP925{} }
func (m *pP925) String() string { return "" }
func (*pP925) ProtoMessage()    {}

type pA926 struct {
	F1 *time.Time
	F2 *AN1
}
type pP926 struct {
	F1 *timestamp.Timestamp `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 *PN1                 `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP926) Reset()         { *m = pP926{} }
func (m *pP926) String() string { return "" }
func (*pP926) ProtoMessage()    {}

type pA927 struct {
	F1 *AN1
	F2 *time.Time
	F3 string
}
type pP927 struct {
	F1 *PN1                 `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
	F3 string               `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP927) Reset()         { *m = pP927{} }
func (m *pP927) String() string { return "" }
func (*pP927) ProtoMessage()    {}

type pA928 struct {
	F1 *time.Time
	F2 []*AN2
}
type pP928 struct {
	F1 *timestamp.Timestamp `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []*PN2               `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP928) Reset()         { *m = pP928{} }
func (m *pP928) String() string { return "" }
func (*pP928) ProtoMessage()    {}

type pA929 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 *time.Time
	F18 string
}
type pP929 struct {
	F1  int32                `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32                `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32                `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32                `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32                `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32                `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32                `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32                `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32                `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32                `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32                `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32                `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32                `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32                `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32                `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32                `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 *timestamp.Timestamp `protobuf:"bytes,17,opt,name=F17,proto3"`
	F18 string               `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP929) Reset()         { *m = pP929{} }
func (m *pP929) String() string { return "" }
func (*pP929) ProtoMessage()    {}

type pA930 struct{ F1 []*time.Time }
type pP930 struct {
	F1 []*timestamp.Timestamp `protobuf:"bytes,1,rep,name=F1,proto3"`
}

func (m *pP930) Reset()         { *m = pP930{} }
func (m *pP930) String() string { return "" }
func (*pP930) ProtoMessage()    {}

type pA931 struct {
	F1 []*time.Time
	F2 int8
}
type pP931 struct {
	F1 []*timestamp.Timestamp `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 int32                  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP931) Reset()         { *m = pP931{} }
func (m *pP931) String() string { return "" }
func (*pP931) ProtoMessage()    {}

type pA932 struct {
	F1 []*time.Time
	F2 uint64
}
type pP932 struct {
	F1 []*timestamp.Timestamp `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 uint64                 `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP932) Reset()         { *m = pP932{} }
func (m *pP932) String() string { return "" }
func (*pP932) ProtoMessage()    {}

type pA933 struct {
	F1 []*time.Time
	F2 int32 `binary:"fixed32"`
}
type pP933 struct {
	F1 []*timestamp.Timestamp `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 int32                  `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP933) Reset()         { *m = pP933{} }
func (m *pP933) String() string { return "" }
func (*pP933) ProtoMessage()    {}

type pA934 struct {
	F1 []*time.Time
	F2 string
}
type pP934 struct {
	F1 []*timestamp.Timestamp `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 string                 `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP934) Reset()         { *m = pP934{} }
func (m *pP934) String() string { return "" }
func (*pP934) ProtoMessage()    {}

type pA935 struct {
	F1 []*time.Time
	F2 []byte
}
type pP935 struct {
	F1 []*timestamp.Timestamp `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []byte                 `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP935) Reset()         { *m = pP935{} }
func (m *pP935) String() string { return "" }
func (*pP935) ProtoMessage()    {}

type pA936 struct {
	F1 []*time.Time
	F2 []int
}
type pP936 struct {
	F1 []*timestamp.Timestamp `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []int64                `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP936) Reset()         { *m = pP936{} }
func (m *pP936) String() string { return "" }
func (*pP936) ProtoMessage()    {}

type pA937 struct {
	F1 []int
	F2 []*time.Time
	F3 string
}
type pP937 struct {
	F1 []int64                `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []*timestamp.Timestamp `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string                 `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP937) Reset()         { *m = pP937{} }
func (m *pP937) String() string { return "" }
func (*pP937) ProtoMessage()    {}

type pA938 struct {
	F1 []*time.Time
	F2 []string
}
type pP938 struct {
	F1 []*timestamp.Timestamp `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []string               `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP938) Reset()         { *m = pP938{} }
func (m *pP938) String() string { return "" }
func (*pP938) ProtoMessage()    {}

type pA939 struct {
	F1 []string
	F2 []*time.Time
	F3 string
}
type pP939 struct {
	F1 []string               `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []*timestamp.Timestamp `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string                 `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP939) Reset()         { *m = pP939{} }
func (m *pP939) String() string { return "" }
func (*pP939) ProtoMessage()    {}

type pA940 struct {
	F1 []*time.Time
	F2 time.Time
}
type pP940 struct {
	F1 []*timestamp.Timestamp `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 *timestamp.Timestamp   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP940) Reset()         { *m = pP940{} }
func (m *pP940) String() string { return "" }
func (*pP940) ProtoMessage()    {}

type pA941 struct {
	F1 []*time.Time
	F2 *AN1
}
type pP941 struct {
	F1 []*timestamp.Timestamp `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 *PN1                   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP941) Reset()         { *m = pP941{} }
func (m *pP941) String() string { return "" }
func (*pP941) ProtoMessage()    {}

type pA942 struct {
	F1 *AN1
	F2 []*time.Time
	F3 string
}
type pP942 struct {
	F1 *PN1                   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []*timestamp.Timestamp `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string                 `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP942) Reset()         { *m = pP942{} }
func (m *pP942) String() string { return "" }
func (*pP942) ProtoMessage()    {}

type pA943 struct {
	F1 []*time.Time
	F2 []*AN2
}
type pP943 struct {
	F1 []*timestamp.Timestamp `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []*PN2                 `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP943) Reset()         { *m = pP943{} }
func (m *pP943) String() string { return "" }
func (*pP943) ProtoMessage()    {}

type pA944 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 []*time.Time
	F18 string
}
type pP944 struct {
	F1  int32                  `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32                  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32                  `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32                  `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32                  `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32                  `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32                  `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32                  `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32                  `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32                  `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32                  `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32                  `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32                  `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32                  `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32                  `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32                  `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 []*timestamp.Timestamp `protobuf:"bytes,17,rep,name=F17,proto3"`
	F18 string                 `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP944) Reset()         { *m = pP944{} }
func (m *pP944) String() string { return "" }
func (*pP944) ProtoMessage()    {}

type pA945 struct{ F1 AN1 }
type pP945 struct {
	F1 *PN1 `protobuf:"bytes,1,opt,name=F1,proto3"`
}

func (m *pP945) Reset()         { *m = pP945{} }
func (m *pP945) String() string { return "" }
func (*pP945) ProtoMessage()    {}

type pA946 struct {
	F1 AN1
	F2 int8
}
type pP946 struct {
	F1 *PN1  `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 int32 `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP946) Reset()         { *m = pP946{} }
func (m *pP946) String() string { return "" }
func (*pP946) ProtoMessage()    {}

type pA947 struct {
	F1 AN1
	F2 uint64
}
type pP947 struct {
	F1 *PN1   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 uint64 `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP947) Reset()         { *m = pP947{} }
func (m *pP947) String() string { return "" }
func (*pP947) ProtoMessage()    {}

type pA948 struct {
	F1 AN1
	F2 int32 `binary:"fixed32"`
}
type pP948 struct {
	F1 *PN1  `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 int32 `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP948) Reset()         { *m = pP948{} }
func (m *pP948) String() string { return "" }
func (*pP948) ProtoMessage()    {}

type pA949 struct {
	F1 AN1
	F2 string
}
type pP949 struct {
	F1 *PN1   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 string `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP949) Reset()         { *m = pP949{} }
func (m *pP949) String() string { return "" }
func (*pP949) ProtoMessage()    {}

type pA950 struct {
	F1 AN1
	F2 []byte
}
type pP950 struct {
	F1 *PN1   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []byte `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP950) Reset()         { *m = pP950{} }
func (m *pP950) String() string { return "" }
func (*pP950) ProtoMessage()    {}

type pA951 struct {
	F1 AN1
	F2 []int
}
type pP951 struct {
	F1 *PN1    `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP951) Reset()         { *m = pP951{} }
func (m *pP951) String() string { return "" }
func (*pP951) ProtoMessage()    {}

type pA952 struct {
	F1 []int
	F2 AN1
	F3 string
}
type pP952 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 *PN1    `protobuf:"bytes,2,opt,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP952) Reset()         { *m = pP952{} }
func (m *pP952) String() string { return "" }
func (*pP952) ProtoMessage()    {}

type pA953 struct {
	F1 AN1
	F2 []string
}
type pP953 struct {
	F1 *PN1     `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP953) Reset()         { *m = pP953{} }
func (m *pP953) String() string { return "" }
func (*pP953) ProtoMessage()    {}

type pA954 struct {
	F1 []string
	F2 AN1
	F3 string
}
type pP954 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 *PN1     `protobuf:"bytes,2,opt,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP954) Reset()         { *m = pP954{} }
func (m *pP954) String() string { return "" }
func (*pP954) ProtoMessage()    {}

type pA955 struct {
	F1 AN1
	F2 time.Time
}
type pP955 struct {
	F1 *PN1                 `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP955) Reset()         { *m = pP955{} }
func (m *pP955) String() string { return "" }
func (*pP955) ProtoMessage()    {}

type pA956 struct {
	F1 AN1
	F2 *AN1
}
type pP956 struct {
	F1 *PN1 `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 *PN1 `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP956) Reset()         { *m = pP956{} }
func (m *pP956) String() string { return "" }
func (*pP956) ProtoMessage()    {}

type pA957 struct {
	F1 *AN1
	F2 AN1
	F3 string
}
type pP957 struct {
	F1 *PN1   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 *PN1   `protobuf:"bytes,2,opt,name=F2,proto3"`
	F3 string `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP957) Reset()         { *m = pP957{} }
func (m *pP957) String() string { return "" }
func (*pP957) ProtoMessage()    {}

type pA958 struct {
	F1 AN1
	F2 []*AN2
}
type pP958 struct {
	F1 *PN1   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []*PN2 `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP958) Reset()         { *m = pP958{} }
func (m *pP958) String() string { return "" }
func (*pP958) ProtoMessage()    {}

type pA959 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 AN1
	F18 string
}
type pP959 struct {
	F1  int32  `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32  `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32  `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32  `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32  `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32  `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32  `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32  `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32  `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32  `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32  `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32  `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32  `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32  `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32  `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 *PN1   `protobuf:"bytes,17,opt,name=F17,proto3"`
	F18 string `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP959) Reset()         { *m = pP959{} }
func (m *pP959) String() string { return "" }
func (*pP959) ProtoMessage()    {}

type pA960 struct{ F1 []AN1 }
type pP960 struct {
	F1 []*PN1 `protobuf:"bytes,1,rep,name=F1,proto3"`
}

func (m *pP960) Reset()         { *m = pP960{} }
func (m *pP960) String() string { return "" }
func (*pP960) ProtoMessage()    {}

type pA961 struct {
	F1 []AN1
	F2 int8
}
type pP961 struct {
	F1 []*PN1 `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP961) Reset()         { *m = pP961{} }
func (m *pP961) String() string { return "" }
func (*pP961) ProtoMessage()    {}

type pA962 struct {
	F1 []AN1
	F2 uint64
}
type pP962 struct {
	F1 []*PN1 `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 uint64 `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP962) Reset()         { *m = pP962{} }
func (m *pP962) String() string { return "" }
func (*pP962) ProtoMessage()    {}

type pA963 struct {
	F1 []AN1
	F2 int32 `binary:"fixed32"`
}
type pP963 struct {
	F1 []*PN1 `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 int32  `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP963) Reset()         { *m = pP963{} }
func (m *pP963) String() string { return "" }
func (*pP963) ProtoMessage()    {}

type pA964 struct {
	F1 []AN1
	F2 string
}
type pP964 struct {
	F1 []*PN1 `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 string `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP964) Reset()         { *m = pP964{} }
func (m *pP964) String() string { return "" }
func (*pP964) ProtoMessage()    {}

type pA965 struct {
	F1 []AN1
	F2 []byte
}
type pP965 struct {
	F1 []*PN1 `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []byte `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP965) Reset()         { *m = pP965{} }
func (m *pP965) String() string { return "" }
func (*pP965) ProtoMessage()    {}

type pA966 struct {
	F1 []AN1
	F2 []int
}
type pP966 struct {
	F1 []*PN1  `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP966) Reset()         { *m = pP966{} }
func (m *pP966) String() string { return "" }
func (*pP966) ProtoMessage()    {}

type pA967 struct {
	F1 []int
	F2 []AN1
	F3 string
}
type pP967 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []*PN1  `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP967) Reset()         { *m = pP967{} }
func (m *pP967) String() string { return "" }
func (*pP967) ProtoMessage()    {}

type pA968 struct {
	F1 []AN1
	F2 []string
}
type pP968 struct {
	F1 []*PN1   `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP968) Reset()         { *m = pP968{} }
func (m *pP968) String() string { return "" }
func (*pP968) ProtoMessage()    {}

type pA969 struct {
	F1 []string
	F2 []AN1
	F3 string
}
type pP969 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []*PN1   `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP969) Reset()         { *m = pP969{} }
func (m *pP969) String() string { return "" }
func (*pP969) ProtoMessage()    {}

type pA970 struct {
	F1 []AN1
	F2 time.Time
}
type pP970 struct {
	F1 []*PN1               `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP970) Reset()         { *m = pP970{} }
func (m *pP970) String() string { return "" }
func (*pP970) ProtoMessage()    {}

type pA971 struct {
	F1 []AN1
	F2 *AN1
}
type pP971 struct {
	F1 []*PN1 `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 *PN1   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP971) Reset()         { *m = pP971{} }
func (m *pP971) String() string { return "" }
func (*pP971) ProtoMessage()    {}

type pA972 struct {
	F1 *AN1
	F2 []AN1
	F3 string
}
type pP972 struct {
	F1 *PN1   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []*PN1 `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP972) Reset()         { *m = pP972{} }
func (m *pP972) String() string { return "" }
func (*pP972) ProtoMessage()    {}

type pA973 struct {
	F1 []AN1
	F2 []*AN2
}
type pP973 struct {
	F1 []*PN1 `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []*PN2 `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP973) Reset()         { *m = pP973{} }
func (m *pP973) String() string { return "" }
func (*pP973) ProtoMessage()    {}

type pA974 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 []AN1
	F18 string
}
type pP974 struct {
	F1  int32  `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32  `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32  `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32  `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32  `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32  `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32  `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32  `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32  `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32  `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32  `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32  `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32  `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32  `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32  `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 []*PN1 `protobuf:"bytes,17,rep,name=F17,proto3"`
	F18 string `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP974) Reset()         { *m = pP974{} }
func (m *pP974) String() string { return "" }
func (*pP974) ProtoMessage()    {}

type pA975 struct{ F1 [2]AN1 }
type pP975 struct {
	F1 []*PN1 `protobuf:"bytes,1,rep,name=F1,proto3"`
}

func (m *pP975) Reset()         { *m = pP975{} }
func (m *pP975) String() string { return "" }
func (*pP975) ProtoMessage()    {}

type pA976 struct {
	F1 [2]AN1
	F2 int8
}
type pP976 struct {
	F1 []*PN1 `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP976) Reset()         { *m = pP976{} }
func (m *pP976) String() string { return "" }
func (*pP976) ProtoMessage()    {}

type pA977 struct {
	F1 [2]AN1
	F2 uint64
}
type pP977 struct {
	F1 []*PN1 `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 uint64 `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP977) Reset()         { *m = pP977{} }
func (m *pP977) String() string { return "" }
func (*pP977) ProtoMessage()    {}

type pA978 struct {
	F1 [2]AN1
	F2 int32 `binary:"fixed32"`
}
type pP978 struct {
	F1 []*PN1 `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 int32  `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP978) Reset()         { *m = pP978{} }
func (m *pP978) String() string { return "" }
func (*pP978) ProtoMessage()    {}

type pA979 struct {
	F1 [2]AN1
	F2 string
}
type pP979 struct {
	F1 []*PN1 `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 string `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP979) Reset()         { *m = pP979{} }
func (m *pP979) String() string { return "" }
func (*pP979) ProtoMessage()    {}

type pA980 struct {
	F1 [2]AN1
	F2 []byte
}
type pP980 struct {
	F1 []*PN1 `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []byte `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP980) Reset()         { *m = pP980{} }
func (m *pP980) String() string { return "" }
func (*pP980) ProtoMessage()    {}

type pA981 struct {
	F1 [2]AN1
	F2 []int
}
type pP981 struct {
	F1 []*PN1  `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP981) Reset()         { *m = pP981{} }
func (m *pP981) String() string { return "" }
func (*pP981) ProtoMessage()    {}

type pA982 struct {
	F1 []int
	F2 [2]AN1
	F3 string
}
type pP982 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []*PN1  `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP982) Reset()         { *m = pP982{} }
func (m *pP982) String() string { return "" }
func (*pP982) ProtoMessage()    {}

type pA983 struct {
	F1 [2]AN1
	F2 []string
}
type pP983 struct {
	F1 []*PN1   `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP983) Reset()         { *m = pP983{} }
func (m *pP983) String() string { return "" }
func (*pP983) ProtoMessage()    {}

type pA984 struct {
	F1 []string
	F2 [2]AN1
	F3 string
}
type pP984 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []*PN1   `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP984) Reset()         { *m = pP984{} }
func (m *pP984) String() string { return "" }
func (*pP984) ProtoMessage()    {}

type pA985 struct {
	F1 [2]AN1
	F2 time.Time
}
type pP985 struct {
	F1 []*PN1               `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP985) Reset()         { *m = pP985{} }
func (m *pP985) String() string { return "" }
func (*pP985) ProtoMessage()    {}

type pA986 struct {
	F1 [2]AN1
	F2 *AN1
}
type pP986 struct {
	F1 []*PN1 `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 *PN1   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP986) Reset()         { *m = pP986{} }
func (m *pP986) String() string { return "" }
func (*pP986) ProtoMessage()    {}

type pA987 struct {
	F1 *AN1
	F2 [2]AN1
	F3 string
}
type pP987 struct {
	F1 *PN1   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []*PN1 `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP987) Reset()         { *m = pP987{} }
func (m *pP987) String() string { return "" }
func (*pP987) ProtoMessage()    {}

type pA988 struct {
	F1 [2]AN1
	F2 []*AN2
}
type pP988 struct {
	F1 []*PN1 `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []*PN2 `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP988) Reset()         { *m = pP988{} }
func (m *pP988) String() string { return "" }
func (*pP988) ProtoMessage()    {}

type pA989 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 [2]AN1
	F18 string
}
type pP989 struct {
	F1  int32  `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32  `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32  `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32  `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32  `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32  `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32  `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32  `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32  `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32  `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32  `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32  `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32  `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32  `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32  `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 []*PN1 `protobuf:"bytes,17,rep,name=F17,proto3"`
	F18 string `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP989) Reset()         { *m = pP989{} }
func (m *pP989) String() string { return "" }
func (*pP989) ProtoMessage()    {}

type pA990 struct{ F1 *AN1 }
type pP990 struct {
	F1 *PN1 `protobuf:"bytes,1,opt,name=F1,proto3"`
}

func (m *pP990) Reset()         { *m = pP990{} }
func (m *pP990) String() string { return "" }
func (*pP990) ProtoMessage()    {}

type pA991 struct {
	F1 *AN1
	F2 int8
}
type pP991 struct {
	F1 *PN1  `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 int32 `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP991) Reset()         { *m = pP991{} }
func (m *pP991) String() string { return "" }
func (*pP991) ProtoMessage()    {}

type pA992 struct {
	F1 *AN1
	F2 uint64
}
type pP992 struct {
	F1 *PN1   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 uint64 `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP992) Reset()         { *m = pP992{} }
func (m *pP992) String() string { return "" }
func (*pP992) ProtoMessage()    {}

type pA993 struct {
	F1 *AN1
	F2 int32 `binary:"fixed32"`
}
type pP993 struct {
	F1 *PN1  `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 int32 `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP993) Reset()         { *m = pP993{} }
func (m *pP993) String() string { return "" }
func (*pP993) ProtoMessage()    {}

type pA994 struct {
	F1 *AN1
	F2 string
}
type pP994 struct {
	F1 *PN1   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 string `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP994) Reset()         { *m = pP994{} }
func (m *pP994) String() string { return "" }
func (*pP994) ProtoMessage()    {}

type pA995 struct {
	F1 *AN1
	F2 []byte
}
type pP995 struct {
	F1 *PN1   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []byte `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP995) Reset()         { *m = pP995{} }
func (m *pP995) String() string { return "" }
func (*pP995) ProtoMessage()    {}

type pA996 struct {
	F1 *AN1
	F2 []int
}
type pP996 struct {
	F1 *PN1    `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP996) Reset()         { *m = pP996{} }
func (m *pP996) String() string { return "" }
func (*pP996) ProtoMessage()    {}

type pA997 struct {
	F1 []int
	F2 *AN1
	F3 string
}
type pP997 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 *PN1    `protobuf:"bytes,2,opt,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP997) Reset()         { *m = pP997{} }
func (m *pP997) String() string { return "" }
func (*pP997) ProtoMessage()    {}

type pA998 struct {
	F1 *AN1
	F2 []string
}
type pP998 struct {
	F1 *PN1     `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP998) Reset()         { *m = pP998{} }
func (m *pP998) String() string { return "" }
func (*pP998) ProtoMessage()    {}

type pA999 struct {
	F1 []string
	F2 *AN1
	F3 string
}
type pP999 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 *PN1     `protobuf:"bytes,2,opt,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP999) Reset()         { *m = pP999{} }
func (m *pP999) String() string { return "" }
func (*pP999) ProtoMessage()    {}

type pA1000 struct {
	F1 *AN1
	F2 time.Time
}
type pP1000 struct {
	F1 *PN1                 `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP1000) Reset()         { *m = pP1000{} }
func (m *pP1000) String() string { return "" }
func (*pP1000) ProtoMessage()    {}

type pA1001 struct {
	F1 *AN1
	F2 *AN1
}
type pP1001 struct {
	F1 *PN1 `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 *PN1 `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP1001) Reset()         { *m = pP1001{} }
func (m *pP1001) String() string { return "" }
func (*pP1001) ProtoMessage()    {}

type pA1002 struct {
	F1 *AN1
	F2 *AN1
	F3 string
}
type pP1002 struct {
	F1 *PN1   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 *PN1   `protobuf:"bytes,2,opt,name=F2,proto3"`
	F3 string `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP1002) Reset()         { *m = pP1002{} }
func (m *pP1002) String() string { return "" }
func (*pP1002) ProtoMessage()    {}

type pA1003 struct {
	F1 *AN1
	F2 []*AN2
}
type pP1003 struct {
	F1 *PN1   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []*PN2 `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP1003) Reset()         { *m = pP1003{} }
func (m *pP1003) String() string { return "" }
func (*pP1003) ProtoMessage()    {}

type pA1004 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 *AN1
	F18 string
}
type pP1004 struct {
	F1  int32  `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32  `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32  `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32  `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32  `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32  `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32  `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32  `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32  `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32  `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32  `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32  `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32  `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32  `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32  `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 *PN1   `protobuf:"bytes,17,opt,name=F17,proto3"`
	F18 string `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP1004) Reset()         { *m = pP1004{} }
func (m *pP1004) String() string { return "" }
func (*pP1004) ProtoMessage()    {}

type pA1005 struct{ F1 []*AN1 }
type pP1005 struct {
	F1 []*PN1 `protobuf:"bytes,1,rep,name=F1,proto3"`
}

func (m *pP1005) Reset()         { *m = pP1005{} }
func (m *pP1005) String() string { return "" }
func (*pP1005) ProtoMessage()    {}

type pA1006 struct {
	F1 []*AN1
	F2 int8
}
type pP1006 struct {
	F1 []*PN1 `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP1006) Reset()         { *m = pP1006{} }
func (m *pP1006) String() string { return "" }
func (*pP1006) ProtoMessage()    {}

type pA1007 struct {
	F1 []*AN1
	F2 uint64
}
type pP1007 struct {
	F1 []*PN1 `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 uint64 `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP1007) Reset()         { *m = pP1007{} }
func (m *pP1007) String() string { return "" }
func (*pP1007) ProtoMessage()    {}

type pA1008 struct {
	F1 []*AN1
	F2 int32 `binary:"fixed32"`
}
type pP1008 struct {
	F1 []*PN1 `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 int32  `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP1008) Reset()         { *m = pP1008{} }
func (m *pP1008) String() string { return "" }
func (*pP1008) ProtoMessage()    {}

type pA1009 struct {
	F1 []*AN1
	F2 string
}
type pP1009 struct {
	F1 []*PN1 `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 string `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP1009) Reset()         { *m = pP1009{} }
func (m *pP1009) String() string { return "" }
func (*pP1009) ProtoMessage()    {}

type pA1010 struct {
	F1 []*AN1
	F2 []byte
}
type pP1010 struct {
	F1 []*PN1 `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []byte `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP1010) Reset()         { *m = pP1010{} }
func (m *pP1010) String() string { return "" }
func (*pP1010) ProtoMessage()    {}

type pA1011 struct {
	F1 []*AN1
	F2 []int
}
type pP1011 struct {
	F1 []*PN1  `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP1011) Reset()         { *m = pP1011{} }
func (m *pP1011) String() string { return "" }
func (*pP1011) ProtoMessage()    {}

type pA1012 struct {
	F1 []int
	F2 []*AN1
	F3 string
}
type pP1012 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []*PN1  `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP1012) Reset()         { *m = pP1012{} }
func (m *pP1012) String() string { return "" }
func (*pP1012) ProtoMessage()    {}

type pA1013 struct {
	F1 []*AN1
	F2 []string
}
type pP1013 struct {
	F1 []*PN1   `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP1013) Reset()         { *m = pP1013{} }
func (m *pP1013) String() string { return "" }
func (*pP1013) ProtoMessage()    {}

type pA1014 struct {
	F1 []string
	F2 []*AN1
	F3 string
}
type pP1014 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []*PN1   `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP1014) Reset()         { *m = pP1014{} }
func (m *pP1014) String() string { return "" }
func (*pP1014) ProtoMessage()    {}

type pA1015 struct {
	F1 []*AN1
	F2 time.Time
}
type pP1015 struct {
	F1 []*PN1               `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP1015) Reset()         { *m = pP1015{} }
func (m *pP1015) String() string { return "" }
func (*pP1015) ProtoMessage()    {}

type pA1016 struct {
	F1 []*AN1
	F2 *AN1
}
type pP1016 struct {
	F1 []*PN1 `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 *PN1   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP1016) Reset()         { *m = pP1016{} }
func (m *pP1016) String() string { return "" }
func (*pP1016) ProtoMessage()    {}

type pA1017 struct {
	F1 *AN1
	F2 []*AN1
	F3 string
}
type pP1017 struct {
	F1 *PN1   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []*PN1 `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP1017) Reset()         { *m = pP1017{} }
func (m *pP1017) String() string { return "" }
func (*pP1017) ProtoMessage()    {}

type pA1018 struct {
	F1 []*AN1
	F2 []*AN2
}
type pP1018 struct {
	F1 []*PN1 `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []*PN2 `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP1018) Reset()         { *m = pP1018{} }
func (m *pP1018) String() string { return "" }
func (*pP1018) ProtoMessage()    {}

type pA1019 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 []*AN1
	F18 string
}
type pP1019 struct {
	F1  int32  `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32  `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32  `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32  `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32  `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32  `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32  `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32  `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32  `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32  `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32  `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32  `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32  `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32  `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32  `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 []*PN1 `protobuf:"bytes,17,rep,name=F17,proto3"`
	F18 string `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP1019) Reset()         { *m = pP1019{} }
func (m *pP1019) String() string { return "" }
func (*pP1019) ProtoMessage()    {}

type pA1020 struct{ F1 [2]*AN1 }
type pP1020 struct {
	F1 []*PN1 `protobuf:"bytes,1,rep,name=F1,proto3"`
}

func (m *pP1020) Reset()         { *m = pP1020{} }
func (m *pP1020) String() string { return "" }
func (*pP1020) ProtoMessage()    {}

type pA1021 struct {
	F1 [2]*AN1
	F2 int8
}
type pP1021 struct {
	F1 []*PN1 `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP1021) Reset()         { *m = pP1021{} }
func (m *pP1021) String() string { return "" }
func (*pP1021) ProtoMessage()    {}

type pA1022 struct {
	F1 [2]*AN1
	F2 uint64
}
type pP1022 struct {
	F1 []*PN1 `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 uint64 `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP1022) Reset()         { *m = pP1022{} }
func (m *pP1022) String() string { return "" }
func (*pP1022) ProtoMessage()    {}

type pA1023 struct {
	F1 [2]*AN1
	F2 int32 `binary:"fixed32"`
}
type pP1023 struct {
	F1 []*PN1 `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 int32  `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP1023) Reset()         { *m = pP1023{} }
func (m *pP1023) String() string { return "" }
func (*pP1023) ProtoMessage()    {}

type pA1024 struct {
	F1 [2]*AN1
	F2 string
}
type pP1024 struct {
	F1 []*PN1 `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 string `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP1024) Reset()         { *m = pP1024{} }
func (m *pP1024) String() string { return "" }
func (*pP1024) ProtoMessage()    {}

type pA1025 struct {
	F1 [2]*AN1
	F2 []byte
}
type pP1025 struct {
	F1 []*PN1 `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []byte `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP1025) Reset()         { *m = pP1025{} }
func (m *pP1025) String() string { return "" }
func (*pP1025) ProtoMessage()    {}

type pA1026 struct {
	F1 [2]*AN1
	F2 []int
}
type pP1026 struct {
	F1 []*PN1  `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP1026) Reset()         { *m = pP1026{} }
func (m *pP1026) String() string { return "" }
func (*pP1026) ProtoMessage()    {}

type pA1027 struct {
	F1 []int
	F2 [2]*AN1
	F3 string
}
type pP1027 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []*PN1  `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP1027) Reset()         { *m = pP1027{} }
func (m *pP1027) String() string { return "" }
func (*pP1027) ProtoMessage()    {}

type pA1028 struct {
	F1 [2]*AN1
	F2 []string
}
type pP1028 struct {
	F1 []*PN1   `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP1028) Reset()         { *m = pP1028{} }
func (m *pP1028) String() string { return "" }
func (*pP1028) ProtoMessage()    {}

type pA1029 struct {
	F1 []string
	F2 [2]*AN1
	F3 string
}
type pP1029 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []*PN1   `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP1029) Reset()         { *m = pP1029{} }
func (m *pP1029) String() string { return "" }
func (*pP1029) ProtoMessage()    {}

type pA1030 struct {
	F1 [2]*AN1
	F2 time.Time
}
type pP1030 struct {
	F1 []*PN1               `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP1030) Reset()         { *m = pP1030{} }
func (m *pP1030) String() string { return "" }
func (*pP1030) ProtoMessage()    {}

type pA1031 struct {
	F1 [2]*AN1
	F2 *AN1
}
type pP1031 struct {
	F1 []*PN1 `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 *PN1   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP1031) Reset()         { *m = pP1031{} }
func (m *pP1031) String() string { return "" }
func (*pP1031) ProtoMessage()    {}

type pA1032 struct {
	F1 *AN1
	F2 [2]*AN1
	F3 string
}
type pP1032 struct {
	F1 *PN1   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []*PN1 `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP1032) Reset()         { *m = pP1032{} }
func (m *pP1032) String() string { return "" }
func (*pP1032) ProtoMessage()    {}

type pA1033 struct {
	F1 [2]*AN1
	F2 []*AN2
}
type pP1033 struct {
	F1 []*PN1 `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []*PN2 `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP1033) Reset()         { *m = pP1033{} }
func (m *pP1033) String() string { return "" }
func (*pP1033) ProtoMessage()    {}

type pA1034 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 [2]*AN1
	F18 string
}
type pP1034 struct {
	F1  int32  `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32  `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32  `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32  `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32  `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32  `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32  `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32  `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32  `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32  `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32  `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32  `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32  `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32  `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32  `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 []*PN1 `protobuf:"bytes,17,rep,name=F17,proto3"`
	F18 string `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP1034) Reset()         { *m = pP1034{} }
func (m *pP1034) String() string { return "" }
func (*pP1034) ProtoMessage()    {}

type pA1035 struct{ F1 AN2 }
type pP1035 struct {
	F1 *PN2 `protobuf:"bytes,1,opt,name=F1,proto3"`
}

func (m *pP1035) Reset()         { *m = pP1035{} }
func (m *pP1035) String() string { return "" }
func (*pP1035) ProtoMessage()    {}

type pA1036 struct {
	F1 AN2
	F2 int8
}
type pP1036 struct {
	F1 *PN2  `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 int32 `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP1036) Reset()         { *m = pP1036{} }
func (m *pP1036) String() string { return "" }
func (*pP1036) ProtoMessage()    {}

type pA1037 struct {
	F1 AN2
	F2 uint64
}
type pP1037 struct {
	F1 *PN2   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 uint64 `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP1037) Reset()         { *m = pP1037{} }
func (m *pP1037) String() string { return "" }
func (*pP1037) ProtoMessage()    {}

type pA1038 struct {
	F1 AN2
	F2 int32 `binary:"fixed32"`
}
type pP1038 struct {
	F1 *PN2  `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 int32 `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP1038) Reset()         { *m = pP1038{} }
func (m *pP1038) String() string { return "" }
func (*pP1038) ProtoMessage()    {}

type pA1039 struct {
	F1 AN2
	F2 string
}
type pP1039 struct {
	F1 *PN2   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 string `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP1039) Reset()         { *m = pP1039{} }
func (m *pP1039) String() string { return "" }
func (*pP1039) ProtoMessage()    {}

type pA1040 struct {
	F1 AN2
	F2 []byte
}
type pP1040 struct {
	F1 *PN2   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []byte `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP1040) Reset()         { *m = pP1040{} }
func (m *pP1040) String() string { return "" }
func (*pP1040) ProtoMessage()    {}

type pA1041 struct {
	F1 AN2
	F2 []int
}
type pP1041 struct {
	F1 *PN2    `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP1041) Reset()         { *m = pP1041{} }
func (m *pP1041) String() string { return "" }
func (*pP1041) ProtoMessage()    {}

type pA1042 struct {
	F1 []int
	F2 AN2
	F3 string
}
type pP1042 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 *PN2    `protobuf:"bytes,2,opt,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP1042) Reset()         { *m = pP1042{} }
func (m *pP1042) String() string { return "" }
func (*pP1042) ProtoMessage()    {}

type pA1043 struct {
	F1 AN2
	F2 []string
}
type pP1043 struct {
	F1 *PN2     `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP1043) Reset()         { *m = pP1043{} }
func (m *pP1043) String() string { return "" }
func (*pP1043) ProtoMessage()    {}

type pA1044 struct {
	F1 []string
	F2 AN2
	F3 string
}
type pP1044 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 *PN2     `protobuf:"bytes,2,opt,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP1044) Reset()         { *m = pP1044{} }
func (m *pP1044) String() string { return "" }
func (*pP1044) ProtoMessage()    {}

type pA1045 struct {
	F1 AN2
	F2 time.Time
}
type pP1045 struct {
	F1 *PN2                 `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP1045) Reset()         { *m = pP1045{} }
func (m *pP1045) String() string { return "" }
func (*pP1045) ProtoMessage()    {}

type pA1046 struct {
	F1 AN2
	F2 *AN1
}
type pP1046 struct {
	F1 *PN2 `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 *PN1 `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP1046) Reset()         { *m = pP1046{} }
func (m *pP1046) String() string { return "" }
func (*pP1046) ProtoMessage()    {}

type pA1047 struct {
	F1 *AN1
	F2 AN2
	F3 string
}
type pP1047 struct {
	F1 *PN1   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 *PN2   `protobuf:"bytes,2,opt,name=F2,proto3"`
	F3 string `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP1047) Reset()         { *m = pP1047{} }
func (m *pP1047) String() string { return "" }
func (*pP1047) ProtoMessage()    {}

type pA1048 struct {
	F1 AN2
	F2 []*AN2
}
type pP1048 struct {
	F1 *PN2   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []*PN2 `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP1048) Reset()         { *m = pP1048{} }
func (m *pP1048) String() string { return "" }
func (*pP1048) ProtoMessage()    {}

type pA1049 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 AN2
	F18 string
}
type pP1049 struct {
	F1  int32  `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32  `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32  `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32  `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32  `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32  `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32  `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32  `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32  `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32  `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32  `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32  `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32  `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32  `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32  `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 *PN2   `protobuf:"bytes,17,opt,name=F17,proto3"`
	F18 string `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP1049) Reset()         { *m = pP1049{} }
func (m *pP1049) String() string { return "" }
func (*pP1049) ProtoMessage()    {}

type pA1050 struct{ F1 []AN2 }
type pP1050 struct {
	F1 []*PN2 `protobuf:"bytes,1,rep,name=F1,proto3"`
}

func (m *pP1050) Reset()         { *m = pP1050{} }
func (m *pP1050) String() string { return "" }
func (*pP1050) ProtoMessage()    {}

type pA1051 struct {
	F1 []AN2
	F2 int8
}
type pP1051 struct {
	F1 []*PN2 `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP1051) Reset()         { *m = pP1051{} }
func (m *pP1051) String() string { return "" }
func (*pP1051) ProtoMessage()    {}

type pA1052 struct {
	F1 []AN2
	F2 uint64
}
type pP1052 struct {
	F1 []*PN2 `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 uint64 `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP1052) Reset()         { *m = pP1052{} }
func (m *pP1052) String() string { return "" }
func (*pP1052) ProtoMessage()    {}

type pA1053 struct {
	F1 []AN2
	F2 int32 `binary:"fixed32"`
}
type pP1053 struct {
	F1 []*PN2 `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 int32  `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP1053) Reset()         { *m = pP1053{} }
func (m *pP1053) String() string { return "" }
func (*pP1053) ProtoMessage()    {}

type pA1054 struct {
	F1 []AN2
	F2 string
}
type pP1054 struct {
	F1 []*PN2 `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 string `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP1054) Reset()         { *m = pP1054{} }
func (m *pP1054) String() string { return "" }
func (*pP1054) ProtoMessage()    {}

type pA1055 struct {
	F1 []AN2
	F2 []byte
}
type pP1055 struct {
	F1 []*PN2 `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []byte `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP1055) Reset()         { *m = pP1055{} }
func (m *pP1055) String() string { return "" }
func (*pP1055) ProtoMessage()    {}

type pA1056 struct {
	F1 []AN2
	F2 []int
}
type pP1056 struct {
	F1 []*PN2  `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP1056) Reset()         { *m = pP1056{} }
func (m *pP1056) String() string { return "" }
func (*pP1056) ProtoMessage()    {}

type pA1057 struct {
	F1 []int
	F2 []AN2
	F3 string
}
type pP1057 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []*PN2  `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP1057) Reset()         { *m = pP1057{} }
func (m *pP1057) String() string { return "" }
func (*pP1057) ProtoMessage()    {}

type pA1058 struct {
	F1 []AN2
	F2 []string
}
type pP1058 struct {
	F1 []*PN2   `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP1058) Reset()         { *m = pP1058{} }
func (m *pP1058) String() string { return "" }
func (*pP1058) ProtoMessage()    {}

type pA1059 struct {
	F1 []string
	F2 []AN2
	F3 string
}
type pP1059 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []*PN2   `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP1059) Reset()         { *m = pP1059{} }
func (m *pP1059) String() string { return "" }
func (*pP1059) ProtoMessage()    {}

type pA1060 struct {
	F1 []AN2
	F2 time.Time
}
type pP1060 struct {
	F1 []*PN2               `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP1060) Reset()         { *m = pP1060{} }
func (m *pP1060) String() string { return "" }
func (*pP1060) ProtoMessage()    {}

type pA1061 struct {
	F1 []AN2
	F2 *AN1
}
type pP1061 struct {
	F1 []*PN2 `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 *PN1   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP1061) Reset()         { *m = pP1061{} }
func (m *pP1061) String() string { return "" }
func (*pP1061) ProtoMessage()    {}

type pA1062 struct {
	F1 *AN1
	F2 []AN2
	F3 string
}
type pP1062 struct {
	F1 *PN1   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []*PN2 `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP1062) Reset()         { *m = pP1062{} }
func (m *pP1062) String() string { return "" }
func (*pP1062) ProtoMessage()    {}

type pA1063 struct {
	F1 []AN2
	F2 []*AN2
}
type pP1063 struct {
	F1 []*PN2 `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []*PN2 `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP1063) Reset()         { *m = pP1063{} }
func (m *pP1063) String() string { return "" }
func (*pP1063) ProtoMessage()    {}

type pA1064 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 []AN2
	F18 string
}
type pP1064 struct {
	F1  int32  `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32  `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32  `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32  `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32  `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32  `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32  `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32  `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32  `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32  `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32  `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32  `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32  `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32  `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32  `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 []*PN2 `protobuf:"bytes,17,rep,name=F17,proto3"`
	F18 string `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP1064) Reset()         { *m = pP1064{} }
func (m *pP1064) String() string { return "" }
func (*pP1064) ProtoMessage()    {}

type pA1065 struct{ F1 *AN2 }
type pP1065 struct {
	F1 *PN2 `protobuf:"bytes,1,opt,name=F1,proto3"`
}

func (m *pP1065) Reset()         { *m = pP1065{} }
func (m *pP1065) String() string { return "" }
func (*pP1065) ProtoMessage()    {}

type pA1066 struct {
	F1 *AN2
	F2 int8
}
type pP1066 struct {
	F1 *PN2  `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 int32 `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP1066) Reset()         { *m = pP1066{} }
func (m *pP1066) String() string { return "" }
func (*pP1066) ProtoMessage()    {}

type pA1067 struct {
	F1 *AN2
	F2 uint64
}
type pP1067 struct {
	F1 *PN2   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 uint64 `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP1067) Reset()         { *m = pP1067{} }
func (m *pP1067) String() string { return "" }
func (*pP1067) ProtoMessage()    {}

type pA1068 struct {
	F1 *AN2
	F2 int32 `binary:"fixed32"`
}
type pP1068 struct {
	F1 *PN2  `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 int32 `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP1068) Reset()         { *m = pP1068{} }
func (m *pP1068) String() string { return "" }
func (*pP1068) ProtoMessage()    {}

type pA1069 struct {
	F1 *AN2
	F2 string
}
type pP1069 struct {
	F1 *PN2   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 string `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP1069) Reset()         { *m = pP1069{} }
func (m *pP1069) String() string { return "" }
func (*pP1069) ProtoMessage()    {}

type pA1070 struct {
	F1 *AN2
	F2 []byte
}
type pP1070 struct {
	F1 *PN2   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []byte `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP1070) Reset()         { *m = pP1070{} }
func (m *pP1070) String() string { return "" }
func (*pP1070) ProtoMessage()    {}

type pA1071 struct {
	F1 *AN2
	F2 []int
}
type pP1071 struct {
	F1 *PN2    `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP1071) Reset()         { *m = pP1071{} }
func (m *pP1071) String() string { return "" }
func (*pP1071) ProtoMessage()    {}

type pA1072 struct {
	F1 []int
	F2 *AN2
	F3 string
}
type pP1072 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 *PN2    `protobuf:"bytes,2,opt,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP1072) Reset()         { *m = pP1072{} }
func (m *pP1072) String() string { return "" }
func (*pP1072) ProtoMessage()    {}

type pA1073 struct {
	F1 *AN2
	F2 []string
}
type pP1073 struct {
	F1 *PN2     `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP1073) Reset()         { *m = pP1073{} }
func (m *pP1073) String() string { return "" }
func (*pP1073) ProtoMessage()    {}

type pA1074 struct {
	F1 []string
	F2 *AN2
	F3 string
}
type pP1074 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 *PN2     `protobuf:"bytes,2,opt,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP1074) Reset()         { *m = pP1074{} }
func (m *pP1074) String() string { return "" }
func (*pP1074) ProtoMessage()    {}

type pA1075 struct {
	F1 *AN2
	F2 time.Time
}
type pP1075 struct {
	F1 *PN2                 `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP1075) Reset()         { *m = pP1075{} }
func (m *pP1075) String() string { return "" }
func (*pP1075) ProtoMessage()    {}

type pA1076 struct {
	F1 *AN2
	F2 *AN1
}
type pP1076 struct {
	F1 *PN2 `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 *PN1 `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP1076) Reset()         { *m = pP1076{} }
func (m *pP1076) String() string { return "" }
func (*pP1076) ProtoMessage()    {}

type pA1077 struct {
	F1 *AN1
	F2 *AN2
	F3 string
}
type pP1077 struct {
	F1 *PN1   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 *PN2   `protobuf:"bytes,2,opt,name=F2,proto3"`
	F3 string `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP1077) Reset()         { *m = pP1077{} }
func (m *pP1077) String() string { return "" }
func (*pP1077) ProtoMessage()    {}

type pA1078 struct {
	F1 *AN2
	F2 []*AN2
}
type pP1078 struct {
	F1 *PN2   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []*PN2 `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP1078) Reset()         { *m = pP1078{} }
func (m *pP1078) String() string { return "" }
func (*pP1078) ProtoMessage()    {}

type pA1079 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 *AN2
	F18 string
}
type pP1079 struct {
	F1  int32  `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32  `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32  `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32  `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32  `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32  `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32  `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32  `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32  `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32  `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32  `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32  `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32  `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32  `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32  `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 *PN2   `protobuf:"bytes,17,opt,name=F17,proto3"`
	F18 string `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP1079) Reset()         { *m = pP1079{} }
func (m *pP1079) String() string { return "" }
func (*pP1079) ProtoMessage()    {}

type pA1080 struct{ F1 []*AN2 }
type pP1080 struct {
	F1 []*PN2 `protobuf:"bytes,1,rep,name=F1,proto3"`
}

func (m *pP1080) Reset()         { *m = pP1080{} }
func (m *pP1080) String() string { return "" }
func (*pP1080) ProtoMessage()    {}

type pA1081 struct {
	F1 []*AN2
	F2 int8
}
type pP1081 struct {
	F1 []*PN2 `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP1081) Reset()         { *m = pP1081{} }
func (m *pP1081) String() string { return "" }
func (*pP1081) ProtoMessage()    {}

type pA1082 struct {
	F1 []*AN2
	F2 uint64
}
type pP1082 struct {
	F1 []*PN2 `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 uint64 `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP1082) Reset()         { *m = pP1082{} }
func (m *pP1082) String() string { return "" }
func (*pP1082) ProtoMessage()    {}

type pA1083 struct {
	F1 []*AN2
	F2 int32 `binary:"fixed32"`
}
type pP1083 struct {
	F1 []*PN2 `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 int32  `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP1083) Reset()         { *m = pP1083{} }
func (m *pP1083) String() string { return "" }
func (*pP1083) ProtoMessage()    {}

type pA1084 struct {
	F1 []*AN2
	F2 string
}
type pP1084 struct {
	F1 []*PN2 `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 string `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP1084) Reset()         { *m = pP1084{} }
func (m *pP1084) String() string { return "" }
func (*pP1084) ProtoMessage()    {}

type pA1085 struct {
	F1 []*AN2
	F2 []byte
}
type pP1085 struct {
	F1 []*PN2 `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []byte `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP1085) Reset()         { *m = pP1085{} }
func (m *pP1085) String() string { return "" }
func (*pP1085) ProtoMessage()    {}

type pA1086 struct {
	F1 []*AN2
	F2 []int
}
type pP1086 struct {
	F1 []*PN2  `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP1086) Reset()         { *m = pP1086{} }
func (m *pP1086) String() string { return "" }
func (*pP1086) ProtoMessage()    {}

type pA1087 struct {
	F1 []int
	F2 []*AN2
	F3 string
}
type pP1087 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []*PN2  `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP1087) Reset()         { *m = pP1087{} }
func (m *pP1087) String() string { return "" }
func (*pP1087) ProtoMessage()    {}

type pA1088 struct {
	F1 []*AN2
	F2 []string
}
type pP1088 struct {
	F1 []*PN2   `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP1088) Reset()         { *m = pP1088{} }
func (m *pP1088) String() string { return "" }
func (*pP1088) ProtoMessage()    {}

type pA1089 struct {
	F1 []string
	F2 []*AN2
	F3 string
}
type pP1089 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []*PN2   `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP1089) Reset()         { *m = pP1089{} }
func (m *pP1089) String() string { return "" }
func (*pP1089) ProtoMessage()    {}

type pA1090 struct {
	F1 []*AN2
	F2 time.Time
}
type pP1090 struct {
	F1 []*PN2               `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP1090) Reset()         { *m = pP1090{} }
func (m *pP1090) String() string { return "" }
func (*pP1090) ProtoMessage()    {}

type pA1091 struct {
	F1 []*AN2
	F2 *AN1
}
type pP1091 struct {
	F1 []*PN2 `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 *PN1   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP1091) Reset()         { *m = pP1091{} }
func (m *pP1091) String() string { return "" }
func (*pP1091) ProtoMessage()    {}

type pA1092 struct {
	F1 *AN1
	F2 []*AN2
	F3 string
}
type pP1092 struct {
	F1 *PN1   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []*PN2 `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP1092) Reset()         { *m = pP1092{} }
func (m *pP1092) String() string { return "" }
func (*pP1092) ProtoMessage()    {}

type pA1093 struct {
	F1 []*AN2
	F2 []*AN2
}
type pP1093 struct {
	F1 []*PN2 `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []*PN2 `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP1093) Reset()         { *m = pP1093{} }
func (m *pP1093) String() string { return "" }
func (*pP1093) ProtoMessage()    {}

type pA1094 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 []*AN2
	F18 string
}
type pP1094 struct {
	F1  int32  `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32  `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32  `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32  `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32  `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32  `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32  `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32  `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32  `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32  `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32  `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32  `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32  `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32  `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32  `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 []*PN2 `protobuf:"bytes,17,rep,name=F17,proto3"`
	F18 string `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP1094) Reset()         { *m = pP1094{} }
func (m *pP1094) String() string { return "" }
func (*pP1094) ProtoMessage()    {}

type pA1095 struct{ F1 *AN3 }
type pP1095 struct {
	F1 *PN3 `protobuf:"bytes,1,opt,name=F1,proto3"`
}

func (m *pP1095) Reset()         { *m = pP1095{} }
func (m *pP1095) String() string { return "" }
func (*pP1095) ProtoMessage()    {}

type pA1096 struct {
	F1 *AN3
	F2 int8
}
type pP1096 struct {
	F1 *PN3  `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 int32 `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP1096) Reset()         { *m = pP1096{} }
func (m *pP1096) String() string { return "" }
func (*pP1096) ProtoMessage()    {}

type pA1097 struct {
	F1 *AN3
	F2 uint64
}
type pP1097 struct {
	F1 *PN3   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 uint64 `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP1097) Reset()         { *m = pP1097{} }
func (m *pP1097) String() string { return "" }
func (*pP1097) ProtoMessage()    {}

type pA1098 struct {
	F1 *AN3
	F2 int32 `binary:"fixed32"`
}
type pP1098 struct {
	F1 *PN3  `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 int32 `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP1098) Reset()         { *m = pP1098{} }
func (m *pP1098) String() string { return "" }
func (*pP1098) ProtoMessage()    {}

type pA1099 struct {
	F1 *AN3
	F2 string
}
type pP1099 struct {
	F1 *PN3   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 string `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP1099) Reset()         { *m = pP1099{} }
func (m *pP1099) String() string { return "" }
func (*pP1099) ProtoMessage()    {}

type pA1100 struct {
	F1 *AN3
	F2 []byte
}
type pP1100 struct {
	F1 *PN3   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []byte `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP1100) Reset()         { *m = pP1100{} }
func (m *pP1100) String() string { return "" }
func (*pP1100) ProtoMessage()    {}

type pA1101 struct {
	F1 *AN3
	F2 []int
}
type pP1101 struct {
	F1 *PN3    `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP1101) Reset()         { *m = pP1101{} }
func (m *pP1101) String() string { return "" }
func (*pP1101) ProtoMessage()    {}

type pA1102 struct {
	F1 []int
	F2 *AN3
	F3 string
}
type pP1102 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 *PN3    `protobuf:"bytes,2,opt,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP1102) Reset()         { *m = pP1102{} }
func (m *pP1102) String() string { return "" }
func (*pP1102) ProtoMessage()    {}

type pA1103 struct {
	F1 *AN3
	F2 []string
}
type pP1103 struct {
	F1 *PN3     `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP1103) Reset()         { *m = pP1103{} }
func (m *pP1103) String() string { return "" }
func (*pP1103) ProtoMessage()    {}

type pA1104 struct {
	F1 []string
	F2 *AN3
	F3 string
}
type pP1104 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 *PN3     `protobuf:"bytes,2,opt,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP1104) Reset()         { *m = pP1104{} }
func (m *pP1104) String() string { return "" }
func (*pP1104) ProtoMessage()    {}

type pA1105 struct {
	F1 *AN3
	F2 time.Time
}
type pP1105 struct {
	F1 *PN3                 `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP1105) Reset()         { *m = pP1105{} }
func (m *pP1105) String() string { return "" }
func (*pP1105) ProtoMessage()    {}

type pA1106 struct {
	F1 *AN3
	F2 *AN1
}
type pP1106 struct {
	F1 *PN3 `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 *PN1 `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP1106) Reset()         { *m = pP1106{} }
func (m *pP1106) String() string { return "" }
func (*pP1106) ProtoMessage()    {}

type pA1107 struct {
	F1 *AN1
	F2 *AN3
	F3 string
}
type pP1107 struct {
	F1 *PN1   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 *PN3   `protobuf:"bytes,2,opt,name=F2,proto3"`
	F3 string `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP1107) Reset()         { *m = pP1107{} }
func (m *pP1107) String() string { return "" }
func (*pP1107) ProtoMessage()    {}

type pA1108 struct {
	F1 *AN3
	F2 []*AN2
}
type pP1108 struct {
	F1 *PN3   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []*PN2 `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP1108) Reset()         { *m = pP1108{} }
func (m *pP1108) String() string { return "" }
func (*pP1108) ProtoMessage()    {}

type pA1109 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 *AN3
	F18 string
}
type pP1109 struct {
	F1  int32  `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32  `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32  `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32  `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32  `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32  `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32  `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32  `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32  `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32  `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32  `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32  `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32  `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32  `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32  `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 *PN3   `protobuf:"bytes,17,opt,name=F17,proto3"`
	F18 string `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP1109) Reset()         { *m = pP1109{} }
func (m *pP1109) String() string { return "" }
func (*pP1109) ProtoMessage()    {}

type pA1110 struct{ F1 []*AN3 }
type pP1110 struct {
	F1 []*PN3 `protobuf:"bytes,1,rep,name=F1,proto3"`
}

func (m *pP1110) Reset()         { *m = pP1110{} }
func (m *pP1110) String() string { return "" }
func (*pP1110) ProtoMessage()    {}

type pA1111 struct {
	F1 []*AN3
	F2 int8
}
type pP1111 struct {
	F1 []*PN3 `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP1111) Reset()         { *m = pP1111{} }
func (m *pP1111) String() string { return "" }
func (*pP1111) ProtoMessage()    {}

type pA1112 struct {
	F1 []*AN3
	F2 uint64
}
type pP1112 struct {
	F1 []*PN3 `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 uint64 `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP1112) Reset()         { *m = pP1112{} }
func (m *pP1112) String() string { return "" }
func (*pP1112) ProtoMessage()    {}

type pA1113 struct {
	F1 []*AN3
	F2 int32 `binary:"fixed32"`
}
type pP1113 struct {
	F1 []*PN3 `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 int32  `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP1113) Reset()         { *m = pP1113{} }
func (m *pP1113) String() string { return "" }
func (*pP1113) ProtoMessage()    {}

type pA1114 struct {
	F1 []*AN3
	F2 string
}
type pP1114 struct {
	F1 []*PN3 `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 string `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP1114) Reset()         { *m = pP1114{} }
func (m *pP1114) String() string { return "" }
func (*pP1114) ProtoMessage()    {}

type pA1115 struct {
	F1 []*AN3
	F2 []byte
}
type pP1115 struct {
	F1 []*PN3 `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []byte `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP1115) Reset()         { *m = pP1115{} }
func (m *pP1115) String() string { return "" }
func (*pP1115) ProtoMessage()    {}

type pA1116 struct {
	F1 []*AN3
	F2 []int
}
type pP1116 struct {
	F1 []*PN3  `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP1116) Reset()         { *m = pP1116{} }
func (m *pP1116) String() string { return "" }
func (*pP1116) ProtoMessage()    {}

type pA1117 struct {
	F1 []int
	F2 []*AN3
	F3 string
}
type pP1117 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []*PN3  `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP1117) Reset()         { *m = pP1117{} }
func (m *pP1117) String() string { return "" }
func (*pP1117) ProtoMessage()    {}

type pA1118 struct {
	F1 []*AN3
	F2 []string
}
type pP1118 struct {
	F1 []*PN3   `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP1118) Reset()         { *m = pP1118{} }
func (m *pP1118) String() string { return "" }
func (*pP1118) ProtoMessage()    {}

type pA1119 struct {
	F1 []string
	F2 []*AN3
	F3 string
}
type pP1119 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []*PN3   `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP1119) Reset()         { *m = pP1119{} }
func (m *pP1119) String() string { return "" }
func (*pP1119) ProtoMessage()    {}

type pA1120 struct {
	F1 []*AN3
	F2 time.Time
}
type pP1120 struct {
	F1 []*PN3               `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP1120) Reset()         { *m = pP1120{} }
func (m *pP1120) String() string { return "" }
func (*pP1120) ProtoMessage()    {}

type pA1121 struct {
	F1 []*AN3
	F2 *AN1
}
type pP1121 struct {
	F1 []*PN3 `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 *PN1   `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP1121) Reset()         { *m = pP1121{} }
func (m *pP1121) String() string { return "" }
func (*pP1121) ProtoMessage()    {}

type pA1122 struct {
	F1 *AN1
	F2 []*AN3
	F3 string
}
type pP1122 struct {
	F1 *PN1   `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []*PN3 `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP1122) Reset()         { *m = pP1122{} }
func (m *pP1122) String() string { return "" }
func (*pP1122) ProtoMessage()    {}

type pA1123 struct {
	F1 []*AN3
	F2 []*AN2
}
type pP1123 struct {
	F1 []*PN3 `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []*PN2 `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP1123) Reset()         { *m = pP1123{} }
func (m *pP1123) String() string { return "" }
func (*pP1123) ProtoMessage()    {}

type pA1124 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 []*AN3
	F18 string
}
type pP1124 struct {
	F1  int32  `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32  `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32  `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32  `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32  `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32  `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32  `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32  `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32  `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32  `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32  `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32  `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32  `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32  `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32  `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32  `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 []*PN3 `protobuf:"bytes,17,rep,name=F17,proto3"`
	F18 string `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP1124) Reset()         { *m = pP1124{} }
func (m *pP1124) String() string { return "" }
func (*pP1124) ProtoMessage()    {}

type pA1125 struct{ F1 Empty }
type pP1125 struct {
	F1 *PEmpty `protobuf:"bytes,1,opt,name=F1,proto3"`
}

func (m *pP1125) Reset()         { *m = pP1125{} }
func (m *pP1125) String() string { return "" }
func (*pP1125) ProtoMessage()    {}

type pA1126 struct {
	F1 Empty
	F2 int8
}
type pP1126 struct {
	F1 *PEmpty `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 int32   `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP1126) Reset()         { *m = pP1126{} }
func (m *pP1126) String() string { return "" }
func (*pP1126) ProtoMessage()    {}

type pA1127 struct {
	F1 Empty
	F2 uint64
}
type pP1127 struct {
	F1 *PEmpty `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 uint64  `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP1127) Reset()         { *m = pP1127{} }
func (m *pP1127) String() string { return "" }
func (*pP1127) ProtoMessage()    {}

type pA1128 struct {
	F1 Empty
	F2 int32 `binary:"fixed32"`
}
type pP1128 struct {
	F1 *PEmpty `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 int32   `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP1128) Reset()         { *m = pP1128{} }
func (m *pP1128) String() string { return "" }
func (*pP1128) ProtoMessage()    {}

type pA1129 struct {
	F1 Empty
	F2 string
}
type pP1129 struct {
	F1 *PEmpty `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 string  `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP1129) Reset()         { *m = pP1129{} }
func (m *pP1129) String() string { return "" }
func (*pP1129) ProtoMessage()    {}

type pA1130 struct {
	F1 Empty
	F2 []byte
}
type pP1130 struct {
	F1 *PEmpty `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []byte  `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP1130) Reset()         { *m = pP1130{} }
func (m *pP1130) String() string { return "" }
func (*pP1130) ProtoMessage()    {}

type pA1131 struct {
	F1 Empty
	F2 []int
}
type pP1131 struct {
	F1 *PEmpty `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP1131) Reset()         { *m = pP1131{} }
func (m *pP1131) String() string { return "" }
func (*pP1131) ProtoMessage()    {}

type pA1132 struct {
	F1 []int
	F2 Empty
	F3 string
}
type pP1132 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 *PEmpty `protobuf:"bytes,2,opt,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP1132) Reset()         { *m = pP1132{} }
func (m *pP1132) String() string { return "" }
func (*pP1132) ProtoMessage()    {}

type pA1133 struct {
	F1 Empty
	F2 []string
}
type pP1133 struct {
	F1 *PEmpty  `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP1133) Reset()         { *m = pP1133{} }
func (m *pP1133) String() string { return "" }
func (*pP1133) ProtoMessage()    {}

type pA1134 struct {
	F1 []string
	F2 Empty
	F3 string
}
type pP1134 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 *PEmpty  `protobuf:"bytes,2,opt,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP1134) Reset()         { *m = pP1134{} }
func (m *pP1134) String() string { return "" }
func (*pP1134) ProtoMessage()    {}

type pA1135 struct {
	F1 Empty
	F2 time.Time
}
type pP1135 struct {
	F1 *PEmpty              `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP1135) Reset()         { *m = pP1135{} }
func (m *pP1135) String() string { return "" }
func (*pP1135) ProtoMessage()    {}

type pA1136 struct {
	F1 Empty
	F2 *AN1
}
type pP1136 struct {
	F1 *PEmpty `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 *PN1    `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP1136) Reset()         { *m = pP1136{} }
func (m *pP1136) String() string { return "" }
func (*pP1136) ProtoMessage()    {}

type pA1137 struct {
	F1 *AN1
	F2 Empty
	F3 string
}
type pP1137 struct {
	F1 *PN1    `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 *PEmpty `protobuf:"bytes,2,opt,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP1137) Reset()         { *m = pP1137{} }
func (m *pP1137) String() string { return "" }
func (*pP1137) ProtoMessage()    {}

type pA1138 struct {
	F1 Empty
	F2 []*AN2
}
type pP1138 struct {
	F1 *PEmpty `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []*PN2  `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP1138) Reset()         { *m = pP1138{} }
func (m *pP1138) String() string { return "" }
func (*pP1138) ProtoMessage()    {}

type pA1139 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 Empty
	F18 string
}
type pP1139 struct {
	F1  int32   `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32   `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32   `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32   `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32   `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32   `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32   `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32   `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32   `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32   `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32   `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32   `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32   `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32   `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32   `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32   `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 *PEmpty `protobuf:"bytes,17,opt,name=F17,proto3"`
	F18 string  `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP1139) Reset()         { *m = pP1139{} }
func (m *pP1139) String() string { return "" }
func (*pP1139) ProtoMessage()    {}

type pA1140 struct{ F1 []Empty }
type pP1140 struct {
	F1 []*PEmpty `protobuf:"bytes,1,rep,name=F1,proto3"`
}

func (m *pP1140) Reset()         { *m = pP1140{} }
func (m *pP1140) String() string { return "" }
func (*pP1140) ProtoMessage()    {}

type pA1141 struct {
	F1 []Empty
	F2 int8
}
type pP1141 struct {
	F1 []*PEmpty `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 int32     `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP1141) Reset()         { *m = pP1141{} }
func (m *pP1141) String() string { return "" }
func (*pP1141) ProtoMessage()    {}

type pA1142 struct {
	F1 []Empty
	F2 uint64
}
type pP1142 struct {
	F1 []*PEmpty `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 uint64    `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP1142) Reset()         { *m = pP1142{} }
func (m *pP1142) String() string { return "" }
func (*pP1142) ProtoMessage()    {}

type pA1143 struct {
	F1 []Empty
	F2 int32 `binary:"fixed32"`
}
type pP1143 struct {
	F1 []*PEmpty `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 int32     `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP1143) Reset()         { *m = pP1143{} }
func (m *pP1143) String() string { return "" }
func (*pP1143) ProtoMessage()    {}

type pA1144 struct {
	F1 []Empty
	F2 string
}
type pP1144 struct {
	F1 []*PEmpty `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 string    `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP1144) Reset()         { *m = pP1144{} }
func (m *pP1144) String() string { return "" }
func (*pP1144) ProtoMessage()    {}

type pA1145 struct {
	F1 []Empty
	F2 []byte
}
type pP1145 struct {
	F1 []*PEmpty `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []byte    `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP1145) Reset()         { *m = pP1145{} }
func (m *pP1145) String() string { return "" }
func (*pP1145) ProtoMessage()    {}

type pA1146 struct {
	F1 []Empty
	F2 []int
}
type pP1146 struct {
	F1 []*PEmpty `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []int64   `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP1146) Reset()         { *m = pP1146{} }
func (m *pP1146) String() string { return "" }
func (*pP1146) ProtoMessage()    {}

type pA1147 struct {
	F1 []int
	F2 []Empty
	F3 string
}
type pP1147 struct {
	F1 []int64   `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []*PEmpty `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string    `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP1147) Reset()         { *m = pP1147{} }
func (m *pP1147) String() string { return "" }
func (*pP1147) ProtoMessage()    {}

type pA1148 struct {
	F1 []Empty
	F2 []string
}
type pP1148 struct {
	F1 []*PEmpty `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []string  `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP1148) Reset()         { *m = pP1148{} }
func (m *pP1148) String() string { return "" }
func (*pP1148) ProtoMessage()    {}

type pA1149 struct {
	F1 []string
	F2 []Empty
	F3 string
}
type pP1149 struct {
	F1 []string  `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []*PEmpty `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string    `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP1149) Reset()         { *m = pP1149{} }
func (m *pP1149) String() string { return "" }
func (*pP1149) ProtoMessage()    {}

type pA1150 struct {
	F1 []Empty
	F2 time.Time
}
type pP1150 struct {
	F1 []*PEmpty            `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP1150) Reset()         { *m = pP1150{} }
func (m *pP1150) String() string { return "" }
func (*pP1150) ProtoMessage()    {}

type pA1151 struct {
	F1 []Empty
	F2 *AN1
}
type pP1151 struct {
	F1 []*PEmpty `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 *PN1      `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP1151) Reset()         { *m = pP1151{} }
func (m *pP1151) String() string { return "" }
func (*pP1151) ProtoMessage()    {}

type pA1152 struct {
	F1 *AN1
	F2 []Empty
	F3 string
}
type pP1152 struct {
	F1 *PN1      `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []*PEmpty `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string    `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP1152) Reset()         { *m = pP1152{} }
func (m *pP1152) String() string { return "" }
func (*pP1152) ProtoMessage()    {}

type pA1153 struct {
	F1 []Empty
	F2 []*AN2
}
type pP1153 struct {
	F1 []*PEmpty `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []*PN2    `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP1153) Reset()         { *m = pP1153{} }
func (m *pP1153) String() string { return "" }
func (*pP1153) ProtoMessage()    {}

type pA1154 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 []Empty
	F18 string
}
type pP1154 struct {
	F1  int32     `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32     `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32     `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32     `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32     `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32     `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32     `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32     `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32     `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32     `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32     `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32     `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32     `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32     `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32     `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32     `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 []*PEmpty `protobuf:"bytes,17,rep,name=F17,proto3"`
	F18 string    `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP1154) Reset()         { *m = pP1154{} }
func (m *pP1154) String() string { return "" }
func (*pP1154) ProtoMessage()    {}

type pA1155 struct{ F1 *Empty }
type pP1155 struct {
	F1 *PEmpty `protobuf:"bytes,1,opt,name=F1,proto3"`
}

func (m *pP1155) Reset()         { *m = pP1155{} }
func (m *pP1155) String() string { return "" }
func (*pP1155) ProtoMessage()    {}

type pA1156 struct {
	F1 *Empty
	F2 int8
}
type pP1156 struct {
	F1 *PEmpty `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 int32   `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP1156) Reset()         { *m = pP1156{} }
func (m *pP1156) String() string { return "" }
func (*pP1156) ProtoMessage()    {}

type pA1157 struct {
	F1 *Empty
	F2 uint64
}
type pP1157 struct {
	F1 *PEmpty `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 uint64  `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP1157) Reset()         { *m = pP1157{} }
func (m *pP1157) String() string { return "" }
func (*pP1157) ProtoMessage()    {}

type pA1158 struct {
	F1 *Empty
	F2 int32 `binary:"fixed32"`
}
type pP1158 struct {
	F1 *PEmpty `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 int32   `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP1158) Reset()         { *m = pP1158{} }
func (m *pP1158) String() string { return "" }
func (*pP1158) ProtoMessage()    {}

type pA1159 struct {
	F1 *Empty
	F2 string
}
type pP1159 struct {
	F1 *PEmpty `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 string  `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP1159) Reset()         { *m = pP1159{} }
func (m *pP1159) String() string { return "" }
func (*pP1159) ProtoMessage()    {}

type pA1160 struct {
	F1 *Empty
	F2 []byte
}
type pP1160 struct {
	F1 *PEmpty `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []byte  `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP1160) Reset()         { *m = pP1160{} }
func (m *pP1160) String() string { return "" }
func (*pP1160) ProtoMessage()    {}

type pA1161 struct {
	F1 *Empty
	F2 []int
}
type pP1161 struct {
	F1 *PEmpty `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []int64 `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP1161) Reset()         { *m = pP1161{} }
func (m *pP1161) String() string { return "" }
func (*pP1161) ProtoMessage()    {}

type pA1162 struct {
	F1 []int
	F2 *Empty
	F3 string
}
type pP1162 struct {
	F1 []int64 `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 *PEmpty `protobuf:"bytes,2,opt,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP1162) Reset()         { *m = pP1162{} }
func (m *pP1162) String() string { return "" }
func (*pP1162) ProtoMessage()    {}

type pA1163 struct {
	F1 *Empty
	F2 []string
}
type pP1163 struct {
	F1 *PEmpty  `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []string `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP1163) Reset()         { *m = pP1163{} }
func (m *pP1163) String() string { return "" }
func (*pP1163) ProtoMessage()    {}

type pA1164 struct {
	F1 []string
	F2 *Empty
	F3 string
}
type pP1164 struct {
	F1 []string `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 *PEmpty  `protobuf:"bytes,2,opt,name=F2,proto3"`
	F3 string   `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP1164) Reset()         { *m = pP1164{} }
func (m *pP1164) String() string { return "" }
func (*pP1164) ProtoMessage()    {}

type pA1165 struct {
	F1 *Empty
	F2 time.Time
}
type pP1165 struct {
	F1 *PEmpty              `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP1165) Reset()         { *m = pP1165{} }
func (m *pP1165) String() string { return "" }
func (*pP1165) ProtoMessage()    {}

type pA1166 struct {
	F1 *Empty
	F2 *AN1
}
type pP1166 struct {
	F1 *PEmpty `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 *PN1    `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP1166) Reset()         { *m = pP1166{} }
func (m *pP1166) String() string { return "" }
func (*pP1166) ProtoMessage()    {}

type pA1167 struct {
	F1 *AN1
	F2 *Empty
	F3 string
}
type pP1167 struct {
	F1 *PN1    `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 *PEmpty `protobuf:"bytes,2,opt,name=F2,proto3"`
	F3 string  `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP1167) Reset()         { *m = pP1167{} }
func (m *pP1167) String() string { return "" }
func (*pP1167) ProtoMessage()    {}

type pA1168 struct {
	F1 *Empty
	F2 []*AN2
}
type pP1168 struct {
	F1 *PEmpty `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []*PN2  `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP1168) Reset()         { *m = pP1168{} }
func (m *pP1168) String() string { return "" }
func (*pP1168) ProtoMessage()    {}

type pA1169 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 *Empty
	F18 string
}
type pP1169 struct {
	F1  int32   `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32   `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32   `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32   `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32   `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32   `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32   `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32   `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32   `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32   `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32   `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32   `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32   `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32   `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32   `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32   `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 *PEmpty `protobuf:"bytes,17,opt,name=F17,proto3"`
	F18 string  `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP1169) Reset()         { *m = pP1169{} }
func (m *pP1169) String() string { return "" }
func (*pP1169) ProtoMessage()    {}

type pA1170 struct{ F1 []*Empty }
type pP1170 struct {
	F1 []*PEmpty `protobuf:"bytes,1,rep,name=F1,proto3"`
}

func (m *pP1170) Reset()         { *m = pP1170{} }
func (m *pP1170) String() string { return "" }
func (*pP1170) ProtoMessage()    {}

type pA1171 struct {
	F1 []*Empty
	F2 int8
}
type pP1171 struct {
	F1 []*PEmpty `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 int32     `protobuf:"zigzag32,2,opt,name=F2,proto3"`
}

func (m *pP1171) Reset()         { *m = pP1171{} }
func (m *pP1171) String() string { return "" }
func (*pP1171) ProtoMessage()    {}

type pA1172 struct {
	F1 []*Empty
	F2 uint64
}
type pP1172 struct {
	F1 []*PEmpty `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 uint64    `protobuf:"varint,2,opt,name=F2,proto3"`
}

func (m *pP1172) Reset()         { *m = pP1172{} }
func (m *pP1172) String() string { return "" }
func (*pP1172) ProtoMessage()    {}

type pA1173 struct {
	F1 []*Empty
	F2 int32 `binary:"fixed32"`
}
type pP1173 struct {
	F1 []*PEmpty `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 int32     `protobuf:"fixed32,2,opt,name=F2,proto3"`
}

func (m *pP1173) Reset()         { *m = pP1173{} }
func (m *pP1173) String() string { return "" }
func (*pP1173) ProtoMessage()    {}

type pA1174 struct {
	F1 []*Empty
	F2 string
}
type pP1174 struct {
	F1 []*PEmpty `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 string    `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP1174) Reset()         { *m = pP1174{} }
func (m *pP1174) String() string { return "" }
func (*pP1174) ProtoMessage()    {}

type pA1175 struct {
	F1 []*Empty
	F2 []byte
}
type pP1175 struct {
	F1 []*PEmpty `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []byte    `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP1175) Reset()         { *m = pP1175{} }
func (m *pP1175) String() string { return "" }
func (*pP1175) ProtoMessage()    {}

type pA1176 struct {
	F1 []*Empty
	F2 []int
}
type pP1176 struct {
	F1 []*PEmpty `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []int64   `protobuf:"varint,2,rep,packed,name=F2,proto3"`
}

func (m *pP1176) Reset()         { *m = pP1176{} }
func (m *pP1176) String() string { return "" }
func (*pP1176) ProtoMessage()    {}

type pA1177 struct {
	F1 []int
	F2 []*Empty
	F3 string
}
type pP1177 struct {
	F1 []int64   `protobuf:"varint,1,rep,packed,name=F1,proto3"`
	F2 []*PEmpty `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string    `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP1177) Reset()         { *m = pP1177{} }
func (m *pP1177) String() string { return "" }
func (*pP1177) ProtoMessage()    {}

type pA1178 struct {
	F1 []*Empty
	F2 []string
}
type pP1178 struct {
	F1 []*PEmpty `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []string  `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP1178) Reset()         { *m = pP1178{} }
func (m *pP1178) String() string { return "" }
func (*pP1178) ProtoMessage()    {}

type pA1179 struct {
	F1 []string
	F2 []*Empty
	F3 string
}
type pP1179 struct {
	F1 []string  `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []*PEmpty `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string    `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP1179) Reset()         { *m = pP1179{} }
func (m *pP1179) String() string { return "" }
func (*pP1179) ProtoMessage()    {}

type pA1180 struct {
	F1 []*Empty
	F2 time.Time
}
type pP1180 struct {
	F1 []*PEmpty            `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 *timestamp.Timestamp `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP1180) Reset()         { *m = pP1180{} }
func (m *pP1180) String() string { return "" }
func (*pP1180) ProtoMessage()    {}

type pA1181 struct {
	F1 []*Empty
	F2 *AN1
}
type pP1181 struct {
	F1 []*PEmpty `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 *PN1      `protobuf:"bytes,2,opt,name=F2,proto3"`
}

func (m *pP1181) Reset()         { *m = pP1181{} }
func (m *pP1181) String() string { return "" }
func (*pP1181) ProtoMessage()    {}

type pA1182 struct {
	F1 *AN1
	F2 []*Empty
	F3 string
}
type pP1182 struct {
	F1 *PN1      `protobuf:"bytes,1,opt,name=F1,proto3"`
	F2 []*PEmpty `protobuf:"bytes,2,rep,name=F2,proto3"`
	F3 string    `protobuf:"bytes,3,opt,name=F3,proto3"`
}

func (m *pP1182) Reset()         { *m = pP1182{} }
func (m *pP1182) String() string { return "" }
func (*pP1182) ProtoMessage()    {}

type pA1183 struct {
	F1 []*Empty
	F2 []*AN2
}
type pP1183 struct {
	F1 []*PEmpty `protobuf:"bytes,1,rep,name=F1,proto3"`
	F2 []*PN2    `protobuf:"bytes,2,rep,name=F2,proto3"`
}

func (m *pP1183) Reset()         { *m = pP1183{} }
func (m *pP1183) String() string { return "" }
func (*pP1183) ProtoMessage()    {}

type pA1184 struct {
	F1  int16
	F2  int16
	F3  int16
	F4  int16
	F5  int16
	F6  int16
	F7  int16
	F8  int16
	F9  int16
	F10 int16
	F11 int16
	F12 int16
	F13 int16
	F14 int16
	F15 int16
	F16 int16
	F17 []*Empty
	F18 string
}
type pP1184 struct {
	F1  int32     `protobuf:"zigzag32,1,opt,name=F1,proto3"`
	F2  int32     `protobuf:"zigzag32,2,opt,name=F2,proto3"`
	F3  int32     `protobuf:"zigzag32,3,opt,name=F3,proto3"`
	F4  int32     `protobuf:"zigzag32,4,opt,name=F4,proto3"`
	F5  int32     `protobuf:"zigzag32,5,opt,name=F5,proto3"`
	F6  int32     `protobuf:"zigzag32,6,opt,name=F6,proto3"`
	F7  int32     `protobuf:"zigzag32,7,opt,name=F7,proto3"`
	F8  int32     `protobuf:"zigzag32,8,opt,name=F8,proto3"`
	F9  int32     `protobuf:"zigzag32,9,opt,name=F9,proto3"`
	F10 int32     `protobuf:"zigzag32,10,opt,name=F10,proto3"`
	F11 int32     `protobuf:"zigzag32,11,opt,name=F11,proto3"`
	F12 int32     `protobuf:"zigzag32,12,opt,name=F12,proto3"`
	F13 int32     `protobuf:"zigzag32,13,opt,name=F13,proto3"`
	F14 int32     `protobuf:"zigzag32,14,opt,name=F14,proto3"`
	F15 int32     `protobuf:"zigzag32,15,opt,name=F15,proto3"`
	F16 int32     `protobuf:"zigzag32,16,opt,name=F16,proto3"`
	F17 []*PEmpty `protobuf:"bytes,17,rep,name=F17,proto3"`
	F18 string    `protobuf:"bytes,18,opt,name=F18,proto3"`
}

func (m *pP1184) Reset()         { *m = pP1184{} }
func (m *pP1184) String() string { return "" }
func (*pP1184) ProtoMessage()    {}

var pbPairs = []pbPair{
	{"bool", pA0{}, &pP0{}},
	{"bool,i8", pA1{}, &pP1{}},
	{"bool,u64", pA2{}, &pP2{}},
	{"bool,f32", pA3{}, &pP3{}},
	{"bool,str", pA4{}, &pP4{}},
	{"bool,bytes", pA5{}, &pP5{}},
	{"bool,rep_int", pA6{}, &pP6{}},
	{"rep_int,bool,str", pA7{}, &pP7{}},
	{"bool,rep_str", pA8{}, &pP8{}},
	{"rep_str,bool,str", pA9{}, &pP9{}},
	{"bool,time", pA10{}, &pP10{}},
	{"bool,pn1", pA11{}, &pP11{}},
	{"pn1,bool,str", pA12{}, &pP12{}},
	{"bool,rep_pn2", pA13{}, &pP13{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,bool,str", pA14{}, &pP14{}},
	{"rep_bool", pA15{}, &pP15{}},
	{"rep_bool,i8", pA16{}, &pP16{}},
	{"rep_bool,u64", pA17{}, &pP17{}},
	{"rep_bool,f32", pA18{}, &pP18{}},
	{"rep_bool,str", pA19{}, &pP19{}},
	{"rep_bool,bytes", pA20{}, &pP20{}},
	{"rep_bool,rep_int", pA21{}, &pP21{}},
	{"rep_int,rep_bool,str", pA22{}, &pP22{}},
	{"rep_bool,rep_str", pA23{}, &pP23{}},
	{"rep_str,rep_bool,str", pA24{}, &pP24{}},
	{"rep_bool,time", pA25{}, &pP25{}},
	{"rep_bool,pn1", pA26{}, &pP26{}},
	{"pn1,rep_bool,str", pA27{}, &pP27{}},
	{"rep_bool,rep_pn2", pA28{}, &pP28{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,rep_bool,str", pA29{}, &pP29{}},
	{"arr_bool", pA30{}, &pP30{}},
	{"arr_bool,i8", pA31{}, &pP31{}},
	{"arr_bool,u64", pA32{}, &pP32{}},
	{"arr_bool,f32", pA33{}, &pP33{}},
	{"arr_bool,str", pA34{}, &pP34{}},
	{"arr_bool,bytes", pA35{}, &pP35{}},
	{"arr_bool,rep_int", pA36{}, &pP36{}},
	{"rep_int,arr_bool,str", pA37{}, &pP37{}},
	{"arr_bool,rep_str", pA38{}, &pP38{}},
	{"rep_str,arr_bool,str", pA39{}, &pP39{}},
	{"arr_bool,time", pA40{}, &pP40{}},
	{"arr_bool,pn1", pA41{}, &pP41{}},
	{"pn1,arr_bool,str", pA42{}, &pP42{}},
	{"arr_bool,rep_pn2", pA43{}, &pP43{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,arr_bool,str", pA44{}, &pP44{}},
	{"i8", pA45{}, &pP45{}},
	{"i8,i8", pA46{}, &pP46{}},
	{"i8,u64", pA47{}, &pP47{}},
	{"i8,f32", pA48{}, &pP48{}},
	{"i8,str", pA49{}, &pP49{}},
	{"i8,bytes", pA50{}, &pP50{}},
	{"i8,rep_int", pA51{}, &pP51{}},
	{"rep_int,i8,str", pA52{}, &pP52{}},
	{"i8,rep_str", pA53{}, &pP53{}},
	{"rep_str,i8,str", pA54{}, &pP54{}},
	{"i8,time", pA55{}, &pP55{}},
	{"i8,pn1", pA56{}, &pP56{}},
	{"pn1,i8,str", pA57{}, &pP57{}},
	{"i8,rep_pn2", pA58{}, &pP58{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i8,str", pA59{}, &pP59{}},
	{"rep_i8", pA60{}, &pP60{}},
	{"rep_i8,i8", pA61{}, &pP61{}},
	{"rep_i8,u64", pA62{}, &pP62{}},
	{"rep_i8,f32", pA63{}, &pP63{}},
	{"rep_i8,str", pA64{}, &pP64{}},
	{"rep_i8,bytes", pA65{}, &pP65{}},
	{"rep_i8,rep_int", pA66{}, &pP66{}},
	{"rep_int,rep_i8,str", pA67{}, &pP67{}},
	{"rep_i8,rep_str", pA68{}, &pP68{}},
	{"rep_str,rep_i8,str", pA69{}, &pP69{}},
	{"rep_i8,time", pA70{}, &pP70{}},
	{"rep_i8,pn1", pA71{}, &pP71{}},
	{"pn1,rep_i8,str", pA72{}, &pP72{}},
	{"rep_i8,rep_pn2", pA73{}, &pP73{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,rep_i8,str", pA74{}, &pP74{}},
	{"arr_i8", pA75{}, &pP75{}},
	{"arr_i8,i8", pA76{}, &pP76{}},
	{"arr_i8,u64", pA77{}, &pP77{}},
	{"arr_i8,f32", pA78{}, &pP78{}},
	{"arr_i8,str", pA79{}, &pP79{}},
	{"arr_i8,bytes", pA80{}, &pP80{}},
	{"arr_i8,rep_int", pA81{}, &pP81{}},
	{"rep_int,arr_i8,str", pA82{}, &pP82{}},
	{"arr_i8,rep_str", pA83{}, &pP83{}},
	{"rep_str,arr_i8,str", pA84{}, &pP84{}},
	{"arr_i8,time", pA85{}, &pP85{}},
	{"arr_i8,pn1", pA86{}, &pP86{}},
	{"pn1,arr_i8,str", pA87{}, &pP87{}},
	{"arr_i8,rep_pn2", pA88{}, &pP88{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,arr_i8,str", pA89{}, &pP89{}},
	{"i16", pA90{}, &pP90{}},
	{"i16,i8", pA91{}, &pP91{}},
	{"i16,u64", pA92{}, &pP92{}},
	{"i16,f32", pA93{}, &pP93{}},
	{"i16,str", pA94{}, &pP94{}},
	{"i16,bytes", pA95{}, &pP95{}},
	{"i16,rep_int", pA96{}, &pP96{}},
	{"rep_int,i16,str", pA97{}, &pP97{}},
	{"i16,rep_str", pA98{}, &pP98{}},
	{"rep_str,i16,str", pA99{}, &pP99{}},
	{"i16,time", pA100{}, &pP100{}},
	{"i16,pn1", pA101{}, &pP101{}},
	{"pn1,i16,str", pA102{}, &pP102{}},
	{"i16,rep_pn2", pA103{}, &pP103{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,str", pA104{}, &pP104{}},
	{"rep_i16", pA105{}, &pP105{}},
	{"rep_i16,i8", pA106{}, &pP106{}},
	{"rep_i16,u64", pA107{}, &pP107{}},
	{"rep_i16,f32", pA108{}, &pP108{}},
	{"rep_i16,str", pA109{}, &pP109{}},
	{"rep_i16,bytes", pA110{}, &pP110{}},
	{"rep_i16,rep_int", pA111{}, &pP111{}},
	{"rep_int,rep_i16,str", pA112{}, &pP112{}},
	{"rep_i16,rep_str", pA113{}, &pP113{}},
	{"rep_str,rep_i16,str", pA114{}, &pP114{}},
	{"rep_i16,time", pA115{}, &pP115{}},
	{"rep_i16,pn1", pA116{}, &pP116{}},
	{"pn1,rep_i16,str", pA117{}, &pP117{}},
	{"rep_i16,rep_pn2", pA118{}, &pP118{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,rep_i16,str", pA119{}, &pP119{}},
	{"arr_i16", pA120{}, &pP120{}},
	{"arr_i16,i8", pA121{}, &pP121{}},
	{"arr_i16,u64", pA122{}, &pP122{}},
	{"arr_i16,f32", pA123{}, &pP123{}},
	{"arr_i16,str", pA124{}, &pP124{}},
	{"arr_i16,bytes", pA125{}, &pP125{}},
	{"arr_i16,rep_int", pA126{}, &pP126{}},
	{"rep_int,arr_i16,str", pA127{}, &pP127{}},
	{"arr_i16,rep_str", pA128{}, &pP128{}},
	{"rep_str,arr_i16,str", pA129{}, &pP129{}},
	{"arr_i16,time", pA130{}, &pP130{}},
	{"arr_i16,pn1", pA131{}, &pP131{}},
	{"pn1,arr_i16,str", pA132{}, &pP132{}},
	{"arr_i16,rep_pn2", pA133{}, &pP133{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,arr_i16,str", pA134{}, &pP134{}},
	{"i32", pA135{}, &pP135{}},
	{"i32,i8", pA136{}, &pP136{}},
	{"i32,u64", pA137{}, &pP137{}},
	{"i32,f32", pA138{}, &pP138{}},
	{"i32,str", pA139{}, &pP139{}},
	{"i32,bytes", pA140{}, &pP140{}},
	{"i32,rep_int", pA141{}, &pP141{}},
	{"rep_int,i32,str", pA142{}, &pP142{}},
	{"i32,rep_str", pA143{}, &pP143{}},
	{"rep_str,i32,str", pA144{}, &pP144{}},
	{"i32,time", pA145{}, &pP145{}},
	{"i32,pn1", pA146{}, &pP146{}},
	{"pn1,i32,str", pA147{}, &pP147{}},
	{"i32,rep_pn2", pA148{}, &pP148{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i32,str", pA149{}, &pP149{}},
	{"rep_i32", pA150{}, &pP150{}},
	{"rep_i32,i8", pA151{}, &pP151{}},
	{"rep_i32,u64", pA152{}, &pP152{}},
	{"rep_i32,f32", pA153{}, &pP153{}},
	{"rep_i32,str", pA154{}, &pP154{}},
	{"rep_i32,bytes", pA155{}, &pP155{}},
	{"rep_i32,rep_int", pA156{}, &pP156{}},
	{"rep_int,rep_i32,str", pA157{}, &pP157{}},
	{"rep_i32,rep_str", pA158{}, &pP158{}},
	{"rep_str,rep_i32,str", pA159{}, &pP159{}},
	{"rep_i32,time", pA160{}, &pP160{}},
	{"rep_i32,pn1", pA161{}, &pP161{}},
	{"pn1,rep_i32,str", pA162{}, &pP162{}},
	{"rep_i32,rep_pn2", pA163{}, &pP163{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,rep_i32,str", pA164{}, &pP164{}},
	{"arr_i32", pA165{}, &pP165{}},
	{"arr_i32,i8", pA166{}, &pP166{}},
	{"arr_i32,u64", pA167{}, &pP167{}},
	{"arr_i32,f32", pA168{}, &pP168{}},
	{"arr_i32,str", pA169{}, &pP169{}},
	{"arr_i32,bytes", pA170{}, &pP170{}},
	{"arr_i32,rep_int", pA171{}, &pP171{}},
	{"rep_int,arr_i32,str", pA172{}, &pP172{}},
	{"arr_i32,rep_str", pA173{}, &pP173{}},
	{"rep_str,arr_i32,str", pA174{}, &pP174{}},
	{"arr_i32,time", pA175{}, &pP175{}},
	{"arr_i32,pn1", pA176{}, &pP176{}},
	{"pn1,arr_i32,str", pA177{}, &pP177{}},
	{"arr_i32,rep_pn2", pA178{}, &pP178{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,arr_i32,str", pA179{}, &pP179{}},
	{"i64", pA180{}, &pP180{}},
	{"i64,i8", pA181{}, &pP181{}},
	{"i64,u64", pA182{}, &pP182{}},
	{"i64,f32", pA183{}, &pP183{}},
	{"i64,str", pA184{}, &pP184{}},
	{"i64,bytes", pA185{}, &pP185{}},
	{"i64,rep_int", pA186{}, &pP186{}},
	{"rep_int,i64,str", pA187{}, &pP187{}},
	{"i64,rep_str", pA188{}, &pP188{}},
	{"rep_str,i64,str", pA189{}, &pP189{}},
	{"i64,time", pA190{}, &pP190{}},
	{"i64,pn1", pA191{}, &pP191{}},
	{"pn1,i64,str", pA192{}, &pP192{}},
	{"i64,rep_pn2", pA193{}, &pP193{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i64,str", pA194{}, &pP194{}},
	{"rep_i64", pA195{}, &pP195{}},
	{"rep_i64,i8", pA196{}, &pP196{}},
	{"rep_i64,u64", pA197{}, &pP197{}},
	{"rep_i64,f32", pA198{}, &pP198{}},
	{"rep_i64,str", pA199{}, &pP199{}},
	{"rep_i64,bytes", pA200{}, &pP200{}},
	{"rep_i64,rep_int", pA201{}, &pP201{}},
	{"rep_int,rep_i64,str", pA202{}, &pP202{}},
	{"rep_i64,rep_str", pA203{}, &pP203{}},
	{"rep_str,rep_i64,str", pA204{}, &pP204{}},
	{"rep_i64,time", pA205{}, &pP205{}},
	{"rep_i64,pn1", pA206{}, &pP206{}},
	{"pn1,rep_i64,str", pA207{}, &pP207{}},
	{"rep_i64,rep_pn2", pA208{}, &pP208{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,rep_i64,str", pA209{}, &pP209{}},
	{"arr_i64", pA210{}, &pP210{}},
	{"arr_i64,i8", pA211{}, &pP211{}},
	{"arr_i64,u64", pA212{}, &pP212{}},
	{"arr_i64,f32", pA213{}, &pP213{}},
	{"arr_i64,str", pA214{}, &pP214{}},
	{"arr_i64,bytes", pA215{}, &pP215{}},
	{"arr_i64,rep_int", pA216{}, &pP216{}},
	{"rep_int,arr_i64,str", pA217{}, &pP217{}},
	{"arr_i64,rep_str", pA218{}, &pP218{}},
	{"rep_str,arr_i64,str", pA219{}, &pP219{}},
	{"arr_i64,time", pA220{}, &pP220{}},
	{"arr_i64,pn1", pA221{}, &pP221{}},
	{"pn1,arr_i64,str", pA222{}, &pP222{}},
	{"arr_i64,rep_pn2", pA223{}, &pP223{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,arr_i64,str", pA224{}, &pP224{}},
	{"int", pA225{}, &pP225{}},
	{"int,i8", pA226{}, &pP226{}},
	{"int,u64", pA227{}, &pP227{}},
	{"int,f32", pA228{}, &pP228{}},
	{"int,str", pA229{}, &pP229{}},
	{"int,bytes", pA230{}, &pP230{}},
	{"int,rep_int", pA231{}, &pP231{}},
	{"rep_int,int,str", pA232{}, &pP232{}},
	{"int,rep_str", pA233{}, &pP233{}},
	{"rep_str,int,str", pA234{}, &pP234{}},
	{"int,time", pA235{}, &pP235{}},
	{"int,pn1", pA236{}, &pP236{}},
	{"pn1,int,str", pA237{}, &pP237{}},
	{"int,rep_pn2", pA238{}, &pP238{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,int,str", pA239{}, &pP239{}},
	{"rep_int", pA240{}, &pP240{}},
	{"rep_int,i8", pA241{}, &pP241{}},
	{"rep_int,u64", pA242{}, &pP242{}},
	{"rep_int,f32", pA243{}, &pP243{}},
	{"rep_int,str", pA244{}, &pP244{}},
	{"rep_int,bytes", pA245{}, &pP245{}},
	{"rep_int,rep_int", pA246{}, &pP246{}},
	{"rep_int,rep_int,str", pA247{}, &pP247{}},
	{"rep_int,rep_str", pA248{}, &pP248{}},
	{"rep_str,rep_int,str", pA249{}, &pP249{}},
	{"rep_int,time", pA250{}, &pP250{}},
	{"rep_int,pn1", pA251{}, &pP251{}},
	{"pn1,rep_int,str", pA252{}, &pP252{}},
	{"rep_int,rep_pn2", pA253{}, &pP253{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,rep_int,str", pA254{}, &pP254{}},
	{"arr_int", pA255{}, &pP255{}},
	{"arr_int,i8", pA256{}, &pP256{}},
	{"arr_int,u64", pA257{}, &pP257{}},
	{"arr_int,f32", pA258{}, &pP258{}},
	{"arr_int,str", pA259{}, &pP259{}},
	{"arr_int,bytes", pA260{}, &pP260{}},
	{"arr_int,rep_int", pA261{}, &pP261{}},
	{"rep_int,arr_int,str", pA262{}, &pP262{}},
	{"arr_int,rep_str", pA263{}, &pP263{}},
	{"rep_str,arr_int,str", pA264{}, &pP264{}},
	{"arr_int,time", pA265{}, &pP265{}},
	{"arr_int,pn1", pA266{}, &pP266{}},
	{"pn1,arr_int,str", pA267{}, &pP267{}},
	{"arr_int,rep_pn2", pA268{}, &pP268{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,arr_int,str", pA269{}, &pP269{}},
	{"u8", pA270{}, &pP270{}},
	{"u8,i8", pA271{}, &pP271{}},
	{"u8,u64", pA272{}, &pP272{}},
	{"u8,f32", pA273{}, &pP273{}},
	{"u8,str", pA274{}, &pP274{}},
	{"u8,bytes", pA275{}, &pP275{}},
	{"u8,rep_int", pA276{}, &pP276{}},
	{"rep_int,u8,str", pA277{}, &pP277{}},
	{"u8,rep_str", pA278{}, &pP278{}},
	{"rep_str,u8,str", pA279{}, &pP279{}},
	{"u8,time", pA280{}, &pP280{}},
	{"u8,pn1", pA281{}, &pP281{}},
	{"pn1,u8,str", pA282{}, &pP282{}},
	{"u8,rep_pn2", pA283{}, &pP283{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,u8,str", pA284{}, &pP284{}},
	{"u16", pA285{}, &pP285{}},
	{"u16,i8", pA286{}, &pP286{}},
	{"u16,u64", pA287{}, &pP287{}},
	{"u16,f32", pA288{}, &pP288{}},
	{"u16,str", pA289{}, &pP289{}},
	{"u16,bytes", pA290{}, &pP290{}},
	{"u16,rep_int", pA291{}, &pP291{}},
	{"rep_int,u16,str", pA292{}, &pP292{}},
	{"u16,rep_str", pA293{}, &pP293{}},
	{"rep_str,u16,str", pA294{}, &pP294{}},
	{"u16,time", pA295{}, &pP295{}},
	{"u16,pn1", pA296{}, &pP296{}},
	{"pn1,u16,str", pA297{}, &pP297{}},
	{"u16,rep_pn2", pA298{}, &pP298{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,u16,str", pA299{}, &pP299{}},
	{"rep_u16", pA300{}, &pP300{}},
	{"rep_u16,i8", pA301{}, &pP301{}},
	{"rep_u16,u64", pA302{}, &pP302{}},
	{"rep_u16,f32", pA303{}, &pP303{}},
	{"rep_u16,str", pA304{}, &pP304{}},
	{"rep_u16,bytes", pA305{}, &pP305{}},
	{"rep_u16,rep_int", pA306{}, &pP306{}},
	{"rep_int,rep_u16,str", pA307{}, &pP307{}},
	{"rep_u16,rep_str", pA308{}, &pP308{}},
	{"rep_str,rep_u16,str", pA309{}, &pP309{}},
	{"rep_u16,time", pA310{}, &pP310{}},
	{"rep_u16,pn1", pA311{}, &pP311{}},
	{"pn1,rep_u16,str", pA312{}, &pP312{}},
	{"rep_u16,rep_pn2", pA313{}, &pP313{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,rep_u16,str", pA314{}, &pP314{}},
	{"arr_u16", pA315{}, &pP315{}},
	{"arr_u16,i8", pA316{}, &pP316{}},
	{"arr_u16,u64", pA317{}, &pP317{}},
	{"arr_u16,f32", pA318{}, &pP318{}},
	{"arr_u16,str", pA319{}, &pP319{}},
	{"arr_u16,bytes", pA320{}, &pP320{}},
	{"arr_u16,rep_int", pA321{}, &pP321{}},
	{"rep_int,arr_u16,str", pA322{}, &pP322{}},
	{"arr_u16,rep_str", pA323{}, &pP323{}},
	{"rep_str,arr_u16,str", pA324{}, &pP324{}},
	{"arr_u16,time", pA325{}, &pP325{}},
	{"arr_u16,pn1", pA326{}, &pP326{}},
	{"pn1,arr_u16,str", pA327{}, &pP327{}},
	{"arr_u16,rep_pn2", pA328{}, &pP328{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,arr_u16,str", pA329{}, &pP329{}},
	{"u32", pA330{}, &pP330{}},
	{"u32,i8", pA331{}, &pP331{}},
	{"u32,u64", pA332{}, &pP332{}},
	{"u32,f32", pA333{}, &pP333{}},
	{"u32,str", pA334{}, &pP334{}},
	{"u32,bytes", pA335{}, &pP335{}},
	{"u32,rep_int", pA336{}, &pP336{}},
	{"rep_int,u32,str", pA337{}, &pP337{}},
	{"u32,rep_str", pA338{}, &pP338{}},
	{"rep_str,u32,str", pA339{}, &pP339{}},
	{"u32,time", pA340{}, &pP340{}},
	{"u32,pn1", pA341{}, &pP341{}},
	{"pn1,u32,str", pA342{}, &pP342{}},
	{"u32,rep_pn2", pA343{}, &pP343{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,u32,str", pA344{}, &pP344{}},
	{"rep_u32", pA345{}, &pP345{}},
	{"rep_u32,i8", pA346{}, &pP346{}},
	{"rep_u32,u64", pA347{}, &pP347{}},
	{"rep_u32,f32", pA348{}, &pP348{}},
	{"rep_u32,str", pA349{}, &pP349{}},
	{"rep_u32,bytes", pA350{}, &pP350{}},
	{"rep_u32,rep_int", pA351{}, &pP351{}},
	{"rep_int,rep_u32,str", pA352{}, &pP352{}},
	{"rep_u32,rep_str", pA353{}, &pP353{}},
	{"rep_str,rep_u32,str", pA354{}, &pP354{}},
	{"rep_u32,time", pA355{}, &pP355{}},
	{"rep_u32,pn1", pA356{}, &pP356{}},
	{"pn1,rep_u32,str", pA357{}, &pP357{}},
	{"rep_u32,rep_pn2", pA358{}, &pP358{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,rep_u32,str", pA359{}, &pP359{}},
	{"arr_u32", pA360{}, &pP360{}},
	{"arr_u32,i8", pA361{}, &pP361{}},
	{"arr_u32,u64", pA362{}, &pP362{}},
	{"arr_u32,f32", pA363{}, &pP363{}},
	{"arr_u32,str", pA364{}, &pP364{}},
	{"arr_u32,bytes", pA365{}, &pP365{}},
	{"arr_u32,rep_int", pA366{}, &pP366{}},
	{"rep_int,arr_u32,str", pA367{}, &pP367{}},
	{"arr_u32,rep_str", pA368{}, &pP368{}},
	{"rep_str,arr_u32,str", pA369{}, &pP369{}},
	{"arr_u32,time", pA370{}, &pP370{}},
	{"arr_u32,pn1", pA371{}, &pP371{}},
	{"pn1,arr_u32,str", pA372{}, &pP372{}},
	{"arr_u32,rep_pn2", pA373{}, &pP373{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,arr_u32,str", pA374{}, &pP374{}},
	{"u64", pA375{}, &pP375{}},
	{"u64,i8", pA376{}, &pP376{}},
	{"u64,u64", pA377{}, &pP377{}},
	{"u64,f32", pA378{}, &pP378{}},
	{"u64,str", pA379{}, &pP379{}},
	{"u64,bytes", pA380{}, &pP380{}},
	{"u64,rep_int", pA381{}, &pP381{}},
	{"rep_int,u64,str", pA382{}, &pP382{}},
	{"u64,rep_str", pA383{}, &pP383{}},
	{"rep_str,u64,str", pA384{}, &pP384{}},
	{"u64,time", pA385{}, &pP385{}},
	{"u64,pn1", pA386{}, &pP386{}},
	{"pn1,u64,str", pA387{}, &pP387{}},
	{"u64,rep_pn2", pA388{}, &pP388{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,u64,str", pA389{}, &pP389{}},
	{"rep_u64", pA390{}, &pP390{}},
	{"rep_u64,i8", pA391{}, &pP391{}},
	{"rep_u64,u64", pA392{}, &pP392{}},
	{"rep_u64,f32", pA393{}, &pP393{}},
	{"rep_u64,str", pA394{}, &pP394{}},
	{"rep_u64,bytes", pA395{}, &pP395{}},
	{"rep_u64,rep_int", pA396{}, &pP396{}},
	{"rep_int,rep_u64,str", pA397{}, &pP397{}},
	{"rep_u64,rep_str", pA398{}, &pP398{}},
	{"rep_str,rep_u64,str", pA399{}, &pP399{}},
	{"rep_u64,time", pA400{}, &pP400{}},
	{"rep_u64,pn1", pA401{}, &pP401{}},
	{"pn1,rep_u64,str", pA402{}, &pP402{}},
	{"rep_u64,rep_pn2", pA403{}, &pP403{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,rep_u64,str", pA404{}, &pP404{}},
	{"arr_u64", pA405{}, &pP405{}},
	{"arr_u64,i8", pA406{}, &pP406{}},
	{"arr_u64,u64", pA407{}, &pP407{}},
	{"arr_u64,f32", pA408{}, &pP408{}},
	{"arr_u64,str", pA409{}, &pP409{}},
	{"arr_u64,bytes", pA410{}, &pP410{}},
	{"arr_u64,rep_int", pA411{}, &pP411{}},
	{"rep_int,arr_u64,str", pA412{}, &pP412{}},
	{"arr_u64,rep_str", pA413{}, &pP413{}},
	{"rep_str,arr_u64,str", pA414{}, &pP414{}},
	{"arr_u64,time", pA415{}, &pP415{}},
	{"arr_u64,pn1", pA416{}, &pP416{}},
	{"pn1,arr_u64,str", pA417{}, &pP417{}},
	{"arr_u64,rep_pn2", pA418{}, &pP418{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,arr_u64,str", pA419{}, &pP419{}},
	{"uint", pA420{}, &pP420{}},
	{"uint,i8", pA421{}, &pP421{}},
	{"uint,u64", pA422{}, &pP422{}},
	{"uint,f32", pA423{}, &pP423{}},
	{"uint,str", pA424{}, &pP424{}},
	{"uint,bytes", pA425{}, &pP425{}},
	{"uint,rep_int", pA426{}, &pP426{}},
	{"rep_int,uint,str", pA427{}, &pP427{}},
	{"uint,rep_str", pA428{}, &pP428{}},
	{"rep_str,uint,str", pA429{}, &pP429{}},
	{"uint,time", pA430{}, &pP430{}},
	{"uint,pn1", pA431{}, &pP431{}},
	{"pn1,uint,str", pA432{}, &pP432{}},
	{"uint,rep_pn2", pA433{}, &pP433{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,uint,str", pA434{}, &pP434{}},
	{"rep_uint", pA435{}, &pP435{}},
	{"rep_uint,i8", pA436{}, &pP436{}},
	{"rep_uint,u64", pA437{}, &pP437{}},
	{"rep_uint,f32", pA438{}, &pP438{}},
	{"rep_uint,str", pA439{}, &pP439{}},
	{"rep_uint,bytes", pA440{}, &pP440{}},
	{"rep_uint,rep_int", pA441{}, &pP441{}},
	{"rep_int,rep_uint,str", pA442{}, &pP442{}},
	{"rep_uint,rep_str", pA443{}, &pP443{}},
	{"rep_str,rep_uint,str", pA444{}, &pP444{}},
	{"rep_uint,time", pA445{}, &pP445{}},
	{"rep_uint,pn1", pA446{}, &pP446{}},
	{"pn1,rep_uint,str", pA447{}, &pP447{}},
	{"rep_uint,rep_pn2", pA448{}, &pP448{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,rep_uint,str", pA449{}, &pP449{}},
	{"arr_uint", pA450{}, &pP450{}},
	{"arr_uint,i8", pA451{}, &pP451{}},
	{"arr_uint,u64", pA452{}, &pP452{}},
	{"arr_uint,f32", pA453{}, &pP453{}},
	{"arr_uint,str", pA454{}, &pP454{}},
	{"arr_uint,bytes", pA455{}, &pP455{}},
	{"arr_uint,rep_int", pA456{}, &pP456{}},
	{"rep_int,arr_uint,str", pA457{}, &pP457{}},
	{"arr_uint,rep_str", pA458{}, &pP458{}},
	{"rep_str,arr_uint,str", pA459{}, &pP459{}},
	{"arr_uint,time", pA460{}, &pP460{}},
	{"arr_uint,pn1", pA461{}, &pP461{}},
	{"pn1,arr_uint,str", pA462{}, &pP462{}},
	{"arr_uint,rep_pn2", pA463{}, &pP463{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,arr_uint,str", pA464{}, &pP464{}},
	{"f64", pA465{}, &pP465{}},
	{"f64,i8", pA466{}, &pP466{}},
	{"f64,u64", pA467{}, &pP467{}},
	{"f64,f32", pA468{}, &pP468{}},
	{"f64,str", pA469{}, &pP469{}},
	{"f64,bytes", pA470{}, &pP470{}},
	{"f64,rep_int", pA471{}, &pP471{}},
	{"rep_int,f64,str", pA472{}, &pP472{}},
	{"f64,rep_str", pA473{}, &pP473{}},
	{"rep_str,f64,str", pA474{}, &pP474{}},
	{"f64,time", pA475{}, &pP475{}},
	{"f64,pn1", pA476{}, &pP476{}},
	{"pn1,f64,str", pA477{}, &pP477{}},
	{"f64,rep_pn2", pA478{}, &pP478{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,f64,str", pA479{}, &pP479{}},
	{"rep_f64", pA480{}, &pP480{}},
	{"rep_f64,i8", pA481{}, &pP481{}},
	{"rep_f64,u64", pA482{}, &pP482{}},
	{"rep_f64,f32", pA483{}, &pP483{}},
	{"rep_f64,str", pA484{}, &pP484{}},
	{"rep_f64,bytes", pA485{}, &pP485{}},
	{"rep_f64,rep_int", pA486{}, &pP486{}},
	{"rep_int,rep_f64,str", pA487{}, &pP487{}},
	{"rep_f64,rep_str", pA488{}, &pP488{}},
	{"rep_str,rep_f64,str", pA489{}, &pP489{}},
	{"rep_f64,time", pA490{}, &pP490{}},
	{"rep_f64,pn1", pA491{}, &pP491{}},
	{"pn1,rep_f64,str", pA492{}, &pP492{}},
	{"rep_f64,rep_pn2", pA493{}, &pP493{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,rep_f64,str", pA494{}, &pP494{}},
	{"arr_f64", pA495{}, &pP495{}},
	{"arr_f64,i8", pA496{}, &pP496{}},
	{"arr_f64,u64", pA497{}, &pP497{}},
	{"arr_f64,f32", pA498{}, &pP498{}},
	{"arr_f64,str", pA499{}, &pP499{}},
	{"arr_f64,bytes", pA500{}, &pP500{}},
	{"arr_f64,rep_int", pA501{}, &pP501{}},
	{"rep_int,arr_f64,str", pA502{}, &pP502{}},
	{"arr_f64,rep_str", pA503{}, &pP503{}},
	{"rep_str,arr_f64,str", pA504{}, &pP504{}},
	{"arr_f64,time", pA505{}, &pP505{}},
	{"arr_f64,pn1", pA506{}, &pP506{}},
	{"pn1,arr_f64,str", pA507{}, &pP507{}},
	{"arr_f64,rep_pn2", pA508{}, &pP508{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,arr_f64,str", pA509{}, &pP509{}},
	{"fu64", pA510{}, &pP510{}},
	{"fu64,i8", pA511{}, &pP511{}},
	{"fu64,u64", pA512{}, &pP512{}},
	{"fu64,f32", pA513{}, &pP513{}},
	{"fu64,str", pA514{}, &pP514{}},
	{"fu64,bytes", pA515{}, &pP515{}},
	{"fu64,rep_int", pA516{}, &pP516{}},
	{"rep_int,fu64,str", pA517{}, &pP517{}},
	{"fu64,rep_str", pA518{}, &pP518{}},
	{"rep_str,fu64,str", pA519{}, &pP519{}},
	{"fu64,time", pA520{}, &pP520{}},
	{"fu64,pn1", pA521{}, &pP521{}},
	{"pn1,fu64,str", pA522{}, &pP522{}},
	{"fu64,rep_pn2", pA523{}, &pP523{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,fu64,str", pA524{}, &pP524{}},
	{"rep_fu64", pA525{}, &pP525{}},
	{"rep_fu64,i8", pA526{}, &pP526{}},
	{"rep_fu64,u64", pA527{}, &pP527{}},
	{"rep_fu64,f32", pA528{}, &pP528{}},
	{"rep_fu64,str", pA529{}, &pP529{}},
	{"rep_fu64,bytes", pA530{}, &pP530{}},
	{"rep_fu64,rep_int", pA531{}, &pP531{}},
	{"rep_int,rep_fu64,str", pA532{}, &pP532{}},
	{"rep_fu64,rep_str", pA533{}, &pP533{}},
	{"rep_str,rep_fu64,str", pA534{}, &pP534{}},
	{"rep_fu64,time", pA535{}, &pP535{}},
	{"rep_fu64,pn1", pA536{}, &pP536{}},
	{"pn1,rep_fu64,str", pA537{}, &pP537{}},
	{"rep_fu64,rep_pn2", pA538{}, &pP538{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,rep_fu64,str", pA539{}, &pP539{}},
	{"arr_fu64", pA540{}, &pP540{}},
	{"arr_fu64,i8", pA541{}, &pP541{}},
	{"arr_fu64,u64", pA542{}, &pP542{}},
	{"arr_fu64,f32", pA543{}, &pP543{}},
	{"arr_fu64,str", pA544{}, &pP544{}},
	{"arr_fu64,bytes", pA545{}, &pP545{}},
	{"arr_fu64,rep_int", pA546{}, &pP546{}},
	{"rep_int,arr_fu64,str", pA547{}, &pP547{}},
	{"arr_fu64,rep_str", pA548{}, &pP548{}},
	{"rep_str,arr_fu64,str", pA549{}, &pP549{}},
	{"arr_fu64,time", pA550{}, &pP550{}},
	{"arr_fu64,pn1", pA551{}, &pP551{}},
	{"pn1,arr_fu64,str", pA552{}, &pP552{}},
	{"arr_fu64,rep_pn2", pA553{}, &pP553{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,arr_fu64,str", pA554{}, &pP554{}},
	{"f32", pA555{}, &pP555{}},
	{"f32,i8", pA556{}, &pP556{}},
	{"f32,u64", pA557{}, &pP557{}},
	{"f32,f32", pA558{}, &pP558{}},
	{"f32,str", pA559{}, &pP559{}},
	{"f32,bytes", pA560{}, &pP560{}},
	{"f32,rep_int", pA561{}, &pP561{}},
	{"rep_int,f32,str", pA562{}, &pP562{}},
	{"f32,rep_str", pA563{}, &pP563{}},
	{"rep_str,f32,str", pA564{}, &pP564{}},
	{"f32,time", pA565{}, &pP565{}},
	{"f32,pn1", pA566{}, &pP566{}},
	{"pn1,f32,str", pA567{}, &pP567{}},
	{"f32,rep_pn2", pA568{}, &pP568{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,f32,str", pA569{}, &pP569{}},
	{"rep_f32", pA570{}, &pP570{}},
	{"rep_f32,i8", pA571{}, &pP571{}},
	{"rep_f32,u64", pA572{}, &pP572{}},
	{"rep_f32,f32", pA573{}, &pP573{}},
	{"rep_f32,str", pA574{}, &pP574{}},
	{"rep_f32,bytes", pA575{}, &pP575{}},
	{"rep_f32,rep_int", pA576{}, &pP576{}},
	{"rep_int,rep_f32,str", pA577{}, &pP577{}},
	{"rep_f32,rep_str", pA578{}, &pP578{}},
	{"rep_str,rep_f32,str", pA579{}, &pP579{}},
	{"rep_f32,time", pA580{}, &pP580{}},
	{"rep_f32,pn1", pA581{}, &pP581{}},
	{"pn1,rep_f32,str", pA582{}, &pP582{}},
	{"rep_f32,rep_pn2", pA583{}, &pP583{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,rep_f32,str", pA584{}, &pP584{}},
	{"arr_f32", pA585{}, &pP585{}},
	{"arr_f32,i8", pA586{}, &pP586{}},
	{"arr_f32,u64", pA587{}, &pP587{}},
	{"arr_f32,f32", pA588{}, &pP588{}},
	{"arr_f32,str", pA589{}, &pP589{}},
	{"arr_f32,bytes", pA590{}, &pP590{}},
	{"arr_f32,rep_int", pA591{}, &pP591{}},
	{"rep_int,arr_f32,str", pA592{}, &pP592{}},
	{"arr_f32,rep_str", pA593{}, &pP593{}},
	{"rep_str,arr_f32,str", pA594{}, &pP594{}},
	{"arr_f32,time", pA595{}, &pP595{}},
	{"arr_f32,pn1", pA596{}, &pP596{}},
	{"pn1,arr_f32,str", pA597{}, &pP597{}},
	{"arr_f32,rep_pn2", pA598{}, &pP598{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,arr_f32,str", pA599{}, &pP599{}},
	{"fu32", pA600{}, &pP600{}},
	{"fu32,i8", pA601{}, &pP601{}},
	{"fu32,u64", pA602{}, &pP602{}},
	{"fu32,f32", pA603{}, &pP603{}},
	{"fu32,str", pA604{}, &pP604{}},
	{"fu32,bytes", pA605{}, &pP605{}},
	{"fu32,rep_int", pA606{}, &pP606{}},
	{"rep_int,fu32,str", pA607{}, &pP607{}},
	{"fu32,rep_str", pA608{}, &pP608{}},
	{"rep_str,fu32,str", pA609{}, &pP609{}},
	{"fu32,time", pA610{}, &pP610{}},
	{"fu32,pn1", pA611{}, &pP611{}},
	{"pn1,fu32,str", pA612{}, &pP612{}},
	{"fu32,rep_pn2", pA613{}, &pP613{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,fu32,str", pA614{}, &pP614{}},
	{"rep_fu32", pA615{}, &pP615{}},
	{"rep_fu32,i8", pA616{}, &pP616{}},
	{"rep_fu32,u64", pA617{}, &pP617{}},
	{"rep_fu32,f32", pA618{}, &pP618{}},
	{"rep_fu32,str", pA619{}, &pP619{}},
	{"rep_fu32,bytes", pA620{}, &pP620{}},
	{"rep_fu32,rep_int", pA621{}, &pP621{}},
	{"rep_int,rep_fu32,str", pA622{}, &pP622{}},
	{"rep_fu32,rep_str", pA623{}, &pP623{}},
	{"rep_str,rep_fu32,str", pA624{}, &pP624{}},
	{"rep_fu32,time", pA625{}, &pP625{}},
	{"rep_fu32,pn1", pA626{}, &pP626{}},
	{"pn1,rep_fu32,str", pA627{}, &pP627{}},
	{"rep_fu32,rep_pn2", pA628{}, &pP628{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,rep_fu32,str", pA629{}, &pP629{}},
	{"arr_fu32", pA630{}, &pP630{}},
	{"arr_fu32,i8", pA631{}, &pP631{}},
	{"arr_fu32,u64", pA632{}, &pP632{}},
	{"arr_fu32,f32", pA633{}, &pP633{}},
	{"arr_fu32,str", pA634{}, &pP634{}},
	{"arr_fu32,bytes", pA635{}, &pP635{}},
	{"arr_fu32,rep_int", pA636{}, &pP636{}},
	{"rep_int,arr_fu32,str", pA637{}, &pP637{}},
	{"arr_fu32,rep_str", pA638{}, &pP638{}},
	{"rep_str,arr_fu32,str", pA639{}, &pP639{}},
	{"arr_fu32,time", pA640{}, &pP640{}},
	{"arr_fu32,pn1", pA641{}, &pP641{}},
	{"pn1,arr_fu32,str", pA642{}, &pP642{}},
	{"arr_fu32,rep_pn2", pA643{}, &pP643{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,arr_fu32,str", pA644{}, &pP644{}},
	{"my", pA645{}, &pP645{}},
	{"my,i8", pA646{}, &pP646{}},
	{"my,u64", pA647{}, &pP647{}},
	{"my,f32", pA648{}, &pP648{}},
	{"my,str", pA649{}, &pP649{}},
	{"my,bytes", pA650{}, &pP650{}},
	{"my,rep_int", pA651{}, &pP651{}},
	{"rep_int,my,str", pA652{}, &pP652{}},
	{"my,rep_str", pA653{}, &pP653{}},
	{"rep_str,my,str", pA654{}, &pP654{}},
	{"my,time", pA655{}, &pP655{}},
	{"my,pn1", pA656{}, &pP656{}},
	{"pn1,my,str", pA657{}, &pP657{}},
	{"my,rep_pn2", pA658{}, &pP658{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,my,str", pA659{}, &pP659{}},
	{"rep_my", pA660{}, &pP660{}},
	{"rep_my,i8", pA661{}, &pP661{}},
	{"rep_my,u64", pA662{}, &pP662{}},
	{"rep_my,f32", pA663{}, &pP663{}},
	{"rep_my,str", pA664{}, &pP664{}},
	{"rep_my,bytes", pA665{}, &pP665{}},
	{"rep_my,rep_int", pA666{}, &pP666{}},
	{"rep_int,rep_my,str", pA667{}, &pP667{}},
	{"rep_my,rep_str", pA668{}, &pP668{}},
	{"rep_str,rep_my,str", pA669{}, &pP669{}},
	{"rep_my,time", pA670{}, &pP670{}},
	{"rep_my,pn1", pA671{}, &pP671{}},
	{"pn1,rep_my,str", pA672{}, &pP672{}},
	{"rep_my,rep_pn2", pA673{}, &pP673{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,rep_my,str", pA674{}, &pP674{}},
	{"arr_my", pA675{}, &pP675{}},
	{"arr_my,i8", pA676{}, &pP676{}},
	{"arr_my,u64", pA677{}, &pP677{}},
	{"arr_my,f32", pA678{}, &pP678{}},
	{"arr_my,str", pA679{}, &pP679{}},
	{"arr_my,bytes", pA680{}, &pP680{}},
	{"arr_my,rep_int", pA681{}, &pP681{}},
	{"rep_int,arr_my,str", pA682{}, &pP682{}},
	{"arr_my,rep_str", pA683{}, &pP683{}},
	{"rep_str,arr_my,str", pA684{}, &pP684{}},
	{"arr_my,time", pA685{}, &pP685{}},
	{"arr_my,pn1", pA686{}, &pP686{}},
	{"pn1,arr_my,str", pA687{}, &pP687{}},
	{"arr_my,rep_pn2", pA688{}, &pP688{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,arr_my,str", pA689{}, &pP689{}},
	{"str", pA690{}, &pP690{}},
	{"str,i8", pA691{}, &pP691{}},
	{"str,u64", pA692{}, &pP692{}},
	{"str,f32", pA693{}, &pP693{}},
	{"str,str", pA694{}, &pP694{}},
	{"str,bytes", pA695{}, &pP695{}},
	{"str,rep_int", pA696{}, &pP696{}},
	{"rep_int,str,str", pA697{}, &pP697{}},
	{"str,rep_str", pA698{}, &pP698{}},
	{"rep_str,str,str", pA699{}, &pP699{}},
	{"str,time", pA700{}, &pP700{}},
	{"str,pn1", pA701{}, &pP701{}},
	{"pn1,str,str", pA702{}, &pP702{}},
	{"str,rep_pn2", pA703{}, &pP703{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,str,str", pA704{}, &pP704{}},
	{"rep_str", pA705{}, &pP705{}},
	{"rep_str,i8", pA706{}, &pP706{}},
	{"rep_str,u64", pA707{}, &pP707{}},
	{"rep_str,f32", pA708{}, &pP708{}},
	{"rep_str,str", pA709{}, &pP709{}},
	{"rep_str,bytes", pA710{}, &pP710{}},
	{"rep_str,rep_int", pA711{}, &pP711{}},
	{"rep_int,rep_str,str", pA712{}, &pP712{}},
	{"rep_str,rep_str", pA713{}, &pP713{}},
	{"rep_str,rep_str,str", pA714{}, &pP714{}},
	{"rep_str,time", pA715{}, &pP715{}},
	{"rep_str,pn1", pA716{}, &pP716{}},
	{"pn1,rep_str,str", pA717{}, &pP717{}},
	{"rep_str,rep_pn2", pA718{}, &pP718{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,rep_str,str", pA719{}, &pP719{}},
	{"arr_str", pA720{}, &pP720{}},
	{"arr_str,i8", pA721{}, &pP721{}},
	{"arr_str,u64", pA722{}, &pP722{}},
	{"arr_str,f32", pA723{}, &pP723{}},
	{"arr_str,str", pA724{}, &pP724{}},
	{"arr_str,bytes", pA725{}, &pP725{}},
	{"arr_str,rep_int", pA726{}, &pP726{}},
	{"rep_int,arr_str,str", pA727{}, &pP727{}},
	{"arr_str,rep_str", pA728{}, &pP728{}},
	{"rep_str,arr_str,str", pA729{}, &pP729{}},
	{"arr_str,time", pA730{}, &pP730{}},
	{"arr_str,pn1", pA731{}, &pP731{}},
	{"pn1,arr_str,str", pA732{}, &pP732{}},
	{"arr_str,rep_pn2", pA733{}, &pP733{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,arr_str,str", pA734{}, &pP734{}},
	{"mystr", pA735{}, &pP735{}},
	{"mystr,i8", pA736{}, &pP736{}},
	{"mystr,u64", pA737{}, &pP737{}},
	{"mystr,f32", pA738{}, &pP738{}},
	{"mystr,str", pA739{}, &pP739{}},
	{"mystr,bytes", pA740{}, &pP740{}},
	{"mystr,rep_int", pA741{}, &pP741{}},
	{"rep_int,mystr,str", pA742{}, &pP742{}},
	{"mystr,rep_str", pA743{}, &pP743{}},
	{"rep_str,mystr,str", pA744{}, &pP744{}},
	{"mystr,time", pA745{}, &pP745{}},
	{"mystr,pn1", pA746{}, &pP746{}},
	{"pn1,mystr,str", pA747{}, &pP747{}},
	{"mystr,rep_pn2", pA748{}, &pP748{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,mystr,str", pA749{}, &pP749{}},
	{"rep_mystr", pA750{}, &pP750{}},
	{"rep_mystr,i8", pA751{}, &pP751{}},
	{"rep_mystr,u64", pA752{}, &pP752{}},
	{"rep_mystr,f32", pA753{}, &pP753{}},
	{"rep_mystr,str", pA754{}, &pP754{}},
	{"rep_mystr,bytes", pA755{}, &pP755{}},
	{"rep_mystr,rep_int", pA756{}, &pP756{}},
	{"rep_int,rep_mystr,str", pA757{}, &pP757{}},
	{"rep_mystr,rep_str", pA758{}, &pP758{}},
	{"rep_str,rep_mystr,str", pA759{}, &pP759{}},
	{"rep_mystr,time", pA760{}, &pP760{}},
	{"rep_mystr,pn1", pA761{}, &pP761{}},
	{"pn1,rep_mystr,str", pA762{}, &pP762{}},
	{"rep_mystr,rep_pn2", pA763{}, &pP763{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,rep_mystr,str", pA764{}, &pP764{}},
	{"bytes", pA765{}, &pP765{}},
	{"bytes,i8", pA766{}, &pP766{}},
	{"bytes,u64", pA767{}, &pP767{}},
	{"bytes,f32", pA768{}, &pP768{}},
	{"bytes,str", pA769{}, &pP769{}},
	{"bytes,bytes", pA770{}, &pP770{}},
	{"bytes,rep_int", pA771{}, &pP771{}},
	{"rep_int,bytes,str", pA772{}, &pP772{}},
	{"bytes,rep_str", pA773{}, &pP773{}},
	{"rep_str,bytes,str", pA774{}, &pP774{}},
	{"bytes,time", pA775{}, &pP775{}},
	{"bytes,pn1", pA776{}, &pP776{}},
	{"pn1,bytes,str", pA777{}, &pP777{}},
	{"bytes,rep_pn2", pA778{}, &pP778{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,bytes,str", pA779{}, &pP779{}},
	{"rep_bytes", pA780{}, &pP780{}},
	{"rep_bytes,i8", pA781{}, &pP781{}},
	{"rep_bytes,u64", pA782{}, &pP782{}},
	{"rep_bytes,f32", pA783{}, &pP783{}},
	{"rep_bytes,str", pA784{}, &pP784{}},
	{"rep_bytes,bytes", pA785{}, &pP785{}},
	{"rep_bytes,rep_int", pA786{}, &pP786{}},
	{"rep_int,rep_bytes,str", pA787{}, &pP787{}},
	{"rep_bytes,rep_str", pA788{}, &pP788{}},
	{"rep_str,rep_bytes,str", pA789{}, &pP789{}},
	{"rep_bytes,time", pA790{}, &pP790{}},
	{"rep_bytes,pn1", pA791{}, &pP791{}},
	{"pn1,rep_bytes,str", pA792{}, &pP792{}},
	{"rep_bytes,rep_pn2", pA793{}, &pP793{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,rep_bytes,str", pA794{}, &pP794{}},
	{"arr_bytes", pA795{}, &pP795{}},
	{"arr_bytes,i8", pA796{}, &pP796{}},
	{"arr_bytes,u64", pA797{}, &pP797{}},
	{"arr_bytes,f32", pA798{}, &pP798{}},
	{"arr_bytes,str", pA799{}, &pP799{}},
	{"arr_bytes,bytes", pA800{}, &pP800{}},
	{"arr_bytes,rep_int", pA801{}, &pP801{}},
	{"rep_int,arr_bytes,str", pA802{}, &pP802{}},
	{"arr_bytes,rep_str", pA803{}, &pP803{}},
	{"rep_str,arr_bytes,str", pA804{}, &pP804{}},
	{"arr_bytes,time", pA805{}, &pP805{}},
	{"arr_bytes,pn1", pA806{}, &pP806{}},
	{"pn1,arr_bytes,str", pA807{}, &pP807{}},
	{"arr_bytes,rep_pn2", pA808{}, &pP808{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,arr_bytes,str", pA809{}, &pP809{}},
	{"mybytes", pA810{}, &pP810{}},
	{"mybytes,i8", pA811{}, &pP811{}},
	{"mybytes,u64", pA812{}, &pP812{}},
	{"mybytes,f32", pA813{}, &pP813{}},
	{"mybytes,str", pA814{}, &pP814{}},
	{"mybytes,bytes", pA815{}, &pP815{}},
	{"mybytes,rep_int", pA816{}, &pP816{}},
	{"rep_int,mybytes,str", pA817{}, &pP817{}},
	{"mybytes,rep_str", pA818{}, &pP818{}},
	{"rep_str,mybytes,str", pA819{}, &pP819{}},
	{"mybytes,time", pA820{}, &pP820{}},
	{"mybytes,pn1", pA821{}, &pP821{}},
	{"pn1,mybytes,str", pA822{}, &pP822{}},
	{"mybytes,rep_pn2", pA823{}, &pP823{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,mybytes,str", pA824{}, &pP824{}},
	{"rep_mybytes", pA825{}, &pP825{}},
	{"rep_mybytes,i8", pA826{}, &pP826{}},
	{"rep_mybytes,u64", pA827{}, &pP827{}},
	{"rep_mybytes,f32", pA828{}, &pP828{}},
	{"rep_mybytes,str", pA829{}, &pP829{}},
	{"rep_mybytes,bytes", pA830{}, &pP830{}},
	{"rep_mybytes,rep_int", pA831{}, &pP831{}},
	{"rep_int,rep_mybytes,str", pA832{}, &pP832{}},
	{"rep_mybytes,rep_str", pA833{}, &pP833{}},
	{"rep_str,rep_mybytes,str", pA834{}, &pP834{}},
	{"rep_mybytes,time", pA835{}, &pP835{}},
	{"rep_mybytes,pn1", pA836{}, &pP836{}},
	{"pn1,rep_mybytes,str", pA837{}, &pP837{}},
	{"rep_mybytes,rep_pn2", pA838{}, &pP838{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,rep_mybytes,str", pA839{}, &pP839{}},
	{"arr3b", pA840{}, &pP840{}},
	{"arr3b,i8", pA841{}, &pP841{}},
	{"arr3b,u64", pA842{}, &pP842{}},
	{"arr3b,f32", pA843{}, &pP843{}},
	{"arr3b,str", pA844{}, &pP844{}},
	{"arr3b,bytes", pA845{}, &pP845{}},
	{"arr3b,rep_int", pA846{}, &pP846{}},
	{"rep_int,arr3b,str", pA847{}, &pP847{}},
	{"arr3b,rep_str", pA848{}, &pP848{}},
	{"rep_str,arr3b,str", pA849{}, &pP849{}},
	{"arr3b,time", pA850{}, &pP850{}},
	{"arr3b,pn1", pA851{}, &pP851{}},
	{"pn1,arr3b,str", pA852{}, &pP852{}},
	{"arr3b,rep_pn2", pA853{}, &pP853{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,arr3b,str", pA854{}, &pP854{}},
	{"rep_arr3b", pA855{}, &pP855{}},
	{"rep_arr3b,i8", pA856{}, &pP856{}},
	{"rep_arr3b,u64", pA857{}, &pP857{}},
	{"rep_arr3b,f32", pA858{}, &pP858{}},
	{"rep_arr3b,str", pA859{}, &pP859{}},
	{"rep_arr3b,bytes", pA860{}, &pP860{}},
	{"rep_arr3b,rep_int", pA861{}, &pP861{}},
	{"rep_int,rep_arr3b,str", pA862{}, &pP862{}},
	{"rep_arr3b,rep_str", pA863{}, &pP863{}},
	{"rep_str,rep_arr3b,str", pA864{}, &pP864{}},
	{"rep_arr3b,time", pA865{}, &pP865{}},
	{"rep_arr3b,pn1", pA866{}, &pP866{}},
	{"pn1,rep_arr3b,str", pA867{}, &pP867{}},
	{"rep_arr3b,rep_pn2", pA868{}, &pP868{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,rep_arr3b,str", pA869{}, &pP869{}},
	{"time", pA870{}, &pP870{}},
	{"time,i8", pA871{}, &pP871{}},
	{"time,u64", pA872{}, &pP872{}},
	{"time,f32", pA873{}, &pP873{}},
	{"time,str", pA874{}, &pP874{}},
	{"time,bytes", pA875{}, &pP875{}},
	{"time,rep_int", pA876{}, &pP876{}},
	{"rep_int,time,str", pA877{}, &pP877{}},
	{"time,rep_str", pA878{}, &pP878{}},
	{"rep_str,time,str", pA879{}, &pP879{}},
	{"time,time", pA880{}, &pP880{}},
	{"time,pn1", pA881{}, &pP881{}},
	{"pn1,time,str", pA882{}, &pP882{}},
	{"time,rep_pn2", pA883{}, &pP883{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,time,str", pA884{}, &pP884{}},
	{"rep_time", pA885{}, &pP885{}},
	{"rep_time,i8", pA886{}, &pP886{}},
	{"rep_time,u64", pA887{}, &pP887{}},
	{"rep_time,f32", pA888{}, &pP888{}},
	{"rep_time,str", pA889{}, &pP889{}},
	{"rep_time,bytes", pA890{}, &pP890{}},
	{"rep_time,rep_int", pA891{}, &pP891{}},
	{"rep_int,rep_time,str", pA892{}, &pP892{}},
	{"rep_time,rep_str", pA893{}, &pP893{}},
	{"rep_str,rep_time,str", pA894{}, &pP894{}},
	{"rep_time,time", pA895{}, &pP895{}},
	{"rep_time,pn1", pA896{}, &pP896{}},
	{"pn1,rep_time,str", pA897{}, &pP897{}},
	{"rep_time,rep_pn2", pA898{}, &pP898{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,rep_time,str", pA899{}, &pP899{}},
	{"arr_time", pA900{}, &pP900{}},
	{"arr_time,i8", pA901{}, &pP901{}},
	{"arr_time,u64", pA902{}, &pP902{}},
	{"arr_time,f32", pA903{}, &pP903{}},
	{"arr_time,str", pA904{}, &pP904{}},
	{"arr_time,bytes", pA905{}, &pP905{}},
	{"arr_time,rep_int", pA906{}, &pP906{}},
	{"rep_int,arr_time,str", pA907{}, &pP907{}},
	{"arr_time,rep_str", pA908{}, &pP908{}},
	{"rep_str,arr_time,str", pA909{}, &pP909{}},
	{"arr_time,time", pA910{}, &pP910{}},
	{"arr_time,pn1", pA911{}, &pP911{}},
	{"pn1,arr_time,str", pA912{}, &pP912{}},
	{"arr_time,rep_pn2", pA913{}, &pP913{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,arr_time,str", pA914{}, &pP914{}},
	{"ptime", pA915{}, &pP915{}},
	{"ptime,i8", pA916{}, &pP916{}},
	{"ptime,u64", pA917{}, &pP917{}},
	{"ptime,f32", pA918{}, &pP918{}},
	{"ptime,str", pA919{}, &pP919{}},
	{"ptime,bytes", pA920{}, &pP920{}},
	{"ptime,rep_int", pA921{}, &pP921{}},
	{"rep_int,ptime,str", pA922{}, &pP922{}},
	{"ptime,rep_str", pA923{}, &pP923{}},
	{"rep_str,ptime,str", pA924{}, &pP924{}},
	{"ptime,time", pA925{}, &pP925{}},
	{"ptime,pn1", pA926{}, &pP926{}},
	{"pn1,ptime,str", pA927{}, &pP927{}},
	{"ptime,rep_pn2", pA928{}, &pP928{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,ptime,str", pA929{}, &pP929{}},
	{"rep_ptime", pA930{}, &pP930{}},
	{"rep_ptime,i8", pA931{}, &pP931{}},
	{"rep_ptime,u64", pA932{}, &pP932{}},
	{"rep_ptime,f32", pA933{}, &pP933{}},
	{"rep_ptime,str", pA934{}, &pP934{}},
	{"rep_ptime,bytes", pA935{}, &pP935{}},
	{"rep_ptime,rep_int", pA936{}, &pP936{}},
	{"rep_int,rep_ptime,str", pA937{}, &pP937{}},
	{"rep_ptime,rep_str", pA938{}, &pP938{}},
	{"rep_str,rep_ptime,str", pA939{}, &pP939{}},
	{"rep_ptime,time", pA940{}, &pP940{}},
	{"rep_ptime,pn1", pA941{}, &pP941{}},
	{"pn1,rep_ptime,str", pA942{}, &pP942{}},
	{"rep_ptime,rep_pn2", pA943{}, &pP943{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,rep_ptime,str", pA944{}, &pP944{}},
	{"n1", pA945{}, &pP945{}},
	{"n1,i8", pA946{}, &pP946{}},
	{"n1,u64", pA947{}, &pP947{}},
	{"n1,f32", pA948{}, &pP948{}},
	{"n1,str", pA949{}, &pP949{}},
	{"n1,bytes", pA950{}, &pP950{}},
	{"n1,rep_int", pA951{}, &pP951{}},
	{"rep_int,n1,str", pA952{}, &pP952{}},
	{"n1,rep_str", pA953{}, &pP953{}},
	{"rep_str,n1,str", pA954{}, &pP954{}},
	{"n1,time", pA955{}, &pP955{}},
	{"n1,pn1", pA956{}, &pP956{}},
	{"pn1,n1,str", pA957{}, &pP957{}},
	{"n1,rep_pn2", pA958{}, &pP958{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,n1,str", pA959{}, &pP959{}},
	{"rep_n1", pA960{}, &pP960{}},
	{"rep_n1,i8", pA961{}, &pP961{}},
	{"rep_n1,u64", pA962{}, &pP962{}},
	{"rep_n1,f32", pA963{}, &pP963{}},
	{"rep_n1,str", pA964{}, &pP964{}},
	{"rep_n1,bytes", pA965{}, &pP965{}},
	{"rep_n1,rep_int", pA966{}, &pP966{}},
	{"rep_int,rep_n1,str", pA967{}, &pP967{}},
	{"rep_n1,rep_str", pA968{}, &pP968{}},
	{"rep_str,rep_n1,str", pA969{}, &pP969{}},
	{"rep_n1,time", pA970{}, &pP970{}},
	{"rep_n1,pn1", pA971{}, &pP971{}},
	{"pn1,rep_n1,str", pA972{}, &pP972{}},
	{"rep_n1,rep_pn2", pA973{}, &pP973{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,rep_n1,str", pA974{}, &pP974{}},
	{"arr_n1", pA975{}, &pP975{}},
	{"arr_n1,i8", pA976{}, &pP976{}},
	{"arr_n1,u64", pA977{}, &pP977{}},
	{"arr_n1,f32", pA978{}, &pP978{}},
	{"arr_n1,str", pA979{}, &pP979{}},
	{"arr_n1,bytes", pA980{}, &pP980{}},
	{"arr_n1,rep_int", pA981{}, &pP981{}},
	{"rep_int,arr_n1,str", pA982{}, &pP982{}},
	{"arr_n1,rep_str", pA983{}, &pP983{}},
	{"rep_str,arr_n1,str", pA984{}, &pP984{}},
	{"arr_n1,time", pA985{}, &pP985{}},
	{"arr_n1,pn1", pA986{}, &pP986{}},
	{"pn1,arr_n1,str", pA987{}, &pP987{}},
	{"arr_n1,rep_pn2", pA988{}, &pP988{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,arr_n1,str", pA989{}, &pP989{}},
	{"pn1", pA990{}, &pP990{}},
	{"pn1,i8", pA991{}, &pP991{}},
	{"pn1,u64", pA992{}, &pP992{}},
	{"pn1,f32", pA993{}, &pP993{}},
	{"pn1,str", pA994{}, &pP994{}},
	{"pn1,bytes", pA995{}, &pP995{}},
	{"pn1,rep_int", pA996{}, &pP996{}},
	{"rep_int,pn1,str", pA997{}, &pP997{}},
	{"pn1,rep_str", pA998{}, &pP998{}},
	{"rep_str,pn1,str", pA999{}, &pP999{}},
	{"pn1,time", pA1000{}, &pP1000{}},
	{"pn1,pn1", pA1001{}, &pP1001{}},
	{"pn1,pn1,str", pA1002{}, &pP1002{}},
	{"pn1,rep_pn2", pA1003{}, &pP1003{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,pn1,str", pA1004{}, &pP1004{}},
	{"rep_pn1", pA1005{}, &pP1005{}},
	{"rep_pn1,i8", pA1006{}, &pP1006{}},
	{"rep_pn1,u64", pA1007{}, &pP1007{}},
	{"rep_pn1,f32", pA1008{}, &pP1008{}},
	{"rep_pn1,str", pA1009{}, &pP1009{}},
	{"rep_pn1,bytes", pA1010{}, &pP1010{}},
	{"rep_pn1,rep_int", pA1011{}, &pP1011{}},
	{"rep_int,rep_pn1,str", pA1012{}, &pP1012{}},
	{"rep_pn1,rep_str", pA1013{}, &pP1013{}},
	{"rep_str,rep_pn1,str", pA1014{}, &pP1014{}},
	{"rep_pn1,time", pA1015{}, &pP1015{}},
	{"rep_pn1,pn1", pA1016{}, &pP1016{}},
	{"pn1,rep_pn1,str", pA1017{}, &pP1017{}},
	{"rep_pn1,rep_pn2", pA1018{}, &pP1018{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,rep_pn1,str", pA1019{}, &pP1019{}},
	{"arr_pn1", pA1020{}, &pP1020{}},
	{"arr_pn1,i8", pA1021{}, &pP1021{}},
	{"arr_pn1,u64", pA1022{}, &pP1022{}},
	{"arr_pn1,f32", pA1023{}, &pP1023{}},
	{"arr_pn1,str", pA1024{}, &pP1024{}},
	{"arr_pn1,bytes", pA1025{}, &pP1025{}},
	{"arr_pn1,rep_int", pA1026{}, &pP1026{}},
	{"rep_int,arr_pn1,str", pA1027{}, &pP1027{}},
	{"arr_pn1,rep_str", pA1028{}, &pP1028{}},
	{"rep_str,arr_pn1,str", pA1029{}, &pP1029{}},
	{"arr_pn1,time", pA1030{}, &pP1030{}},
	{"arr_pn1,pn1", pA1031{}, &pP1031{}},
	{"pn1,arr_pn1,str", pA1032{}, &pP1032{}},
	{"arr_pn1,rep_pn2", pA1033{}, &pP1033{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,arr_pn1,str", pA1034{}, &pP1034{}},
	{"n2", pA1035{}, &pP1035{}},
	{"n2,i8", pA1036{}, &pP1036{}},
	{"n2,u64", pA1037{}, &pP1037{}},
	{"n2,f32", pA1038{}, &pP1038{}},
	{"n2,str", pA1039{}, &pP1039{}},
	{"n2,bytes", pA1040{}, &pP1040{}},
	{"n2,rep_int", pA1041{}, &pP1041{}},
	{"rep_int,n2,str", pA1042{}, &pP1042{}},
	{"n2,rep_str", pA1043{}, &pP1043{}},
	{"rep_str,n2,str", pA1044{}, &pP1044{}},
	{"n2,time", pA1045{}, &pP1045{}},
	{"n2,pn1", pA1046{}, &pP1046{}},
	{"pn1,n2,str", pA1047{}, &pP1047{}},
	{"n2,rep_pn2", pA1048{}, &pP1048{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,n2,str", pA1049{}, &pP1049{}},
	{"rep_n2", pA1050{}, &pP1050{}},
	{"rep_n2,i8", pA1051{}, &pP1051{}},
	{"rep_n2,u64", pA1052{}, &pP1052{}},
	{"rep_n2,f32", pA1053{}, &pP1053{}},
	{"rep_n2,str", pA1054{}, &pP1054{}},
	{"rep_n2,bytes", pA1055{}, &pP1055{}},
	{"rep_n2,rep_int", pA1056{}, &pP1056{}},
	{"rep_int,rep_n2,str", pA1057{}, &pP1057{}},
	{"rep_n2,rep_str", pA1058{}, &pP1058{}},
	{"rep_str,rep_n2,str", pA1059{}, &pP1059{}},
	{"rep_n2,time", pA1060{}, &pP1060{}},
	{"rep_n2,pn1", pA1061{}, &pP1061{}},
	{"pn1,rep_n2,str", pA1062{}, &pP1062{}},
	{"rep_n2,rep_pn2", pA1063{}, &pP1063{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,rep_n2,str", pA1064{}, &pP1064{}},
	{"pn2", pA1065{}, &pP1065{}},
	{"pn2,i8", pA1066{}, &pP1066{}},
	{"pn2,u64", pA1067{}, &pP1067{}},
	{"pn2,f32", pA1068{}, &pP1068{}},
	{"pn2,str", pA1069{}, &pP1069{}},
	{"pn2,bytes", pA1070{}, &pP1070{}},
	{"pn2,rep_int", pA1071{}, &pP1071{}},
	{"rep_int,pn2,str", pA1072{}, &pP1072{}},
	{"pn2,rep_str", pA1073{}, &pP1073{}},
	{"rep_str,pn2,str", pA1074{}, &pP1074{}},
	{"pn2,time", pA1075{}, &pP1075{}},
	{"pn2,pn1", pA1076{}, &pP1076{}},
	{"pn1,pn2,str", pA1077{}, &pP1077{}},
	{"pn2,rep_pn2", pA1078{}, &pP1078{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,pn2,str", pA1079{}, &pP1079{}},
	{"rep_pn2", pA1080{}, &pP1080{}},
	{"rep_pn2,i8", pA1081{}, &pP1081{}},
	{"rep_pn2,u64", pA1082{}, &pP1082{}},
	{"rep_pn2,f32", pA1083{}, &pP1083{}},
	{"rep_pn2,str", pA1084{}, &pP1084{}},
	{"rep_pn2,bytes", pA1085{}, &pP1085{}},
	{"rep_pn2,rep_int", pA1086{}, &pP1086{}},
	{"rep_int,rep_pn2,str", pA1087{}, &pP1087{}},
	{"rep_pn2,rep_str", pA1088{}, &pP1088{}},
	{"rep_str,rep_pn2,str", pA1089{}, &pP1089{}},
	{"rep_pn2,time", pA1090{}, &pP1090{}},
	{"rep_pn2,pn1", pA1091{}, &pP1091{}},
	{"pn1,rep_pn2,str", pA1092{}, &pP1092{}},
	{"rep_pn2,rep_pn2", pA1093{}, &pP1093{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,rep_pn2,str", pA1094{}, &pP1094{}},
	{"pn3", pA1095{}, &pP1095{}},
	{"pn3,i8", pA1096{}, &pP1096{}},
	{"pn3,u64", pA1097{}, &pP1097{}},
	{"pn3,f32", pA1098{}, &pP1098{}},
	{"pn3,str", pA1099{}, &pP1099{}},
	{"pn3,bytes", pA1100{}, &pP1100{}},
	{"pn3,rep_int", pA1101{}, &pP1101{}},
	{"rep_int,pn3,str", pA1102{}, &pP1102{}},
	{"pn3,rep_str", pA1103{}, &pP1103{}},
	{"rep_str,pn3,str", pA1104{}, &pP1104{}},
	{"pn3,time", pA1105{}, &pP1105{}},
	{"pn3,pn1", pA1106{}, &pP1106{}},
	{"pn1,pn3,str", pA1107{}, &pP1107{}},
	{"pn3,rep_pn2", pA1108{}, &pP1108{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,pn3,str", pA1109{}, &pP1109{}},
	{"rep_pn3", pA1110{}, &pP1110{}},
	{"rep_pn3,i8", pA1111{}, &pP1111{}},
	{"rep_pn3,u64", pA1112{}, &pP1112{}},
	{"rep_pn3,f32", pA1113{}, &pP1113{}},
	{"rep_pn3,str", pA1114{}, &pP1114{}},
	{"rep_pn3,bytes", pA1115{}, &pP1115{}},
	{"rep_pn3,rep_int", pA1116{}, &pP1116{}},
	{"rep_int,rep_pn3,str", pA1117{}, &pP1117{}},
	{"rep_pn3,rep_str", pA1118{}, &pP1118{}},
	{"rep_str,rep_pn3,str", pA1119{}, &pP1119{}},
	{"rep_pn3,time", pA1120{}, &pP1120{}},
	{"rep_pn3,pn1", pA1121{}, &pP1121{}},
	{"pn1,rep_pn3,str", pA1122{}, &pP1122{}},
	{"rep_pn3,rep_pn2", pA1123{}, &pP1123{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,rep_pn3,str", pA1124{}, &pP1124{}},
	{"empty", pA1125{}, &pP1125{}},
	{"empty,i8", pA1126{}, &pP1126{}},
	{"empty,u64", pA1127{}, &pP1127{}},
	{"empty,f32", pA1128{}, &pP1128{}},
	{"empty,str", pA1129{}, &pP1129{}},
	{"empty,bytes", pA1130{}, &pP1130{}},
	{"empty,rep_int", pA1131{}, &pP1131{}},
	{"rep_int,empty,str", pA1132{}, &pP1132{}},
	{"empty,rep_str", pA1133{}, &pP1133{}},
	{"rep_str,empty,str", pA1134{}, &pP1134{}},
	{"empty,time", pA1135{}, &pP1135{}},
	{"empty,pn1", pA1136{}, &pP1136{}},
	{"pn1,empty,str", pA1137{}, &pP1137{}},
	{"empty,rep_pn2", pA1138{}, &pP1138{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,empty,str", pA1139{}, &pP1139{}},
	{"rep_empty", pA1140{}, &pP1140{}},
	{"rep_empty,i8", pA1141{}, &pP1141{}},
	{"rep_empty,u64", pA1142{}, &pP1142{}},
	{"rep_empty,f32", pA1143{}, &pP1143{}},
	{"rep_empty,str", pA1144{}, &pP1144{}},
	{"rep_empty,bytes", pA1145{}, &pP1145{}},
	{"rep_empty,rep_int", pA1146{}, &pP1146{}},
	{"rep_int,rep_empty,str", pA1147{}, &pP1147{}},
	{"rep_empty,rep_str", pA1148{}, &pP1148{}},
	{"rep_str,rep_empty,str", pA1149{}, &pP1149{}},
	{"rep_empty,time", pA1150{}, &pP1150{}},
	{"rep_empty,pn1", pA1151{}, &pP1151{}},
	{"pn1,rep_empty,str", pA1152{}, &pP1152{}},
	{"rep_empty,rep_pn2", pA1153{}, &pP1153{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,rep_empty,str", pA1154{}, &pP1154{}},
	{"pempty", pA1155{}, &pP1155{}},
	{"pempty,i8", pA1156{}, &pP1156{}},
	{"pempty,u64", pA1157{}, &pP1157{}},
	{"pempty,f32", pA1158{}, &pP1158{}},
	{"pempty,str", pA1159{}, &pP1159{}},
	{"pempty,bytes", pA1160{}, &pP1160{}},
	{"pempty,rep_int", pA1161{}, &pP1161{}},
	{"rep_int,pempty,str", pA1162{}, &pP1162{}},
	{"pempty,rep_str", pA1163{}, &pP1163{}},
	{"rep_str,pempty,str", pA1164{}, &pP1164{}},
	{"pempty,time", pA1165{}, &pP1165{}},
	{"pempty,pn1", pA1166{}, &pP1166{}},
	{"pn1,pempty,str", pA1167{}, &pP1167{}},
	{"pempty,rep_pn2", pA1168{}, &pP1168{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,pempty,str", pA1169{}, &pP1169{}},
	{"rep_pempty", pA1170{}, &pP1170{}},
	{"rep_pempty,i8", pA1171{}, &pP1171{}},
	{"rep_pempty,u64", pA1172{}, &pP1172{}},
	{"rep_pempty,f32", pA1173{}, &pP1173{}},
	{"rep_pempty,str", pA1174{}, &pP1174{}},
	{"rep_pempty,bytes", pA1175{}, &pP1175{}},
	{"rep_pempty,rep_int", pA1176{}, &pP1176{}},
	{"rep_int,rep_pempty,str", pA1177{}, &pP1177{}},
	{"rep_pempty,rep_str", pA1178{}, &pP1178{}},
	{"rep_str,rep_pempty,str", pA1179{}, &pP1179{}},
	{"rep_pempty,time", pA1180{}, &pP1180{}},
	{"rep_pempty,pn1", pA1181{}, &pP1181{}},
	{"pn1,rep_pempty,str", pA1182{}, &pP1182{}},
	{"rep_pempty,rep_pn2", pA1183{}, &pP1183{}},
	{"i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,i16,rep_pempty,str", pA1184{}, &pP1184{}},
}
