package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"time"

	amino "github.com/tendermint/go-amino"
)

// ---- interfaces and registered concrete types

type I1 interface{ I1m() }
type I2 interface{ I2m() } // AlwaysDisambiguate
type I3 interface{ I3m() } // has two implementers with the same prefix bytes

type (
	CStruct struct {
		A int
		B string
	}
	CPtr struct {
		A int8
		N *CPtr
	}
	CInt     int
	CI8      int8
	CI64     int64
	CU32     uint32
	CU64     uint64
	CBool    bool
	CStr     string
	CPStr    string // registered as pointer
	CBytes   []byte
	CArr     [3]byte
	CInts    []int
	CStrs    []string
	CStructs []CStruct
	CPtrs    []*CStruct
	CArr2    [2]string
	CEmpty   struct{}
	CNest    struct {
		I I1
		L []I1
		S string
	}
	CTime  struct{ T time.Time }
	CAm    struct{ s string } // repr string
	CAmI   struct{ n int64 }  // repr int64
	CAmS   struct{ x, y int } // repr struct
	CollA  struct{ A int }
	CollB  struct{ A int }
	CollC  struct{ C string } // doesn't collide
	OnlyI2 struct{ A int }
	Unreg  struct{ A int } // implements I1, never registered
)

func (CStruct) I1m()  {}
func (CStruct) I2m()  {}
func (*CPtr) I1m()    {}
func (*CPtr) I2m()    {}
func (CInt) I1m()     {}
func (CInt) I2m()     {}
func (CI8) I1m()      {}
func (CI64) I1m()     {}
func (CU32) I1m()     {}
func (CU64) I1m()     {}
func (CBool) I1m()    {}
func (CStr) I1m()     {}
func (*CPStr) I1m()   {}
func (CBytes) I1m()   {}
func (CBytes) I2m()   {}
func (CArr) I1m()     {}
func (CInts) I1m()    {}
func (CStrs) I1m()    {}
func (CStructs) I1m() {}
func (CPtrs) I1m()    {}
func (CArr2) I1m()    {}
func (CEmpty) I1m()   {}
func (CNest) I1m()    {}
func (CTime) I1m()    {}
func (CAm) I1m()      {}
func (CAmI) I1m()     {}
func (CAmS) I1m()     {}
func (CollA) I3m()    {}
func (CollB) I3m()    {}
func (CollC) I3m()    {}
func (OnlyI2) I2m()   {}
func (Unreg) I1m()    {}

func (c CAm) MarshalAmino() (string, error)   { return c.s, nil }
func (c *CAm) UnmarshalAmino(s string) error  { c.s = s; return nil }
func (c CAmI) MarshalAmino() (int64, error)   { return c.n, nil }
func (c *CAmI) UnmarshalAmino(n int64) error  { c.n = n; return nil }
func (c CAmS) MarshalAmino() (reprXY, error)  { return reprXY{c.x, strconv.Itoa(c.y)}, nil }
func (c *CAmS) UnmarshalAmino(r reprXY) error { c.x = r.X; c.y, _ = strconv.Atoi(r.Y); return nil }

type reprXY struct {
	X int
	Y string
}

const (
	collName1 = "t/15704" // these two have the same prefix bytes
	collName2 = "t/59142"
	oddName   = "odd\"\\<&>/\u2028name"
)

type regIface struct {
	ptr  interface{}
	opts *amino.InterfaceOptions
}
type regConc struct {
	o    interface{}
	name string
}

// Setup is a set of registrations, applied to a codec and to the model.
type Setup struct {
	ifaces []regIface
	concs  []regConc
}

func (s Setup) codec() *amino.Codec {
	cdc := amino.NewCodec()
	for _, i := range s.ifaces {
		cdc.RegisterInterface(i.ptr, i.opts)
	}
	for _, c := range s.concs {
		cdc.RegisterConcrete(c.o, c.name, nil)
	}
	return cdc
}

var baseSetup = Setup{
	ifaces: []regIface{
		{(*I1)(nil), nil},
		{(*I2)(nil), &amino.InterfaceOptions{AlwaysDisambiguate: true}},
		{(*I3)(nil), &amino.InterfaceOptions{Priority: []string{collName1, collName2}}},
	},
	concs: []regConc{
		{CStruct{}, "c/struct"}, {&CPtr{}, "c/ptr"}, {CInt(0), "c/int"}, {CI8(0), "c/i8"}, {CI64(0), "c/i64"},
		{CU32(0), "c/u32"}, {CU64(0), "c/u64"}, {CBool(false), "c/bool"}, {CStr(""), oddName},
		{new(CPStr), "c/pstr"}, {CBytes{}, "c/bytes"}, {CArr{}, "t/53"}, {CInts{}, "t/1066"}, {CStrs{}, "c/strs"},
		{CStructs{}, "c/structs"}, {CPtrs{}, "c/ptrs"}, {CArr2{}, "c/arr2"}, {CEmpty{}, "c/empty"}, {CNest{}, "c/nest"},
		{CTime{}, "c/time"}, {CAm{}, "c/am"}, {CAmI{}, "c/ami"}, {CAmS{}, "c/ams"},
		{CollA{}, collName1}, {CollB{}, collName2}, {&CollC{}, "c/collc"}, {OnlyI2{}, "c/only2"},
	},
}

// ---- custom representations (default value <-> default representation)

type (
	AmStr    struct{ s string }    // struct, string
	AmInt    struct{ n int64 }     // struct, int64
	AmI8     struct{ n int8 }      // struct, int8
	AmU32    struct{ n uint32 }    // struct, uint32
	AmBool   struct{ b bool }      // struct, bool
	AmBytes  struct{ b string }    // struct, []byte
	AmArr    struct{ b [3]byte }   // struct, [3]byte
	AmStruct struct{ x, y int }    // struct, struct
	AmEmpty  struct{}              // struct, struct{}
	AmTime   struct{ sec int64 }   // struct, time.Time
	AmList   struct{ a, b int }    // struct, []int32
	AmStrs   struct{ a, b string } // struct, []string
	AmAm     struct{ s string }    // struct, AmStr
	AmAmI    struct{ n int64 }     // struct, AmInt
	AmI64    int64                 // int64 kind, int64
	AmU32U   uint32                // uint32 kind, uint32
	AmFlt    float64               // float64 kind, float64
	AmIntStr int                   // int kind, string
	AmIntS   int32                 // int kind, struct
	AmStrInt string                // string kind, int
	AmSlStr  []string              // slice kind, string
	AmArrInt [2]int                // array kind, int64
	AmSlRev  []string              // slice kind, []string (reversed)
	AmArrStr [2]string             // array kind, string
	AmSlInts []string              // slice kind, []int32 (lengths; only of x)
	AmSlSt   []reprXY              // slice of struct kind, string
	AmIface  struct{ n int }       // struct, registered interface (I1)
	AmErr    struct{ A int8 }      // errors for 1 (marshal) and 2 (unmarshal)
)

func (a AmStr) MarshalAmino() (string, error)   { return a.s, nil }
func (a *AmStr) UnmarshalAmino(s string) error  { a.s = s; return nil }
func (a AmInt) MarshalAmino() (int64, error)    { return a.n, nil }
func (a *AmInt) UnmarshalAmino(n int64) error   { a.n = n; return nil }
func (a AmI8) MarshalAmino() (int8, error)      { return a.n, nil }
func (a *AmI8) UnmarshalAmino(n int8) error     { a.n = n; return nil }
func (a AmU32) MarshalAmino() (uint32, error)   { return a.n, nil }
func (a *AmU32) UnmarshalAmino(n uint32) error  { a.n = n; return nil }
func (a AmBool) MarshalAmino() (bool, error)    { return a.b, nil }
func (a *AmBool) UnmarshalAmino(b bool) error   { a.b = b; return nil }
func (a AmBytes) MarshalAmino() ([]byte, error) { return []byte(a.b), nil }
func (a *AmBytes) UnmarshalAmino(b []byte) error {
	a.b = string(b)
	return nil
}
func (a AmArr) MarshalAmino() ([3]byte, error)     { return a.b, nil }
func (a *AmArr) UnmarshalAmino(b [3]byte) error    { a.b = b; return nil }
func (a AmStruct) MarshalAmino() (reprXY, error)   { return reprXY{a.x, sOrEmpty(a.y)}, nil }
func (a *AmStruct) UnmarshalAmino(r reprXY) error  { a.x = r.X; a.y, _ = strconv.Atoi(r.Y); return nil }
func (a AmEmpty) MarshalAmino() (struct{}, error)  { return struct{}{}, nil }
func (a *AmEmpty) UnmarshalAmino(r struct{}) error { return nil }
func (a AmTime) MarshalAmino() (time.Time, error)  { return time.Unix(a.sec, 0).UTC(), nil }
func (a *AmTime) UnmarshalAmino(t time.Time) error { a.sec = t.Unix(); return nil }
func (a AmList) MarshalAmino() ([]int32, error) {
	if a.a == 0 && a.b == 0 {
		return nil, nil
	}
	return []int32{int32(a.a), int32(a.b)}, nil
}
func (a *AmList) UnmarshalAmino(l []int32) error {
	*a = AmList{}
	if len(l) == 2 {
		a.a, a.b = int(l[0]), int(l[1])
	} else if len(l) != 0 {
		return errors.New("wrong length")
	}
	return nil
}
func (a AmStrs) MarshalAmino() ([]string, error) {
	if a.a == "" && a.b == "" {
		return nil, nil
	}
	return []string{a.a, a.b}, nil
}
func (a *AmStrs) UnmarshalAmino(l []string) error {
	*a = AmStrs{}
	if len(l) == 2 {
		a.a, a.b = l[0], l[1]
	} else if len(l) != 0 {
		return errors.New("wrong length")
	}
	return nil
}
func (a AmAm) MarshalAmino() (AmStr, error)       { return AmStr{a.s}, nil }
func (a *AmAm) UnmarshalAmino(r AmStr) error      { a.s = r.s; return nil }
func (a AmAmI) MarshalAmino() (AmInt, error)      { return AmInt{a.n}, nil }
func (a *AmAmI) UnmarshalAmino(r AmInt) error     { a.n = r.n; return nil }
func (a AmI64) MarshalAmino() (int64, error)      { return -int64(a), nil }
func (a *AmI64) UnmarshalAmino(n int64) error     { *a = AmI64(-n); return nil }
func (a AmU32U) MarshalAmino() (uint32, error)    { return uint32(a<<1 | a>>31), nil }
func (a *AmU32U) UnmarshalAmino(n uint32) error   { *a = AmU32U(n>>1 | n<<31); return nil }
func (a AmFlt) MarshalAmino() (float64, error)    { return fneg(float64(a)), nil }
func (a *AmFlt) UnmarshalAmino(n float64) error   { *a = AmFlt(fneg(n)); return nil }
func (a AmIntStr) MarshalAmino() (string, error)  { return sOrEmpty(int(a)), nil }
func (a *AmIntStr) UnmarshalAmino(s string) error { n, err := atoi(s); *a = AmIntStr(n); return err }
func (a AmIntS) MarshalAmino() (reprXY, error)    { return reprXY{int(a), ""}, nil }
func (a *AmIntS) UnmarshalAmino(r reprXY) error   { *a = AmIntS(r.X); return nil }
func (a AmStrInt) MarshalAmino() (int, error)     { return atoi(string(a)) }
func (a *AmStrInt) UnmarshalAmino(n int) error    { *a = AmStrInt(sOrEmpty(n)); return nil }
func (a AmSlStr) MarshalAmino() (string, error) {
	if len(a) == 0 {
		return "", nil
	}
	b, err := json.Marshal([]string(a))
	return string(b), err
}
func (a *AmSlStr) UnmarshalAmino(s string) error {
	*a = nil
	if s == "" {
		return nil
	}
	return json.Unmarshal([]byte(s), (*[]string)(a))
}
func (a AmArrInt) MarshalAmino() (int64, error) { return int64(a[0])<<8 | int64(a[1]), nil }
func (a *AmArrInt) UnmarshalAmino(n int64) error {
	a[0], a[1] = int(n>>8), int(n&0xff)
	return nil
}
func rev(a []string) []string {
	var out []string
	for i := len(a) - 1; i >= 0; i-- {
		out = append(out, a[i])
	}
	return out
}
func (a AmSlRev) MarshalAmino() ([]string, error)  { return rev(a), nil }
func (a *AmSlRev) UnmarshalAmino(l []string) error { *a = rev(l); return nil }
func (a AmArrStr) MarshalAmino() (string, error) {
	if a == (AmArrStr{}) {
		return "", nil
	}
	return a[0] + "|" + a[1], nil
}
func (a *AmArrStr) UnmarshalAmino(s string) error {
	*a = AmArrStr{}
	if s == "" {
		return nil
	}
	i := strings.IndexByte(s, '|')
	if i < 0 {
		i = 0
		s = "|" + s
	}
	a[0], a[1] = s[:i], s[i+1:]
	return nil
}
func (a AmSlInts) MarshalAmino() (out []int32, err error) {
	for _, s := range a {
		out = append(out, int32(len(s)))
	}
	return
}
func (a *AmSlInts) UnmarshalAmino(l []int32) error {
	*a = nil
	for _, n := range l {
		if n < 0 || n > 1000 {
			n = 1000
		}
		*a = append(*a, strings.Repeat("x", int(n)))
	}
	return nil
}
func (a AmSlSt) MarshalAmino() (string, error) {
	var p []string
	for _, r := range a {
		p = append(p, strconv.Itoa(r.X))
	}
	return strings.Join(p, ","), nil
}
func (a *AmSlSt) UnmarshalAmino(s string) error {
	*a = nil
	if s == "" {
		return nil
	}
	for _, p := range strings.Split(s, ",") {
		n, _ := strconv.Atoi(p)
		*a = append(*a, reprXY{X: n})
	}
	return nil
}
func (a AmIface) MarshalAmino() (I1, error) {
	if a.n == 0 {
		return nil, nil
	}
	return CStruct{A: a.n}, nil
}
func (a *AmIface) UnmarshalAmino(i I1) error {
	a.n = 0
	if i == nil {
		return nil
	}
	s, ok := i.(CStruct)
	if !ok {
		return fmt.Errorf("unexpected %T", i)
	}
	a.n = s.A
	return nil
}
func (a AmErr) MarshalAmino() (int8, error) {
	if a.A == 1 {
		return 0, errors.New("marshal refused")
	}
	return a.A, nil
}
func (a *AmErr) UnmarshalAmino(n int8) error {
	if n == 2 {
		return errors.New("unmarshal refused")
	}
	a.A = n
	return nil
}

func sOrEmpty(n int) string {
	if n == 0 {
		return ""
	}
	return strconv.Itoa(n)
}
func atoi(s string) (int, error) {
	if s == "" {
		return 0, nil
	}
	return strconv.Atoi(s)
}

// ---- named kinds, recursion, embedding, hidden fields

type (
	MyByte   byte
	MyInt    int
	MyInt64  int64
	MyString string
	MyBytes  []byte
	MyInts   []int
	MyByteSl []MyByte
	MyByteAr [4]MyByte
	MyStruct struct{ A MyInt }
	Empty    struct{}

	Tree struct {
		V    int
		L, R *Tree
	}
	LinkedList struct {
		V    string
		Next *LinkedList
	}
	RecSlice struct {
		Kids []RecSlice
		V    int8
	}
	RecPtrSlice struct {
		V    int8
		Kids []*RecPtrSlice
	}
	MutA struct {
		B *MutB
		V int
	}
	MutB struct {
		A []MutA
		S string
	}

	Hidden struct {
		a int
		A int
		b string
		B string
		c []int
		C []int
	}
	Dashed struct {
		A int
		B string `json:"-"`
		C []string
		D *int `json:"-"`
		E bool
	}
	Embed struct {
		MyStruct
		X int
	}
	EmbedPtr struct {
		*MyStruct
		X int
	}
	EmbedTwo struct {
		MyStruct
		CStruct
		*Empty
	}
	embedLower struct{ Z int }
	EmbedLower struct {
		embedLower
		X int
	}
	NoExported struct{ a, b int }
	TimeIn     struct{ T time.Time }
	TimeInIn   struct {
		In TimeIn
		P  *TimeIn
		L  []TimeIn
		A  [2]TimeIn
		V  int
	}
	Names struct {
		A int    `json:"x"`
		B string `json:"y,omitempty"`
		C int64  `json:",omitempty"`
		D string `json:"we\"ird<>"`
		E uint8  `json:"A"`
	}
)

// Types with the same package path and name, but different structure.
func localTypes() []reflect.Type {
	t1 := func() reflect.Type {
		type Local struct{ A int }
		return reflect.TypeOf(Local{})
	}()
	t2 := func() reflect.Type {
		type Local struct {
			B string
			A int
		}
		return reflect.TypeOf(Local{})
	}()
	t3 := func() reflect.Type {
		type Local []string
		return reflect.TypeOf(Local{})
	}()
	return []reflect.Type{t1, t2, t3}
}

// ---- json.Marshaler types

type JVal struct{ N int } // value receiver MarshalJSON

// JKey's methods don't matter where it is the key of a map.
type JKey string

func (k JKey) MarshalJSON() ([]byte, error)  { return []byte("1"), nil }
func (k *JKey) UnmarshalJSON(b []byte) error { *k = "?"; return nil }
func (k JKey) MarshalText() ([]byte, error)  { return []byte("t" + k), nil }
func (k *JKey) UnmarshalText(b []byte) error { *k = JKey("?" + string(b)); return nil }

// Scalars with text methods, which encoding/json honours.
type (
	JTxtS string
	JTxtI int32
	JTxtL int64
	JTxtB bool
)

func (k JTxtS) MarshalText() ([]byte, error)  { return []byte("t" + k), nil }
func (k *JTxtS) UnmarshalText(b []byte) error { return unTxt(b, func(s string) { *k = JTxtS(s) }) }
func (k JTxtI) MarshalText() ([]byte, error)  { return []byte("t" + strconv.Itoa(int(k))), nil }
func (k *JTxtI) UnmarshalText(b []byte) error {
	return unTxt(b, func(s string) { n, _ := strconv.Atoi(s); *k = JTxtI(n) })
}
func (k JTxtL) MarshalText() ([]byte, error) { return []byte("t" + strconv.Itoa(int(k))), nil }
func (k *JTxtL) UnmarshalText(b []byte) error {
	return unTxt(b, func(s string) { n, _ := strconv.Atoi(s); *k = JTxtL(n) })
}
func (k JTxtB) MarshalText() ([]byte, error)  { return []byte("t" + strconv.FormatBool(bool(k))), nil }
func (k *JTxtB) UnmarshalText(b []byte) error { return unTxt(b, func(s string) { *k = s == "true" }) }

func unTxt(b []byte, f func(s string)) error {
	if len(b) == 0 || b[0] != 't' {
		return errors.New("no t")
	}
	f(string(b[1:]))
	return nil
}

func (j JVal) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprintf(`"j%d"`, j.N)), nil }
func (j *JVal) UnmarshalJSON(b []byte) error {
	var t string
	err := json.Unmarshal(b, &t) // the codec passes on unchecked text
	if err == nil && !strings.HasPrefix(t, "j") {
		err = errors.New("not a JVal")
	}
	if err == nil {
		j.N, err = strconv.Atoi(t[1:])
	}
	return err
}

func rt(v interface{}) reflect.Type { return reflect.TypeOf(v) }

var (
	tI1, tI2, tI3 = reflect.TypeOf((*I1)(nil)).Elem(), reflect.TypeOf((*I2)(nil)).Elem(), reflect.TypeOf((*I3)(nil)).Elem()
	tTime         = rt(time.Time{})
	tBytes        = rt([]byte(nil))
	tErr          = reflect.TypeOf((*error)(nil)).Elem()
)

// fneg negates all but the zeros.
func fneg(f float64) float64 {
	if f == 0 {
		return f
	}
	return -f
}
