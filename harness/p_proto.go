package main

import (
	"bytes"
	"fmt"
	"reflect"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/golang/protobuf/ptypes/timestamp"
	amino "github.com/tendermint/go-amino"
)

func init() {
	props["C04"] = propC04
}

type pbPair struct {
	key string
	a   interface{}
	p   proto.Message
}

// Nested messages.
type (
	AN1 struct {
		A int32
		B string
		C []int64
	}
	PN1 struct {
		A int32   `protobuf:"varint,1,opt,name=A,proto3"`
		B string  `protobuf:"bytes,2,opt,name=B,proto3"`
		C []int64 `protobuf:"varint,3,rep,packed,name=C,proto3"`
	}
	AN2 struct {
		N *AN1
		L []AN1
		P []*AN1
		T time.Time
		V int8
	}
	PN2 struct {
		N *PN1                 `protobuf:"bytes,1,opt,name=N,proto3"`
		L []*PN1               `protobuf:"bytes,2,rep,name=L,proto3"`
		P []*PN1               `protobuf:"bytes,3,rep,name=P,proto3"`
		T *timestamp.Timestamp `protobuf:"bytes,4,opt,name=T,proto3"`
		V int32                `protobuf:"zigzag32,5,opt,name=V,proto3"`
	}
	AN3 struct { // recursive
		Kids []*AN3
		Next *AN3
		V    uint64
	}
	PN3 struct {
		Kids []*PN3 `protobuf:"bytes,1,rep,name=Kids,proto3"`
		Next *PN3   `protobuf:"bytes,2,opt,name=Next,proto3"`
		V    uint64 `protobuf:"varint,3,opt,name=V,proto3"`
	}
	PEmpty struct{}
)

func (m *PN1) Reset()            { *m = PN1{} }
func (m *PN1) String() string    { return "" }
func (*PN1) ProtoMessage()       {}
func (m *PN2) Reset()            { *m = PN2{} }
func (m *PN2) String() string    { return "" }
func (*PN2) ProtoMessage()       {}
func (m *PN3) Reset()            { *m = PN3{} }
func (m *PN3) String() string    { return "" }
func (*PN3) ProtoMessage()       {}
func (m *PEmpty) Reset()         { *m = PEmpty{} }
func (m *PEmpty) String() string { return "" }
func (*PEmpty) ProtoMessage()    {}

var tTS = reflect.TypeOf(timestamp.Timestamp{})

// toPB converts an amino message to the protobuf one; elem: as list element.
// ok is false if protobuf can't hold the value (nil list elements).
func toPB(v reflect.Value, pt reflect.Type, elem bool) (out reflect.Value, ok bool) {
	out = reflect.New(pt).Elem()
	ev, notNil := chase(v)
	if !notNil {
		return out, !elem
	}
	t := ev.Type()
	switch {
	case deref(pt) == tTS:
		tm := ev.Interface().(time.Time)
		if tm.Equal(epoch) && !elem && v.Kind() != reflect.Ptr {
			return out, true
		}
		out.Set(reflect.ValueOf(&timestamp.Timestamp{Seconds: tm.Unix(), Nanos: int32(tm.Nanosecond())}))
	case t.Kind() == reflect.Struct:
		pp := reflect.New(pt.Elem())
		for i := 0; i < t.NumField(); i++ {
			f, ok := toPB(ev.Field(i), pp.Elem().Field(i).Type(), false)
			if !ok {
				return out, false
			}
			pp.Elem().Field(i).Set(f)
		}
		if !elem && v.Kind() != reflect.Ptr && pbEmpty(pp.Elem()) {
			return out, true
		}
		out.Set(pp)
	case isByteList(t):
		if b := bytesOf(ev); len(b) > 0 || elem {
			out.Set(reflect.ValueOf(b))
		}
	case t.Kind() == reflect.Slice || t.Kind() == reflect.Array:
		if ev.Len() == 0 {
			return out, true
		}
		out.Set(reflect.MakeSlice(pt, ev.Len(), ev.Len()))
		for i := 0; i < ev.Len(); i++ {
			e, ok := toPB(ev.Index(i), pt.Elem(), true)
			if !ok {
				return out, false
			}
			out.Index(i).Set(e)
		}
	default:
		out.Set(ev.Convert(pt))
	}
	return out, true
}

func pbEmpty(v reflect.Value) bool {
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		switch f.Kind() {
		case reflect.Ptr, reflect.Slice:
			if !f.IsNil() {
				return false
			}
		default:
			if !f.IsZero() {
				return false
			}
		}
	}
	return true
}

// normPB makes messages that mean the same equal: nil for empty bytes.
func normPB(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			normPB(v.Elem())
		}
	case reflect.Slice:
		if v.Len() == 0 {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		for i := 0; i < v.Len(); i++ {
			normPB(v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				normPB(v.Field(i))
			}
		}
	}
}

// C04: the same bytes as golang/protobuf, both ways.
func propC04(c *Ctx) {
	m := newModel(baseSetup)
	g := newGen(baseSetup)
	c.Bound("message_types", len(pbPairs))
	c.Assume("golang/protobuf 1.3.5 stands for proto3; messages of one field of every kind, alone, with further fields on either side and as field 17")
	capN := 120
	if c.Thorough {
		capN = 4000
	}
	c.Parallel(len(pbPairs), func(w, i int) {
		pair := pbPairs[i]
		c.Case(w, pair.key, func() {
			cdc := amino.NewCodec()
			at := reflect.TypeOf(pair.a)
			pt := reflect.TypeOf(pair.p).Elem()
			lvl := 0
			if at.NumField() > 1 {
				lvl = 1
			}
			for vi, v := range g.limited(at, lvl, capN) {
				pv, ok := toPB(ptrTo(v), reflect.PtrTo(pt), false)
				if !ok {
					continue
				}
				if _, err := m.marshal(v); err != nil {
					continue
				}
				what := func() string { return fmt.Sprintf("value #%d: %s", vi, show(v)) }
				want, err := proto.Marshal(pv.Interface().(proto.Message))
				if err != nil {
					c.Violate(pair.key, "harness: proto.Marshal: %v; %s", err, what())
					return
				}
				got, err := cdc.MarshalBinaryBare(v.Interface())
				if err != nil || !bytes.Equal(got, want) {
					c.Violate(pair.key, "amino encodes %x (%v), protobuf %x; %s", got, err, want, what())
					return
				}
				q := reflect.New(pt)
				if err := proto.Unmarshal(got, q.Interface().(proto.Message)); err != nil {
					c.Violate(pair.key, "protobuf can't decode %x: %v; %s", got, err, what())
					return
				}
				normPB(q.Elem())
				normPB(pv.Elem())
				if !proto.Equal(q.Interface().(proto.Message), pv.Interface().(proto.Message)) {
					c.Violate(pair.key, "protobuf decodes %x as %s, want %s; %s", got, show(q), show(pv), what())
					return
				}
				a := reflect.New(at)
				if err := cdc.UnmarshalBinaryBare(want, a.Interface()); err != nil {
					c.Violate(pair.key, "amino can't decode protobuf's %x: %v; %s", want, err, what())
					return
				}
				if d := diff(m.norm(v, eopts{num: 1}), a.Elem()); d != "" {
					c.Violate(pair.key, "amino decodes protobuf's %x differently at %s; %s", want, d, what())
					return
				}
				c.State(1)
				c.Transition(4)
				c.Trace(1)
				if len(got) > 8 {
					c.Sample("message", "%s: %s -> %x", pair.key, show(v), got)
				}
			}
		})
	})
}
