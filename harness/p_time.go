package main

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	amino "github.com/tendermint/go-amino"
)

func init() { props["C20"] = propC20 }

func timeSeconds(thorough bool) []int64 {
	set := map[int64]bool{}
	add := func(x int64) {
		for d := int64(-1); d <= 1; d++ {
			set[x+d] = true
		}
	}
	add(0)
	add(minSec)
	add(maxSec)
	for i := uint(0); i < 63; i++ {
		add(1 << i)
		add(-(1 << i))
	}
	for i := uint(1); i <= 9; i++ { // steps of the varint length
		add(1 << (7 * i))
		add(minSec + 1<<(7*i))
	}
	step := 100
	if thorough {
		step = 1
	}
	for y := 1; y <= 10000; y += step {
		add(time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC).Unix())
	}
	for _, y := range []int{-292277022398, -30000, -1, 0, 1, 2, 1582, 1600, 1900, 1968, 1969, 1970, 1971, 2000, 2038, 2106, 2262, 9998, 9999, 10000, 10001, 99999, 1 << 30} {
		add(time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC).Unix())
		add(time.Date(y, 2, 29, 0, 0, 0, 0, time.UTC).Unix())
		add(time.Date(y, 12, 31, 23, 59, 59, 0, time.UTC).Unix())
		add(time.Date(y, 6, 15, 12, 34, 56, 0, time.UTC).Unix())
	}
	var out []int64
	for s := range set {
		out = append(out, s)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func timeNanos() []int64 {
	set := map[int64]bool{}
	for i := uint(0); i < 30; i++ {
		for d := int64(-1); d <= 1; d++ {
			if n := int64(1)<<i + d; n >= 0 && n < 1e9 {
				set[n] = true
			}
		}
	}
	for p := int64(1); p < 1e9; p *= 10 {
		set[p], set[9*p], set[1e9-p], set[123456789/p*p] = true, true, true, true
	}
	var out []int64
	for n := range set {
		out = append(out, n)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func timeZones() []*time.Location {
	return []*time.Location{time.UTC, time.Local, zoneP, time.FixedZone("west", -12*3600), time.FixedZone("odd", 14*3600+1), time.FixedZone("", -1)}
}

func inRange(t time.Time) bool { return t.Unix() >= minSec && t.Unix() <= maxSec }

// sameInstant: the decoded time is the instant in UTC without monotonic
// reading.
func sameInstant(want, got time.Time) bool {
	return want.Unix() == got.Unix() && want.Nanosecond() == got.Nanosecond() && got.Location() == time.UTC && got == got.Round(0)
}

// C20: times.
func propC20(c *Ctx) {
	secs, nanos, zones := timeSeconds(c.Thorough), timeNanos(), timeZones()
	c.Bound("seconds", len(secs))
	c.Bound("nanoseconds", len(nanos))
	c.Bound("zones", len(zones))
	base := baseSetup.codec()
	// The primitive functions, the top level, a field and JSON, on all instants.
	type tf struct {
		T time.Time
		V int
	}
	chunk := 16
	c.Parallel((len(secs)+chunk-1)/chunk, func(w, i int) {
		key := fmt.Sprintf("instants/%d", i)
		c.Case(w, key, func() {
			end := (i + 1) * chunk
			if end > len(secs) {
				end = len(secs)
			}
			for _, s := range secs[i*chunk : end] {
				for ni, ns := range nanos {
					for zi, z := range zones {
						if !c.Thorough && zi > 0 && (zi+ni)%len(zones) != 0 && ns != 0 {
							continue
						}
						t := time.Unix(s, ns).In(z)
						want, werr := timeBody(t)
						var buf bytes.Buffer
						err := amino.EncodeTime(&buf, t)
						c.State(1)
						c.Transition(1)
						if (err == nil) != (werr == nil) {
							c.Violate(key, "EncodeTime(%v) gives error %v, want %v", t, err, werr)
							return
						}
						if err == nil && !bytes.Equal(want, buf.Bytes()) {
							c.Violate(key, "EncodeTime(%v) gives %x, want %x", t, buf.Bytes(), want)
							return
						}
						if err == nil {
							d, n, err := amino.DecodeTime(want)
							if err != nil || n != len(want) || !sameInstant(t, d) {
								c.Violate(key, "DecodeTime(%x) gives %v, %d, %v; want %v", want, d, n, err, t.UTC())
								return
							}
							c.Trace(1)
						}
						if zi > 0 && ns > 1 && (zi+ni)%7 != 0 {
							continue
						}
						for _, o := range []interface{}{t, tf{t, 5}, []time.Time{{}, t, epoch}, &t} {
							b, err := base.MarshalBinaryLengthPrefixed(o)
							if (err == nil) != (werr == nil) {
								c.Violate(key, "MarshalBinaryLengthPrefixed(%T of %v) gives error %v, want %v", o, t, err, werr)
								return
							}
							var got time.Time
							check := func(what string, f func(p interface{}) error) bool {
								p := reflect.New(rt(o))
								err := f(p.Interface())
								c.Transition(2)
								if err == nil {
									switch o := p.Elem().Interface().(type) {
									case time.Time:
										got = o
									case tf:
										got = o.T
										if o.V != 5 {
											err = fmt.Errorf("the other field is %d", o.V)
										}
									case []time.Time:
										if len(o) != 3 || !sameInstant(time.Time{}, o[0]) || !sameInstant(epoch, o[2]) {
											err = fmt.Errorf("the list is %v", o)
										} else {
											got = o[1]
										}
									case *time.Time:
										got = *o
									}
								}
								if err != nil || !sameInstant(t, got) {
									c.Violate(key, "%s of a %T of %v gives %v, %v", what, o, t, got, err)
									return false
								}
								return true
							}
							if err == nil && !check("the binary round trip", func(p interface{}) error { return base.UnmarshalBinaryLengthPrefixed(b, p) }) {
								return
							}
							jb, err := base.MarshalJSON(o)
							y := t.UTC().Year()
							if (err == nil) != (y >= 0 && y <= 9999) {
								c.Violate(key, "MarshalJSON(%T of %v) gives %s, %v", o, t, jb, err)
								return
							}
							if err == nil && !check("the JSON round trip", func(p interface{}) error { return base.UnmarshalJSON(jb, p) }) {
								return
							}
						}
						if ns > 0 && s > 0 {
							c.Sample("instant", "%v -> %x", t, want)
						}
					}
				}
			}
		})
	})
	// All positions.
	times := []time.Time{epoch, {}, time.Unix(0, 1), time.Unix(0, -1).In(zoneP), time.Unix(1, 0), time.Unix(maxSec, 999999999).UTC(), time.Unix(minSec, 0).In(zones[3]),
		time.Unix(maxSec, 0).In(zoneP), time.Now(), time.Unix(1<<31, 1e6).In(zones[5])}
	bad := []time.Time{time.Unix(minSec-1, 0).UTC(), time.Unix(maxSec+1, 0).UTC(), time.Unix(minSec-1, 999999999).In(zoneP), time.Unix(1<<55, 0), time.Unix(-1<<55, 0), time.Unix(maxSec+1+1<<32, 5), time.Date(9999, 12, 31, 23, 59, 59, 0, zones[3]), time.Date(1, 1, 1, 0, 0, 0, 0, zoneP)}
	var cases []typeCase
	seen := map[string]bool{}
	addT := func(key string, t reflect.Type) {
		if !seen[key] {
			seen[key] = true
			cases = append(cases, typeCase{key: key, t: t, lvl: 0, cap: 400})
		}
	}
	for _, l := range []spec{{name: "time", t: tTime}, {name: "TimeIn", t: rt(TimeIn{})}, {name: "TimeInIn", t: rt(TimeInIn{})}, {name: "CTime", t: rt(CTime{})}} {
		for _, s := range append(ctors(l, true), jsonCtors(l, true)...) {
			addT("T:"+s.name, s.t)
			for _, f := range tagged(s) {
				addT("{"+f.name+"}", structOf(f))
				addT("{string,"+f.name+",[]string}", structOf(sStr, f, sStrs))
				addT("{*{"+f.name+"}}", structOf(spec{t: reflect.PtrTo(structOf(f))}))
				addT("{[]{"+f.name+"},int}", structOf(spec{t: reflect.SliceOf(structOf(f))}, sInt))
			}
			f := s
			f.js = "t,omitempty"
			addT("{"+f.name+"+omitempty}", structOf(f))
		}
	}
	m := newModel(baseSetup)
	c.forTypes(cases, func(w int, tc typeCase, cdc *amino.Codec) {
		hasMap := strings.Contains(tc.key, "map[")
		run := func(pool []time.Time, cap int) bool {
			g := newGen(baseSetup)
			g.custom = func(t reflect.Type) ([]reflect.Value, bool) {
				if t != tTime {
					return nil, false
				}
				var out []reflect.Value
				for _, x := range pool {
					out = append(out, reflect.ValueOf(x))
				}
				return out, true
			}
			for _, v := range g.limited(tc.t, 0, cap) {
				ev, ok := chase(v)
				if !ok {
					continue
				}
				c.State(1)
				if want, werr := m.marshal(ev); !hasMap && (werr == nil || werr == errTime) {
					b, err := cdc.MarshalBinaryBare(v.Interface())
					c.Transition(1)
					if (err == nil) != (werr == nil) || !bytes.Equal(b, want) && err == nil && len(b) != len(want) {
						c.Violate(tc.key, "MarshalBinaryBare gives %x, %v; want %x, %v; %s", b, err, want, werr, show(v))
						return false
					}
					if err == nil {
						p := reflect.New(tc.t)
						if err := cdc.UnmarshalBinaryBare(b, p.Interface()); err != nil {
							c.Violate(tc.key, "UnmarshalBinaryBare(%x): %v; %s", b, err, show(v))
							return false
						}
						if d := diff(m.norm(v, eopts{num: 1}), p.Elem()); d != "" {
							c.Violate(tc.key, "decoding %x gives %s instead of %s (%s)", b, show(p.Elem()), show(v), d)
							return false
						}
						c.Transition(1)
						c.Trace(1)
					}
				}
				_, werr := m.marshalJSON(v)
				jb, err := cdc.MarshalJSON(v.Interface())
				c.Transition(1)
				if (err == nil) != (werr == nil) {
					c.Violate(tc.key, "MarshalJSON gives %s, %v; want %v; %s", jb, err, werr, show(v))
					return false
				}
				if err == nil {
					p := reflect.New(tc.t)
					if err := cdc.UnmarshalJSON(jb, p.Interface()); err != nil {
						c.Violate(tc.key, "UnmarshalJSON(%s): %v; %s", jb, err, show(v))
						return false
					}
					if d := diff(m.normJ(v, eopts{}), p.Elem()); d != "" {
						c.Violate(tc.key, "decoding %s gives %s instead of %s (%s)", jb, show(p.Elem()), show(v), d)
						return false
					}
					c.Transition(1)
				}
			}
			return true
		}
		if !run(times, 300) {
			return
		}
		for _, x := range bad {
			if !run([]time.Time{times[0], x}, 40) {
				return
			}
		}
		if hasMap {
			return
		}
		// Nothing encoded.
		p := reflect.New(tc.t)
		want, werr := m.unmarshal(nil, tc.t)
		err := cdc.UnmarshalBinaryBare(nil, p.Interface())
		if (err == nil) != (werr == nil) {
			c.Violate(tc.key, "UnmarshalBinaryBare of no bytes: %v, want %v", err, werr)
		} else if err == nil {
			if d := diff(want, p.Elem()); d != "" {
				c.Violate(tc.key, "no bytes decode to %s, want %s (%s)", show(p.Elem()), show(want), d)
			}
		}
	})
	// Byte strings of timestamps: all sequences of fields up to a length.
	var toks [][]byte
	cat := func(bs ...[]byte) []byte { return bytes.Join(bs, nil) }
	for _, s := range []int64{0, 1, -1, minSec, minSec - 1, maxSec, maxSec + 1, 1 << 62, -1 << 63, 1<<63 - 1, 1 << 32} {
		toks = append(toks, cat(key(1, wVarint), uvarint(uint64(s))))
	}
	for _, n := range []uint64{0, 1, 999999999, 1000000000, 1 << 31, 1 << 32, 1<<32 + 5, 1 << 63, 1<<64 - 1} {
		toks = append(toks, cat(key(2, wVarint), uvarint(n)))
	}
	toks = append(toks, key(1, wVarint), key(2, wVarint), []byte{0x88, 0}, []byte{0x88, 0x80, 0, 5}, cat(key(1, w8), make([]byte, 8)), cat(key(2, w4), make([]byte, 4)), cat(key(1, w4), make([]byte, 4)),
		cat(key(1, wBytes), []byte{0}), cat(key(2, wBytes), []byte{1, 1}), cat(key(3, wVarint), []byte{1}), cat(key(0, wVarint), []byte{1}), []byte{0x80}, []byte{0}, []byte{1}, []byte{0xff},
		[]byte{8, 0x80, 0}, []byte{8, 0x81, 0x80, 0}, []byte{0x10, 0x85, 0})
	toks = append(toks, cat(key(1, wVarint), bytes.Repeat([]byte{0xff}, 10)), cat(key(1, wVarint), bytes.Repeat([]byte{0xff}, 9), []byte{2}), cat(key(2, wVarint), bytes.Repeat([]byte{0x80}, 9), []byte{2}))
	depth := 2
	if c.Thorough {
		depth = 4
	}
	c.Bound("timestamp_fields", len(toks))
	c.Bound("timestamp_sequences_up_to", depth+1)
	wraps := []struct {
		name string
		t    reflect.Type
		f    func(b []byte) []byte
	}{
		{"top", tTime, func(b []byte) []byte { return b }},
		{"field", rt(tf{}), func(b []byte) []byte { return cat(key(1, wBytes), lenPrefixed(b), []byte{0x10, 5}) }},
		{"list", rt([]time.Time{}), func(b []byte) []byte { return cat(key(1, wBytes), lenPrefixed(b), key(1, wBytes), lenPrefixed(b)) }},
		{"pointers", rt(struct{ A []*time.Time }{}), func(b []byte) []byte { return cat(key(1, wBytes), lenPrefixed(b)) }},
		{"interface", rt(struct{ A I1 }{}), func(b []byte) []byte {
			_, p := disfix("c/time")
			return cat(key(1, wBytes), lenPrefixed(cat(p[:], key(1, wBytes), lenPrefixed(b))))
		}},
		{"representation", rt(struct{ A AmTime }{}), func(b []byte) []byte { return cat(key(1, wBytes), lenPrefixed(b)) }},
	}
	c.Parallel(len(toks), func(w, i int) {
		k := fmt.Sprintf("bytes/%d", i)
		c.Case(w, k, func() {
			cdc := baseSetup.codec()
			var rec func(b []byte, left int) bool
			rec = func(b []byte, left int) bool {
				for _, wr := range wraps {
					in := wr.f(b)
					want, werr := m.unmarshal(in, wr.t)
					p := reflect.New(wr.t)
					err := cdc.UnmarshalBinaryBare(in, p.Interface())
					c.State(1)
					c.Transition(1)
					c.Trace(1)
					if (err == nil) != (werr == nil) {
						c.Violate(k, "UnmarshalBinaryBare(%x) into %v: error %v, want %v", in, wr.t, err, werr)
						return false
					}
					if err == nil {
						if d := diff(want, p.Elem()); d != "" {
							c.Violate(k, "UnmarshalBinaryBare(%x) into %v gives %s, want %s", in, wr.t, show(p.Elem()), show(want))
							return false
						}
					}
				}
				if left > 0 {
					for _, t := range toks {
						if !rec(append(b[:len(b):len(b)], t...), left-1) {
							return false
						}
					}
				}
				return true
			}
			rec(toks[i], depth)
		})
	})
	// JSON texts of times: every value of every component, others fixed.
	var texts []string
	def := []string{"2020", "-", "02", "-", "28", "T", "23", ":", "59", ":", "58", ".5", "Z"}
	alts := [][]string{{"0000", "0001", "1969", "1900", "2000", "2019", "9999", "10000", "99999", "-001", "020", "", "+2020", "2O20"}, {"", "/", "--"}, nil, {"", ":"}, nil, {"t", " ", ""}, nil, {"", "."}, nil, {"", "-"}, nil,
		{"", ".", ".0", ".000000000", ".123456789", ".1234567891", ".9999999999", ".5e1", ".-5"}, {"", "z", "+00:00", "-00:00", "+01:00", "-01:00", "+0000", "Z0", "ZZ", " Z", "+00:01"}}
	for _, p := range []int{2, 4, 6, 8, 10} {
		for i := 0; i <= 61; i++ {
			alts[p] = append(alts[p], fmt.Sprintf("%02d", i))
		}
		alts[p] = append(alts[p], "", "1x", "-1", "100")
	}
	var build func(i int, s string, left int)
	build = func(i int, s string, left int) {
		if i == len(def) {
			texts = append(texts, s)
			return
		}
		build(i+1, s+def[i], left)
		if left > 0 {
			for _, a := range alts[i] {
				if a != def[i] {
					build(i+1, s+a, left-1)
				}
			}
		}
	}
	build(0, "", 2)
	c.Bound("time_texts", len(texts))
	per := 2000
	c.Parallel((len(texts)+per-1)/per, func(w, i int) {
		k := fmt.Sprintf("texts/%d", i)
		c.Case(w, k, func() {
			end := (i + 1) * per
			if end > len(texts) {
				end = len(texts)
			}
			cdc := baseSetup.codec()
			acc := map[string]int64{}
			for _, s := range texts[i*per : end] {
				doc := jobj().put("A", jlist(jstr(s)))
				in := []byte(doc.text())
				t := rt(struct{ A []time.Time }{})
				want, werr := m.unmarshalNode(doc, t, reflect.Zero(t))
				p := reflect.New(t)
				err := cdc.UnmarshalJSON(in, p.Interface())
				c.State(1)
				c.Transition(1)
				c.Trace(1)
				if werr == errDontCare {
					acc["unspecified text"]++
					continue
				}
				if (err == nil) != (werr == nil) {
					c.Violate(k, "UnmarshalJSON(%s): error %v, want %v", in, err, werr)
					return
				}
				if err != nil {
					acc["rejected text"]++
					continue
				}
				acc["accepted text"]++
				if d := diff(want, p.Elem()); d != "" {
					c.Violate(k, "UnmarshalJSON(%s) gives %s, want %s", in, show(p.Elem()), show(want))
					return
				}
			}
			c.AddOutcomes(acc)
		})
	})
}
