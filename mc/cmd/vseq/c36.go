package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"reflect"
	"runtime"
	"strings"

	"github.com/flachnetz/dd-zipkin-proxy/codec/hyperjson"
	"github.com/modern-go/reflect2"

	"verif/explore"
)

// target is a Go type, the decoder made for it, and documents that fit it.
type target struct {
	t    reflect.Type
	dec  hyperjson.ValueDecoder
	docs []string // of which the first ones are the most telling
	bad  []string // documents that do not fit
	name string
}

func pick(l []string, n int) []string { return l[:min(n, len(l))] }

func leafTargets() []target {
	return []target{
		{t: reflect.TypeOf(uint64(0)), dec: hyperjson.Uint64ValueDecoder, name: "uint64",
			docs: []string{"7", "18446744073709551615", "0", "10", "18446744073709551610", "9223372036854775808"},
			bad:  []string{`"7"`, "-1", "1.5", "18446744073709551616", "18446744073709551620", "99999999999999999999", "true", "{}", "[]", "1e2"}},
		{t: reflect.TypeOf(""), dec: hyperjson.StringValueDecoder, name: "string",
			docs: []string{`"text"`, `"\"\\\u00e9]}"`, `""`, `"` + strings.Repeat("long ", 30) + `"`},
			bad:  []string{"7", "true", "{}", "[]", `["a"]`}},
		{t: reflect.TypeOf(map[string]string{}), dec: hyperjson.MakeMapDecoder(hyperjson.StringValueDecoder, hyperjson.StringValueDecoder), name: "map",
			docs: []string{`{"k":"v","\"":""}`, `{}`, `{"":"x"}`, `{"a":"1","b":"2","c":"3"}`, `{"a":"1","a":"2"}`},
			bad:  []string{`{"k":1}`, `{"k":{}}`, `[]`, `"k"`, `7`, `{"k":["v"]}`}},
	}
}

func sliceTarget(e target) target {
	t := reflect.SliceOf(e.t)
	r := target{t: t, dec: hyperjson.MakeSliceDecoder(reflect2.Type2(t).(reflect2.SliceType), e.dec), name: "[]" + e.name}
	var l []string
	for _, d := range pick(e.docs, 4) {
		l = append(l, d)
		r.docs = append(r.docs, "["+strings.Join(l, ",")+"]")
	}
	r.docs = append(r.docs, "[]", "["+strings.Join(append(append(append([]string{}, l...), l...), l...), " , ")+"]")
	if e.t.Kind() != reflect.Slice && e.t.Kind() != reflect.Struct {
		for _, k := range []int{8, 9, 65, 130, 1025} {
			var long []string
			for i := 0; i < k; i++ {
				long = append(long, e.docs[i%len(e.docs)])
			}
			r.docs = append(r.docs, "["+strings.Join(long, ",")+"]")
		}
	}
	for _, d := range pick(e.bad, 4) {
		r.bad = append(r.bad, "["+d+"]", "["+l[0]+","+d+"]")
	}
	r.bad = append(r.bad, "{}", "7", `"x"`)
	return r
}

func arrayTarget(n int, e target) target {
	t := reflect.ArrayOf(n, e.t)
	r := target{t: t, dec: hyperjson.MakeArrayDecoder(reflect2.Type2(t).(reflect2.ArrayType), e.dec), name: fmt.Sprintf("[%d]%s", n, e.name)}
	var l []string
	for k := 0; k <= n+1; k++ {
		r.docs = append([]string{"[" + strings.Join(l, ",") + "]"}, r.docs...)
		l = append(l, e.docs[k%len(e.docs)])
	}
	r.docs = append(r.docs, "["+strings.Join(append(append([]string{}, l[:n]...), `{"x":[1,"]"]}`, "null"), ",")+"]")
	for _, d := range pick(e.bad, 4) {
		if n > 0 {
			r.bad = append(r.bad, "["+strings.Join(append(append([]string{}, l[:n-1]...), d), ",")+"]")
		}
	}
	r.bad = append(r.bad, "{}", "7", `"x"`)
	return r
}

var members = []string{"a", "bb", "dé-1"}

func structTarget(es ...target) target {
	var fs []reflect.StructField
	for i, e := range es {
		fs = append(fs, reflect.StructField{Name: string(rune('A' + i)), Type: e.t, Tag: reflect.StructTag(fmt.Sprintf(`json:%q`, members[i]))})
	}
	// what is behind and between the members must not be touched
	fs = append(fs, reflect.StructField{Name: "Z", Type: reflect.TypeOf(uint64(0)), Tag: `json:"-"`})
	t := reflect.StructOf(fs)
	var fields []hyperjson.Field
	r := target{t: t, name: "struct{"}
	for i, e := range es {
		fields = append(fields, hyperjson.Field{JsonName: members[i], Offset: hyperjson.OffsetOf(reflect.New(t).Elem().Interface(), fs[i].Name), Decoder: e.dec})
		r.name += fmt.Sprintf("%s %s;", members[i], e.name)
	}
	r.name += "}"
	r.dec = hyperjson.MakeStructDecoder(fields)
	member := func(i int, doc string) string {
		k, _ := json.Marshal(members[i])
		return string(k) + ":" + doc
	}
	var unknown []string
	for _, v := range []string{`{"a":[7,"}"]}`, `[{"a":1},"]"]`, "null", `"a"`, "-1.5e+3", "true"} {
		unknown = append(unknown, `"u":`+v, `"A`+`b":`+v)
	}
	n := len(es)
	full := func(k int) (l []string) {
		for i, e := range es {
			l = append(l, member(i, e.docs[(k+i)%len(e.docs)]))
		}
		return
	}
	// all subsets in all orders, with something unknown at every place
	var perm func(used int, l []string, k int)
	perm = func(used int, l []string, k int) {
		r.docs = append(r.docs, "{"+strings.Join(l, ",")+"}")
		for at := 0; at <= len(l); at++ {
			m := append(append(append([]string{}, l[:at]...), unknown[(k+at+len(r.docs))%len(unknown)]), l[at:]...)
			r.docs = append(r.docs, "{"+strings.Join(m, " , ")+"}")
		}
		for i := 0; i < n; i++ {
			if used&(1<<i) == 0 {
				perm(used|1<<i, append(append([]string{}, l...), full(k)[i]), k)
			}
		}
	}
	r.docs = append(r.docs, "{"+strings.Join(full(0), ",")+"}")
	for _, u := range unknown[:4] {
		r.docs = append(r.docs, "{"+strings.Join(append([]string{u}, full(1)...), ",")+"}")
	}
	for k := 0; k < 3; k++ {
		perm(0, nil, k)
	}
	for i, e := range es {
		for _, d := range pick(e.bad, 4) {
			l := full(0)
			l[i] = member(i, d)
			r.bad = append(r.bad, "{"+strings.Join(l, ",")+"}")
		}
	}
	r.bad = append(r.bad, "[]", "7", `"x"`)
	return r
}

// some spreads n of l over the list, always beginning with the first.
func some(l []string, n int) (r []string) {
	if len(l) <= n {
		return l
	}
	for i := 0; i < n; i++ {
		r = append(r, l[i*len(l)/n])
	}
	return
}

func targets(thorough bool) []target {
	leaf := leafTargets()
	var one []target
	for _, e := range leaf {
		one = append(one, sliceTarget(e), structTarget(e))
		for n := 0; n <= 3; n++ {
			one = append(one, arrayTarget(n, e))
		}
		for _, x := range leaf {
			one = append(one, structTarget(e, x))
		}
	}
	all := append(append([]target{}, leaf...), one...)
	var two []target
	for _, e := range one {
		e.docs = some(e.docs, 6)
		two = append(two, sliceTarget(e), arrayTarget(2, e), structTarget(e))
		for _, x := range leaf {
			two = append(two, structTarget(e, x), structTarget(x, e, leaf[0]))
		}
	}
	all = append(all, two...)
	for i, e := range two {
		if thorough || i%5 == 0 {
			e.docs = some(e.docs, 6)
			all = append(all, sliceTarget(e), arrayTarget(1, e), structTarget(e), structTarget(leaf[i%3], e))
		}
	}
	return all
}

type piecewise struct {
	b    []byte
	n    int
	last error
}

func (r *piecewise) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, r.last
	}
	n := copy(p, r.b[:min(r.n, len(r.b))])
	r.b = r.b[n:]
	return n, nil
}

func init() {
	explore.AddSeq(&explore.Seq{Name: "declared types", Prop: "C36",
		What: "every type made of uint64, string, maps of strings, slices, arrays of 0-3 elements and structs of 1-3 members, nested up to two (in part three) deep; documents with every subset of members in every order, unknown members of every kind at every place, short, fitting and long lists; documents that do not fit; every truncation; from bytes and from readers of 1, 3 or all bytes with buffers of 0, 1, 16 or 64 bytes: compared with encoding/json",
		Run: func(c *explore.C) {
			ts := targets(c.Thorough)
			boom := errors.New("connection reset")
			parsers := []func(doc string, end error) *hyperjson.Parser{
				nil,
				func(doc string, end error) *hyperjson.Parser {
					return hyperjson.NewWithReader(&piecewise{[]byte(doc), 1, end}, make([]byte, 1))
				},
				func(doc string, end error) *hyperjson.Parser {
					return hyperjson.NewWithReader(&piecewise{[]byte(doc), 3, end}, nil)
				},
				func(doc string, end error) *hyperjson.Parser {
					return hyperjson.NewWithReader(&piecewise{[]byte(doc), 1 << 20, end}, make([]byte, 16))
				},
				func(doc string, end error) *hyperjson.Parser {
					return hyperjson.NewWithReader(&piecewise{[]byte(doc), 7, end}, make([]byte, 64))
				},
			}
			n := 0
			for _, t := range ts {
				for di, doc := range t.docs {
					for pi, mk := range parsers {
						if !c.Next(func() string { return fmt.Sprintf("%s from %s, reader %d", t.name, clip(doc), pi) }) {
							continue
						}
						if n++; n%200 == 0 {
							runtime.GC()
						}
						want := reflect.New(t.t)
						if err := json.Unmarshal([]byte(doc), want.Interface()); err != nil {
							c.Fail("harness: %s: %s", doc, err)
						}
						got := reflect.New(t.t)
						var p *hyperjson.Parser
						if mk == nil {
							p = hyperjson.NewWithBytes([]byte(doc))
						} else {
							p = mk(doc, io.EOF)
						}
						err := t.dec(got.UnsafePointer(), p)
						c.Ops(1)
						if err != nil {
							c.Fail("%s: decoding %s fails: %v", t.name, clip(doc), err)
						}
						if !alike(got.Elem(), want.Elem()) {
							c.Fail("%s: %s is decoded as %s instead of %s", t.name, clip(doc), clip(fmt.Sprintf("%+v", got.Elem())), clip(fmt.Sprintf("%+v", want.Elem())))
						}
						if _, err := p.NextType(); err != io.EOF {
							c.Fail("%s: behind %s the parser answers %v", t.name, clip(doc), err)
						}
						if pi != di%len(parsers) {
							continue
						}
						// what is cut off or breaks off is an error
						for i := 0; i < len(doc); i++ {
							if len(doc) > 1000 && i%(len(doc)/50) > 2 {
								continue
							}
							if t.t.Kind() == reflect.Uint64 && i > 0 {
								break // the beginning of a number is a number
							}
							for _, end := range []error{io.EOF, boom} {
								if mk == nil {
									if end != io.EOF {
										continue
									}
									p = hyperjson.NewWithBytes([]byte(doc[:i]))
								} else {
									p = mk(doc[:i], end)
								}
								c.Ops(1)
								if err := t.dec(reflect.New(t.t).UnsafePointer(), p); err == nil {
									c.Fail("%s: the first %d bytes of %s are decoded without an error", t.name, i, clip(doc))
								}
							}
						}
					}
				}
				for _, doc := range t.bad {
					for pi, mk := range parsers {
						if !c.Next(func() string { return fmt.Sprintf("%s from %s, reader %d", t.name, clip(doc), pi) }) {
							continue
						}
						var p *hyperjson.Parser
						if mk == nil {
							p = hyperjson.NewWithBytes([]byte(doc))
						} else {
							p = mk(doc, io.EOF)
						}
						got := reflect.New(t.t)
						c.Ops(1)
						if err := t.dec(got.UnsafePointer(), p); err == nil {
							c.Fail("%s: %s does not fit, it is decoded as %s", t.name, clip(doc), clip(fmt.Sprintf("%+v", got.Elem())))
						}
					}
				}
			}
		}})
}

// alike compares values; empty and missing lists and maps are the same.
func alike(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !alike(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			v := b.MapIndex(k)
			if !v.IsValid() || v.String() != a.MapIndex(k).String() {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !alike(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	}
	return a.Interface() == b.Interface()
}
