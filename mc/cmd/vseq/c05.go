package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/explore"
)

// opt is one way to give a field: its source ("" = absent) and its meaning.
type opt[T any] struct {
	src string
	val T
}

func idOpts() []opt[proxy.Id] {
	return []opt[proxy.Id]{{"", 0}, {"null", 0}, {`"1"`, 1}, {`"00000000000000Ff"`, 0xff}, {`"ffffffffffffffff"`, -1}, {`"8000000000000000"`, -1 << 63}, {`"7FFFFFFFFFFFFFFF"`, 1<<63 - 1}, {`"0"`, 0}}
}

func str(s string) string { b, _ := json.Marshal(s); return string(b) }

func mkObj(fs ...field) string {
	var r []field
	for _, f := range fs {
		if f.v != "" {
			r = append(r, f)
		}
	}
	return obj(r)
}

const us = 1000 // nanoseconds

type anno struct {
	kind string
	ts   int64
	svc  string
	ep   int // 0 no endpoint, 1 endpoint without a name, 2 endpoint with name, 3 empty name
}

func (a anno) json() string {
	ep := ""
	switch a.ep {
	case 1:
		ep = `{"ipv4":"1.2.3.4"}`
	case 2:
		ep = `{"serviceName":"` + a.svc + `","port":1}`
	case 3:
		ep = `{"serviceName":""}`
	}
	return mkObj(field{"timestamp", fmt.Sprint(a.ts)}, field{"value", str(a.kind)}, field{"endpoint", ep})
}

type v1desc struct {
	trace, id, parent opt[proxy.Id]
	name              string
	ts, dur           int64 // -1 absent
	an                []anno
	noAn              bool
	bin               []anno // kind = key, tag value = svc-independent
	noBin             bool
}

func (d v1desc) json() string {
	num := func(n int64) string {
		if n < 0 {
			return ""
		}
		return fmt.Sprint(n)
	}
	an, bin := "", ""
	if !d.noAn {
		var p []string
		for _, a := range d.an {
			p = append(p, a.json())
		}
		an = "[" + strings.Join(p, ",") + "]"
	}
	if !d.noBin {
		var p []string
		for _, a := range d.bin {
			ep := ""
			switch a.ep {
			case 1:
				ep = `{"ipv4":"1.2.3.4"}`
			case 2:
				ep = `{"serviceName":"` + a.svc + `"}`
			case 3:
				ep = `{"serviceName":""}`
			}
			p = append(p, mkObj(field{"key", str(a.kind)}, field{"value", str("v-" + a.kind)}, field{"endpoint", ep}))
		}
		bin = "[" + strings.Join(p, ",") + "]"
	}
	name := ""
	if d.name != "-" {
		name = str(d.name)
	}
	return mkObj(field{"traceId", d.trace.src}, field{"id", d.id.src}, field{"parentId", d.parent.src}, field{"name", name}, field{"timestamp", num(d.ts)}, field{"duration", num(d.dur)},
		field{"annotations", an}, field{"binaryAnnotations", bin})
}

func (d v1desc) want() proxy.Span {
	s := proxy.Span{Id: d.id.val, Trace: d.trace.val, Parent: d.parent.val, Tags: map[string]string{"protocolVersion": "json v1"}}
	if d.name != "-" {
		s.Name = d.name
	}
	for _, a := range d.an {
		t := proxy.Timestamp(a.ts * us)
		switch a.kind {
		case "cs":
			s.Timings.CS = t
		case "cr":
			s.Timings.CR = t
		case "sr":
			s.Timings.SR = t
		case "ss":
			s.Timings.SS = t
		}
	}
	for _, l := range [][]anno{d.an, d.bin} {
		for _, a := range l {
			if s.Service == "" && a.ep == 2 {
				s.Service = a.svc
			}
		}
	}
	for _, a := range d.bin {
		s.Tags[a.kind] = "v-" + a.kind
	}
	if d.ts > 0 {
		s.Timestamp = proxy.Timestamp(d.ts * us)
	}
	if d.dur > 0 {
		s.Duration = time.Duration(d.dur * us)
	}
	t := s.Timings
	if t.CS != 0 && t.CR != 0 {
		s.Timestamp, s.Duration = t.CS, time.Duration(t.CR-t.CS)
	} else if t.SR != 0 && t.SS != 0 {
		s.Timestamp, s.Duration = t.SR, time.Duration(t.SS-t.SR)
	}
	if s.Duration == 0 {
		s.Duration = time.Millisecond
	}
	return s
}

func one(c *explore.C, format, body string, want proxy.Span) {
	if c.Next(func() string { return format + " " + body }) {
		expect(c, format, []byte("["+body+"]"), []proxy.Span{want})
		c.Outcome(fmt.Sprint(want.Timestamp, want.Duration, want.Timings, want.Service, len(want.Tags)))
	}
}

func init() {
	explore.AddSeq(&explore.Seq{Name: "v1 mapping", Prop: "C05",
		What: "v1: all id triples over 8 forms x 2 names; all sequences of up to 4 annotations of distinct kinds (cs, cr, sr, ss, other) with 2 time layouts x own timestamp/duration absent/0/set; all endpoint forms (absent, nameless, empty, named) on up to 4 annotations and 3 binary annotations; absent and empty lists; boundary times",
		Run: func(c *explore.C) {
			ids := idOpts()
			big := int64(1500000000123456)
			base := v1desc{trace: ids[2], id: ids[3], parent: ids[0], name: "n", ts: big, dur: 77}
			for _, a := range ids {
				for _, b := range ids {
					for _, d := range ids {
						for _, n := range []string{"-", "get", ""} {
							x := base
							x.trace, x.id, x.parent, x.name = a, b, d, n
							one(c, "v1", x.json(), x.want())
						}
					}
				}
			}
			// annotation sequences
			kinds := []string{"cs", "cr", "sr", "ss", "ca", "cs2", "", "error"}
			var rec func(l []anno, used int)
			layouts := [][]int64{{big, big + 1001, big + 10, big + 500, big + 3, big + 4, big + 5, big + 6}, {big, big, big + 7, big + 7, big, big, big, big}, {1, 2, 3, 4, 5, 6, 7, 8},
				{9223372036854775, 9223372036854775, 9223372036854000, 9223372036854775, 1, 1, 1, 1}}
			for li, lay := range layouts {
				rec = func(l []anno, used int) {
					for _, ts := range []int64{-1, 0, big + 99} {
						for _, du := range []int64{-1, 0, 1, 123456789} {
							x := base
							x.ts, x.dur, x.an = ts, du, l
							x.noAn = len(l) == 0 && li == 0
							one(c, "v1", x.json(), x.want())
						}
					}
					if len(l) == 4 {
						return
					}
					for k := range kinds {
						if used&(1<<k) == 0 {
							rec(append(l[:len(l):len(l)], anno{kind: kinds[k], ts: lay[k]}), used|1<<k)
						}
					}
				}
				rec(nil, 0)
			}
			// endpoints
			names := []string{"s0", "s1", "s2", "s3", "b0", "b1", "b2"}
			ak := []string{"cs", "zz", "ss", "cr"}
			for na := 0; na <= 4; na++ {
				for nb := 0; nb <= 3; nb++ {
					words(4, na+nb, func(w []int) {
						x := base
						x.an, x.bin = nil, nil
						for i := 0; i < na; i++ {
							x.an = append(x.an, anno{kind: ak[i], ts: big + int64(i), ep: w[i], svc: names[i]})
						}
						for i := 0; i < nb; i++ {
							x.bin = append(x.bin, anno{kind: "k" + names[4+i], ep: w[na+i], svc: names[4+i]})
						}
						x.noAn, x.noBin = na == 0, nb == 0
						one(c, "v1", x.json(), x.want())
						if na == 0 || nb == 0 {
							x.noAn, x.noBin = false, false
							one(c, "v1", x.json(), x.want())
						}
					})
				}
			}
			// times
			tv := []int64{-1, 0, 1, 999, 1000, 1001, 999999, 1000000, big, 1577836799999999, 9223372036854774, 9223372036854775}
			for _, t := range tv {
				for _, d := range tv {
					x := base
					x.ts, x.dur = t, d
					one(c, "v1", x.json(), x.want())
				}
			}
		}})
	explore.AddSeq(&explore.Seq{Name: "v1 payloads", Prop: "C05",
		What: "payloads of up to 4 (thorough 5) v1 spans: all sequences over 6 sparse and full spans, the order is kept and nothing is carried over from one span to the next",
		Run: func(c *explore.C) {
			ids := idOpts()
			big := int64(1500000000123456)
			ds := []v1desc{
				{name: "-", ts: -1, dur: -1, noAn: true, noBin: true},
				{trace: ids[2], id: ids[3], parent: ids[4], name: "full", ts: big, dur: 5, an: []anno{{"cs", big, "s", 2}, {"cr", big + 9, "s", 2}, {"sr", big + 1, "t", 2}, {"ss", big + 8, "t", 2}}, bin: []anno{{"a", 0, "x", 2}, {"b", 0, "", 0}, {"c", 0, "", 1}}},
				{trace: ids[2], id: ids[5], name: "sr", ts: -1, dur: -1, an: []anno{{"sr", big, "", 0}}, noBin: true},
				{trace: ids[2], id: ids[6], name: "-", ts: -1, dur: 9, an: []anno{{"ss", big, "u", 2}, {"sr", big - 5, "", 0}}, bin: []anno{{"a", 0, "y", 2}}},
				{trace: ids[2], id: ids[3], parent: ids[2], name: "bin", ts: big, dur: -1, noAn: true, bin: []anno{{"d", 0, "", 0}, {"e", 0, "z", 2}}},
				{trace: ids[2], id: ids[3], parent: ids[1], name: "cr", ts: 0, dur: 0, an: []anno{{"cr", big, "", 3}}, bin: []anno{{"f", 0, "", 3}}},
			}
			top := 4
			if c.Thorough {
				top = 6
			}
			for l := 0; l <= top; l++ {
				words(len(ds), l, func(w []int) {
					if !c.Next(func() string { return fmt.Sprint("v1 spans ", w) }) {
						return
					}
					var p []string
					var want []proxy.Span
					for _, i := range w {
						p = append(p, ds[i].json())
						want = append(want, ds[i].want())
					}
					expect(c, "v1", []byte("["+strings.Join(p, ",")+"]"), want)
				})
			}
			// more spans than the reused slots
			for n := 60; n <= 140; n++ {
				for k := 0; k < 6; k++ {
					if !c.Next(func() string { return fmt.Sprintf("%d v1 spans", n) }) {
						continue
					}
					var p []string
					var want []proxy.Span
					for i := 0; i < n; i++ {
						x := ds[(i*(k+1)+i/7)%6]
						p = append(p, x.json())
						want = append(want, x.want())
					}
					expect(c, "v1", []byte("["+strings.Join(p, ",")+"]"), want)
				}
			}
		}})

	// ---- v2
	type v2desc struct {
		trace, id, parent opt[proxy.Id]
		name, kind        string
		ts, dur           int64
		svc               int // 0 absent, 1 endpoint without name, 2 named, 3 empty
		tags              int // number of tags, -1 absent
	}
	v2json := func(d v2desc) string {
		num := func(n int64) string {
			if n < 0 {
				return ""
			}
			return fmt.Sprint(n)
		}
		s := func(x string) string {
			if x == "-" {
				return ""
			}
			return str(x)
		}
		ep := []string{"", `{"ipv4":"1.2.3.4"}`, `{"serviceName":"svc","port":3}`, `{"serviceName":""}`}[d.svc]
		tags := ""
		if d.tags >= 0 {
			var p []string
			for i := 0; i < d.tags; i++ {
				p = append(p, fmt.Sprintf(`"k%d":"v%d"`, i, i))
			}
			tags = "{" + strings.Join(p, ",") + "}"
		}
		return mkObj(field{"traceId", d.trace.src}, field{"id", d.id.src}, field{"parentId", d.parent.src}, field{"kind", s(d.kind)}, field{"name", s(d.name)}, field{"timestamp", num(d.ts)}, field{"duration", num(d.dur)},
			field{"localEndpoint", ep}, field{"tags", tags})
	}
	v2want := func(d v2desc) proxy.Span {
		s := proxy.Span{Id: d.id.val, Trace: d.trace.val, Parent: d.parent.val, Tags: map[string]string{"protocolVersion": "json v2"}}
		if d.name != "-" {
			s.Name = d.name
		}
		if d.svc == 2 {
			s.Service = "svc"
		}
		for i := 0; i < d.tags; i++ {
			s.Tags[fmt.Sprintf("k%d", i)] = fmt.Sprintf("v%d", i)
		}
		if d.ts > 0 {
			s.Timestamp = proxy.Timestamp(d.ts * us)
		}
		s.Duration = time.Millisecond
		if d.dur > 0 {
			s.Duration = time.Duration(d.dur * us)
		}
		switch strings.ToLower(d.kind) {
		case "client":
			s.Timings.CS, s.Timings.CR = s.Timestamp, s.Timestamp+proxy.Timestamp(s.Duration)
		case "server":
			s.Timings.SR, s.Timings.SS = s.Timestamp, s.Timestamp+proxy.Timestamp(s.Duration)
		}
		return s
	}
	cases := func(s string, f func(string)) {
		for m := 0; m < 1<<len(s); m++ {
			b := []byte(s)
			for i := range b {
				if m&(1<<i) != 0 {
					b[i] -= 32
				}
			}
			f(string(b))
		}
	}
	explore.AddSeq(&explore.Seq{Name: "v2 mapping", Prop: "C06",
		What: "v2: all id triples over 8 forms; the product of name, 8 kinds, 6 timestamps, 6 durations, 4 endpoint forms and 4 tag sets; all 64+64 letter cases of client and server; near-miss kinds; boundary times",
		Run: func(c *explore.C) {
			ids := idOpts()
			big := int64(1500000000123456)
			for _, a := range ids {
				for _, b := range ids {
					for _, d := range ids {
						x := v2desc{trace: a, id: b, parent: d, name: "n", kind: "-", ts: big, dur: 1, tags: -1}
						one(c, "v2", v2json(x), v2want(x))
					}
				}
			}
			for _, k := range []string{"-", "CLIENT", "SERVER", "PRODUCER", "CONSUMER", "", "clientx", "serve", " client", "server ", "client\n", "\u00a0server", "client\x00", "cl ient", "clients", "CLIENT_SERVER"} {
				for _, n := range []string{"-", "", "get"} {
					for _, ts := range []int64{-1, 0, 1, big, 1577836799999999, 4102444800000001} {
						for _, du := range []int64{-1, 0, 1, 999, 1000, 123456789} {
							for svc := 0; svc < 4; svc++ {
								for tags := -1; tags < 3; tags++ {
									x := v2desc{trace: ids[2], id: ids[3], name: n, kind: k, ts: ts, dur: du, svc: svc, tags: tags}
									one(c, "v2", v2json(x), v2want(x))
								}
							}
						}
					}
				}
			}
			for _, w := range []string{"client", "server"} {
				cases(w, func(k string) {
					x := v2desc{trace: ids[2], id: ids[3], name: "n", kind: k, ts: big, dur: 1001, svc: 2, tags: 1}
					one(c, "v2", v2json(x), v2want(x))
				})
			}
			tv := []int64{-1, 0, 1, 999, 1000, 1001, 999999, 1000000, big, 1577836799999999, 4500000000000000, 4500000000000001}
			for _, t := range tv {
				for _, d := range tv {
					for _, k := range []string{"-", "client", "server"} {
						x := v2desc{trace: ids[2], id: ids[3], name: "n", kind: k, ts: t, dur: d}
						one(c, "v2", v2json(x), v2want(x))
					}
				}
			}
		}})
	explore.AddSeq(&explore.Seq{Name: "v2 payloads", Prop: "C06",
		What: "payloads of up to 4 (thorough 6) v2 spans: all sequences over 6 sparse and full spans; 60..140 spans",
		Run: func(c *explore.C) {
			ids := idOpts()
			big := int64(1500000000123456)
			ds := []v2desc{{name: "-", kind: "-", ts: -1, dur: -1, tags: -1}, {trace: ids[2], id: ids[3], parent: ids[4], name: "full", kind: "CLIENT", ts: big, dur: 7, svc: 2, tags: 3},
				{trace: ids[2], id: ids[3], name: "-", kind: "SERVER", ts: big, dur: -1, svc: 1, tags: 0}, {trace: ids[5], id: ids[3], name: "t", kind: "-", ts: 4, dur: 5, svc: 0, tags: 1},
				{trace: ids[5], id: ids[6], name: "t", kind: "-", ts: -1, dur: 5, svc: 2, tags: -1}, {id: ids[6], parent: ids[1], name: "", kind: "server", ts: big, dur: 5, svc: 3, tags: 2}}
			top := 4
			if c.Thorough {
				top = 6
			}
			run := func(w []int) {
				if !c.Next(func() string { return fmt.Sprint("v2 spans ", w) }) {
					return
				}
				var p []string
				var want []proxy.Span
				for _, i := range w {
					p = append(p, v2json(ds[i]))
					want = append(want, v2want(ds[i]))
				}
				expect(c, "v2", []byte("["+strings.Join(p, ",")+"]"), want)
			}
			for l := 0; l <= top; l++ {
				words(len(ds), l, run)
			}
			for n := 60; n <= 140; n++ {
				for k := 0; k < 6; k++ {
					var w []int
					for i := 0; i < n; i++ {
						w = append(w, (i*(k+1)+i/7)%6)
					}
					run(w)
				}
			}
		}})

	// ---- jaeger
	type ref struct {
		typ string
		id  proxy.Id
	}
	type jdesc struct {
		trace, id opt[proxy.Id]
		op        string
		refs      []ref
		noRefs    bool
		ts, dur   int64
		proc      string
		tags      []field // key, JSON value
		noTags    bool
	}
	jid := func(i proxy.Id) string { return fmt.Sprintf("%x", uint64(i)) }
	jjson := func(d jdesc) string {
		num := func(n int64) string {
			if n < 0 {
				return ""
			}
			return fmt.Sprint(n)
		}
		refs, tags := "", ""
		if !d.noRefs {
			var p []string
			for _, r := range d.refs {
				p = append(p, `{"refType":"`+r.typ+`","traceID":"1","spanID":"`+jid(r.id)+`"}`)
			}
			refs = "[" + strings.Join(p, ",") + "]"
		}
		if !d.noTags {
			var p []string
			for _, t := range d.tags {
				p = append(p, `{"key":`+str(t.k)+`,"type":"any","value":`+t.v+`}`)
			}
			tags = "[" + strings.Join(p, ",") + "]"
		}
		op, proc := "", ""
		if d.op != "-" {
			op = str(d.op)
		}
		if d.proc != "-" {
			proc = str(d.proc)
		}
		return mkObj(field{"traceID", d.trace.src}, field{"spanID", d.id.src}, field{"operationName", op}, field{"references", refs}, field{"startTime", num(d.ts)}, field{"duration", num(d.dur)},
			field{"tags", tags}, field{"logs", `[{"timestamp":5,"fields":[{"key":"event","value":"x"}]}]`}, field{"processID", proc}, field{"flags", "1"}, field{"warnings", "null"})
	}
	jwant := func(d jdesc, procs map[string]string) proxy.Span {
		s := proxy.Span{Id: d.id.val, Trace: d.trace.val, Parent: d.id.val, Tags: map[string]string{"protocolVersion": "jaeger"}}
		for _, r := range d.refs {
			if r.typ == "CHILD_OF" {
				s.Parent = r.id
			}
		}
		if d.op != "-" {
			s.Name = d.op
		}
		if d.proc != "-" {
			s.Service = procs[d.proc]
		}
		s.Duration = time.Millisecond
		if d.ts > 0 {
			s.Timestamp = proxy.Timestamp(d.ts * us)
		}
		if d.dur > 0 {
			s.Duration = time.Duration(d.dur * us)
		}
		kind := ""
		for _, t := range d.tags {
			if !strings.HasPrefix(t.v, `"`) {
				continue
			}
			var v string
			json.Unmarshal([]byte(t.v), &v)
			switch t.k {
			case "internal.span.format":
			case "span.kind":
				kind = strings.ToLower(v)
			case "component":
				s.Tags["lc"] = v
			default:
				s.Tags[t.k] = v
			}
		}
		switch kind {
		case "client":
			s.Timings.CS, s.Timings.CR = s.Timestamp, s.Timestamp+proxy.Timestamp(s.Duration)
		case "server":
			s.Timings.SR, s.Timings.SS = s.Timestamp, s.Timestamp+proxy.Timestamp(s.Duration)
		}
		return s
	}
	type dataObj struct {
		spans []jdesc
		procs map[string]string
		order []string
	}
	jbody := func(ds []dataObj) (string, []proxy.Span) {
		var p []string
		var want []proxy.Span
		for _, d := range ds {
			var sp, pr []string
			for _, x := range d.spans {
				sp = append(sp, jjson(x))
				want = append(want, jwant(x, d.procs))
			}
			for _, k := range d.order {
				pr = append(pr, str(k)+`:{"serviceName":`+str(d.procs[k])+`,"tags":[{"key":"h","type":"string","value":"z"}]}`)
			}
			p = append(p, `{"traceID":"1","spans":[`+strings.Join(sp, ",")+`],"processes":{`+strings.Join(pr, ",")+`},"warnings":null}`)
		}
		return `{"data":[` + strings.Join(p, ",") + `],"total":0,"errors":null}`, want
	}
	ja := func(c *explore.C, ds ...dataObj) {
		body, want := jbody(ds)
		if c.Next(func() string { return "jaeger " + body }) {
			expect(c, "jaeger", []byte(body), want)
			if len(want) > 0 {
				c.Outcome(fmt.Sprint(want[0]))
			}
		}
	}
	explore.AddSeq(&explore.Seq{Name: "jaeger mapping", Prop: "C07",
		What: "jaeger: all id pairs over 6 forms; all lists of up to 3 references over CHILD_OF/FOLLOWS_FROM/other (one CHILD_OF, of another span, none, the span itself or the trace id); times product; all lists of up to 3 tags over 12 (string, special, number, bool, null, object) with distinct keys; all letter cases of span.kind; 1-3 data objects with clashing process ids; unknown and missing processes, every subset of 4 defined ones",
		Run: func(c *explore.C) {
			all := idOpts()
			ids := []opt[proxy.Id]{all[2], all[3], all[4], all[5], all[6], all[7]}
			big := int64(1500000000123456)
			procs := map[string]string{"p1": "svc1", "p2": "svc2", "": "noname"}
			order := []string{"p1", "p2", ""}
			base := jdesc{trace: ids[0], id: ids[1], op: "op", ts: big, dur: 9, proc: "p1", noRefs: true, noTags: true}
			for _, a := range ids {
				for _, b := range ids {
					x := base
					x.trace, x.id = a, b
					ja(c, dataObj{[]jdesc{x}, procs, order})
				}
			}
			rt := []string{"CHILD_OF", "FOLLOWS_FROM", "OTHER"}
			for l := 0; l <= 3; l++ {
				words(3, l, func(w []int) {
					n := 0
					x := base
					x.noRefs = false
					x.refs = nil
					for i, k := range w {
						x.refs = append(x.refs, ref{rt[k], proxy.Id(0x100 + i)})
						if k == 0 {
							n++
						}
					}
					if n <= 1 {
						ja(c, dataObj{[]jdesc{x}, procs, order})
						for _, p := range []proxy.Id{0, 1, -1, x.id.val, x.trace.val} {
							y := x
							y.refs = append([]ref{}, x.refs...)
							for i := range y.refs {
								if y.refs[i].typ == "CHILD_OF" {
									y.refs[i].id = p
									ja(c, dataObj{[]jdesc{y}, procs, order})
								} else {
									y.refs[i].id = x.id.val
								}
							}
						}
					}
				})
			}
			for _, p := range []proxy.Id{1, -1, -1 << 63, 0xff} {
				x := base
				x.noRefs, x.refs = false, []ref{{"CHILD_OF", p}}
				ja(c, dataObj{[]jdesc{x}, procs, order})
			}
			tags := []field{{"a", `"1"`}, {"component", `"net/http"`}, {"internal.span.format", `"proto"`}, {"span.kind", `"client"`}, {"span.kind", `"server"`}, {"span.kind", `"producer"`}, {"n", `12`}, {"b", `true`}, {"z", `null`}, {"o", `{"x":"y"}`},
				{"error", `"true"`}, {"empty", `""`}, {"Component", `"x"`}}
			for l := 0; l <= 3; l++ {
				words(len(tags), l, func(w []int) {
					seen := map[string]bool{}
					x := base
					x.noTags = false
					for _, k := range w {
						if seen[tags[k].k] {
							return
						}
						seen[tags[k].k] = true
						x.tags = append(x.tags, tags[k])
					}
					ja(c, dataObj{[]jdesc{x}, procs, order})
				})
			}
			for _, w := range []string{"client", "server"} {
				cases(w, func(k string) {
					x := base
					x.noTags, x.tags = false, []field{{"span.kind", str(k)}}
					ja(c, dataObj{[]jdesc{x}, procs, order})
				})
			}
			for _, k := range []string{" client", "server ", "client\n", "\u00a0server", "client\x00", "cl ient", "clients", "serve", "CLIENT_SERVER"} {
				x := base
				x.noTags, x.tags = false, []field{{"span.kind", str(k)}}
				ja(c, dataObj{[]jdesc{x}, procs, order})
			}
			tv := []int64{-1, 0, 1, 999, 1000, 1001, 999999, 1000000, big, 1577836799999999, 4500000000000000, 4500000000000001}
			for _, t := range tv {
				for _, d := range tv {
					for _, k := range []string{"x", "client", "server"} {
						x := base
						x.ts, x.dur, x.noTags, x.tags = t, d, false, []field{{"span.kind", str(k)}}
						ja(c, dataObj{[]jdesc{x}, procs, order})
					}
				}
			}
			for v := 0; v < 16; v++ { // processes defined
				d := dataObj{procs: map[string]string{}}
				for i, k := range []string{"p1", "p2", "P1", ""} {
					if v>>i&1 == 1 {
						d.procs[k], d.order = "svc "+k, append(d.order, k)
					}
				}
				for _, pr := range []string{"-", "", "p1", "p2", "P1", "p"} {
					if pr == "-" && v&8 != 0 {
						continue
					}
					x := base
					x.proc = pr
					d.spans = append(d.spans, x)
					ja(c, dataObj{[]jdesc{x}, d.procs, d.order})
				}
				ja(c, d)
			}
			for _, op := range []string{"-", "", "op", "a b"} {
				for _, pr := range []string{"p1", "p2", "p3"} {
					x := base
					x.op, x.proc = op, pr
					ja(c, dataObj{[]jdesc{x}, procs, order})
				}
			}
			// several data objects and spans
			x1, x2, x3 := base, base, base
			x1.noTags, x1.tags, x1.noRefs, x1.refs = false, []field{{"a", `"1"`}, {"span.kind", `"server"`}}, false, []ref{{"CHILD_OF", 0x55}}
			x2.proc, x2.op, x2.ts, x2.dur = "p2", "-", -1, -1
			x3.id, x3.proc, x3.noTags, x3.tags = ids[4], "p1", false, []field{{"component", `"c"`}}
			xs := []jdesc{x1, x2, x3}
			pm := []map[string]string{{"p1": "A", "p2": "B"}, {"p1": "C"}, {}}
			or := [][]string{{"p1", "p2"}, {"p1"}, {}}
			top := 3
			if c.Thorough {
				top = 4
			}
			for no := 0; no <= top; no++ {
				words(9, no, func(w []int) {
					var ds []dataObj
					k := 0
					for _, v := range w {
						d := dataObj{procs: pm[v%3], order: or[v%3]}
						for i := 0; i < v/3+(no%2); i++ {
							d.spans = append(d.spans, xs[k%3])
							k++
						}
						ds = append(ds, d)
					}
					ja(c, ds...)
				})
			}
		}})
}
