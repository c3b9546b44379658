package main

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/explore"
	"verif/ref"
	"verif/rt"
	"verif/sys"
)

func gz(level int, b []byte) []byte {
	var w bytes.Buffer
	z, _ := gzip.NewWriterLevel(&w, level)
	z.Write(b)
	z.Close()
	return w.Bytes()
}

func cutEvery(b []byte, n int) [][]byte {
	var r [][]byte
	if n == 0 {
		return [][]byte{b}
	}
	for i := 0; i < len(b); i += n {
		r = append(r, b[i:min(len(b), i+n)])
	}
	return r
}

func init() {
	explore.Add(&explore.Scenario{Name: "compressed bodies", Prop: "C02",
		What: "for each format: complete and damaged bodies, plain and as gzip (stored, fast, best, two members, with header fields), in reads of 1, 2, 3, 10, 100 bytes or at once, EOF with or after the last bytes, with or without Content-Length: the same answer and spans as the plain body at once",
		Cfgs: noDeviations,
		Body: func() {
			f := ref.Formats[rt.Choose(3)]
			l := seqSpans(7, 3)
			path, b := ref.Payload(f, l)
			want := tagged(f, l)
			ok := true
			switch rt.Choose(6) {
			case 5:
				l = append(l, span(7, 9, 1))
				l[3].Name = string(bytes.Repeat([]byte("a"), 3<<20))
				_, b = ref.Payload(f, l)
				want = tagged(f, l)
			case 1:
				b, want, ok = b[:len(b)-1], nil, false
			case 2:
				b, want, ok = b[:len(b)/2], nil, false
			case 3:
				b, want, ok = nil, nil, false
			case 4:
				l = append(l, span(7, 9, 1))
				l[3].Name = string(bytes.Repeat([]byte("long name é "), 2000))
				_, b = ref.Payload(f, l)
				want = tagged(f, l)
			}
			enc := rt.Choose(7)
			step := []int{0, 1, 2, 3, 10, 100}[rt.Choose(6)]
			with := rt.Choose(2) == 1
			chunked := rt.Choose(2) == 1
			if step > 0 && step < 10 && len(b) > 2000 {
				step = 1000 + step
			}
			if step > 0 && len(b) > 1<<20 {
				step *= 1000
			}
			wire, ce := b, "gzip"
			switch enc {
			case 0:
				ce = ""
			case 1:
				wire = gz(gzip.NoCompression, b)
			case 2:
				wire = gz(gzip.BestSpeed, b)
			case 3:
				wire = gz(gzip.BestCompression, b)
			case 4:
				wire = append(gz(5, b[:len(b)/3]), gz(5, b[len(b)/3:])...)
			case 5:
				var w bytes.Buffer
				z := gzip.NewWriter(&w)
				z.Name, z.Comment, z.Extra = "spans.json", "comment", []byte{1, 2, 3, 4}
				for i := 0; i < len(b); i += 50 {
					z.Write(b[i:min(len(b), i+50)])
					z.Flush()
				}
				z.Close()
				wire = w.Bytes()
			case 6:
				wire = append(gz(5, nil), gz(5, b)...)
			}
			s := sys.Boot(sys.Options{Kafka: true, NoConsume: true})
			r := s.PostBody(path, "application/json", ce, &sys.Body{Pieces: cutEvery(wire, step), EOFWith: with, Chunked: chunked})
			rt.Sleep(2 * time.Second)
			got := submitted(s.Producer)
			what := fmt.Sprintf("%s body %s, encoding %d, reads of %d bytes, EOF with the last bytes %v, chunked %v", f, clipb(b), enc, step, with, chunked)
			if ok != (r.Code == 202) || !ok && (r.Code < 400 || r.Code > 499) {
				rt.Fail("%s: answered %d %s", what, r.Code, r.Body)
			}
			if !ref.EqualAll(got, want) {
				rt.Fail("%s: handed on %s\ninstead of %s", what, clipb([]byte(ref.ShowAll(got))), clipb([]byte(ref.ShowAll(want))))
			}
			rt.Digest(fmt.Sprint(r.Code, len(got)))
		}})
	explore.Add(&explore.Scenario{Name: "huge bodies", Prop: "C02", Heavy: true,
		What: "for each format a body of 20 or 70 MB, most of it blanks before or behind the first byte or an unknown member, plain and compressed, complete or without its last byte: the same answer and spans as without",
		Cfgs: noDeviations,
		Body: func() {
			f := ref.Formats[rt.Choose(3)]
			n := []int{20, 70}[rt.Choose(2)] << 20
			kind := rt.Choose(3)
			l := seqSpans(7, 3)
			path, b := ref.Payload(f, l)
			i := bytes.IndexByte(b, '{')
			cut := rt.Choose(2) == 1
			z := rt.Choose(2) == 1
			var body []byte
			switch kind {
			case 0:
				body = append(bytes.Repeat([]byte(" \n"), n/2), b...)
			case 1:
				body = append(append(append([]byte{}, b[:1]...), bytes.Repeat([]byte(" "), n)...), b[1:]...)
			case 2:
				body = append([]byte{}, b[:i+1]...)
				body = append(append(append(body, `"unknown":"`...), bytes.Repeat([]byte("pad "), n/4)...), `",`...)
				body = append(body, b[i+1:]...)
			}
			want := tagged(f, l)
			if cut {
				body, want = body[:len(body)-1], nil
			}
			ce := ""
			if z {
				body, ce = gz(gzip.BestSpeed, body), "gzip"
			}
			s := sys.Boot(sys.Options{Kafka: true, NoConsume: true})
			r := s.PostBody(path, "application/json", ce, &sys.Body{Pieces: cutEvery(body, 1<<20)})
			rt.Sleep(2 * time.Second)
			got := submitted(s.Producer)
			if !ref.EqualAll(got, want) || (r.Code == 202) == cut || cut && (r.Code < 400 || r.Code > 499) {
				rt.Fail("%s body of %d bytes, padding %d, compressed %v, cut %v: answered %d %s, handed on %s", f, n, kind, z, cut, r.Code, clipb([]byte(r.Body)), ref.ShowAll(got))
			}
			rt.Digest(fmt.Sprint(r.Code))
		}})
	explore.Add(&explore.Scenario{Name: "broken compression", Prop: "C02",
		What: "bodies declared as gzip that are empty, plain JSON, cut at every byte, zlib data, gzip of gzip or gzip with any single header byte changed; gzip data not declared: rejected with 4xx, or (cut after the JSON is complete) accepted as a whole; a following request is served",
		Cfgs: noDeviations,
		Body: func() {
			f := ref.Formats[rt.Choose(3)]
			l := seqSpans(7, 2)
			path, b := ref.Payload(f, l)
			z := gz([]int{gzip.NoCompression, gzip.BestCompression}[rt.Choose(2)], b)
			ce := "gzip"
			var wire []byte
			may := false
			switch k := rt.Choose(7); k {
			case 0:
			case 1:
				wire = b
			case 2:
				n := rt.Choose(len(z))
				wire, may = z[:n], n > len(z)-16
			case 3:
				wire = gz(5, z)
			case 4:
				wire = append([]byte{}, z...)
				i := rt.Choose(3)
				wire[i] ^= 0x5a
			case 5:
				wire, ce = z, ""
			case 6:
				wire = append([]byte{0x78, 0x9c}, z[10:]...)
			}
			s := sys.Boot(sys.Options{Kafka: true, NoConsume: true})
			r := s.PostBody(path, "application/json", ce, &sys.Body{Pieces: cutEvery(wire, 40)})
			rt.Sleep(2 * time.Second)
			got := submitted(s.Producer)
			want := tagged(f, l)
			acc := r.Code == 202 && ref.EqualAll(got, want)
			rej := r.Code >= 400 && r.Code < 500 && len(got) == 0
			if !rej && !(may && acc) {
				rt.Fail("%s body declared %q, %d bytes %x: answered %d, handed on %s", f, ce, len(wire), clipb(wire), r.Code, ref.ShowAll(got))
			}
			n := len(s.Producer.Msgs)
			r = s.PostBody(path, "application/json", "gzip", &sys.Body{Pieces: cutEvery(z, 0)})
			rt.Sleep(2 * time.Second)
			if got := submitted(s.Producer)[n:]; r.Code != 202 || !ref.EqualAll(got, want) {
				rt.Fail("the request after a broken one is answered %d, handed on %s", r.Code, ref.ShowAll(got))
			}
			rt.Digest(fmt.Sprint(acc))
		}})
	explore.Add(&explore.Scenario{Name: "compressed at once", Race: true, Prop: "C02",
		What: "after no, a not compressed body declared as gzip, a cut compressed body, compressed data that is cut JSON, or a good request: three compressed and plain requests of different formats at the same time in several reads: every interleaving and pool answer within the deviations",
		Cfgs: deviations(2, 3, func(c *rt.Config) { c.Sched, c.Pool = true, true }),
		Body: func() {
			s := sys.Boot(sys.Options{Kafka: true, NoConsume: true})
			rs := make([]*sys.Resp, 3)
			prev := rt.Choose(5)
			if prev > 0 {
				path, b := ref.Payload("v2", seqSpans(30, 2))
				z := gz(5, b)
				r := s.PostBody(path, "application/json", "gzip", &sys.Body{Pieces: [][]byte{[][]byte{nil, b, z[:len(z)/2], gz(5, b[:len(b)/2]), z}[prev]}})
				if (r.Code == 202) != (prev == 4) {
					rt.Fail("request %d before is answered %d", prev, r.Code)
				}
			}
			var fs []func()
			for i, f := range ref.Formats {
				fs = append(fs, func() {
					path, b := ref.Payload(f, seqSpans(20+i, 2))
					ce := "gzip"
					if i == 1 {
						ce = ""
					} else {
						b = gz(5, b)
					}
					rs[i] = s.PostBody(path, "application/json", ce, &sys.Body{Pieces: cutEvery(b, 1+len(b)/2), EOFWith: i == 0})
				})
			}
			join(fs...)
			rt.Sleep(2 * time.Second)
			got := submitted(s.Producer)
			for i, f := range ref.Formats {
				if part := ofTrace(got, proxy.Id(20+i)); rs[i].Code != 202 || !ref.EqualAll(part, tagged(f, seqSpans(20+i, 2))) {
					rt.Fail("%s request answered %d, handed on %s", f, rs[i].Code, ref.ShowAll(part))
				}
			}
			rt.Digest(ref.ShowAll(got))
		}})
}
