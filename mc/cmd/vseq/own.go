package main

import (
	"fmt"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/explore"
	"verif/ref"
)

// Every span is its own: what is done with one is not seen in another.

func ownShapes() (r [][]proxy.Span) {
	shapes := []map[string]string{nil, {}, {"k": "v"}, {"k": "v", "l": "w"}}
	var rec func(l []proxy.Span)
	rec = func(l []proxy.Span) {
		if len(l) > 0 {
			r = append(r, ref.CloneAll(l))
		}
		if len(l) == 3 {
			return
		}
		for _, t := range shapes {
			x := proxy.Span{Id: proxy.Id(1 + len(l)), Trace: 7, Parent: 1, Name: "name", Timestamp: 5000000, Duration: 3000000}
			for k, v := range t {
				x.AddTag(k, v)
			}
			if t != nil && x.Tags == nil {
				x.Tags = map[string]string{}
			}
			rec(append(l[:len(l):len(l)], x))
		}
	}
	rec(nil)
	return
}

func init() {
	for _, q := range []struct {
		prop string
		fs   []string
	}{{"C05", []string{"v1"}}, {"C06", []string{"v2"}}, {"C07", []string{"jaeger"}}, {"C09", ref.Formats}} {
		explore.AddSeq(&explore.Seq{Name: "spans of their own " + q.prop, Prop: q.prop,
			What: "two requests one after the other, each of 1-3 spans having no, empty, one or two tags; every span of the first, then of the second, gets a tag of its own: it is the only one to have it",
			Run: func(c *explore.C) {
				l := ownShapes()
				for _, f := range q.fs {
					for _, g := range q.fs {
						for i := range l {
							for j := range l {
								if q.prop == "C09" && (len(l[i]) > 2 || len(l[j]) > 1) {
									continue
								}
								if !c.Next(func() string { return f + " " + ref.ShowAll(l[i]) + ", " + g + " " + ref.ShowAll(l[j]) }) {
									continue
								}
								var got, want []proxy.Span
								for k, x := range [][]proxy.Span{l[i], l[j]} {
									ff := []string{f, g}[k]
									_, b := ref.Payload(ff, x)
									r, err := parse(ff, b)
									c.Ops(1)
									w := ref.CloneAll(x)
									for n := range w {
										w[n].AddTag("protocolVersion", ref.ProtocolTag(ff))
									}
									if err != nil || !ref.EqualAll(r, w) {
										c.Fail("%s request %d: decoded to %s, %v\ninstead of %s", ff, k, ref.ShowAll(r), err, ref.ShowAll(w))
									}
									for n := range r {
										r[n].AddTag(fmt.Sprint("mine", k, n), "x")
										w[n].AddTag(fmt.Sprint("mine", k, n), "x")
									}
									got, want = append(got, r...), append(want, w...)
								}
								if !ref.EqualAll(got, want) {
									c.Fail("after every span got a tag of its own, the spans are %s\ninstead of %s", ref.ShowAll(got), ref.ShowAll(want))
								}
							}
						}
					}
				}
			}})
	}
	explore.AddSeq(&explore.Seq{Name: "decoded spans of their own", Prop: "C10",
		What: "two encodings of spans having no, empty, one or two tags decoded one after the other or twice: a tag given to the first is not seen in the second",
		Run: func(c *explore.C) {
			var l []proxy.Span
			for _, x := range ownShapes() {
				if len(x) == 1 {
					l = append(l, x[0])
				}
			}
			for i := range l {
				for j := range l {
					if !c.Next(func() string { return ref.Show(l[i]) + ", " + ref.Show(l[j]) }) {
						continue
					}
					bi, bj := encode(c, l[i]), encode(c, l[j])
					x, e1 := decode(bi)
					x.AddTag("mine", "x")
					y, e2 := decode(bj)
					y.AddTag("yours", "y")
					z, e3 := decode(bj)
					c.Ops(5)
					wx, wy := ref.Clone(l[i]), ref.Clone(l[j])
					wx.AddTag("mine", "x")
					wy.AddTag("yours", "y")
					if e1 != nil || e2 != nil || e3 != nil || !ref.Equal(x, wx) || !ref.Equal(y, wy) || !ref.Equal(z, l[j]) {
						c.Fail("decoded and tagged %s, %s, then decoded %s\ninstead of %s, %s, %s", ref.Show(x), ref.Show(y), ref.Show(z), ref.Show(wx), ref.Show(wy), ref.Show(l[j]))
					}
				}
			}
		}})
}
