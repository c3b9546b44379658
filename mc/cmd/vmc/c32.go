package main

import (
	"bytes"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"github.com/julienschmidt/httprouter"

	"verif/explore"
	"verif/ref"
	"verif/rt"
	"verif/sys"
)

func init() {
	hosts := []string{"", "agent.example", "10.0.0.7"}
	ports := []string{"", "9126", "1"}
	addrs := [][]string{nil, {"k1:9092"}, {"k1:9092", "10.0.0.3:9093"}}
	topics := []string{"", "Other.Topic-1"}
	groups := []string{"", "our-group"}
	explore.Add(&explore.Scenario{Name: "options", Prop: "C32",
		What: fmt.Sprintf("every combination of agent host %q, port %q, Kafka addresses %v, topic %q and consumer group %q (empty: the default), then three spans in two requests", hosts, ports, addrs, topics, groups),
		Cfgs: noDeviations,
		Body: func() {
			host, port := "localhost", "8126"
			topic, group := "zipkin-spans", "zipkin-proxy"
			var args []string
			if h := hosts[rt.Choose(len(hosts))]; h != "" {
				host = h
				args = append(args, "--trace-host="+h)
			}
			if p := ports[rt.Choose(len(ports))]; p != "" {
				port = p
				args = append(args, "--trace-port="+p)
			}
			as := addrs[rt.Choose(len(addrs))]
			for _, a := range as {
				args = append(args, "--kafka-address="+a)
			}
			if t := topics[rt.Choose(len(topics))]; t != "" {
				topic = t
				args = append(args, "--kafka-topic="+t)
			}
			if g := groups[rt.Choose(len(groups))]; g != "" {
				group = g
				args = append(args, "--kafka-consumer-group="+g)
			}
			s := sys.Boot(sys.Options{Args: args, Topic: topic})
			l := seqSpans(0x77, 3)
			postOK(s, "v2", l[:2])
			postOK(s, "v2", l[2:])
			settle(20 * time.Second)
			if fmt.Sprint(s.Agents) != fmt.Sprint([][2]string{{host, port}}) {
				rt.Fail("%q: the agents are %v instead of %s port %s", args, s.Agents, host, port)
			}
			if len(as) == 0 {
				if len(s.Clients)+len(s.Groups)+len(s.Ensured) > 0 || s.Producer != nil {
					rt.Fail("%q: Kafka is used", args)
				}
			} else {
				if fmt.Sprint(s.Clients) != fmt.Sprint([][]string{as}) || fmt.Sprint(s.Groups) != fmt.Sprint([]string{group}) || fmt.Sprint(s.Ensured) != fmt.Sprint([]string{topic}) {
					rt.Fail("%q: clients of %v, groups %v, topics made %v", args, s.Clients, s.Groups, s.Ensured)
				}
				if n := len(s.Producer.Msgs); n != 3 {
					rt.Fail("%q: %d messages for 3 spans", args, n)
				}
			}
			arrived(tagged("v2", l), s)
		}})

	type request struct {
		what, method, path string
		gzip               bool
		own                string // route of the application
		spans              []proxy.Span
		format             string
	}
	var rs []request
	for _, gz := range []bool{false, true} {
		for i, f := range ref.Formats {
			rs = append(rs, request{what: f, method: "POST", gzip: gz, spans: seqSpans(0x100+i, 2), format: f})
		}
		rs = append(rs,
			request{what: "own POST", method: "POST", path: "/own/x%20y?q=1", own: "/own", gzip: gz},
			request{what: "own PUT on the path of spans", method: "PUT", path: "/api/v1/spans", own: "put", gzip: gz})
	}
	rs = append(rs,
		request{what: "own GET", method: "GET", path: "/own", own: "/own"},
		request{what: "own GET on the path of spans", method: "GET", path: "/api/v2/spans", own: "get"},
		request{what: "no route", method: "GET", path: "/nothing"},
		request{what: "no method", method: "DELETE", path: "/api/jaeger/spans"})
	explore.Add(&explore.Scenario{Name: "own routes", Prop: "C32",
		What: fmt.Sprintf("an application with three routes and a handler around the router, every sequence of three of %d requests for its routes, for spans in all formats, plain and compressed, and for no route", len(rs)),
		Cfgs: noDeviations,
		Body: func() {
			type seen struct{ route, method, uri, body, param string }
			var own []seen
			var around []string
			echo := func(route string) httprouter.Handle {
				return func(w http.ResponseWriter, r *http.Request, p httprouter.Params) {
					b, err := io.ReadAll(r.Body)
					if err != nil {
						rt.Fail("route %s: body: %s", route, err)
					}
					if e := r.Header.Get("Content-Encoding"); e != "" {
						rt.Fail("route %s: a body that is no longer compressed is declared as %s", route, e)
					}
					if l := r.Header.Get("Content-Length"); l != "" && l != fmt.Sprint(len(b)) {
						rt.Fail("route %s: a body of %d bytes is declared to have %s", route, len(b), l)
					}
					if r.Header.Get("X-Client") != "me" || r.Header.Get("Content-Type") != "application/json" {
						rt.Fail("route %s: headers of the request are gone: %v", route, r.Header)
					}
					own = append(own, seen{route, r.Method, r.RequestURI, string(b), p.ByName("id")})
					w.Header().Set("X-Own", route)
					w.WriteHeader(207)
					w.Write([]byte("own " + string(b)))
				}
			}
			s := sys.Boot(sys.Options{Routing: func(router *httprouter.Router) http.Handler {
				router.GET("/own", echo("/own"))
				router.POST("/own/:id", echo("/own"))
				router.PUT("/api/v1/spans", echo("put"))
				router.GET("/api/v2/spans", echo("get"))
				return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
					around = append(around, r.Method+" "+r.URL.Path)
					w.Header().Set("X-Around", "yes")
					router.ServeHTTP(w, r)
				})
			}})
			var want []proxy.Span
			given := map[string]bool{}
			for i := 0; i < 3; i++ {
				r := rs[rt.Choose(len(rs))]
				body := []byte(fmt.Sprintf("body %d of %s", i, r.what))
				if r.spans != nil {
					r.path, body = ref.Payload(r.format, r.spans)
					if given[r.format] {
						continue
					}
					given[r.format] = true
					want = append(want, tagged(r.format, r.spans)...)
				}
				plain := string(body)
				if r.gzip {
					body = sys.Gzip(body)
				}
				if r.method == "GET" {
					body, plain = nil, ""
				}
				req := httptest.NewRequest(r.method, r.path, bytes.NewReader(body))
				req.Header.Set("Content-Type", "application/json")
				req.Header.Set("Content-Length", fmt.Sprint(len(body)))
				req.Header.Set("X-Client", "me")
				if r.gzip {
					req.Header.Set("Content-Encoding", "gzip")
				}
				own, around = nil, nil
				rec := httptest.NewRecorder()
				s.Handler.ServeHTTP(rec, req)
				if len(around) != 1 || around[0] != r.method+" "+req.URL.Path || rec.Header().Get("X-Around") != "yes" {
					rt.Fail("%s: the handler of the application saw %q", r.what, around)
				}
				switch {
				case r.own != "":
					if len(own) != 1 || own[0].route != r.own || own[0].method != r.method || own[0].uri != r.path || own[0].body != plain {
						rt.Fail("%s %s with %q: the routes of the application saw %+v", r.method, r.path, plain, own)
					}
					if rec.Code != 207 || rec.Body.String() != "own "+plain || rec.Header().Get("X-Own") != r.own {
						rt.Fail("%s %s: answered %d %q", r.method, r.path, rec.Code, rec.Body.String())
					}
				case len(own) > 0:
					rt.Fail("%s: the routes of the application saw %+v", r.what, own)
				case r.spans != nil:
					if rec.Code != 202 {
						rt.Fail("%s: answered %d %s", r.what, rec.Code, rec.Body.String())
					}
				case rec.Code != 404 && rec.Code != 405:
					rt.Fail("%s: answered %d %s", r.what, rec.Code, rec.Body.String())
				}
			}
			settle(15 * time.Second)
			arrived(want, s)
		}})
}
