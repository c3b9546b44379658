// Package ref has the reference models and helpers the harnesses share.
package ref

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

// Clone makes a copy that shares no memory.
func Clone(s proxy.Span) proxy.Span {
	s.Name = strings.Clone(s.Name)
	s.Service = strings.Clone(s.Service)
	if s.Tags != nil {
		t := make(map[string]string, len(s.Tags))
		for k, v := range s.Tags {
			t[strings.Clone(k)] = strings.Clone(v)
		}
		s.Tags = t
	}
	return s
}

func CloneAll(l []proxy.Span) []proxy.Span {
	r := make([]proxy.Span, len(l))
	for i := range l {
		r[i] = Clone(l[i])
	}
	return r
}

// Equal compares all fields; a nil and an empty tag map are equal.
func Equal(a, b proxy.Span) bool {
	if a.Id != b.Id || a.Parent != b.Parent || a.Trace != b.Trace || a.Name != b.Name || a.Service != b.Service || a.Timestamp != b.Timestamp ||
		a.Duration != b.Duration || a.Timings != b.Timings || len(a.Tags) != len(b.Tags) {
		return false
	}
	for k, v := range a.Tags {
		if w, ok := b.Tags[k]; !ok || w != v {
			return false
		}
	}
	return true
}

func EqualAll(a, b []proxy.Span) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

// Show prints a span readably, with sorted tags.
func Show(s proxy.Span) string {
	var k []string
	for x := range s.Tags {
		k = append(k, x)
	}
	sort.Strings(k)
	t := ""
	for _, x := range k {
		v := s.Tags[x]
		if len(v) > 60 {
			v = fmt.Sprintf("%s...(%d bytes)", v[:60], len(v))
		}
		t += fmt.Sprintf(" %q=%q", x, v)
	}
	n := s.Name
	if len(n) > 60 {
		n = fmt.Sprintf("%s...(%d bytes)", n[:60], len(n))
	}
	return fmt.Sprintf("{t=%x id=%x p=%x name=%q svc=%q ts=%d dur=%d cs=%d cr=%d sr=%d ss=%d tags:%s}", uint64(s.Trace), uint64(s.Id), uint64(s.Parent), n, s.Service,
		int64(s.Timestamp), int64(s.Duration), int64(s.Timings.CS), int64(s.Timings.CR), int64(s.Timings.SR), int64(s.Timings.SS), t)
}

func ShowAll(l []proxy.Span) string {
	var b strings.Builder
	for i, s := range l {
		if i == 8 {
			fmt.Fprintf(&b, " ... (%d spans)", len(l))
			break
		}
		b.WriteString(Show(s))
	}
	return b.String()
}

func Q(s string) string {
	b, _ := json.Marshal(s)
	return string(b)
}

func hex(id proxy.Id) string { return fmt.Sprintf("%016x", uint64(id)) }

// V2JSON is the Zipkin v2 text of a span (ids, name, service, times, kind from the timings, tags except protocolVersion).
func V2JSON(s proxy.Span) string {
	f := []string{`"traceId":"` + hex(s.Trace) + `"`, `"id":"` + hex(s.Id) + `"`}
	if s.Parent != 0 {
		f = append(f, `"parentId":"`+hex(s.Parent)+`"`)
	}
	f = append(f, `"name":`+Q(s.Name))
	if s.Timings.CS != 0 {
		f = append(f, `"kind":"CLIENT"`)
	} else if s.Timings.SR != 0 {
		f = append(f, `"kind":"SERVER"`)
	}
	f = append(f, fmt.Sprintf(`"timestamp":%d,"duration":%d`, int64(s.Timestamp)/1000, int64(s.Duration)/1000))
	f = append(f, `"localEndpoint":{"serviceName":`+Q(s.Service)+`}`)
	if len(s.Tags) > 0 {
		f = append(f, `"tags":`+tagsJSON(s.Tags))
	}
	return "{" + strings.Join(f, ",") + "}"
}

func sortedTags(t map[string]string) []string {
	var k []string
	for x := range t {
		if x != "protocolVersion" {
			k = append(k, x)
		}
	}
	sort.Strings(k)
	return k
}

func tagsJSON(t map[string]string) string {
	var p []string
	for _, k := range sortedTags(t) {
		p = append(p, Q(k)+":"+Q(t[k]))
	}
	return "{" + strings.Join(p, ",") + "}"
}

// V1JSON is the Zipkin v1 text of a span.
func V1JSON(s proxy.Span) string {
	f := []string{`"traceId":"` + hex(s.Trace) + `"`, `"id":"` + hex(s.Id) + `"`}
	if s.Parent != 0 {
		f = append(f, `"parentId":"`+hex(s.Parent)+`"`)
	}
	f = append(f, `"name":`+Q(s.Name), fmt.Sprintf(`"timestamp":%d,"duration":%d`, int64(s.Timestamp)/1000, int64(s.Duration)/1000))
	ep := `"endpoint":{"serviceName":` + Q(s.Service) + `,"ipv4":"1.2.3.4"}`
	var an []string
	for _, x := range []struct {
		k string
		t proxy.Timestamp
	}{{"cs", s.Timings.CS}, {"cr", s.Timings.CR}, {"sr", s.Timings.SR}, {"ss", s.Timings.SS}} {
		if x.t != 0 {
			an = append(an, fmt.Sprintf(`{"timestamp":%d,"value":"%s",%s}`, int64(x.t)/1000, x.k, ep))
		}
	}
	f = append(f, `"annotations":[`+strings.Join(an, ",")+`]`)
	var ba []string
	for _, k := range sortedTags(s.Tags) {
		ba = append(ba, `{"key":`+Q(k)+`,"value":`+Q(s.Tags[k])+`,`+ep+`}`)
	}
	if len(ba) == 0 && len(an) == 0 && s.Service != "" {
		ba = append(ba, `{"key":"lc","value":"",`+ep+`}`)
	}
	f = append(f, `"binaryAnnotations":[`+strings.Join(ba, ",")+`]`)
	return "{" + strings.Join(f, ",") + "}"
}

// JaegerJSON is a Jaeger payload with one data object for the spans, one process per span.
func JaegerJSON(l []proxy.Span) string {
	var sp, pr []string
	for i, s := range l {
		f := []string{`"traceID":"` + hex(s.Trace) + `"`, `"spanID":"` + hex(s.Id) + `"`, `"operationName":` + Q(s.Name)}
		if s.Parent != s.Id {
			f = append(f, `"references":[{"refType":"CHILD_OF","traceID":"`+hex(s.Trace)+`","spanID":"`+hex(s.Parent)+`"}]`)
		}
		f = append(f, fmt.Sprintf(`"startTime":%d,"duration":%d,"processID":"p%d"`, int64(s.Timestamp)/1000, int64(s.Duration)/1000, i))
		var tg []string
		if s.Timings.CS != 0 {
			tg = append(tg, `{"key":"span.kind","type":"string","value":"client"}`)
		} else if s.Timings.SR != 0 {
			tg = append(tg, `{"key":"span.kind","type":"string","value":"server"}`)
		}
		for _, k := range sortedTags(s.Tags) {
			tg = append(tg, `{"key":`+Q(k)+`,"type":"string","value":`+Q(s.Tags[k])+`}`)
		}
		f = append(f, `"tags":[`+strings.Join(tg, ",")+`]`)
		sp = append(sp, "{"+strings.Join(f, ",")+"}")
		pr = append(pr, fmt.Sprintf(`"p%d":{"serviceName":%s}`, i, Q(s.Service)))
	}
	return `{"data":[{"spans":[` + strings.Join(sp, ",") + `],"processes":{` + strings.Join(pr, ",") + `}}]}`
}

// Payload renders spans in a format: v1, v2 or jaeger. It returns the endpoint path.
func Payload(format string, l []proxy.Span) (path string, body []byte) {
	var p []string
	switch format {
	case "v1":
		for _, s := range l {
			p = append(p, V1JSON(s))
		}
		return "/api/v1/spans", []byte("[" + strings.Join(p, ",") + "]")
	case "v2":
		for _, s := range l {
			p = append(p, V2JSON(s))
		}
		return "/api/v2/spans", []byte("[" + strings.Join(p, ",") + "]")
	}
	return "/api/jaeger/spans", []byte(JaegerJSON(l))
}

// Formats lists the payload formats.
var Formats = []string{"v1", "v2", "jaeger"}

// ProtocolTag is the protocolVersion tag a format adds.
func ProtocolTag(format string) string {
	switch format {
	case "v1":
		return "json v1"
	case "v2":
		return "json v2"
	}
	return "jaeger"
}
