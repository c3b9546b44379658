package ref

import (
	"strings"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

// What other tracing systems give a meaning; to the proxy all of it is like any other text.
var (
	WellKnownTags = strings.Fields("http.status http.status_code http.method http.url http.path http.host http.route status status.code code error.message error.msg error.type error.stack error.object errors err exception failed failure fault success ok level event message stack " +
		"otel.status_code span.kind span_kind kind span.type type component lc sa ca ma service service.name name operation operation_name resource resource.name peer.service peer.hostname db.type db.statement db.instance sql.query env environment version host hostname ip language runtime " +
		"sampling.priority _sampling_priority_v1 _dd.origin analytics.event manual.keep manual.drop priority duration timestamp start debug shared id traceId parentId internal.span.format jaeger.debug x error")
	SomeValues = []string{"", "0", "1", "2", "-1", "200", "500", "true", "false", "error", "client", "SERVER", "web", "GET /x"}
	SomeNames  = strings.Split("/health|GET /health|/healthz|health|healthcheck|/ping|ping|/metrics|/status|/ready|/live|/admin|/favicon.ico|OPTIONS|OPTIONS /|HEAD /|get|GET|post|unknown|Unknown|none|null|nil|(resource empty)|fake-root|root|test|debug|noop|error|timeout|redis|mysql.query|select 1|SELECT * FROM t|kafka.send|send|receive|http request|dd-zipkin-proxy|zipkin-proxy|/api/v2/spans|/api/v1/spans|/v0.3/traces|*|%s|%d|-|_|.|/|\\|' '|{}|[]|<nil>|0|-1|true", "|")
)

// Named are traces of two spans, one of which has a name, service or tag that might be taken for something special.
func Named(trace int, child bool) (r []proxy.Trace) {
	add := func(set func(s *proxy.Span)) {
		t := proxy.Trace{}
		for i := 1; i <= 2; i++ {
			s := proxy.NewSpan("op", proxy.Id(trace+len(r)), proxy.Id(i), 1)
			s.Service, s.Timestamp, s.Duration = "svc", proxy.Timestamp(1622548800000000000+i*1000000), 5000000
			s.AddTag("a", "b")
			if child == (i == 2) {
				set(&s)
			}
			t = append(t, s)
		}
		r = append(r, t)
	}
	for _, n := range SomeNames {
		add(func(s *proxy.Span) { s.Name = n })
		add(func(s *proxy.Span) { s.Service = n })
		add(func(s *proxy.Span) { s.Name, s.Service = n, n })
	}
	for _, k := range WellKnownTags {
		if k == "component" || k == "span.kind" || k == "internal.span.format" {
			continue // some formats give these a meaning
		}
		for _, v := range []string{"", "0", "-1", "500", "true", "false"} {
			add(func(s *proxy.Span) { s.AddTag(k, v) })
		}
	}
	return r
}
