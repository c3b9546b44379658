// Package sys runs the whole proxy (zipkinproxy.Main) inside an execution, with fake agent, Kafka and HTTP server.
package sys

import (
	"bytes"
	"compress/gzip"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"os"
	"strconv"
	"strings"
	"time"
	"unsafe"

	"github.com/DataDog/dd-trace-go/tracer"
	"github.com/Shopify/sarama"
	zipkinproxy "github.com/flachnetz/dd-zipkin-proxy"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"github.com/flachnetz/go-admin"
	startup "github.com/flachnetz/startup/v2"
	"github.com/flachnetz/startup/v2/lib/kafka"
	"github.com/flachnetz/startup/v2/startup_http"
	"github.com/flachnetz/startup/v2/startup_kafka"
	"github.com/jessevdk/go-flags"
	"github.com/julienschmidt/httprouter"
	"github.com/rcrowley/go-metrics"
	"github.com/sirupsen/logrus"

	"verif/fake"
	"verif/rt"
)

func init() {
	logrus.SetOutput(io.Discard)
	if os.Getenv("VMC_DEBUGLOG") != "" {
		logrus.SetLevel(logrus.DebugLevel)
	}
}

type Options struct {
	Kafka     bool
	Parts     int
	Args      []string
	Converter zipkinproxy.SpanConverter
	// OnProducer is called before the producer starts
	OnProducer func(p *fake.Producer)
	OnGroup    func(g *fake.Group)
	Agent      *fake.Agent
	NoConsume  bool         // the consumer group never delivers anything
	Broker     *fake.Broker // shared with other instances
	Own        []int        // partitions this instance gets (nil: all)
	Routing    zipkinproxy.Routing
	Topic      string // that the broker has; Args have to tell the proxy
	Stoppable  bool   // the HTTP server ends after Stop
	// AsConfigured makes the producer and the consumer group wait and limit messages as the configuration of the
	// Kafka client says
	AsConfigured bool
}

type Sys struct {
	Agent    *fake.Agent
	Broker   *fake.Broker
	Producer *fake.Producer
	Group    *fake.Group
	Handler  http.Handler
	Admin    http.Handler
	Options  Options
	Topic    string

	// what the proxy was told to talk to
	Agents  [][2]string // host and port of every agent transport
	Clients [][]string  // addresses of every Kafka client
	Groups  []string    // ids of the consumer groups
	Ensured []string    // topics made sure to exist

	Shape func(*http.Request) // applied to every request

	Ended    bool // Main returned
	stopping bool
	active   int // requests in progress
}

// Stop is a termination signal: the server takes no more requests and ends when the ones in progress are answered.
func (s *Sys) Stop() {
	rt.Point("signal")
	s.stopping = true
}

// Topic is what every topic is configured to be.
const Topic = "Zipkin.Spans_v1-EU"

// Boot starts the proxy and returns when it would listen. Deviations are not explored while it starts.
func Boot(o Options) *Sys {
	rt.Window(false)
	rt.MaxJump(150 * time.Millisecond) // the correlation wakes up every 100 ms
	s := &Sys{Options: o, Agent: o.Agent, Topic: Topic}
	if s.Agent == nil {
		s.Agent = &fake.Agent{}
	}
	if o.Parts == 0 {
		o.Parts = 2
	}
	if o.Converter == nil {
		o.Converter = func(sp proxy.Span) (proxy.Span, error) { return sp, nil }
	}
	args := append([]string{}, o.Args...)
	if o.Kafka {
		args = append(args, "--kafka-address=127.0.0.1:9092", "--kafka-topic="+Topic)
	}
	if o.Topic != "" {
		s.Topic = o.Topic
	}
	startup.VHookParse = func(opts interface{}) {
		p := flags.NewParser(opts, flags.HelpFlag|flags.PassDoubleDash)
		p.NamespaceDelimiter = "-"
		if _, err := p.ParseArgs(args); err != nil {
			rt.Fail("options do not parse: %s", err)
		}
	}
	tracer.VHookTransport = func(host, port string) tracer.Transport {
		s.Agents = append(s.Agents, [2]string{host, port})
		return s.Agent
	}
	startup_kafka.VHookClient = func(k *startup_kafka.KafkaOptions, id string) sarama.Client {
		conf := k.Inputs.KafkaConfig
		if conf == nil {
			conf = kafka.DefaultConfig(id)
		}
		conf.ClientID = id
		if err := conf.Validate(); err != nil {
			rt.Fail("the Kafka client does not accept its configuration: %s", err)
		}
		s.Clients = append(s.Clients, k.Addresses)
		return &fake.Client{Conf: conf}
	}
	var retention time.Duration
	kafka.VHookTopics = func(c sarama.Client, l kafka.Topics) error {
		for _, t := range l {
			if t.NumPartitions < 1 || t.ReplicationFactor < 1 {
				rt.Fail("topic %s is to have %d partitions, %d times", t.Name, t.NumPartitions, t.ReplicationFactor)
			}
			for k, v := range t.Config {
				if !topicSettings[k] || v == nil {
					rt.Fail("the broker does not know the topic setting %q", k)
				}
				n, err := strconv.ParseInt(*v, 10, 64)
				if topicNumbers[k] && (err != nil || n < -1) {
					rt.Fail("the broker does not accept the topic setting %s=%s", k, *v)
				}
				if k == "retention.ms" && t.Name == s.Topic && n > 0 && n < 1<<43 {
					retention = time.Duration(n) * time.Millisecond
				}
			}
			s.Ensured = append(s.Ensured, t.Name)
		}
		s.Broker.Retention = retention
		return nil
	}
	s.Broker = o.Broker
	if s.Broker == nil {
		s.Broker = fake.NewBroker(s.Topic, o.Parts)
	}
	sarama.VHookProducer = func(c sarama.Client) (sarama.AsyncProducer, error) {
		s.Producer = fake.NewProducer(s.Broker, c.Config())
		if o.AsConfigured {
			s.Producer.AsConfigured(c.Config())
		}
		if o.OnProducer != nil {
			o.OnProducer(s.Producer)
		}
		s.Producer.Start()
		return s.Producer, nil
	}
	sarama.VHookGroup = func(id string, c sarama.Client) (sarama.ConsumerGroup, error) {
		if !c.Config().Version.IsAtLeast(sarama.V0_10_2_0) {
			rt.Fail("consumer groups are not available in version %s of the Kafka protocol", c.Config().Version)
		}
		s.Groups = append(s.Groups, id)
		s.Group = fake.NewGroup(s.Broker)
		s.Group.Own = o.Own
		s.Group.RetErr = c.Config().Consumer.Return.Errors
		if o.AsConfigured {
			s.Group.FetchWait, s.Group.FetchMin = c.Config().Consumer.MaxWaitTime, int(c.Config().Consumer.Fetch.Min)
		}
		if o.NoConsume {
			s.Group.Scripts = []fake.Script{{OnlyParts: []int{}, Wait: 1000 * time.Hour}}
		}
		if o.OnGroup != nil {
			o.OnGroup(s.Group)
		}
		return s.Group, nil
	}
	startup_http.VHookServe = func(c startup_http.Config) {
		router := httprouter.New()
		var h http.Handler = router
		if c.Routing != nil {
			h = c.Routing(router)
		}
		s.Admin = admin.NewAdminHandler("/admin", c.Name, append([]admin.RouteConfig{admin.WithMetrics(metrics.DefaultRegistry)}, c.AdminHandlers...)...)
		s.Handler = h
		rt.ReleaseMerge(unsafe.Pointer(s)) // the listener starts after this point
		if o.Stoppable {
			rt.WaitFor("http server", func() bool { return s.stopping && s.active == 0 })
			return
		}
		rt.Block("http server")
	}
	rt.GoNamed("proxy main", func() {
		if o.Routing != nil {
			zipkinproxy.MainWithRouting(o.Routing, o.Converter)
		} else {
			zipkinproxy.Main(o.Converter)
		}
		s.Ended = true
	})
	rt.WaitFor("boot", func() bool { return s.Handler != nil })
	rt.Acquire(unsafe.Pointer(s))
	for i := 0; i < 3; i++ {
		rt.Yield()
	}
	rt.Window(true)
	return s
}

// HookKafka routes sarama constructors of directly used balance code to the given fakes.
func HookKafka(p func(c sarama.Client) *fake.Producer) {
	sarama.VHookProducer = func(c sarama.Client) (sarama.AsyncProducer, error) {
		pr := p(c)
		pr.Start()
		return pr, nil
	}
}

type Resp struct {
	Code   int
	Body   string
	Header http.Header
	Done   bool
	At     time.Duration
}

// Body is a request body delivered in the given pieces; a scheduling point before each.
type Body struct {
	Pieces  [][]byte
	EOFWith bool // io.EOF together with the last piece
	Chunked bool // sent without a Content-Length
	Err     error
	Gate    func(i int) // called before piece i
	i       int
	Closed  bool
}

func (b *Body) Read(p []byte) (int, error) {
	rt.Point("body read")
	for {
		if b.i >= len(b.Pieces) {
			if b.Err != nil {
				return 0, b.Err
			}
			return 0, io.EOF
		}
		if b.Gate != nil {
			b.Gate(b.i)
		}
		cur := b.Pieces[b.i]
		n := copy(p, cur)
		b.Pieces[b.i] = cur[n:]
		if len(b.Pieces[b.i]) == 0 {
			b.i++
		}
		if b.EOFWith && b.i >= len(b.Pieces) && b.Err == nil {
			return n, io.EOF
		}
		return n, nil
	}
}
func (b *Body) Close() error { b.Closed = true; return nil }

func (s *Sys) PostBody(path, ctype, enc string, body io.ReadCloser) *Resp {
	return s.PostContext(nil, path, ctype, enc, body)
}

// PostContext is a request whose context ends when the client goes away.
func (s *Sys) PostContext(ctx context.Context, path, ctype, enc string, body io.ReadCloser) *Resp {
	req := httptest.NewRequest("POST", path, nil)
	if ctx != nil {
		req = req.WithContext(ctx)
	}
	req.Body = body
	req.ContentLength = -1
	if b, ok := body.(*Body); ok && !b.Chunked {
		req.ContentLength = 0
		for _, p := range b.Pieces {
			req.ContentLength += int64(len(p))
		}
		if b.Err != nil { // the rest never arrives
			req.ContentLength += 7
		}
		req.Header.Set("Content-Length", strconv.FormatInt(req.ContentLength, 10))
	} else {
		req.TransferEncoding = []string{"chunked"}
	}
	if ctype != "" {
		req.Header.Set("Content-Type", ctype)
	}
	if enc != "" {
		req.Header.Set("Content-Encoding", enc)
	}
	if s.Shape != nil {
		s.Shape(req)
	}
	rec := httptest.NewRecorder()
	s.active++
	s.Handler.ServeHTTP(rec, req)
	s.active--
	return &Resp{Code: rec.Code, Body: rec.Body.String(), Header: rec.Header(), Done: true, At: rt.Elapsed()}
}

func (s *Sys) Post(path string, body []byte) *Resp {
	return s.PostBody(path, "application/json", "", &Body{Pieces: [][]byte{body}})
}

func Gzip(b []byte) []byte {
	var w bytes.Buffer
	z, _ := gzip.NewWriterLevel(&w, 1)
	z.Write(b)
	z.Close()
	return w.Bytes()
}

// Recent is the recent-spans view.
func (s *Sys) Recent() []proxy.Span {
	req := httptest.NewRequest("GET", "/admin/spans", nil)
	rec := httptest.NewRecorder()
	s.Admin.ServeHTTP(rec, req)
	if rec.Code != 200 {
		rt.Fail("GET /admin/spans answered %d: %s", rec.Code, rec.Body.String())
	}
	var l []proxy.Span
	if err := json.Unmarshal(rec.Body.Bytes(), &l); err != nil {
		rt.Fail("GET /admin/spans: %s: %q", err, rec.Body.String())
	}
	return l
}

var _ = fmt.Sprint

// settings of topics that every broker since 0.10 knows
var topicSettings, topicNumbers = map[string]bool{}, map[string]bool{}

func init() {
	for _, k := range strings.Fields("delete.retention.ms file.delete.delay.ms flush.messages flush.ms follower.replication.throttled.replicas index.interval.bytes leader.replication.throttled.replicas max.message.bytes message.format.version message.timestamp.difference.max.ms message.timestamp.type min.cleanable.dirty.ratio min.compaction.lag.ms min.insync.replicas preallocate retention.bytes retention.ms segment.bytes segment.index.bytes segment.jitter.ms segment.ms unclean.leader.election.enable cleanup.policy compression.type") {
		topicSettings[k] = true
		topicNumbers[k] = strings.HasSuffix(k, "ms") || strings.HasSuffix(k, "bytes")
	}
}
