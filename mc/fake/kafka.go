package fake

import (
	"context"
	"errors"
	"hash/fnv"
	"time"
	"unsafe"

	"github.com/Shopify/sarama"

	"verif/rt"
)

// Rec is a stored message.
type Rec struct {
	Key, Value []byte
	Offset     int64
	Time       int64 // unix nanoseconds, as the producer says or of the arrival
}

// Broker is an in-memory Kafka topic with consumer group offsets.
type Broker struct {
	Topic     string
	Parts     [][]*Rec
	Committed []int64
	Client    *Client
	Retention time.Duration // messages that are older than this may be gone when they are fetched, here they are (0: never)
}

func NewBroker(topic string, parts int) *Broker {
	return &Broker{Topic: topic, Parts: make([][]*Rec, parts), Committed: make([]int64, parts)}
}

// Partition is the hash partitioner of sarama.
func (b *Broker) Partition(key []byte) int {
	h := fnv.New32a()
	h.Write(key)
	p := int32(h.Sum32()) % int32(len(b.Parts))
	if p < 0 {
		p = -p
	}
	return int(p)
}

func (b *Broker) Append(part int, key, value []byte) {
	b.Parts[part] = append(b.Parts[part], &Rec{Key: append([]byte{}, key...), Value: append([]byte{}, value...), Offset: int64(len(b.Parts[part])), Time: rt.NowNanos()})
}

// Client is a sarama.Client that only knows its configuration.
type Client struct {
	sarama.Client
	Conf *sarama.Config
}

func (c *Client) Config() *sarama.Config { return c.Conf }
func (c *Client) Closed() bool           { return false }
func (c *Client) Close() error           { return nil }
func (c *Client) Brokers() []*sarama.Broker {
	return nil
}
func (c *Client) Topics() ([]string, error)          { return nil, nil }
func (c *Client) Partitions(string) ([]int32, error) { return nil, nil }

// Producer is a sarama.AsyncProducer that encodes messages lazily, when its flush interval passed.
type Producer struct {
	b    *Broker
	in   chan *sarama.ProducerMessage
	errs chan *sarama.ProducerError
	succ chan *sarama.ProducerMessage

	retErr, retSucc bool
	part            sarama.Partitioner
	nPart           int
	MaxBytes        int // larger messages are not delivered (0: no limit)

	Msgs   []*sarama.ProducerMessage // in the order of submission
	Flush  time.Duration             // 0: every message at once
	Fail   func(i int) bool          // this message cannot be delivered
	Err    error                     // with this error
	Gate   func() bool               // while it answers false the producer does not take messages
	flushq []*sarama.ProducerMessage
	nOut   int
	Failed int
	OnMsg  func(m *sarama.ProducerMessage) // a message was submitted; it is not remembered then
}

var ErrDelivery = errors.New("message was too large")

func NewProducer(b *Broker, conf *sarama.Config) *Producer {
	n := conf.ChannelBufferSize
	p := &Producer{b: b, in: make(chan *sarama.ProducerMessage), errs: make(chan *sarama.ProducerError), succ: make(chan *sarama.ProducerMessage),
		retErr: conf.Producer.Return.Errors, retSucc: conf.Producer.Return.Successes}
	_ = n
	if conf.Producer.Partitioner != nil {
		p.part = conf.Producer.Partitioner(b.Topic)
	}
	return p
}

// AsConfigured makes the producer flush and limit messages as its configuration says.
func (p *Producer) AsConfigured(conf *sarama.Config) {
	p.Flush, p.MaxBytes = conf.Producer.Flush.Frequency, conf.Producer.MaxMessageBytes
}

// partition asks the configured partitioner. One that is not bound to the key may answer anything, here
// it takes the partitions in turn.
func (p *Producer) partition(m *sarama.ProducerMessage, key []byte) int {
	if p.part == nil {
		return p.b.Partition(key)
	}
	bound := p.part.RequiresConsistency()
	if d, ok := p.part.(sarama.DynamicConsistencyPartitioner); ok {
		bound = d.MessageRequiresConsistency(m)
	}
	if !bound {
		p.nPart++
		return p.nPart % len(p.b.Parts)
	}
	k, err := p.part.Partition(m, int32(len(p.b.Parts)))
	if err != nil || k < 0 || int(k) >= len(p.b.Parts) {
		rt.Fail("no partition for a message: %d of %d, %v", k, len(p.b.Parts), err)
	}
	return int(k)
}

// size of a message as sarama counts it
func size(m *sarama.ProducerMessage) int {
	n := 36
	if m.Key != nil {
		n += m.Key.Length()
	}
	if m.Value != nil {
		n += m.Value.Length()
	}
	return n
}

// Start runs the producer's goroutines.
func (p *Producer) Start() {
	rt.GoNamed("kafka producer", func() {
		for {
			if p.Gate != nil {
				rt.WaitFor("producer gate", p.Gate)
			}
			m, ok := rt.Recv2(p.in)
			if !ok {
				p.flush()
				rt.Close(p.errs)
				rt.Close(p.succ)
				return
			}
			if m == nil {
				rt.Fail("a nil message was submitted to the producer")
			}
			i := len(p.Msgs)
			if p.OnMsg != nil {
				p.OnMsg(m)
				p.Msgs = append(p.Msgs, nil)
			} else {
				p.Msgs = append(p.Msgs, m)
			}
			large := p.MaxBytes > 0 && size(m) > p.MaxBytes
			if large || p.Fail != nil && p.Fail(i) {
				p.Failed++
				if p.retErr {
					err := p.err()
					if large {
						err = sarama.ErrMessageSizeTooLarge
					}
					rt.SendTo(p.errs)(&sarama.ProducerError{Msg: m, Err: err})
				}
				continue
			}
			p.flushq = append(p.flushq, m)
			rt.Fence(unsafe.Pointer(p))
			if p.Flush == 0 {
				p.flush()
			}
		}
	})
	if p.Flush > 0 {
		rt.GoNamed("kafka flusher", func() {
			for {
				rt.Sleep(p.Flush)
				p.flush()
			}
		})
	}
}

func (p *Producer) err() error {
	if p.Err != nil {
		return p.Err
	}
	return ErrDelivery
}

// DeliveryErrors are kinds of errors that sarama reports for messages.
var DeliveryErrors = []error{nil, sarama.ErrOutOfBrokers, sarama.ErrMessageSizeTooLarge, sarama.ErrNotLeaderForPartition, sarama.ErrRequestTimedOut,
	sarama.ErrShuttingDown, sarama.ErrUnknownTopicOrPartition, sarama.ErrLeaderNotAvailable, sarama.ErrClosedClient, context.DeadlineExceeded,
	sarama.ErrNotConnected, sarama.ErrTopicAuthorizationFailed, errors.New("write: broken pipe")}

func (p *Producer) flush() {
	q := p.flushq
	p.flushq = nil
	rt.Fence(unsafe.Pointer(p)) // messages pass through channels in sarama
	for _, m := range q {
		if m.Topic != p.b.Topic {
			rt.Fail("message submitted for topic %q instead of %q", m.Topic, p.b.Topic)
		}
		if m.Key == nil {
			rt.Fail("message without key")
		}
		k, err := m.Key.Encode()
		if err != nil || m.Key.Length() != len(k) {
			rt.Fail("the key of a message has length %d but encodes to %d bytes, %v", m.Key.Length(), len(k), err)
		}
		v, err := m.Value.Encode()
		if err != nil || m.Value.Length() != len(v) {
			rt.Fail("the value of a message has length %d but encodes to %d bytes, %v", m.Value.Length(), len(v), err)
		}
		part := p.partition(m, k)
		p.b.Append(part, k, v)
		if !m.Timestamp.IsZero() {
			l := p.b.Parts[part]
			l[len(l)-1].Time = m.Timestamp.UnixNano()
		}
		p.nOut++
		if p.retSucc {
			rt.SendTo(p.succ)(m)
		}
	}
}

func (p *Producer) AsyncClose()                               { rt.Close(p.in) }
func (p *Producer) Close() error                              { rt.Close(p.in); return nil }
func (p *Producer) Input() chan<- *sarama.ProducerMessage     { return p.in }
func (p *Producer) Successes() <-chan *sarama.ProducerMessage { return p.succ }
func (p *Producer) Errors() <-chan *sarama.ProducerError      { return p.errs }

// Session script of a consumer group: what one call to Consume does.
type Script struct {
	Err       error         // Consume answers this error at once
	After     int           // the session ends after this many messages were handed to claims (0: never)
	EndErr    error         // and answers this
	Wait      time.Duration // time Consume takes before it does anything
	ForTime   time.Duration // the session ends after this time
	OnlyParts []int         // claimed partitions (nil: all)
	Lost      bool          // the offsets marked in the session are not committed in the end: the next one begins where it began
}

type Group struct {
	B       *Broker
	Scripts []Script // of successive calls; the default script afterwards
	Buf     int      // buffer of the claim channels
	Calls   int
	Active  int // ConsumeClaim calls running
	Marks   []Mark
	Given   []Given // hand-overs of messages to claims, in order
	errs    chan error
	closed  bool
	Running int // Consume calls running
	Marking func(part int32, off int64)
	Topics  []string
	Own     []int // partitions the group gives to this member (nil: all)

	RetErr    bool          // errors of sessions are also sent to Errors
	FetchWait time.Duration // a fetch takes as long as this unless FetchMin bytes are there
	FetchMin  int
}

type Mark struct {
	Part int32
	Off  int64
	Call int
}
type Given struct {
	Part int32
	Off  int64
	Call int
}

func NewGroup(b *Broker) *Group { return &Group{B: b, Buf: 2, errs: make(chan error)} }

func (g *Group) Errors() <-chan error { return g.errs }
func (g *Group) Close() error {
	rt.Point("group close")
	g.closed = true
	return nil
}

func (g *Group) Consume(ctx context.Context, topics []string, h sarama.ConsumerGroupHandler) error {
	rt.Point("group.Consume")
	g.Topics = topics
	g.Running++
	defer func() { g.Running-- }()
	if g.Running > 1 {
		rt.Fail("Consume was called while a session was running")
	}
	call := g.Calls
	g.Calls++
	var sc Script
	if call < len(g.Scripts) {
		sc = g.Scripts[call]
	}
	if sc.Wait > 0 {
		rt.Sleep(sc.Wait)
	}
	if g.closed {
		rt.Sleep(100 * time.Millisecond)
		return sarama.ErrClosedConsumerGroup
	}
	if sc.Err != nil {
		rt.Sleep(10 * time.Millisecond)
		if g.RetErr {
			rt.SendTo(g.errs)(sc.Err)
		}
		return sc.Err
	}
	if call > 10000 {
		rt.Fail("Consume called %d times", call)
	}
	if ctx.Err() != nil {
		return nil
	}
	s := &session{g: g, parent: ctx, call: call, done: make(chan struct{})}
	for _, t := range topics {
		if t != g.B.Topic {
			rt.Fail("subscribed to topic %q instead of %q", t, g.B.Topic)
		}
	}
	parts := sc.OnlyParts
	if parts == nil {
		parts = g.Own
	}
	if parts == nil {
		for p := range g.B.Parts {
			parts = append(parts, p)
		}
	}
	s.parts = parts
	if err := h.Setup(s); err != nil {
		return err
	}
	left := len(parts)
	started := rt.Elapsed()
	_ = started
	ending := false
	end := func() {
		if !ending {
			ending = true
			rt.CloseQuiet(s.done)
		}
	}
	// the session ends with its context, by script or when any claim returns
	rt.GoNamed("session watch", func() {
		rt.Select(false, rt.RecvCase(ctx.Done()), rt.RecvCase((<-chan struct{})(s.done)))
		end()
	})
	if sc.ForTime > 0 {
		rt.GoNamed("session timer", func() { rt.Sleep(sc.ForTime); end() })
	}
	total := 0
	from := append([]int64{}, g.B.Committed...)
	for _, p := range parts {
		p := p
		cl := &claim{g: g, part: int32(p), msgs: make(chan *sarama.ConsumerMessage, g.Buf), first: g.B.Committed[p]}
		// feeder: from the committed offset on
		rt.GoNamed("feeder", func() {
			off := g.B.Committed[p]
			fetched := off
			for !ending {
				rt.WaitFor("feeder", func() bool { return ending || int64(len(g.B.Parts[p])) > off })
				if ending {
					break
				}
				if g.FetchWait > 0 && off == fetched {
					g.fetch(p, off, &ending)
					fetched = int64(len(g.B.Parts[p]))
					if ending {
						break
					}
				}
				r := g.B.Parts[p][off]
				if g.B.Retention > 0 && rt.NowNanos()-r.Time > int64(g.B.Retention) {
					off++
					continue
				}
				m := &sarama.ConsumerMessage{Topic: g.B.Topic, Partition: int32(p), Offset: off, Key: r.Key, Value: append([]byte{}, r.Value...)}
				i := rt.Select(false, rt.SendCase(cl.msgs)(m), rt.RecvCase((<-chan struct{})(s.done)))
				if i == 1 {
					break
				}
				g.Given = append(g.Given, Given{int32(p), off, call})
				off++
				total++
				if sc.After > 0 && total >= sc.After {
					end()
				}
			}
			rt.Close(cl.msgs)
		})
		rt.GoNamed("claim", func() {
			g.Active++
			h.ConsumeClaim(s, cl)
			g.Active--
			left--
			end()
		})
	}
	rt.WaitFor("session end", func() bool { return left == 0 && (ending || len(parts) > 0) })
	s.ended = true
	if sc.Lost && total >= sc.After {
		copy(g.B.Committed, from)
	}
	if err := h.Cleanup(s); err != nil {
		return err
	}
	if g.RetErr && sc.EndErr != nil {
		rt.SendTo(g.errs)(sc.EndErr)
	}
	return sc.EndErr
}

// fetch waits until the broker answers a request for the messages from an offset on.
func (g *Group) fetch(part int, from int64, ending *bool) {
	for until := rt.Elapsed() + g.FetchWait; !*ending && rt.Elapsed() < until; rt.Sleep(50 * time.Millisecond) {
		n := 0
		for _, r := range g.B.Parts[part][from:] {
			n += len(r.Key) + len(r.Value) + 20
		}
		if n >= g.FetchMin {
			return
		}
	}
}

type session struct {
	g      *Group
	parent context.Context
	call   int
	parts  []int
	done   chan struct{}
	ended  bool
}

func (s *session) Claims() map[string][]int32 {
	var l []int32
	for _, p := range s.parts {
		l = append(l, int32(p))
	}
	return map[string][]int32{s.g.B.Topic: l}
}
func (s *session) MemberID() string    { return "member" }
func (s *session) GenerationID() int32 { return int32(s.call) }
func (s *session) MarkOffset(topic string, partition int32, offset int64, metadata string) {
	rt.Point("mark")
	if s.g.Marking != nil {
		s.g.Marking(partition, offset-1)
	}
	s.g.Marks = append(s.g.Marks, Mark{partition, offset - 1, s.call})
	if offset > s.g.B.Committed[partition] {
		s.g.B.Committed[partition] = offset
	}
}
func (s *session) ResetOffset(topic string, partition int32, offset int64, metadata string) {
	if offset < s.g.B.Committed[partition] {
		s.g.B.Committed[partition] = offset
	}
}
func (s *session) MarkMessage(m *sarama.ConsumerMessage, metadata string) {
	s.MarkOffset(m.Topic, m.Partition, m.Offset+1, metadata)
}

type sessCtx struct {
	context.Context
	done chan struct{}
}

func (c sessCtx) Done() <-chan struct{} { return c.done }
func (s *session) Context() context.Context {
	return sessCtx{s.parent, s.done}
}

type claim struct {
	g     *Group
	part  int32
	msgs  chan *sarama.ConsumerMessage
	first int64
}

func (c *claim) Topic() string                            { return c.g.B.Topic }
func (c *claim) Partition() int32                         { return c.part }
func (c *claim) InitialOffset() int64                     { return c.first }
func (c *claim) HighWaterMarkOffset() int64               { return int64(len(c.g.B.Parts[c.part])) }
func (c *claim) Messages() <-chan *sarama.ConsumerMessage { return c.msgs }
