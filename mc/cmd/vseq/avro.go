package main

import (
	"bytes"
	"math"

	"github.com/flachnetz/dd-zipkin-proxy/codec"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

// What a byte string means as an Avro binary encoding of a span.
const (
	avroValid   = iota
	avroDamaged // truncated, or with a length below zero or beyond the end
	avroOpen    // a number of more than 64 bits, bytes after the end and the like
)

type avroReader struct {
	b       []byte
	verdict int
}

func (r *avroReader) long() int64 {
	if r.verdict != avroValid {
		return 0
	}
	var v uint64
	for i := 0; ; i++ {
		if i == len(r.b) {
			r.verdict = avroDamaged
			return 0
		}
		x := r.b[i]
		if i == 9 && x > 1 {
			r.verdict = avroOpen
			return 0
		}
		v += uint64(x%128) << (7 * uint(i))
		if x < 128 {
			r.b = r.b[i+1:]
			break
		}
	}
	if v%2 == 0 {
		return int64(v / 2)
	}
	return -int64(v/2) - 1
}

func (r *avroReader) text() string {
	n := r.long()
	if r.verdict != avroValid {
		return ""
	}
	if n < 0 || n > int64(len(r.b)) {
		r.verdict = avroDamaged
		return ""
	}
	s := string(r.b[:n])
	r.b = r.b[n:]
	return s
}

// order of the numbers behind the texts, as the encoder writes them
var avroOrder []int

func init() {
	var s proxy.Span
	for f := 3; f < 9; f++ {
		setNum(&s, f, int64(f))
	}
	var b bytes.Buffer
	if codec.BinaryEncode(s, &b) == nil && b.Len() == 12 && bytes.Equal(b.Bytes()[:5], make([]byte, 5)) {
		for _, x := range b.Bytes()[5:11] {
			avroOrder = append(avroOrder, int(x)/2)
		}
	}
}

func avroSpan(b []byte) (s proxy.Span, verdict int) {
	if avroOrder == nil {
		return s, avroOpen // not the record we know
	}
	r := &avroReader{b: b}
	s.Id = proxy.Id(r.long())
	s.Trace = proxy.Id(r.long())
	s.Parent = proxy.Id(r.long())
	s.Name = r.text()
	s.Service = r.text()
	for _, f := range avroOrder {
		setNum(&s, f, r.long())
	}
	for r.verdict == avroValid {
		n := r.long()
		if n == 0 {
			break
		}
		if n < 0 {
			if n == math.MinInt64 {
				return s, avroOpen
			}
			n = -n
			if r.long(); r.verdict == avroValid && n > int64(len(r.b)) {
				return s, avroDamaged
			}
		}
		for i := int64(0); i < n && r.verdict == avroValid; i++ {
			k := r.text()
			v := r.text()
			if r.verdict == avroValid {
				s.AddTag(k, v)
			}
		}
	}
	if r.verdict == avroValid && len(r.b) > 0 {
		return s, avroOpen
	}
	return s, r.verdict
}
