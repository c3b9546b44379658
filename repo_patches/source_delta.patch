From b97cb02c220e1fbd8da0778adf3ddcebddd12e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:12 +0000
Subject: [PATCH 01/16] fix: decode the escape sequences \b, \f, \n, \r and \t
 in json strings

---
 codec/hyperjson/string.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/codec/hyperjson/string.go b/codec/hyperjson/string.go
index f63bac5..0948e8f 100644
--- a/codec/hyperjson/string.go
+++ b/codec/hyperjson/string.go
@@ -24,8 +24,7 @@ func decodeStringInPlace(input []byte) ([]byte, error) {
 		ch = input[idx]
 
 		if ch != 'u' {
-			// append escaped character as is
-			decoded = append(decoded, ch)
+			decoded = append(decoded, unescapeChar(ch))
 			continue
 		}
 
@@ -51,6 +50,25 @@ func decodeStringInPlace(input []byte) ([]byte, error) {
 	return decoded, nil
 }
 
+// Returns the character denoted by a backslash followed by the given character.
+func unescapeChar(ch byte) byte {
+	switch ch {
+	case 'b':
+		return '\b'
+	case 'f':
+		return '\f'
+	case 'n':
+		return '\n'
+	case 'r':
+		return '\r'
+	case 't':
+		return '\t'
+	default:
+		// the escaped character stands for itself
+		return ch
+	}
+}
+
 func decodeUnicodeChar(target []byte, input []byte) ([]byte, error) {
 	var r rune
 	for _, c := range input[:4] {
-- 
2.43.0


From 3c4b2047b56ec7a01e78f0ad45e29b4760eea03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:27 +0000
Subject: [PATCH 02/16] fix: decode surrogate pairs in json strings

---
 codec/hyperjson/string.go | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/codec/hyperjson/string.go b/codec/hyperjson/string.go
index 0948e8f..ba2e0e2 100644
--- a/codec/hyperjson/string.go
+++ b/codec/hyperjson/string.go
@@ -2,6 +2,7 @@ package hyperjson
 
 import (
 	"github.com/pkg/errors"
+	"unicode/utf16"
 	"unicode/utf8"
 )
 
@@ -36,8 +37,7 @@ func decodeStringInPlace(input []byte) ([]byte, error) {
 		idx++
 
 		// decode the unicode
-		var err error
-		decoded, err = decodeUnicodeChar(decoded, input[idx:])
+		r, err := decodeHexRune(input[idx:])
 		if err != nil {
 			return nil, err
 		}
@@ -45,6 +45,21 @@ func decodeStringInPlace(input []byte) ([]byte, error) {
 		// skip 3 of the consumed characters, the last one
 		// will be skipped by the for loop
 		idx += 3
+
+		// characters outside of the basic plane are encoded as a pair of two surrogates
+		if utf16.IsSurrogate(r) && idx+6 < len(input) && input[idx+1] == '\\' && input[idx+2] == 'u' {
+			low, err := decodeHexRune(input[idx+3:])
+			if err != nil {
+				return nil, err
+			}
+
+			if pair := utf16.DecodeRune(r, low); pair != utf8.RuneError {
+				r = pair
+				idx += 6
+			}
+		}
+
+		decoded = appendRune(decoded, r)
 	}
 
 	return decoded, nil
@@ -69,7 +84,7 @@ func unescapeChar(ch byte) byte {
 	}
 }
 
-func decodeUnicodeChar(target []byte, input []byte) ([]byte, error) {
+func decodeHexRune(input []byte) (rune, error) {
 	var r rune
 	for _, c := range input[:4] {
 		switch {
@@ -80,13 +95,17 @@ func decodeUnicodeChar(target []byte, input []byte) ([]byte, error) {
 		case 'A' <= c && c <= 'F':
 			c = c - 'A' + 10
 		default:
-			return nil, errors.Errorf("expected hexadecimal character but got '%c'", c)
+			return 0, errors.Errorf("expected hexadecimal character but got '%c'", c)
 		}
 
 		r = r*16 + rune(c)
 	}
 
+	return r, nil
+}
+
+func appendRune(target []byte, r rune) []byte {
 	buf := target[len(target) : len(target)+4]
 	n := utf8.EncodeRune(buf, r)
-	return target[:len(target)+n], nil
+	return target[:len(target)+n]
 }
-- 
2.43.0


From 22d57802bd8240d532b31396f3fb9464dab0e017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:27 +0000
Subject: [PATCH 03/16] fix: accept all exponent notations of json numbers

---
 codec/hyperjson/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/hyperjson/parser.go b/codec/hyperjson/parser.go
index 9137610..8440fba 100644
--- a/codec/hyperjson/parser.go
+++ b/codec/hyperjson/parser.go
@@ -216,7 +216,7 @@ func (p *Parser) readNumber() (Token, error) {
 		for ; n < avail; n++ {
 			ch := p.buffer[p.tail+n]
 
-			if !isCharDigit(ch) && ch != '.' && ch != 'e' {
+			if !isCharDigit(ch) && ch != '.' && ch != 'e' && ch != 'E' && ch != '+' {
 				token := Token{
 					Type:  TypeNumber,
 					Value: p.buffer[p.tail : p.tail+n],
-- 
2.43.0


From eb6521dd42f669c333a92aa0adf3bd529f15af08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:27 +0000
Subject: [PATCH 04/16] fix: grow the parse buffer for tokens that do not fit
 into it

---
 codec/hyperjson/parser.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/codec/hyperjson/parser.go b/codec/hyperjson/parser.go
index 8440fba..b9553db 100644
--- a/codec/hyperjson/parser.go
+++ b/codec/hyperjson/parser.go
@@ -425,6 +425,13 @@ func (p *Parser) bufferMore() error {
 		p.head = previousCount
 	}
 
+	// a single token fills the whole buffer, we need a larger one to make progress
+	if p.head == len(p.buffer) {
+		buf := make([]byte, 2*len(p.buffer)+64)
+		copy(buf, p.buffer)
+		p.buffer = buf
+	}
+
 	// read more data into the rest
 	count, err := p.input.Read(p.buffer[p.head:])
 	if err == io.EOF {
-- 
2.43.0


From 4e449ee2b6c164d0cc92fee805a86dd420346a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:27 +0000
Subject: [PATCH 05/16] fix: limit the nesting depth of skipped json values

---
 codec/hyperjson/parser.go      |  1 +
 codec/hyperjson/parser_skip.go | 17 +++++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/codec/hyperjson/parser.go b/codec/hyperjson/parser.go
index b9553db..df9c2b2 100644
--- a/codec/hyperjson/parser.go
+++ b/codec/hyperjson/parser.go
@@ -28,6 +28,7 @@ type Parser struct {
 	tail   int
 	head   int
 	eof    bool
+	depth  int
 }
 
 func NewWithReader(r io.Reader, buf []byte) *Parser {
diff --git a/codec/hyperjson/parser_skip.go b/codec/hyperjson/parser_skip.go
index 3d9947a..52ea7f9 100644
--- a/codec/hyperjson/parser_skip.go
+++ b/codec/hyperjson/parser_skip.go
@@ -2,6 +2,9 @@ package hyperjson
 
 import "github.com/pkg/errors"
 
+// Skipping is recursive, limit the nesting level to not exhaust the stack.
+const maxSkipDepth = 10000
+
 func (p *Parser) Skip() error {
 	next, err := p.NextType()
 	if err != nil {
@@ -40,6 +43,13 @@ func (p *Parser) skip(next Type) error {
 }
 
 func (p *Parser) skipArray() error {
+	if p.depth >= maxSkipDepth {
+		return errors.New("value is nested too deeply")
+	}
+
+	p.depth++
+	defer func() { p.depth-- }()
+
 	if err := p.consumeArrayBegin(); err != nil {
 		return err
 	}
@@ -63,6 +73,13 @@ func (p *Parser) skipArray() error {
 }
 
 func (p *Parser) skipObject() error {
+	if p.depth >= maxSkipDepth {
+		return errors.New("value is nested too deeply")
+	}
+
+	p.depth++
+	defer func() { p.depth-- }()
+
 	if err := p.consumeObjectBegin(); err != nil {
 		return err
 	}
-- 
2.43.0


From 8b3de3f63436ec3cdd894b3bf70aba6d402f5928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:26 +0000
Subject: [PATCH 06/16] fix: keep strings interned with cache.String off the
 caller's stack

---
 cache/cache.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index 6eb5390..8cdfa9a 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -1,7 +1,6 @@
 package cache
 
 import (
-	"github.com/modern-go/reflect2"
 	"github.com/rcrowley/go-metrics"
 	"sync"
 	"sync/atomic"
@@ -57,7 +56,14 @@ func lookupCache(copyOnInsert bool, value []byte) string {
 }
 
 func stringToByteSlice(str string) []byte {
-	return reflect2.UnsafeCastString(str)
+	// a slice header built from the string: other than a conversion by way of an uintptr this lets
+	// the compiler see that the content of the string is kept, so it must not live on the stack.
+	header := struct {
+		string
+		cap int
+	}{str, len(str)}
+
+	return *(*[]byte)(unsafe.Pointer(&header))
 }
 
 func byteSliceToString(bytes []byte) string {
-- 
2.43.0


From 867d4912694d29c97bd3131c8e66a2c45423c861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:32 +0000
Subject: [PATCH 07/16] fix: read the delivery errors of the kafka producer

---
 balance/sender.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/balance/sender.go b/balance/sender.go
index cb0af7b..a3de7c7 100644
--- a/balance/sender.go
+++ b/balance/sender.go
@@ -20,9 +20,19 @@ func NewSender(client sarama.Client, topic string) (*Sender, error) {
 		return nil, errors.WithMessage(err, "initialize kafka producer")
 	}
 
+	// the producer stops taking messages as soon as nobody reads the delivery errors
+	// that it reports by default.
+	go logDeliveryErrors(producer)
+
 	return &Sender{producer, topic}, nil
 }
 
+func logDeliveryErrors(producer sarama.AsyncProducer) {
+	for err := range producer.Errors() {
+		log.Warnf("Could not deliver span to kafka: %s", err)
+	}
+}
+
 func (s *Sender) Send(spans <-chan proxy.Span) {
 	for span := range spans {
 		s.sendSpan(span)
-- 
2.43.0


From e869b224acf0bf610315e7d3a7056b9443bc4f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:28 +0000
Subject: [PATCH 08/16] fix: make the synthetic root a root even if a span has
 the trace id

---
 correct.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/correct.go b/correct.go
index b529b74..3bf1acc 100644
--- a/correct.go
+++ b/correct.go
@@ -322,6 +322,9 @@ func createFakeRoot(spans []*proxy.Span) proxy.Span {
 
 	root := proxy.NewRootSpan("fake-root", spans[0].Trace, spans[0].Parent)
 
+	// the span with the trace id might be part of the trace, do not make it the parent
+	root.Parent = root.Id
+
 	root.Service = "fake-root"
 	root.Timestamp = firstTimestamp
 	root.Duration = time.Duration(lastTimestamp - firstTimestamp)
-- 
2.43.0


From df62bf44586ca2d5983903b424cb902a5e97d33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:03 +0000
Subject: [PATCH 09/16] fix: count the spans of a trace without overflow

---
 correct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/correct.go b/correct.go
index 3bf1acc..a48bfe4 100644
--- a/correct.go
+++ b/correct.go
@@ -62,7 +62,7 @@ type tree struct {
 
 	started   time.Time
 	updated   time.Time
-	nodeCount uint16
+	nodeCount int
 }
 
 func newTree(traceId Id) *tree {
-- 
2.43.0


From 5bc6b14d35a95fad6cb42c38b59fade77afd2332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:04 +0000
Subject: [PATCH 10/16] fix: list the recent spans in the order they were
 received

---
 buffer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/buffer.go b/buffer.go
index 582e5f3..00da4ff 100644
--- a/buffer.go
+++ b/buffer.go
@@ -34,7 +34,9 @@ func (buffer *SpansBuffer) ToSlice() []proxy.Span {
 	defer buffer.lock.Unlock()
 
 	var result []proxy.Span
-	for _, span := range buffer.spans {
+	for offset := range buffer.spans {
+		// the oldest span is the one that gets overwritten next
+		span := buffer.spans[(buffer.position+uint(offset))%uint(len(buffer.spans))]
 		if span.Id != 0 {
 			result = append(result, span)
 		}
-- 
2.43.0


From e0e59140bff7f53bf57c0dca7cbc678179cc23fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:08 +0000
Subject: [PATCH 11/16] fix: reject json numbers that do not fit into 64 bits
 instead of wrapping them around

---
 codec/hyperjson/bind.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/codec/hyperjson/bind.go b/codec/hyperjson/bind.go
index e7376d0..99c420d 100644
--- a/codec/hyperjson/bind.go
+++ b/codec/hyperjson/bind.go
@@ -4,6 +4,7 @@ import (
 	"github.com/flachnetz/dd-zipkin-proxy/cache"
 	"github.com/modern-go/reflect2"
 	"github.com/pkg/errors"
+	"math"
 	"unsafe"
 )
 
@@ -21,7 +22,12 @@ func Uint64ValueDecoder(target unsafe.Pointer, p *Parser) error {
 			return errors.Errorf("Unexpected character in number: '%c'", ch)
 		}
 
-		result = result*10 + uint64(ch-'0')
+		digit := uint64(ch - '0')
+		if result > (math.MaxUint64-digit)/10 {
+			return errors.Errorf("Number does not fit into 64 bits: %s", tok.Value)
+		}
+
+		result = result*10 + digit
 	}
 
 	// assign to target
-- 
2.43.0


From 09960ecb91afa4f62ce85ea37b0d44695912eac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:15 +0000
Subject: [PATCH 12/16] fix: write ids as text also when they are marshalled by
 value

A span that is marshalled to JSON by value (not through a pointer) wrote
its ids as numbers, which cannot be read back.
---
 proxy/id.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/proxy/id.go b/proxy/id.go
index 4ee4f12..d088fe1 100644
--- a/proxy/id.go
+++ b/proxy/id.go
@@ -67,8 +67,9 @@ func (id Id) String() string {
 	return string(encoded[:])
 }
 
-func (id *Id) MarshalJSON() ([]byte, error) {
-	value := int64(*id)
+// Has no pointer receiver, so that ids in values that are not addressable are encoded in the same way.
+func (id Id) MarshalJSON() ([]byte, error) {
+	value := int64(id)
 
 	bytes := [8]byte{
 		byte((value >> 56) & 0xff),
-- 
2.43.0


From a03030234a0982013bf5b7e1bf8d2aa4914b082b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:15 +0000
Subject: [PATCH 13/16] fix: write timestamps in UTC

The textual form of a local time zone whose offset is not a whole number
of minutes loses the seconds of the offset.
---
 proxy/timestamp.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/proxy/timestamp.go b/proxy/timestamp.go
index 7909331..b09bb06 100644
--- a/proxy/timestamp.go
+++ b/proxy/timestamp.go
@@ -34,7 +34,8 @@ func (ts Timestamp) IsValid() bool {
 }
 
 func (ts Timestamp) MarshalJSON() ([]byte, error) {
-	return ts.ToTime().MarshalJSON()
+	// always in UTC: the text has no room for the seconds of the offset of some local time zones
+	return ts.ToTime().UTC().MarshalJSON()
 }
 
 func (ts *Timestamp) UnmarshalJSON(encoded []byte) error {
-- 
2.43.0


From 23ae138d8aa7f6e3abe8e16f78adbbb05eeefd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:47 +0000
Subject: [PATCH 14/16] fix: report a cache hit rate of zero instead of NaN
 without lookups

---
 cache/cache.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cache/cache.go b/cache/cache.go
index 8cdfa9a..af155f4 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -78,6 +78,11 @@ func RegisterCacheMetrics(m metrics.Registry) {
 	metrics.NewRegisteredFunctionalGaugeFloat64("binary.cache.hit.rate", m, func() float64 {
 		hitCount := atomic.SwapUint64(&metricHitCount, 0)
 		missCount := atomic.SwapUint64(&metricMissCount, 0)
+		// without lookups since the last read this would be NaN, which can not be written as json
+		if hitCount+missCount == 0 {
+			return 0
+		}
+
 		return float64(hitCount) / float64(hitCount+missCount)
 	})
 
-- 
2.43.0


From b92694152314c1e661236bf4b48e0bbb75adaed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:49 +0000
Subject: [PATCH 15/16] fix: count discarded traces, not their spans, as
 discarded traces

---
 correct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/correct.go b/correct.go
index a48bfe4..34a240a 100644
--- a/correct.go
+++ b/correct.go
@@ -430,7 +430,7 @@ func discardSuspiciousTraces(trees map[Id]*tree, maxSpans int) {
 	}
 
 	metricsSpansDiscarded.Mark(int64(discardSpanCount))
-	metricsTracesDiscarded.Mark(int64(discardSpanCount))
+	metricsTracesDiscarded.Mark(int64(discardTraceCount))
 
 	log.Warnf("Too many spans, discarded %d trace with %d spans", discardTraceCount, discardSpanCount)
 }
-- 
2.43.0


From e0315764d8fbc4b0c5b6565a9a8bf464940c92a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:10 +0000
Subject: [PATCH 16/16] fix: read a number that ends with the input

ReadNumber and ReadLiteral failed with EOF if nothing follows the number, so a number could not be read as a document.
---
 codec/hyperjson/parser.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/codec/hyperjson/parser.go b/codec/hyperjson/parser.go
index df9c2b2..3d1e192 100644
--- a/codec/hyperjson/parser.go
+++ b/codec/hyperjson/parser.go
@@ -229,7 +229,13 @@ func (p *Parser) readNumber() (Token, error) {
 			}
 		}
 
-		if err := p.bufferMore(); err != nil {
+		if err := p.bufferMore(); err == io.EOF {
+			// the end of the input is the end of the number too
+			p.tail += n
+
+			return Token{Type: TypeNumber, Value: p.buffer[p.tail-n : p.tail]}, nil
+
+		} else if err != nil {
 			return errToken, err
 		}
 	}
-- 
2.43.0

