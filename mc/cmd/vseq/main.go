// vseq enumerates input spaces of the sequential parts of the proxy in a plain build of the working tree.
package main

import (
	"bytes"
	"fmt"
	"io"

	"github.com/flachnetz/dd-zipkin-proxy/codec"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"github.com/sirupsen/logrus"

	"verif/explore"
	"verif/ref"
)

func main() {
	logrus.SetOutput(io.Discard)
	explore.Main()
}

var parsers = map[string]func(io.Reader) ([]proxy.Span, error){"v1": codec.ParseJsonV1, "v2": codec.ParseJsonV2, "jaeger": codec.ParseJaeger}

func parse(format string, body []byte) ([]proxy.Span, error) {
	return parsers[format](bytes.NewReader(body))
}

func clip(s string) string {
	if len(s) > 700 {
		return s[:350] + fmt.Sprintf("...(%d bytes)...", len(s)) + s[len(s)-250:]
	}
	return s
}

// expect parses body and compares.
func expect(c *explore.C, format string, body []byte, want []proxy.Span) {
	got, err := parse(format, body)
	c.Ops(1)
	if err != nil {
		c.Fail("%s payload %s is rejected: %s", format, clip(string(body)), err)
	}
	compare(c, format, body, got, want)
}

func compare(c *explore.C, format string, body []byte, got, want []proxy.Span) {
	if !ref.EqualAll(got, want) {
		c.Fail("%s payload %s\ndecodes to %s\ninstead of %s", format, clip(string(body)), ref.ShowAll(got), ref.ShowAll(want))
	}
}

// expectError parses body, which must be rejected.
func expectError(c *explore.C, format string, body []byte) {
	got, err := parse(format, body)
	c.Ops(1)
	if err == nil {
		c.Fail("%s payload %s is incomplete but accepted with %d spans %s", format, clip(string(body)), len(got), ref.ShowAll(got))
	}
}

// product enumerates all index vectors below dims.
func product(dims []int, f func(ix []int)) {
	ix := make([]int, len(dims))
	for _, d := range dims {
		if d == 0 {
			return
		}
	}
	for {
		f(ix)
		k := len(ix) - 1
		for k >= 0 {
			ix[k]++
			if ix[k] < dims[k] {
				break
			}
			ix[k] = 0
			k--
		}
		if k < 0 {
			return
		}
	}
}

// perms enumerates all permutations of 0..n-1.
func perms(n int, f func(p []int)) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			f(p)
			return
		}
		for i := k; i < n; i++ {
			p[k], p[i] = p[i], p[k]
			rec(k + 1)
			p[k], p[i] = p[i], p[k]
		}
	}
	rec(0)
}

// strings0 enumerates all sequences of 0..n-1 of length exactly l.
func words(n, l int, f func(w []int)) {
	d := make([]int, l)
	for i := range d {
		d[i] = n
	}
	product(d, f)
}
