package main

import (
	"errors"
	"fmt"
	"io"
	"strconv"
	"strings"

	"github.com/flachnetz/dd-zipkin-proxy/codec/hyperjson"
	pkgerrors "github.com/pkg/errors"

	"verif/explore"
)

// val is a JSON value: a scalar with its source and the text of its token, or a container.
type val struct {
	typ       hyperjson.Type // TypeArrayBegin and TypeObjectBegin for containers
	src, text string
	keys      []scalar
	kids      []*val
}

type scalar struct{ src, text string }

var scalars = []val{
	{typ: hyperjson.TypeNumber, src: "0", text: "0"},
	{typ: hyperjson.TypeString, src: `"a"`, text: "a"},
	{typ: hyperjson.TypeNull, src: "null", text: "null"},
	{typ: hyperjson.TypeBoolean, src: "true", text: "true"},
	{typ: hyperjson.TypeBoolean, src: "false", text: "false"},
	{typ: hyperjson.TypeString, src: `""`, text: ""},
	{typ: hyperjson.TypeNumber, src: "-12.5E+3", text: "-12.5E+3"},
	{typ: hyperjson.TypeString, src: `"\"\\\u00e9]}"`, text: "\"\\é]}"},
	{typ: hyperjson.TypeString, src: `"` + strings.Repeat("long ", 30) + `"`, text: strings.Repeat("long ", 30)},
	{typ: hyperjson.TypeNumber, src: "18446744073709551615", text: "18446744073709551615"},
}

var jkeys = []scalar{{`"k"`, "k"}, {`"\u0041\n\""`, "A\n\""}, {`""`, ""}}

// trees enumerates all values of exactly n nodes over the first leaves scalars.
func trees(n, leaves int, f func(v *val)) {
	if n == 1 {
		for i := 0; i < leaves; i++ {
			f(&scalars[i])
		}
	}
	forests(n-1, leaves, func(kids []*val) {
		f(&val{typ: hyperjson.TypeArrayBegin, kids: kids})
		o := &val{typ: hyperjson.TypeObjectBegin, kids: kids}
		for i := range kids {
			o.keys = append(o.keys, jkeys[i%len(jkeys)])
		}
		f(o)
	})
}

// forests enumerates all lists of values with n nodes together.
func forests(n, leaves int, f func(kids []*val)) {
	if n == 0 {
		f(nil)
		return
	}
	for k := 1; k <= n; k++ {
		trees(k, leaves, func(first *val) {
			forests(n-k, leaves, func(rest []*val) {
				f(append([]*val{first}, rest...))
			})
		})
	}
}

func (v *val) size() int {
	n := 1
	for _, k := range v.kids {
		n += k.size()
	}
	return n
}

func (v *val) write(b *strings.Builder, sp string) {
	b.WriteString(sp)
	switch v.typ {
	case hyperjson.TypeArrayBegin, hyperjson.TypeObjectBegin:
		obj := v.typ == hyperjson.TypeObjectBegin
		if obj {
			b.WriteByte('{')
		} else {
			b.WriteByte('[')
		}
		for i, k := range v.kids {
			if i > 0 {
				b.WriteString(sp + ",")
			}
			if obj {
				b.WriteString(sp + v.keys[i].src + sp + ":")
			}
			k.write(b, sp)
		}
		b.WriteString(sp)
		if obj {
			b.WriteByte('}')
		} else {
			b.WriteByte(']')
		}
	default:
		b.WriteString(v.src)
	}
}

func (v *val) doc(sp string) string {
	var b strings.Builder
	v.write(&b, sp)
	return b.String()
}

// jcall is one call of the parser's API, by the kind of token it takes.
type jcall struct {
	name string
	fits func(t hyperjson.Type) bool
	do   func(p *hyperjson.Parser) error
}

func exactly(want hyperjson.Type) func(hyperjson.Type) bool {
	return func(t hyperjson.Type) bool { return t == want }
}

func tokenCall(f func(p *hyperjson.Parser) (hyperjson.Token, error)) func(p *hyperjson.Parser) error {
	return func(p *hyperjson.Parser) error { _, err := f(p); return err }
}

var jcalls = []jcall{
	{"ReadString", exactly(hyperjson.TypeString), tokenCall((*hyperjson.Parser).ReadString)},
	{"ReadNumber", exactly(hyperjson.TypeNumber), tokenCall((*hyperjson.Parser).ReadNumber)},
	{"ReadNull", exactly(hyperjson.TypeNull), tokenCall((*hyperjson.Parser).ReadNull)},
	{"ReadBoolean", exactly(hyperjson.TypeBoolean), tokenCall((*hyperjson.Parser).ReadBoolean)},
	{"ReadLiteral", func(t hyperjson.Type) bool {
		return t == hyperjson.TypeString || t == hyperjson.TypeNumber || t == hyperjson.TypeNull || t == hyperjson.TypeBoolean
	}, tokenCall((*hyperjson.Parser).ReadLiteral)},
	{"ConsumeArrayBegin", exactly(hyperjson.TypeArrayBegin), (*hyperjson.Parser).ConsumeArrayBegin},
	{"ConsumeArrayEnd", exactly(hyperjson.TypeArrayEnd), (*hyperjson.Parser).ConsumeArrayEnd},
	{"ConsumeObjectBegin", exactly(hyperjson.TypeObjectBegin), (*hyperjson.Parser).ConsumeObjectBegin},
	{"ConsumeObjectEnd", exactly(hyperjson.TypeObjectEnd), (*hyperjson.Parser).ConsumeObjectEnd},
	{"Skip", func(t hyperjson.Type) bool { return t != hyperjson.TypeArrayEnd && t != hyperjson.TypeObjectEnd }, (*hyperjson.Parser).Skip},
	{"ReadArray", exactly(hyperjson.TypeArrayBegin), func(p *hyperjson.Parser) error {
		return p.ReadArray(func() error { return errors.New("called for an element") })
	}},
	{"ReadObject", exactly(hyperjson.TypeObjectBegin), func(p *hyperjson.Parser) error {
		return p.ReadObject(func([]byte) error { return errors.New("called for a member") })
	}},
}

var errStop = errors.New("stop here")

// walk reads v with one way of reading per value. It reports the first thing that is not as it should be, or the error of
// the parser.
type walk struct {
	p     *hyperjson.Parser
	ways  []int // per value in document order: 0 by type, 1 generic (ReadLiteral, ReadArray, ReadObject), 2 Skip
	pos   int
	wrong bool // first try all calls that do not fit, at every token
	stop  int  // the consumer returns an error at its stop-th call; -1 never
	calls int
	cut   bool // the document is cut, possibly in the middle of a number
	bad   string
}

func (w *walk) fail(f string, a ...any) error {
	if w.bad == "" {
		w.bad = fmt.Sprintf(f, a...)
	}
	return errors.New(w.bad)
}

// at checks the type of the next token.
func (w *walk) at(t hyperjson.Type) error {
	got, err := w.p.NextType()
	if err != nil {
		return err
	}
	if got != t {
		return w.fail("NextType says %s where the document has %s", got, t)
	}
	if w.wrong {
		for _, c := range jcalls {
			if !c.fits(t) {
				if err := c.do(w.p); err == nil {
					return w.fail("%s succeeds where the document has %s", c.name, t)
				}
				got, err := w.p.NextType()
				if err != nil {
					return err
				}
				if got != t {
					return w.fail("after a failed %s NextType says %s where the document has %s", c.name, got, t)
				}
			}
		}
	}
	return nil
}

func (w *walk) token(name string, typ hyperjson.Type, text string, tok hyperjson.Token, err error) error {
	if err != nil {
		return err
	}
	if w.cut && typ == hyperjson.TypeNumber && tok.Type == typ && strings.HasPrefix(text, string(tok.Value)) {
		return nil
	}
	if tok.Type != typ || string(tok.Value) != text {
		return w.fail("%s returns %s %q where the document has %s %q", name, tok.Type, tok.Value, typ, text)
	}
	return nil
}

func (w *walk) consumer() error {
	w.calls++
	if w.calls-1 == w.stop {
		return errStop
	}
	if w.stop >= 0 && w.calls-1 > w.stop {
		return w.fail("the consumer is called again after it returned an error")
	}
	return nil
}

func (w *walk) value(v *val) error {
	if err := w.at(v.typ); err != nil {
		return err
	}
	way := 0
	if w.ways != nil {
		way = w.ways[w.pos]
	}
	w.pos++
	if way == 2 {
		w.pos += v.size() - 1
		return w.p.Skip()
	}
	switch v.typ {
	case hyperjson.TypeArrayBegin:
		if way == 1 {
			i := 0
			err := w.p.ReadArray(func() error {
				if err := w.consumer(); err != nil {
					return err
				}
				if i == len(v.kids) {
					return w.fail("ReadArray calls its consumer %d times for %d elements", i+1, len(v.kids))
				}
				i++
				return w.value(v.kids[i-1])
			})
			if err == nil && i != len(v.kids) {
				return w.fail("ReadArray calls its consumer %d times for %d elements", i, len(v.kids))
			}
			return err
		}
		if err := w.p.ConsumeArrayBegin(); err != nil {
			return err
		}
		for _, k := range v.kids {
			if err := w.value(k); err != nil {
				return err
			}
		}
		if err := w.at(hyperjson.TypeArrayEnd); err != nil {
			return err
		}
		return w.p.ConsumeArrayEnd()
	case hyperjson.TypeObjectBegin:
		if way == 1 {
			i := 0
			err := w.p.ReadObject(func(key []byte) error {
				if err := w.consumer(); err != nil {
					return err
				}
				if i == len(v.kids) {
					return w.fail("ReadObject calls its consumer %d times for %d members", i+1, len(v.kids))
				}
				if string(key) != v.keys[i].text {
					return w.fail("ReadObject gives the key %q instead of %q", key, v.keys[i].text)
				}
				i++
				return w.value(v.kids[i-1])
			})
			if err == nil && i != len(v.kids) {
				return w.fail("ReadObject calls its consumer %d times for %d members", i, len(v.kids))
			}
			return err
		}
		if err := w.p.ConsumeObjectBegin(); err != nil {
			return err
		}
		for i, k := range v.kids {
			if err := w.at(hyperjson.TypeString); err != nil {
				return err
			}
			tok, err := w.p.ReadString()
			if err := w.token("ReadString", hyperjson.TypeString, v.keys[i].text, tok, err); err != nil {
				return err
			}
			if err := w.value(k); err != nil {
				return err
			}
		}
		if err := w.at(hyperjson.TypeObjectEnd); err != nil {
			return err
		}
		return w.p.ConsumeObjectEnd()
	}
	if way == 1 {
		tok, err := w.p.ReadLiteral()
		return w.token("ReadLiteral", v.typ, v.text, tok, err)
	}
	switch v.typ {
	case hyperjson.TypeString:
		tok, err := w.p.ReadString()
		return w.token("ReadString", v.typ, v.text, tok, err)
	case hyperjson.TypeNumber:
		tok, err := w.p.ReadNumber()
		return w.token("ReadNumber", v.typ, v.text, tok, err)
	case hyperjson.TypeNull:
		tok, err := w.p.ReadNull()
		return w.token("ReadNull", v.typ, v.text, tok, err)
	}
	tok, err := w.p.ReadBoolean()
	return w.token("ReadBoolean", v.typ, v.text, tok, err)
}

// source is a way of giving a document to the parser.
type source struct {
	buf, read int // size of the buffer (-1: none given, -2: NewWithBytes), size of the reads (0: all)
	with      bool
}

func (s source) String() string {
	if s.buf == -2 {
		return "from bytes"
	}
	r := "from a reader"
	if s.read > 0 {
		r += " in reads of " + strconv.Itoa(s.read)
	}
	if s.with {
		r += ", EOF with the last bytes"
	}
	if s.buf == -1 {
		return r + ", no buffer given"
	}
	return r + ", a buffer of " + strconv.Itoa(s.buf)
}

// errAfter gives the bytes in reads of at most size and then ends with err.
type errAfter struct {
	b    []byte
	size int
	with bool
	err  error
}

func (r *errAfter) Read(b []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, r.err
	}
	n := len(r.b)
	if r.size > 0 && n > r.size {
		n = r.size
	}
	n = copy(b, r.b[:n])
	r.b = r.b[n:]
	if len(r.b) == 0 && r.with {
		return n, r.err
	}
	return n, nil
}

func (s source) parser(doc string, err error) *hyperjson.Parser {
	if s.buf == -2 {
		return hyperjson.NewWithBytes([]byte(doc))
	}
	r := &errAfter{[]byte(doc), s.read, s.with, err}
	if s.buf == -1 {
		return hyperjson.NewWithReader(r, nil)
	}
	return hyperjson.NewWithReader(r, make([]byte, s.buf))
}

var allSources, fewSources []source

func init() {
	allSources = append(allSources, source{buf: -2})
	for _, buf := range []int{-1, 0, 1, 2, 3, 5, 8, 64} {
		for _, read := range []int{0, 1, 2, 3, 7} {
			for _, with := range []bool{false, true} {
				allSources = append(allSources, source{buf, read, with})
			}
		}
	}
	fewSources = []source{{buf: -2}, {-1, 0, true}, {1, 1, false}, {3, 2, true}, {8, 0, false}, {5, 7, false}}
}

// end checks that nothing but the end of the input follows.
func (w *walk) end() string {
	if t, err := w.p.NextType(); err == nil {
		return fmt.Sprintf("NextType says %s at the end of the document", t)
	} else if pkgerrors.Cause(err) != io.EOF {
		return fmt.Sprintf("NextType fails with %q at the end of the document instead of io.EOF", err)
	}
	for _, c := range jcalls {
		if err := c.do(w.p); err == nil {
			return c.name + " succeeds at the end of the document"
		}
	}
	return ""
}

func walkDoc(c *explore.C, doc string, v *val, s source, ways []int, wrong bool) {
	c.Ops(1)
	w := &walk{p: s.parser(doc, io.EOF), ways: ways, wrong: wrong, stop: -1}
	err := w.value(v)
	what := w.bad
	if what == "" && err != nil {
		what = "fails: " + err.Error()
	}
	if what == "" {
		what = w.end()
	}
	if what != "" {
		c.Fail("document %s read %s, ways of reading its values %v (0 by type, 1 generic, 2 skip), unfitting calls first=%v: %s", clip(doc), s, ways, wrong, what)
	}
}

func init() {
	spaces := []string{"", " ", "\n\t\r "}
	explore.AddSeq(&explore.Seq{Name: "pull parser: documents", Prop: "C33",
		What: "every JSON document of <=3 values (thorough 4) over 10 scalars and of <=5 (thorough 6) values over 2 scalars, arrays and objects nested in any way; every value read by type, generically or skipped in all combinations; with and without all unfitting calls before every token; from bytes and from readers with buffers of 0..64 bytes or none and reads of 1,2,3,7 or all bytes, EOF with or after the last; three kinds of spacing",
		Run: func(c *explore.C) {
			big, small := 3, 5
			if c.Thorough {
				big, small = 4, 6
			}
			for n := 1; n <= small; n++ {
				leaves := len(scalars)
				if n > big {
					leaves = 2
				}
				trees(n, leaves, func(v *val) {
					if c.Next(func() string { return clip(v.doc("")) }) {
						for si, sp := range spaces {
							doc := v.doc(sp)
							src := fewSources
							if n <= 2 || (c.Thorough && n <= big) {
								src = allSources
							}
							dims := make([]int, n)
							for i := range dims {
								dims[i] = 3
							}
							for _, wrong := range []bool{false, true} {
								if n > big && (si == 1 || wrong) {
									continue
								}
								product(dims, func(ways []int) {
									for _, s := range src {
										walkDoc(c, doc, v, s, ways, wrong)
									}
								})
							}
						}
					}
				})
			}
		}})
	explore.AddSeq(&explore.Seq{Name: "pull parser: errors", Prop: "C33",
		What: "every document of <=3 values (thorough 4): cut after every byte, and a reader that fails after every byte (with or after the last bytes), read by type, generically and skipped; a consumer of ReadArray and ReadObject that fails at every call",
		Run: func(c *explore.C) {
			n := 3
			if c.Thorough {
				n = 4
			}
			errRead := errors.New("connection reset")
			for k := 1; k <= n; k++ {
				trees(k, len(scalars), func(v *val) {
					if !c.Next(func() string { return clip(v.doc("")) }) {
						return
					}
					container := v.typ == hyperjson.TypeArrayBegin || v.typ == hyperjson.TypeObjectBegin
					for _, sp := range []string{"", " "} {
						doc := v.doc(sp)
						for cut := 0; cut < len(doc); cut++ {
							if cut > 40 && cut < len(doc)-40 {
								continue
							}
							for way := 0; way < 3; way++ {
								ways := make([]int, k)
								for i := range ways {
									ways[i] = way
								}
								for _, s := range fewSources {
									// a number at the top level may be complete before
									if v.typ != hyperjson.TypeNumber || strings.TrimSpace(doc[:cut]) == "" {
										w := &walk{p: s.parser(doc[:cut], io.EOF), ways: ways, stop: -1, cut: true}
										c.Ops(1)
										if err := w.value(v); err == nil || w.bad != "" {
											c.Fail("document %s, cut after %d bytes, read %s: %s", clip(doc), cut, s, orAccepted(w.bad))
										}
									}
									if s.buf == -2 {
										continue
									}
									w := &walk{p: s.parser(doc[:cut], errRead), ways: ways, stop: -1}
									c.Ops(1)
									err := w.value(v)
									if err == nil || w.bad != "" {
										c.Fail("document %s, the reader fails after %d bytes, read %s: %s", clip(doc), cut, s, orAccepted(w.bad))
									}
									if pkgerrors.Cause(err) != errRead {
										c.Fail("document %s, the reader fails after %d bytes, read %s: fails with %q instead of the error of the reader", clip(doc), cut, s, err)
									}
								}
							}
						}
					}
					if container {
						ways := make([]int, k)
						for i := range ways {
							ways[i] = 1
						}
						for stop := 0; stop < k; stop++ {
							w := &walk{p: fewSources[2].parser(v.doc(""), io.EOF), ways: ways, stop: stop}
							c.Ops(1)
							err := w.value(v)
							if w.bad != "" {
								c.Fail("document %s, the consumer fails at its call %d: %s", clip(v.doc("")), stop, w.bad)
							}
							if w.calls > stop && err != errStop {
								c.Fail("document %s, the consumer fails at its call %d: the error is not returned but %v", clip(v.doc("")), stop, err)
							}
						}
					}
				})
			}
		}})
}

func orAccepted(s string) string {
	if s == "" {
		return "no error"
	}
	return s
}
