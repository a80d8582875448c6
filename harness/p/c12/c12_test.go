package c12

import (
	"bytes"
	gojson "encoding/json"
	"errors"
	"io"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/bantling/micro/encoding/json"
	"github.com/bantling/micro/encoding/json/parse"
	"github.com/bantling/micro/encoding/json/write"
	mio "github.com/bantling/micro/io"
	"github.com/bantling/micro/io/writer"
	"verif/harness/jsonx"
	"verif/harness/vt"
)

// out is an io.Writer that fails the case if it is written to after an error.
type out struct {
	bytes.Buffer
}

func TestWriteIsReadBack(t *testing.T) {
	vt.Check(t, 15000, "values of any type, strings with all kinds of characters; non-trivial if at least 6 bytes are written", func(c *vt.C) {
		v := jsonx.Draw(c.T, 4, "value")
		if c.Bool("document") {
			v = jsonx.DrawDoc(c.T, 4, "doc")
		}
		checkWrite(c, v)
	})
}

// TestLarge is TestWriteIsReadBack with larger values
func TestLarge(t *testing.T) {
	vt.Check(t, 600, "arrays and objects of up to 1500 elements, or with long strings, numbers, or nesting; non-trivial if more than 256 bytes are written", func(c *vt.C) {
		doc := jsonx.DrawLarge(c, 1500)
		v, why := jsonx.Parse(doc)
		if why != "" {
			c.Fatalf("VT-INFRA generated document is invalid: %q: %v", doc, why)
		}
		checkWrite(c, v)
		c.Trivial()
		if len(doc) > 256 {
			c.NonTrivial("%d %s", len(doc), doc[:30])
		}
	})
}

func checkWrite(c *vt.C, v jsonx.V) {
	checkText(c, v, jsonx.Build(v))
	checkText(c, v, jsonx.Build(v, true))
}

// richDst is a writer with methods that nobody asked to be used, and that lose what is written
type richDst struct{ writer.Writer[rune] }

func (richDst) WriteAll(...rune) error            { return nil }
func (richDst) WriteAny(any) error                { return nil }
func (richDst) WriteValue(json.Value) error       { return nil }
func (richDst) WriteJSON(json.Value) error        { return nil }
func (richDst) WriteNull() error                  { return nil }
func (richDst) WriteBool(bool) error              { return nil }
func (richDst) WriteNumber(string) error          { return nil }
func (richDst) WriteKey(string) error             { return nil }
func (richDst) WriteRunes([]rune) error           { return nil }
func (richDst) WriteRune(rune) (int, error)       { return 1, nil }
func (richDst) WriteByte(byte) error              { return nil }
func (richDst) WriteString(s string) (int, error) { return len(s), nil }
func (richDst) WriteBytes(b []byte) (int, error)  { return len(b), nil }
func (richDst) ReadFrom(io.Reader) (int64, error) { return 0, nil }
func (richDst) Cap() int                          { return 0 }
func (richDst) Len() int                          { return 1 }
func (richDst) Available() int                    { return 0 }
func (richDst) Err() error                        { return errors.New("an error") }
func (richDst) Pretty() bool                      { return true }
func (richDst) Indent() string                    { return "  " }
func (richDst) EscapeHTML() bool                  { return true }
func (richDst) Sorted() bool                      { return true }

func checkText(c *vt.C, v jsonx.V, jv json.Value) {
	var o out
	if err := write.Write(jv, richDst{writer.OfIOWriterAsRunes(&o)}); err != nil {
		c.Fatalf("writing %#v: %v", v, err)
	}
	text := o.String()
	if !gojson.Valid([]byte(text)) {
		c.Fatalf("%#v is written as %q, which is not valid JSON", v, text)
	}
	if g := jsonx.FromGo([]byte(text)); !jsonx.Equal(g, v) {
		c.Fatalf("%#v is written as %q, which encoding/json reads as %#v", v, text, g)
	}
	// micro only reads documents
	doc, want := "["+text+"]", jsonx.V([]jsonx.V{v})
	switch v.(type) {
	case map[string]jsonx.V, []jsonx.V:
		if c.Bool("as is") {
			doc, want = text, v
		}
	}
	got, err := parse.Parse(strings.NewReader(doc))
	if err != nil || !jsonx.Equal(jsonx.Of(got), want) {
		c.Fatalf("%#v is written as %q, which is read back as %#v, %v", v, text, jsonx.Of(got), err)
	}
	if !jsonx.Equal(jsonx.Of(jv), v) {
		c.Fatalf("writing %#v changes it to %#v", v, jsonx.Of(jv))
	}
	// reading and writing again is stable
	var o2 out
	write.MustWrite(got, writer.OfIOWriterAsRunes(&o2))
	if !jsonx.Equal(jsonx.FromGo(o2.Bytes()), want) || o2.Len() != len(doc) {
		c.Fatalf("%q is written again as %q", doc, o2.String())
	}
	if len(text) >= 6 {
		c.NonTrivial("%s", text)
	}
}

func TestTableEveryRune(t *testing.T) {
	vt.Table(t, "every rune up to U+2FFF and samples above, as string and key", func(each func(string, func(func(string, ...any)))) {
		for r := rune(0); r <= 0x10FFFF; r++ {
			if r >= 0x3000 && r%97 != 0 && r < 0x10FFF0 && r&0xfff0 != 0xfff0 || r >= 0xD800 && r < 0xE000 {
				continue
			}
			each(string(r), func(fail func(string, ...any)) {
				v := jsonx.V(map[string]jsonx.V{"k" + string(r): string(r) + "v"})
				var o out
				if err := write.Write(jsonx.Build(v), writer.OfIOWriterAsRunes(&o)); err != nil || !gojson.Valid(o.Bytes()) {
					fail("U+%04X: %q, %v", r, o.String(), err)
				}
				if g := jsonx.FromGo(o.Bytes()); !jsonx.Equal(g, v) {
					fail("U+%04X is read by encoding/json as %#v", r, g)
				}
				if g, err := parse.Parse(&o); err != nil || !jsonx.Equal(jsonx.Of(g), v) {
					fail("U+%04X is read back as %#v, %v", r, jsonx.Of(g), err)
				}
			})
		}
	})
}

func TestFailingWriter(t *testing.T) {
	vt.Check(t, 8000, "values written to a writer that fails after a drawn number of bytes; non-trivial if it fails", func(c *vt.C) {
		v := jsonx.Draw(c.T, 3, "value")
		nils := c.Bool("empty ones are nil")
		var o out
		write.MustWrite(jsonx.Build(v, nils), writer.OfIOWriterAsRunes(&o))
		n := c.Range(0, o.Len()+1, "capacity")
		fault := errors.New("fault")
		w := mio.NewErrorWriter(n, fault)
		err := write.Write(jsonx.Build(v, nils), writer.OfIOWriterAsRunes(w))
		if (err != nil) != (n < o.Len()) {
			c.Fatalf("writing %#v (%d bytes) with place for %d yields %v", v, o.Len(), n, err)
		}
		if len(w.Output()) != min(n, o.Len()) {
			c.Fatalf("writing %#v: %d of %d bytes written with place for %d", v, len(w.Output()), o.Len(), n)
		}
		p, panicked := vt.Panics(func() {
			write.MustWrite(jsonx.Build(v, nils), writer.OfIOWriterAsRunes(mio.NewErrorWriter(n, fault)))
		})
		if v, isa := v.(map[string]jsonx.V); isa && len(v) < 2 {
			w2 := mio.NewErrorWriter(n, fault)
			if _, p := vt.Panics(func() { write.MustWriteObject(jsonx.Build(v, nils), writer.OfIOWriterAsRunes(w2)) }); p != (err != nil) || string(w2.Output()) != string(w.Output()) && len(v) == 0 {
				c.Fatalf("MustWriteObject of %#v: panics %v, %q; Write yields %v, %q", v, p, w2.Output(), err, w.Output())
			}
		}
		if v, isa := v.([]jsonx.V); isa {
			w2 := mio.NewErrorWriter(n, fault)
			if _, p := vt.Panics(func() { write.MustWriteArray(jsonx.Build(v, nils), writer.OfIOWriterAsRunes(w2)) }); p != (err != nil) || len(w2.Output()) != len(w.Output()) {
				c.Fatalf("MustWriteArray of %#v: panics %v, %q; Write yields %v, %q", v, p, w2.Output(), err, w.Output())
			}
		}
		if panicked != (err != nil) {
			c.Fatalf("MustWrite panics: %v (%v), Write yields %v", panicked, p, err)
		}
		if isASCII(o.String()) && err != nil && (err != fault || p != any(fault)) {
			c.Fatalf("error %v instead of the one of the writer", err)
		}
		if err != nil {
			c.NonTrivial("%d %s", n, o.String())
		}
	})
}

// once is a writer that fails once and then takes everything again
type once struct {
	left   int
	calls  bool // count calls, not runes
	fault  error
	failed bool
	text   []rune
	after  int
}

func (w *once) Write(vals ...rune) error {
	if w.failed {
		w.after += len(vals)
		return nil
	}
	if w.calls {
		if w.left == 0 {
			w.failed = true
			return w.fault
		}
		w.left--
		w.text = append(w.text, vals...)
		return nil
	}
	for _, v := range vals {
		if w.left == 0 {
			w.failed = true
			return w.fault
		}
		w.left--
		w.text = append(w.text, v)
	}
	return nil
}

// richOnce can be written to in other ways too
type richOnce struct{ *once }

func (w richOnce) WriteString(s string) (int, error) {
	n := len(w.text)
	err := w.Write([]rune(s)...)
	return len(string(w.text[n:])), err
}

func (w richOnce) WriteRune(r rune) (int, error) {
	if err := w.Write(r); err != nil {
		return 0, err
	}
	return utf8.RuneLen(r), nil
}

func (w richOnce) WriteByte(b byte) error { return w.Write(rune(b)) }

func (w richOnce) WriteOne(r rune) error { return w.Write(r) }

func (w richOnce) Flush() error { return nil }

func (w richOnce) Close() error { return nil }

func TestWriterThatFailsOnce(t *testing.T) {
	vt.Check(t, 8000, "values written to a writer that fails at a drawn character or call, and takes everything again afterwards; non-trivial if it fails", func(c *vt.C) {
		v := jsonx.Draw(c.T, 3, "value")
		jv := jsonx.Build(v)
		var all []rune
		write.MustWrite(jv, writer.OfSliceWriter(&all))
		w := &once{left: c.Range(0, len(all), "capacity"), calls: c.Bool("calls"), fault: errors.New("fault")}
		if w.calls {
			w.left = w.left / 2
		}
		var err error
		var dst writer.Writer[rune] = w
		if c.Bool("rich") {
			dst = richOnce{w}
		}
		switch v.(type) {
		case map[string]jsonx.V:
			err = write.WriteObject(jv, dst)
		case []jsonx.V:
			err = write.WriteArray(jv, dst)
		default:
			err = write.Write(jv, dst)
		}
		if w.failed != (err != nil) || err != nil && err != w.fault {
			c.Fatalf("writing %#v to a writer that fails once (%v) after %q: %v", v, w.failed, string(w.text), err)
		}
		if w.after > 0 {
			c.Fatalf("writing %#v: %d characters are written after the writer failed after %q", v, w.after, string(w.text))
		}
		if !w.failed && len(w.text) != len(all) {
			c.Fatalf("writing %#v: %q", v, string(w.text))
		}
		if w.failed {
			c.NonTrivial("%q", string(w.text))
		}
	})
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] > 127 {
			return false
		}
	}
	return true
}
