package c13

import (
	"errors"
	"io"
	"strings"
	"testing"

	mj "github.com/bantling/micro/encoding/json"
	"github.com/bantling/micro/encoding/json/parse"
	"github.com/bantling/micro/iter"
	"verif/harness/iox"
	"verif/harness/jsonx"
	"verif/harness/vt"
)

// drain reads an iterator to its end, and checks that the end is repeated.
func drain(fail func(string, ...any), it iter.Iter[mj.Value]) (vals []jsonx.V, err error) {
	for {
		v, e := it.Next()
		if e != nil {
			if v.Type() != mj.Invalid {
				fail("Next yields both a value of type %v and the error %v", v.Type(), e)
			}
			for i := 0; i < 3; i++ {
				if v2, e2 := it.Next(); e2 != e || v2.Type() != mj.Invalid {
					fail("after the error %v, Next yields %v, %v", e, v2.ToAny(), e2)
				}
			}
			return vals, e
		}
		if v.Type() == mj.Invalid {
			fail("Next yields an invalid value without error")
		}
		vals = append(vals, jsonx.Of(v))
	}
}

func TestIterateYieldsElements(t *testing.T) {
	vt.Check(t, 15000, "documents, a third of them edited, through readers of drawn behaviour; non-trivial if of at least 2 elements or invalid", func(c *vt.C) {
		doc := jsonx.Text(c.T, jsonx.DrawDoc(c.T, 3, "doc"))
		if c.Range(0, 2, "edited") == 0 {
			doc = jsonx.Mutate(c.T, doc)
		}
		iterate(c, doc)
	})
}

// TestLarge is TestIterateYieldsElements with larger documents
func TestLarge(t *testing.T) {
	vt.Check(t, 600, "arrays and objects of up to 1500 elements, or with long strings, numbers, whitespace, or nesting, a third of them edited; non-trivial if of more than 256 bytes", func(c *vt.C) {
		doc := jsonx.DrawLarge(c, 1500)
		if c.Range(0, 2, "edited") == 0 {
			doc = jsonx.Mutate(c.T, doc)
		}
		iterate(c, doc)
		c.Trivial()
		if len(doc) > 256 {
			c.NonTrivial("%d %s", len(doc), doc[:30])
		}
	})
}

// every short document
func TestAllShort(t *testing.T) {
	vt.All(t, 2000000, "every text of up to 6 of the tokens of JSON, read at once, and every array of up to 4 of them and a blank, read by single bytes; non-trivial as in the other tests", func(c *vt.C) {
		if c.Bool("array") {
			iterate(c, "["+c.Seq(4, "[", "]", "{", "}", ",", ":", `"a"`, "1", " ", "null"))
		} else {
			iterate(c, c.Seq(6, "[", "]", "{", "}", ",", ":", `"a"`, "1"))
		}
	})
}

func iterate(c *vt.C, doc string) {
	reader := func() io.Reader {
		if c.Exhaustive() {
			if strings.HasPrefix(doc, "[") {
				return iox.NewReader(doc, io.EOF, true, 1)
			}
			return iox.NewReader(doc, io.EOF, false)
		}
		return iox.DrawReader(c.T, doc, io.EOF).As()
	}
	want, why := jsonx.Parse(doc)
	vals, err := drain(c.Fatalf, parse.Iterate(reader()))
	if (err == iter.EOI) != (why == "") {
		c.Fatalf("iterating %q (%s) ends with %v after %d elements", doc, why, err, len(vals))
	}
	whole, perr := parse.Parse(reader())
	if (perr == nil) != (why == "") || perr != nil && perr.Error() != err.Error() {
		c.Fatalf("Parse of %q yields %v, Iterate ends with %v", doc, perr, err)
	}
	if why != "" {
		c.NonTrivial("%s", doc)
		c.Class("invalid")
		return
	}
	exp, isa := want.([]jsonx.V)
	if !isa {
		exp = []jsonx.V{want}
		c.Class("object")
	}
	if !jsonx.Equal(append([]jsonx.V{}, vals...), exp) {
		c.Fatalf("iterating %q yields %#v, expected %#v", doc, vals, exp)
	}
	if !jsonx.Equal(jsonx.Of(whole), want) {
		c.Fatalf("Parse of %q through a reader yields %#v", doc, jsonx.Of(whole))
	}
	if len(exp) >= 2 {
		c.NonTrivial("%s", doc)
	}
}

// TestReaderErrors: a reader that fails before the end of a document makes Parse and Iterate fail with its error, and Iterate
// yields exactly the elements before that.
func TestReaderErrors(t *testing.T) {
	vt.Check(t, 15000, "documents cut at a drawn place where the reader fails; non-trivial if at least one element comes before", func(c *vt.C) {
		v := jsonx.DrawDoc(c.T, 3, "doc")
		doc := strings.TrimRight(jsonx.Text(c.T, v), " \n\r\t")
		cut := c.Range(0, len(doc)-1, "cut")
		fault := append(append(vt.Lookalikes(io.EOF), vt.Lookalikes(iter.EOI)...), errors.New("fault"))[c.Range(0, 8, "fault")]
		if got, err := parse.Parse(iox.DrawReader(c.T, doc[:cut], fault).As()); !acceptable(err, fault, doc, cut) || got.Type() != mj.Invalid {
			c.Fatalf("Parse of %q yields %v, %v instead of the error of the reader", doc[:cut], got.Type(), err)
		}
		vals, err := drain(c.Fatalf, parse.Iterate(iox.DrawReader(c.T, doc[:cut], fault).As()))
		if !acceptable(err, fault, doc, cut) {
			c.Fatalf("iterating %q ends with %v instead of the error of the reader", doc[:cut], err)
		}
		all, isa := v.([]jsonx.V)
		if !isa {
			all = nil
		}
		if len(vals) > len(all) || !jsonx.Equal(append([]jsonx.V{}, vals...), append([]jsonx.V{}, all[:len(vals)]...)) {
			c.Fatalf("iterating %q yields %#v, the elements are %#v", doc[:cut], vals, all)
		}
		// every element followed by at least one character has to be there
		if n := complete(doc[:cut]); len(vals) < n {
			c.Fatalf("iterating %q yields %d elements, expected %d before the error", doc[:cut], len(vals), n)
		}
		if len(vals) > 0 {
			c.NonTrivial("%s", doc[:cut])
		}
	})
}

// acceptable: an encoding that is cut may be reported as such only if the reader ends there; here it always fails with fault
func acceptable(err, fault error, _ string, _ int) bool { return err == fault }

// complete is the number of elements of the top level array that are followed by a character, by the commas in between.
func complete(prefix string) (n int) {
	depth, inStr := 0, false
	for i := 0; i < len(prefix); i++ {
		switch ch := prefix[i]; {
		case inStr && ch == '\\':
			i++
		case ch == '"':
			inStr = !inStr
		case inStr:
		case ch == '[' || ch == '{':
			if depth == 0 && ch == '{' {
				return 0
			}
			depth++
		case ch == ']' || ch == '}':
			depth--
		case ch == ',' && depth == 1:
			n++
		}
	}
	return
}

// TestLaziness: elements of an endless array are available one after the other
func TestLaziness(t *testing.T) {
	vt.Check(t, 500, "endless arrays of drawn elements, of which a drawn number is read; non-trivial if at least 5", func(c *vt.C) {
		el := jsonx.Draw(c.T, 2, "element")
		text := jsonx.Text(c.T, el)
		it := parse.Iterate(io.MultiReader(strings.NewReader("["+text), &endless{s: "," + text}))
		n := c.Range(1, 60, "n")
		for i := 0; i < n; i++ {
			v, err := it.Next()
			if err != nil || !jsonx.Equal(jsonx.Of(v), el) {
				c.Fatalf("element %d of an endless array of %s is %#v, %v", i, text, v.ToAny(), err)
			}
		}
		if n >= 5 {
			c.NonTrivial("%d %s", n, text)
		}
	})
}

// TestDelivery: an element is available as soon as the character after it has arrived, whatever is between it and the next
func TestDelivery(t *testing.T) {
	vt.Check(t, 5000, "arrays that arrive byte by byte, with spaces between any two tokens; non-trivial if at least 3 elements with spaces after one of them", func(c *vt.C) {
		gap := func() string { return strings.Repeat(" ", max(c.Range(-3, 4, "gap"), 0)) }
		var (
			els  []jsonx.V
			ends []int
			doc  = gap() + "[" + gap()
			wide = false
		)
		for n := c.Range(1, 8, "elements"); len(els) < n; {
			el := jsonx.Draw(c.T, 2, "element")
			text := strings.TrimSpace(jsonx.Text(c.T, el))
			if len(els) > 0 {
				doc += "," + gap()
			}
			doc += text
			els, ends = append(els, el), append(ends, len(doc))
			after := gap()
			wide = wide || len(after) > 1
			doc += after
		}
		doc += "]" + gap()
		r := &bytewise{s: doc}
		it := parse.Iterate(r)
		for i, el := range els {
			v, err := it.Next()
			if err != nil || !jsonx.Equal(jsonx.Of(v), el) {
				c.Fatalf("element %d of %q is %#v, %v", i, doc, v.ToAny(), err)
			}
			if r.i > ends[i]+1 {
				c.Fatalf("element %d of %q is yielded when %q has been read", i, doc, doc[:r.i])
			}
		}
		if len(els) > 2 && wide {
			c.NonTrivial("%s", doc)
		}
	})
}

// bytewise delivers one byte at a time
type bytewise struct {
	s string
	i int
}

func (b *bytewise) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if b.i == len(b.s) {
		return 0, io.EOF
	}
	p[0] = b.s[b.i]
	b.i++
	return 1, nil
}

// endless repeats a string
type endless struct {
	s string
	i int
}

func (e *endless) Read(p []byte) (int, error) {
	for k := range p {
		p[k] = e.s[e.i%len(e.s)]
		e.i++
	}
	return len(p), nil
}
