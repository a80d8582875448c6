package c11

import (
	"fmt"
	"strings"
	"testing"

	mj "github.com/bantling/micro/encoding/json"
	"github.com/bantling/micro/encoding/json/parse"
	"verif/harness/jsonx"
	"verif/harness/vt"
)

// verify compares the outcome of Parse for a document with the reference.
func verify(fail func(string, ...any), doc string) (accepted bool, why string) {
	want, why := jsonx.Parse(doc)
	if err := jsonx.CrossCheck(doc, want, why); err != nil {
		fail("%v", err)
	}
	got, err := parse.Parse(strings.NewReader(doc))
	if (err == nil) != (why == "") {
		if err == nil {
			fail("Parse(%q) accepts (%v) and yields %#v", doc, why, got.ToAny())
		}
		fail("Parse(%q) rejects a valid document: %v", doc, err)
	}
	if err != nil {
		if got.Type() != mj.Invalid {
			fail("Parse(%q) yields both a value of type %v and the error %v", doc, got.Type(), err)
		}
	} else if g := jsonx.Of(got); !jsonx.Equal(g, want) {
		fail("Parse(%q) = %#v, expected %#v", doc, g, want)
	}
	p, panicked := vt.Panics(func() {
		if v := parse.MustParse(strings.NewReader(doc)); !jsonx.Equal(jsonx.Of(v), want) {
			fail("MustParse(%q) differs from Parse", doc)
		}
	})
	if panicked != (why != "") || panicked && fmt.Sprint(p) != err.Error() {
		fail("MustParse(%q) panics: %v with %v, Parse yields %v", doc, panicked, p, err)
	}
	return why == "", why
}

func TestValidDocuments(t *testing.T) {
	vt.Check(t, 10000, "documents of drawn values, whitespace and escapes; non-trivial if at least 12 bytes long", func(c *vt.C) {
		doc := jsonx.Text(c.T, jsonx.DrawDoc(c.T, 4, "doc"))
		if ok, why := verify(c.Fatalf, doc); !ok {
			c.Fatalf("VT-INFRA generated document is invalid: %q: %v", doc, why)
		}
		if len(doc) >= 12 {
			c.NonTrivial("%s", doc)
		}
	})
}

func TestNearDocuments(t *testing.T) {
	vt.Check(t, 20000, "documents with a few drawn edits; non-trivial if invalid", func(c *vt.C) {
		doc := jsonx.Mutate(c.T, jsonx.Text(c.T, jsonx.DrawDoc(c.T, 3, "doc")))
		ok, why := verify(c.Fatalf, doc)
		if !ok {
			c.NonTrivial("%s", doc)
		}
		c.Class("%s", why)
	})
}

func TestTokenSequences(t *testing.T) {
	vt.Check(t, 30000, "sequences of tokens and junk; non-trivial if of at least 4 bytes", func(c *vt.C) {
		doc := jsonx.DrawSoup(c.T)
		_, why := verify(c.Fatalf, doc)
		if len(doc) >= 4 {
			c.NonTrivial("%s", doc)
		}
		c.Class("%s", why)
	})
}

func TestNumbers(t *testing.T) {
	vt.Check(t, 20000, "arrays and objects of strings of the characters of numbers; non-trivial if the string starts like a number", func(c *vt.C) {
		var s string
		if c.Bool("valid") {
			s = string(jsonx.DrawNum(c.T, "num"))
		}
		for n := c.Range(0, 5, "chars"); n > 0; n-- {
			at := c.Range(0, len(s), "at")
			s = s[:at] + string("00123589--++..eE xa"[c.Range(0, 18, "char")]) + s[at:]
		}
		doc := fmt.Sprintf([]string{"[%s]", "[%s", "[%s ,1]", "[1,%s,2]", "{\"a\":%s}", "{\"a\":%s,\"b\":0}"}[c.Range(0, 5, "place")], s)
		verify(c.Fatalf, doc)
		if s != "" && strings.Contains("-0123456789", s[:1]) {
			c.NonTrivial("%s", doc)
		}
	})
}

func TestTableEscapes(t *testing.T) {
	vt.Table(t, "every escape of one character, every \\u escape, as value and key", func(each func(string, func(func(string, ...any)))) {
		for b := 0; b < 256; b++ {
			each(fmt.Sprintf("\\%c", b), func(fail func(string, ...any)) {
				verify(fail, "[\"\\"+string([]byte{byte(b)})+"\"]")
				verify(fail, "[\""+string([]byte{byte(b)})+"\"]")
				verify(fail, "["+string([]byte{byte(b)})+"]")
				verify(fail, "[\"\\u00"+string([]byte{byte(b)})+"0\"]")
			})
		}
		for r := 0; r < 0x10000; r++ {
			each(fmt.Sprintf("\\u%04x", r), func(fail func(string, ...any)) {
				verify(fail, fmt.Sprintf(`{"x\u%04xy":"\u%04X"}`, r, r))
			})
		}
	})
}

func TestSurrogates(t *testing.T) {
	vt.Check(t, 10000, "pairs of \\u escapes of which at least one is near the surrogates", func(c *vt.C) {
		edge := func(l string) int {
			if c.Bool(l + ".edge") {
				return []int{0xd7ff, 0xd800, 0xd834, 0xdbff, 0xdc00, 0xdd1e, 0xdfff, 0xe000}[c.Range(0, 7, l)]
			}
			return c.Range(0xd700, 0xe0ff, l)
		}
		a, b := edge("a"), edge("b")
		if c.Range(0, 5, "other") == 0 {
			b = c.Range(0, 0xffff, "b")
		}
		doc := fmt.Sprintf("[\"%s\\u%04x%s\\u%04X%s\"]", []string{"", "p"}[c.Range(0, 1, "p")], a, []string{"", "", "", "", " ", `\\`}[c.Range(0, 5, "sep")], b, []string{"", "s", `\u0041`}[c.Range(0, 2, "s")])
		_, why := verify(c.Fatalf, doc)
		c.NonTrivial("%s", doc)
		c.Class("%s", why)
	})
}

func TestLarge(t *testing.T) {
	vt.Check(t, 1000, "arrays and objects of up to 2000 elements, or with long strings, numbers, whitespace, or nesting, a third of them edited; non-trivial if of more than 256 bytes", func(c *vt.C) {
		doc := jsonx.DrawLarge(c, 2000)
		if c.Range(0, 2, "edited") == 0 {
			doc = jsonx.Mutate(c.T, doc)
		}
		_, why := verify(func(format string, args ...any) {
			s := fmt.Sprintf(format, args...)
			c.Fatalf("%.300s ... %s", s, s[max(0, len(s)-300):])
		}, doc)
		c.Class("%s", why)
		if len(doc) > 256 {
			c.NonTrivial("%d %s", len(doc), doc[:30])
		}
	})
}

func TestDeepDocuments(t *testing.T) {
	vt.Check(t, 300, "nesting of drawn depth up to 3000; non-trivial if at least 10", func(c *vt.C) {
		n := c.Range(1, 3000, "depth")
		arr := c.Bool("array")
		open, end := "[", "]"
		if !arr {
			open, end = `{"a":`, "}"
		}
		closed := n
		if c.Bool("unbalanced") {
			closed += c.Range(-1, 1, "off")
		}
		verify(func(format string, args ...any) {
			c.Fatalf("depth %d, closed %d: %.200s", n, closed, fmt.Sprintf(format, args...))
		}, strings.Repeat(open, n)+"0"+strings.Repeat(end, closed))
		if n >= 10 {
			c.NonTrivial("%d %d %v", n, closed, arr)
		}
	})
}

// every short document
func TestAllShort(t *testing.T) {
	vt.All(t, 2000000, "every array of one text of up to 6 of the characters -+.019eE, and every text of up to 6 of the tokens of JSON; non-trivial if valid", func(c *vt.C) {
		doc := ""
		if c.Bool("tokens") {
			doc = c.Seq(6, "[", "]", "{", "}", ",", ":", `"a"`, "1")
		} else {
			doc = "[" + c.Seq(6, "-", "+", ".", "0", "1", "9", "e", "E") + "]"
		}
		ok, why := verify(c.Fatalf, doc)
		if ok {
			c.NonTrivial("%s", doc)
		}
		c.Class("%s", why)
	})
}

// What a drawn edit finds only now and then: every single edit of documents that have a bit of everything
func TestTableEdits(t *testing.T) {
	docs := []string{
		`["\ud834\udd1e"]`, `{"\uD834\uDD1E":"\uDbff\uDFfF"}`, `["x\ud834\udd1ey\u00e9\n"]`, `["\"\\\/\b\f\n\r\t\u0041"]`,
		`[1,-2,3.5,-0.25,1e5,2E+6,3.5e-7,0,10]`, `{"a":1,"b":[],"c":{}}`, `[true,false,null]`, ` { "a" : [ null , "b" ] , "c" : -1 } `,
		`[[],[[]],{},{"":""}]`, "[\"\u00e9\u65e5\U0001d11e\"]", "\t\r\n[\n1\r,\t2 ]\n", `{"a":{"b":{"c":[0.0,-0e0]}}}`, `[{"a":true},{"a":false}]`, `[""]`, `{}`, `[]`,
	}
	vt.Table(t, "each of 16 small documents of everything the grammar has, with each byte removed, doubled, exchanged with the next one, replaced by every other byte, with every byte inserted anywhere, and cut anywhere", func(each func(string, func(func(string, ...any)))) {
		for _, doc := range docs {
			for i := 0; i <= len(doc); i++ {
				each(fmt.Sprintf("%s at %d", doc, i), func(fail func(string, ...any)) {
					verify(fail, doc[:i])
					verify(fail, doc[i:])
					for b := 0; b < 256; b++ {
						verify(fail, doc[:i]+string([]byte{byte(b)})+doc[i:])
						if i < len(doc) {
							verify(fail, doc[:i]+string([]byte{byte(b)})+doc[i+1:])
						}
					}
					if i < len(doc) {
						verify(fail, doc[:i]+doc[i+1:])
						verify(fail, doc[:i+1]+doc[i:])
					}
					for j := i + 2; j <= len(doc) && j < i+8; j++ {
						verify(fail, doc[:i]+doc[j:])
						verify(fail, doc[:j]+doc[i:])
						verify(fail, doc[:i]+doc[j-1:j]+doc[i:j-1]+doc[j:])
					}
				})
			}
		}
	})
}
