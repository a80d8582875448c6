// Package jsonx is a reference JSON reader, generators of documents, and a model of values, independent of micro.
package jsonx

import (
	"bytes"
	gojson "encoding/json"
	"fmt"
	"strings"
	"unicode/utf16"
	"unicode/utf8"

	mj "github.com/bantling/micro/encoding/json"
	"pgregory.net/rapid"
	"verif/harness/vt"
)

// V is a model value: map[string]V, []V, string, Num, bool or nil.
type V any

// Num is the text of a number.
type Num string

type bad struct{ why string }

// Parse reads a document by the grammar of RFC 8259, with the documented restrictions of micro: it has to be an object or
// array, without duplicate keys, invalid UTF-8 or surrogate escapes that are no pair (in either order).
func Parse(doc string) (v V, why string) {
	p := &parser{s: doc}
	defer func() {
		if r := recover(); r != nil {
			b, isa := r.(bad)
			if !isa {
				panic(r)
			}
			v, why = nil, b.why
		}
	}()
	if !utf8.ValidString(doc) {
		return nil, "invalid UTF-8"
	}
	p.ws()
	if c := p.peek(); c != '{' && c != '[' {
		return nil, "neither object nor array"
	}
	v = p.value()
	p.ws()
	if p.i < len(p.s) {
		return nil, "trailing content"
	}
	return v, ""
}

type parser struct {
	s string
	i int
}

func (p *parser) fail(why string) { panic(bad{why}) }
func (p *parser) peek() byte {
	if p.i < len(p.s) {
		return p.s[p.i]
	}
	return 0
}
func (p *parser) ws() {
	for p.i < len(p.s) && strings.IndexByte(" \t\r\n", p.s[p.i]) >= 0 {
		p.i++
	}
}
func (p *parser) expect(c byte) {
	if p.peek() != c || p.i >= len(p.s) {
		p.fail("expected " + string(c))
	}
	p.i++
}

func (p *parser) value() V {
	p.ws()
	switch c := p.peek(); {
	case c == '{':
		p.i++
		m := map[string]V{}
		for p.ws(); p.peek() != '}'; p.ws() {
			if len(m) > 0 {
				p.expect(',')
				p.ws()
			}
			if p.peek() != '"' {
				p.fail("key expected")
			}
			k := p.str()
			if _, dup := m[k]; dup {
				p.fail("duplicate key")
			}
			p.ws()
			p.expect(':')
			m[k] = p.value()
		}
		p.i++
		return m
	case c == '[':
		p.i++
		a := []V{}
		for p.ws(); p.peek() != ']'; p.ws() {
			if len(a) > 0 {
				p.expect(',')
			}
			a = append(a, p.value())
		}
		p.i++
		return a
	case c == '"':
		return p.str()
	case c == '-' || c >= '0' && c <= '9':
		return p.num()
	}
	for _, l := range []struct {
		s string
		v V
	}{{"true", true}, {"false", false}, {"null", nil}} {
		if strings.HasPrefix(p.s[p.i:], l.s) {
			p.i += len(l.s)
			return l.v
		}
	}
	p.fail("no value")
	return nil
}

func (p *parser) digits() {
	n := p.i
	for p.peek() >= '0' && p.peek() <= '9' {
		p.i++
	}
	if p.i == n {
		p.fail("digit expected")
	}
}

func (p *parser) num() V {
	b := p.i
	if p.peek() == '-' {
		p.i++
	}
	if p.peek() == '0' {
		p.i++
	} else {
		p.digits()
	}
	if p.peek() == '.' {
		p.i++
		p.digits()
	}
	if c := p.peek(); c == 'e' || c == 'E' {
		p.i++
		if c := p.peek(); c == '+' || c == '-' {
			p.i++
		}
		p.digits()
	}
	return Num(p.s[b:p.i])
}

func (p *parser) hex() (r rune) {
	for k := 0; k < 4; k++ {
		d := strings.IndexByte("0123456789abcdef", strings.ToLower(string(p.peek()))[0])
		if d < 0 || p.i >= len(p.s) {
			p.fail("hexadecimal digit expected")
		}
		r = r<<4 | rune(d)
		p.i++
	}
	return
}

func (p *parser) str() string {
	var sb strings.Builder
	p.i++
	for {
		if p.i >= len(p.s) {
			p.fail("unterminated string")
		}
		c := p.s[p.i]
		p.i++
		switch {
		case c == '"':
			return sb.String()
		case c < ' ':
			p.fail("control character")
		case c != '\\':
			sb.WriteByte(c)
		default:
			e := p.peek()
			p.i++
			if k := strings.IndexByte(`"\/bfnrt`, e); k >= 0 && p.i <= len(p.s) {
				sb.WriteByte("\"\\/\b\f\n\r\t"[k])
				continue
			}
			if e != 'u' {
				p.fail("illegal escape")
			}
			r := p.hex()
			if utf16.IsSurrogate(r) {
				if !strings.HasPrefix(p.s[p.i:], `\u`) {
					p.fail("lone surrogate")
				}
				p.i += 2
				r2 := p.hex()
				hi, lo := min(r, r2), max(r, r2)
				if hi < 0xD800 || hi >= 0xDC00 || lo < 0xDC00 || lo >= 0xE000 {
					p.fail("no surrogate pair")
				}
				r = utf16.DecodeRune(hi, lo)
			}
			sb.WriteRune(r)
		}
	}
}

// CrossCheck compares what Parse says about a document with encoding/json, which has no restrictions on keys and surrogates.
func CrossCheck(doc string, v V, why string) error {
	switch why {
	case "duplicate key", "lone surrogate", "no surrogate pair", "neither object nor array", "invalid UTF-8":
		return nil
	}
	if gojson.Valid([]byte(doc)) != (why == "") {
		return fmt.Errorf("VT-INFRA reference reader is wrong about %q: %q", doc, why)
	}
	if why == "" && !strings.Contains(strings.ToLower(doc), `\ud`) {
		if g := FromGo([]byte(doc)); !Equal(g, v) {
			return fmt.Errorf("VT-INFRA reference reader gives %#v instead of %#v for %q", v, g, doc)
		}
	}
	return nil
}

// FromGo reads a document with encoding/json; it panics if that fails.
func FromGo(doc []byte) V {
	d := gojson.NewDecoder(bytes.NewReader(doc))
	d.UseNumber()
	var a any
	if err := d.Decode(&a); err != nil {
		panic(err)
	}
	var conv func(any) V
	conv = func(a any) V {
		switch t := a.(type) {
		case map[string]any:
			m := map[string]V{}
			for k, v := range t {
				m[k] = conv(v)
			}
			return m
		case []any:
			s := []V{}
			for _, v := range t {
				s = append(s, conv(v))
			}
			return s
		case gojson.Number:
			return Num(t)
		default:
			return t
		}
	}
	return conv(a)
}

// Equal compares two model values.
func Equal(a, b V) bool {
	switch x := a.(type) {
	case map[string]V:
		y, isa := b.(map[string]V)
		if !isa || len(x) != len(y) {
			return false
		}
		for k, v := range x {
			w, has := y[k]
			if !has || !Equal(v, w) {
				return false
			}
		}
		return true
	case []V:
		y, isa := b.([]V)
		if !isa || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !Equal(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	switch b.(type) {
	case map[string]V, []V:
		return false
	}
	return a == b
}

// Of is the model of a value of micro, read with its accessors.
func Of(v mj.Value) V {
	switch v.Type() {
	case mj.Object:
		m := map[string]V{}
		for k, e := range v.AsMap() {
			m[k] = Of(e)
		}
		return m
	case mj.Array:
		s := []V{}
		for _, e := range v.AsSlice() {
			s = append(s, Of(e))
		}
		return s
	case mj.String:
		return v.AsString()
	case mj.Number:
		return Num(v.AsNumber())
	case mj.Boolean:
		return v.AsBool()
	case mj.Null:
		return nil
	}
	return struct{ invalid mj.Type }{v.Type()}
}

// ---- generators

var keyGen = rapid.SampledFrom([]string{"", "a", "b", "c", "key", "a b", "\"", "\\", "é", "\u2028", "\U0001D11E", "0", ".", "[0]", "\x01", "\x7f",
	// that differ, if only in case, composition or what does not print
	"A", "B", "KEY", "Key", "e\u0301", "\u00e9", " a", "a ", "a\x00", "\ufeffa", "null", "true", "1", "1.0", "-0", "__proto__", "\\u0061"})

// DrawString draws a valid UTF-8 string, often with characters that need care.
func DrawString(t *rapid.T, label string) string {
	switch rapid.IntRange(0, 3).Draw(t, label+".kind") {
	case 0:
		return keyGen.Draw(t, label)
	case 1:
		rs := rapid.SliceOfN(rapid.SampledFrom([]rune{'"', '\\', '/', '\b', '\f', '\n', '\r', '\t', 0, 1, 0x1f, ' ', 0x7f, 0x80, 0xe9, 0x7ff, 0x800, 0x2028,
			0xd7ff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1d11e, 0x10ffff, 'u', 'a', '0', '{', '[', ',', ':'}), 0, 8).Draw(t, label)
		return string(rs)
	case 2:
		return rapid.StringN(0, 10, -1).Draw(t, label)
	}
	return rapid.StringMatching(`[a-z]{0,6}`).Draw(t, label)
}

// DrawNum draws the text of a number.
func DrawNum(t *rapid.T, label string) Num {
	if rapid.Bool().Draw(t, label+".small") {
		return Num(fmt.Sprint(rapid.IntRange(-20, 20).Draw(t, label)))
	}
	return Num(rapid.StringMatching(`-?(0|[1-9][0-9]{0,25})(\.[0-9]{1,20})?([eE][+-]?[0-9]{1,3})?|-?[1-9][eE][+-]?[0-9]{4,20}`).Draw(t, label))
}

// Draw draws a value of at most the given depth.
func Draw(t *rapid.T, depth int, label string) V {
	k := rapid.IntRange(0, 7).Draw(t, label+".type")
	if depth <= 0 && k >= 6 {
		k -= 4
	}
	switch k {
	case 0:
		return nil
	case 1:
		return rapid.Bool().Draw(t, label)
	case 2, 3:
		return DrawString(t, label)
	case 4, 5:
		return DrawNum(t, label)
	case 6:
		return DrawArray(t, depth, label)
	}
	return DrawObject(t, depth, label)
}

// DrawArray draws an array.
func DrawArray(t *rapid.T, depth int, label string) []V {
	a := []V{}
	for n := rapid.IntRange(0, 5).Draw(t, label+".len"); n > 0; n-- {
		a = append(a, Draw(t, depth-1, label))
	}
	return a
}

// DrawObject draws an object.
func DrawObject(t *rapid.T, depth int, label string) map[string]V {
	m := map[string]V{}
	similar := rapid.IntRange(0, 5).Draw(t, label+".similar") == 0
	stem := ""
	if similar {
		stem = vt.DrawStem(t, label+".stem")
	}
	for n := rapid.IntRange(0, 5).Draw(t, label+".len"); n > 0; n-- {
		if similar && rapid.IntRange(0, 3).Draw(t, label+".like") > 0 {
			m[vt.DrawSimilar(t, stem, label+".key")] = Draw(t, depth-1, label)
			continue
		}
		m[DrawString(t, label+".key")] = Draw(t, depth-1, label)
	}
	return m
}

// DrawDoc draws an array or object.
func DrawDoc(t *rapid.T, depth int, label string) V {
	if rapid.Bool().Draw(t, label+".array") {
		return DrawArray(t, depth, label)
	}
	return DrawObject(t, depth, label)
}

// Style draws ways to write the same value.
type Style struct{ t *rapid.T }

func (s Style) ws(sb *strings.Builder) {
	if k := rapid.IntRange(0, 9).Draw(s.t, "ws"); k > 6 {
		sb.WriteString([]string{" ", "\n", "\t\r\n  "}[k-7])
	}
}

func (s Style) str(sb *strings.Builder, str string) {
	sb.WriteByte('"')
	k := 0
	for i, r := range str {
		if i < 20 || i > len(str)-10 || i%64 == 0 {
			k = rapid.IntRange(0, 5).Draw(s.t, "escape")
		}
		short := strings.IndexRune("\"\\/\b\f\n\r\t", r)
		must := r < ' ' || r == '"' || r == '\\'
		switch {
		case short >= 0 && (k < 2 || must && k < 4):
			sb.WriteByte('\\')
			sb.WriteByte(`"\/bfnrt`[short])
		case k == 5 || must:
			f := `\u%04x`
			if rapid.Bool().Draw(s.t, "upper") {
				f = `\u%04X`
			}
			if r < 0x10000 {
				fmt.Fprintf(sb, f, r)
			} else {
				a, b := utf16.EncodeRune(r)
				fmt.Fprintf(sb, f+f, a, b)
			}
		default:
			sb.WriteRune(r)
		}
	}
	sb.WriteByte('"')
}

func (s Style) value(sb *strings.Builder, v V) {
	switch t := v.(type) {
	case map[string]V:
		sb.WriteByte('{')
		s.ws(sb)
		ks := make([]string, 0, len(t))
		for k := range t {
			ks = append(ks, k)
		}
		sortStrings(ks)
		for i, k := range ks {
			if i > 0 {
				sb.WriteByte(',')
				s.ws(sb)
			}
			s.str(sb, k)
			s.ws(sb)
			sb.WriteByte(':')
			s.ws(sb)
			s.value(sb, t[k])
			s.ws(sb)
		}
		sb.WriteByte('}')
	case []V:
		sb.WriteByte('[')
		s.ws(sb)
		for i, e := range t {
			if i > 0 {
				sb.WriteByte(',')
				s.ws(sb)
			}
			s.value(sb, e)
			s.ws(sb)
		}
		sb.WriteByte(']')
	case string:
		s.str(sb, t)
	case Num:
		sb.WriteString(string(t))
	case bool:
		fmt.Fprint(sb, t)
	case nil:
		sb.WriteString("null")
	}
}

func sortStrings(a []string) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

// Text writes a value with drawn whitespace and escapes.
func Text(t *rapid.T, v V) string {
	var sb strings.Builder
	s := Style{t}
	s.ws(&sb)
	s.value(&sb, v)
	s.ws(&sb)
	return sb.String()
}

// DrawLarge draws the text of an array or object of up to max elements, or with long strings, numbers, or whitespace; larger than
// any buffer.
func DrawLarge(c *vt.C, max int) string {
	a, b := Text(c.T, Draw(c.T, 2, "even")), Text(c.T, Draw(c.T, 2, "odd"))
	n := c.SizeOr(max, 140000, "size")
	var sb strings.Builder
	object := c.Bool("object")
	open, end := "[", "]"
	if object {
		open, end = "{", "}"
	}
	key := func(i int) {
		if object {
			fmt.Fprintf(&sb, "\"k%d\":", i)
		}
	}
	sb.WriteString(open)
	switch c.Range(0, 4, "large") {
	case 0: // elements
		for i := range n {
			if i > 0 {
				sb.WriteByte(',')
			}
			key(i)
			sb.WriteString([]string{a, b}[i&1])
		}
	case 1: // strings
		key(0)
		str := strings.Repeat(DrawString(c.T, "string"), n)
		(&Style{c.T}).plain(&sb, str)
		if object && c.Bool("key") {
			sb.WriteByte(',')
			(&Style{c.T}).plain(&sb, "K"+str)
			sb.WriteString(":1")
		}
	case 2: // numbers
		key(0)
		sb.WriteString([]string{"", "-", "0.", "1.5", "-2e"}[c.Range(0, 4, "number")] + strings.Repeat("7", n+1))
	case 3: // whitespace
		key(0)
		sb.WriteString(a + strings.Repeat([]string{" ", "\n", "\r\n", "\t "}[c.Range(0, 3, "space")], n))
	case 4: // nesting
		key(0)
		k := c.Size(min(n, 5000), "depth")
		sb.WriteString(strings.Repeat("[", k) + a + strings.Repeat("]", k))
		for i := range c.Size(n, "more") {
			sb.WriteByte(',')
			key(i + 1)
			sb.WriteString(b)
		}
	}
	sb.WriteString(end)
	return sb.String()
}

func (s Style) plain(sb *strings.Builder, str string) {
	text, _ := gojson.Marshal(str)
	sb.Write(text)
}

var tokens = []string{"[", "]", "{", "}", ",", ":", "\"\"", "\"a\"", "\"b\"", "0", "1", "-1", "-0", "01", "-01", "1.", ".5", "1.5", "1e5", "1E+5", "1e", "+1", "true", "false", "null",
	"nul", "truee", "nullx", "True", "\"", "\\", "\"\\u0041\"", "\"\\u0022\"", "\"\\uD834\\uDD1E\"", "\"\\uD834\"", "\"\\uDD1E\\uD834\"", "\"\\uD834\\uD834\"", " ", "\n", "\x00", "\x0b", "\ufeff", "é", "/", "'a'", "\"\n\"", "\x80", "\xed\xa0\x80", "NaN"}

// Mutate makes a few edits to a text.
func Mutate(t *rapid.T, doc string) string {
	for n := rapid.IntRange(1, 3).Draw(t, "edits"); n > 0; n-- {
		at := rapid.IntRange(0, len(doc)).Draw(t, "at")
		to := min(len(doc), at+rapid.IntRange(0, 3).Draw(t, "span"))
		switch rapid.IntRange(0, 4).Draw(t, "edit") {
		case 0:
			doc = doc[:at] + doc[to:]
		case 1:
			doc = doc[:at] + rapid.SampledFrom(tokens).Draw(t, "token") + doc[at:]
		case 2:
			doc = doc[:at] + rapid.SampledFrom(tokens).Draw(t, "token") + doc[to:]
		case 3:
			doc = doc[:to] + doc[at:]
		case 4:
			doc = doc[:at]
		}
	}
	return doc
}

// DrawSoup draws a sequence of tokens.
func DrawSoup(t *rapid.T) string {
	var sb strings.Builder
	sb.WriteString(rapid.SampledFrom([]string{"[", "{", "{\"k\":", "[1,", ""}).Draw(t, "open"))
	for n := rapid.IntRange(0, 7).Draw(t, "tokens"); n > 0; n-- {
		sb.WriteString(rapid.SampledFrom(tokens).Draw(t, "token"))
	}
	sb.WriteString(rapid.SampledFrom([]string{"]", "}", "", "]]"}).Draw(t, "close"))
	return sb.String()
}

// Build makes a value of micro out of a model value, with MapToValue and the like. Maps and slices without elements are
// nil if asked for.
func Build(v V, nils ...bool) mj.Value {
	switch t := v.(type) {
	case map[string]V:
		m := map[string]mj.Value{}
		if len(t) == 0 && len(nils) > 0 && nils[0] {
			m = nil
		}
		for k, e := range t {
			m[k] = Build(e, nils...)
		}
		return mj.MustMapToValue(m)
	case []V:
		s := []mj.Value{}
		if len(nils) > 0 && nils[0] {
			s = nil
		}
		for _, e := range t {
			s = append(s, Build(e, nils...))
		}
		return mj.MustSliceToValue(s)
	case string:
		return mj.StringToValue(t)
	case Num:
		return mj.MustNumberToValue(mj.NumberString(t))
	case bool:
		return mj.BoolToValue(t)
	}
	return mj.NullValue
}
