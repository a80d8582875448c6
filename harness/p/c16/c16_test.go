package c16

import (
	"encoding/csv"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"regexp"
	"slices"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/bantling/micro/iter"
	"pgregory.net/rapid"
	"verif/harness/iox"
	"verif/harness/vt"
)

// faults are problems of a reader, although some look like its end
var faults = append([]error{errors.New("fault"), errors.New("other fault")}, append(vt.Lookalikes(io.EOF), vt.Lookalikes(iter.EOI)...)...)

// drawEnd is how a reader ends
func drawEnd(c *vt.C) error {
	if c.Range(0, 2, "fails") == 0 {
		return faults[c.Range(0, len(faults)-1, "fault")]
	}
	return io.EOF
}

// collect calls an iterating function to its end, and checks that it repeats that
func collect[T any](c *vt.C, what string, fn func() (T, error), zero func(T) bool) (vals []T, err error) {
	for {
		v, e := fn()
		if e != nil {
			if !zero(v) {
				c.Fatalf("%s yields both %v and %v", what, v, e)
			}
			for i := 0; i < 3; i++ {
				if v2, e2 := fn(); e2 != e || !zero(v2) {
					c.Fatalf("%s ends with %v, after %v values, but then yields %v, %v", what, e, len(vals), v2, e2)
				}
			}
			return vals, e
		}
		vals = append(vals, v)
		if len(vals) > 10000000 {
			c.Fatalf("%s does not end", what)
		}
	}
}

var pieces = []string{"a", "b", "\n", "\r", "\r\n", " ", "", "é", "߿", "ࠀ", "€", "\uffff", "\ufffd", "𐀀", "𝄞", "\U0010ffff", "\x00", "\x7f", "\ufeff", "\u2028", "\u2029", "\u0085", "\v", "\f", "\t", "\x80", "\xbf", "\xc0\x80", "\xc1\xbf", "\xc3", "\xe0\x80\x80", "\xe0\x9f\xbf", "\xe2\x82", "\xed\xa0\x80", "\xed\xbf\xbf",
	"\xf0\x80\x80\x80", "\xf0\x8f\xbf\xbf", "\xf0\x9d\x84", "\xf4\x90\x80\x80", "\xf5\x80\x80\x80", "\xff", "\xe2\x28\xa1", "\xf8\x88\x80\x80\x80"}

// drawLarge is a text of several thousand bytes, around the sizes of buffers
func drawLarge(c *vt.C, valid bool) string {
	var sb strings.Builder
	for n := c.Range(1, 3, "runs"); n > 0; n-- {
		sb.WriteString(strings.Repeat(rapid.SampledFrom(pieces[:25]).Draw(c.T, "run"), c.SizeOr(5000, 140000, "times")))
		sb.WriteString(drawText(c, valid))
	}
	return sb.String()
}

func drawText(c *vt.C, valid bool) string {
	var sb strings.Builder
	for n := c.Range(0, 12, "pieces"); n > 0; n-- {
		p := rapid.SampledFrom(pieces).Draw(c.T, "piece")
		if !utf8.ValidString(p) && (valid || c.Range(0, 3, "keep") > 0) {
			continue
		}
		sb.WriteString(p)
	}
	if !valid && c.Range(0, 5, "bytes") == 0 {
		sb.Write(rapid.SliceOfN(rapid.Byte(), 1, 6).Draw(c.T, "bytes"))
	}
	return sb.String()
}

// behaviour is what c draws for its readers if it is an exhaustive case
var behaviour struct {
	with   bool
	pieces []int
}

func reader(c *vt.C, data string, end error) *iox.Reader {
	if c.Exhaustive() {
		return iox.NewReader(data, end, behaviour.with, behaviour.pieces...)
	}
	return iox.DrawReader(c.T, data, end)
}

// every short text
func TestAllShort(t *testing.T) {
	vt.All(t, 3000000, "every text of up to 5 of a, LF, CR, a letter of two bytes, quote and comma, and of up to 4 of the bytes 00 41 80 8f a0 c3 e0 ed f0 f4 ff, read at once or by single bytes, and ended with the last bytes or after, by an error or not; non-trivial as in the other tests", func(c *vt.C) {
		behaviour.with, behaviour.pieces = c.Bool("with"), nil
		end := []error{io.EOF, faults[0]}[c.Range(0, 1, "end")]
		if c.Bool("single") {
			behaviour.pieces = []int{1}
		}
		what := c.Range(0, 3, "what")
		if what == 0 {
			s := c.Seq(4, "\x00", "A", "\x80", "\x8f", "\xa0", "\xc3", "\xe0", "\xed", "\xf0", "\xf4", "\xff")
			checkRunes(c, s, end)
			checkLines(c, s, end)
			return
		}
		s := c.Seq(5, "a", "\n", "\r", "é", "\"", ",")
		switch what {
		case 1:
			checkRunes(c, s, end)
			checkLines(c, s, end)
		case 2:
			if len(s) < 4 {
				checkBytes(c, s, end)
			}
		default:
			checkCSV(c, s, end)
		}
	})
}

// decode is the runes before the first invalid sequence. ends are the acceptable errors.
func decode(s string, end error) (rs []rune, ends []error) {
	for s != "" {
		r, n := utf8.DecodeRuneInString(s)
		if r == utf8.RuneError && n == 1 {
			ends = []error{iter.InvalidUTF8EncodingError}
			if end != io.EOF && !utf8.FullRuneInString(s) {
				// a sequence cut by a failing reader
				ends = []error{end}
			} else if end != io.EOF && len(s) < 4 {
				// an invalid sequence, of which the first byte asks for more bytes than there are
				ends = append(ends, end)
			}
			return
		}
		rs = append(rs, r)
		s = s[n:]
	}
	if end == io.EOF {
		end = iter.EOI
	}
	return rs, []error{end}
}

func in(e error, ends []error) bool {
	for _, x := range ends {
		if x == e {
			return true
		}
	}
	return false
}

func TestRunes(t *testing.T) {
	vt.Check(t, 30000, "texts of one to four byte encodings, half with invalid ones, through readers of drawn behaviour; non-trivial if of at least 4 bytes and not ASCII only", func(c *vt.C) {
		checkRunes(c, drawText(c, c.Bool("valid")), drawEnd(c))
	})
}

func checkRunes(c *vt.C, s string, end error) {
	want, ends := decode(s, end)
	for name, fn := range map[string]func() (rune, error){
		"OfReaderAsRunes":      iter.OfReaderAsRunes(reader(c, s, end).As()).Next,
		"ReaderAsRunesIterGen": iter.ReaderAsRunesIterGen(reader(c, s, end).As()),
	} {
		got, err := collect(c, name, fn, func(r rune) bool { return r == 0 })
		if string(got) != string(want) || len(got) != len(want) || !in(err, ends) {
			c.Fatalf("%s of %q yields %q, %v; expected %q, %v", name, s, string(got), err, string(want), ends)
		}
	}
	want, ends = decode(s, io.EOF)
	got, err := collect(c, "StringAsRunesIterGen", iter.StringAsRunesIterGen(s), func(r rune) bool { return r == 0 })
	if string(got) != string(want) || !in(err, ends) {
		c.Fatalf("StringAsRunesIterGen of %q yields %q, %v; expected %q, %v", s, string(got), err, string(want), ends)
	}
	// invalid UTF-8 is an error here too, or what it is everywhere in Go
	got, err = collect(c, "OfStringAsRunes", iter.OfStringAsRunes(s).Next, func(r rune) bool { return r == 0 })
	if !(slices.Equal(got, []rune(s)) && err == iter.EOI) && !(!utf8.ValidString(s) && slices.Equal(got, want) && in(err, ends)) {
		c.Fatalf("OfStringAsRunes of %q yields %q, %v", s, got, err)
	}
	if len(s) >= 4 && len([]rune(s)) < len(s) {
		c.NonTrivial("%q %v", s, end)
	}
}

func TestTableRunes(t *testing.T) {
	vt.Table(t, "every sequence of up to two bytes, every rune, and every third byte after the sequences at limits", func(each func(string, func(func(string, ...any)))) {
		try := func(s string) {
			each(fmt.Sprintf("%x", s), func(fail func(string, ...any)) {
				want, ends := decode(s, io.EOF)
				fn := iter.ReaderAsRunesIterGen(strings.NewReader(s))
				for _, r := range want {
					if g, err := fn(); g != r || err != nil {
						fail("yields U+%04X, %v instead of U+%04X", g, err, r)
					}
				}
				if g, err := fn(); g != 0 || !in(err, ends) {
					fail("ends with U+%04X, %v instead of %v", g, err, ends)
				}
			})
		}
		for a := 0; a < 256; a++ {
			try(string([]byte{byte(a)}))
			for b := 0; b < 256; b++ {
				try(string([]byte{byte(a), byte(b)}))
			}
		}
		for a := 0xe0; a < 0x100; a++ {
			for _, b := range []byte{0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0} {
				for d := 0; d < 256; d++ {
					try(string([]byte{byte(a), b, byte(d)}))
					try(string([]byte{byte(a), b, 0x80, byte(d)}))
				}
			}
		}
		for r := rune(0); r <= utf8.MaxRune; r += 1 {
			if r > 0x10100 && r%257 != 0 && r < 0x10fff0 {
				continue
			}
			try(string(r))
		}
	})
}

func TestBytes(t *testing.T) {
	vt.Check(t, 15000, "bytes through readers of drawn behaviour, which may be closers that fail; non-trivial if of at least 3 bytes", func(c *vt.C) {
		checkBytes(c, string(rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(c.T, "data")), drawEnd(c))
	})
}

func checkBytes(c *vt.C, data string, end error) {
	for k := 0; k < 2; k++ {
		r := reader(c, data, end)
		src := r.As()
		closer := c.Bool("closer")
		if closer {
			src = r.AsCloser()
			if c.Bool("close fails") {
				r.CloseErr = []error{errors.New("close"), io.EOF, io.ErrClosedPipe, io.ErrUnexpectedEOF, iter.EOI, fs.ErrClosed}[c.Range(0, 5, "close error")]
			}
		}
		fn := iter.ReaderIterGen(src)
		if k == 1 {
			fn = iter.OfReader(src).Next
		}
		got, err := collect(c, "bytes", fn, func(b byte) bool { return b == 0 })
		want := end
		if end == io.EOF {
			want = iter.EOI
			if closer && r.CloseErr != nil {
				want = r.CloseErr
			}
		}
		if string(got) != data || err != want {
			c.Fatalf("%q yields %q, %v instead of %v", data, got, err, want)
		}
		if closer && end == io.EOF && r.Closed != 1 {
			c.Fatalf("closed %d times", r.Closed)
		}
	}
	if len(data) >= 3 {
		c.NonTrivial("%q %v", data, end)
	}
}

var eol = regexp.MustCompile("\r\n|\r|\n")

// lines is the lines of a text, the rest after the last line ending only if it is not empty
func lines(s string) (all []string, rest string) {
	all = eol.Split(s, -1)
	return all[:len(all)-1], all[len(all)-1]
}

func TestLines(t *testing.T) {
	vt.Check(t, 30000, "texts with all three line endings in any mixture through readers of drawn behaviour; non-trivial if of at least 3 lines", func(c *vt.C) {
		checkLines(c, drawText(c, c.Range(0, 3, "valid") > 0), drawEnd(c))
	})
}

func checkLines(c *vt.C, s string, end error) {
	for name, fn := range map[string]func() (string, error){
		"OfReaderAsLines":      iter.OfReaderAsLines(reader(c, s, end).As()).Next,
		"ReaderAsLinesIterGen": iter.ReaderAsLinesIterGen(reader(c, s, end).As()),
		"OfStringAsLines":      iter.OfStringAsLines(s).Next,
		"StringAsLinesIterGen": iter.StringAsLinesIterGen(s),
	} {
		e := end
		if strings.Contains(name, "String") {
			e = io.EOF
		}
		rs, ends := decode(s, e)
		want, rest := lines(string(rs))
		if rest != "" && ends[0] == iter.EOI {
			want = append(want, rest)
		}
		got, err := collect(c, name, fn, func(l string) bool { return l == "" })
		if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) || !in(err, ends) {
			c.Fatalf("%s of %q yields %q, %v; expected %q, %v", name, s, got, err, want, ends)
		}
		if len(want) >= 3 {
			c.NonTrivial("%q %v", s, end)
		}
	}
}

func TestCSV(t *testing.T) {
	vt.Check(t, 15000, "CSV documents of drawn fields, some with edits, through readers of drawn behaviour; non-trivial if of at least 2 rows", func(c *vt.C) {
		var sb strings.Builder
		w := csv.NewWriter(&sb)
		cols := c.Range(1, 4, "columns")
		for n := c.Range(0, 5, "rows"); n > 0; n-- {
			row := make([]string, cols)
			for i := range row {
				row[i] = rapid.SampledFrom([]string{"", "a", "b c", "\"", "x,y", "line\nbreak", " lead", "é", "'", "12.5", "\t"}).Draw(c.T, "field")
			}
			_ = w.Write(row)
		}
		w.Flush()
		doc := sb.String()
		for n := c.Range(0, 3, "edits") - 1; n > 0; n-- {
			at := c.Range(0, len(doc), "at")
			doc = doc[:at] + []string{"\"", ",", "\n", "a", "\r\n"}[c.Range(0, 4, "edit")] + doc[min(len(doc), at+c.Range(0, 1, "del")):]
		}
		checkCSV(c, doc, drawEnd(c))
	})
}

func checkCSV(c *vt.C, doc string, end error) {
	var want [][]string
	var wantErr error
	// encoding/csv may read on after the end
	for ref := csv.NewReader(reader(c, doc, end).Stays()); ; {
		row, err := ref.Read()
		if err != nil {
			wantErr = err
			break
		}
		want = append(want, row)
	}
	src := reader(c, doc, end).Stays()
	in := src.As()
	it := iter.OfCSV(in)
	generator := c.Bool("generator")
	if generator {
		it = gen[[]string](iter.CSVIterGen(in))
	}
	var got [][]string
	for {
		row, err := it.Next()
		if err != nil {
			if row != nil && !generator {
				c.Fatalf("CSV %q yields both %q and %v", doc, row, err)
			}
			if wantErr == io.EOF && err != iter.EOI || wantErr != io.EOF && (err.Error() != wantErr.Error() || err == iter.EOI || wantErr == end && err != end) {
				c.Fatalf("CSV %q ends with %v, encoding/csv with %v", doc, err, wantErr)
			}
			// the iterating function itself is not documented to repeat other errors than EOI, or to yield no row with
			// them: that is up to the Iter around it
			src.Revive()
			if _, err2 := it.Next(); err2 != err && (!generator || err == iter.EOI) {
				c.Fatalf("CSV %q ends with %v, then %v", doc, err, err2)
			}
			break
		}
		got = append(got, append([]string{}, row...)) // documented to be reused
	}
	if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
		c.Fatalf("CSV %q yields %q, expected %q", doc, got, want)
	}
	if len(want) >= 2 {
		c.NonTrivial("%q %v", doc, end)
	}
	c.Class("%v", wantErr == io.EOF)
}

// gen is an iterating function as an iterator, without remembering the end for it
type gen[T any] func() (T, error)

func (g gen[T]) Next() (T, error) { return g() }
func (g gen[T]) Unread(T)         {}

// TestLarge: more than fits in any buffer
func TestLarge(t *testing.T) {
	vt.Check(t, 1500, "texts of up to 60,000 bytes as bytes, runes, lines, and CSV, through readers of drawn behaviour; non-trivial if longer than 4,000 bytes", func(c *vt.C) {
		s, end := drawLarge(c, c.Range(0, 2, "valid") > 0), drawEnd(c)
		switch c.Range(0, 3, "as") {
		case 0:
			checkRunes(c, s, end)
		case 1:
			checkBytes(c, s, end)
		case 2:
			checkLines(c, s, end)
		case 3:
			checkCSV(c, strings.ReplaceAll(s, " ", "\","), end)
		}
		c.Trivial()
		if len(s) > 4000 {
			c.NonTrivial("%d %s", len(s), s[:20])
		}
	})
}

// stuck is a reader that yields no bytes and no error after its data
type stuck struct {
	data  string
	empty int
}

func (s *stuck) Read(p []byte) (n int, err error) {
	if n = copy(p, s.data); n == 0 && len(p) > 0 {
		if s.empty++; s.empty > 1<<20 {
			panic("the reader is asked again and again although it yields nothing")
		}
	}
	s.data = s.data[n:]
	return n, nil
}

// TestNoProgress: a reader that makes no progress is a problem of the reader, and not the end
func TestNoProgress(t *testing.T) {
	vt.Check(t, 3000, "texts followed by endless empty reads; non-trivial if of at least 4 bytes", func(c *vt.C) {
		s := drawText(c, true)
		check := func(what, got, want string, err error) {
			if got != want || err == nil || err == iter.EOI {
				c.Fatalf("%s of %q followed by endless empty reads yields %q, %v", what, s, got, err)
			}
		}
		bs, err := collect(c, "OfReader", iter.OfReader(&stuck{data: s}).Next, func(b byte) bool { return b == 0 })
		check("OfReader", string(bs), s, err)
		rs, err := collect(c, "OfReaderAsRunes", iter.OfReaderAsRunes(&stuck{data: s}).Next, func(r rune) bool { return r == 0 })
		check("OfReaderAsRunes", string(rs), s, err)
		ls, err := collect(c, "OfReaderAsLines", iter.OfReaderAsLines(&stuck{data: s}).Next, func(l string) bool { return l == "" })
		var want []string
		if end := strings.LastIndexAny(s, "\r\n"); end >= 0 {
			want = strings.Split(strings.ReplaceAll(strings.ReplaceAll(s[:end+1], "\r\n", "\n"), "\r", "\n"), "\n")
			want = want[:len(want)-1]
		}
		check("OfReaderAsLines", fmt.Sprintf("%q", ls), fmt.Sprintf("%q", want), err)
		if len(s) >= 4 {
			c.NonTrivial("%q", s)
		}
	})
}

// TestTableNoSource: a reader that is nil has nothing to read
func TestTableNoSource(t *testing.T) {
	vt.Table(t, "every source of bytes, runes, lines and rows without a reader", func(each func(string, func(func(string, ...any)))) {
		for what, it := range map[string]func() error{
			"ReaderIterGen":        ends(iter.ReaderIterGen(nil)),
			"ReaderAsRunesIterGen": ends(iter.ReaderAsRunesIterGen(nil)),
			"ReaderAsLinesIterGen": ends(iter.ReaderAsLinesIterGen(nil)),
			"CSVIterGen":           ends(iter.CSVIterGen(nil)),
			"OfReader":             ends(iter.OfReader(nil).Next),
			"OfReaderAsRunes":      ends(iter.OfReaderAsRunes(nil).Next),
			"OfReaderAsLines":      ends(iter.OfReaderAsLines(nil).Next),
			"OfCSV":                ends(iter.OfCSV(nil).Next),
		} {
			each(what, func(fail func(string, ...any)) {
				for range 3 {
					if err := it(); err != iter.EOI {
						fail("without a reader ends with %v", err)
					}
				}
			})
		}
	})
}

func ends[T any](next func() (T, error)) func() error {
	return func() error {
		_, err := next()
		return err
	}
}
