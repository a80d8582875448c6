package c21

import (
	"errors"
	"fmt"
	goio "io"
	"reflect"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/bantling/micro/io"
	"github.com/bantling/micro/io/writer"
	"github.com/bantling/micro/tuple"
	"verif/harness/vt"
)

var errDst = errors.New("the destination fails")

// ==== error reader and writer

// sink is a writer that has no other method
type sink []byte

func (s *sink) Write(p []byte) (int, error) {
	*s = append(*s, p...)
	return len(p), nil
}

func TestErrorReader(t *testing.T) {
	vt.Check(t, 15000, "histories of reads of any sizes of an ErrorReader, beyond its end; non-trivial if there is input and it is read in at least two pieces", func(c *vt.C) {
		input := make([]byte, c.Range(0, []int{5, 40, 2000}[c.Range(0, 2, "size")], "length"))
		for i := range input {
			input[i] = byte(i*7 + 1)
		}
		var in []byte = append([]byte{}, input...)
		if len(in) == 0 && c.Bool("nil input") {
			in = nil
		}
		err := []error{errDst, goio.ErrUnexpectedEOF, goio.EOF}[c.Range(0, 2, "error")]
		r := io.NewErrorReader(in, err)
		var got []byte
		var desc []string
		pieces := 0
		for n := c.Range(1, 15, "reads"); n > 0; n-- {
			if c.Range(0, 9, "rest") == 0 {
				b, e := goio.ReadAll(r)
				if err == goio.EOF {
					if e != nil {
						c.Fatalf("%v: ReadAll: %v", desc, e)
					}
				} else if e != err {
					c.Fatalf("%v: ReadAll: %v", desc, e)
				}
				got = append(got, b...)
				desc = append(desc, "all")
				pieces += len(b)
				if len(got) != len(input) {
					c.Fatalf("%v: ReadAll stops at %d of %d bytes", desc, len(got), len(input))
				}
				continue
			}
			if c.Range(0, 9, "copy") == 0 {
				// io.Copy gives everything to a writer, in whatever way the two know
				var b sink
				k, e := goio.Copy(&b, r)
				want := err
				if err == goio.EOF {
					want = nil
				}
				desc = append(desc, "copy")
				if left := len(input) - len(got); e != want || int(k) != left || len(b) != left {
					c.Fatalf("%d bytes, reads %v: io.Copy: %d, %v, %d written; expected %d, %v", len(input), desc, k, e, len(b), left, want)
				}
				got = append(got, b...)
				pieces += len(b)
				continue
			}
			size := c.Range(0, []int{3, 10, 2500}[c.Range(0, 2, "piece")], "bytes")
			p := make([]byte, size, size+5)
			k, e := r.Read(p)
			desc = append(desc, fmt.Sprint(size))
			left := len(input) - len(got)
			switch {
			case left == 0:
				if k != 0 || e != err {
					c.Fatalf("%d bytes, reads %v: at the end %d, %v; expected 0, %v", len(input), desc, k, e, err)
				}
			default:
				if want := min(size, left); k != want || e != nil {
					c.Fatalf("%d bytes, reads %v: %d, %v; expected %d, nil", len(input), desc, k, e, want)
				}
				pieces++
			}
			got = append(got, p[:k]...)
		}
		if string(got) != string(input[:len(got)]) || string(in) != string(input) {
			c.Fatalf("%x, reads %v: got %x, input now %x", input, desc, got, in)
		}
		c.Class("size %d+", len(input)/20*20)
		if pieces > 1 {
			c.NonTrivial("%d bytes, reads %v", len(input), desc)
		}
	})
}

func TestErrorWriter(t *testing.T) {
	vt.Check(t, 15000, "histories of writes of any sizes to an ErrorWriter with a count of -3 to 2000, beyond the count; non-trivial if at least two writes write something", func(c *vt.C) {
		count := c.Range(-3, []int{5, 40, 2000}[c.Range(0, 2, "size")], "count")
		w := io.NewErrorWriter(count, errDst)
		var want []byte
		var desc []string
		var outs [][]byte
		writes := 0
		for n := c.Range(1, 15, "writes"); n > 0; n-- {
			p := make([]byte, c.Range(0, []int{3, 10, 2500}[c.Range(0, 2, "piece")], "bytes"))
			for i := range p {
				p[i] = byte((len(want)+i)*11 + 1)
			}
			desc = append(desc, fmt.Sprint(len(p)))
			k, err := 0, error(nil)
			switch c.Range(0, 5, "how") {
			case 0: // a string, in whatever way the writer knows
				k, err = goio.WriteString(w, string(p))
			case 1:
				k, err = fmt.Fprintf(w, "%s", p)
			default:
				k, err = w.Write(p)
			}
			switch {
			case count < 0:
				if k != 0 || err != nil {
					c.Fatalf("count %d, writes %v: %d, %v; expected nothing", count, desc, k, err)
				}
			case len(want) == count:
				if k != 0 || err != errDst {
					c.Fatalf("count %d, writes %v: %d, %v; expected the error", count, desc, k, err)
				}
			default:
				n := min(len(p), count-len(want))
				if k != n || err != nil {
					c.Fatalf("count %d, writes %v: %d, %v; expected %d bytes", count, desc, k, err, n)
				}
				want = append(want, p[:n]...)
				if n > 0 {
					writes++
				}
			}
			for i := range p { // the writer must not keep it
				p[i] = 0
			}
			if string(w.Output()) != string(want) {
				c.Fatalf("count %d, writes %v: output %x, expected %x", count, desc, w.Output(), want)
			}
			outs = append(outs, w.Output())
		}
		for _, o := range outs {
			if string(o) != string(want[:len(o)]) {
				c.Fatalf("count %d, writes %v: an earlier output is now %x, expected %x", count, desc, o, want[:len(o)])
			}
		}
		c.Class("count %d+", count/20*20)
		if writes > 1 {
			c.NonTrivial("count %d, writes %v", count, desc)
		}
	})
}

// every short history
func TestAllShort(t *testing.T) {
	vt.All(t, 2000000, "every history of 5 reads of an ErrorReader of up to 6 bytes, or writes to an ErrorWriter of a count of -1 to 6, of up to 4 bytes each; non-trivial if not empty", func(c *vt.C) {
		input := "abcdef"[:c.Range(0, 6, "length")]
		desc, done := fmt.Sprint(len(input)), 0
		reads := c.Bool("reads")
		r, count := io.NewErrorReader([]byte(input), errDst), len(input)
		if !reads && c.Bool("unlimited") {
			count = -count - 1
		}
		w := io.NewErrorWriter(count, errDst)
		for range 5 {
			size := c.Range(0, 4, "bytes")
			desc += fmt.Sprint(" ", size)
			n, want := 0, min(size, len(input)-done)
			var err, werr error
			if reads {
				p := make([]byte, size)
				if n, err = r.Read(p); string(p[:n]) != input[done:done+min(n, len(input)-done)] {
					c.Fatalf("%s: reads %q at %d", desc, p, done)
				}
			} else {
				n, err = w.Write([]byte("abcdefghij"[done : done+size]))
			}
			if count < 0 {
				want = 0
			} else if done == len(input) {
				werr = errDst
			}
			if done += want; n != want || err != werr {
				c.Fatalf("%s (reads: %v, count %d): %d, %v; expected %d, %v", desc, reads, count, n, err, want, werr)
			}
			if out := string(w.Output()); !reads && out != input[:done] {
				c.Fatalf("%s: wrote %q", desc, out)
			}
		}
		if input != "" {
			c.NonTrivial("%s %v", desc, reads)
		}
	})
}

// ==== writers

// dst is a destination that takes room bytes and then fails: with an error, or without one, writing part of what it is given or nothing.
// If it recovers, it only fails once.
type dst struct {
	room    int
	silent  bool
	late    bool // takes all, and fails nevertheless
	part    bool
	recover bool
	failed  int
	wrote   []byte
}

func (d *dst) Write(p []byte) (n int, err error) {
	if len(p) <= d.room {
		d.room -= len(p)
		d.wrote = append(d.wrote, p...)
		return len(p), nil
	}
	d.failed++
	if d.late {
		n = len(p)
		d.wrote = append(d.wrote, p...)
	} else if d.part {
		n = d.room
		d.wrote = append(d.wrote, p[:n]...)
	}
	d.room = 0
	if d.recover {
		d.room = 1 << 30
	}
	if !d.silent {
		err = errDst
	}
	return
}

// stringDst is a destination that can also be given strings and runes
type stringDst struct{ *dst }

func (d stringDst) WriteString(s string) (int, error) { return d.Write([]byte(s)) }
func (d stringDst) WriteRune(r rune) (int, error)     { return d.Write([]byte(string(r))) }

// richDst is one that can be given bytes too, has a buffer, and can be closed
type richDst struct{ stringDst }

func (d richDst) WriteByte(b byte) error { _, err := d.Write([]byte{b}); return err }
func (d richDst) Flush() error           { return nil }
func (d richDst) Close() error           { return nil }
func (d richDst) Available() int         { return d.room }

func (d richDst) ReadFrom(r goio.Reader) (n int64, err error) {
	p := make([]byte, 1)
	for {
		if _, err := goio.ReadFull(r, p); err != nil {
			return n, nil
		}
		if k, err := d.Write(p); k == 0 || err != nil {
			return n + int64(k), err
		}
		n++
	}
}

// as is the destination itself or a richer one
// A byte that is not written without any error is nothing that WriteByte could tell
func (d *dst) as(c *vt.C) goio.Writer {
	switch c.Range(0, 2, "rich") {
	case 1:
		return stringDst{d}
	case 2:
		if !d.silent {
			return richDst{stringDst{d}}
		}
	}
	return d
}

func drawDst(c *vt.C) *dst {
	d := &dst{room: 1 << 30}
	if c.Range(0, 2, "fails") > 0 {
		d.room = c.Range(0, 60, "room")
		d.silent, d.part, d.recover = c.Bool("silent"), c.Bool("part"), c.Bool("recover")
		d.late = !d.silent && c.Range(0, 3, "late") == 0
	}
	return d
}

func drawString(c *vt.C) string {
	var sb strings.Builder
	for n := c.Range(0, 6, "chars"); n > 0; n-- {
		sb.WriteString([]string{"a", "é", "日", "\U00010348", " ", "\n", "\r", "0", "\x00", "\ufeff", "zz", "\xff", "\ufffd"}[c.Range(0, 12, "char")])
	}
	return sb.String()
}

// checkIO writes values in calls of several values and compares the destination with the encodings of the values
func checkIO[T any](c *vt.C, kind string, vals []T, enc func(T) string, make func(goio.Writer) writer.Writer[T], gen func(goio.Writer) func(T) error) {
	d := drawDst(c)
	to := d.as(c)
	model := *d
	var (
		w     writer.Writer[T]
		fn    func(T) error
		calls []string
	)
	if c.Bool("generator") {
		fn = gen(to)
		w = writer.NewWriter(fn)
	} else {
		w = make(to)
	}
	desc := func() string {
		return fmt.Sprintf("%s %#v in calls of %v, room %d, silent %v, part %v, late %v, recover %v", kind, vals, calls, model.room, model.silent, model.part, model.late, model.recover)
	}
	ref := model
	calls0 := 0
	for i := 0; i < len(vals) || calls0 == 0; calls0++ {
		k := min(c.Range(0, 4, "values"), len(vals)-i)
		if calls0 > 40 {
			break
		}
		part := vals[i : i+k]
		i += k
		calls = append(calls, fmt.Sprint(k))
		var err error
		if fn != nil && k == 1 {
			err = fn(part[0])
		} else {
			err = w.Write(part...)
		}
		// the model writes each value whole, up to the first that fails
		var want error
		for _, v := range part {
			s := enc(v)
			n, e := ref.Write([]byte(s))
			if e != nil || n < len(s) {
				want = e
				if e == nil {
					want = errors.New("any")
				}
				break
			}
		}
		if (err == nil) != (want == nil) || want == errDst && err != errDst {
			c.Fatalf("%s: error %v, expected %v", desc(), err, want)
		}
		if string(d.wrote) != string(ref.wrote) {
			c.Fatalf("%s: written %q, expected %q", desc(), d.wrote, ref.wrote)
		}
	}
	c.Class("%s failed %d", kind, min(d.failed, 2))
	if len(vals) > 1 && len(d.wrote) > 0 {
		c.NonTrivial("%s", desc())
	}
}

func TestIO(t *testing.T) {
	vt.Check(t, 40000, "bytes, runes, strings and lines written in calls of 0 to 4 values to destinations that fail at any byte, with an error or silently, once or for good; non-trivial if of at least two values, one of them written", func(c *vt.C) {
		n := c.Range(0, 12, "n")
		switch c.Range(0, 3, "kind") {
		case 0:
			vals := make([]byte, n)
			for i := range vals {
				vals[i] = byte(c.Range(0, 255, "byte"))
			}
			checkIO(c, "bytes", vals, func(b byte) string { return string([]byte{b}) }, writer.OfIOWriterAsBytes, writer.IOWriterGen)
		case 1:
			vals := make([]rune, n)
			for i := range vals {
				r := rune(c.Range(0, []int{0x7f, 0x7ff, 0xffff, 0x10ffff}[c.Range(0, 3, "size")], "rune"))
				if !utf8.ValidRune(r) {
					r = 0xfffd
				}
				vals[i] = r
			}
			checkIO(c, "runes", vals, func(r rune) string { return string(utf8.AppendRune(nil, r)) }, writer.OfIOWriterAsRunes, writer.IOWriterAsRunesGen)
		case 2:
			vals := make([]string, n)
			for i := range vals {
				vals[i] = drawString(c)
			}
			checkIO(c, "strings", vals, func(s string) string { return s }, writer.OfIOWriterAsStrings, writer.IOWriterAsStringsGen)
		default:
			vals := make([]string, n)
			for i := range vals {
				vals[i] = drawString(c)
			}
			checkIO(c, "lines", vals, func(s string) string { return s + "\n" }, writer.OfIOWriterAsLines, writer.IOWriterAsLinesGen)
		}
	})
}

// TestLarge: many values in a call, and long ones
func TestLarge(t *testing.T) {
	vt.Check(t, 600, "up to 3000 values of up to 6000 bytes, now and then up to 140000, in up to three calls, to destinations that fail anywhere, or do not fail, and to slices; non-trivial if of more than 256 values or bytes", func(c *vt.C) {
		n, size := c.SizeOr(3000, 140000, "values"), c.Size(20, "size")
		if c.Bool("long") {
			n, size = c.Size(5, "values"), c.SizeOr(6000, 140000, "size")
		}
		unit := []string{"a", "é", "日", "\U00010348", "\n"}[c.Range(0, 4, "unit")]
		val := strings.Repeat(unit, size)
		kind := c.Range(0, 3, "kind")
		vals := make([]string, n)
		for i := range vals {
			vals[i] = val + fmt.Sprint(i)
		}
		var all []string
		d := &dst{room: 1 << 30}
		if c.Range(0, 2, "fails") > 0 {
			d.room = c.Range(0, 2*n*(len(val)+3)+1, "room")
			d.part = c.Bool("part")
		}
		ref := *d
		to := d.as(c)
		ws, wl, wr := writer.OfIOWriterAsStrings(to), writer.OfIOWriterAsLines(to), writer.OfIOWriterAsRunes(to)
		var slc []string
		wc := writer.OfSliceWriter(&slc)
		for call := c.Range(1, 3, "calls"); call > 0; call-- {
			var err, want error
			model := func(s string) {
				if want == nil {
					_, want = ref.Write([]byte(s))
				}
			}
			switch kind {
			case 0:
				err = ws.Write(vals...)
				for _, v := range vals {
					model(v)
				}
			case 1:
				err = wl.Write(vals...)
				for _, v := range vals {
					model(v + "\n")
				}
			case 2:
				rs := []rune(strings.Join(vals, ""))
				err = wr.Write(rs...)
				for _, r := range rs {
					model(string(r))
				}
			case 3:
				err = wc.Write(vals...)
				all = append(all, vals...)
				if fmt.Sprint(slc) != fmt.Sprint(all) {
					c.Fatalf("slice of %d strings of %d %q: other values", len(all), size, unit)
				}
			}
			if err != want || string(d.wrote) != string(ref.wrote) {
				c.Fatalf("kind %d: %d strings of %d %q with room for %d: error %v, expected %v; %d bytes written, expected %d", kind, n, size, unit, d.room, err, want, len(d.wrote), len(ref.wrote))
			}
			if err != nil {
				break
			}
		}
		if n > 256 || len(val) > 256 {
			c.NonTrivial("%d %d %d %s", kind, n, size, unit)
		}
	})
}

func TestCollections(t *testing.T) {
	vt.Check(t, 15000, "histories of writes to slices (with spare capacity, and changed in between) and maps; non-trivial if of at least two calls and three values", func(c *vt.C) {
		var calls []string
		total := 0
		if c.Bool("slice") {
			slc := make([]int, c.Range(0, 3, "length"), c.Range(3, 8, "capacity"))
			for i := range slc {
				slc[i] = -i - 1
			}
			if c.Range(0, 3, "nil") == 0 {
				slc = nil
			}
			want := append([]int{}, slc...)
			w, w2 := writer.OfSliceWriter(&slc), writer.NewWriter(writer.SliceWriterGen(&slc))
			for n := c.Range(1, 8, "calls"); n > 0; n-- {
				var vals []int
				for k := c.Range(0, 5, "values"); k > 0; k-- {
					vals = append(vals, c.Range(-99, 99, "value"))
				}
				switch c.Range(0, 8, "caller changes slice") {
				case 0:
					slc = append(slc, 77)
					want = append(want, 77)
				case 1:
					slc, want = slc[:len(slc)/2], want[:len(want)/2]
				case 2:
					slc, want = nil, nil
				}
				var err error
				if c.Bool("second writer") {
					err = w2.Write(vals...)
				} else {
					err = w.Write(vals...)
				}
				want = append(want, vals...)
				total += len(vals)
				calls = append(calls, fmt.Sprint(vals))
				if err != nil || fmt.Sprint(slc) != fmt.Sprint(want) {
					c.Fatalf("slice, calls %v: %v, %v; expected %v", calls, slc, err, want)
				}
			}
		} else {
			mp, want := map[string]int{}, map[string]int{}
			if c.Bool("not empty") {
				mp["a"], want["a"] = 1, 1
			}
			w := writer.OfMapWriter(mp)
			if c.Bool("generator") {
				w = writer.NewWriter(writer.MapWriterGen(mp))
			}
			for n := c.Range(1, 8, "calls"); n > 0; n-- {
				var vals []tuple.Two[string, int]
				for k := c.Range(0, 5, "values"); k > 0; k-- {
					kv := tuple.Of2(c.Word("key", "", "a", "b", "é", "aa"), c.Range(-9, 9, "value"))
					vals = append(vals, kv)
					want[kv.T] = kv.U
				}
				if c.Range(0, 5, "caller deletes") == 0 {
					// applies before the write, so keys of this call stay
					delete(mp, "a")
					if !func() bool {
						for _, kv := range vals {
							if kv.T == "a" {
								return true
							}
						}
						return false
					}() {
						delete(want, "a")
					}
				}
				total += len(vals)
				calls = append(calls, fmt.Sprint(vals))
				if err := w.Write(vals...); err != nil || !reflect.DeepEqual(mp, want) {
					c.Fatalf("map, calls %v: %v, %v; expected %v", calls, mp, err, want)
				}
			}
		}
		if c.Range(0, 199, "large map") == 0 {
			n, step := c.SizeOr(600, 20000, "entries"), c.Range(1, 9, "step")
			var vals []tuple.Two[int, int]
			mp := map[int]int{}
			for i := range n {
				vals = append(vals, tuple.Of2(i*step, i), tuple.Of2(i*step, -i))
			}
			if err := writer.OfMapWriter(mp).Write(vals...); err != nil || len(mp) != n {
				c.Fatalf("%d entries written to a map: %d, %v", n, len(mp), err)
			}
			for i := range n {
				if v, has := mp[i*step]; !has || v != -i {
					c.Fatalf("%d entries written to a map: %d is %d", n, i*step, v)
				}
			}
		}
		if len(calls) > 1 && total > 2 {
			c.NonTrivial("%v", calls)
		}
	})
}

// TestFunction writes with any writing function
func TestFunction(t *testing.T) {
	vt.Check(t, 10000, "writing functions that fail at drawn values; non-trivial if a value other than the first or last of a call fails", func(c *vt.C) {
		bad := map[int]error{}
		for n := c.Range(0, 3, "bad values"); n > 0; n-- {
			bad[c.Range(0, 9, "bad")] = []error{errDst, errors.New("other")}[c.Range(0, 1, "error")]
		}
		var got, want []int
		w := writer.NewWriter(func(v int) error { got = append(got, v); return bad[v] })
		interesting := false
		var calls []string
		for n := c.Range(1, 5, "calls"); n > 0; n-- {
			var vals []int
			for k := c.Range(0, 6, "values"); k > 0; k-- {
				vals = append(vals, c.Range(0, 9, "value"))
			}
			calls = append(calls, fmt.Sprint(vals))
			var exp error
			for i, v := range vals {
				want = append(want, v)
				if exp = bad[v]; exp != nil {
					interesting = interesting || i > 0 && i < len(vals)-1
					break
				}
			}
			if err := w.Write(vals...); err != exp || fmt.Sprint(got) != fmt.Sprint(want) {
				c.Fatalf("calls %v, failing %v: wrote %v, %v; expected %v, %v", calls, bad, got, err, want, exp)
			}
		}
		if interesting {
			c.NonTrivial("calls %v, failing %v", calls, bad)
		}
	})
	if _, p := vt.Panics(func() { writer.NewWriter[int](nil) }); !p {
		t.Errorf("NewWriter(nil) does not panic")
	}
}
