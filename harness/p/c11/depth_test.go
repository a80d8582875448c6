package c11

import (
	"strings"
	"testing"

	mj "github.com/bantling/micro/encoding/json"
	"github.com/bantling/micro/encoding/json/parse"
	"github.com/bantling/micro/iter"
	"verif/harness/vt"
)

// the number of levels of nesting the parser has always coped with
const supported = 100_000

// TestHugeDepth parses documents so deep that a parser that descends without limit exhausts its stack, which kills the process.
// More than the supported number of levels may be refused, but if accepted, the value must be right.
func TestHugeDepth(t *testing.T) {
	vt.Check(t, 14, "documents of 90,000 to 3,000,000 levels of arrays and objects, complete, cut or unbalanced, of one or several branches, or of as many shallow elements; non-trivial always", func(c *vt.C) {
		n := c.Range(90_000, supported-2, "depth")
		if c.Bool("deeper") {
			n = c.Range(supported+1, 3_000_000, "depth")
		} else if c.Bool("limit") {
			n = supported
		}
		kinds := c.Range(1, 63, "kinds") // level i is an array if bit i%6 is set
		isArr := func(i int) bool { return kinds>>(i%6)&1 == 1 }
		var b strings.Builder
		sibling := c.Bool("siblings") && n != supported // a shallow element before the deep one; one level more than the deep one has at that place
		for i := 0; i < n; i++ {
			if isArr(i) {
				b.WriteByte('[')
				if sibling && i%7 == 0 {
					b.WriteString(`[],`)
				}
			} else {
				b.WriteByte('{')
				if sibling && i%7 == 0 {
					b.WriteString(`"b":{},`)
				}
				b.WriteString(`"a":`)
			}
		}
		b.WriteByte('0')
		closed := n
		switch c.Range(0, 3, "end") {
		case 0:
			closed = c.Range(0, n, "closed")
		case 1:
			closed = n + 1
		}
		if closed > n {
			b.Reset()
			b.WriteString(strings.Repeat("[", n) + strings.Repeat("]", closed))
		} else {
			for i := n - 1; i >= n-closed; i-- {
				if isArr(i) {
					b.WriteByte(']')
				} else {
					b.WriteByte('}')
				}
			}
		}
		doc := b.String()
		v, err := parse.Parse(strings.NewReader(doc))
		it := parse.Iterate(strings.NewReader(doc))
		elements := 0
		var last mj.Value
		ierr := error(nil)
		for ierr == nil {
			var e mj.Value
			if e, ierr = it.Next(); ierr == nil {
				last = e
				elements++
			}
		}
		c.NonTrivial("%d levels, %d closed, kinds %b, siblings %v", n, closed, kinds, sibling)
		c.Class("deeper than supported %v, complete %v", n > supported, closed == n)
		if (err == nil) != (ierr == iter.EOI) {
			c.Fatalf("%d levels: Parse yields the error %v, Iterate %v", n, err, ierr)
		}
		if err != nil {
			if closed == n && n <= supported {
				c.Fatalf("a valid document of %d levels is rejected: %v", n, err)
			}
			if v.Type() != mj.Invalid {
				c.Fatalf("%d levels: Parse yields both a value and the error %v", n, err)
			}
			return
		}
		if closed != n {
			c.Fatalf("a document of %d levels of which %d are closed is accepted", n, closed)
		}
		descend := func(v mj.Value, from int) {
			for i := from; i < n; i++ {
				want, size := 1, 0
				if sibling && i%7 == 0 {
					want = 2
				}
				if isArr(i) {
					s := v.AsSlice()
					if size = len(s); size == want {
						v = s[size-1]
					}
				} else {
					m := v.AsMap()
					if size = len(m); size == want {
						v = m["a"]
					}
				}
				if size != want {
					c.Fatalf("%d levels: level %d has %d elements, expected %d", n, i, size, want)
				}
			}
			if v.Type() != mj.Number || v.AsNumber() != "0" {
				c.Fatalf("%d levels: the innermost value is a %v", n, v.Type())
			}
		}
		descend(v, 0)
		if isArr(0) {
			want := 1
			if sibling {
				want = 2
			}
			if elements != want {
				c.Fatalf("%d levels: Iterate yields %d elements, expected %d", n, elements, want)
			}
			descend(last, 1)
		} else {
			descend(last, 0)
		}
	})
}

// TestManyShallow parses more arrays and objects than may be nested, next to each other
func TestManyShallow(t *testing.T) {
	vt.Check(t, 4, "arrays of 100,001 to 300,000 elements that are empty or small arrays and objects, at a drawn depth; non-trivial always", func(c *vt.C) {
		n := c.Range(supported+1, 3*supported, "elements")
		depth := c.Range(0, 5, "depth")
		kind := c.Range(1, 7, "kinds")
		els := []string{"[]", "{}", "[[]]", `{"a":{}}`, `[{"b":[]},{}]`, "1"}
		doc := strings.Repeat("[", depth+1) + strings.Repeat(els[kind%6]+","+els[kind%5]+",", n/2) + "7" + strings.Repeat("]", depth+1)
		v, err := parse.Parse(strings.NewReader(doc))
		if err != nil {
			c.Fatalf("%d elements like %s and %s: %v", n, els[kind%6], els[kind%5], err)
		}
		for ; depth > 0; depth-- {
			v = v.AsSlice()[0]
		}
		s := v.AsSlice()
		if len(s) != n/2*2+1 || s[len(s)-1].AsNumber() != "7" {
			c.Fatalf("%d elements like %s and %s: %d elements", n, els[kind%6], els[kind%5], len(s))
		}
		c.NonTrivial("%d elements like %s and %s", n, els[kind%6], els[kind%5])
	})
}
