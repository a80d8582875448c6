package c29

import (
	"strings"
	"testing"
	"unicode"
	"unicode/utf8"

	"github.com/bantling/micro/funcs"
	"verif/harness/vt"
)

// pairs of letters that are each other's only upper and lower case
var lowers = []rune{'a', 'b', 'i', 'k', 'z', 'é', 'ñ', 'ß' + 1, 'ā', 'ж', 'я', 'ё', 'α', 'ω', 'ա', '𐐨', 'ɐ', 'ꙁ', 'ǆ', 'ǌ', 'ǳ', 'ⱥ', 'ÿ'}

// lower case letters without an upper case of their own, and a title case letter, which is neither upper nor lower case
var inner = []rune{'ß', 'ς', 'ſ', 'ŉ', 'ı', 'µ', 'ǅ', 'ᾼ', 'ĸ', 'ﬁ'}

// characters that have no case
var uncased = []rune{'0', '7', '9', '日', 'ª', '-', '$', '.', 'א', '٣', '\u0301', ' ', '😀', '\n'}

func up(r rune) rune { return unicode.ToUpper(r) }

// drawWord draws a word of lower case and uncased characters.
func drawWord(c *vt.C, letterFirst bool) string {
	var sb strings.Builder
	for n, i := c.Range(1, 6, "length"), 0; i < n; i++ {
		switch k := c.Range(0, 9, "kind"); {
		case k < 5:
			sb.WriteRune(rune('a' + c.Range(0, 25, "letter")))
		case k < 7 || i == 0 && letterFirst:
			sb.WriteRune(lowers[c.Range(0, len(lowers)-1, "letter")])
		case k == 9 && i > 0:
			sb.WriteRune(inner[c.Range(0, len(inner)-1, "inner")])
		default:
			sb.WriteRune(uncased[c.Range(0, len(uncased)-1, "uncased")])
		}
	}
	return sb.String()
}

// capital is the word with the first character in upper case.
func capital(w string) string {
	r, n := utf8.DecodeRuneInString(w)
	return string(up(r)) + w[n:]
}

func isASCII(s string) bool { return strings.IndexFunc(s, func(r rune) bool { return r > 127 }) < 0 }

// TestRoundTrip goes from words to both forms of name, in every accepted spelling, and back.
func TestRoundTrip(t *testing.T) {
	vt.Check(t, 40000, "names of 1 to 6 words that start with a letter that has two cases and go on with lower case letters of several alphabets, digits and other uncased characters, written with and without capitals; non-trivial if of at least two words, one with a character that is not an ASCII letter", func(c *vt.C) {
		n := c.Range(1, 6, "words")
		words, mixed, camel := make([]string, n), make([]string, n), ""
		for i := range words {
			words[i] = drawWord(c, true)
			mixed[i] = words[i]
			if c.Bool("capital") {
				mixed[i] = capital(words[i])
			}
			camel += capital(words[i])
		}
		snake, given := strings.Join(words, "_"), strings.Join(mixed, "_")
		if got := funcs.SnakeToCamelCase(given); got != camel {
			c.Fatalf("SnakeToCamelCase(%q) is %q, expected %q", given, got, camel)
		}
		lower := words[0] + strings.TrimPrefix(camel, capital(words[0]))
		for _, in := range []string{camel, lower} {
			if got := funcs.CamelCaseToSnakeCase(in); got != snake {
				c.Fatalf("CamelCaseToSnakeCase(%q) is %q, expected %q", in, got, snake)
			}
		}
		// both are their own inverse on their results
		if got := funcs.SnakeToCamelCase(funcs.CamelCaseToSnakeCase(lower)); got != camel {
			c.Fatalf("%q to snake case and back is %q", lower, got)
		}
		if got := funcs.SnakeToCamelCase(camel); got != camel {
			c.Fatalf("SnakeToCamelCase(%q) is %q", camel, got)
		}
		ascii := isASCII(snake)
		c.Class("words %d ASCII %v", n, ascii)
		if n > 1 && strings.IndexFunc(snake, func(r rune) bool { return r != '_' && (r < 'a' || r > 'z') }) >= 0 {
			c.NonTrivial("%q", snake)
		}
	})
}

// TestSnakeUnderscores adds leading, trailing and repeated underscores, and words that do not start with a letter.
func TestSnakeUnderscores(t *testing.T) {
	vt.Check(t, 20000, "up to 6 words of any characters, upper case included, and runs of 0 to 3 underscores around and between them; non-trivial if underscores lead, trail or are repeated", func(c *vt.C) {
		var sb strings.Builder
		want := ""
		odd := false
		n := c.Range(0, 6, "words")
		run := func(min int) {
			k := c.Range(min, 3, "underscores")
			odd = odd || k > min
			sb.WriteString(strings.Repeat("_", k))
		}
		run(0)
		for i := 0; i < n; i++ {
			if i > 0 {
				run(1)
			}
			w := drawWord(c, false)
			if c.Range(0, 2, "inner capital") == 0 {
				w += capital(drawWord(c, true))
			}
			sb.WriteString(w)
			want += capital(w)
		}
		run(0)
		if got := funcs.SnakeToCamelCase(sb.String()); got != want {
			c.Fatalf("SnakeToCamelCase(%q) is %q, expected %q", sb.String(), got, want)
		}
		if odd {
			c.NonTrivial("%q", sb.String())
		}
	})
}

// TestCamelAny takes any camel case: capitals in a row, names that start without a letter.
func TestCamelAny(t *testing.T) {
	vt.Check(t, 20000, "any sequence of capitals, lower case letters and uncased characters; non-trivial if two capitals are adjacent or the first character has no case", func(c *vt.C) {
		var in, want strings.Builder
		n := c.Range(0, 10, "length")
		prevCap, hard := false, false
		for i := 0; i < n; i++ {
			var r rune
			switch k := c.Range(0, 4, "kind"); {
			case k < 2:
				r = lowers[c.Range(0, len(lowers)-1, "letter")]
				isCap := c.Bool("capital")
				if isCap {
					in.WriteRune(up(r))
				} else {
					in.WriteRune(r)
				}
				if isCap && i > 0 {
					want.WriteByte('_')
					hard = hard || prevCap
				}
				prevCap = isCap
			case k == 2:
				r = rune('a' + c.Range(0, 25, "letter"))
				in.WriteRune(r)
				prevCap = false
			case k == 3 && i > 0:
				r = inner[c.Range(0, len(inner)-1, "inner")]
				in.WriteRune(r)
				prevCap = false
			default:
				r = uncased[c.Range(0, len(uncased)-1, "uncased")]
				in.WriteRune(r)
				prevCap = false
				hard = hard || i == 0
			}
			want.WriteRune(r)
		}
		if got := funcs.CamelCaseToSnakeCase(in.String()); got != want.String() {
			c.Fatalf("CamelCaseToSnakeCase(%q) is %q, expected %q", in.String(), got, want.String())
		}
		if hard {
			c.NonTrivial("%q", in.String())
		}
	})
}

// every short name
func TestAllShort(t *testing.T) {
	vt.All(t, 2000000, "every name of up to 6 of a, A, b, underscore, 1, é, É, ж, Ж, ß; non-trivial if of at least 4 characters", func(c *vt.C) {
		name := c.Seq(6, "a", "A", "b", "_", "1", "é", "É", "ж", "Ж", "ß")
		camel := ""
		for _, w := range strings.Split(name, "_") {
			if w != "" {
				camel += capital(w)
			}
		}
		if got := funcs.SnakeToCamelCase(name); got != camel {
			c.Fatalf("SnakeToCamelCase(%q) is %q, expected %q", name, got, camel)
		}
		if !strings.Contains(name, "_") {
			snake := ""
			for i, r := range name {
				if unicode.IsUpper(r) && i > 0 {
					snake += "_"
				}
				snake += string(unicode.ToLower(r))
			}
			if got := funcs.CamelCaseToSnakeCase(name); got != snake {
				c.Fatalf("CamelCaseToSnakeCase(%q) is %q, expected %q", name, got, snake)
			}
		}
		if utf8.RuneCountInString(name) >= 4 {
			c.NonTrivial("%q", name)
		}
	})
}

// TestLarge has names of more and longer words than the other tests
func TestLarge(t *testing.T) {
	vt.Check(t, 600, "names of up to 300 words of up to 100 characters, or once in a while 10000 of either; non-trivial if of more than 32 characters", func(c *vt.C) {
		n, size := c.Size(300, "words")+1, c.Size(100, "size")+1
		switch c.Range(0, 24, "huge") {
		case 0:
			n, size = c.Size(10000, "words")+1, c.Size(5, "size")+1
		case 1:
			n, size = c.Size(5, "words")+1, c.Size(10000, "size")+1
		}
		mul := c.Range(1, 50, "mul")
		alphabet := append([]rune{}, uncased...)
		for i := range 26 {
			alphabet = append(alphabet, 'a'+rune(i), lowers[i%len(lowers)])
		}
		words, camel := make([]string, n), ""
		var sb strings.Builder
		for i := range words {
			w := []rune{lowers[i*mul%len(lowers)]}
			if i%3 > 0 {
				w[0] = rune('a' + i*mul%26)
			}
			for k := 1; k < size; k++ {
				w = append(w, alphabet[(i+k*mul)%len(alphabet)])
			}
			words[i] = string(w)
			sb.WriteString(capital(words[i]))
		}
		camel = sb.String()
		snake := strings.Join(words, "_")
		if got := funcs.SnakeToCamelCase(snake); got != camel {
			c.Fatalf("SnakeToCamelCase(%q) is %q, expected %q", snake, got, camel)
		}
		if got := funcs.CamelCaseToSnakeCase(camel); got != snake {
			c.Fatalf("CamelCaseToSnakeCase(%q) is %q, expected %q", camel, got, snake)
		}
		if len(snake) > 32 {
			c.NonTrivial("%d %d %d", n, size, mul)
		}
	})
}
