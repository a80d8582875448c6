// Package iox has readers that behave in all the ways io.Reader allows.
package iox

import (
	"bufio"
	"errors"
	"io"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// Reader returns data in pieces of drawn sizes and ends with an error.
type Reader struct {
	Data   string
	End    error
	pieces []int // 0 is a read of nothing without error
	at     int
	piece  int
	with   bool // the error comes along with the last bytes
	Ended  bool
	// reads after the end
	After int
	// reads after the end yield bytes again, as those of a file that grows and of a connection that timed out do
	revives bool
	// Closed counts calls of Close of a Closer
	Closed   int
	CloseErr error
	rich     int
}

// DrawReader draws the behaviour of a reader.
func DrawReader(t *rapid.T, data string, end error) *Reader {
	r := &Reader{Data: data, End: end, with: rapid.Bool().Draw(t, "error with data")}
	switch rapid.IntRange(0, 4).Draw(t, "reader") {
	case 0: // everything asked for
	case 1:
		r.pieces = []int{1}
	case 2:
		r.pieces = []int{0, 1, 0, 2}
	case 3: // as buffers and network packets
		r.pieces = rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 3, 511, 512, 1460, 4095, 4096, 4097}), 1, 4).Draw(t, "large pieces")
		r.pieces = append(r.pieces, 1)
	default:
		r.pieces = rapid.SliceOfN(rapid.IntRange(0, 5), 1, 8).Draw(t, "pieces")
		r.pieces = append(r.pieces, 1)
	}
	if k := rapid.IntRange(0, 7).Draw(t, "rich"); k < 3 {
		r.rich = k
	}
	r.revives = rapid.IntRange(0, 2).Draw(t, "revives") == 0
	return r
}

// NewReader returns data in pieces of the sizes given, over and over, or all at once if there are none.
func NewReader(data string, end error, with bool, pieces ...int) *Reader {
	return &Reader{Data: data, End: end, with: with, pieces: pieces}
}

// Stays makes the reader stay at its end.
func (r *Reader) Stays() *Reader {
	r.revives = false
	return r
}

// Revive makes reads after the end yield bytes again from now on.
func (r *Reader) Revive() {
	r.revives, r.After = true, 0
}

func (r *Reader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if r.Ended {
		r.After++
		if r.revives && r.After < 3 {
			return copy(p, r.Data+"1\n"), nil
		}
		return 0, r.End
	}
	n := min(len(p), len(r.Data)-r.at)
	if len(r.pieces) > 0 {
		n = min(n, r.pieces[r.piece%len(r.pieces)])
		r.piece++
	}
	copy(p[:n], r.Data[r.at:])
	// what lies behind the bytes read is scratch space
	for k := n; k < len(p); k++ {
		p[k] = 0xAA
	}
	r.at += n
	if r.at == len(r.Data) && (n == 0 || r.with) {
		r.Ended = true
		return n, r.End
	}
	return n, nil
}

// Closer is a Reader with a Close method.
type Closer struct{ *Reader }

// Close counts
func (c Closer) Close() error {
	c.Closed++
	return c.CloseErr
}

var _ io.ReadCloser = Closer{}

// Rich is a Reader that can also be read in other ways, as those of the standard library can.
type Rich struct {
	*Reader
	pending error
	back    int // how many bytes of before are to be read again
}

// before is what somebody else has read of a Rich already
const before = "[read before], "

// Read reads
func (r *Rich) Read(p []byte) (int, error) {
	if err := r.pending; err != nil && len(p) > 0 {
		r.pending = nil
		return 0, err
	}
	if r.back > 0 {
		n := copy(p, before[len(before)-r.back:])
		r.back -= n
		return n, nil
	}
	return r.Reader.Read(p)
}

// Seek goes to another position of all bytes, of which the first have been read before
func (r *Rich) Seek(offset int64, whence int) (int64, error) {
	at := int64(len(before) - r.back + r.at)
	switch whence {
	case io.SeekStart:
		at = 0
	case io.SeekEnd:
		at = int64(len(before) + len(r.Data))
	}
	if at += offset; at < 0 {
		return 0, errors.New("a negative position")
	}
	if offset != 0 || whence != io.SeekCurrent {
		r.pending = nil
		r.back = max(0, len(before)-int(at))
		r.at = min(max(0, int(at)-len(before)), len(r.Data))
	}
	return at, nil
}

// ReadAt reads at another position of all bytes
func (r *Rich) ReadAt(p []byte, off int64) (int, error) {
	return strings.NewReader(before+r.Data).ReadAt(p, off)
}

// ReadByte reads a byte
func (r *Rich) ReadByte() (byte, error) {
	var p [1]byte
	for {
		n, err := r.Read(p[:])
		if n == 1 {
			r.pending = err
			return p[0], nil
		}
		if err != nil {
			return 0, err
		}
	}
}

// ReadRune reads a rune as a bufio.Reader does
func (r *Rich) ReadRune() (rune, int, error) {
	b, err := r.ReadByte()
	if err != nil {
		return 0, 0, err
	}
	c, n := utf8.DecodeRuneInString(string([]byte{b}) + r.Data[r.at:])
	for range n - 1 {
		if _, err := r.ReadByte(); err != nil {
			panic(err)
		}
	}
	return c, n, nil
}

// WriteTo writes what is left
func (r *Rich) WriteTo(w io.Writer) (n int64, err error) {
	for {
		b, err := r.ReadByte()
		if err == io.EOF {
			return n, nil
		} else if err != nil {
			return n, err
		}
		if _, err := w.Write([]byte{b}); err != nil {
			return n, err
		}
		n++
	}
}

// Len is how many bytes are left
func (r *Rich) Len() int { return len(r.Data) - r.at }

// RichCloser is a Rich that can be closed
type RichCloser struct{ *Rich }

// Close counts
func (r RichCloser) Close() error { return Closer{r.Reader}.Close() }

// As is the reader itself, or a richer one with the same bytes
func (r *Reader) As() io.Reader {
	switch r.rich {
	case 1:
		return &Rich{Reader: r}
	case 2:
		return bufio.NewReaderSize(r, 16)
	}
	return r
}

// AsCloser is the same with a Close method
func (r *Reader) AsCloser() io.Reader {
	if r.rich == 1 {
		return RichCloser{&Rich{Reader: r}}
	}
	return Closer{r}
}
