package mc

import (
	"bufio"
	"errors"
	"fmt"
	"io"
)

// ErrCustom is an error that is neither EOF nor EOI
var ErrCustom = errors.New("injected problem")

// ErrWrapsEOF is a problem that is not the end of the data although it wraps it
var ErrWrapsEOF = fmt.Errorf("connection lost: %w", io.EOF)

// Ends are the ways a reader can end: the end of the data, and problems
var Ends = []error{io.EOF, ErrCustom, ErrWrapsEOF, io.ErrUnexpectedEOF}

// Reader is an io.Reader whose answers are choice points. The default answer is to give all that is asked for.
type Reader struct {
	C       *C
	Data    []byte
	End     error // error at the end of the data
	Pos     int
	zeros   int
	over    bool
	Reads   int
	Closed  int
	MaxRead int // fail when read more often than this (0 = 2000)
}

func (r *Reader) Read(p []byte) (int, error) {
	if r.Reads++; r.Reads > 2000 {
		r.C.Fail("endless-reads", "the source was read more than 2000 times")
	}
	if len(p) == 0 {
		return 0, nil
	}
	if r.over {
		return 0, r.End
	}
	rem := len(r.Data) - r.Pos
	if rem == 0 {
		if r.zeros < 1 && r.C.Deviate(2) == 1 {
			r.zeros++
			r.C.Op("Read(%d)=(0,nil)", len(p))
			return 0, nil
		}
		r.over = true
		r.C.Op("Read(%d)=(0,%v)", len(p), r.End)
		return 0, r.End
	}
	full := rem
	if len(p) < full {
		full = len(p)
	}
	// answers: 0 full; then 1..full-1 bytes; (0, nil); full with the end error when this is all that remains
	var n int
	opts := full // full, 1..full-1
	zero, with := -1, -1
	if r.zeros < 1 {
		zero = opts
		opts++
	}
	if full == rem {
		with = opts
		opts++
	}
	switch a := r.C.Deviate(opts); {
	case a == 0:
		n = full
	case a == zero:
		r.zeros++
		r.C.Op("Read(%d)=(0,nil)", len(p))
		return 0, nil
	case a == with:
		n = copy(p, r.Data[r.Pos:])
		r.Pos += n
		r.over = true
		r.C.Op("Read(%d)=(%d,%v)", len(p), n, r.End)
		return n, r.End
	default:
		n = a
	}
	r.zeros = 0
	copy(p[:n], r.Data[r.Pos:])
	r.Pos += n
	r.C.Op("Read(%d)=(%d,nil)", len(p), n)
	return n, nil
}

// CloseReader is a Reader that can be closed
type CloseReader struct {
	Reader
	CloseErr error
}

func (r *CloseReader) Close() error {
	r.Closed++
	r.C.Op("Close()=%v", r.CloseErr)
	return r.CloseErr
}

var _ io.Reader = (*Reader)(nil)

// Writer is an io.Writer whose answers are choice points: accept everything, or accept a prefix (k bytes, k < len) with
// an error. After a failed write nothing more is accepted.
type Writer struct {
	C      *C
	Got    []byte
	Failed error
	Writes int
	After  int // writes after a failure
}

func (w *Writer) Write(p []byte) (int, error) {
	w.Writes++
	if w.Failed != nil {
		w.After++
		return 0, w.Failed
	}
	// 0: all. 1..len(p): fail after k = 0..len(p)-1 bytes
	opts := len(p) + 1
	if opts > 5 {
		opts = 5
	}
	if opts == 1 {
		opts = 2 // an empty write can fail as well
	}
	a := w.C.Deviate(opts)
	if a == 0 {
		w.Got = append(w.Got, p...)
		return len(p), nil
	}
	k := 0
	switch a {
	case 1:
		k = 0
	case 2:
		k = 1
	case 3:
		k = len(p) / 2
	case 4:
		k = len(p) - 1
	}
	if k >= len(p) {
		k = 0
	}
	w.Got = append(w.Got, p[:k]...)
	w.Failed = ErrCustom
	w.C.Op("Write(%d bytes)=(%d,%v)", len(p), k, w.Failed)
	return k, w.Failed
}

// Show formats a value and an error
func Show(v any, err error) string { return fmt.Sprintf("(%#v, %v)", v, err) }

// Lengths are all small lengths, and those around every power of two up to a maximum, where buffers and tables grow
func Lengths(max int) (res []int) {
	for n := 0; n <= 66 && n <= max; n++ {
		res = append(res, n)
	}
	for p := 128; p-1 <= max; p *= 2 {
		res = append(res, p-1, p, p+1)
	}
	return
}

// Chunks delivers data in reads of at most Size bytes (0 = all that fits), then End, along with the last of the data if With.
// If Size is negative, every second read, beginning with the first, gives no data and no error.
type Chunks struct {
	Data []byte
	Size int
	End  error
	With bool
	idle bool
}

func (r *Chunks) Read(p []byte) (n int, err error) {
	if len(p) == 0 {
		return 0, nil
	}
	size := r.Size
	if size < 0 {
		size = -size
		if r.idle = !r.idle; r.idle {
			return 0, nil
		}
	}
	if size > 0 && len(p) > size {
		p = p[:size]
	}
	n = copy(p, r.Data)
	r.Data = r.Data[n:]
	if n == 0 || (r.With && len(r.Data) == 0) {
		err = r.End
	}
	return
}

// NewChunks chooses how data is delivered and how it ends
func NewChunks(c *C, data string, ends ...error) *Chunks {
	r := &Chunks{Data: []byte(data), Size: Pick(c, []int{0, 1, 7, 4096, -7}), End: Pick(c, ends), With: c.Bool()}
	c.Op("%d bytes in reads of %d, then %v, along with data: %t", len(data), r.Size, r.End, r.With)
	return r
}

type richCloser struct {
	*bufio.Reader
	io.Closer
}

// RichReader gives a reader all the other methods that readers may have (to read bytes and runes, put them back, write
// to a writer), which keep to what the reader answers. It can be closed if the reader can be.
func RichReader(r io.Reader) io.Reader {
	b := bufio.NewReaderSize(r, 16)
	if cl, isa := r.(io.Closer); isa {
		return richCloser{b, cl}
	}
	return b
}

type richWriter struct {
	io.Writer
}

func (w richWriter) WriteString(s string) (int, error) {
	return w.Write([]byte(s))
}

func (w richWriter) WriteRune(r rune) (int, error) {
	return w.Write([]byte(string(r)))
}

func (w richWriter) WriteByte(b byte) error {
	n, err := w.Write([]byte{b})
	if n == 0 && err == nil {
		err = io.ErrShortWrite
	}
	return err
}

func (w richWriter) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{w.Writer}, struct{ io.Reader }{r})
}

func (w richWriter) Flush() error {
	return nil
}

// RichWriter gives a writer all the other methods that writers may have, which keep to what the writer answers
func RichWriter(w io.Writer) io.Writer {
	return richWriter{w}
}

// OwnIter is an iterator of a type that micro does not know
type OwnIter[T any] struct {
	fn     func() (T, error)
	unread []T
	err    error
}

// NewOwnIter makes an iterator of a function, that is not called again after its end
func NewOwnIter[T any](fn func() (T, error)) *OwnIter[T] { return &OwnIter[T]{fn: fn} }

// OwnIterOf makes an iterator of values and an end
func OwnIterOf[T any](end error, vals ...T) *OwnIter[T] {
	at := 0
	return NewOwnIter(func() (v T, err error) {
		if at == len(vals) {
			return v, end
		}
		at++
		return vals[at-1], nil
	})
}

// Next returns what was put back, or the next value
func (it *OwnIter[T]) Next() (v T, err error) {
	if n := len(it.unread); n > 0 {
		v, it.unread = it.unread[n-1], it.unread[:n-1]
		return v, nil
	}
	if it.err == nil {
		v, it.err = it.fn()
	}
	return v, it.err
}

// Unread puts a value back
func (it *OwnIter[T]) Unread(v T) { it.unread = append(it.unread, v) }
