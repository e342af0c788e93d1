package props

import (
	"errors"
	"fmt"
	"io"

	"verif/mc"
	"verif/ref"

	"github.com/youthlin/t/translator"
)

var errInjected = errors.New("injected write error")

// faultyWriter accepts limit bytes and then misbehaves.
type faultyWriter struct {
	limit int
	kind  int // 0 error after part of the data, 1 short write without error, 2 error without accepting anything of the failing call, 3 all accepted and an error
	chunk int // > 0: report an error-free short count once a call is larger (kind 1)
	got   []byte
	fails int
	calls int
}

func (w *faultyWriter) Write(p []byte) (int, error) {
	w.calls++
	room := w.limit - len(w.got)
	if w.kind == 3 {
		w.got = append(w.got, p...)
		if len(w.got) >= w.limit {
			w.fails++
			return len(p), errInjected
		}
		return len(p), nil
	}
	if len(p) <= room {
		w.got = append(w.got, p...)
		return len(p), nil
	}
	w.fails++
	switch w.kind {
	case 0:
		w.got = append(w.got, p[:room]...)
		return room, errInjected
	case 1:
		w.got = append(w.got, p[:room]...)
		return room, nil
	case 4:
		w.got = append(w.got, p[:room]...)
		return room, io.ErrShortWrite
	case 5:
		w.got = append(w.got, p[:room]...)
		return room, io.EOF
	default:
		return 0, errInjected
	}
}

func init() {
	register("C19", func(t *mc.T) {
		long := ref.Msg{ID: "long", Str: ""}
		for i := 0; i < 400; i++ {
			long.Str += fmt.Sprintf("line %d of a long translation\n", i)
		}
		cats := [][]ref.Msg{{}, {catPool[0]}, {catPool[1]}, catPool[:5], {untransPool[2]}, append(append([]ref.Msg{}, catPool...), untransPool...), {long}}
		many := []ref.Msg{}
		for i := 0; i < 300; i++ {
			many = append(many, ref.Msg{ID: fmt.Sprint("message ", i), Str: fmt.Sprint("translation ", i)})
		}
		cats = append(cats, many)
		type saver struct {
			name string
			fn   func(*translator.File, io.Writer) error
		}
		savers := []saver{{"SaveAsPo", (*translator.File).SaveAsPo}, {"SaveAsPot", (*translator.File).SaveAsPot}, {"SaveAsMo", (*translator.File).SaveAsMo}}
		t.Explore("every-byte", func(c *mc.C) {
			ci := c.Choose(len(cats))
			s := mc.Pick(c, savers)
			f := addAll(cats[ci]...)
			full := save(c, func(w io.Writer) error { return s.fn(f, w) }, s.name)
			kind := c.Choose(6)
			at := 0
			if len(full) > 3000 && c.Quick() {
				at = c.Choose(300) * (len(full) + 299) / 300
				at += c.Choose(2)
			} else {
				at = c.Choose(len(full) + 2)
			}
			w := &faultyWriter{limit: at, kind: kind}
			shape := c.Choose(len(shapes))
			c.Step()
			c.State(s.name, fmt.Sprint(ci, kind, at, shape))
			err := s.fn(f, shapes[shape](w))
			c.Logf("%s of %d bytes, destination fails at byte %d in way %d: error %v after %d bytes", s.name, len(full), at, kind, err, len(w.got))
			got := string(w.got)
			if len(got) > len(full) || full[:len(got)] != got {
				c.Fail("%s to a destination that fails at byte %d (way %d): what was received is not the beginning of the file\n%q\n%q", s.name, at, kind, got, full)
			}
			if w.fails > 0 && err == nil {
				c.Fail("%s to a destination that fails at byte %d of %d (way %d) reports no error", s.name, at, len(full), kind)
			}
			if err == nil && got != full {
				c.Fail("%s to a destination that takes %d bytes reports no error, but %d of %d bytes arrived", s.name, at, len(got), len(full))
			}
			if w.fails == 0 && err != nil {
				c.Fail("%s: error %v though the destination took everything", s.name, err)
			}
			c.Outcome(fmt.Sprintf("error=%v", err != nil))
			// the catalogue is unharmed: saving again gives the same
			if again := save(c, func(w io.Writer) error { return s.fn(f, w) }, s.name); again != full {
				c.Fail("%s after a failed save gives other bytes", s.name)
			}
		}, mc.Bound("8 catalogues x 3 formats x 6 kinds of failure x 3 sets of methods (io.StringWriter, io.ReaderFrom, ...) at every byte (large files in the quick tier: 600 places)"))
		t.Explore("failure-then-recovery", func(c *mc.C) {
			// a destination that fails once and then takes everything again
			s := mc.Pick(c, savers)
			f := addAll(mc.Pick(c, cats[:6])...)
			full := save(c, func(w io.Writer) error { return s.fn(f, w) }, s.name)
			at := c.Choose(len(full) + 1)
			w := &faultyWriter{limit: at, kind: c.Choose(2)}
			rec := writerFunc(func(p []byte) (int, error) {
				n, err := w.Write(p)
				w.limit = 1 << 30
				return n, err
			})
			c.Step()
			err := s.fn(f, rec)
			c.State(s.name, fmt.Sprint(at, w.kind), full[:min(20, len(full))])
			if w.fails > 0 && err == nil {
				c.Fail("%s to a destination that failed once at byte %d reports no error", s.name, at)
			}
			if got := string(w.got); len(got) > len(full) || full[:len(got)] != got {
				c.Fail("%s to a destination that failed once at byte %d went on writing: %q", s.name, at, got)
			}
		})
	}, "destinations that break the contract of io.Writer by counting more bytes than they were given are excluded")
}

// shapes are destinations with more methods than Write; all behave the same.
var shapes = []func(w *faultyWriter) io.Writer{
	func(w *faultyWriter) io.Writer { return w },
	func(w *faultyWriter) io.Writer {
		return struct {
			io.Writer
			io.StringWriter
			io.ByteWriter
		}{w, oddWriter{w}, oddWriter{w}}
	},
	func(w *faultyWriter) io.Writer {
		return struct {
			io.Writer
			io.ReaderFrom
		}{w, oddWriter{w}}
	},
}

type oddWriter struct{ w *faultyWriter }

func (o oddWriter) WriteString(s string) (int, error) { return o.w.Write([]byte(s)) }
func (o oddWriter) WriteByte(b byte) error {
	n, err := o.w.Write([]byte{b})
	if n == 0 && err == nil {
		return io.ErrShortWrite
	}
	return err
}
func (o oddWriter) ReadFrom(r io.Reader) (int64, error) {
	data, err := io.ReadAll(r)
	if err != nil {
		return 0, err
	}
	n, err := o.w.Write(data)
	if n < len(data) && err == nil {
		err = io.ErrShortWrite
	}
	return int64(n), err
}

type writerFunc func(p []byte) (int, error)

func (f writerFunc) Write(p []byte) (int, error) { return f(p) }
