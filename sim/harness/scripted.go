//go:build go1.21

package main

// Scripted parties around the library: renderers, readers and writers whose
// every reply (how much, which error, when) is decided by the run's Spec.

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math"
	"os"
	"syscall"

	"gonum.org/v1/gonum/spatial/r3"
)

// failures a renderer, reader or writer may report besides its own.
var failNames = []string{"fail", "ueof", "shortbuf", "noprogress", "shortwrite", "pipe", "closed", "timeout", "canceled", "eintr", "enospc"}

var errBase = errors.New("scripted failure")
var errScripted = fmt.Errorf("injected: %w", errBase)

func scriptErr(name string) error {
	switch name {
	case "":
		return nil
	case "eof":
		return io.EOF
	case "ueof":
		return io.ErrUnexpectedEOF
	case "shortbuf":
		return io.ErrShortBuffer
	case "noprogress":
		return io.ErrNoProgress
	case "shortwrite":
		return io.ErrShortWrite
	case "pipe":
		return io.ErrClosedPipe
	case "closed":
		return &fs.PathError{Op: "read", Path: "model", Err: fs.ErrClosed}
	case "timeout":
		return os.ErrDeadlineExceeded
	case "canceled":
		return context.Canceled
	case "eintr":
		return syscall.EINTR
	case "enospc":
		return &fs.PathError{Op: "write", Path: "model", Err: syscall.ENOSPC}
	}
	return errScripted
}

// scriptRenderer is a Renderer that conforms to the ReadTriangles contract but
// is free to return short and empty reads, to use the unused tail of the
// buffer as scratch space, and to return its last triangles together with
// io.EOF or an error.
type scriptRenderer struct {
	tris      []r3.Triangle
	steps     script
	pos       int
	end       error // sticky result once ended
	delivered []r3.Triangle
	withEOF   bool // last triangles come together with io.EOF
	scribble  bool
	failed    error
	afterEnd  int
}

var garbage = r3.Triangle{{X: 1e30, Y: -7, Z: math.Pi}, {X: -1e30, Y: 8, Z: 2}, {X: 5, Y: 1e30, Z: 3}}

func (s *scriptRenderer) ReadTriangles(t []r3.Triangle) (int, error) {
	simYield()
	if s.end != nil {
		s.afterEnd++
		return 0, s.end
	}
	st := s.steps.next()
	n := len(t)
	if st.N >= 0 && st.N < n {
		n = st.N
	}
	if rem := len(s.tris) - s.pos; n > rem {
		n = rem
	}
	copy(t, s.tris[s.pos:s.pos+n])
	if s.scribble {
		for i := n; i < len(t) && i < n+64; i++ {
			t[i] = garbage
		}
	}
	s.delivered = append(s.delivered, t[:n]...)
	s.pos += n
	simYield()
	if st.Err == "once" { // gone when asked again
		s.failed = scriptErr(st.Err)
		return n, s.failed
	}
	if st.Err != "" && st.Err != "eof" {
		s.failed = scriptErr(st.Err)
		s.end = s.failed
		return n, s.end
	}
	if s.pos == len(s.tris) && (n == 0 || s.withEOF) {
		s.end = io.EOF
		return n, io.EOF
	}
	return n, nil
}

// scriptWriter accepts what its script says.
type scriptWriter struct {
	got    []byte
	steps  script
	failed error // first error returned
	short  bool  // returned n < len without error at some time
	sticky bool
	max    int
}

func (w *scriptWriter) Write(p []byte) (int, error) {
	simYield()
	if w.failed != nil && w.sticky {
		return 0, w.failed
	}
	st := w.steps.next()
	n := len(p)
	if st.N >= 0 && st.N < n {
		n = st.N
	}
	w.got = append(w.got, p[:n]...)
	if len(p) > w.max {
		w.max = len(p)
	}
	simYield()
	switch st.Err {
	case "short":
		if n < len(p) {
			w.short = true
		}
		return n, nil
	case "":
		if n < len(p) {
			// A conforming writer reports why it stopped.
			if w.failed == nil {
				w.failed = errScripted
			}
			return n, errScripted
		}
		return n, nil
	}
	err := scriptErr(st.Err)
	if w.failed == nil {
		w.failed = err
	}
	return n, err
}

// scriptReader delivers data in fragments.
type scriptReader struct {
	data    []byte
	steps   []Step
	call    int
	pos     int
	withEOF bool
	end     error
	failed  error
	max     int // largest fragment, 0 = unlimited
}

func (s *scriptReader) Read(p []byte) (int, error) {
	simYield()
	if s.end != nil {
		return 0, s.end
	}
	if len(p) == 0 {
		return 0, nil
	}
	st := Step{N: -1}
	if len(s.steps) > 0 {
		st = s.steps[s.call%len(s.steps)]
		if st.Err != "" && s.call >= len(s.steps) {
			st.Err = ""
		}
	}
	s.call++
	n := len(p)
	if st.N >= 0 && st.N < n {
		n = st.N
	}
	if n == 0 && s.call > 3*len(s.steps)+3 {
		n = 1
	}
	if rem := len(s.data) - s.pos; n > rem {
		n = rem
	}
	copy(p, s.data[s.pos:s.pos+n])
	s.pos += n
	simYield()
	if st.Err != "" && st.Err != "eof" {
		s.failed = scriptErr(st.Err)
		s.end = s.failed
		return n, s.end
	}
	if s.pos == len(s.data) && (s.withEOF || n == 0) {
		s.end = io.EOF
		return n, io.EOF
	}
	return n, nil
}
