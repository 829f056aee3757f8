package main

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
)

// Random-access sources and destinations with controlled behaviour.

var errInjected = errors.New("injected fault")

// stepLimit is panicked with when code under test exceeds its step budget.
type stepLimit struct{ n int64 }

func (s stepLimit) Error() string { return fmt.Sprintf("more than %d reads of the source", s.n) }

// memRA is a ReaderAt over bytes.
type memRA struct {
	b     []byte
	eof   bool  // a full read that ends at the end also reports EOF
	calls int64 // number of ReadAt calls
	bytes int64
	limit int64 // panic after this many calls (0: none)

	failAt   int64 // fail this call (1-based; 0: none)
	failFor  int64 // and that many following ones (-1: all)
	partial  bool  // deliver some bytes together with the error
	failed   int64
	failErr  error
	disarmed bool
}

func (m *memRA) ReadAt(p []byte, off int64) (int, error) {
	m.calls++
	if m.limit > 0 && m.calls > m.limit {
		panic(stepLimit{m.limit})
	}
	if off < 0 {
		return 0, fs.ErrInvalid
	}
	if m.failAt > 0 && !m.disarmed && m.calls >= m.failAt && (m.failFor < 0 || m.calls <= m.failAt+m.failFor) {
		m.failed++
		err := m.failErr
		if err == nil {
			err = errInjected
		}
		if m.partial && len(p) > 1 && off < int64(len(m.b)) {
			n := copy(p[:len(p)/2], m.b[off:])
			return n, err
		}
		return 0, err
	}
	if off >= int64(len(m.b)) {
		return 0, io.EOF
	}
	n := copy(p, m.b[off:])
	m.bytes += int64(n)
	if n < len(p) || m.eof && off+int64(n) == int64(len(m.b)) {
		return n, io.EOF
	}
	return n, nil
}

// memWA collects written bytes.
type memWA struct {
	b     []byte
	calls int64
	log   []int64 // sizes of the writes
}

func (m *memWA) WriteAt(p []byte, off int64) (int, error) {
	m.calls++
	if off < 0 || off > 1<<33 {
		return 0, fmt.Errorf("write at %d", off)
	}
	if need := off + int64(len(p)); need > int64(len(m.b)) {
		if need <= int64(cap(m.b)) {
			m.b = m.b[:need]
		} else {
			nb := make([]byte, need, need*2)
			copy(nb, m.b)
			m.b = nb
		}
	}
	copy(m.b[off:], p)
	return len(p), nil
}

// padded returns the image as a file would hold it.
func (m *memWA) padded() []byte {
	n := (len(m.b) + 4095) &^ 4095
	b := make([]byte, n)
	copy(b, m.b)
	return b
}
