package main

import (
	"archive/tar"
	"bytes"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"strings"
	"time"

	"github.com/dpeckett/archivefs/arfs"
	"github.com/dpeckett/archivefs/tarfs"
)

// streamSink takes a stream holding one huge file without storing that file's bytes.
type streamSink struct {
	img  overlayImage
	big  *bigData
	base int64 // of the file, or -1
	next int64
	pos  int64
	buf  []byte
	bad  string
}

func newStreamSink(big *bigData) *streamSink {
	return &streamSink{big: big, base: -1, buf: make([]byte, 1<<16)}
}

func (s *streamSink) keep(off int64, p []byte) {
	if len(p) > 0 {
		s.img.over = append(s.img.over, seg{off: off, data: bytes.Clone(p), n: int64(len(p))})
	}
}

func (s *streamSink) Write(p []byte) (int, error) {
	n := len(p)
	if s.base < 0 && n >= 64 {
		s.big.fill(s.buf[:64], 0)
		if k := bytes.Index(p, s.buf[:64]); k >= 0 {
			s.base = s.pos + int64(k)
		}
	}
	if s.base >= 0 && s.bad == "" {
		end := s.base + s.big.Len
		if s.pos < s.base {
			k := s.base - s.pos
			s.keep(s.pos, p[:k])
			p, s.pos = p[k:], s.base
		}
		for len(p) > 0 && s.pos < end {
			q := p[:min(int64(len(p)), end-s.pos, int64(len(s.buf)))]
			s.big.fill(s.buf[:len(q)], s.pos-s.base)
			if !bytes.Equal(s.buf[:len(q)], q) {
				s.bad = fmt.Sprintf("wrong data in [%d,%d) of the huge file", s.pos-s.base, s.pos-s.base+int64(len(q)))
				return n, nil
			}
			s.pos += int64(len(q))
			s.next += int64(len(q))
			p = p[len(q):]
		}
	}
	if s.img.size < 1<<26 || s.next == s.big.Len {
		s.keep(s.pos, p)
	}
	s.pos += int64(len(p))
	s.img.size = s.pos
	return n, nil
}

func (s *streamSink) image() *overlayImage {
	if s.base >= 0 {
		s.img.base.putBig(s.base, s.big)
	}
	s.img.size = s.pos
	s.img.base.size = s.pos
	return &s.img
}

// checkHugeStream creates a tar or ar archive with a file of many gigabytes.
func checkHugeStream(c *Ctx, r *rand.Rand, kind string, size int64) {
	big := &bigData{Len: size, Seed: 77}
	t := &Node{Name: ".", Mode: fs.ModeDir | 0o755, Kids: []*Node{
		{Name: "before", Mode: 0o600, Data: genData(r, 3000), MTime: time.Unix(4, 0)},
		{Name: "huge", Mode: 0o640, Big: big, MTime: time.Unix(1, 0)},
		{Name: "later", Mode: 0o644, Data: genData(r, 100000), MTime: time.Unix(3, 0)},
	}}
	c.Eval(t.sig(), true)
	c.Count("huge_files", 1)
	sink := newStreamSink(big)
	src := newModelFS(t, FSOpts{Link: 2, ReadDirFS: true, Sys: sysTar})
	var err error
	if kind == "tar" {
		err = tarfs.Create(sink, src)
	} else {
		err = arfs.Create(sink, src)
	}
	if err != nil {
		c.Fail("Create refuses a source with a file of %d bytes: %v", size, err)
		return
	}
	if sink.bad != "" || sink.next != size {
		c.Fail("file of %d bytes: %d written in place, %s", size, sink.next, sink.bad)
		return
	}
	img := sink.image()
	var fsys fs.FS
	if kind == "tar" {
		tr := tar.NewReader(io.NewSectionReader(img, 0, img.size))
		for _, k := range t.Kids {
			h, err := tr.Next()
			if err != nil || h.Name != k.Name || h.Size != k.Size() {
				c.Fail("as read by archive/tar: %q: %+v, %v", k.Name, h, err)
				return
			}
		}
		if _, err := tr.Next(); err != io.EOF {
			c.Fail("as read by archive/tar: %v at the end", err)
		}
		fsys, err = tarfs.Open(img)
	} else {
		off := int64(8)
		for _, k := range t.Kids {
			h := make([]byte, 60)
			if _, err := img.ReadAt(h, off); err != nil || strings.TrimRight(string(h[:16]), " ") != k.Name || strings.TrimRight(string(h[48:58]), " ") != fmt.Sprint(k.Size()) {
				c.Fail("member header %q (%v), want that of %q", h, err, k.Name)
				return
			}
			off += 60 + k.Size() + k.Size()%2
		}
		if off != img.size {
			c.Fail("members end at %d, the archive at %d", off, img.size)
		}
		fsys, err = arfs.Open(img)
	}
	if err != nil {
		c.Fail("archive with a file of %d bytes does not open: %v", size, err)
		return
	}
	verifyBig(c, fsys, "huge", big)
	for _, k := range t.Kids {
		if k.Big != nil {
			continue
		}
		if b, err := fs.ReadFile(fsys, k.Name); err != nil || !bytes.Equal(b, k.Data) {
			c.Fail("%q: %d bytes, %v", k.Name, len(b), err)
		}
	}
}

// hugeAr has a member beyond 32 bits and one after it.
func hugeAr(c *Ctx, size int64) {
	big := &bigData{Len: size, Seed: 43}
	img := &sparseImage{}
	img.put(0, []byte(fmt.Sprintf("!<arch>\n%-16s%-12d%-6d%-6d%-8s%-10d`\n", "huge/", 1, 0, 0, "100600", size)))
	img.putBig(68, big)
	end := 68 + size
	pad := ""
	if size%2 == 1 {
		pad = "\n"
	}
	img.put(end, []byte(pad+fmt.Sprintf("%-16s%-12d%-6d%-6d%-8s%-10d`\n%s", "after/", 2, 0, 0, "100644", 5, "after\n")))
	img.sort()
	fsys, err := arfs.Open(img)
	if err != nil {
		c.Fail("archive with a member of %d bytes does not open: %v", size, err)
		return
	}
	c.Eval([]byte(fmt.Sprint("huge", size)), true)
	c.Count("huge_files", 1)
	if b, err := fs.ReadFile(fsys, "after"); err != nil || string(b) != "after" {
		c.Fail("member after one of %d bytes: %q %v", size, b, err)
	}
	verifyBig(c, fsys, "huge", big)
}
