package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math"
	"math/rand"
	"time"

	"github.com/dpeckett/archivefs/erofs"
)

// Sources beyond what the 32 bit block addresses of EROFS can reach. Their files consist of holes, which they skip
// when they are copied to a writer that can seek, as sparse files do.

// errHole reports that a hole was not skipped, so that it could not be copied.
var errHole = errors.New("hole too long to be copied")

type holeFile struct {
	name string
	size int64
	data []byte // at the end of the file
	off  int64
}

func (f *holeFile) Name() string               { return f.name }
func (f *holeFile) Size() int64                { return f.size }
func (f *holeFile) Mode() fs.FileMode          { return 0o644 }
func (f *holeFile) Type() fs.FileMode          { return 0 }
func (f *holeFile) ModTime() time.Time         { return time.Unix(9, 0) }
func (f *holeFile) IsDir() bool                { return false }
func (f *holeFile) Sys() any                   { return nil }
func (f *holeFile) Info() (fs.FileInfo, error) { return f, nil }
func (f *holeFile) Stat() (fs.FileInfo, error) { return f, nil }
func (f *holeFile) Close() error               { return nil }

func (f *holeFile) Read(p []byte) (int, error) {
	if f.off >= f.size {
		return 0, io.EOF
	}
	if f.off > 64<<20 {
		return 0, errHole
	}
	n := int(min(int64(len(p)), f.size-f.off))
	clear(p[:n])
	if from := f.size - int64(len(f.data)); f.off+int64(n) > from {
		if f.off < from {
			copy(p[from-f.off:n], f.data)
		} else {
			copy(p[:n], f.data[f.off-from:])
		}
	}
	f.off += int64(n)
	return n, nil
}

func (f *holeFile) WriteTo(w io.Writer) (int64, error) {
	s, ok := w.(io.Seeker)
	if !ok {
		return 0, errHole
	}
	if _, err := s.Seek(f.size-int64(len(f.data)), io.SeekCurrent); err != nil {
		return 0, err
	}
	_, err := w.Write(f.data)
	return f.size, err
}

type holeFS []*holeFile

func (h holeFS) Open(name string) (fs.File, error) {
	if name == "." {
		return &holeRoot{h: h}, nil
	}
	for _, f := range h {
		if f.name == name {
			g := *f
			return &g, nil
		}
	}
	return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
}

func (h holeFS) ReadDir(name string) (out []fs.DirEntry, err error) {
	for _, f := range h {
		out = append(out, f)
	}
	return out, nil
}

type holeRoot struct {
	holeFile
	h holeFS
}

func (r *holeRoot) Name() string               { return "." }
func (r *holeRoot) Mode() fs.FileMode          { return fs.ModeDir | 0o755 }
func (r *holeRoot) IsDir() bool                { return true }
func (r *holeRoot) Stat() (fs.FileInfo, error) { return r, nil }
func (r *holeRoot) ReadDir(int) ([]fs.DirEntry, error) {
	return r.h.ReadDir(".")
}

// sparseDst takes a sparse image.
type sparseDst struct{ overlayImage }

func (d *sparseDst) WriteAt(p []byte, off int64) (int, error) {
	if off < 0 || off > math.MaxInt64-int64(len(p)) {
		return 0, fs.ErrInvalid
	}
	d.over = append(d.over, seg{off: off, data: bytes.Clone(p), n: int64(len(p))})
	d.size = max(d.size, off+int64(len(p)))
	d.base.size = d.size
	return len(p), nil
}

// checkErofsLimits creates images about as big as block addresses can express, and bigger ones.
func checkErofsLimits(c *Ctx, r *rand.Rand, i int) {
	const limit = int64(math.MaxUint32) * 4096
	var sizes []int64
	near := int64(r.Intn(9)-4)*4096 + int64(r.Intn(4096))
	exact, alone := false, i%20 >= 10
	switch i % 10 {
	case 8: // with the superblock, a block of inodes and the last file exactly as many blocks as can be counted
		sizes, exact = []int64{limit - 4*4096 - int64(r.Intn(3))*int64(r.Intn(4096))/2}, true
		if alone {
			sizes[0] += 2 * 4096
		}
	case 9: // one block more
		sizes = []int64{limit - 4*4096 + 1 + int64(r.Intn(4096))}
		if alone {
			sizes[0] += 2 * 4096
		}
	case 0:
		sizes = []int64{limit - 1<<20 + near}
	case 1:
		sizes = []int64{limit/2 - 1<<20, limit/2 - 1<<20 + near}
	case 2:
		sizes = []int64{limit + near}
	case 3:
		sizes = []int64{1<<44 + 1<<20 + near}
	case 4:
		sizes = []int64{9 << 40, 9<<40 + near}
	case 5:
		sizes = []int64{int64(1+r.Intn(60))<<44 + 1<<30 + near}
	case 6:
		sizes = []int64{math.MaxInt64 - int64(r.Intn(10000))}
	case 7:
		sizes = []int64{1<<62 + near, 1 << 62, 1 << 62, 1<<62 + int64(r.Intn(1<<30))}
	}
	src := holeFS{}
	total := int64(0)
	tail := func(n int) []byte {
		b := make([]byte, n)
		r.Read(b)
		return b
	}
	for k, s := range sizes {
		src = append(src, &holeFile{name: fmt.Sprintf("f%d", k), size: s, data: tail(100 + r.Intn(9000))})
		if total += s; total < 0 || s > 1<<50 {
			total = 1 << 60
		}
	}
	if !alone {
		src = append(src, &holeFile{name: "z", size: 5000, data: tail(5000)})
	}
	id := fmt.Sprintf("files of %d bytes (and one of 5000: %v)", sizes, !alone)
	d := &sparseDst{}
	var err error
	if p := guard(func() { err = erofs.Create(d, src) }); p != nil {
		c.Fail("%s: panic: %v", id, p)
		return
	}
	c.Eval([]byte(id), true)
	c.Count("address_limits", 1)
	if err != nil {
		if (total < limit-1<<16 || exact) && !errors.Is(err, errHole) {
			c.Fail("%s: Create fails: %v", id, err)
		}
		c.Count("too_big", 1)
		return
	}
	fsys, err := erofs.Open(d)
	if err != nil {
		c.Fail("%s: image does not open: %v", id, err)
		return
	}
	d.size = max(d.size, (d.size+4095)&^4095)
	d.base.size = d.size
	for _, f := range src {
		if fi, err := fsys.Stat(f.name); err != nil || fi.Size() != f.size {
			c.Fail("%s: stat of %s: %v, %v", id, f.name, fi, err)
			return
		}
	}
	if got, err := fs.ReadFile(fsys, "z"); !alone && (err != nil || !bytes.Equal(got, src[len(src)-1].data)) {
		c.Fail("%s: the last file has other data (%d bytes, %v)", id, len(got), err)
	}
	// The blocks of the image hold what was written, each at its own place.
	img, err := erofs.OpenImage(d)
	if err != nil {
		c.Fail("%s: %v", id, err)
		return
	}
	if end := int64(img.Blocks()) * 4096; end < d.size {
		c.Fail("%s: the superblock announces %d bytes, written up to %d", id, end, d.size)
	}
	root, err := img.Inode(img.RootNid())
	if err != nil {
		c.Fail("%s: %v", id, err)
		return
	}
	type span struct{ from, to int64 }
	var spans []span
	for _, f := range src {
		e, err := root.Lookup(f.name)
		if err != nil {
			c.Fail("%s: %v", id, err)
			return
		}
		var b [64]byte
		sb := img.SuperBlock()
		if _, err := d.ReadAt(b[:], sb.NidToOffset(e.Nid)); err != nil {
			c.Fail("%s: %v", id, err)
			return
		}
		from := int64(binary.LittleEndian.Uint32(b[16:])) * 4096
		spans = append(spans, span{from, from + f.size})
		got := make([]byte, len(f.data))
		if n, err := d.ReadAt(got, from+f.size-int64(len(got))); n != len(got) || !bytes.Equal(got, f.data) {
			c.Fail("%s: the end of %s is not where its inode says (%v)", id, f.name, err)
		}
	}
	for a := range spans {
		for b := range spans[:a] {
			if spans[a].from < spans[b].to && spans[b].from < spans[a].to {
				c.Fail("%s: data of files %d and %d overlaps", id, b, a)
			}
		}
	}
}
