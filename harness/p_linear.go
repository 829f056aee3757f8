package main

import (
	"fmt"
	"io/fs"
	"math/rand"
	"runtime"
	"strings"
	"time"

	"github.com/dpeckett/archivefs/arfs"
	"github.com/dpeckett/archivefs/erofs"
	"github.com/dpeckett/archivefs/tarfs"
)

// C23: creation is linear in the source and streams file data.

func init() {
	register(&Prop{
		ID: "C23",
		Rule: "One evaluation runs one Create while every operation on the source, every byte its files deliver, every byte written and the memory allocated are counted, and compares the counts with bounds computed from the source: per file and directory, per byte, and between a source and one several times as big. " +
			"Non-trivial: the source has at least two objects; distinct by source.",
		MinEvents: []string{"creates", "files_judged", "directories_judged", "scalings", "long_files", "bytes_written"},
		Cases: func(quick bool, seed int64) (out []Case) {
			for _, kind := range []string{"tar", "ar", "erofs"} {
				kind := kind
				out = append(out, batch("counts-"+kind, N(quick, 200, 8000), 6, func(c *Ctx, r *rand.Rand, i int) { linearCounts(c, r, kind) })...)
				out = append(out, batch("scaling-"+kind, N(quick, 4, 24), 1, func(c *Ctx, r *rand.Rand, i int) { linearScaling(c, r, kind, i) })...)
				out = append(out, batch("long-"+kind, N(quick, 2, 16), 1, func(c *Ctx, r *rand.Rand, i int) { linearLong(c, r, kind) })...)
			}
			return out
		},
		Assumptions: []string{"constant factors are not judged: data may be read twice, and each object be asked for 24 times"},
	})
}

// meter counts what one Create does.
type meter struct {
	ops     map[string]map[string]int64 // kind, path
	total   int64
	data    map[string]int64
	written int64
	end     int64
	writes  int64
	alloc   uint64
}

func (m *meter) Write(p []byte) (int, error) {
	m.written += int64(len(p))
	m.end += int64(len(p))
	m.writes++
	return len(p), nil
}

func (m *meter) WriteAt(p []byte, off int64) (int, error) {
	m.written += int64(len(p))
	m.end = max(m.end, off+int64(len(p)))
	m.writes++
	return len(p), nil
}

func meteredCreate(kind string, t *Node, fo FSOpts) (*meter, error) {
	m := &meter{ops: map[string]map[string]int64{}, data: map[string]int64{}}
	fo.Op = func(kind, p string) error {
		if m.ops[kind] == nil {
			m.ops[kind] = map[string]int64{}
		}
		m.ops[kind][p]++
		m.total++
		return nil
	}
	fo.Got = func(p string, n int) { m.data[p] += int64(n) }
	src := newModelFS(t, fo)
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	var err error
	switch kind {
	case "tar":
		err = tarfs.Create(m, src)
	case "ar":
		err = arfs.Create(m, src)
	default:
		err = erofs.Create(m, src)
	}
	runtime.ReadMemStats(&b)
	m.alloc = b.TotalAlloc - a.TotalAlloc
	return m, err
}

func linearCounts(c *Ctx, r *rand.Rand, kind string) {
	t := sourceFor(r, kind)
	fo := randFSOpts(r)
	fo.Chunk = 0
	m, err := meteredCreate(kind, t, fo)
	c.Eval(t.sig(), t.count() > 2)
	c.Count("creates", 1)
	if err != nil {
		c.Fail("%s: Create fails on an ordinary source: %v (%s)", kind, err, t.describe())
		return
	}
	sizes := map[string]int64{".": 0}
	entries := map[string]int64{}
	total := int64(1)
	t.each(func(p string, n *Node) {
		sizes[p] = n.Size()
		entries[p] = int64(len(n.Kids))
		total += n.Size() + int64(len(p)+len(n.Target))*4 + 16384
		for k, v := range n.Xattr {
			total += int64(len(k)+len(v)) * 2
		}
		if n.IsReg() {
			c.Count("files_judged", 1)
		} else if n.IsDir() {
			c.Count("directories_judged", 1)
		}
	})
	for p, n := range m.data {
		if n > 2*sizes[p] {
			c.Fail("%s: %d bytes were read of %q, which has %d", kind, n, p, sizes[p])
		}
	}
	for op, ps := range m.ops {
		for p, n := range ps {
			lim := int64(24)
			if op == "read" {
				lim += 2 * (sizes[p]/64 + 2)
			}
			if op == "readdir" { // possibly in pieces
				lim += 24 * entries[p]
			}
			if n > lim {
				c.Fail("%s: %q: %d times %s", kind, p, n, op)
			}
		}
	}
	c.Count("bytes_written", m.written)
	if m.written > 3*m.end+ahead {
		c.Fail("%s: %d bytes were written for an archive of %d", kind, m.written, m.end)
	}
	if m.end > total+ahead {
		c.Fail("%s: archive of %d bytes for a source of no more than %d", kind, m.end, total)
	}
	c.Sample("%s: %d operations, %d bytes written: %s", kind, m.total, m.written, t.describe())
}

// growingTree is a tree of about n objects of one of several shapes.
func growingTree(r *rand.Rand, kind string, shape, n int) *Node {
	t := &Node{Name: ".", Mode: fs.ModeDir | 0o755, MTime: time.Unix(5, 0)}
	file := func(k int) *Node {
		return &Node{Name: fmt.Sprintf("f%06d", k), Mode: 0o644, Data: make([]byte, k%7*300), MTime: time.Unix(int64(k), 0)}
	}
	if kind == "ar" {
		shape = 0
	}
	switch shape {
	case 0: // one directory
		for k := 0; k < n; k++ {
			t.Kids = append(t.Kids, file(k))
		}
	case 1: // many directories
		for k := 0; k < n/10; k++ {
			d := &Node{Name: fmt.Sprintf("d%06d", k), Mode: fs.ModeDir | 0o700, MTime: time.Unix(6, 0)}
			for j := 0; j < 9; j++ {
				d.Kids = append(d.Kids, file(j))
			}
			t.Kids = append(t.Kids, d)
		}
	case 2: // empty directories
		for k := 0; k < n; k++ {
			t.Kids = append(t.Kids, &Node{Name: fmt.Sprintf("d%06d", k), Mode: fs.ModeDir | 0o700, MTime: time.Unix(6, 0)})
		}
	default: // links
		for k := 0; k < n; k++ {
			t.Kids = append(t.Kids, &Node{Name: fmt.Sprintf("l%06d", k), Mode: fs.ModeSymlink | 0o777, Target: fmt.Sprintf("../x/%d", k), MTime: time.Unix(7, 0)})
		}
	}
	return t
}

func linearScaling(c *Ctx, r *rand.Rand, kind string, shape int) {
	n := 600 + r.Intn(400)
	const by = 8
	fo := FSOpts{Link: 2, ReadDirFS: r.Intn(2) == 0, StatFS: r.Intn(2) == 0, Sys: r.Intn(3)}
	a, err := meteredCreate(kind, growingTree(r, kind, shape%4, n), fo)
	if err != nil {
		c.Fail("%s: %v", kind, err)
		return
	}
	big := growingTree(r, kind, shape%4, n*by)
	b, err := meteredCreate(kind, big, fo)
	if err != nil {
		c.Fail("%s: %v", kind, err)
		return
	}
	c.Eval([]byte(fmt.Sprint(kind, shape, n, fo)), true)
	c.Count("scalings", 1)
	c.Count("creates", 2)
	what := fmt.Sprintf("%s: from %d to %d objects (shape %d)", kind, n, n*by, shape%4)
	if b.total > 2*by*a.total {
		c.Fail("%s: source operations grow from %d to %d", what, a.total, b.total)
	}
	if b.written > 2*by*a.written+ahead {
		c.Fail("%s: bytes written grow from %d to %d", what, a.written, b.written)
	}
	if b.writes > 2*by*a.writes+100 {
		c.Fail("%s: writes grow from %d to %d", what, a.writes, b.writes)
	}
	if b.alloc > 3*by*a.alloc+8<<20 {
		c.Fail("%s: bytes allocated grow from %d to %d", what, a.alloc, b.alloc)
	}
	c.Sample("%s: operations %d to %d, allocated %d to %d, written %d to %d", what, a.total, b.total, a.alloc, b.alloc, a.written, b.written)
}

func linearLong(c *Ctx, r *rand.Rand, kind string) {
	size := 96<<20 + int64(r.Intn(1<<20))
	t := &Node{Name: ".", Mode: fs.ModeDir | 0o755, MTime: time.Unix(5, 0)}
	for _, n := range []string{"a", "b"} {
		t.Kids = append(t.Kids, &Node{Name: n + strings.Repeat("x", r.Intn(9)), Mode: 0o600, Big: &bigData{Len: size, Seed: r.Uint64()}, MTime: time.Unix(77, 0)})
	}
	m, err := meteredCreate(kind, t, FSOpts{Link: 2, ReadDirFS: true})
	c.Eval([]byte(fmt.Sprint(kind, size)), true)
	c.Count("long_files", 2)
	c.Count("creates", 1)
	if err != nil {
		c.Fail("%s: Create fails on a source with files of %d bytes: %v", kind, size, err)
		return
	}
	if m.alloc > uint64(size)/4 {
		c.Fail("%s: copying two files of %d bytes allocated %d bytes", kind, size, m.alloc)
	}
	for p, n := range m.data {
		if n > 2*size {
			c.Fail("%s: %d bytes were read of %q, which has %d", kind, n, p, size)
		}
	}
	if m.written > 3*m.end+ahead {
		c.Fail("%s: %d bytes were written for an archive of %d", kind, m.written, m.end)
	}
}
