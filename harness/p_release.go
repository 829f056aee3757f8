package main

import (
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"strings"

	"github.com/dpeckett/archivefs/arfs"
	"github.com/dpeckett/archivefs/erofs"
	"github.com/dpeckett/archivefs/tarfs"
)

// C21: Create releases what it opened and leaves its destination alone.

func init() {
	register(&Prop{
		ID: "C21",
		Rule: "One evaluation runs one Create - undisturbed, with one source operation or destination write failing, or on a source it has to refuse - while every handle the source hands out is followed, and checks that all are closed when Create returns, that none is used afterwards, and that no more are open at once than a small number. " +
			"Sources on disk are judged by the descriptors of the process. Non-trivial: Create opened at least one file; distinct by source and fault.",
		MinEvents: []string{"undisturbed", "source_faults", "write_faults", "refusals", "handles", "many_files", "directory_handles", "disk_sources", "closable_destinations", "file_destinations"},
		Cases: func(quick bool, seed int64) (out []Case) {
			for _, kind := range []string{"tar", "ar", "erofs"} {
				kind := kind
				out = append(out, batch("faults-"+kind, N(quick, 120, 6000), 3, func(c *Ctx, r *rand.Rand, i int) { releaseFaults(c, r, kind) })...)
				out = append(out, batch("refused-"+kind, N(quick, 40, 2000), 5, func(c *Ctx, r *rand.Rand, i int) { releaseRefused(c, r, kind) })...)
				out = append(out, batch("many-"+kind, N(quick, 4, 40), 1, func(c *Ctx, r *rand.Rand, i int) { releaseMany(c, r, kind) })...)
				out = append(out, batch("disk-"+kind, N(quick, 16, 600), 2, func(c *Ctx, r *rand.Rand, i int) { releaseDisk(c, r, kind) })...)
			}
			return out
		},
		Assumptions: []string{"closing a handle more than once is not judged"},
	})
}

// closableDst is a destination that could be closed.
type closableDst struct {
	*faultDst
	closed int
}

func (d *closableDst) Close() error { d.closed++; return nil }

// trackedCreate runs one Create and judges the handles afterwards.
func trackedCreate(c *Ctx, kind, what string, t *Node, fo FSOpts, d *faultDst) error {
	h := &handles{}
	fo.Track = h
	src := newModelFS(t, fo)
	cd := &closableDst{faultDst: d}
	var err error
	if p := guard(func() {
		switch kind {
		case "tar":
			err = tarfs.Create(cd, src)
		case "ar":
			err = arfs.Create(cd, src)
		default:
			err = erofs.Create(cd, src)
		}
	}); p != nil {
		c.Fail("%s: %s: panic: %v", kind, what, p)
		return nil
	}
	c.Count("handles", int64(h.total))
	c.Count("closable_destinations", 1)
	c.Eval(append([]byte(kind+what), t.sig()...), h.total > 0)
	if left := h.left(); len(left) > 0 {
		c.Fail("%s: %s: Create (result: %v) left %d of %d opened files open: %q", kind, what, err, len(left), h.total, left)
	}
	if h.misuse != "" {
		c.Fail("%s: %s: %s", kind, what, h.misuse)
	}
	if lim := 8 + depthOf(t); h.most > lim {
		c.Fail("%s: %s: %d files were open at once", kind, what, h.most)
	}
	if cd.closed > 0 {
		c.Fail("%s: %s: Create closed the destination", kind, what)
	}
	return err
}

func depthOf(t *Node) (deep int) {
	t.each(func(p string, n *Node) { deep = max(deep, 1+strings.Count(p, "/")) })
	return deep
}

func releaseFaults(c *Ctx, r *rand.Rand, kind string) {
	t := sourceFor(r, kind)
	fo := randFSOpts(r)
	type ev struct{ kind, path string }
	var log []ev
	fo.Op = func(k, p string) error { log = append(log, ev{k, p}); return nil }
	ref := &faultDst{budget: -1}
	if err := trackedCreate(c, kind, "undisturbed", t, fo, ref); err != nil {
		c.Fail("%s: Create fails on an ordinary source: %v (%s)", kind, err, t.describe())
		return
	}
	c.Count("undisturbed", 1)
	for _, e := range log {
		if e.kind == "open" {
			if n := find(t, e.path); n != nil && n.IsDir() {
				c.Count("directory_handles", 1)
			}
		}
	}
	lim := N(c.Quick, 40, 300)
	step := max(1, len(log)/lim)
	for k := range log {
		if c.Failed() {
			return
		}
		if k > 6 && len(log)-k > 6 && r.Intn(step) != 0 {
			continue
		}
		fault := createErrs[r.Intn(len(createErrs))]
		n, hit := -1, false
		fo2 := fo
		fo2.Op = func(op, p string) error {
			if n++; n == k {
				hit = true
				return fault
			}
			return nil
		}
		_ = trackedCreate(c, kind, fmt.Sprintf("operation %d of %d (%s %q) fails with %v", k+1, len(log), log[k].kind, log[k].path, fault), t, fo2, &faultDst{budget: -1})
		if hit {
			c.Count("source_faults", 1)
		}
	}
	step = max(1, int(ref.calls)/lim)
	fo.Op = nil
	for k := int64(1); k <= ref.calls && !c.Failed(); k++ {
		if k > 6 && ref.calls-k > 6 && r.Intn(step) != 0 {
			continue
		}
		d := &faultDst{budget: -1, failAt: k, mode: r.Intn(7), all: r.Intn(2) == 0}
		_ = trackedCreate(c, kind, fmt.Sprintf("write %d of %d fails (mode %d)", k, ref.calls, d.mode), t, fo, d)
		if d.failed > 0 {
			c.Count("write_faults", 1)
		}
	}
	c.Sample("%s: %d source operations, %d writes: %s", kind, len(log), ref.calls, t.describe())
}

func find(t *Node, p string) (out *Node) {
	t.each(func(q string, n *Node) {
		if q == path.Clean(p) {
			out = n
		}
	})
	return out
}

// releaseRefused lets Create meet something it has to refuse, or a file of another size than announced.
func releaseRefused(c *Ctx, r *rand.Rand, kind string) {
	t := sourceFor(r, kind)
	fo := randFSOpts(r)
	var files []string
	t.each(func(p string, n *Node) {
		if n.IsReg() {
			files = append(files, p)
		}
	})
	what := "device"
	if len(files) > 0 && r.Intn(2) == 0 {
		p := files[r.Intn(len(files))]
		n := find(t, p)
		fo.Lies = map[string]lie{p: {Data: []int64{1, 511, 4096, 1 << 17, -n.Size()}[r.Intn(5)]}}
		what = "lying file"
	} else {
		dirs := []*Node{t}
		t.each(func(p string, n *Node) {
			if n.IsDir() {
				dirs = append(dirs, n)
			}
		})
		d := dirs[r.Intn(len(dirs))]
		bad := &Node{Name: "~dev", Mode: fs.ModeDevice | 0o600, MTime: t.MTime}
		switch r.Intn(3) {
		case 1:
			bad.Mode = fs.ModeSocket | 0o600
			what = "socket"
		case 2:
			bad.Mode = 0o600
			bad.Name = "~" + strings.Repeat("n", 300)
			what = "long name"
		}
		d.Kids = append(d.Kids, bad)
	}
	if err := trackedCreate(c, kind, what, t, fo, &faultDst{budget: -1}); err != nil {
		c.Count("refusals", 1)
	}
}

func releaseMany(c *Ctx, r *rand.Rand, kind string) {
	t := &Node{Name: ".", Mode: fs.ModeDir | 0o755}
	n := 200 + r.Intn(200)
	for i := 0; i < n; i++ {
		data := make([]byte, r.Intn(3)*700)
		r.Read(data)
		t.Kids = append(t.Kids, &Node{Name: fmt.Sprintf("f%04d", i), Mode: 0o644, Data: data})
	}
	fo := randFSOpts(r)
	fo.Sys = sysNone
	if err := trackedCreate(c, kind, fmt.Sprintf("%d files", n), t, fo, &faultDst{budget: -1}); err != nil {
		c.Fail("%s: Create fails on an ordinary source: %v", kind, err)
	}
	c.Count("many_files", int64(n))
}

// descriptors returns the open descriptors of the process for files below dir.
func descriptors(dir string) (out []string) {
	ls, _ := filepath.Glob("/proc/self/fd/*")
	for _, l := range ls {
		if p, err := os.Readlink(l); err == nil && strings.HasPrefix(p, dir) {
			out = append(out, p)
		}
	}
	return out
}

func releaseDisk(c *Ctx, r *rand.Rand, kind string) {
	dir, err := os.MkdirTemp(c.Scratch(), "disk")
	must(err)
	src := filepath.Join(dir, "src")
	files := 1 + r.Intn(30)
	bad := r.Intn(2) == 0
	for i := 0; i < files; i++ {
		sub := src
		if kind != "ar" && r.Intn(3) == 0 {
			sub = filepath.Join(src, fmt.Sprintf("d%d", r.Intn(4)))
		}
		data := make([]byte, r.Intn(3)*2100)
		r.Read(data)
		if os.MkdirAll(sub, 0o755) != nil || os.WriteFile(filepath.Join(sub, fmt.Sprintf("f%d", i)), data, 0o644) != nil {
			return
		}
	}
	what := fmt.Sprintf("%d files on disk", files)
	if bad { // a symlink, which a directory source cannot read
		_ = os.Symlink("nowhere", filepath.Join(src, "zlink"))
		what += " and a link"
	}
	dst, err := os.Create(filepath.Join(dir, "dst"))
	if err != nil {
		return
	}
	defer dst.Close()
	dfs := struct{ fs.FS }{os.DirFS(src)} // hides every optional interface
	switch kind {
	case "tar":
		err = tarfs.Create(dst, dfs)
	case "ar":
		err = arfs.Create(dst, dfs)
	default:
		err = erofs.Create(dst, dfs)
	}
	left := descriptors(src)
	c.Eval([]byte(fmt.Sprint(kind, what, r.Int63())), true)
	c.Count("disk_sources", 1)
	c.Count("file_destinations", 1)
	if len(left) > 0 {
		c.Fail("%s: %s: Create (result: %v) left descriptors open: %q", kind, what, err, left)
	}
	if !bad && err != nil {
		c.Fail("%s: %s: Create fails: %v", kind, what, err)
	}
	if _, err := dst.Seek(0, io.SeekEnd); err != nil {
		c.Fail("%s: %s: the destination cannot be used any more: %v", kind, what, err)
	} else if _, err := dst.Write([]byte("x")); err != nil {
		c.Fail("%s: %s: the destination cannot be used any more: %v", kind, what, err)
	}
}
