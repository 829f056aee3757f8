package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"path"
	"runtime"
	"strings"
	"sync/atomic"
	"time"

	"github.com/dpeckett/archivefs/memfs"
)

func init() {
	register(&Prop{
		ID: "C15",
		Rule: "One evaluation runs a sequence of operations on an in-memory filesystem and a reference model in step: the outcome of every operation is compared, every caller buffer is overwritten after use, open handles are read on between later operations, and the whole filesystem is compared with the model after failures and at the end. " +
			"All sequences of up to 3 operations (4 when thorough) over a small alphabet are run, and random long ones. Non-trivial: at least one write or directory creation succeeded; distinct by operation trace.",
		MinEvents: []string{"exhaustive_sequences", "random_sequences", "failed_operations", "handle_reads_after_overwrite", "sub_operations", "invalid_paths", "full_comparisons", "permissions_kept", "paths_through_files"},
		Cases:     casesC15,
	})
	register(&Prop{
		ID:        "C16",
		Rule:      "One evaluation reads one directory handle in pieces of chosen sizes while files are created and overwritten between (or concurrently with) the pieces, and checks the pieces against the entries the directory had at the first read. Non-trivial: more than one piece; distinct by sizes and directory.",
		MinEvents: []string{"pieces", "ends_seen", "rest_reads", "creations_between_pieces", "handles_in_parallel", "concurrent_creations", "empty_directories", "entries_checked", "results_changed", "large_directories"},
		Cases:     casesC16,
	})
}

// ---------------------------------------------------------------- reference model

type mnode struct {
	name string
	dir  bool
	perm fs.FileMode
	data []byte
	kids map[string]*mnode
}

func newMRoot() *mnode { return &mnode{dir: true, kids: map[string]*mnode{}} }

type mErr int

const (
	mOK mErr = iota
	mInvalid
	mMissing
	mOther
)

// find walks to a path. mOther: the path goes through a file.
func (n *mnode) find(p string) (*mnode, mErr) {
	if !fs.ValidPath(p) {
		return nil, mInvalid
	}
	if p == "." {
		return n, mOK
	}
	for _, s := range strings.Split(p, "/") {
		if !n.dir {
			return nil, mOther
		}
		if n = n.kids[s]; n == nil {
			return nil, mMissing
		}
	}
	return n, mOK
}

func (n *mnode) mkdirAll(p string, perm fs.FileMode) mErr {
	if !fs.ValidPath(p) {
		return mInvalid
	}
	if p == "." {
		return mOK
	}
	parts := strings.Split(p, "/")
	// Nothing is created when the path cannot be.
	m := n
	for _, s := range parts {
		if m = m.kids[s]; m == nil {
			break
		}
		if !m.dir {
			return mOther
		}
	}
	for _, s := range parts {
		k := n.kids[s]
		if k == nil {
			k = &mnode{name: s, dir: true, perm: perm, kids: map[string]*mnode{}}
			n.kids[s] = k
		}
		n = k
	}
	return mOK
}

func (n *mnode) write(p string, data []byte, perm fs.FileMode) (e mErr, kept bool) {
	if !fs.ValidPath(p) {
		return mInvalid, false
	}
	if p == "." {
		return mOther, false
	}
	d, e := n.find(path.Dir(p))
	if e != mOK {
		return e, false
	}
	if !d.dir {
		return mOther, false
	}
	b := path.Base(p)
	k := d.kids[b]
	if k != nil && k.dir {
		return mOther, false
	}
	nn := &mnode{name: b, perm: perm, data: append([]byte(nil), data...)}
	if k != nil {
		kept = k.perm != perm
		nn.perm = k.perm
	}
	d.kids[b] = nn
	return mOK, kept
}

// agree judges the error of an operation.
func agree(want mErr, err error) string {
	switch {
	case want == mOK && err != nil:
		return fmt.Sprintf("fails: %v", err)
	case want != mOK && err == nil:
		return "succeeds, but must fail"
	case want == mInvalid && !errors.Is(err, fs.ErrInvalid):
		return fmt.Sprintf("gives an error that is not the one for invalid paths: %v", err)
	case want == mMissing && !errors.Is(err, fs.ErrNotExist):
		return fmt.Sprintf("gives an error that is not the one for missing paths: %v", err)
	}
	return ""
}

// memRun is a filesystem with its model.
type memRun struct {
	c     *Ctx
	r     *rand.Rand
	views []memView
	hs    []*memHandle
	trace []string
	stuck bool
	did   bool
}

type memWriter interface {
	fs.FS
	MkdirAll(string, fs.FileMode) error
	WriteFile(string, []byte, fs.FileMode) error
	Sub(string) (fs.FS, error)
}

type memView struct {
	fsys memWriter
	root *mnode
	name string
}

type memHandle struct {
	f           fs.File
	n           *mnode
	path        string
	data        []byte
	off         int
	overwritten bool
	str         string
}

func newMemRun(c *Ctx, r *rand.Rand) *memRun {
	return &memRun{c: c, r: r, views: []memView{{memfs.New(), newMRoot(), ""}}}
}

func (m *memRun) fail(format string, args ...any) {
	m.c.Fail("%s\nafter: %s", fmt.Sprintf(format, args...), strings.Join(m.trace, "; "))
}

// do runs one operation, which must return.
func (m *memRun) do(what string, fn func()) bool {
	m.trace = append(m.trace, what)
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		fn()
	}()
	select {
	case p := <-done:
		if p != nil {
			if h, ok := p.(harnessErr); ok {
				panic(h)
			}
			m.fail("%s panics: %v", what, p)
			return false
		}
		return true
	default:
	}
	t := time.NewTimer(40 * time.Second)
	defer t.Stop()
	select {
	case p := <-done:
		if p != nil {
			if h, ok := p.(harnessErr); ok {
				panic(h)
			}
			m.fail("%s panics: %v", what, p)
			return false
		}
		return true
	case <-t.C:
		m.stuck = true
		m.fail("%s does not return within 40 s", what)
		return false
	}
}

func (m *memRun) mkdir(v memView, p string, perm fs.FileMode) {
	var err error
	what := fmt.Sprintf("MkdirAll(%s%q, %v)", v.name, p, perm)
	if !m.do(what, func() { err = v.fsys.MkdirAll(p, perm) }) {
		return
	}
	m.judge(what, v.root.mkdirAll(p, perm), err)
}

func (m *memRun) judge(what string, want mErr, err error) {
	if d := agree(want, err); d != "" {
		m.fail("%s %s", what, d)
	}
	if want != mOK {
		m.c.Count("failed_operations", 1)
		switch want {
		case mInvalid:
			m.c.Count("invalid_paths", 1)
		case mOther:
			m.c.Count("paths_through_files", 1)
		}
	} else if strings.HasPrefix(what, "MkdirAll") || strings.HasPrefix(what, "WriteFile") {
		m.did = true
	}
}

func (m *memRun) write(v memView, p string, data []byte, perm fs.FileMode) {
	var err error
	what := fmt.Sprintf("WriteFile(%s%q, %d bytes, %v)", v.name, p, len(data), perm)
	buf := append(make([]byte, 0, len(data)+8), data...)
	if data == nil {
		buf = nil
	}
	if !m.do(what, func() { err = v.fsys.WriteFile(p, buf, perm) }) {
		return
	}
	// The buffer is the caller's again.
	buf = buf[:cap(buf)]
	for i := range buf {
		buf[i] = 0xEE
	}
	old, _ := v.root.find(p)
	e, kept := v.root.write(p, data, perm)
	if kept {
		m.c.Count("permissions_kept", 1)
	}
	for _, h := range m.hs {
		if old != nil && e == mOK && h.n == old {
			h.overwritten = true
		}
	}
	m.judge(what, e, err)
}

func (m *memRun) open(v memView, p string) {
	var f fs.File
	var err error
	what := fmt.Sprintf("Open(%s%q)", v.name, p)
	if !m.do(what, func() { f, err = v.fsys.Open(p) }) {
		return
	}
	n, e := v.root.find(p)
	m.judge(what, e, err)
	if err != nil || e != mOK {
		return
	}
	h := &memHandle{f: f, n: n, path: p, data: n.data}
	m.statHandle(h)
	if len(m.hs) > 8 {
		m.hs = m.hs[1:]
	}
	m.hs = append(m.hs, h)
}

func (m *memRun) checkInfo(what string, fi fs.FileInfo, n *mnode, root bool) {
	if fi.IsDir() != n.dir || fi.Mode().IsDir() != n.dir {
		m.fail("%s: directory %v (mode %v), expected %v", what, fi.IsDir(), fi.Mode(), n.dir)
	}
	if root {
		return
	}
	if fi.Name() != n.name {
		m.fail("%s: name %q, expected %q", what, fi.Name(), n.name)
	}
	if fi.Mode()&^fs.ModeDir != n.perm {
		m.fail("%s: permissions %v, expected %v", what, fi.Mode()&^fs.ModeDir, n.perm)
	}
	if !n.dir && fi.Size() != int64(len(n.data)) {
		m.fail("%s: size %d, expected %d", what, fi.Size(), len(n.data))
	}
}

func (m *memRun) statHandle(h *memHandle) {
	var fi fs.FileInfo
	var err error
	what := fmt.Sprintf("Stat of open %q", h.path)
	if !m.do(what, func() { fi, err = h.f.Stat() }) {
		return
	}
	if err != nil {
		m.fail("%s: %v", what, err)
		return
	}
	m.checkInfo(what, fi, h.n, h.path == "." || h.n.name == "")
	s := infoString(fi)
	if h.str != "" && s != h.str {
		m.fail("%s: now %s, before %s", what, s, h.str)
	}
	h.str = s
}

func (m *memRun) readHandle(h *memHandle, size int) {
	if h.n.dir {
		return
	}
	buf := make([]byte, size)
	var n int
	var err error
	what := fmt.Sprintf("Read(%d) of open %q at %d", size, h.path, h.off)
	if !m.do(what, func() { n, err = h.f.Read(buf) }) {
		return
	}
	if h.overwritten {
		m.c.Count("handle_reads_after_overwrite", 1)
	}
	switch {
	case n < 0 || n > size || h.off+n > len(h.data) || !bytes.Equal(buf[:n], h.data[h.off:h.off+n]):
		m.fail("%s gives %d bytes that are not those it was opened with: %s", what, n, diffBytes(buf[:max(n, 0)], h.data[min(h.off, len(h.data)):]))
	case err != nil && err != io.EOF:
		m.fail("%s: %v", what, err)
	case err == io.EOF && h.off+n != len(h.data):
		m.fail("%s ends after %d of %d bytes", what, h.off+n, len(h.data))
	case err == nil && n == 0 && size > 0:
		m.fail("%s gives nothing and no error", what)
	}
	h.off += n
	for i := range buf {
		buf[i] = 0xDD
	}
}

func (m *memRun) sub(v memView, p string) {
	var s fs.FS
	var err error
	what := fmt.Sprintf("Sub(%s%q)", v.name, p)
	if !m.do(what, func() { s, err = v.fsys.Sub(p) }) {
		return
	}
	n, e := v.root.find(p)
	if e == mOK && !n.dir {
		e = mOther
	}
	if e == mInvalid {
		if e = mOther; p == "" {
			return
		}
	}
	m.judge(what, e, err)
	if err != nil || e != mOK {
		return
	}
	m.c.Count("sub_operations", 1)
	w, ok := s.(memWriter)
	if !ok {
		m.compareFS(s, n, what)
		return
	}
	if len(m.views) > 5 {
		m.views = append(m.views[:1], m.views[2:]...)
	}
	m.views = append(m.views, memView{w, n, v.name + p + ":"})
}

func (m *memRun) stat(v memView, p string) {
	var fi fs.FileInfo
	var err error
	what := fmt.Sprintf("Stat(%s%q)", v.name, p)
	if !m.do(what, func() { fi, err = fs.Stat(v.fsys, p) }) {
		return
	}
	n, e := v.root.find(p)
	m.judge(what, e, err)
	if err == nil && e == mOK {
		m.checkInfo(what, fi, n, p == ".")
	}
}

func (m *memRun) readFile(v memView, p string) {
	var b []byte
	var err error
	what := fmt.Sprintf("ReadFile(%s%q)", v.name, p)
	if !m.do(what, func() { b, err = fs.ReadFile(v.fsys, p) }) {
		return
	}
	n, e := v.root.find(p)
	if e == mOK && n.dir {
		e = mOther
	}
	m.judge(what, e, err)
	if err == nil && e == mOK && !bytes.Equal(b, n.data) {
		m.fail("%s: %s", what, diffBytes(b, n.data))
	}
	b = b[:cap(b)]
	for i := range b { // what was read is the reader's
		b[i] = 0xCC
	}
}

func (m *memRun) list(v memView, p string) {
	var es []fs.DirEntry
	var err error
	what := fmt.Sprintf("ReadDir(%s%q)", v.name, p)
	if !m.do(what, func() { es, err = fs.ReadDir(v.fsys, p) }) {
		return
	}
	n, e := v.root.find(p)
	if e == mOK && !n.dir {
		e = mOther
	}
	m.judge(what, e, err)
	if err != nil || e != mOK {
		return
	}
	m.checkList(what, es, n)
	for i := range es {
		es[i] = nil
	}
}

func (m *memRun) checkList(what string, es []fs.DirEntry, n *mnode) {
	names := sortedKeys(n.kids)
	if len(es) != len(names) {
		m.fail("%s: %d entries, expected %d", what, len(es), len(names))
		return
	}
	for i, d := range es {
		if d.Name() != names[i] {
			m.fail("%s: entry %d is %q, expected %q", what, i, d.Name(), names[i])
			return
		}
		k := n.kids[names[i]]
		if d.IsDir() != k.dir || d.Type().IsDir() != k.dir {
			m.fail("%s: entry %q: directory %v (type %v), expected %v", what, d.Name(), d.IsDir(), d.Type(), k.dir)
		}
		fi, err := d.Info()
		if err != nil {
			m.fail("%s: entry %q: %v", what, d.Name(), err)
			continue
		}
		m.checkInfo(what+" entry "+d.Name(), fi, k, false)
	}
}

// compareAll compares every view with its model.
func (m *memRun) compareAll() {
	for _, v := range m.views {
		if m.c.Failed() {
			return
		}
		m.c.Count("full_comparisons", 1)
		m.compareFS(v.fsys, v.root, v.name)
	}
}

func (m *memRun) compareFS(fsys fs.FS, n *mnode, what string) {
	keep := m.trace
	m.do("comparison", func() { m.compareDir(fsys, n, ".", what) })
	m.trace = keep
}

func (m *memRun) compareDir(fsys fs.FS, n *mnode, p, what string) {
	es, err := fs.ReadDir(fsys, p)
	if err != nil {
		m.fail("%s: listing %q: %v", what, p, err)
		return
	}
	m.checkList(what+p, es, n)
	for _, name := range sortedKeys(n.kids) {
		k, q := n.kids[name], path.Join(p, name)
		fi, err := fs.Stat(fsys, q)
		if err != nil {
			m.fail("%s: stat %q: %v", what, q, err)
			continue
		}
		m.checkInfo(what+q, fi, k, false)
		if k.dir {
			m.compareDir(fsys, k, q, what)
			continue
		}
		b, err := fs.ReadFile(fsys, q)
		if err != nil || !bytes.Equal(b, k.data) {
			m.fail("%s: content of %q: %v %s", what, q, err, diffBytes(b, k.data))
		}
	}
}

// ---------------------------------------------------------------- C15

var memPaths = []string{
	".", "a", "b", "c", "f", "a/a", "a/b", "a/f", "b/f", "c/f", "a/b/c", "a/b/f", "a/a/a", "a/b/c/d", "a/f/x", "f/x", "f/x/y", "a/b/f/g", "b/a/f",
	"missing/x", "x.y", "..a", "a/..b", "A", "a/b/c/d/e/f",
}

var memInvalid = []string{"", "/", "/a", "a/", "./a", "a//b", "..", "../a", "a/..", "a/../b", "a/.", "./", "//", "a/b/", "/a/b", "a/./b", "\xff"}

var memPerms = []fs.FileMode{0o644, 0o755, 0o600, 0, 0o777, 0o4755 &^ 0o4000, fs.ModeSetuid | 0o755, fs.ModeSticky | 0o1, fs.ModeSetgid | 0o640}

func memPath(r *rand.Rand) string {
	if r.Intn(12) == 0 {
		return memInvalid[r.Intn(len(memInvalid))]
	}
	return memPaths[r.Intn(len(memPaths))]
}

func memData(r *rand.Rand) []byte {
	switch r.Intn(12) {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		return genData(r, 40000)
	case 3:
		return bytes.Repeat([]byte{byte(r.Intn(256))}, []int{511, 512, 513, 4096}[r.Intn(4)])
	}
	return genData(r, 300)
}

func (m *memRun) step() {
	r := m.r
	v := m.views[r.Intn(len(m.views))]
	p := memPath(r)
	switch k := r.Intn(20); {
	case k < 4:
		m.mkdir(v, p, memPerms[r.Intn(len(memPerms))])
	case k < 9:
		if len(m.hs) > 0 && r.Intn(3) == 0 { // a file that is open
			v, p = m.views[0], m.hs[r.Intn(len(m.hs))].path
		}
		m.write(v, p, memData(r), memPerms[r.Intn(len(memPerms))])
	case k < 11:
		m.open(v, p)
	case k < 13:
		if len(m.hs) > 0 {
			h := m.hs[r.Intn(len(m.hs))]
			m.readHandle(h, []int{0, 1, 2, 10, 100, 1000, 50000}[r.Intn(7)])
			if r.Intn(3) == 0 {
				m.statHandle(h)
			}
		}
	case k < 14:
		if len(m.hs) > 0 && r.Intn(2) == 0 {
			i := r.Intn(len(m.hs))
			h := m.hs[i]
			m.hs = append(m.hs[:i:i], m.hs[i+1:]...)
			m.do("Close of "+h.path, func() {
				if err := h.f.Close(); err != nil {
					m.fail("closing %q: %v", h.path, err)
				}
			})
		}
	case k < 15:
		m.sub(v, p)
	case k < 16:
		m.stat(v, p)
	case k < 18:
		m.readFile(v, p)
	default:
		m.list(v, p)
	}
}

func casesC15(quick bool, seed int64) (out []Case) {
	out = append(out, batch("random", N(quick, 1200, 20000), 10, func(c *Ctx, r *rand.Rand, i int) {
		m := newMemRun(c, r)
		for s, n := 0, 5+r.Intn(80); s < n && !c.Failed(); s++ {
			m.step()
			if r.Intn(8) == 0 && !m.stuck {
				m.compareAll()
			}
		}
		if !m.stuck {
			m.compareAll()
			for _, h := range m.hs {
				m.readHandle(h, len(h.data)+1)
				m.statHandle(h)
			}
		}
		c.Count("random_sequences", 1)
		c.Eval([]byte(strings.Join(m.trace, ";")), m.did)
		c.Sample("%s", strings.Join(m.trace, "; "))
	})...)
	ops := exhaustiveOps()
	depth := N(quick, 3, 4)
	total := 1
	for i := 0; i < depth; i++ {
		total *= len(ops)
	}
	const parts = 64
	for k := 0; k < parts; k++ {
		k := k
		out = append(out, one(fmt.Sprintf("exhaustive-%02d", k), func(c *Ctx) {
			for x := k; x < total && !c.Failed(); x += parts {
				m := newMemRun(c, c.Rng)
				for y, i := x, 0; i < depth && !c.Failed(); i++ {
					ops[y%len(ops)](m)
					y /= len(ops)
				}
				if !m.stuck {
					m.compareAll()
					for _, h := range m.hs {
						m.readHandle(h, 3)
						m.readHandle(h, 100)
						m.statHandle(h)
					}
				}
				c.Count("exhaustive_sequences", 1)
				c.Eval([]byte(strings.Join(m.trace, ";")), m.did)
			}
		}))
	}
	out = append(out, one("invalid-everywhere", func(c *Ctx) {
		for _, p := range memInvalid {
			m := newMemRun(c, c.Rng)
			v := m.views[0]
			m.mkdir(v, "a/b", 0o755)
			m.write(v, "a/f", []byte("x"), 0o644)
			for _, op := range []func(){
				func() { m.mkdir(v, p, 0o755) }, func() { m.write(v, p, []byte("y"), 0o600) }, func() { m.open(v, p) },
				func() { m.stat(v, p) }, func() { m.list(v, p) }, func() { m.readFile(v, p) }, func() { m.sub(v, p) },
			} {
				op()
				m.compareAll()
			}
			c.Eval([]byte("invalid"+p), true)
		}
	}))
	out = append(out, one("wide-and-deep", func(c *Ctx) {
		m := newMemRun(c, c.Rng)
		v := m.views[0]
		deep := strings.Repeat("d/", 300) + "d"
		m.mkdir(v, deep, 0o700)
		m.write(v, deep+"/f", []byte("deep"), 0o600)
		m.mkdir(v, "wide", 0o711)
		for i := 0; i < 3000; i++ {
			m.write(v, fmt.Sprintf("wide/%d", c.Rng.Intn(5000)), []byte(fmt.Sprint(i)), 0o644)
			m.trace = m.trace[:0]
		}
		m.write(v, "big", bytes.Repeat([]byte("0123456789abcdef"), 1<<18), 0o644)
		for _, n := range []int{255, 256, 257, 1024, 4096, 5000} {
			m.mkdir(v, "wide/"+strings.Repeat("d", n)+"/"+strings.Repeat("e", n), 0o750)
			m.write(v, strings.Repeat("f", n), []byte("long"), 0o600)
			m.write(v, "wide/"+strings.Repeat("d", n)+"/"+strings.Repeat("e", n)+"/"+strings.Repeat("f", n), []byte("long"), 0o600)
			m.trace = m.trace[:0]
		}
		for i := 0; i < 70000; i += 1 + 64*boolInt(i < 60000) {
			m.write(v, fmt.Sprintf("wide/many-%d", i), nil, 0o644)
			m.trace = m.trace[:0]
		}
		m.write(v, "bigger", bytes.Repeat([]byte("0123456789abcdef"), 5<<20+1), 0o644)
		m.compareAll()
		c.Eval([]byte("wide"), true)
	}))
	return
}

// exhaustiveOps is the alphabet all short sequences are made from.
func exhaustiveOps() (ops []func(m *memRun)) {
	for _, p := range []string{"a", "a/b", "a/b/c", "a/f/g"} {
		for _, perm := range []fs.FileMode{0o700, 0o755} {
			if perm == 0o755 && p != "a/b" {
				continue
			}
			ops = append(ops, func(m *memRun) { m.mkdir(m.views[0], p, perm) })
		}
	}
	for i, p := range []string{"a", "f", "a/f", "a/b", "a/b/f", "f/x"} {
		data := []byte(strings.Repeat("x", i))
		ops = append(ops, func(m *memRun) { m.write(m.views[0], p, data, 0o644) })
		if i < 3 {
			ops = append(ops, func(m *memRun) { m.write(m.views[0], p, []byte("other content"), 0o600) })
		}
	}
	for _, p := range []string{"f", "a/f", "a"} {
		ops = append(ops, func(m *memRun) { m.open(m.views[0], p) })
	}
	ops = append(ops,
		func(m *memRun) {
			for _, h := range m.hs {
				m.readHandle(h, 2)
			}
		},
		func(m *memRun) { m.sub(m.views[0], "a") },
		func(m *memRun) { m.write(m.views[len(m.views)-1], "f", []byte("via the last view"), 0o640) },
		func(m *memRun) { m.mkdir(m.views[len(m.views)-1], "b/f", 0o711) },
		func(m *memRun) { m.list(m.views[0], "a") },
	)
	return
}

// ---------------------------------------------------------------- C16

// piece is one entry as it was presented.
type piece struct {
	name string
	dir  bool
	size int64
	perm fs.FileMode
}

func casesC16(quick bool, seed int64) (out []Case) {
	out = append(out, batch("pieces", N(quick, 800, 12000), 8, piecesRandom)...)
	out = append(out, batch("concurrent", N(quick, 160, 4000), 4, piecesConcurrent)...)
	out = append(out, batch("large", N(quick, 4, 12), 1, piecesLarge)...)
	// Every sequence of sizes up to a length, over directories of every small size.
	for n := 0; n <= 5; n++ {
		n := n
		out = append(out, one(fmt.Sprintf("all-sizes-%d", n), func(c *Ctx) {
			sizes := []int{-1, 0, 1, 2, 3, n, n + 1}
			depth := N(quick, 4, 6)
			total := 1
			for i := 0; i < depth; i++ {
				total *= len(sizes)
			}
			m, want := pieceDir(c.Rng, "d", n)
			if n == 0 {
				c.Count("empty_directories", 1)
			}
			for x := 0; x < total && !c.Failed(); x++ {
				h := openPieces(c, m, "d")
				if h == nil {
					return
				}
				var seq []int
				for y, i := x, 0; i < depth; i++ {
					h.read(c, sizes[y%len(sizes)], want, nil)
					seq = append(seq, sizes[y%len(sizes)])
					y /= len(sizes)
				}
				h.finish(c, want, nil)
				c.Eval([]byte(fmt.Sprint(n, seq)), n > 0)
			}
		}))
	}
	return
}

// piecesLarge reads directories of many entries, at once and in large pieces.
func piecesLarge(c *Ctx, r *rand.Rand, i int) {
	m := memfs.New()
	dir := []string{"d", "."}[i/2%2]
	must(m.MkdirAll(dir, 0o755))
	want := map[string][]piece{}
	n := []int{70000, 20000 + r.Intn(30000), 10000, 34000}[i%4]
	for k := 0; k < n; k++ {
		name := fmt.Sprintf("%c%05x", "aZ0~"[k%4], k)
		must(m.WriteFile(path.Join(dir, name), nil, 0o644))
		want[name] = []piece{{name, false, 0, 0o644}}
	}
	for _, sizes := range [][]int{{-1}, {0}, {n}, {n + 1}, {3, -1}, {n - 2, 1}, {1 << 16}, {1000, 0}, {4096}} {
		h := openPieces(c, m, dir)
		if h == nil {
			return
		}
		for _, s := range sizes {
			h.read(c, s, want, nil)
		}
		for k := 0; k < 200 && !h.ended && !c.Failed(); k++ {
			h.read(c, max(sizes[len(sizes)-1], 1), want, nil)
		}
		h.finish(c, want, nil)
		c.Eval([]byte(fmt.Sprint("large", n, sizes)), true)
		if c.Failed() {
			return
		}
	}
	c.Count("large_directories", 1)
}

func pieceDir(r *rand.Rand, dir string, n int) (*memfs.FS, map[string][]piece) {
	m := memfs.New()
	must(m.MkdirAll(dir, 0o755))
	want := map[string][]piece{}
	for len(want) < n {
		addPiece(r, m, dir, want, "")
	}
	return m, want
}

// addPiece creates an entry (or a new version of the named one) and notes what it looks like.
func addPiece(r *rand.Rand, m *memfs.FS, dir string, want map[string][]piece, name string) piece {
	if name == "" {
		for {
			name = fmt.Sprintf("%c%d", "!0aAz~_"[r.Intn(7)], r.Intn(10000))
			if _, ok := want[name]; !ok {
				break
			}
		}
	}
	perm := memPerms[r.Intn(len(memPerms))]
	old := want[name]
	if len(old) == 0 && r.Intn(4) == 0 {
		must(m.MkdirAll(path.Join(dir, name), perm))
		want[name] = []piece{{name, true, 0, perm}}
		return want[name][0]
	}
	if len(old) > 0 {
		if old[0].dir {
			return old[0]
		}
		perm = old[0].perm
	}
	data := make([]byte, r.Intn(2000))
	must(m.WriteFile(path.Join(dir, name), data, perm))
	p := piece{name, false, int64(len(data)), perm}
	want[name] = append(old, p)
	return p
}

type pieceReader struct {
	m     fs.FS
	d     fs.ReadDirFile
	dir   string
	seen  map[string]bool
	ended bool
	trace []string
	first map[string]int // entries at the first read, with the number of versions they had
}

func openPieces(c *Ctx, m fs.FS, dir string) *pieceReader {
	f, err := m.Open(dir)
	if err != nil {
		c.Fail("open of directory: %v", err)
		return nil
	}
	d, ok := f.(fs.ReadDirFile)
	if !ok {
		c.Fail("an open directory cannot be read")
		return nil
	}
	return &pieceReader{m: m, d: d, dir: dir, seen: map[string]bool{}}
}

func (h *pieceReader) read(c *Ctx, n int, want map[string][]piece, mu interface {
	Lock()
	Unlock()
}) {
	if h.first == nil {
		h.first = map[string]int{}
		if mu != nil {
			mu.Lock()
		}
		for k, v := range want {
			h.first[k] = len(v)
		}
		if mu != nil {
			mu.Unlock()
		}
	}
	es, err := h.d.ReadDir(n)
	h.trace = append(h.trace, fmt.Sprintf("ReadDir(%d) gave %d, %v", n, len(es), err))
	bad := func(format string, args ...any) {
		c.Fail("directory of %d entries: %s (%s)", len(h.first), fmt.Sprintf(format, args...), strings.Join(h.trace, "; "))
	}
	c.Count("pieces", 1)
	if n > 0 && len(es) > n {
		bad("more entries than asked for")
	}
	for _, e := range es {
		if e == nil {
			bad("nil entry")
			return
		}
		if h.seen[e.Name()] {
			bad("entry %q again", e.Name())
			return
		}
		h.seen[e.Name()] = true
		if mu != nil {
			mu.Lock()
		}
		vs := append([]piece(nil), want[e.Name()]...)
		if mu != nil {
			mu.Unlock()
		}
		if len(vs) == 0 && mu == nil {
			bad("entry %q does not exist", e.Name())
			return
		}
		if len(vs) == 0 {
			continue // being created right now
		}
		c.Count("entries_checked", 1)
		fi, ierr := e.Info()
		if ierr != nil {
			bad("entry %q: %v", e.Name(), ierr)
			continue
		}
		if e.IsDir() != vs[0].dir || e.Type().IsDir() != vs[0].dir || fi.IsDir() != vs[0].dir || fi.Name() != e.Name() || fi.Mode()&^fs.ModeDir != vs[0].perm {
			bad("entry %q: type %v, info %s; expected directory %v, permissions %v", e.Name(), e.Type(), infoString(fi), vs[0].dir, vs[0].perm)
		}
		ok := vs[0].dir
		for i := max(h.first[e.Name()]-1, 0); i < len(vs); i++ {
			ok = ok || vs[i].size == fi.Size()
		}
		if vs[0].dir && mu == nil {
			// Nothing is ever created inside of these directories.
			if st, err := fs.Stat(h.m, path.Join(h.dir, e.Name())); err != nil {
				bad("entry %q: stat: %v", e.Name(), err)
			} else if st.Size() != fi.Size() || st.Mode() != fi.Mode() {
				bad("entry %q: info %s, but stat gives %s", e.Name(), infoString(fi), infoString(st))
			}
		}
		if !ok && mu == nil {
			bad("entry %q: size %d, expected %v", e.Name(), fi.Size(), vs)
		}
	}
	// The result belongs to the caller, who may change and extend it.
	for k := range es {
		es[k] = nil
	}
	es2 := append(es, nil, nil)
	es = es2[:len(es)]
	c.Count("results_changed", 1)
	missing := ""
	for k := range h.first {
		if !h.seen[k] {
			missing = k
		}
	}
	switch {
	case n > 0 && err == io.EOF:
		if len(es) != 0 {
			bad("entries together with EOF")
		}
		if missing != "" {
			bad("ends without %q", missing)
		}
		c.Count("ends_seen", 1)
		h.ended = true
	case err != nil:
		bad("error")
	case n > 0 && len(es) == 0:
		bad("no entries and no error")
	case n <= 0:
		c.Count("rest_reads", 1)
		if missing != "" {
			bad("a read of all remaining entries leaves out %q", missing)
		}
		h.ended = true
	}
}

// finish reads to the end and beyond.
func (h *pieceReader) finish(c *Ctx, want map[string][]piece, mu interface {
	Lock()
	Unlock()
}) {
	for i := 0; i < 3*len(want)+10 && !h.ended && !c.Failed(); i++ {
		h.read(c, 1+i%3, want, mu)
	}
	for _, n := range []int{1, -1, 5, 0, 1} {
		if c.Failed() {
			return
		}
		es, err := h.d.ReadDir(n)
		h.trace = append(h.trace, fmt.Sprintf("ReadDir(%d) gave %d, %v", n, len(es), err))
		if len(es) != 0 {
			fresh := true
			for _, e := range es {
				_, old := h.first[e.Name()]
				fresh = fresh && !old && !h.seen[e.Name()]
			}
			if !fresh {
				c.Fail("entries after the end: %s", strings.Join(h.trace, "; "))
			}
			for _, e := range es {
				h.seen[e.Name()] = true
			}
			continue
		}
		if n > 0 && (err != io.EOF || len(es) != 0) || n <= 0 && (err != nil || len(es) != 0) {
			c.Fail("after the end: %s", strings.Join(h.trace, "; "))
		}
	}
	_ = h.d.Close()
}

func piecesRandom(c *Ctx, r *rand.Rand, i int) {
	n := []int{0, 1, 2, 3, 5, 10, 40, 300}[r.Intn(8)]
	if n == 0 {
		c.Count("empty_directories", 1)
	}
	dir := []string{".", "d", "d/e"}[r.Intn(3)]
	var m *memfs.FS
	var want map[string][]piece
	if dir == "." {
		m, want = memfs.New(), map[string][]piece{}
		for len(want) < n {
			addPiece(r, m, dir, want, "")
		}
	} else {
		m, want = pieceDir(r, dir, n)
	}
	var hs []*pieceReader
	for k := 1 + r.Intn(3); k > 0; k-- {
		if h := openPieces(c, m, dir); h != nil {
			hs = append(hs, h)
		}
	}
	if len(hs) > 1 {
		c.Count("handles_in_parallel", int64(len(hs)))
	}
	for s := 0; s < 10+2*n && !c.Failed(); s++ {
		h := hs[r.Intn(len(hs))]
		switch r.Intn(4) {
		case 0:
			if r.Intn(2) == 0 && len(want) > 0 {
				ks := sortedKeys(want)
				addPiece(r, m, dir, want, ks[r.Intn(len(ks))])
			} else {
				addPiece(r, m, dir, want, "")
			}
			c.Count("creations_between_pieces", 1)
		case 1:
			fi, err := h.d.Stat()
			if err != nil || !fi.IsDir() {
				c.Fail("stat of an open directory: %v", err)
			}
		default:
			if h.ended && r.Intn(3) > 0 {
				continue
			}
			if h.ended {
				continue
			}
			h.read(c, []int{1, 1, 2, 3, 7, 50, 1000, 1 << 40, -1, 0}[r.Intn(10)], want, nil)
		}
	}
	for _, h := range hs {
		h.finish(c, want, nil)
		c.Eval([]byte(strings.Join(h.trace, ";")), len(h.trace) > 7)
		c.Sample("%d entries: %s", n, strings.Join(h.trace, "; "))
	}
}

// piecesConcurrent reads handles while other goroutines create files in the directory.
func piecesConcurrent(c *Ctx, r *rand.Rand, i int) {
	lockPace(int64(r.Intn(3)) * 60)
	defer lockPace(0)
	n := []int{0, 1, 5, 30, 200}[r.Intn(5)]
	m, want := pieceDir(r, "d", n)
	var mu chanMutex = make(chan struct{}, 1)
	var stop atomic.Bool
	var created atomic.Int64
	done := make(chan bool, 16)
	for w := 0; w < 2; w++ {
		wr := rand.New(rand.NewSource(r.Int63()))
		w := w
		go func() {
			defer func() { done <- true }()
			for k := 0; !stop.Load() && k < 3000; k++ {
				p := fmt.Sprintf("d/%c%d-%d", "!mz"[wr.Intn(3)], w, k)
				var err error
				if wr.Intn(3) == 0 {
					err = m.MkdirAll(p, 0o755)
				} else {
					err = m.WriteFile(p, make([]byte, wr.Intn(100)), 0o644)
				}
				if err != nil {
					c.Fail("creating %q: %v", p, err)
					return
				}
				created.Add(1)
				runtime.Gosched()
			}
		}()
	}
	readers := 3
	for k := 0; k < readers; k++ {
		rr := rand.New(rand.NewSource(r.Int63()))
		go func() {
			defer func() { done <- true }()
			for q := 0; q < 4 && !c.Failed(); q++ {
				h := openPieces(c, m, "d")
				if h == nil {
					return
				}
				for s := 0; s < 5000 && !h.ended && !c.Failed(); s++ {
					sz := 1 + rr.Intn(40)
					if rr.Intn(30) == 0 {
						sz = -1
					}
					h.read(c, sz, want, mu)
					if rr.Intn(3) == 0 {
						runtime.Gosched()
					}
				}
				if !h.ended {
					c.Fail("reading a directory of %d entries in pieces does not end", n)
				}
				h.finish(c, want, mu)
				c.Eval([]byte(strings.Join(h.trace, ";")), true)
			}
		}()
	}
	for k := 0; k < readers; k++ {
		waitFor(c, done, "readers and writers of one directory")
	}
	stop.Store(true)
	for k := 0; k < 2; k++ {
		waitFor(c, done, "readers and writers of one directory")
	}
	c.Count("concurrent_creations", created.Load())
}

type chanMutex chan struct{}

func (m chanMutex) Lock()   { m <- struct{}{} }
func (m chanMutex) Unlock() { <-m }

// waitFor waits for a goroutine that uses the code under test.
func waitFor(c *Ctx, done chan bool, what string) bool {
	t := time.NewTimer(60 * time.Second)
	defer t.Stop()
	select {
	case <-done:
		return true
	case <-t.C:
		buf := make([]byte, 1<<20)
		c.Fail("%s: no progress within 60 s (deadlock?)\n%s", what, buf[:runtime.Stack(buf, true)])
		return false
	}
}
