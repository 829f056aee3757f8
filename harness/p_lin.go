package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"io"
	"io/fs"
	"math/rand"
	"path"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/dpeckett/archivefs/memfs"
)

func init() {
	register(&Prop{
		ID: "C14",
		Rule: "One evaluation runs a concurrent history of operations on one in-memory filesystem, with random pauses at the boundaries of its critical sections, and checks the recorded history offline for linearizability against a model of the filesystem (porcupine); contents are unique, so that mixed or torn ones are recognised at once. " +
			"Longer runs are judged by online checks of versions, permissions and listings. The race detector watches both. Non-trivial: operations overlapped; distinct by the order of calls and returns.",
		MinEvents: []string{"histories_linearizable", "operations", "overlapping_operations", "lin_mkdir", "lin_write", "lin_read", "lin_stat", "lin_list", "lin_sub", "failed_operations", "versions_read", "empty_versions_read", "listings_checked", "permission_contests", "handles_kept"},
		Cases:     casesC14,
		Assumptions: []string{
			"creating a path with several missing parents is several operations, one per directory",
			"histories porcupine cannot decide within 20 s count as undecided, not as violations",
		},
	})
}

func casesC14(quick bool, seed int64) (out []Case) {
	out = append(out, batch("history", N(quick, 1000, 20000), 30, linHistory)...)
	out = append(out, batch("versions", N(quick, 96, 1500), 2, versionStress)...)
	out = append(out, batch("contest", N(quick, 64, 1500), 20, permContest)...)
	out = append(out, batch("tree", N(quick, 96, 1500), 4, treeContest)...)
	return
}

// ---------------------------------------------------------------- linearizability

var linPaths = []string{"a", "b", "f", "a/x", "a/y", "a/b", "a/b/x", "a/b/c", "b/x", "a/b/c/x"}

const nLin = 10

// linState holds for every path 0 (missing), a directory or a file.
type linState [nLin]uint32

const (
	linDir  = 1 << 31
	linFile = 1 << 30
)

func linVal(isDir bool, perm fs.FileMode, id int) uint32 {
	if isDir {
		return linDir | uint32(perm.Perm())<<16
	}
	return linFile | uint32(perm.Perm())<<16 | uint32(id)
}

var linParent, linKids = func() (par [nLin]int, kids map[int][]int) {
	kids = map[int][]int{}
	idx := map[string]int{".": -1}
	for i, p := range linPaths {
		idx[p] = i
	}
	for i, p := range linPaths {
		par[i] = idx[path.Dir(p)]
		kids[par[i]] = append(kids[par[i]], i)
	}
	return
}()

func (s *linState) isDir(i int) bool { return i == -1 || s[i]&linDir != 0 }

// blocked reports whether some proper prefix of the path, or the path itself, is a file.
func (s *linState) blocked(i int) bool {
	for ; i >= 0; i = linParent[i] {
		if s[i]&linFile != 0 {
			return true
		}
	}
	return false
}

type linOp struct {
	kind string // mkdir, write, read, stat, list, sub
	path int
	perm fs.FileMode
	id   int
	last bool
	what string
}

type linOut struct {
	err  bool
	val  uint32            // read, stat
	list map[string]uint32 // list
}

var linModel = porcupine.Model{
	Init: func() interface{} { return linState{} },
	Step: func(state, input, output interface{}) (bool, interface{}) {
		s := state.(linState)
		in, out := input.(linOp), output.(linOut)
		i := in.path
		switch in.kind {
		case "mkdir":
			if !out.err {
				if !s.isDir(linParent[i]) || s[i]&linFile != 0 {
					return false, s
				}
				if s[i] == 0 {
					s[i] = linVal(true, in.perm, 0)
				}
				return true, s
			}
			switch {
			case s.blocked(i):
				return true, s // this level was not made
			case in.last:
				return false, s // nothing is in the way
			case s[i]&linDir != 0:
				return true, s
			case s.isDir(linParent[i]):
				s[i] = linVal(true, in.perm, 0)
				return true, s
			}
			return false, s
		case "write":
			may := s.isDir(linParent[i]) && s[i]&linDir == 0
			if out.err || !may {
				return out.err != may, s
			}
			perm := in.perm
			if s[i] != 0 {
				perm = fs.FileMode(s[i]>>16) & 0o777
			}
			s[i] = linVal(false, perm, in.id)
			return true, s
		case "read", "stat":
			if i == -1 {
				return !out.err && out.val&linDir != 0, s
			}
			if out.err {
				return s[i] == 0, s
			}
			return s[i] == out.val, s
		case "sub":
			return out.err != s.isDir(i), s
		case "list":
			if out.err {
				return !s.isDir(i), s
			}
			if !s.isDir(i) {
				return false, s
			}
			n := 0
			for _, k := range linKids[i] {
				v, ok := out.list[path.Base(linPaths[k])]
				if ok {
					n++
				}
				if v != s[k] {
					return false, s
				}
			}
			return n == len(out.list), s
		}
		panic(harnessErr{fmt.Errorf("operation %q", in.kind)})
	},
	Equal: func(a, b interface{}) bool { return a.(linState) == b.(linState) },
	DescribeOperation: func(input, output interface{}) string {
		in, out := input.(linOp), output.(linOut)
		return fmt.Sprintf("%s err=%v val=%x list=%x", in.what, out.err, out.val, out.list)
	},
}

// Contents are determined by their number; their size is unique, too.
func linContent(id int) []byte {
	b := make([]byte, 64+id*13%1000*16+id)
	binary.LittleEndian.PutUint32(b, uint32(id))
	for i := 4; i < len(b); i++ {
		b[i] = byte(id*7 + i*i)
	}
	return b
}

var linSizes = func() map[int64]int {
	m := map[int64]int{}
	for id := 1; id <= 400; id++ {
		n := int64(len(linContent(id)))
		if _, ok := m[n]; ok {
			panic("content sizes are not unique")
		}
		m[n] = id
	}
	return m
}()

type linRun struct {
	c     *Ctx
	clock atomic.Int64
	mu    sync.Mutex
	ops   []porcupine.Operation
	order []byte
	act   atomic.Int64
	over  atomic.Int64
	n     atomic.Int64
	id    atomic.Int64
	kinds map[string]int64
	errs  int64
}

func (l *linRun) record(client int, in linOp, call, ret int64, out linOut) {
	l.mu.Lock()
	l.ops = append(l.ops, porcupine.Operation{ClientId: client, Input: in, Call: call, Output: out, Return: ret})
	l.kinds[in.kind]++
	if out.err {
		l.errs++
	}
	l.mu.Unlock()
}

// timed runs the operation between two ticks of the history's clock.
func (l *linRun) timed(fn func()) (call, ret int64) {
	l.n.Add(1)
	call = l.clock.Add(1)
	if l.act.Add(1) > 1 {
		l.over.Add(1)
	}
	fn()
	l.act.Add(-1)
	return call, l.clock.Add(1)
}

func (l *linRun) infoVal(what string, fi fs.FileInfo) (uint32, bool) {
	if fi.IsDir() {
		return linVal(true, fi.Mode(), 0), true
	}
	id, ok := linSizes[fi.Size()]
	if !ok {
		l.c.Fail("%s: size %d was never written", what, fi.Size())
	}
	return linVal(false, fi.Mode(), id), ok
}

// one runs a random operation through a view whose root is the path base ("" for the whole).
func (l *linRun) one(client int, r *rand.Rand, m *memfs.FS, base string, buf *[]byte, mix int) {
	i := r.Intn(nLin)
	if mix == 1 { // one directory
		i = []int{0, 3, 4}[r.Intn(3)]
	} else if mix == 2 { // one file
		i = 2
	}
	full := linPaths[i]
	p := full
	if base != "" {
		if !strings.HasPrefix(full, base+"/") {
			full = base + "/" + []string{"x", "b", "b/x"}[r.Intn(3)]
			for k, q := range linPaths {
				if q == full {
					i = k
				}
			}
			if linPaths[i] != full {
				return
			}
		}
		p = strings.TrimPrefix(full, base+"/")
	}
	perm := fs.FileMode([]int{0o644, 0o600, 0o755}[r.Intn(3)])
	kind := r.Intn(12)
	switch {
	case kind < 2:
		var err error
		call, ret := l.timed(func() { err = m.MkdirAll(p, perm) })
		if base == "" {
			// One operation per level.
			for k, first := i, true; k >= 0; k, first = linParent[k], false {
				l.record(client, linOp{kind: "mkdir", path: k, perm: perm, last: first, what: fmt.Sprintf("MkdirAll %q %v level %q", full, perm, linPaths[k])}, call, ret, linOut{err: err != nil})
			}
			return
		}
		for k, first := i, true; linPaths[k] != base; k, first = linParent[k], false {
			l.record(client, linOp{kind: "mkdir", path: k, perm: perm, last: first, what: fmt.Sprintf("MkdirAll %q %v level %q", full, perm, linPaths[k])}, call, ret, linOut{err: err != nil})
		}
	case kind < 6:
		id := int(l.id.Add(1))
		*buf = append((*buf)[:0], linContent(id)...)
		var err error
		call, ret := l.timed(func() { err = m.WriteFile(p, *buf, perm) })
		for k := range *buf {
			(*buf)[k] = 0xEE
		}
		l.record(client, linOp{kind: "write", path: i, perm: perm, id: id, what: fmt.Sprintf("WriteFile %q %v content %d", full, perm, id)}, call, ret, linOut{err: err != nil})
	case kind < 9:
		var f fs.File
		var err error
		call, ret := l.timed(func() { f, err = m.Open(p) })
		out := linOut{err: err != nil}
		what := fmt.Sprintf("Open %q", full)
		if err == nil {
			if r.Intn(2) == 0 {
				runtime.Gosched()
			}
			fi, serr := f.Stat()
			if serr != nil {
				l.c.Fail("%s: Stat: %v", what, serr)
				return
			}
			var ok bool
			if out.val, ok = l.infoVal(what, fi); !ok {
				return
			}
			if !fi.IsDir() {
				// Reading happens later: the handle keeps what it was opened with.
				var d []byte
				pb := make([]byte, 1+r.Intn(3000))
				for {
					n, rerr := f.Read(pb)
					d = append(d, pb[:n]...)
					if r.Intn(3) == 0 {
						runtime.Gosched()
					}
					if rerr == io.EOF {
						break
					}
					if rerr != nil {
						l.c.Fail("%s: Read: %v", what, rerr)
						return
					}
				}
				id := int(out.val & 0xffff)
				if !bytes.Equal(d, linContent(id)) {
					l.c.Fail("%s: the file reports the size of content %d, but reads: %s", what, id, diffBytes(d, linContent(id)))
				}
				if f2, serr := f.Stat(); serr != nil || infoString(f2) != infoString(fi) {
					l.c.Fail("%s: Stat of the open file changed: %v", what, serr)
				}
				f.Close()
			}
		}
		l.record(client, linOp{kind: "read", path: i, what: what}, call, ret, out)
	case kind < 10:
		var fi fs.FileInfo
		var err error
		call, ret := l.timed(func() { fi, err = fs.Stat(m, p) })
		out := linOut{err: err != nil}
		what := fmt.Sprintf("Stat %q", full)
		if err == nil {
			var ok bool
			if out.val, ok = l.infoVal(what, fi); !ok {
				return
			}
		}
		l.record(client, linOp{kind: "stat", path: i, what: what}, call, ret, out)
	case kind < 11:
		if base != "" || r.Intn(4) > 0 && mix != 1 {
			i, full, p = linParent[i], path.Dir(full), path.Dir(p)
			if base != "" && i >= 0 && !strings.HasPrefix(linPaths[i], base) {
				return
			}
		}
		if mix == 1 {
			i, full, p = 0, "a", "a"
			if base != "" {
				p = "."
			}
		}
		what := fmt.Sprintf("ReadDir %q", full)
		var es []fs.DirEntry
		var err error
		var infos []fs.FileInfo
		call, ret := l.timed(func() {
			es, err = fs.ReadDir(m, p)
			for _, e := range es {
				fi, ierr := e.Info()
				if ierr != nil {
					l.c.Fail("%s: info of %q: %v", what, e.Name(), ierr)
					return
				}
				infos = append(infos, fi)
			}
		})
		out := linOut{err: err != nil}
		if err == nil {
			out.list = map[string]uint32{}
			for k, e := range es {
				if _, dup := out.list[e.Name()]; dup {
					l.c.Fail("%s: %q twice", what, e.Name())
				}
				if k < len(infos) {
					v, ok := l.infoVal(what, infos[k])
					if !ok {
						return
					}
					out.list[e.Name()] = v
				}
			}
		}
		l.record(client, linOp{kind: "list", path: i, what: what}, call, ret, out)
	default:
		if base != "" {
			return
		}
		var err error
		call, ret := l.timed(func() { _, err = m.Sub(p) })
		l.record(client, linOp{kind: "sub", path: i, what: fmt.Sprintf("Sub %q", full)}, call, ret, linOut{err: err != nil})
	}
}

func linHistory(c *Ctx, r *rand.Rand, i int) {
	lockPace([]int64{0, 30, 100, 180}[r.Intn(4)])
	defer lockPace(0)
	l0, c0, p0 := lockStats()
	l := &linRun{c: c, kinds: map[string]int64{}}
	m := memfs.New()
	var buf []byte
	mix := r.Intn(4)
	for k := r.Intn(6); k > 0; k-- { // a beginning without concurrency
		l.one(0, r, m, "", &buf, 0)
	}
	var sub *memfs.FS
	if r.Intn(3) == 0 {
		var s fs.FS
		_ = m.MkdirAll("a", 0o755)
		l.record(0, linOp{kind: "mkdir", path: 0, perm: 0o755, last: true, what: "MkdirAll a"}, l.clock.Add(1), l.clock.Add(1), linOut{})
		s, err := m.Sub("a")
		if err != nil {
			if len(l.ops) > 1 { // "a" may be a file
				l.ops = l.ops[:len(l.ops)-1]
			} else {
				c.Fail("Sub of a directory: %v", err)
			}
		}
		sub, _ = s.(*memfs.FS)
	}
	g := 2 + r.Intn(4)
	per := 2 + r.Intn(5)
	done := make(chan bool, g)
	start := make(chan struct{})
	for k := 0; k < g; k++ {
		gr := rand.New(rand.NewSource(r.Int63()))
		go func(k int) {
			defer func() { done <- true }()
			defer func() {
				if p := recover(); p != nil {
					c.Fail("panic in concurrent use: %v\n%s", p, stackOf())
				}
			}()
			var buf []byte
			<-start
			for n := 0; n < per; n++ {
				v, base := m, ""
				if sub != nil && gr.Intn(2) == 0 {
					v, base = sub, "a"
				}
				l.one(k+1, gr, v, base, &buf, mix)
			}
		}(k)
	}
	close(start)
	for k := 0; k < g; k++ {
		if !waitFor(c, done, "concurrent operations") {
			return
		}
	}
	// What is there in the end.
	for k, p := range linPaths {
		var fi fs.FileInfo
		var err error
		call, ret := l.timed(func() { fi, err = fs.Stat(m, p) })
		out := linOut{err: err != nil}
		if err == nil {
			out.val, _ = l.infoVal("Stat "+p, fi)
		}
		l.record(0, linOp{kind: "stat", path: k, what: fmt.Sprintf("final Stat %q", p)}, call, ret, out)
	}
	l1, c1, p1 := lockStats()
	c.Count("lock_acquisitions", l1-l0)
	c.Count("lock_contended", c1-c0)
	c.Count("lock_pauses", p1-p0)
	c.Count("operations", l.n.Load())
	c.Count("overlapping_operations", l.over.Load())
	c.Count("failed_operations", l.errs)
	for k, n := range l.kinds {
		c.Count("lin_"+k, n)
	}
	h := fnv.New64a()
	for _, o := range l.ops {
		fmt.Fprint(h, o.Call, o.Return, o.Input.(linOp).what, o.Output.(linOut).val)
	}
	c.Eval(h.Sum(nil), l.over.Load() > 0)
	if c.Failed() {
		return
	}
	switch porcupine.CheckOperationsTimeout(linModel, l.ops, 20*time.Second) {
	case porcupine.Ok:
		c.Count("histories_linearizable", 1)
		c.Sample("%d operations by %d goroutines, %d overlapping", len(l.ops), g, l.over.Load())
	case porcupine.Unknown:
		c.Count("histories_undecided", 1)
	default:
		var b strings.Builder
		for _, o := range l.ops {
			fmt.Fprintf(&b, "\n  [%d,%d] goroutine %d: %s", o.Call, o.Return, o.ClientId, linModel.DescribeOperation(o.Input, o.Output))
		}
		c.Fail("no sequential order of these operations explains their results:%s", b.String())
	}
}

// ---------------------------------------------------------------- longer runs

// versionStress has one writer per file and many readers. A reader must see a version at least as new as the
// last one completed before it began and no newer than the last one started before it ended.
func versionStress(c *Ctx, r *rand.Rand, i int) {
	lockPace([]int64{0, 10, 60}[r.Intn(3)])
	defer lockPace(0)
	m := memfs.New()
	must(m.MkdirAll("d/e", 0o755))
	files := []string{"f", "d/f", "d/e/f", "d/g"}
	type state struct{ started, done atomic.Int64 }
	st := make([]state, len(files))
	perms := []fs.FileMode{0o600, 0o644, 0o755, 0o640}
	scale := make([]int, len(files)) // some contents are large
	for k := range scale {
		scale[k] = []int{1, 1, 5, 30}[r.Intn(4)]
	}
	// Now and then the file is emptied.
	blank := int64(3 + r.Intn(9))
	content := func(k int, v int64) []byte {
		if v%blank == 0 {
			return nil
		}
		b := make([]byte, 24+int(v*37%4000)*scale[k])
		binary.LittleEndian.PutUint64(b, uint64(v))
		binary.LittleEndian.PutUint64(b[8:], uint64(k))
		for i := 16; i < len(b); i++ {
			b[i] = byte(v)
		}
		return b
	}
	// newer checks what a reader of file k saw.
	newer := func(what string, k int, b []byte, size int64, lo, hi int64) int64 {
		if len(b) == 0 {
			if size != 0 {
				c.Fail("%s: %q reports %d bytes, but has none", what, files[k], size)
			}
			v := hi - hi%blank
			if v < lo || v < 1 {
				c.Fail("%s: %q is empty, although none of the versions %d to %d is", what, files[k], lo, hi)
				return 0
			}
			c.Count("empty_versions_read", 1)
			return v
		}
		if len(b) < 24 {
			c.Fail("%s: %q has %d bytes", what, files[k], len(b))
			return 0
		}
		v := int64(binary.LittleEndian.Uint64(b))
		if want := content(k, v); v < 1 || v > 1<<20 || !bytes.Equal(b, want) {
			c.Fail("%s: %q holds a content that was never written: %s", what, files[k], diffBytes(b, want))
			return 0
		}
		if size != int64(len(b)) {
			c.Fail("%s: %q reports %d bytes, but has %d", what, files[k], size, len(b))
		}
		if v < lo || v > hi {
			c.Fail("%s: %q has version %d, although version %d was complete before and %d the last started", what, files[k], v, lo, hi)
		}
		c.Count("versions_read", 1)
		return v
	}
	var stop atomic.Bool
	var reads, writes atomic.Int64
	done := make(chan bool, 32)
	versions := int64(N(c.Quick, 120, 400))
	for k := range files {
		go func() {
			defer func() { done <- true }()
			buf := make([]byte, 0, 5000)
			for v := int64(1); v <= versions && !c.Failed(); v++ {
				buf = append(buf[:0], content(k, v)...)
				st[k].started.Store(v)
				perm := perms[k]
				if v > 1 {
					perm = 0o777 &^ perms[k] // must be ignored
				}
				if err := m.WriteFile(files[k], buf, perm); err != nil {
					c.Fail("writing %q: %v", files[k], err)
				}
				st[k].done.Store(v)
				for i := range buf {
					buf[i] = 0xEE
				}
				writes.Add(1)
			}
		}()
	}
	for q := 0; q < 4; q++ {
		rr := rand.New(rand.NewSource(r.Int63()))
		go func() {
			defer func() { done <- true }()
			defer func() {
				if p := recover(); p != nil {
					c.Fail("panic in concurrent use: %v\n%s", p, stackOf())
				}
			}()
			for !stop.Load() && !c.Failed() {
				k := rr.Intn(len(files))
				lo := st[k].done.Load()
				reads.Add(1)
				switch rr.Intn(4) {
				case 0, 1: // open, read later
					f, err := m.Open(files[k])
					hi := st[k].started.Load()
					if err != nil {
						if lo > 0 || !isNotExist(err) {
							c.Fail("open of %q after version %d: %v", files[k], lo, err)
						}
						continue
					}
					fi, err := f.Stat()
					if err != nil {
						c.Fail("stat: %v", err)
						continue
					}
					for x := rr.Intn(4); x > 0; x-- {
						runtime.Gosched()
					}
					b, err := io.ReadAll(f)
					if err != nil {
						c.Fail("read: %v", err)
					}
					newer("open and read", k, b, fi.Size(), lo, hi)
					if fi.Mode() != perms[k] {
						c.Fail("%q has permissions %v, created with %v", files[k], fi.Mode(), perms[k])
					}
					c.Count("handles_kept", 1)
				case 2: // stat
					fi, err := fs.Stat(m, files[k])
					if err != nil {
						if lo > 0 || !isNotExist(err) {
							c.Fail("stat of %q after version %d: %v", files[k], lo, err)
						}
						continue
					}
					if fi.Mode() != perms[k] {
						c.Fail("%q has permissions %v, created with %v", files[k], fi.Mode(), perms[k])
					}
				case 3: // listings contain what was there before
					dir := path.Dir(files[k])
					es, err := fs.ReadDir(m, dir)
					if err != nil {
						c.Fail("listing %q: %v", dir, err)
						continue
					}
					found := false
					last := ""
					for _, e := range es {
						if e.Name() <= last {
							c.Fail("listing of %q is not sorted: %q after %q", dir, e.Name(), last)
						}
						last = e.Name()
						if e.Name() == path.Base(files[k]) {
							found = true
							fi, err := e.Info()
							if err != nil || fi.Mode() != perms[k] {
								c.Fail("entry %q: %v, permissions %v, created with %v", e.Name(), err, fi.Mode(), perms[k])
							}
						}
					}
					if !found && lo > 0 {
						c.Fail("listing of %q lacks %q, which was written before", dir, files[k])
					}
					c.Count("listings_checked", 1)
				}
			}
		}()
	}
	// Creators of other files in the same directories.
	for q := 0; q < 2; q++ {
		rr := rand.New(rand.NewSource(r.Int63()))
		go func() {
			defer func() { done <- true }()
			for x := 0; !stop.Load() && x < 4000; x++ {
				var err error
				name := fmt.Sprintf("%sz%d-%d", []string{"", "d/", "d/e/"}[rr.Intn(3)], q, rr.Intn(300))
				if rr.Intn(3) > 0 {
					err = m.WriteFile(name, []byte("0123456789abcdef01234567"), 0o644)
				} else {
					err = m.MkdirAll(strings.Replace(name, "z", "y", 1)+"/sub", 0o755)
				}
				if err != nil {
					c.Fail("creating %q: %v", name, err)
				}
			}
		}()
	}
	for k := 0; k < len(files); k++ { // any four of them: writers end by themselves, readers do not
		if !waitFor(c, done, "writers and readers") {
			return
		}
	}
	stop.Store(true)
	for k := 0; k < 6; k++ {
		if !waitFor(c, done, "writers and readers") {
			return
		}
	}
	for k := range files {
		if c.Failed() {
			return
		}
		if st[k].done.Load() != versions {
			continue
		}
		b, err := fs.ReadFile(m, files[k])
		if err != nil {
			c.Fail("final read: %v", err)
			continue
		}
		newer("final read", k, b, int64(len(b)), versions, versions)
	}
	c.Count("operations", reads.Load()+writes.Load())
	c.Eval([]byte(fmt.Sprint(i, reads.Load(), writes.Load())), true)
}

// permContest lets several goroutines create the same file with different permissions: one of them wins, once.
func permContest(c *Ctx, r *rand.Rand, i int) {
	lockPace([]int64{0, 60, 160}[r.Intn(3)])
	defer lockPace(0)
	m := memfs.New()
	must(m.MkdirAll("d", 0o755))
	g := 2 + r.Intn(4)
	start := make(chan struct{})
	done := make(chan bool, g)
	seen := make([]fs.FileMode, g)
	for k := 0; k < g; k++ {
		go func() {
			defer func() { done <- true }()
			<-start
			if err := m.WriteFile("d/f", []byte{byte(k)}, fs.FileMode(0o600+k)); err != nil {
				c.Fail("write: %v", err)
				return
			}
			fi, err := fs.Stat(m, "d/f")
			if err != nil {
				c.Fail("stat of a file just written: %v", err)
				return
			}
			seen[k] = fi.Mode()
		}()
	}
	close(start)
	for k := 0; k < g; k++ {
		if !waitFor(c, done, "creators of one file") {
			return
		}
	}
	fi, err := fs.Stat(m, "d/f")
	if err != nil {
		c.Fail("stat: %v", err)
		return
	}
	for k, s := range seen {
		if !c.Failed() && s != fi.Mode() {
			c.Fail("the file created once had permissions %v for goroutine %d and %v in the end", s, k, fi.Mode())
		}
	}
	c.Count("permission_contests", 1)
	c.Eval([]byte(fmt.Sprint(i, seen)), true)
}

// treeContest lets goroutines build one tree together, each with its own files: nothing may be lost.
func treeContest(c *Ctx, r *rand.Rand, i int) {
	lockPace([]int64{0, 30, 120}[r.Intn(3)])
	defer lockPace(0)
	m := memfs.New()
	g := 3 + r.Intn(4)
	depth := 1 + r.Intn(4)
	n := 20
	start := make(chan struct{})
	done := make(chan bool, g)
	for k := 0; k < g; k++ {
		gr := rand.New(rand.NewSource(r.Int63()))
		go func() {
			defer func() { done <- true }()
			<-start
			for x := 0; x < n && !c.Failed(); x++ {
				dir := ""
				for d := 0; d < depth; d++ {
					dir = path.Join(dir, fmt.Sprint(gr.Intn(2)))
				}
				if err := m.MkdirAll(dir, 0o755); err != nil {
					c.Fail("MkdirAll %q: %v", dir, err)
					return
				}
				var w memWriter = m
				p := path.Join(dir, fmt.Sprintf("f%d-%d", k, x))
				q := p
				if gr.Intn(2) == 0 {
					s, err := m.Sub(dir)
					if err != nil {
						c.Fail("Sub of %q, just made: %v", dir, err)
						return
					}
					if sw, ok := s.(memWriter); ok {
						w, q = sw, path.Base(p)
					}
				}
				if err := w.WriteFile(q, []byte(p), 0o644); err != nil {
					c.Fail("WriteFile %q into a directory just made: %v", p, err)
					return
				}
				b, err := fs.ReadFile(m, p)
				if err != nil || string(b) != p {
					c.Fail("ReadFile %q, just written: %q, %v", p, b, err)
					return
				}
				es, err := fs.ReadDir(m, dir)
				found := false
				for _, e := range es {
					found = found || e.Name() == path.Base(p)
				}
				if err != nil || !found {
					c.Fail("listing of %q lacks %q, just written (%v)", dir, path.Base(p), err)
					return
				}
			}
		}()
	}
	close(start)
	for k := 0; k < g; k++ {
		if !waitFor(c, done, "builders of one tree") {
			return
		}
	}
	if c.Failed() {
		return
	}
	files := 0
	err := fs.WalkDir(m, ".", func(p string, d fs.DirEntry, err error) error {
		if err == nil && !d.IsDir() {
			files++
			b, rerr := fs.ReadFile(m, p)
			if rerr != nil || string(b) != p {
				c.Fail("%q holds %q, %v", p, b, rerr)
			}
		}
		return err
	})
	if err != nil || files != g*n {
		c.Fail("%d of %d files are there in the end (%v)", files, g*n, err)
	}
	c.Count("trees_built", 1)
	c.Eval([]byte(fmt.Sprint("tree", i, g, depth)), true)
}
