package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/dpeckett/archivefs/arfs"
	"github.com/dpeckett/archivefs/erofs"
	"github.com/dpeckett/archivefs/tarfs"
)

func init() {
	register(&Prop{
		ID: "C12",
		Rule: "One evaluation runs one Create with one fault: a chosen destination write failing or short (alone, or with all later ones, or from a byte budget on), a chosen source operation failing, a file that delivers another number of bytes than it reports, or a source that changes between two operations. " +
			"Create must return an error for a fault it met; where it does report success, the output is decoded and must agree with what the source delivered. Non-trivial: the fault was delivered; distinct by source, position and kind.",
		MinEvents: []string{"write_faults_tar", "write_faults_ar", "write_faults_erofs", "short_writes", "last_write_faults", "source_faults_tar", "source_faults_ar", "source_faults_erofs",
			"op_open", "op_readdir", "op_info", "op_read", "op_readlink", "op_fstat", "size_lies", "honest_sizes", "changes_detected", "changed_but_consistent", "file_destinations", "partial_listings"},
		Cases: casesC12,
	})
}

func casesC12(quick bool, seed int64) (out []Case) {
	for _, kind := range []string{"tar", "ar", "erofs"} {
		kind := kind
		out = append(out, batch("write-"+kind, N(quick, 120, 6000), 4, func(c *Ctx, r *rand.Rand, i int) { writeFaults(c, r, kind) })...)
		out = append(out, batch("source-"+kind, N(quick, 120, 6000), 4, func(c *Ctx, r *rand.Rand, i int) { createSourceFaults(c, r, kind) })...)
		out = append(out, batch("sizes-"+kind, N(quick, 120, 6000), 4, func(c *Ctx, r *rand.Rand, i int) { sizeLies(c, r, kind) })...)
		out = append(out, batch("changes-"+kind, N(quick, 120, 6000), 4, func(c *Ctx, r *rand.Rand, i int) { sourceChanges(c, r, kind) })...)
	}
	out = append(out, batch("file-destinations", N(quick, 16, 400), 3, fileDestinations)...)
	return
}

// sourceFor makes a source tree the format can hold.
func sourceFor(r *rand.Rand, kind string) *Node {
	switch kind {
	case "ar":
		for {
			if t, reason := arSource(r); reason == "" && len(t.Kids) > 0 {
				return t
			}
		}
	case "erofs":
		if r.Intn(3) == 0 {
			return genTree(r, GenOpt{Nodes: 2 + r.Intn(8), Links: true, MaxData: 5000, NoXattr: true, BigDir: 30 * r.Intn(3)})
		}
		return genTree(r, GenOpt{Nodes: 2 + r.Intn(8), Links: true, MaxData: []int{100, 1500, 9000}[r.Intn(3)], NoXattr: true})
	}
	return genTree(r, GenOpt{Nodes: 2 + r.Intn(8), Links: true, MaxData: []int{100, 1500, 9000}[r.Intn(3)]})
}

// faultDst is a destination for every Create.
type faultDst struct {
	w      memWA
	pos    int64
	calls  int64
	failAt int64 // this write (1-based)
	all    bool  // and all later ones
	budget int64 // or every write beyond this many bytes (-1: none)
	mode   int
	failed int64
	short  int64
}

var errWrite = errors.New("injected write fault")

// fault decides on the fate of one write of n bytes.
func (d *faultDst) fault(n int) (keep int, err error, hit bool) {
	d.calls++
	if d.budget >= 0 {
		if d.budget >= int64(n) {
			d.budget -= int64(n)
			return n, nil, false
		}
		keep = int(d.budget)
		d.budget = 0
		d.failed++
		return keep, syscall.ENOSPC, true
	}
	if d.failAt == 0 || d.calls != d.failAt && !(d.all && d.calls > d.failAt) {
		return n, nil, false
	}
	d.failed++
	switch d.mode {
	case 0:
		return 0, errWrite, true
	case 1:
		return n / 2, errWrite, true
	case 2:
		return n, errWrite, true
	case 3:
		return n / 2, io.ErrShortWrite, true
	case 4:
		return 0, io.EOF, true
	case 5:
		if n == 0 {
			d.failed--
			return n, nil, false
		}
		d.short++
		return n - 1, nil, true
	default:
		if n == 0 {
			d.failed--
			return n, nil, false
		}
		d.short++
		return n / 2, nil, true
	}
}

func (d *faultDst) Write(p []byte) (int, error) {
	keep, err, _ := d.fault(len(p))
	_, _ = d.w.WriteAt(p[:keep], d.pos)
	d.pos += int64(keep)
	return keep, err
}

func (d *faultDst) WriteAt(p []byte, off int64) (int, error) {
	keep, err, _ := d.fault(len(p))
	if n, e := d.w.WriteAt(p[:keep], off); e != nil {
		return n, e
	}
	return keep, err
}

func createInto(kind string, d *faultDst, src fs.FS) error {
	switch kind {
	case "tar":
		return tarfs.Create(struct{ io.Writer }{d}, src)
	case "ar":
		return arfs.Create(struct{ io.Writer }{d}, src)
	}
	return erofs.Create(struct{ io.WriterAt }{d}, src)
}

func (d *faultDst) bytes(kind string) []byte {
	if kind == "erofs" {
		return d.w.padded()
	}
	return d.w.b
}

// healthyCreate runs Create without faults.
func healthyCreate(c *Ctx, kind string, src fs.FS, t *Node) (*faultDst, bool) {
	d := &faultDst{budget: -1}
	if err := createInto(kind, d, src); err != nil {
		c.Fail("%s: Create fails on an ordinary source: %v (%s)", kind, err, t.describe())
		return nil, false
	}
	return d, true
}

func writeFaults(c *Ctx, r *rand.Rand, kind string) {
	t := sourceFor(r, kind)
	fo := randFSOpts(r)
	ref, ok := healthyCreate(c, kind, newModelFS(t, fo), t)
	if !ok {
		return
	}
	total := ref.calls
	try := func(d *faultDst, what string) {
		var err error
		if p := guard(func() { err = createInto(kind, d, newModelFS(t, fo)) }); p != nil {
			c.Fail("%s: %s: panic: %v", kind, what, p)
			return
		}
		if d.failed == 0 {
			return
		}
		c.Count("write_faults_"+kind, 1)
		c.Count("short_writes", d.short)
		c.Eval(append([]byte(kind+what), t.sig()...), true)
		if err == nil {
			c.Fail("%s: %s: Create reports success (%s)", kind, what, t.describe())
		}
	}
	step := int64(1)
	if lim := int64(N(c.Quick, 60, 400)); total > lim {
		step = total / lim
	}
	for k := int64(1); k <= total && !c.Failed(); k++ {
		if total-k > 4 && k > 4 && r.Int63n(step) != 0 {
			continue
		}
		d := &faultDst{budget: -1, failAt: k, all: r.Intn(3) == 0, mode: r.Intn(7)}
		if k == total {
			c.Count("last_write_faults", 1)
		}
		try(d, fmt.Sprintf("write %d of %d fails (kind %d, later ones too: %v)", k, total, d.mode, d.all))
		if total-k < 3 { // finishing the archive: every kind
			for m := 0; m < 7 && !c.Failed(); m++ {
				try(&faultDst{budget: -1, failAt: k, mode: m}, fmt.Sprintf("write %d of %d fails (kind %d)", k, total, m))
			}
		}
	}
	size := int64(len(ref.w.b))
	for i := 0; i < 6 && !c.Failed(); i++ {
		b := r.Int63n(size)
		switch i {
		case 0:
			b = size - 1
		case 1:
			b = 0
		}
		try(&faultDst{budget: b}, fmt.Sprintf("destination is full after %d of %d bytes", b, size))
	}
	if c.Failed() {
		return
	}
	c.Sample("%s: %d writes, %d bytes: %s", kind, total, size, t.describe())
}

var createErrs = []error{errInjected, io.ErrUnexpectedEOF, fs.ErrNotExist, fs.ErrPermission, &fs.PathError{Op: "x", Path: "y", Err: syscall.EIO}, io.EOF, io.ErrNoProgress, fmt.Errorf("wrapped: %w", io.EOF), fmt.Errorf("wrapped: %w", fs.SkipDir)}

func createSourceFaults(c *Ctx, r *rand.Rand, kind string) {
	t := sourceFor(r, kind)
	fo := randFSOpts(r)
	if kind == "erofs" && r.Intn(4) == 0 {
		fo.Link = 1
	}
	type ev struct{ kind, path string }
	var log []ev
	fo.Op = func(k, p string) error { log = append(log, ev{k, p}); return nil }
	ref, ok := healthyCreate(c, kind, newModelFS(t, fo), t)
	if !ok {
		return
	}
	good := ref.bytes(kind)
	step := 1
	if lim := N(c.Quick, 80, 500); len(log) > lim {
		step = len(log) / lim
	}
	for k := range log {
		if c.Failed() {
			return
		}
		if k > 6 && len(log)-k > 6 && r.Intn(step) != 0 {
			continue
		}
		fault := createErrs[r.Intn(len(createErrs))]
		if log[k].kind == "read" && fault == io.EOF {
			fault = errInjected
		}
		all := r.Intn(4) == 0
		partial := r.Intn(3) == 0 && (log[k].kind == "read" || log[k].kind == "readdir")
		if partial {
			fault = partialErr{fault}
			c.Count("partial_"+map[string]string{"read": "reads", "readdir": "listings"}[log[k].kind], 1)
		}
		n, hits := -1, 0
		hitKind := ""
		fo2 := fo
		fo2.Op = func(op, p string) error {
			n++
			if n == k || all && n > k && op == hitKind && (op != "read") {
				if hitKind == "" {
					hitKind = op
				}
				hits++
				return fault
			}
			return nil
		}
		d := &faultDst{budget: -1}
		var err error
		what := fmt.Sprintf("operation %d of %d (%s %q) fails with %v", k+1, len(log), log[k].kind, log[k].path, fault)
		if p := guard(func() { err = createInto(kind, d, newModelFS(t, fo2)) }); p != nil {
			c.Fail("%s: %s: panic: %v", kind, what, p)
			return
		}
		if hits == 0 {
			continue
		}
		c.Count("source_faults_"+kind, 1)
		c.Count("op_"+hitKind, 1)
		c.Eval(append([]byte(kind+what), t.sig()...), true)
		if err == nil {
			switch {
			case hitKind != "close" && hitKind != "fstat": // an fstat may be no more than a hint (as in fs.ReadFile)
				c.Fail("%s: %s: Create reports success (%s)", kind, what, t.describe())
			case !bytes.Equal(d.bytes(kind), good):
				c.Fail("%s: %s: Create reports success, but the archive is another one than without the fault", kind, what)
			}
		}
	}
	c.Sample("%s: %d source operations: %s", kind, len(log), t.describe())
}

func sizeLies(c *Ctx, r *rand.Rand, kind string) {
	t := sourceFor(r, kind)
	var files []string
	t.each(func(p string, n *Node) {
		if n.IsReg() {
			files = append(files, p)
		}
	})
	if len(files) == 0 {
		return
	}
	delta := func(n *Node) int64 {
		d := []int64{1, -1, 2, -2, 511, 512, -512, 1024, -1023, 4096, -4096, 4095, 100000, -n.Size(), 1024 - n.Size(), 1025 - n.Size(), 4096 - n.Size(), 1 << 20}[r.Intn(18)]
		if n.Size()+d < 0 || d == 0 {
			return 1
		}
		return d
	}
	for k := 0; k < 8 && !c.Failed(); k++ {
		fo := randFSOpts(r)
		p := files[r.Intn(len(files))]
		if r.Intn(3) == 0 { // the last file is only settled when the archive is finished
			p = files[len(files)-1]
		}
		n := t.find(p)
		var l lie
		switch r.Intn(6) {
		case 0: // delivers other than reported
			l.Data = delta(n)
		case 1: // reported wrongly, both ways
			l.Info = delta(n)
			l.Stat = l.Info
		case 2:
			l.Info = delta(n)
		case 3:
			l.Stat = delta(n)
		case 4: // all agree: an honest file of another size
			l.Data = delta(n)
			l.Stat, l.Info = l.Data, l.Data
		case 5: // enough missing and enough there, in different files: totals agree
			l.Data = 1
			q := files[r.Intn(len(files))]
			if q != p && t.find(q).Size() > 0 {
				fo.Lies = map[string]lie{q: {Data: -1}}
			}
		}
		if fo.Lies == nil {
			fo.Lies = map[string]lie{}
		}
		fo.Lies[p] = l
		honest := true
		for _, l := range fo.Lies {
			if kind == "erofs" {
				honest = honest && l.Data == l.Stat
			} else {
				honest = honest && l.Data == l.Info
			}
		}
		what := fmt.Sprintf("sizes off by %+v (file %q of %d bytes)", fo.Lies, p, n.Size())
		d := &faultDst{budget: -1}
		var err error
		if pn := guard(func() { err = createInto(kind, d, newModelFS(t, fo)) }); pn != nil {
			c.Fail("%s: %s: panic: %v", kind, what, pn)
			return
		}
		c.Eval(append([]byte(kind+what), t.sig()...), true)
		if !honest {
			c.Count("size_lies", 1)
			if err == nil {
				c.Fail("%s: %s: Create reports success", kind, what)
			}
			continue
		}
		if err != nil {
			if l.Data == l.Stat && l.Data == l.Info {
				c.Fail("%s: %s: Create fails although the sizes agree: %v", kind, what, err)
			}
			continue
		}
		c.Count("honest_sizes", 1)
		want := map[string][][]byte{}
		t.each(func(p string, n *Node) {
			if n.IsReg() {
				want[p] = [][]byte{deliver(n, fo.Lies[p])}
			}
		})
		checkDelivered(c, kind, what, d.bytes(kind), want, true)
	}
}

// deliver is what reading a file of a lying source to its end gives.
func deliver(n *Node, l lie) []byte {
	b := make([]byte, n.Size()+l.Data)
	f := &mfile{m: &ModelFS{o: FSOpts{Lies: map[string]lie{"x": l}}}, n: n, p: "x"}
	_, err := io.ReadFull(f, b)
	must(err)
	return b
}

// checkDelivered opens an archive and requires every file to hold one of the contents the source had.
func checkDelivered(c *Ctx, kind, what string, blob []byte, want map[string][][]byte, all bool) {
	fsys, err := formatOf(kind).open(bytes.NewReader(blob))
	if err != nil {
		c.Fail("%s: %s: Create reports success, but the archive does not open: %v", kind, what, err)
		return
	}
	s := snapshot(fsys, snapOpt{noNegative: true})
	for _, p := range s.Problems {
		c.Fail("%s: %s: Create reports success, but: %s", kind, what, p)
	}
	if kind == "erofs" && all {
		_, f := runFsck(bytes.NewReader(blob), int64(len(blob)))
		for _, p := range f.probs {
			c.Fail("%s: %s: Create reports success, but: %s", kind, what, p)
		}
	}
	seen := 0
	for p, o := range s.M {
		if !o.Mode.IsRegular() {
			continue
		}
		seen++
		ok := false
		for _, w := range want[p] {
			ok = ok || bytes.Equal(w, o.Data)
		}
		if !ok {
			c.Fail("%s: %s: Create reports success, but %q holds %d bytes the source never had there", kind, what, p, len(o.Data))
		}
	}
	if all && seen != len(want) {
		c.Fail("%s: %s: Create reports success with %d of %d files", kind, what, seen, len(want))
	}
}

// sourceChanges modifies the source while it is being archived. Create may notice or not, but an archive
// it vouches for must be intact and made of contents the source had.
func sourceChanges(c *Ctx, r *rand.Rand, kind string) {
	base := sourceFor(r, kind)
	nops := 0
	fo := randFSOpts(r)
	fo.Op = func(string, string) error { nops++; return nil }
	ref, ok := healthyCreate(c, kind, newModelFS(base, fo), base)
	if !ok {
		return
	}
	good := ref.bytes(kind)
	for k := 0; k < 12 && !c.Failed(); k++ {
		t := base.clone()
		want := map[string][][]byte{}
		note := func() {
			t.each(func(p string, n *Node) {
				if n.IsReg() {
					want[p] = append(want[p], append([]byte(nil), n.Data...))
				}
			})
		}
		note()
		at, n := r.Intn(nops), 0
		what := ""
		fo2 := fo
		var m *ModelFS
		fo2.Op = func(string, string) error {
			if n++; n-1 == at {
				what = fmt.Sprintf("before operation %d of %d: %s", n, nops, mutateSource(r, t, kind))
				if m != nil {
					m.index = nil
				}
				note()
			}
			return nil
		}
		src := newModelFSPtr(t, fo2, &m)
		d := &faultDst{budget: -1}
		var err error
		if pn := guard(func() { err = createInto(kind, d, src) }); pn != nil {
			c.Fail("%s: %s: panic: %v", kind, what, pn)
			return
		}
		c.Eval(append([]byte(kind+what), t.sig()...), true)
		if err != nil {
			c.Count("changes_detected", 1)
			continue
		}
		if bytes.Equal(good, d.bytes(kind)) {
			c.Count("changes_too_late", 1)
			continue
		}
		c.Count("changed_but_consistent", 1)
		checkDelivered(c, kind, what, d.bytes(kind), want, false)
	}
}

// mutateSource changes one thing of the tree in place.
func mutateSource(r *rand.Rand, t *Node, kind string) string {
	var files, dirs, links []*Node
	t.each(func(p string, n *Node) {
		switch {
		case n.IsReg():
			files = append(files, n)
		case n.IsDir():
			dirs = append(dirs, n)
		case n.IsLink():
			links = append(links, n)
		}
	})
	for {
		switch r.Intn(6) {
		case 0, 1: // a file changes its size (never only its bytes: nothing could notice that)
			if len(files) == 0 {
				continue
			}
			n := files[r.Intn(len(files))]
			nd := make([]byte, []int{0, 1, 5, 100, 1024, 1025, 4096, 5000, 20000}[r.Intn(9)])
			if len(nd) == len(n.Data) {
				nd = append(nd, 0)
			}
			r.Read(nd)
			old := len(n.Data)
			n.Data = nd
			return fmt.Sprintf("file %q goes from %d to %d bytes", n.Name, old, len(nd))
		case 2: // a file appears
			d := dirs[r.Intn(len(dirs))]
			name := fmt.Sprintf("%cnew%d", "!aZz~"[r.Intn(5)], r.Intn(1000))
			if d.kid(name) != nil {
				continue
			}
			d.Kids = append(append([]*Node(nil), d.Kids...), &Node{Name: name, Mode: 0o644, MTime: time.Unix(1, 0), Data: []byte("new content")})
			d.sort()
			return fmt.Sprintf("%q appears in %q", name, d.Name)
		case 3: // an entry disappears
			d := dirs[r.Intn(len(dirs))]
			if len(d.Kids) == 0 {
				continue
			}
			k := r.Intn(len(d.Kids))
			name := d.Kids[k].Name
			d.Kids = append(append([]*Node(nil), d.Kids[:k]...), d.Kids[k+1:]...)
			return fmt.Sprintf("%q disappears from %q", name, d.Name)
		case 4: // an entry is renamed
			d := dirs[r.Intn(len(dirs))]
			if len(d.Kids) == 0 {
				continue
			}
			k := r.Intn(len(d.Kids))
			n := d.Kids[k].clone()
			old := n.Name
			n.Name = strings.Repeat("r", 1+(len(n.Name)-1)%15)
			if d.kid(n.Name) != nil {
				continue
			}
			d.Kids = append([]*Node(nil), d.Kids...)
			d.Kids[k] = n
			d.sort()
			return fmt.Sprintf("%q becomes %q in %q", old, n.Name, d.Name)
		case 5: // a link is replaced
			if len(links) == 0 {
				continue
			}
			n := links[r.Intn(len(links))]
			n.Target += "x"
			return fmt.Sprintf("link %q grows", n.Name)
		}
	}
}

// fileDestinations makes real files fail: closed, read-only, full, or impossible to bring to length.
func fileDestinations(c *Ctx, r *rand.Rand, i int) {
	t := sourceFor(r, "erofs")
	var w memWA
	src := func() fs.FS { return newModelFS(t, FSOpts{Link: 2}) }
	if err := erofs.Create(&w, src()); err != nil {
		c.Fail("Create fails on an ordinary source: %v", err)
		return
	}
	name := filepath.Join(c.Scratch(), fmt.Sprintf("dst%d", i))
	defer os.Remove(name)
	try := func(what string, f *os.File, open bool) {
		err := erofs.Create(f, src())
		c.Count("file_destinations", 1)
		c.Eval(append([]byte(what), t.sig()...), true)
		if err == nil {
			c.Fail("%s: Create reports success", what)
		}
		if open {
			f.Close()
		}
	}
	f, err := os.Create(name)
	must(err)
	f.Close()
	try("closed file", f, false)
	f, err = os.Open(name)
	must(err)
	try("file opened for reading", f, true)
	if f, err = os.OpenFile("/dev/full", os.O_WRONLY, 0); err == nil {
		try("full device", f, true)
	}
	// A file that can be written within its size but not brought to another one.
	for _, v := range []struct {
		what string
		size int64
		seal uintptr
	}{{"file that cannot grow", int64(len(w.b)), 4}, {"file that cannot shrink", int64(len(w.padded())) + 4096, 2}} {
		if v.seal == 4 && len(w.b)%4096 == 0 {
			continue
		}
		nm := append([]byte("vmon"), 0)
		fd, _, e := syscall.Syscall(319, uintptr(unsafe.Pointer(&nm[0])), 2, 0) // memfd_create(MFD_ALLOW_SEALING)
		if e != 0 {
			continue
		}
		mf := os.NewFile(fd, "memfd")
		must(mf.Truncate(v.size))
		if _, _, e := syscall.Syscall(syscall.SYS_FCNTL, fd, 1033, v.seal); e != 0 { // F_ADD_SEALS
			mf.Close()
			continue
		}
		c.Count("sealed_destinations", 1)
		try(v.what, mf, true)
	}
}
