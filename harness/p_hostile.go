package main

import (
	"archive/tar"
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"runtime/metrics"
	"strings"
	"time"

	"github.com/dpeckett/archivefs"
	"github.com/dpeckett/archivefs/erofs"
)

func init() {
	register(&Prop{
		ID: "C09",
		Rule: "One evaluation opens one input (a damaged or crafted archive, or noise) as tar, ar or EROFS and uses whatever was opened: full walk, all queries with odd paths, inode API. Every operation runs under a monitor " +
			"for panics, number of source reads and heap allocation; process death (stack overflow, out of memory) and missing progress are seen from outside. Non-trivial: distinct input bytes that are not an intact archive.",
		MinEvents: []string{"opened_tar", "opened_ar", "opened_erofs", "refused_tar", "refused_ar", "refused_erofs", "operations", "errors_returned", "single_byte_edits", "dir_cycles_walked"},
		MemLimit:  4 << 30,
		Cases:     casesC09,
		Assumptions: []string{"tar archives with sparse members of more than 16 MiB logical size or names of more than 400 components are only given to the probes for the listed known findings",
			"recursive directory graphs are walked to 400 nodes"},
	})
}

// budget watches the resources single operations take.
type budget struct {
	c         *Ctx
	what      string
	ra        *memRA
	in        int64 // size of the input
	delivered int64
	ops       int64
	errs      int64
	maxAlloc  int64
	maxCalls  int64
	sample    []metrics.Sample
	allocMax  int64
}

func newBudget(c *Ctx, what string, ra *memRA) *budget {
	return &budget{c: c, what: what, ra: ra, in: int64(len(ra.b)), sample: []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}}
}

func (b *budget) allocs() int64 {
	metrics.Read(b.sample)
	return int64(b.sample[0].Value.Uint64())
}

// op runs one operation of the code under test; out is the size of its output.
func (b *budget) op(name string, arg string, fn func() (out int64, err error)) {
	b.ops++
	b.ra.calls = 0
	b.ra.bytes = 0
	// A path may make an implementation follow some hundred links, each with a target as long as the input.
	b.ra.limit = 200000 + 2000*b.in + 200*int64(len(arg))
	light := name == "Read" && b.ops%16 != 0
	var before int64
	if !light {
		before = b.allocs()
	}
	var out int64
	var err error
	if p := guard(func() { out, err = fn() }); p != nil {
		b.c.Fail("%s: %s(%.200q) panics: %v", b.what, name, arg, p)
	}
	if err != nil {
		b.errs++
	}
	b.maxCalls = max(b.maxCalls, b.ra.calls)
	if light {
		return
	}
	d := b.allocs() - before
	b.allocMax = max(b.allocMax, d)
	if limit := 32<<20 + 2000*b.in + 64*out + 2000*int64(len(arg)) + 1024*b.ra.calls + 8*b.ra.bytes; d > limit {
		b.c.Fail("%s: %s(%.200q) allocates %d bytes for %d bytes of input and %d of output", b.what, name, arg, d, b.in, out)
	}
}

type budgetFS struct {
	fs.FS
	b *budget
}

type budgetLinkFS struct {
	budgetFS
	l archivefs.ReadLinkFS
}

func (b *budget) wrap(fsys fs.FS) fs.FS {
	f := budgetFS{fsys, b}
	if l, ok := fsys.(archivefs.ReadLinkFS); ok {
		return &budgetLinkFS{f, l}
	}
	return &f
}

var errPanicked = fmt.Errorf("panicked")

func (f *budgetFS) Open(name string) (fl fs.File, err error) {
	err = errPanicked
	f.b.op("Open", name, func() (int64, error) { fl, err = f.FS.Open(name); return 0, err })
	if err == nil {
		fl = &budgetFile{fl, f.b, name}
	}
	return
}

func (f *budgetFS) Stat(name string) (fi fs.FileInfo, err error) {
	err = errPanicked
	f.b.op("Stat", name, func() (int64, error) { fi, err = fs.Stat(f.FS, name); return 0, err })
	return
}

func (f *budgetFS) ReadDir(name string) (es []fs.DirEntry, err error) {
	err = errPanicked
	f.b.op("ReadDir", name, func() (int64, error) {
		es, err = fs.ReadDir(f.FS, name)
		return int64(len(es)) * 64, err
	})
	for i, e := range es {
		es[i] = &budgetEntry{e, f.b, name}
	}
	return
}

func (f *budgetLinkFS) ReadLink(name string) (t string, err error) {
	err = errPanicked
	f.b.op("ReadLink", name, func() (int64, error) { t, err = f.l.ReadLink(name); return int64(len(t)), err })
	return
}

func (f *budgetLinkFS) StatLink(name string) (fi fs.FileInfo, err error) {
	err = errPanicked
	f.b.op("StatLink", name, func() (int64, error) { fi, err = f.l.StatLink(name); return 0, err })
	return
}

type budgetEntry struct {
	fs.DirEntry
	b *budget
	p string
}

func (e *budgetEntry) Info() (fi fs.FileInfo, err error) {
	err = errPanicked
	e.b.op("DirEntry.Info", e.p, func() (int64, error) { fi, err = e.DirEntry.Info(); return 0, err })
	return
}

func (e *budgetEntry) Type() (m fs.FileMode) {
	e.b.op("DirEntry.Type", e.p, func() (int64, error) { m = e.DirEntry.Type(); return 0, nil })
	return
}

type budgetFile struct {
	fs.File
	b *budget
	p string
}

func (f *budgetFile) Read(p []byte) (n int, err error) {
	err = errPanicked
	f.b.op("Read", f.p, func() (int64, error) { n, err = f.File.Read(p); return int64(n), nil })
	if n < 0 || n > len(p) {
		f.b.c.Fail("%s: Read of %q returns %d for a buffer of %d", f.b.what, f.p, n, len(p))
		return 0, io.ErrUnexpectedEOF
	}
	return
}

func (f *budgetFile) Stat() (fi fs.FileInfo, err error) {
	err = errPanicked
	f.b.op("File.Stat", f.p, func() (int64, error) { fi, err = f.File.Stat(); return 0, err })
	return
}

// attack opens the input and uses what was opened in every way.
func attack(c *Ctx, r *rand.Rand, kind string, blob []byte, extra ...string) {
	if kind == "tar" && hugeSparse(blob) {
		c.Count("left_to_probe", 1)
		return
	}
	ra := &memRA{b: blob, eof: r.Intn(2) == 0}
	b := newBudget(c, kind+" input of "+fmt.Sprint(len(blob))+" bytes", ra)
	f := map[string]format{"tar": fmtTar, "ar": fmtAr, "erofs": fmtErofs}[kind]
	var fsys fs.FS
	b.op("open archive", "", func() (n int64, err error) {
		fsys, err = f.open(ra)
		if err == nil && fsys == nil {
			err = fmt.Errorf("no filesystem")
		}
		return 0, err
	})
	defer func() {
		c.Count("operations", b.ops)
		c.Count("errors_returned", b.errs)
		c.Eval(append([]byte(kind), blob...), true)
		if c.Failed() {
			n := min(len(blob), 4096)
			c.Fail("the input began with %q", blob[:n])
		}
	}()
	if b.errs > 0 || fsys == nil {
		c.Count("refused_"+kind, 1)
	} else {
		c.Count("opened_"+kind, 1)
		w := b.wrap(fsys)
		s := snapshot(w, snapOpt{rng: r, tolerate: true, noNegative: r.Intn(4) > 0, maxNodes: 400, maxFile: []int64{40000, 40000, 1 << 20}[r.Intn(3)]})
		var names []string
		for _, p := range sortedKeys(s.M) {
			o := s.M[p]
			if len(names) < 40 {
				names = append(names, o.Kids...)
				names = append(names, p)
			}
		}
		n := 2
		if len(names) > 1 {
			n = 8
		}
		qs := extra
		for i := 0; i < n; i++ {
			qs = append(qs, weirdPath(r, names))
		}
		for _, q := range qs {
			_, _ = fs.Stat(w, q)
			_, _ = fs.ReadDir(w, q)
			if fl, err := w.Open(q); err == nil {
				_, _, _ = readStyled(fl, r.Intn(6), r, 100000)
				_, _ = fl.Stat()
				_ = fl.Close()
				_, _ = fl.Read(make([]byte, 10))
			}
			if l, ok := w.(archivefs.ReadLinkFS); ok {
				_, _ = l.ReadLink(q)
				_, _ = l.StatLink(q)
			}
		}
		if c.Failed() {
			return
		}
	}
	if kind == "erofs" {
		attackImage(b, r, ra)
	}
}

// attackImage uses the image and inode API.
func attackImage(b *budget, r *rand.Rand, ra *memRA) {
	var img *erofs.Image
	b.op("OpenImage", "", func() (n int64, err error) { img, err = erofs.OpenImage(ra); return 0, err })
	if img == nil {
		return
	}
	nids := []uint64{img.RootNid(), 0, 1, 1 << 63, 1<<64 - 1, 1 << 58, 1<<59 - 1, 1 << 59}
	for i := 0; i < 6; i++ {
		nids = append(nids, uint64(r.Intn(len(ra.b)/32+3)), hostileInt(r, len(ra.b)))
	}
	for _, nid := range nids {
		var ino erofs.Inode
		var ierr error
		b.op("Inode", fmt.Sprint(nid), func() (int64, error) {
			ino, ierr = img.Inode(nid)
			return 0, ierr
		})
		if ierr != nil {
			continue
		}
		b.op("Inode accessors", fmt.Sprint(nid), func() (int64, error) {
			_ = []any{ino.Mode(), ino.Size(), ino.Mtime(), ino.MtimeNsec(), ino.UID(), ino.GID(), ino.Nlink(), ino.IsDir(), ino.IsRegular(), ino.IsSymlink(),
				ino.IsBlockDev(), ino.IsCharDev(), ino.IsFIFO(), ino.IsSocket(), ino.Layout(), ino.DataLayout(), ino.Nid()}
			return 0, nil
		})
		b.op("Readlink", fmt.Sprint(nid), func() (int64, error) { t, err := ino.Readlink(); return int64(len(t)), err })
		var names []string
		k := 0
		b.op("IterDirents", fmt.Sprint(nid), func() (int64, error) {
			err := ino.IterDirents(func(n string, _ uint8, _ uint64) error {
				if len(names) < 5 {
					names = append(names, n)
				}
				k++
				return nil
			})
			return int64(k) * 64, err
		})
		for _, n := range append(names, "x", "", strings.Repeat("y", 300)) {
			b.op("Lookup", n, func() (int64, error) { _, err := ino.Lookup(n); return 0, err })
		}
		var rd io.Reader
		b.op("Data", fmt.Sprint(nid), func() (n int64, err error) { rd, err = ino.Data(); return 0, err })
		if rd != nil {
			buf := make([]byte, 70000)
			for i, end := 0, false; i < 20 && !end; i++ {
				b.op("Data.Read", fmt.Sprint(nid), func() (int64, error) {
					n, err := rd.Read(buf[:r.Intn(len(buf))])
					end = err != nil
					return int64(n), err
				})
			}
		}
	}
}

func casesC09(quick bool, seed int64) (out []Case) {
	for _, kind := range []string{"tar", "ar", "erofs"} {
		kind := kind
		out = append(out, batch("mutants-"+kind, N(quick, 64, 3000), 4, func(c *Ctx, r *rand.Rand, i int) {
			s := genSeed(r, kind)
			for k := 0; k < 30 && !c.Failed(); k++ {
				attack(c, r, kind, mutate(r, s))
			}
		})...)
		out = append(out, batch("noise-"+kind, N(quick, 8, 200), 60, func(c *Ctx, r *rand.Rand, i int) {
			attack(c, r, kind, rawInput(r, kind))
		})...)
		out = append(out, batch("other-"+kind, N(quick, 2, 20), 20, func(c *Ctx, r *rand.Rand, i int) { // another kind of archive
			attack(c, r, kind, genSeed(r, []string{"tar", "ar", "erofs"}[r.Intn(3)]).blob)
		})...)
		parts := N(quick, 8, 64)
		for k := 0; k < parts; k++ {
			k := k
			out = append(out, one(fmt.Sprintf("edits-%s-%02d", kind, k), func(c *Ctx) { singleByteEdits(c, kind, k, quick) }))
		}
	}
	out = append(out, batch("prefixes", N(quick, 6, 60), 1, func(c *Ctx, r *rand.Rand, i int) {
		kind := []string{"tar", "ar", "erofs"}[i%3]
		s := genSeed(r, kind)
		for n := 0; n < len(s.blob) && !c.Failed(); n += 1 + r.Intn(1+len(s.blob)/400) {
			attack(c, r, kind, s.blob[:n:n])
		}
	})...)
	out = append(out, batch("cycles", N(quick, 8, 80), 6, attackCycles)...)
	out = append(out, batch("nameoff", N(quick, 12, 64), 1, func(c *Ctx, r *rand.Rand, i int) { attackNameOff(c, r, i, quick) })...)
	out = append(out, batch("fields-erofs", N(quick, 16, 300), 1, attackFields)...)
	out = append(out, batch("links-tar", N(quick, 8, 60), 4, attackTarLinks)...)
	out = append(out, batch("sizes-ar", N(quick, 2, 20), 20, attackArSizes)...)
	out = append(out, one("probe-known", probeKnown))
	return
}

// singleByteEdits changes every byte of the structures of a small archive to several values.
func singleByteEdits(c *Ctx, kind string, part int, quick bool) {
	r := c.Rng
	var blob []byte
	var pos []int
	for try := 0; ; try++ {
		s := genSeed(r, kind)
		if len(s.offs) == 0 && try < 20 {
			continue
		}
		blob = s.blob
		span := map[string]int{"tar": 512, "ar": 60, "erofs": 64}[kind]
		if len(s.offs) > 3 {
			r.Shuffle(len(s.offs), func(i, j int) { s.offs[i], s.offs[j] = s.offs[j], s.offs[i] })
			s.offs = s.offs[:3]
		}
		for _, o := range s.offs {
			for i := 0; i < span && o+i < len(blob); i++ {
				pos = append(pos, o+i)
			}
		}
		break
	}
	for _, p := range pos {
		for _, v := range []byte{0, 1, blob[p] + 1, blob[p] - 1, 0x7f, 0x80, 0xff, '9', '/', ' ', blob[p] ^ 0x40} {
			if v == blob[p] || quick && r.Intn(3) > 0 {
				continue
			}
			b := bytes.Clone(blob)
			b[p] = v
			switch kind {
			case "tar":
				h := b[p/512*512:]
				if len(h) >= 512 && (p%512 < 148 || p%512 >= 156) {
					fixTarSum(h[:512])
				}
			case "erofs":
				fixErofsSum(b)
			}
			c.Count("single_byte_edits", 1)
			attack(c, r, kind, b)
			if c.Failed() {
				return
			}
		}
	}
}

// attackCycles makes directories that contain themselves or their parents, with links through them.
func attackCycles(c *Ctx, r *rand.Rand, i int) {
	t := genTree(r, GenOpt{Nodes: 6, Plain: true, Links: false, MaxData: 100, NoXattr: true, NoMeta: true})
	add := func(d, n *Node) { d.Kids = append(d.Kids, n); d.sort() }
	dirs := []*Node{t}
	t.each(func(p string, n *Node) {
		if n.IsDir() && n != t {
			dirs = append(dirs, n)
		}
	})
	if t.kid("zz") == nil {
		add(t, &Node{Name: "zz", Mode: fs.ModeDir | 0o755})
		dirs = append(dirs, t.kid("zz"))
	}
	for k := 0; k < 3; k++ {
		d := dirs[r.Intn(len(dirs))]
		if d.kid("loop") == nil {
			add(d, &Node{Name: "loop", Mode: fs.ModeDir | 0o755, Kids: nil})
		}
		if d.kid("lnk") == nil {
			add(d, &Node{Name: "lnk", Mode: fs.ModeSymlink | 0o777, Target: []string{"loop/lnk", "loop/loop/loop/x", "../loop/lnk", "/loop/lnk/lnk", "lnk", strings.Repeat("loop/", 300) + "lnk"}[r.Intn(6)]})
		}
	}
	o := randEroOpt(r)
	o.MetaBlk = min(o.MetaBlk, 6)
	img, _, exp := buildEROFS(r, t, o)
	if img.size > 1<<22 {
		return
	}
	blob := img.bytes()
	// Redirect the entries called loop to any directory.
	var targets []uint64
	for _, p := range sortedKeys(exp) {
		e := exp[p]
		if n := t.find(p); n != nil && n.IsDir() {
			targets = append(targets, e.Nid)
		}
	}
	n := int64(0)
	for _, p := range sortedKeys(exp) {
		e := exp[p]
		if strings.HasSuffix(p, "loop") && len(targets) > 0 {
			to := targets[r.Intn(len(targets))]
			// every 8 aligned+4 pattern of the nid inside entries
			var pat [8]byte
			binary.LittleEndian.PutUint64(pat[:], e.Nid)
			for at := 0; at+12 <= len(blob); at += 4 {
				if bytes.Equal(blob[at:at+8], pat[:]) && blob[at+10] == 2 && e.Nid != 0 {
					binary.LittleEndian.PutUint64(blob[at:], to)
					n++
				}
			}
		}
	}
	fixErofsSum(blob)
	c.Count("dir_cycles_walked", n)
	var extra []string
	for _, p := range []string{"zz/loop", "loop", "lnk", "zz/lnk", "loop/lnk"} {
		extra = append(extra, p, strings.Repeat("loop/", 1000)+p, p+strings.Repeat("/loop", 500))
	}
	attack(c, r, "erofs", blob, extra...)
}

// attackNameOff gives the entries of a directory every interesting name offset.
func attackNameOff(c *Ctx, r *rand.Rand, i int, quick bool) {
	t := genTree(r, GenOpt{Nodes: 2 + r.Intn(6), Plain: true, Flat: true, MaxData: 50, NoXattr: true, NoMeta: true})
	o := randEroOpt(r)
	o.Bits, o.MetaBlk = 9+uint(r.Intn(4)), 4
	img, _, exp := buildEROFS(r, t, o)
	if img.size > 1<<20 {
		return
	}
	orig := img.bytes()
	// The root directory's entries: find "." or the first kid by its nid.
	var at []int
	for _, p := range sortedKeys(exp) {
		e := exp[p]
		var pat [8]byte
		binary.LittleEndian.PutUint64(pat[:], e.Nid)
		for k := 1152; k+12 <= len(orig); k += 4 {
			if bytes.Equal(orig[k:k+8], pat[:]) && orig[k+11] == 0 && orig[k+10] <= 7 && orig[k+10] > 0 && len(at) < 12 && e.Nid > 0 {
				at = append(at, k)
			}
		}
	}
	bs := 1 << o.Bits
	if quick && len(at) > 6 {
		r.Shuffle(len(at), func(i, j int) { at[i], at[j] = at[j], at[i] })
		at = at[:6]
	}
	for _, k := range at {
		for v := 0; v < 65536; {
			b := bytes.Clone(orig)
			binary.LittleEndian.PutUint16(b[k+8:], uint16(v))
			fixErofsSum(b)
			c.Count("name_offsets", 1)
			attack(c, r, "erofs", b)
			if c.Failed() {
				return
			}
			switch {
			case v < 64 || v > bs-40 && v < bs+16:
				v += 1 + r.Intn(1+2*boolInt(quick))
			default:
				v += 1 + r.Intn(N(quick, 12000, 1500))
			}
		}
	}
}

// attackFields sets fields of inodes and the superblock to extreme values, several at once.
func attackFields(c *Ctx, r *rand.Rand, i int) {
	t := genTree(r, GenOpt{Nodes: 8, Plain: true, Links: true, MaxData: 6000, NoXattr: true})
	o := randEroOpt(r)
	o.Bits, o.MetaBlk = 9+uint(r.Intn(5)), min(o.MetaBlk, 4)
	img, _, exp := buildEROFS(r, t, o)
	if img.size > 1<<22 {
		return
	}
	orig := img.bytes()
	var nids []uint64
	for _, p := range sortedKeys(exp) {
		e := exp[p]
		nids = append(nids, e.Nid)
	}
	type field struct{ off, n int }
	fields := []field{{0, 2}, {2, 2}, {4, 2}, {6, 2}, {8, 4}, {8, 8}, {16, 4}, {32, 8}, {40, 4}, {44, 4}}
	sb := []field{{8, 4}, {12, 1}, {13, 1}, {14, 2}, {16, 8}, {24, 8}, {32, 4}, {36, 4}, {40, 4}, {44, 4}, {80, 4}, {84, 2}, {86, 2}, {90, 1}}
	for k := 0; k < 120 && !c.Failed(); k++ {
		b := bytes.Clone(orig)
		put := func(base int, f field) {
			v := hostileInt(r, len(b))
			if f.n == 2 && f.off == 0 && r.Intn(3) > 0 { // format
				v = uint64(r.Intn(2) | r.Intn(5)<<1)
			}
			if f.off == 4 && f.n == 2 && r.Intn(2) == 0 { // type
				v = uint64([]int{0o100644, 0o040755, 0o120777, 0o010644, 0o020644, 0o060644, 0o140644}[r.Intn(7)])
			}
			for j := 0; j < f.n && base+f.off+j < len(b); j++ {
				b[base+f.off+j] = byte(v >> (8 * j))
			}
		}
		for j := 1 + r.Intn(3); j > 0; j-- {
			if r.Intn(5) == 0 {
				put(1024, sb[r.Intn(len(sb))])
			} else {
				put(int(o.MetaBlk<<o.Bits)+int(nids[r.Intn(len(nids))])*32, fields[r.Intn(len(fields))])
			}
		}
		fixErofsSum(b)
		attack(c, r, "erofs", b)
	}
}

// attackTarLinks makes webs of hard links and symlinks with long and cyclic targets.
func attackTarLinks(c *Ctx, r *rand.Rand, i int) {
	var buf bytes.Buffer
	w := tar.NewWriter(&buf)
	n := 3 + r.Intn(12)
	var extra []string
	for k := 0; k < n; k++ {
		h := &tar.Header{Name: fmt.Sprintf("l%d", k), Typeflag: tar.TypeSymlink, Mode: 0o777, Format: tar.FormatPAX, ModTime: time.Unix(0, 0)}
		if r.Intn(4) == 0 {
			h.Name = fmt.Sprintf("l%d/l%d", r.Intn(n), r.Intn(n))
		}
		if r.Intn(6) == 0 {
			h.Typeflag = tar.TypeLink
		}
		if r.Intn(6) == 0 {
			h.Typeflag = tar.TypeDir
		}
		extra = append(extra, h.Name)
		if h.Typeflag != tar.TypeDir {
			to := fmt.Sprintf("l%d", r.Intn(n))
			switch r.Intn(7) {
			case 0:
				to += strings.Repeat("/x", 1000*r.Intn(20))
			case 1:
				to = strings.Repeat("x/../", r.Intn(3000)) + to
			case 2:
				to = "/" + to + "/" + to
			case 3:
				to = strings.Repeat("../", r.Intn(3000)) + to
			case 4:
				to = to + "/" + fmt.Sprintf("l%d", r.Intn(n)) + strings.Repeat("/.", r.Intn(2000)) + "/.."
			case 5:
				to = strings.Repeat(to+"/", 1+r.Intn(2000)) + to
			}
			if h.Typeflag == tar.TypeLink && r.Intn(2) == 0 {
				to = h.Name
			}
			h.Linkname = to
		}
		must(w.WriteHeader(h))
	}
	must(w.Close())
	attack(c, r, "tar", buf.Bytes(), extra...)
}

func attackArSizes(c *Ctx, r *rand.Rand, i int) {
	var ms []*arMember
	for len(ms) == 0 {
		ms, _, _ = genArArchive(r, 1+r.Intn(4))
	}
	blob := encodeAr(ms, r.Intn(2) == 0)
	for k := 0; k < 10 && !c.Failed(); k++ {
		b := bytes.Clone(blob)
		m := ms[r.Intn(len(ms))]
		v := []string{"9999999999", "-60", "-1", "-61", "0", "-9", "9223372036", "+60", "-999999999", fmt.Sprint(len(b)), fmt.Sprint(len(b) - int(m.HdrOff) - 60), fmt.Sprint(len(b) - int(m.HdrOff) - 59)}[r.Intn(12)]
		copy(b[m.HdrOff+48:m.HdrOff+58], fmt.Sprintf("%-10s", v))
		attack(c, r, "ar", b)
	}
}
