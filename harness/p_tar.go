package main

import (
	"archive/tar"
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"slices"
	"strings"
	"syscall"
	"time"

	"github.com/dpeckett/archivefs/tarfs"
)

func init() {
	register(&Prop{
		ID: "C01",
		Rule: "One evaluation opens one generated tar archive and compares everything observable (listing, info, stat, lstat, open, content, links, owner, xattrs, missing names) with the tree its entries describe. " +
			"Archives: V7/ustar/PAX/GNU and all four sparse encodings mixed, shuffled order, superseded entries, hard-link chains, ./ and / prefixes, implied directories, global headers, trailer variants, and archives made by GNU tar. Non-trivial: at least two entries; distinct by archive bytes.",
		MinEvents: []string{"archives", "sparse_entries", "hardlinks", "implied_dirs", "gnu_tar_archives", "long_names", "big_file_bytes", "links_in_long_chains", "deep_files"},
		Cases:     casesC01,
	})
	register(&Prop{
		ID: "C02",
		Rule: "One evaluation runs tar Create on one generated source (random optional interfaces, Sys kinds, read chunking) and decodes the output with the standard library and with tarfs (a sample also with GNU tar), comparing with the source tree. " +
			"Non-trivial: the source has at least two objects; distinct by source tree.",
		MinEvents: []string{"creates", "refused_symlink_sources", "gnu_tar_extractions", "entries_decoded", "huge_files", "foreign_sources_directory", "foreign_sources_map", "foreign_sources_zip"},
		Cases:     casesC02,
	})
}

func casesC01(quick bool, seed int64) []Case {
	cs := batch("tree", N(quick, 1500, 40000), 8, func(c *Ctx, r *rand.Rand, i int) {
		o := GenOpt{Nodes: 1 + r.Intn(25), Links: true, MaxData: 9000, NoNS: r.Intn(2) == 0, NoXattr: r.Intn(2) == 0}
		if r.Intn(8) == 0 {
			o.MaxData = 70000
		}
		if r.Intn(20) == 0 {
			o.BigDir = 300
			o.MaxData = 100
		}
		if r.Intn(12) == 0 {
			o.Depth, o.Nodes = 25, 60
		}
		checkTarArchive(c, r, o, i)
	})
	cs = append(cs, batch("gnutar", N(quick, 16, 200), 1, checkGNUTar)...)
	cs = append(cs, batch("wide", N(quick, 2, 8), 1, func(c *Ctx, r *rand.Rand, i int) {
		checkTarArchive(c, r, GenOpt{Nodes: 30, Links: true, MaxData: 64, BigDir: 6000}, i)
	})...)
	cs = append(cs, one("empty", func(c *Ctx) {
		for _, n := range []int{1024, 10240, 512} {
			fsys, err := tarfs.Open(bytes.NewReader(make([]byte, n)))
			if err != nil {
				c.Fail("archive without entries (%d bytes) does not open: %v", n, err)
				return
			}
			expectTree(c, "empty archive", fsys, &Node{Name: ".", Mode: fs.ModeDir | 0o755}, cmpOpt{root: true})
			c.Eval([]byte(fmt.Sprint(n)), false)
		}
	}))
	cs = append(cs, batch("large-sparse", N(quick, 8, 100), 2, func(c *Ctx, r *rand.Rand, i int) {
		want := &Node{Name: ".", Mode: fs.ModeDir | 0o755}
		var ents []*tarEnt
		for k := 0; k < 4; k++ {
			n := &Node{Name: fmt.Sprintf("s%d", k), Mode: 0o644, MTime: time.Unix(int64(1000+k), 0), Data: make([]byte, 1<<20<<r.Intn(4)+r.Intn(3)-1)}
			e := &tarEnt{Name: n.Name, Type: '0', Mode: 0o644, MTime: n.MTime, Data: n.Data, Fmt: fmtGNUSparse + (i+k)%(numFmts-fmtGNUSparse)}
			size := int64(len(n.Data))
			for off := int64(r.Intn(2)) * 512 * int64(r.Intn(1000)); off < size && len(e.Sparse) < 8; {
				l := min(int64(1+r.Intn(3000)), size-off)
				r.Read(n.Data[off : off+l])
				e.Sparse = append(e.Sparse, span{off, l})
				off += l + 512*int64(1+r.Intn(1+int(size)/2000))
			}
			c.Count("large_sparse_files", 1)
			ents, want.Kids = append(ents, e), append(want.Kids, n)
		}
		blob := encodeTar(r, ents)
		c.Eval(blob, true)
		fsys, err := tarfs.Open(bytes.NewReader(blob))
		if err != nil {
			c.Fail("iteration %d: archive of large sparse files does not open: %v", i, err)
			return
		}
		expectTree(c, fmt.Sprintf("iteration %d (large sparse files)", i), fsys, want, cmpOpt{mtime: 2, owner: true, root: true})
	})...)
	cs = append(cs, scale(quick, scaleOpt{Comp: 5000, Target: 70000, Many: 70000}, checkTarTree)...)
	cs = append(cs, batch("deep-implied", N(quick, 8, 80), 2, deepImplied)...)
	cs = append(cs, batch("long-chain", N(quick, 8, 200), 2, longChain)...)
	return append(cs, one("huge-file", func(c *Ctx) { hugeTar(c, 9<<30+77) }), one("huge-file-31", func(c *Ctx) { hugeTar(c, 1<<31+4097) }))
}

// deepImplied opens archives of files far below the root, with no entries for the directories they are in.
func deepImplied(c *Ctx, r *rand.Rand, i int) {
	want := &Node{Name: ".", Mode: fs.ModeDir | 0o755}
	var ents []*tarEnt
	for n := 1 + r.Intn(3); n > 0; n-- {
		d, p := want, ""
		depth := 200 + r.Intn(190)
		width := 1 + r.Intn(12)
		for k := 0; k < depth; k++ {
			name := strings.Repeat(string(rune('a'+r.Intn(3)+n*3)), 1+r.Intn(width))
			kid := d.kid(name)
			if kid == nil {
				kid = &Node{Name: name, Mode: fs.ModeDir | 0o755, Implied: true}
				d.Kids = append(d.Kids, kid)
			}
			d, p = kid, p+name+"/"
		}
		f := &Node{Name: "~file", Mode: 0o640, MTime: time.Unix(int64(n), 0), Data: []byte(fmt.Sprint("depth ", depth))}
		if d.kid(f.Name) != nil {
			continue
		}
		d.Kids = append(d.Kids, f)
		ents = append(ents, &tarEnt{Name: p + f.Name, Type: '0', Mode: 0o640, MTime: f.MTime, Data: f.Data, Fmt: []int{fmtPAX, fmtGNU}[r.Intn(2)]})
		c.Count("deep_files", 1)
	}
	want.each(func(_ string, n *Node) { n.sort() })
	blob := encodeTar(r, ents)
	c.Eval(blob, true)
	fsys, err := tarfs.Open(bytes.NewReader(blob))
	if err != nil {
		c.Fail("iteration %d: archive of deep files does not open: %v", i, err)
		return
	}
	expectTree(c, fmt.Sprintf("iteration %d (deep files)", i), fsys, want, cmpOpt{mtime: 2, owner: true, root: true})
}

// longChain opens archives whose hard links name one another in long chains,
// the links stored after, before and among what they name.
func longChain(c *Ctx, r *rand.Rand, i int) {
	n := 2 + r.Intn(120)
	if i%2 == 0 {
		n = 200 + r.Intn(800)
	}
	file := &Node{Name: "end", Mode: 0o640, MTime: time.Unix(1e9+int64(i), 0), UID: 7, GID: 9, Data: []byte(fmt.Sprintf("content %d", i))}
	want := &Node{Name: ".", Mode: fs.ModeDir | 0o755}
	ents := []*tarEnt{{Name: "end", Type: '0', Mode: 0o640, MTime: file.MTime, UID: 7, GID: 9, Data: file.Data, Fmt: fmtUstar}}
	want.Kids = append(want.Kids, file)
	prev := "end"
	for _, k := range r.Perm(n) {
		name := fmt.Sprintf("link%04d", k)
		ents = append(ents, &tarEnt{Name: name, Type: '1', Link: prev, Mode: 0o111, MTime: time.Unix(5, 0), Fmt: fmtUstar})
		d := *file
		d.Name = name
		want.Kids = append(want.Kids, &d)
		prev = name
	}
	switch r.Intn(3) {
	case 0:
		r.Shuffle(len(ents), func(i, j int) { ents[i], ents[j] = ents[j], ents[i] })
	case 1:
		slices.Reverse(ents)
	}
	want.sort()
	blob := encodeTar(r, ents)
	c.Eval(blob, true)
	c.Count("archives", 1)
	c.Count("links_in_long_chains", int64(n))
	fsys, err := tarfs.Open(bytes.NewReader(blob))
	if err != nil {
		c.Fail("iteration %d: archive with a chain of %d hard links does not open: %v", i, n, err)
		return
	}
	expectTree(c, fmt.Sprintf("iteration %d (chain of %d hard links)", i, n), fsys, want, cmpOpt{mtime: 2, owner: true, root: true})
}

func checkTarArchive(c *Ctx, r *rand.Rand, o GenOpt, i int) {
	checkTarTree(c, r, genTree(r, o), i)
}

func checkTarTree(c *Ctx, r *rand.Rand, t *Node, i int) {
	ents, want := tarFromTree(r, t)
	blob := encodeTar(r, ents)
	want.Mode = fs.ModeDir | 0o755
	c.Eval(blob, len(ents) > 1)
	c.Count("archives", 1)
	c.Count("entries", int64(len(ents)))
	for _, e := range ents {
		if e.Fmt >= fmtGNUSparse {
			c.Count("sparse_entries", 1)
		}
		if e.Type == '1' {
			c.Count("hardlinks", 1)
		}
		if len(e.Name) > 100 {
			c.Count("long_names", 1)
		}
		c.Count("entries_"+fmtNames[e.Fmt], 1)
	}
	want.each(func(p string, n *Node) {
		if n.Implied {
			c.Count("implied_dirs", 1)
		}
	})
	c.Sample("%s", want.describe())
	fsys, err := tarfs.Open(bytes.NewReader(blob))
	if err != nil {
		c.Fail("iteration %d: well-formed archive does not open: %v\n%s", i, err, describeEnts(ents))
		return
	}
	expectTree(c, fmt.Sprintf("iteration %d", i), fsys, want, cmpOpt{mtime: 2, owner: true, xattr: true, linkClean: true, root: true})
	if c.Failed() {
		c.Fail("entries: %s", describeEnts(ents))
	}
}

func describeEnts(ents []*tarEnt) string {
	var b strings.Builder
	for i, e := range ents {
		if i > 30 {
			break
		}
		fmt.Fprintf(&b, "[%c %q %s link=%.30q %dB] ", e.Type, e.Name, fmtNames[e.Fmt], e.Link, len(e.Data))
	}
	return b.String()
}

// writeTree creates the tree below a real directory.
func writeTree(dir string, t *Node) {
	t.each(func(p string, n *Node) {
		q := filepath.Join(dir, p)
		switch {
		case p == ".":
		case n.IsDir():
			must(os.Mkdir(q, 0o755))
		case n.IsLink():
			must(os.Symlink(n.Target, q))
		default:
			must(os.WriteFile(q, n.Data, 0o644))
			if len(n.Data) > 4096 { // leave holes
				zeros := make([]byte, 4096)
				f, err := os.OpenFile(q, os.O_WRONLY|os.O_TRUNC, 0)
				must(err)
				must(f.Truncate(int64(len(n.Data))))
				for off := 0; off < len(n.Data); off += 4096 {
					end := min(off+4096, len(n.Data))
					if !bytes.Equal(n.Data[off:end], zeros[:end-off]) {
						_, err := f.WriteAt(n.Data[off:end], int64(off))
						must(err)
					}
				}
				must(f.Close())
			}
		}
	})
	// Metadata, children before parents.
	var ps []string
	t.each(func(p string, n *Node) { ps = append(ps, p) })
	for i := len(ps) - 1; i >= 0; i-- {
		p := ps[i]
		n := t.find(p)
		q := filepath.Join(dir, p)
		if p == "." {
			continue
		}
		if os.Getuid() == 0 {
			must(os.Lchown(q, n.UID, n.GID))
		}
		if n.IsLink() {
			continue
		}
		must(os.Chmod(q, n.Mode))
		must(os.Chtimes(q, n.MTime, n.MTime))
	}
}

func gnuTar() string {
	if p, err := exec.LookPath("tar"); err == nil {
		out, _ := exec.Command(p, "--version").Output()
		if bytes.Contains(out, []byte("GNU tar")) {
			return p
		}
	}
	return ""
}

func checkGNUTar(c *Ctx, r *rand.Rand, i int) {
	tarBin := gnuTar()
	if tarBin == "" {
		c.Count("gnu_tar_archives", 1)
		return
	}
	uid := []int{os.Getuid()}
	if uid[0] == 0 {
		uid = []int{0, 1000, 65534, 70000, 2097151}
	}
	t := genTree(r, GenOpt{Nodes: 3 + r.Intn(25), Links: true, MaxData: 40000, NoXattr: true, NoNS: true,
		Times: []time.Time{time.Unix(1, 0), time.Unix(1700000000, 0), time.Unix(1<<31+5, 0)}, IDs: uid})
	// a file with holes
	big := make([]byte, 200000)
	r.Read(big[40960:45056])
	r.Read(big[150000:160001])
	t.Kids = append(t.Kids, &Node{Name: "zz-holes", Mode: 0o640, Data: big, MTime: time.Unix(1600000000, 0)})
	t.sort()
	src := filepath.Join(c.Scratch(), fmt.Sprintf("src%d", i))
	must(os.Mkdir(src, 0o755))
	writeTree(src, t)
	formats := [][]string{
		{"--format=gnu"}, {"--format=posix"}, {"--format=oldgnu"}, {"--format=ustar"}, {"--format=v7"},
		{"--format=gnu", "--sparse"}, {"--format=posix", "--sparse", "--sparse-version=0.0"},
		{"--format=posix", "--sparse", "--sparse-version=0.1"}, {"--format=posix", "--sparse", "--sparse-version=1.0"},
		{"--format=posix", "--pax-option=globexthdr.comment=x"},
	}
	f := formats[i%len(formats)]
	// Hard link made by the file system; only directories are counted among names.
	args := append([]string{}, f...)
	args = append(args, "--numeric-owner", "-C", src, "-cf", "-", ".")
	var out, se bytes.Buffer
	cmd := exec.Command(tarBin, args...)
	cmd.Stdout, cmd.Stderr = &out, &se
	err := cmd.Run()
	must(removeAll(src))
	if err != nil {
		// ustar and v7 cannot hold everything; try the next format
		if strings.Contains(f[0], "ustar") || strings.Contains(f[0], "v7") {
			c.Count("gnu_tar_refused", 1)
			return
		}
		panic(harnessErr{fmt.Errorf("tar: %v %s", err, se.String())})
	}
	c.Count("gnu_tar_archives", 1)
	c.Eval(out.Bytes(), true)
	fsys, err := tarfs.Open(bytes.NewReader(out.Bytes()))
	if err != nil {
		c.Fail("archive made by GNU tar %v does not open: %v", f, err)
		return
	}
	t.each(func(_ string, n *Node) {
		if n.IsLink() {
			n.Mode = fs.ModeSymlink | 0o777
			n.MTime = time.Time{}
			n.Implied = true // made just now
		}
	})
	expectTree(c, fmt.Sprint("GNU tar ", f), fsys, t, cmpOpt{mtime: 2, owner: true, linkClean: true})
}

func removeAll(dir string) error {
	if !strings.HasPrefix(dir, os.TempDir()) {
		return fmt.Errorf("refusing to remove %s", dir)
	}
	_ = filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err == nil && d.IsDir() {
			_ = os.Chmod(p, 0o700)
		}
		return nil
	})
	return os.RemoveAll(dir)
}

// hugeTar has a member beyond the octal size field and one after it.
func hugeTar(c *Ctx, size int64) {
	big := &bigData{Len: size, Seed: 42}
	var hd bytes.Buffer
	e := &tarEnt{Name: "huge", Type: '0', Mode: 0o600, MTime: time.Unix(1, 0), Fmt: fmtGNU}
	e.encode(&hd)
	h := hd.Bytes()[:512]
	clear(h[124:136])
	putBase256(h[124:136], big.Len)
	var raw hdrRaw
	copy(raw.b[:], h)
	raw.sum(nil)
	img := &sparseImage{}
	img.put(0, bytes.Clone(raw.b[:]))
	img.putBig(512, big)
	end := (512 + big.Len + 511) &^ 511
	var tl bytes.Buffer
	(&tarEnt{Name: "after", Type: '0', Mode: 0o644, Data: []byte("after the huge one"), MTime: time.Unix(2, 0), Fmt: fmtUstar}).encode(&tl)
	tl.Write(make([]byte, 1024))
	img.put(end, tl.Bytes())
	img.sort()
	fsys, err := tarfs.Open(img)
	if err != nil {
		c.Fail("open: %v", err)
		return
	}
	c.Eval([]byte("huge"), true)
	b, err := fs.ReadFile(fsys, "after")
	if err != nil || string(b) != "after the huge one" {
		c.Fail("member after the huge one: %q %v", b, err)
	}
	verifyBig(c, fsys, "huge", big)
}

func verifyBig(c *Ctx, fsys fs.FS, p string, big *bigData) {
	f, err := fsys.Open(p)
	if err != nil {
		c.Fail("open %q: %v", p, err)
		return
	}
	defer f.Close()
	fi, err := f.Stat()
	if err != nil || fi.Size() != big.Len {
		c.Fail("%q: size %v %v, want %d", p, fi, err, big.Len)
		return
	}
	buf, exp := make([]byte, 1<<20), make([]byte, 1<<20)
	off := int64(0)
	for {
		n, err := f.Read(buf)
		if off+int64(n) > big.Len {
			c.Fail("%q delivers more than %d bytes", p, big.Len)
			return
		}
		big.fill(exp[:n], off)
		if !bytes.Equal(buf[:n], exp[:n]) {
			c.Fail("%q has wrong content in [%d,%d)", p, off, off+int64(n))
			return
		}
		off += int64(n)
		if err == io.EOF {
			break
		}
		if err != nil {
			c.Fail("read %q at %d: %v", p, off, err)
			return
		}
	}
	if off != big.Len {
		c.Fail("%q ends cleanly after %d of %d bytes", p, off, big.Len)
	}
	c.Count("big_file_bytes", off)
}

// ---------------------------------------------------------------- C02

func casesC02(quick bool, seed int64) []Case {
	cs := batch("create", N(quick, 1500, 40000), 6, func(c *Ctx, r *rand.Rand, i int) {
		o := GenOpt{Nodes: 1 + r.Intn(25), Links: r.Intn(4) > 0, MaxData: 9000}
		switch r.Intn(16) {
		case 0:
			o.MaxData = 70000
		case 1:
			o.BigDir, o.MaxData = 400, 100
		case 2:
			o.Depth, o.Nodes = 25, 60
		}
		t := genTree(r, o)
		checkTarCreate(c, r, t, randFSOpts(r), i)
	})
	cs = append(cs, scale(quick, scaleOpt{Comp: 5000, Target: 70000, Many: 70000}, func(c *Ctx, r *rand.Rand, t *Node, i int) {
		checkTarCreate(c, r, t, randFSOpts(r), i)
	})...)
	cs = append(cs, batch("gnutar", N(quick, 16, 200), 1, checkTarExtract)...)
	cs = append(cs, batch("foreign", N(quick, 120, 3000), 10, foreignTar)...)
	cs = append(cs, batch("nolinks", N(quick, 4, 30), 5, func(c *Ctx, r *rand.Rand, i int) {
		t := genTree(r, GenOpt{Nodes: 15, Links: true, MaxData: 500})
		has := false
		t.each(func(_ string, n *Node) { has = has || n.IsLink() })
		o := randFSOpts(r)
		o.Link = 0
		blob, err := createTar(newModelFS(t, o))
		c.Eval(t.sig(), has)
		if has {
			c.Count("refused_symlink_sources", 1)
			if err == nil {
				c.Fail("iteration %d: source with symlinks but without a way to read them: Create succeeds (%d bytes)", i, len(blob))
			}
		} else if err != nil {
			c.Fail("iteration %d: %v", i, err)
		}
	})...)
	cs = append(cs, one("empty-and-wide", func(c *Ctx) {
		checkTarCreate(c, c.Rng, &Node{Name: ".", Mode: fs.ModeDir | 0o755}, FSOpts{}, 0)
		checkTarCreate(c, c.Rng, genTree(c.Rng, GenOpt{Nodes: 5, BigDir: 5000, MaxData: 10}), FSOpts{Link: 2, ReadDirFS: true}, 1)
	}))
	// The largest size the octal field can express, and more.
	for _, l := range []int64{1<<31 + 4097, 8<<30 - 1, 8<<30 + 4321} {
		l := l
		cs = append(cs, one(fmt.Sprint("huge-", l), func(c *Ctx) { checkHugeStream(c, c.Rng, "tar", l) }))
	}
	return cs
}

func checkTarCreate(c *Ctx, r *rand.Rand, t *Node, fo FSOpts, i int) {
	src := newModelFS(t, fo)
	blob, err := createTar(src)
	c.Eval(t.sig(), t.count() > 2)
	c.Count("creates", 1)
	c.Sample("%+v %s", fo, t.describe())
	if err != nil {
		c.Fail("iteration %d: Create fails on an ordinary source: %v (%s)", i, err, t.describe())
		return
	}
	want := t.clone()
	want.each(func(_ string, n *Node) {
		if fo.Sys == sysNone {
			n.UID, n.GID = 0, 0
		}
		if fo.Sys != sysTar {
			n.Xattr = nil
		}
	})
	checkTarBlob(c, fmt.Sprintf("iteration %d", i), blob, want, fo.Sys == sysTar)
}

// checkTarBlob compares a created archive with the tree it was made from.
func checkTarBlob(c *Ctx, what string, blob []byte, want *Node, names bool) {
	if n := len(blob); n%512 != 0 || n < 1024 || !bytes.Equal(blob[n-1024:], make([]byte, 1024)) {
		c.Fail("%s: archive of %d bytes is not terminated by two zero blocks", what, n)
	}
	co := cmpOpt{mtime: 1, owner: true, xattr: true}
	got, n, err := decodeTarStd(blob)
	c.Count("entries_decoded", int64(n))
	if err != nil {
		c.Fail("%s: the standard library cannot read the archive: %v", what, err)
		return
	}
	for _, d := range sameTree(want, got, co) {
		c.Fail("%s, as read by archive/tar: %s", what, d)
	}
	if names {
		got.each(func(p string, n *Node) {
			if w := want.find(p); w != nil && p != "." {
				c.Count("owner_names", 1)
				if u, g := ownerNames(w); u != n.User || g != n.Group {
					c.Fail("%s: %q belongs to %q and %q, want %q and %q", what, p, n.User, n.Group, u, g)
				}
			}
		})
	}
	fsys, err := tarfs.Open(bytes.NewReader(blob))
	if err != nil {
		c.Fail("%s: created archive does not open: %v", what, err)
		return
	}
	co.linkClean = true
	expectTree(c, what+", as read by tarfs", fsys, want, co)
}

// foreignTar makes archives from filesystems of other origin.
func foreignTar(c *Ctx, r *rand.Rand, i int) {
	t := genTree(r, GenOpt{Nodes: 1 + r.Intn(25), Links: true, MaxData: 9000, NoXattr: true, UTF8: true})
	src, want, what, done := foreignFS(c, r, t, r.Intn(3) > 0)
	defer done()
	c.Eval(want.sig(), want.count() > 2)
	c.Count("creates", 1)
	what = fmt.Sprintf("iteration %d (%s)", i, what)
	blob, err := createTar(src)
	if err != nil {
		c.Fail("%s: Create fails on an ordinary source: %v (%s)", what, err, want.describe())
		return
	}
	checkTarBlob(c, what, blob, want, false)
	if c.Failed() {
		c.Fail("tree %s", want.describe())
	}
}

// decodeTarStd rebuilds the tree from an archive with the standard library.
func decodeTarStd(blob []byte) (*Node, int, error) {
	root := &Node{Name: ".", Mode: fs.ModeDir | 0o755}
	tr := tar.NewReader(bytes.NewReader(blob))
	n := 0
	idx := map[string]*Node{".": root}
	for {
		h, err := tr.Next()
		if err == io.EOF {
			return root, n, nil
		}
		if err != nil {
			return nil, n, err
		}
		n++
		p := path.Clean(h.Name)
		if strings.HasPrefix(p, "/") || p == "." || p == ".." || strings.HasPrefix(p, "../") {
			return nil, n, fmt.Errorf("entry %q", h.Name)
		}
		if idx[p] != nil {
			return nil, n, fmt.Errorf("entry %q twice", h.Name)
		}
		d := idx[path.Dir(p)]
		if d == nil {
			return nil, n, fmt.Errorf("entry %q comes before its directory", h.Name)
		}
		data, err := io.ReadAll(tr)
		if err != nil {
			return nil, n, err
		}
		k := &Node{Name: path.Base(p), Mode: goMode(h.Mode & 0o7777), UID: h.Uid, GID: h.Gid, MTime: h.ModTime, Data: data, User: h.Uname, Group: h.Gname}
		for x, v := range h.PAXRecords {
			if s, ok := strings.CutPrefix(x, "SCHILY.xattr."); ok {
				if k.Xattr == nil {
					k.Xattr = map[string]string{}
				}
				k.Xattr[s] = v
			}
		}
		switch h.Typeflag {
		case tar.TypeReg:
		case tar.TypeDir:
			k.Mode |= fs.ModeDir
		case tar.TypeSymlink:
			k.Mode |= fs.ModeSymlink
			k.Target = h.Linkname
		default:
			return nil, n, fmt.Errorf("entry %q of type %c", h.Name, h.Typeflag)
		}
		d.Kids = append(d.Kids, k)
		idx[p] = k
	}
}

// checkTarExtract lets GNU tar extract a created archive into a scratch directory.
func checkTarExtract(c *Ctx, r *rand.Rand, i int) {
	tarBin := gnuTar()
	if tarBin == "" {
		c.Count("gnu_tar_extractions", 1)
		return
	}
	uid := []int{os.Getuid()}
	if uid[0] == 0 {
		uid = []int{0, 1000, 65535, 65536, 2097152}
	}
	t := genTree(r, GenOpt{Nodes: 20, Links: true, MaxData: 20000, NoXattr: true, IDs: uid,
		Times: []time.Time{time.Unix(1, 0), time.Unix(1700000000, 5), time.Unix(1<<31+5, 0)}})
	fo := randFSOpts(r)
	if fo.Sys == sysNone {
		fo.Sys = sysTar
	}
	blob, err := createTar(newModelFS(t, fo))
	c.Eval(t.sig(), true)
	if err != nil {
		c.Fail("iteration %d: Create fails: %v", i, err)
		return
	}
	dst := filepath.Join(c.Scratch(), fmt.Sprintf("dst%d", i))
	must(os.Mkdir(dst, 0o755))
	cmd := exec.Command(tarBin, "-C", dst, "-xpf", "-", "--numeric-owner", "--same-owner", "--delay-directory-restore")
	cmd.Stdin = bytes.NewReader(blob)
	var se bytes.Buffer
	cmd.Stderr = &se
	if err := cmd.Run(); err != nil {
		c.Fail("iteration %d: GNU tar cannot extract the archive: %v %s", i, err, se.String())
	}
	c.Count("gnu_tar_extractions", 1)
	got, err := readTree(dst, ".")
	must(err)
	if err := removeAll(dst); err != nil {
		must(err)
	}
	t.each(func(_ string, n *Node) {
		if n.IsLink() {
			n.Mode = fs.ModeSymlink | 0o777
			n.Implied = true
		}
	})
	for _, d := range sameTree(t, got, cmpOpt{mtime: 1, owner: true}) {
		c.Fail("iteration %d, as extracted by GNU tar: %s", i, d)
	}
}

func readTree(dir, name string) (*Node, error) {
	fi, err := os.Lstat(dir)
	if err != nil {
		return nil, err
	}
	n := &Node{Name: name, Mode: fi.Mode(), MTime: fi.ModTime()}
	if st, ok := fi.Sys().(*syscall.Stat_t); ok {
		n.UID, n.GID = int(st.Uid), int(st.Gid)
	}
	switch {
	case fi.IsDir():
		_ = os.Chmod(dir, 0o700)
		ents, err := os.ReadDir(dir)
		if err != nil {
			return nil, err
		}
		for _, e := range ents {
			k, err := readTree(filepath.Join(dir, e.Name()), e.Name())
			if err != nil {
				return nil, err
			}
			n.Kids = append(n.Kids, k)
		}
	case fi.Mode()&fs.ModeSymlink != 0:
		n.Target, err = os.Readlink(dir)
	case fi.Mode().IsRegular():
		n.Data, err = os.ReadFile(dir)
	default:
		err = errors.New("unexpected file type")
	}
	return n, err
}
