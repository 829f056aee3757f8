package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/dpeckett/archivefs/erofs"
)

func init() {
	register(&Prop{
		ID: "C03",
		Rule: "One evaluation builds one EROFS image with the harness's own writer (random block size, inode kinds, inlining, placement, gaps, directory splits and padding, checksum), and compares everything the filesystem and the image/inode API show with the stored tree. " +
			"Non-trivial: at least three objects; distinct by image bytes or layout.",
		MinEvents: []string{"images", "objects_compared", "inode_lookups", "missing_lookups", "multi_block_dirs", "inline_inodes", "bs_9", "bs_12", "bs_16", "images_beyond_32_bits"},
		Cases:     casesC03,
	})
	register(&Prop{
		ID: "C04",
		Rule: "One evaluation runs EROFS Create on one generated source and compares everything the reader shows of the image with the source, or, for a source the format cannot hold, expects an error. " +
			"Non-trivial: at least two objects; distinct by source tree.",
		MinEvents: []string{"creates", "objects_compared", "refusals", "file_images", "big_files", "big_directories", "address_limits", "too_big", "foreign_sources_directory", "foreign_sources_map", "foreign_sources_zip"},
		Cases:     casesC04,
	})
	register(&Prop{
		ID: "C05",
		Rule: "One evaluation runs EROFS Create on one generated source and checks the emitted image with an independent checker of the on-disk format. " +
			"Non-trivial: at least two objects; distinct by source tree.",
		MinEvents: []string{"images_checked", "dirents_checked", "inodes_checked", "file_images", "big_directories"},
		Cases:     casesC05,
	})
}

// ---------------------------------------------------------------- C03

func casesC03(quick bool, seed int64) []Case {
	cs := batch("image", N(quick, 800, 40000), 6, func(c *Ctx, r *rand.Rand, i int) {
		o := GenOpt{Nodes: 1 + r.Intn(30), Links: true, MaxData: 20000, NoXattr: true}
		switch r.Intn(12) {
		case 0:
			o.MaxData = 140000
		case 1:
			o.BigDir, o.MaxData = 300, 200
		case 2:
			o.Depth, o.Nodes = 30, 80
		case 3:
			o.Nodes, o.BigDir = 8, 60+r.Intn(60)
		}
		checkErofsImage(c, r, genTree(r, o), randEroOpt(r), i)
	})
	cs = append(cs, batch("small-blocks", N(quick, 100, 2000), 4, func(c *Ctx, r *rand.Rand, i int) {
		o := randEroOpt(r)
		o.Bits = 9
		checkErofsImage(c, r, genTree(r, GenOpt{Nodes: 10, Links: true, BigDir: 20 + r.Intn(80), MaxName: 200, MaxData: 3000, NoXattr: true}), o, i)
	})...)
	cs = append(cs, batch("beyond-32-bits", N(quick, 40, 600), 2, func(c *Ctx, r *rand.Rand, i int) {
		o := randEroOpt(r)
		o.BigAddr, o.BigMeta = r.Intn(3) > 0, r.Intn(3) > 0
		c.Count("images_beyond_32_bits", 1)
		checkErofsImage(c, r, genTree(r, GenOpt{Nodes: 25, Links: true, MaxData: 9000, NoXattr: true, BigDir: r.Intn(100)}), o, i)
	})...)
	cs = append(cs, batch("packed", N(quick, 1, 6), 1, func(c *Ctx, r *rand.Rand, i int) { // as many entries per block as possible
		o := randEroOpt(r)
		o.Bits, o.Dense = 16, true
		d := &Node{Name: "d", Mode: fs.ModeDir | 0o755, MTime: time.Unix(5, 0)}
		for _, k := range r.Perm(75 * 75)[:5300] {
			d.Kids = append(d.Kids, &Node{Name: string([]byte{byte('0' + k/75), byte('0' + k%75)}), Mode: 0o600, MTime: time.Unix(int64(k), 0)})
		}
		d.sort()
		checkErofsImage(c, r, &Node{Name: ".", Mode: fs.ModeDir | 0o755, Kids: []*Node{d}}, o, i)
	})...)
	cs = append(cs, batch("wide", N(quick, 3, 20), 1, func(c *Ctx, r *rand.Rand, i int) {
		o := randEroOpt(r)
		o.Bits = []uint{9, 12, 16}[i%3]
		t := genTree(r, GenOpt{Nodes: 5, MaxData: 100, NoXattr: true})
		t.Kids = append(t.Kids, wideDir(r, 6000))
		t.sort()
		checkErofsImage(c, r, t, o, i)
	})...)
	cs = append(cs, scale(quick, scaleOpt{Comp: 255, Target: 4095, Many: 70000}, func(c *Ctx, r *rand.Rand, t *Node, i int) {
		checkErofsImage(c, r, t, randEroOpt(r), i)
	})...)
	cs = append(cs, batch("vast-file", 3, 1, checkVast)...)
	cs = append(cs, batch("huge-file", 3, 1, func(c *Ctx, r *rand.Rand, i int) {
		t := genTree(r, GenOpt{Nodes: 5, Plain: true, NoXattr: true})
		big := &bigData{Len: []int64{1<<31 + 4097, 1<<32 - 1, 1<<32 + 12345}[i], Seed: 9}
		t.Kids = append(t.Kids, &Node{Name: "~huge", Mode: 0o600, Big: big, MTime: time.Unix(77, 8)})
		t.sort()
		img, want, _ := buildEROFS(r, t, randEroOpt(r))
		c.Eval([]byte(fmt.Sprint("huge", img.size)), true)
		c.Count("images_beyond_32_bits", 1)
		fsys, err := erofs.Open(img)
		if err != nil {
			c.Fail("image with a huge file does not open: %v", err)
			return
		}
		verifyBig(c, fsys, "~huge", big)
		if k := want.find("~huge"); k != nil {
			want.remove(k)
		}
		for _, d := range compareWithout(fsys, want, "~huge", cmpOpt{mtime: 2, owner: true}) {
			c.Fail("%s", d)
		}
	})...)
	return cs
}

// compareWithout compares what is listed with the tree, leaving out one top level name.
func compareWithout(fsys fs.FS, want *Node, name string, o cmpOpt) []string {
	s := snapshot(fsys, snapOpt{light: true, maxFile: 1 << 20, noNegative: true, tolerate: true})
	delete(s.M, name)
	return compare(s, want, o)
}

func wideDir(r *rand.Rand, n int) *Node {
	d := &Node{Name: "wide", Mode: fs.ModeDir | 0o755, MTime: time.Unix(5, 0)}
	for i := 0; i < n; i++ {
		k := &Node{Name: fmt.Sprintf("%s%05d", strings.Repeat("w", r.Intn(3)*r.Intn(40)), i), Mode: 0o644, MTime: time.Unix(int64(i), 0)}
		if i%7 == 0 {
			k.Data = []byte(k.Name)
		}
		d.Kids = append(d.Kids, k)
	}
	d.sort()
	return d
}

func checkErofsImage(c *Ctx, r *rand.Rand, t *Node, o eroOpt, i int) {
	addHardAndSpecial(r, t)
	img, want, exp := buildEROFS(r, t, o)
	img.eof = r.Intn(2) == 0
	c.Count("images", 1)
	c.Count(fmt.Sprintf("bs_%d", o.Bits), 1)
	c.Sample("%+v %s", o, want.describe())
	if img.size < 1<<22 {
		c.Eval(img.bytes(), want.count() > 3)
	} else {
		c.Eval([]byte(fmt.Sprint(o, i, c.ID, img.size)), want.count() > 3)
	}
	what := fmt.Sprintf("iteration %d (bits %d)", i, o.Bits)
	fsys, err := erofs.Open(img)
	if err != nil {
		c.Fail("%s: valid image does not open: %v", what, err)
		return
	}
	expectTree(c, what, fsys, want, cmpOpt{mtime: 2, owner: true, root: true, rootOwner: true, linkSize: true})
	checkInodeAPI(c, r, what, img, want, exp, o)
	if c.Failed() {
		c.Fail("tree %s", want.describe())
	}
}

// checkInodeAPI walks the image with the lower level API.
func checkInodeAPI(c *Ctx, r *rand.Rand, what string, src io.ReaderAt, want *Node, exp map[string]eroObj, o eroOpt) {
	img, err := erofs.OpenImage(src)
	if err != nil {
		c.Fail("%s: OpenImage: %v", what, err)
		return
	}
	if img.BlockSize() != 1<<o.Bits {
		c.Fail("%s: block size %d", what, img.BlockSize())
	}
	if img.RootNid() != exp["."].Nid {
		c.Fail("%s: root inode %d, want %d", what, img.RootNid(), exp["."].Nid)
	}
	var lookups, missing, multi, inl int64
	want.each(func(p string, n *Node) {
		if c.Failed() {
			return
		}
		e := exp[p]
		ino, err := img.Inode(e.Nid)
		if err != nil {
			c.Fail("%s: inode %d of %q: %v", what, e.Nid, p, err)
			return
		}
		if ino.Nid() != e.Nid || ino.Nlink() != e.Nlink || int64(ino.Size()) != e.Size || ino.Mode() != n.Mode ||
			int(ino.UID()) != n.UID || int(ino.GID()) != n.GID ||
			int64(ino.Mtime()) != n.MTime.Unix() || int(ino.MtimeNsec()) != n.MTime.Nanosecond() {
			c.Fail("%s: inode of %q is nid %d links %d size %d mode %v owner %d:%d time %d.%d, want nid %d links %d size %d mode %v owner %d:%d time %d.%d", what, p,
				ino.Nid(), ino.Nlink(), ino.Size(), ino.Mode(), ino.UID(), ino.GID(), int64(ino.Mtime()), ino.MtimeNsec(),
				e.Nid, e.Nlink, e.Size, n.Mode, n.UID, n.GID, n.MTime.Unix(), n.MTime.Nanosecond())
		}
		kinds := map[string]bool{"reg": n.IsReg(), "dir": n.IsDir(), "link": n.IsLink(),
			"chr": n.Mode&fs.ModeCharDevice != 0, "blk": n.Mode&fs.ModeDevice != 0 && n.Mode&fs.ModeCharDevice == 0,
			"fifo": n.Mode&fs.ModeNamedPipe != 0, "sock": n.Mode&fs.ModeSocket != 0}
		got := map[string]bool{"reg": ino.IsRegular(), "dir": ino.IsDir(), "link": ino.IsSymlink(), "chr": ino.IsCharDev(),
			"blk": ino.IsBlockDev(), "fifo": ino.IsFIFO(), "sock": ino.IsSocket()}
		for k, v := range kinds {
			if got[k] != v {
				c.Fail("%s: inode of %q: is %s = %v, want %v", what, p, k, got[k], v)
			}
		}
		if ino.DataLayout() == erofs.InodeDataLayoutFlatInline {
			inl++
		}
		if n.IsLink() {
			if t, err := ino.Readlink(); err != nil || t != n.Target {
				c.Fail("%s: inode of %q links to %q (%v), want %q", what, p, t, err, n.Target)
			}
		} else if _, err := ino.Readlink(); err == nil {
			c.Fail("%s: reading the link of inode %q succeeds", what, p)
		}
		if n.IsReg() && n.Big == nil {
			rd, err := ino.Data()
			var b []byte
			if err == nil {
				b, err, _ = readStyled(rd, r.Intn(6), r, n.Size()+4096)
			}
			if err != nil || !bytes.Equal(b, n.Data) {
				c.Fail("%s: data of inode %q: %v, %s", what, p, err, diffBytes(b, n.Data))
			}
		}
		if !n.IsDir() {
			if _, err := ino.Lookup("x"); err == nil || errors.Is(err, fs.ErrNotExist) {
				c.Fail("%s: lookup in the non-directory %q: %v", what, p, err)
			}
			if err := ino.IterDirents(func(string, uint8, uint64) error { return nil }); err == nil {
				c.Fail("%s: iterating over the non-directory %q succeeds", what, p)
			}
			return
		}
		if e.Size > int64(img.BlockSize()) {
			multi++
		}
		// Entries, with "." and "..".
		wantNid := map[string]uint64{".": e.Nid, "..": exp[path.Dir(p)].Nid}
		wantType := map[string]uint8{".": 2, "..": 2}
		for _, k := range n.Kids {
			q := k.Name
			if p != "." {
				q = p + "/" + k.Name
			}
			wantNid[k.Name] = exp[q].Nid
			_, wantType[k.Name] = eroType(k.Mode)
		}
		if o.NoTypes {
			c.Count("untyped_directories", 1)
			wantType = map[string]uint8{}
		}
		prev := ""
		left := len(wantNid)
		stop := errors.New("stop")
		err = ino.IterDirents(func(name string, typ uint8, nid uint64) error {
			if prev != "" && name <= prev {
				c.Fail("%s: %q: %q iterated after %q", what, p, name, prev)
				return stop
			}
			prev = name
			left--
			if w, ok := wantNid[name]; !ok || w != nid || wantType[name] != typ {
				c.Fail("%s: %q: entry %q has inode %d type %d, want %d (%v) type %d", what, p, name, nid, typ, w, ok, wantType[name])
				return stop
			}
			return nil
		})
		if err != nil || left != 0 {
			c.Fail("%s: iterating over %q: %v, %d entries are missing", what, p, err, left)
			return
		}
		if len(n.Kids) > 0 {
			if err := ino.IterDirents(func(string, uint8, uint64) error { return stop }); err != stop {
				c.Fail("%s: error of the callback is not returned: %v", what, err)
			}
		}
		for name, nid := range wantNid {
			if len(wantNid) > 500 && r.Intn(10) > 0 {
				continue
			}
			lookups++
			d, err := ino.Lookup(name)
			if err != nil || d.Nid != nid || d.FileType != wantType[name] {
				c.Fail("%s: lookup of %q in %q: inode %d type %d (%v), want %d type %d", what, name, p, d.Nid, d.FileType, err, nid, wantType[name])
				return
			}
			for _, x := range []string{name + "\x01", name + "z", name[:len(name)-1], "\x01" + name, name + "/", name + "\x00"} {
				if _, ok := wantNid[x]; ok {
					continue
				}
				if r.Intn(3) > 0 {
					continue
				}
				missing++
				if _, err := ino.Lookup(x); !isNotExist(err) {
					c.Fail("%s: lookup of %q, which is not stored in %q: %v", what, x, p, err)
					return
				}
			}
		}
	})
	c.Count("inode_lookups", lookups)
	c.Count("missing_lookups", missing)
	c.Count("multi_block_dirs", multi)
	c.Count("inline_inodes", inl)
}

// ---------------------------------------------------------------- C04

// erofsSource makes trees that meet the layout decisions of the writer at their boundaries.
func erofsSource(r *rand.Rand) *Node {
	o := GenOpt{Nodes: 1 + r.Intn(25), Links: true, MaxData: 9000, NoXattr: true}
	switch r.Intn(10) {
	case 0:
		o.MaxData = 140000
	case 1:
		o.BigDir, o.MaxData = 100+r.Intn(500), 200
	case 2:
		o.Depth, o.Nodes = 30, 80
	case 3, 4: // many small files, so that inodes and tails meet block ends
		o.Nodes, o.MaxData = 40+r.Intn(60), 1100
		o.Times = []time.Time{{}, time.Unix(1, 2)}
	case 5:
		t := &Node{Name: ".", Mode: fs.ModeDir | 0o755}
		for i := 3 + r.Intn(30); i > 0; i-- {
			n := &Node{Name: fmt.Sprintf("f%02d", i), Mode: 0o644}
			if r.Intn(2) == 0 {
				n.MTime = time.Unix(int64(i), 0)
			}
			n.Data = make([]byte, []int{0, 1, 960, 992, 1023, 1024, 1025, 4096, 31, 32, 33}[r.Intn(11)])
			r.Read(n.Data)
			t.Kids = append(t.Kids, n)
		}
		t.sort()
		return t
	case 6: // directories whose encoding ends at a block or inline boundary
		t := &Node{Name: ".", Mode: fs.ModeDir | 0o755}
		for k := 0; k < 1+r.Intn(4); k++ {
			d := &Node{Name: fmt.Sprintf("d%d", k), Mode: fs.ModeDir | 0o711, MTime: time.Unix(int64(r.Intn(2)), 0)}
			goal := []int{1024, 4096, 8192, 12288}[r.Intn(4)] + r.Intn(9) - 4
			used := 12 + 1 + 12 + 2 + 1
			for used < goal {
				l := min(goal-used-12, 20+r.Intn(236))
				if l > 255 {
					l = 255
				}
				if l < 5 {
					break
				}
				name := fmt.Sprintf("%04d", len(d.Kids)) + strings.Repeat("n", l-4)
				d.Kids = append(d.Kids, &Node{Name: name, Mode: 0o600})
				used += 12 + len(name)
			}
			t.Kids = append(t.Kids, d)
		}
		t.sort()
		return t
	}
	return genTree(r, o)
}

func ownersFor(t *Node, fo FSOpts) *Node {
	want := t.clone()
	want.each(func(_ string, n *Node) {
		if fo.Sys == sysNone {
			n.UID, n.GID = 0, 0
		}
	})
	return want
}

func casesC04(quick bool, seed int64) []Case {
	cs := batch("create", N(quick, 800, 40000), 6, func(c *Ctx, r *rand.Rand, i int) {
		t := erofsSource(r)
		fo := randFSOpts(r)
		if r.Intn(4) == 0 {
			fo.Link = 1
		}
		src := newModelFS(t, fo)
		var blob []byte
		var err error
		if r.Intn(8) == 0 {
			c.Count("file_images", 1)
			blob, err = createErofsFile(c, src)
		} else {
			blob, err = createErofs(src)
		}
		checkErofsReadback(c, fmt.Sprintf("iteration %d", i), t, ownersFor(t, fo), blob, err)
	})
	cs = append(cs, batch("from-image", N(quick, 40, 800), 4, func(c *Ctx, r *rand.Rand, i int) {
		img, want, _ := buildEROFS(r, genTree(r, GenOpt{Nodes: 20, Links: true, MaxData: 9000, NoXattr: true}), randEroOpt(r))
		src, err := erofs.Open(img)
		if err != nil {
			c.Fail("iteration %d: %v", i, err)
			return
		}
		blob, err := createErofs(src)
		checkErofsReadback(c, fmt.Sprintf("iteration %d", i), want, want, blob, err)
	})...)
	cs = append(cs, batch("foreign", N(quick, 120, 3000), 10, func(c *Ctx, r *rand.Rand, i int) {
		t := erofsSource(r)
		if r.Intn(4) > 0 {
			t = genTree(r, GenOpt{Nodes: 1 + r.Intn(25), Links: true, MaxData: 9000, NoXattr: true, UTF8: true})
		}
		t.each(func(_ string, n *Node) { // the filesystems must accept the names
			for k, kid := range n.Kids {
				if !fs.ValidPath(kid.Name) {
					kid.Name = fmt.Sprintf("renamed%d", k)
				}
			}
		})
		src, want, what, done := foreignFS(c, r, t, r.Intn(3) > 0)
		defer done()
		var blob []byte
		var err error
		if r.Intn(3) == 0 {
			blob, err = createErofsFile(c, src)
		} else {
			blob, err = createErofs(src)
		}
		checkErofsReadback(c, fmt.Sprintf("iteration %d (%s)", i, what), want, want, blob, err)
	})...)
	cs = append(cs, scale(quick, scaleOpt{Comp: 255, Target: 4095}, func(c *Ctx, r *rand.Rand, t *Node, i int) {
		fo := randFSOpts(r)
		blob, err := createErofs(newModelFS(t, fo))
		checkErofsReadback(c, fmt.Sprintf("iteration %d", i), t, ownersFor(t, fo), blob, err)
	})...)
	cs = append(cs, batch("wide", N(quick, 1, 6), 1, func(c *Ctx, r *rand.Rand, i int) {
		t := &Node{Name: ".", Mode: fs.ModeDir | 0o755, Kids: []*Node{wideDir(r, []int{40000, 66000}[i%2])}}
		checkWideReadback(c, r, t)
	})...)
	for k, l := range []int64{1<<32 + 4321, 1 << 32, 1<<32 - 1, 1<<31 + 4097} {
		l := l
		cs = append(cs, one(fmt.Sprintf("huge-%d", k), func(c *Ctx) { checkHugeCreate(c, l, k == 1 || k == 2) }))
	}
	cs = append(cs, batch("refuse", N(quick, 100, 2000), 5, checkErofsRefusal)...)
	cs = append(cs, batch("limits", N(quick, 20, 400), 10, checkErofsLimits)...)
	return cs
}

func checkWideReadback(c *Ctx, r *rand.Rand, t *Node) {
	c.Eval(t.sig(), true)
	c.Count("creates", 1)
	c.Count("big_directories", 1)
	blob, err := createErofs(newModelFS(t, FSOpts{Link: 2, ReadDirFS: true}))
	if err != nil {
		c.Fail("wide directory: Create: %v", err)
		return
	}
	fsys, err := erofs.Open(bytes.NewReader(blob))
	if err != nil {
		c.Fail("wide directory: open: %v", err)
		return
	}
	s := snapshot(fsys, snapOpt{rng: r, light: true, noNegative: true}) // opens every file
	c.Count("fs_operations", s.Ops)
	c.Count("objects_compared", int64(len(s.M)))
	for _, d := range compare(s, t, cmpOpt{mtime: 2, owner: true, root: true, rootOwner: true}) {
		c.Fail("wide directory: %s", d)
	}
	for _, p := range s.Problems {
		c.Fail("wide directory: %s", p)
	}
}

func checkErofsReadback(c *Ctx, what string, t, want *Node, blob []byte, err error) {
	c.Eval(t.sig(), t.count() > 2)
	c.Count("creates", 1)
	c.Sample("%s", t.describe())
	if err != nil {
		c.Fail("%s: Create refuses an ordinary source: %v (%s)", what, err, t.describe())
		return
	}
	fsys, err := erofs.Open(bytes.NewReader(blob))
	if err != nil {
		c.Fail("%s: created image does not open: %v", what, err)
		return
	}
	expectTree(c, what, fsys, want, cmpOpt{mtime: 2, owner: true, root: true, rootOwner: true, linkSize: true})
	if c.Failed() {
		c.Fail("tree %s", t.describe())
	}
}

func checkErofsRefusal(c *Ctx, r *rand.Rand, i int) {
	t := genTree(r, GenOpt{Nodes: r.Intn(15), Links: true, MaxData: 2000, NoXattr: true})
	fo := randFSOpts(r)
	var dirs []*Node
	hasLink := false
	t.each(func(_ string, n *Node) {
		if n.IsDir() {
			dirs = append(dirs, n)
		}
		hasLink = hasLink || n.IsLink()
	})
	k := &Node{Name: fmt.Sprintf("odd%d", r.Intn(1000)), Mode: 0o644, MTime: time.Unix(1, 1)}
	why := ""
	nul := false
	switch r.Intn(12) {
	case 9:
		k.UID, why = wideID(r), "wide uid"
		fo.Sys = sysTar
	case 10:
		k.GID, why = wideID(r), "wide gid"
		fo.Sys = sysTar
	case 11:
		k.Mode, why = fs.ModeIrregular|0o600, "irregular file"
	case 8: // may also be reproduced
		k.Name, why, nul = []string{"a\x00b", "\x00", "q\x00", "zzzz\x00zz", "\x00x", strings.Repeat("y", 200) + "\x00"}[r.Intn(6)], "name with a NUL byte", true
	case 0:
		k.Name, why = strings.Repeat("n", 256), "name of 256 bytes"
		if w := []string{"", "é", "日", "😀"}[r.Intn(4)]; w != "" { // fewer characters than bytes
			k.Name = strings.Repeat(w, 255/len(w)) + strings.Repeat("n", 255%len(w)+1+r.Intn(3))
		}
	case 1:
		k.Name, why = strings.Repeat("m", 257+r.Intn(5000)), "very long name"
	case 2:
		k.Mode, why = fs.ModeDevice|0o600, "block device"
	case 3:
		k.Mode, why = fs.ModeDevice|fs.ModeCharDevice|0o600, "character device"
	case 4:
		k.Mode, why = fs.ModeNamedPipe|0o600, "pipe"
	case 5:
		k.Mode, why = fs.ModeSocket|0o600, "socket"
	case 6:
		k.Mode, k.Target, why = fs.ModeSymlink|0o777, strings.Repeat([]string{"t", "t", "日"}[r.Intn(3)], 5000)[:4096+[]int{0, 1, r.Intn(5000 - 4096)}[r.Intn(3)]], "symlink with a target that is too long"
	default:
		fo.Link = 0
		k.Mode, k.Target, why = fs.ModeSymlink|0o777, "x", "symlink that cannot be read"
	}
	_ = hasLink
	d := dirs[r.Intn(len(dirs))]
	if d.kid(k.Name) != nil {
		return
	}
	d.Kids = append(d.Kids, k)
	d.sort()
	c.Count("refusals", 1)
	c.Eval(t.sig(), true)
	blob, err := createErofs(newModelFS(t, fo))
	if err == nil && nul {
		checkErofsReadback(c, fmt.Sprintf("iteration %d: %s", i, why), t, ownersFor(t, fo), blob, err)
		return
	}
	if err == nil {
		c.Fail("iteration %d: Create succeeds for a source with a %s (%d bytes)", i, why, len(blob))
	}
}

// wideID is an owner that no EROFS inode can hold.
func wideID(r *rand.Rand) int {
	return []int{-1, -2, -65535, -1 << 31, -1 << 32, -1 << 62, 1 << 32, 1<<32 + 1000, 1<<32 + 65535, 1<<33 - 1, 1 << 48, 1<<63 - 1}[r.Intn(12)]
}

// bigSink takes an image holding one huge file without storing that file's bytes.
type bigSink struct {
	memWA
	big   *bigData
	base  int64
	next  int64
	extra []seg
	buf   []byte
	tail  int64
}

func (s *bigSink) WriteAt(p []byte, off int64) (int, error) {
	if s.buf == nil {
		s.buf = make([]byte, 1<<16)
		s.base = -1
	}
	if s.base < 0 && len(p) >= 4096 {
		s.big.fill(s.buf[:4096], 0)
		if bytes.Equal(s.buf[:4096], p[:4096]) {
			s.base = off
		}
	}
	if s.base >= 0 && off == s.base+s.next && s.next+int64(len(p)) <= s.big.Len {
		same := true
		for k := 0; k < len(p); k += len(s.buf) {
			q := s.buf[:min(len(s.buf), len(p)-k)]
			s.big.fill(q, s.next+int64(k))
			if !bytes.Equal(q, p[k:k+len(q)]) {
				same = false
				break
			}
		}
		if same {
			s.next += int64(len(p))
			return len(p), nil
		}
	}
	s.extra = append(s.extra, seg{off: off, data: append([]byte{}, p...), n: int64(len(p))})
	return len(p), nil
}

func (s *bigSink) image() *overlayImage {
	o := &overlayImage{}
	o.base.putBig(s.base, s.big)
	for _, e := range s.extra {
		o.over = append(o.over, e)
		o.size = max(o.size, e.off+e.n)
	}
	o.size = (max(o.size, o.base.size) + 4095) &^ 4095
	o.base.size = o.size
	return o
}

// overlayImage applies writes, in order, over a sparse base.
type overlayImage struct {
	base sparseImage
	over []seg
	size int64
}

func (o *overlayImage) ReadAt(p []byte, off int64) (int, error) {
	n, err := o.base.ReadAt(p, off)
	for _, g := range o.over {
		from, to := max(off, g.off), min(off+int64(n), g.off+g.n)
		if from < to {
			copy(p[from-off:to-off], g.data[from-g.off:to-g.off])
		}
	}
	return n, err
}

func checkHugeCreate(c *Ctx, size int64, zeroTime bool) {
	r := c.Rng
	t := genTree(r, GenOpt{Nodes: 6, Plain: true, NoXattr: true, MaxData: 3000})
	big := &bigData{Len: size, Seed: 21}
	n := &Node{Name: "~huge", Mode: 0o640, Big: big, MTime: time.Unix(1, 2)}
	if zeroTime {
		n.MTime = time.Time{}
	}
	t.Kids = append(t.Kids, n, &Node{Name: "~~after", Mode: 0o644, Data: genData(r, 100000), MTime: time.Unix(3, 4)})
	t.sort()
	c.Eval(t.sig(), true)
	c.Count("creates", 1)
	c.Count("big_files", 1)
	sink := &bigSink{big: big}
	if err := erofs.Create(sink, newModelFS(t, FSOpts{Link: 2, ReadDirFS: true, Sys: sysTar})); err != nil {
		c.Fail("Create refuses a source with a file of %d bytes: %v", size, err)
		return
	}
	if sink.next != big.Len {
		c.Fail("%d of %d bytes of the huge file were written in place", sink.next, big.Len)
		return
	}
	fsys, err := erofs.Open(sink.image())
	if err != nil {
		c.Fail("image with a file of %d bytes does not open: %v", size, err)
		return
	}
	verifyBig(c, fsys, "~huge", big)
	t.remove(n)
	for _, d := range compareWithout(fsys, t, "~huge", cmpOpt{mtime: 2, owner: true}) {
		c.Fail("%s", d)
	}
}

// ---------------------------------------------------------------- C05

func casesC05(quick bool, seed int64) []Case {
	cs := batch("create", N(quick, 1500, 60000), 6, func(c *Ctx, r *rand.Rand, i int) {
		t := erofsSource(r)
		fo := randFSOpts(r)
		checkErofsValid(c, fmt.Sprintf("iteration %d", i), t, ownersFor(t, fo), newModelFS(t, fo), r.Intn(6) == 0)
	})
	cs = append(cs, scale(quick, scaleOpt{Comp: 255, Target: 4095}, func(c *Ctx, r *rand.Rand, t *Node, i int) {
		fo := randFSOpts(r)
		checkErofsValid(c, fmt.Sprintf("iteration %d", i), t, ownersFor(t, fo), newModelFS(t, fo), r.Intn(3) == 0)
	})...)
	cs = append(cs, batch("wide", N(quick, 2, 6), 1, func(c *Ctx, r *rand.Rand, i int) {
		t := &Node{Name: ".", Mode: fs.ModeDir | 0o755, Kids: []*Node{wideDir(r, []int{40000, 66000}[i%2])}}
		c.Count("big_directories", 1)
		checkErofsValid(c, "wide directory", t, t, newModelFS(t, FSOpts{Link: 2, ReadDirFS: true}), i == 0)
	})...)
	// More subdirectories than the link count of a compact inode can hold, and
	// the most it can.
	cs = append(cs, batch("many-subdirectories", N(quick, 2, 4), 1, func(c *Ctx, r *rand.Rand, i int) {
		d := &Node{Name: "wide", Mode: fs.ModeDir | 0o755}
		for k := 0; k < 1<<16-3+[]int{1, 3, 0, 2}[i%4]; k++ {
			d.Kids = append(d.Kids, &Node{Name: fmt.Sprintf("%05d", k), Mode: fs.ModeDir | 0o755})
		}
		c.Count("big_directories", 1)
		t := &Node{Name: ".", Mode: fs.ModeDir | 0o755, Kids: []*Node{d}}
		checkErofsValid(c, fmt.Sprintf("directory of %d directories", len(d.Kids)), t, t, newModelFS(t, FSOpts{Link: 2, ReadDirFS: true}), false)
	})...)
	for _, l := range []int64{1<<32 + 12345, 1<<31 + 77} {
		l := l
		cs = append(cs, one(fmt.Sprint("huge-file-", l), func(c *Ctx) { checkHugeFileImage(c, l) }))
	}
	cs = append(cs, batch("many-small", N(quick, 4, 40), 1, func(c *Ctx, r *rand.Rand, i int) {
		t := genTree(r, GenOpt{Nodes: 6000, Links: true, MaxData: 2100, NoXattr: true, Times: []time.Time{{}, time.Unix(9, 9)}})
		checkErofsValid(c, "many small files", t, ownersFor(t, FSOpts{}), newModelFS(t, FSOpts{Link: 2}), true)
	})...)
	return cs
}

// checkHugeFileImage writes an image beyond 32 bits to a file on disk. The large
// file in it holds only zeros, which are returned to the disk as it grows.
func checkHugeFileImage(c *Ctx, size int64) {
	var st syscall.Statfs_t
	if syscall.Statfs(c.Scratch(), &st) != nil || int64(st.Bavail)*st.Bsize < size+(4<<30) {
		c.Sample("no room for a file of %d bytes", size)
		return
	}
	r := c.Rng
	t := genTree(r, GenOpt{Nodes: 6, Plain: true, NoXattr: true, MaxData: 3000})
	t.Kids = append(t.Kids, &Node{Name: "~huge", Mode: 0o640, Big: &bigData{Len: size, Zero: true}, MTime: time.Unix(1, 2)},
		&Node{Name: "~~after", Mode: 0o644, Data: genData(r, 100000), MTime: time.Unix(3, 4)})
	t.sort()
	dst, err := os.Create(filepath.Join(c.Scratch(), "huge"))
	must(err)
	defer os.Remove(dst.Name())
	defer dst.Close()
	const piece = 64 << 20
	var delivered, freed int64
	zeros, buf := make([]byte, 1<<20), make([]byte, 1<<20)
	src := newModelFS(t, FSOpts{Link: 2, ReadDirFS: true, Sys: sysTar, Got: func(p string, n int) {
		if p != "~huge" {
			return
		}
		if delivered += int64(n); delivered-freed < 2*piece {
			return
		}
		st, err := dst.Stat()
		if err != nil || st.Size() < 2*piece {
			return
		}
		from := (st.Size() - 2*piece) &^ 4095
		for off := from; off < from+piece; off += int64(len(buf)) {
			if n, _ := dst.ReadAt(buf, off); n != len(buf) || !bytes.Equal(buf, zeros) {
				freed = delivered
				return
			}
		}
		const keepSize, punchHole = 1, 2
		_ = syscall.Fallocate(int(dst.Fd()), keepSize|punchHole, from, piece)
		freed += piece
	}})
	if err := erofs.Create(dst, src); err != nil {
		c.Fail("Create refuses a source with a file of %d bytes: %v", size, err)
		return
	}
	c.Count("file_images", 1)
	c.Count("images_checked", 1)
	c.Count("big_files", 1)
	fi, err := dst.Stat()
	must(err)
	tree, f := runFsck(dst, fi.Size())
	for _, p := range f.probs {
		c.Fail("image with a file of %d bytes: %s", size, p)
	}
	if tree == nil {
		return
	}
	c.Eval(t.sig(), true)
	if h := tree.find("~huge"); h == nil || h.Size() != size {
		c.Fail("the file of %d bytes is stored as %v", size, h)
		return
	}
	t.remove(t.find("~huge"))
	tree.remove(tree.find("~huge"))
	for _, d := range sameTree(t, tree, cmpOpt{mtime: 2, owner: true, root: true, rootOwner: true, linkSize: true}) {
		c.Fail("image with a file of %d bytes, as decoded: %s", size, d)
	}
}

func checkErofsValid(c *Ctx, what string, t, want *Node, src fs.FS, file bool) {
	c.Eval(t.sig(), t.count() > 2)
	c.Sample("%s", t.describe())
	var tree *Node
	var f *fsck
	if file {
		p := filepath.Join(c.Scratch(), fmt.Sprintf("img%d", c.Rng.Int63()))
		// The destination may hold something already.
		dst, err := os.Create(p)
		must(err)
		defer os.Remove(p)
		defer dst.Close()
		if c.Rng.Intn(3) == 0 {
			junk := bytes.Repeat([]byte{0xA5}, 30000+c.Rng.Intn(1000000))
			_, _ = dst.Write(junk)
			must(dst.Truncate(0))
		}
		if err := erofs.Create(dst, src); err != nil {
			c.Fail("%s: Create: %v", what, err)
			return
		}
		st, err := dst.Stat()
		must(err)
		c.Count("file_images", 1)
		tree, f = runFsck(dst, st.Size())
	} else {
		var w memWA
		if err := erofs.Create(&w, src); err != nil {
			c.Fail("%s: Create: %v", what, err)
			return
		}
		b := w.padded()
		tree, f = runFsck(bytes.NewReader(b), int64(len(b)))
	}
	c.Count("images_checked", 1)
	c.Count("dirents_checked", f.dirents)
	c.Count("inodes_checked", int64(len(f.inodes)))
	for _, p := range f.probs {
		c.Fail("%s: %s", what, p)
	}
	if tree == nil {
		c.Fail("%s: the image has no readable root", what)
		return
	}
	for _, d := range sameTree(want, tree, cmpOpt{mtime: 2, owner: true, root: true, rootOwner: true, linkSize: true}) {
		c.Fail("%s, as decoded: %s", what, d)
	}
	if c.Failed() {
		c.Fail("tree %s", t.describe())
	}
}
