package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"path"
	"sort"
	"strings"
	"testing/iotest"

	"github.com/dpeckett/archivefs"
)

func init() {
	register(&Prop{
		ID: "C17",
		Rule: "One evaluation presents one filesystem (an archive from an independent encoder or from Create, a memory filesystem after random operations, or a subtree of one) and observes it through every view: listings, entries, infos, stat, stat link, opened files read in every way, the io/fs helpers, other spellings of the same path, names that are not there. " +
			"Non-trivial: more than one object; distinct by the objects observed.",
		MinEvents: []string{"views_tar", "views_ar", "views_erofs", "views_mem", "subtrees", "spellings", "spellings_missing", "read_ways", "walks", "globs", "files_listed", "links_viewed", "non_links_readlink", "pieces", "messy_opened", "below_files", "typed_members"},
		Cases:     casesC17,
	})
}

func casesC17(quick bool, seed int64) (out []Case) {
	for _, kind := range []string{"tar", "ar", "erofs", "tar-created", "ar-created", "erofs-created"} {
		kind := kind
		base, created := strings.CutSuffix(kind, "-created")
		out = append(out, batch(kind, N(quick, 80, 2500), 6, func(c *Ctx, r *rand.Rand, i int) {
			var blob []byte
			if created {
				var err error
				blob, err = formatOf(base).create(newModelFS(sourceFor(r, base), randFSOpts(r)))
				if err != nil {
					c.Fail("%s: create: %v", base, err)
					return
				}
			} else {
				blob = knownArchive(r, base, 3+r.Intn(14))
			}
			fsys, err := formatOf(base).open(bytes.NewReader(blob))
			if err != nil {
				c.Fail("%s: open: %v", base, err)
				return
			}
			allViews(c, r, base, fsys)
		})...)
	}
	out = append(out, batch("links", N(quick, 40, 1500), 3, func(c *Ctx, r *rand.Rand, i int) {
		for _, x := range linkFSes(c, r, linkTree(r)) {
			allViews(c, r, x.name, x.fs)
		}
	})...)
	out = append(out, batch("messy", N(quick, 120, 5000), 8, func(c *Ctx, r *rand.Rand, i int) {
		ents := messyEnts(r)
		if r.Intn(3) == 0 {
			ents = chainEnts(r, c)
		}
		fsys, err := openTar(bytes.NewReader(encodeTar(nil, ents)))
		if err != nil {
			c.Count("messy_refused", 1)
			return
		}
		c.Count("messy_opened", 1)
		allViews(c, r, "tar", fsys)
		if c.Failed() {
			c.Fail("entries %s", describeEnts(ents))
		}
	})...)
	out = append(out, batch("types", N(quick, 60, 1000), 4, arTypes)...)
	out = append(out, batch("mem", N(quick, 80, 2500), 6, func(c *Ctx, r *rand.Rand, i int) {
		m := newMemRun(c, r)
		for k := r.Intn(60); k > 0 && !c.Failed(); k-- {
			m.step()
		}
		for _, v := range m.views {
			if !c.Failed() {
				allViews(c, r, "mem", v.fsys)
			}
		}
	})...)
	out = append(out, batch("memtree", N(quick, 16, 800), 4, func(c *Ctx, r *rand.Rand, i int) {
		t := genTree(r, GenOpt{Nodes: 3 + r.Intn(25), MaxData: 3000, UTF8: true, BigDir: r.Intn(2) * 30})
		m, err := toMemFS(t)
		if err != nil {
			c.Fail("mem: %v", err)
			return
		}
		allViews(c, r, "mem", m)
	})...)
	return
}

// arTypes views members which are recorded as something other than regular files.
func arTypes(c *Ctx, r *rand.Rand, i int) {
	ms, want, _ := genArArchive(r, 2+r.Intn(6))
	for _, m := range ms {
		if r.Intn(3) > 0 {
			m.Mode = fmt.Sprintf("%o", int64(r.Intn(1<<16)))
			if r.Intn(2) == 0 {
				m.Mode = fmt.Sprintf("%o", []int64{0o40000, 0o120000, 0o20000, 0o60000, 0o10000, 0o140000, 0o100000}[r.Intn(7)]+int64(r.Intn(0o10000)))
			}
		}
	}
	blob := encodeAr(ms, r.Intn(2) == 0)
	c.Eval(blob, len(want.Kids) > 1)
	fsys, err := openAr(bytes.NewReader(blob))
	if err != nil {
		return
	}
	des, err := fs.ReadDir(fsys, ".")
	if err != nil || len(des) != len(want.Kids) {
		c.Fail("ar: listing: %d entries, want %d: %v", len(des), len(want.Kids), err)
		return
	}
	c.Count("typed_members", int64(len(des)))
	for _, de := range des {
		fi, err := de.Info()
		if err != nil {
			c.Fail("ar: %v", err)
			return
		}
		forms := map[string]fs.FileInfo{"Info of the entry": fi}
		if fi, err := fs.Stat(fsys, de.Name()); err == nil {
			forms["Stat"] = fi
		} else {
			c.Fail("ar: stat of %q: %v", de.Name(), err)
		}
		if f, err := fsys.Open(de.Name()); err == nil {
			if forms["Stat of the open file"], err = f.Stat(); err != nil {
				c.Fail("ar: stat of the open %q: %v", de.Name(), err)
				return
			}
			f.Close()
		}
		for what, x := range forms {
			if fullInfo(x) != fullInfo(fi) {
				c.Fail("ar: %q: %s reports %s, the entry %s", de.Name(), what, fullInfo(x), fullInfo(fi))
			}
			if x.IsDir() != x.Mode().IsDir() || x.Mode().Type() != de.Type().Type() || x.IsDir() != de.IsDir() || x.Name() != de.Name() {
				c.Fail("ar: %q: %s reports mode %v and directory %v, the entry type %v and directory %v", de.Name(), what, x.Mode(), x.IsDir(), de.Type(), de.IsDir())
			}
		}
	}
}

// allViews observes the filesystem in every way and complains about any disagreement.
func allViews(c *Ctx, r *rand.Rand, kind string, fsys fs.FS) {
	s := snapshot(fsys, snapOpt{rng: r})
	c.Count("views_"+kind, 1)
	c.Count("fs_operations", s.Ops)
	var sig strings.Builder
	for _, p := range sortedKeys(s.M) {
		ob := s.M[p]
		fmt.Fprintf(&sig, "%q %v %d %v %q %x\n", p, ob.Mode, ob.Size, ob.MTime, ob.Target, ob.Sum)
	}
	c.Eval([]byte(kind+sig.String()), len(s.M) > 1)
	fail := func(format string, args ...any) { c.Fail("%s: %s", kind, fmt.Sprintf(format, args...)) }
	for _, p := range s.Problems {
		fail("%s", p)
	}
	if s.cut {
		fail("does not end")
	}
	if c.Failed() {
		return
	}
	// Looking again shows the same.
	for _, d := range diffSnaps(s, snapshot(fsys, snapOpt{rng: r, noNegative: true})) {
		fail("looking twice: %s", d)
	}
	lfs, _ := fsys.(archivefs.ReadLinkFS)
	var names []string
	for _, p := range sortedKeys(s.M) {
		if p != "." {
			names = append(names, path.Base(p))
		}
	}
	for _, p := range sortedKeys(s.M) {
		if c.Failed() {
			fail("in %d objects: %.600s", len(s.M), sig.String())
			return
		}
		ob := s.M[p]
		switch {
		case ob.Mode.IsDir():
			dirViews(c, r, fail, fsys, p, s)
			if lfs != nil {
				c.Count("non_links_readlink", 1)
				if t, err := lfs.ReadLink(p); err == nil {
					fail("readlink of directory %q gives %q", p, t)
				}
			}
		case ob.Mode&fs.ModeSymlink != 0:
			if lfs != nil {
				linkViews(c, fail, fsys, p)
			}
		default:
			if lfs != nil {
				c.Count("non_links_readlink", 1)
				if t, err := lfs.ReadLink(p); err == nil {
					fail("readlink of %q (%v) gives %q", p, ob.Mode, t)
				}
			}
			c.Count("files_listed", 1)
			if es, err := fs.ReadDir(fsys, p); err == nil {
				fail("listing %q (%v) succeeds with %d entries", p, ob.Mode, len(es))
			}
			belows := []string{p + "/x", p + "/absent/y"}
			for _, n := range "abcde" {
				belows = append(belows, p+"/"+string(n))
			}
			if len(names) > 0 {
				for k := 0; k < 3; k++ {
					belows = append(belows, p+"/"+names[r.Intn(len(names))])
				}
			}
			for _, below := range belows {
				c.Count("below_files", 1)
				if f, err := fsys.Open(below); err == nil {
					f.Close()
					fail("%q opens, although %q is a %v", below, p, ob.Mode)
				}
				if _, err := fs.Stat(fsys, below); err == nil {
					fail("stat of %q succeeds, although %q is a %v", below, p, ob.Mode)
				}
			}
			if ob.Mode.IsRegular() {
				readWays(c, r, fail, fsys, p, ob.Data)
			}
		}
		if kind != "mem" {
			spellings(c, r, fail, fsys, p)
		}
	}
	if kind != "mem" {
		for _, q := range []string{"absent", "...", "absent/x"} {
			if s.M[q] == nil {
				c.Count("spellings_missing", 1)
				spellings(c, r, fail, fsys, q)
			}
		}
	}
	helpers(c, r, kind, fail, fsys, s)
}

// dirViews looks at a directory through a file opened on it.
func dirViews(c *Ctx, r *rand.Rand, fail func(string, ...any), fsys fs.FS, p string, s *Snap) {
	f, err := fsys.Open(p)
	if err != nil {
		fail("open %q: %v", p, err)
		return
	}
	defer f.Close()
	rd, ok := f.(fs.ReadDirFile)
	if !ok {
		return
	}
	var got []string
	if r.Intn(2) == 0 {
		es, err := rd.ReadDir(-1)
		if err != nil {
			fail("listing the opened %q: %v", p, err)
			return
		}
		got = entryNames(es)
	} else {
		for {
			es, err := rd.ReadDir(1 + r.Intn(4))
			got = append(got, entryNames(es)...)
			if err == io.EOF {
				break
			}
			if err != nil || len(es) == 0 {
				fail("listing the opened %q in pieces: %d entries, %v", p, len(es), err)
				return
			}
		}
	}
	c.Count("pieces", 1)
	sort.Strings(got)
	if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", s.M[p].Kids) {
		fail("the opened %q lists %q, ReadDir %q", p, got, s.M[p].Kids)
	}
}

func entryNames(es []fs.DirEntry) (out []string) {
	for _, e := range es {
		out = append(out, e.Name())
	}
	return
}

// linkViews: stat, open, read and list must agree on where a link leads.
func linkViews(c *Ctx, fail func(string, ...any), fsys fs.FS, p string) {
	c.Count("links_viewed", 1)
	fi, serr := fs.Stat(fsys, p)
	f, oerr := fsys.Open(p)
	if (serr == nil) != (oerr == nil) {
		fail("link %q: stat %v, open %v", p, serr, oerr)
	}
	es, lerr := fs.ReadDir(fsys, p)
	data, rerr := fs.ReadFile(fsys, p)
	if oerr != nil {
		if lerr == nil || rerr == nil && serr != nil {
			fail("link %q leads nowhere (%v), but can be listed (%v) or read (%v)", p, oerr, lerr, rerr)
		}
		return
	}
	defer f.Close()
	ofi, err := f.Stat()
	if err != nil {
		fail("link %q: stat of the opened file: %v", p, err)
		return
	}
	if serr != nil {
		return
	}
	if d := eqInfo(fi, ofi); d != "" {
		fail("link %q: stat and opened file disagree: %s", p, d)
	}
	if fi.Mode()&fs.ModeSymlink != 0 {
		fail("stat of link %q does not follow it: %v", p, fi.Mode())
	}
	if fi.IsDir() != (lerr == nil) {
		fail("link %q leads to a %v, listing: %d entries, %v", p, fi.Mode(), len(es), lerr)
	}
	if fi.Mode().IsRegular() && (rerr != nil || int64(len(data)) != fi.Size()) {
		fail("link %q leads to a file of %d bytes, reading gives %d, %v", p, fi.Size(), len(data), rerr)
	}
}

// readWays reads a regular file in every way there is.
func readWays(c *Ctx, r *rand.Rand, fail func(string, ...any), fsys fs.FS, p string, want []byte) {
	check := func(how string, data []byte, err error) {
		c.Count("read_ways", 1)
		if err != nil {
			fail("%q: %s: %v", p, how, err)
		} else if !bytes.Equal(data, want) {
			fail("%q: %s: %s", p, how, diffBytes(data, want))
		}
	}
	open := func() fs.File {
		f, err := fsys.Open(p)
		if err != nil {
			fail("open %q: %v", p, err)
			return nil
		}
		return f
	}
	data, err := fs.ReadFile(fsys, p)
	check("fs.ReadFile", data, err)
	for style := 0; style < 6; style++ {
		if f := open(); f != nil {
			data, err, prob := readStyled(f, style, r, int64(len(want))+1000)
			if prob != "" {
				fail("%q: read style %d: %s", p, style, prob)
			}
			check(fmt.Sprintf("read style %d", style), data, err)
			f.Close()
		}
	}
	if f := open(); f != nil {
		var b bytes.Buffer
		n, err := io.Copy(&b, f)
		if n != int64(b.Len()) {
			fail("%q: io.Copy reports %d of %d bytes", p, n, b.Len())
		}
		check("io.Copy", b.Bytes(), err)
		f.Close()
	}
	if f := open(); f != nil {
		data, err := io.ReadAll(bufio.NewReaderSize(f, 16+r.Intn(100)))
		check("a small buffered reader", data, err)
		f.Close()
	}
	if f := open(); f != nil {
		data, err := io.ReadAll(iotest.HalfReader(f))
		check("half reads", data, err)
		f.Close()
	}
	if f := open(); f != nil {
		buf := make([]byte, len(want))
		_, err := io.ReadFull(f, buf)
		check("io.ReadFull", buf, err)
		if n, err := f.Read(make([]byte, 8)); n != 0 || err != io.EOF {
			fail("%q: reading on at the end gives %d, %v", p, n, err)
		}
		f.Close()
	}
	// Abandoned halfway, and again from the start.
	if f := open(); f != nil {
		half := make([]byte, len(want)/2)
		_, _ = io.ReadFull(f, half)
		g := open()
		if g != nil {
			data, err := io.ReadAll(g)
			check("a second opened file", data, err)
			g.Close()
		}
		rest, err := io.ReadAll(f)
		check("two halves", append(half, rest...), err)
		f.Close()
	}
	// More ways, where the file offers them.
	if f := open(); f != nil {
		if ra, ok := f.(io.ReaderAt); ok {
			for k := 0; k < 4; k++ {
				off := r.Intn(len(want) + 3)
				buf := make([]byte, 1+r.Intn(2000))
				n, err := ra.ReadAt(buf, int64(off))
				exp := want[min(off, len(want)):]
				exp = exp[:min(len(exp), len(buf))]
				if !bytes.Equal(buf[:n], exp) || n < len(buf) && err == nil {
					fail("%q: ReadAt(%d bytes, %d) gives %d, %v", p, len(buf), off, n, err)
				}
				c.Count("read_ways", 1)
			}
		}
		if sk, ok := f.(io.Seeker); ok {
			for k := 0; k < 4; k++ {
				off := r.Intn(len(want) + 1)
				if got, err := sk.Seek(int64(off), io.SeekStart); err != nil || got != int64(off) {
					fail("%q: Seek(%d) gives %d, %v", p, off, got, err)
				}
				data, err := io.ReadAll(f)
				if err != nil || !bytes.Equal(data, want[off:]) {
					fail("%q: reading from %d: %s, %v", p, off, diffBytes(data, want[off:]), err)
				}
				c.Count("read_ways", 1)
			}
		}
		f.Close()
	}
}

func fullInfo(fi fs.FileInfo) string {
	uid, gid, ok, x := ownerOf(fi)
	return fmt.Sprintf("%q %v %d %v %v %d:%d %v %q", fi.Name(), fi.Mode(), fi.Size(), fi.ModTime().UnixNano(), fi.IsDir(), uid, gid, ok, x)
}

// spellings asks about a path in other spellings: the answers must be those for the clean one.
func spellings(c *Ctx, r *rand.Rand, fail func(string, ...any), fsys fs.FS, p string) {
	forms := []string{"/" + p, "./" + p, p + "/", "/" + p + "/", "./" + p + "/"}
	if p == "." {
		forms = []string{"/", "./"}
	} else if r.Intn(2) == 0 {
		forms = forms[r.Intn(len(forms)):][:1]
	}
	for _, q := range forms {
		c.Count("spellings", 1)
		differs := func(what string, a, b error) {
			if (a == nil) != (b == nil) {
				fail("%s: %q gives %v, %q gives %v", what, p, a, q, b)
			} else if isNotExist(a) != isNotExist(b) {
				fail("%s: %q gives %v, %q gives %v", what, p, a, q, b)
			}
		}
		same := func(what, a, b string) {
			if a != b {
				fail("%s: %q gives %s, %q gives %s", what, p, a, q, b)
			}
		}
		a, aerr := fs.Stat(fsys, p)
		b, berr := fs.Stat(fsys, q)
		differs("stat", aerr, berr)
		if aerr == nil && berr == nil {
			same("stat", fullInfo(a), fullInfo(b))
		}
		f, aerr := fsys.Open(p)
		g, berr := fsys.Open(q)
		differs("open", aerr, berr)
		if aerr == nil && berr == nil {
			a, aerr := f.Stat()
			b, berr := g.Stat()
			differs("stat of opened", aerr, berr)
			if aerr == nil && berr == nil {
				same("stat of opened", fullInfo(a), fullInfo(b))
				if a.Mode().IsRegular() {
					x, aerr := io.ReadAll(f)
					y, berr := io.ReadAll(g)
					differs("read", aerr, berr)
					same("read", sum(x), sum(y))
				}
			}
		}
		if aerr == nil {
			f.Close()
		}
		if berr == nil {
			g.Close()
		}
		as, aerr := fs.ReadDir(fsys, p)
		bs, berr := fs.ReadDir(fsys, q)
		differs("listing", aerr, berr)
		same("listing", fmt.Sprintf("%q", entryNames(as)), fmt.Sprintf("%q", entryNames(bs)))
		if lfs, ok := fsys.(archivefs.ReadLinkFS); ok {
			at, aerr := lfs.ReadLink(p)
			bt, berr := lfs.ReadLink(q)
			differs("readlink", aerr, berr)
			same("readlink", at, bt)
			a, aerr := lfs.StatLink(p)
			b, berr := lfs.StatLink(q)
			differs("statlink", aerr, berr)
			if aerr == nil && berr == nil {
				same("statlink", fullInfo(a), fullInfo(b))
			}
		}
	}
}

// helpers uses the functions of io/fs that walk a filesystem.
func helpers(c *Ctx, r *rand.Rand, kind string, fail func(string, ...any), fsys fs.FS, s *Snap) {
	paths := sortedKeys(s.M)
	// WalkDir visits everything once, directories first and names in order.
	var walked []string
	err := fs.WalkDir(fsys, ".", func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			fail("walking %q: %v", p, err)
			return nil
		}
		walked = append(walked, p)
		ob := s.M[p]
		if ob == nil {
			fail("walking finds %q, which is not listed", p)
			return nil
		}
		fi, err := d.Info()
		if err != nil {
			fail("walking: info of %q: %v", p, err)
			return nil
		}
		if fi.Mode() != ob.Mode || fi.Size() != ob.Size || !fi.ModTime().Equal(ob.MTime) || d.Type()&fs.ModeType != ob.Mode&fs.ModeType || d.IsDir() != ob.Mode.IsDir() || p != "." && d.Name() != path.Base(p) {
			fail("walking: %q is %v %v, seen before: %v", p, fs.FormatDirEntry(d), fs.FormatFileInfo(fi), ob.Mode)
		}
		return nil
	})
	c.Count("walks", 1)
	sort.Strings(walked)
	if err != nil || fmt.Sprintf("%q", walked) != fmt.Sprintf("%q", paths) {
		fail("walking (%v) visits %.300q, want %.300q", err, walked, paths)
	}
	// Glob finds what is listed and nothing else.
	escape := strings.NewReplacer("*", "\\*", "?", "\\?", "[", "\\[", "\\", "\\\\")
	for k := 0; k < 3; k++ {
		p := paths[r.Intn(len(paths))]
		pat := escape.Replace(p)
		want := []string{p}
		if p != "." && r.Intn(2) == 0 {
			d := path.Dir(p)
			pat, want = "*", nil
			if d != "." {
				pat = escape.Replace(d) + "/*"
			}
			for _, kid := range s.M[d].Kids {
				want = append(want, path.Join(d, kid))
			}
		}
		got, err := fs.Glob(fsys, pat)
		c.Count("globs", 1)
		if err != nil || fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
			if s.M[p].Mode&fs.ModeSymlink != 0 && len(want) == 1 { // Glob follows links
				continue
			}
			fail("Glob(%q) = %.300q, %v, want %.300q", pat, got, err, want)
		}
	}
	// A subtree shows what is below its directory.
	var dirs []string
	for _, p := range paths {
		if s.M[p].Mode.IsDir() && fs.ValidPath(p) {
			dirs = append(dirs, p)
		}
	}
	for k := 0; k < 2 && len(dirs) > 0; k++ {
		d := dirs[r.Intn(len(dirs))]
		if d == "." {
			continue
		}
		utf8 := true // fs.Sub takes only valid paths
		for _, p := range paths {
			if strings.HasPrefix(p, d+"/") && !fs.ValidPath(p) {
				utf8 = false
			}
		}
		if !utf8 {
			continue
		}
		sub, err := fs.Sub(fsys, d)
		if err != nil {
			fail("Sub(%q): %v", d, err)
			continue
		}
		c.Count("subtrees", 1)
		got := snapshot(sub, snapOpt{rng: r})
		for _, p := range got.Problems {
			// An opened directory is named after itself, which fs.Sub does not hide.
			fail("Sub(%q): %s", d, p)
		}
		for _, p := range paths {
			q := "."
			if p != d {
				var ok bool
				if q, ok = strings.CutPrefix(p, d+"/"); !ok {
					continue
				}
			}
			ob, sb := s.M[p], got.M[q]
			if sb == nil {
				fail("Sub(%q): %q is missing", d, q)
			} else if sb.Mode != ob.Mode || sb.Size != ob.Size || !sb.MTime.Equal(ob.MTime) || sb.Sum != ob.Sum || fmt.Sprintf("%q", sb.Kids) != fmt.Sprintf("%q", ob.Kids) {
				fail("Sub(%q): %q is %v %d %v %x, in the whole %v %d %v %x", d, q, sb.Mode, sb.Size, sb.MTime, sb.Sum[:4], ob.Mode, ob.Size, ob.MTime, ob.Sum[:4])
			}
		}
		for q := range got.M {
			if s.M[path.Join(d, q)] == nil {
				fail("Sub(%q): %q is not in the whole", d, q)
			}
		}
	}
	if _, err := fs.Sub(fsys, "absent-dir"); kind != "mem" && err != nil && !errors.Is(err, fs.ErrNotExist) {
		fail("Sub of a missing directory: %v", err)
	}
}
