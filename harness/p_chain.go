package main

import (
	"bytes"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"path"
	"strings"
	"sync"
	"time"

	"github.com/dpeckett/archivefs"
	"github.com/dpeckett/archivefs/memfs"
)

func init() {
	register(&Prop{
		ID: "C18",
		Rule: "One evaluation converts a tree through a chain of formats (archives from independent encoders, directories on disk, maps and zip archives, memory, tar, EROFS, ar; now and then a subdirectory instead of the whole) and compares what every stage presents with the original tree. " +
			"Non-trivial: the tree has objects; distinct by tree and chain.",
		MinEvents: []string{"hop_mem_tar", "hop_mem_erofs", "hop_mem_ar", "hop_tar_tar", "hop_tar_erofs", "hop_tar_ar", "hop_tar_mem", "hop_erofs_tar", "hop_erofs_erofs", "hop_erofs_ar", "hop_erofs_mem",
			"hop_ar_tar", "hop_ar_erofs", "hop_ar_ar", "hop_ar_mem", "long_chains", "links_carried", "special_bits_carried", "implied_dirs_carried", "sparse_carried", "hard_links_carried", "foreign_sources", "subtrees_carried"},
		Cases: casesC18,
	})
	register(&Prop{
		ID: "C20",
		Rule: "One evaluation opens the same archive bytes many times (contradictory tar archives with duplicates, chains and cycles of hard links, parents that are links or files; damaged and well-formed archives of every format) and compares everything presented, or creates an archive from the same source many times - with other read sizes, later, in another time zone, concurrently - and compares the bytes. " +
			"Non-trivial: the archive has entries; distinct by archive bytes.",
		MinEvents: []string{"reopened_tar", "reopened_ar", "reopened_erofs", "refused_every_time", "messy_opened", "created_tar", "created_ar", "created_erofs", "other_chunks", "other_zone", "later", "parallel", "provided_sources", "hard_links_in_chains", "duplicates"},
		Cases:     casesC20,
	})
}

// copyToMem copies a filesystem of files and directories into memory.
func copyToMem(src fs.FS) (*memfs.FS, error) {
	m := memfs.New()
	err := fs.WalkDir(src, ".", func(p string, d fs.DirEntry, err error) error {
		if err != nil || p == "." {
			return err
		}
		fi, err := d.Info()
		if err != nil {
			return err
		}
		if d.IsDir() {
			return m.MkdirAll(p, fi.Mode()&^fs.ModeType)
		}
		data, err := fs.ReadFile(src, p)
		if err != nil {
			return err
		}
		return m.WriteFile(p, data, fi.Mode()&^fs.ModeType)
	})
	return m, err
}

func casesC18(quick bool, seed int64) (out []Case) {
	out = append(out, batch("chain", N(quick, 600, 20000), 4, func(c *Ctx, r *rand.Rand, i int) { chain(c, r, 1+r.Intn(5), false) })...)
	out = append(out, batch("flat", N(quick, 300, 10000), 4, func(c *Ctx, r *rand.Rand, i int) { chain(c, r, 1+r.Intn(5), true) })...)
	out = append(out, batch("long", N(quick, 48, 800), 1, func(c *Ctx, r *rand.Rand, i int) {
		c.Count("long_chains", 1)
		chain(c, r, 12+r.Intn(12), r.Intn(2) == 0)
	})...)
	for _, links := range []bool{false, true} {
		o := scaleOpt{Comp: 255, Target: 4095 * boolInt(links), Many: 3000}
		for _, s := range scale(quick, o, func(c *Ctx, r *rand.Rand, t *Node, i int) { chainOf(c, r, t, links, 4+r.Intn(5), false) }) {
			s.ID += []string{"", "-links"}[boolInt(links)]
			out = append(out, s)
		}
	}
	return
}

// chain converts a tree through some formats.
func chain(c *Ctx, r *rand.Rand, hops int, flat bool) {
	var t *Node
	links := r.Intn(2) == 0
	if flat {
		links = false
		for {
			var reason string
			if t, reason = arSource(r); reason == "" && len(t.Kids) > 0 {
				break
			}
		}
	} else {
		g := GenOpt{Nodes: 2 + r.Intn(20), Links: links, MaxData: []int{100, 3000, 20000}[r.Intn(3)], NoXattr: true, UTF8: r.Intn(2) == 0}
		switch r.Intn(8) {
		case 0:
			g.BigDir = 20 + r.Intn(300)
		case 1:
			g.Depth, g.Nodes = 30, 60
		}
		t = genTree(r, g)
	}
	chainOf(c, r, t, links, hops, flat)
}

func chainOf(c *Ctx, r *rand.Rand, t *Node, links bool, hops int, flat bool) {
	valid := true // memory holds only valid paths
	t.each(func(p string, n *Node) { valid = valid && fs.ValidPath(p) })
	var fsys fs.FS
	var err error
	kind, want := "", t
	fail := func(format string, args ...any) { c.Fail("%s (tree %s)", fmt.Sprintf(format, args...), t.describe()) }
	switch k := r.Intn(6); {
	case k == 5 && valid:
		var done func()
		fsys, want, kind, done = foreignFS(c, r, t, links)
		defer done()
		kind = strings.ReplaceAll(kind, " ", "-")
	case k == 0 && !links && valid:
		kind = "mem"
		fsys, err = toMemFS(t)
		want = noTimes(t)
	case k == 1:
		kind = "tar"
		var ents []*tarEnt
		ents, want = tarFromTree(r, t)
		for _, e := range ents {
			if e.Fmt >= fmtGNUSparse {
				c.Count("sparse_carried", 1)
			}
			if e.Type == '1' {
				c.Count("hard_links_carried", 1)
			}
		}
		fsys, err = openTar(bytes.NewReader(encodeTar(r, ents)))
		if flat { // hard links have names of their own
			flat = false
		}
	case k == 2:
		kind = "erofs"
		var img *sparseImage
		img, want, _ = buildEROFS(r, t, randEroOpt(r))
		fsys, err = openErofs(img)
	case k == 3 && flat:
		kind = "ar"
		var ms []*arMember
		for _, n := range t.Kids {
			ms = append(ms, &arMember{Name: n.Name, MTime: fmt.Sprint(n.MTime.Unix()), UID: fmt.Sprint(n.UID), GID: fmt.Sprint(n.GID), Mode: fmt.Sprintf("%o", 0o100000|unixMode(n.Mode)), Data: n.Data})
		}
		fsys, err = openAr(bytes.NewReader(encodeAr(ms, true)))
	default:
		kind = "model"
		fsys = newModelFS(t, randFSOpts(r))
	}
	if err != nil {
		fail("making the %s filesystem to start from: %v", kind, err)
		return
	}
	trail := kind
	var timeless bool
	if kind == "mem" {
		timeless = true
	}
	implied := false
	want.each(func(p string, n *Node) {
		implied = implied || n.Implied
		if n.IsLink() {
			c.Count("links_carried", 1)
		}
		if n.Mode&(fs.ModeSetuid|fs.ModeSetgid|fs.ModeSticky) != 0 {
			c.Count("special_bits_carried", 1)
		}
	})
	if implied {
		c.Count("implied_dirs_carried", 1)
	}
	for h := 0; h < hops; h++ {
		var next []string
		next = append(next, "tar", "erofs", "tar", "erofs")
		if flat {
			next = append(next, "ar", "ar", "ar")
		}
		if !links && valid {
			next = append(next, "mem")
		}
		to := next[r.Intn(len(next))]
		if !links && valid && r.Intn(5) == 0 { // only a part of it
			var dirs []string
			want.each(func(p string, n *Node) {
				if n.IsDir() && (p != "." || r.Intn(4) == 0) {
					dirs = append(dirs, p)
				}
			})
			if len(dirs) > 0 {
				dir := dirs[r.Intn(len(dirs))]
				trail += "/sub"
				if fsys, err = fs.Sub(fsys, dir); err != nil {
					fail("%s: subtree at %q: %v", trail, dir, err)
					return
				}
				want = want.find(dir).clone()
				want.Name = "."
				c.Count("subtrees_carried", 1)
			}
		}
		trail += ">" + to
		c.Count("hop_"+kind+"_"+to, 1)
		c.Eval([]byte(trail+string(t.sig())), len(t.Kids) > 0)
		if to == "mem" {
			fsys, err = copyToMem(fsys)
			if !timeless {
				want, timeless = noTimes(want), true
			}
		} else {
			var blob []byte
			f := formatOf(to)
			blob, err = f.create(fsys)
			if err != nil {
				fail("%s: creating fails: %v", trail, err)
				return
			}
			fsys, err = f.open(bytes.NewReader(blob))
		}
		if err != nil {
			fail("%s: %v", trail, err)
			return
		}
		kind = to
		s := snapshot(fsys, snapOpt{rng: r, noNegative: true})
		c.Count("objects_compared", int64(len(s.M)))
		for _, ob := range s.M {
			if ob.Mode&fs.ModeSymlink != 0 {
				ob.Target = path.Clean(ob.Target)
			}
		}
		for _, d := range compare(s, want, cmpOpt{mtime: 1, linkClean: true}) {
			fail("%s: %s", trail, d)
		}
		for _, p := range s.Problems {
			fail("%s: %s", trail, p)
		}
		if c.Failed() {
			return
		}
	}
	c.Sample("%s: %s", trail, t.describe())
}

// noTimes is the tree as memory holds it: there are no modification times.
func noTimes(t *Node) *Node {
	t = t.clone()
	t.each(func(_ string, n *Node) { n.MTime = time.Time{} })
	return t
}

// ---------------------------------------------------------------- C20

// messyEnts makes a tar archive whose entries contradict each other.
func messyEnts(r *rand.Rand) (ents []*tarEnt) {
	names := []string{"a", "b", "c", "d", "e"}[:2+r.Intn(4)]
	p := func() string {
		s := names[r.Intn(len(names))]
		for r.Intn(3) == 0 {
			s += "/" + names[r.Intn(len(names))]
		}
		return s
	}
	deco := func(s string) string {
		switch r.Intn(8) {
		case 0:
			return "/" + s
		case 1:
			return "./" + s
		case 2:
			return s + "/"
		case 3:
			return "x/../" + s
		}
		return s
	}
	for i := 2 + r.Intn(12); i > 0; i-- {
		e := &tarEnt{Name: deco(p()), Fmt: fmtUstar, Mode: int64(r.Intn(0o1000)), UID: r.Int63n(100), MTime: time.Unix(int64(1000+i), 0)}
		switch r.Intn(8) {
		case 0, 1:
			e.Type = '5'
		case 2:
			e.Type, e.Link = '2', []string{p(), "../" + p(), "/" + p(), ".", "..", "/", "./" + p()}[r.Intn(7)]
		case 3, 4:
			e.Type, e.Link = '1', deco(p())
		default:
			e.Type, e.Data = '0', []byte(fmt.Sprintf("content %d of %s", i, e.Name))
		}
		ents = append(ents, e)
	}
	return
}

// chainEnts makes a tar archive with chains of hard links in some order; sometimes one cannot be resolved.
func chainEnts(r *rand.Rand, c *Ctx) (ents []*tarEnt) {
	n := 1 + r.Intn(6)
	for k := 0; k < n; k++ {
		base := fmt.Sprintf("%c%d", 'a'+rune(r.Intn(26)), k)
		e := &tarEnt{Name: base, Fmt: fmtUstar, Mode: 0o600 + int64(k), MTime: time.Unix(int64(k), 0), Type: '0', Data: []byte("content of " + base)}
		switch r.Intn(6) {
		case 0:
			e.Type, e.Data = '5', nil
		case 1:
			e.Type, e.Data, e.Link = '2', nil, "x"
		case 2:
			if r.Intn(3) == 0 {
				e.Type, e.Data, e.Link = '1', nil, []string{"missing", base, fmt.Sprintf("z%dl1", k)}[r.Intn(3)]
			}
		}
		ents = append(ents, e)
		prev := base
		for l := r.Intn(12); l > 0; l-- {
			name := fmt.Sprintf("%c%dl%d", 'a'+rune(r.Intn(26)), k, l)
			ents = append(ents, &tarEnt{Name: name, Fmt: fmtUstar, Type: '1', Link: prev, MTime: time.Unix(77, 0), Mode: 0o111})
			c.Count("hard_links_in_chains", 1)
			if r.Intn(4) > 0 {
				prev = name
			}
		}
		if r.Intn(4) == 0 {
			d := *ents[r.Intn(len(ents))]
			d.Mode, d.MTime = 0o777, time.Unix(99, 0)
			ents = append(ents, &d)
			c.Count("duplicates", 1)
		}
	}
	if r.Intn(2) == 0 {
		r.Shuffle(len(ents), func(i, j int) { ents[i], ents[j] = ents[j], ents[i] })
	}
	return
}

// reopen opens the same bytes many times.
func reopen(c *Ctx, r *rand.Rand, what, kind string, blob []byte, times int, extra []string, messy bool) {
	seed := r.Int63()
	c.Count("reopened_"+kind, 1)
	var ref *Snap
	var refErr error
	var refAns []string
	for k := 0; k < times; k++ {
		rr := rand.New(rand.NewSource(seed))
		fsys, err := formatOf(kind).open(bytes.NewReader(blob))
		var s *Snap
		var ans []string
		if err == nil {
			s = snapshot(fsys, snapOpt{rng: rr, noNegative: true, tolerate: true, maxNodes: 400, maxFile: 1 << 17})
			qs := append([]string(nil), extra...)
			for _, p := range sortedKeys(s.M) {
				if len(qs) > 150 {
					break
				}
				qs = append(qs, p)
			}
			ans = answers(fsys, qs)
		}
		if k == 0 {
			ref, refErr, refAns = s, err, ans
			c.Eval(append([]byte(kind), blob...), len(blob) > 1024)
			if err == nil && messy {
				c.Count("messy_opened", 1)
			}
			continue
		}
		if (err == nil) != (refErr == nil) {
			c.Fail("%s: opened once: %v, opened again: %v", what, refErr, err)
			return
		}
		if err != nil {
			continue
		}
		for _, d := range diffSnaps(ref, s) {
			c.Fail("%s: opened twice: %s", what, d)
		}
		if fmt.Sprint(ref.Problems) != fmt.Sprint(s.Problems) {
			c.Fail("%s: opened twice: %q / %q", what, ref.Problems, s.Problems)
		}
		for i := range ans {
			if ans[i] != refAns[i] {
				c.Fail("%s: opened twice: %s / %s", what, refAns[i], ans[i])
				break
			}
		}
		if c.Failed() {
			return
		}
	}
	if refErr != nil {
		c.Count("refused_every_time", 1)
	}
}

// answers describes what the filesystem says about some paths.
func answers(fsys fs.FS, qs []string) (out []string) {
	info := func(fi fs.FileInfo, err error) string {
		if err != nil {
			return "error"
		}
		return fullInfo(fi)
	}
	lfs, _ := fsys.(archivefs.ReadLinkFS)
	for _, q := range qs {
		var b strings.Builder
		fmt.Fprintf(&b, "%q: stat %s", q, info(fs.Stat(fsys, q)))
		f, err := fsys.Open(q)
		if err != nil {
			b.WriteString(", open error")
		} else {
			fi, err := f.Stat()
			fmt.Fprintf(&b, ", opened %s", info(fi, err))
			if err == nil && fi.Mode().IsRegular() {
				data, err := io.ReadAll(io.LimitReader(f, 1<<17))
				fmt.Fprintf(&b, ", %s %v", sum(data), err != nil)
			}
			f.Close()
		}
		es, err := fs.ReadDir(fsys, q)
		if len(es) > 500 {
			es = es[:500]
		}
		fmt.Fprintf(&b, ", lists %q %v", entryNames(es), err != nil)
		if lfs != nil {
			t, err := lfs.ReadLink(q)
			fmt.Fprintf(&b, ", links %q %v", t, err != nil)
			li, err := lfs.StatLink(q)
			fmt.Fprintf(&b, ", is %s", info(li, err))
		}
		out = append(out, b.String())
	}
	return
}

func casesC20(quick bool, seed int64) (out []Case) {
	pairs := func(names []string) (out []string) {
		for _, a := range names {
			out = append(out, a)
			for _, b := range names {
				out = append(out, a+"/"+b)
			}
		}
		return
	}
	out = append(out, batch("messy", N(quick, 200, 10000), 10, func(c *Ctx, r *rand.Rand, i int) {
		ents := messyEnts(r)
		reopen(c, r, "tar "+describeEnts(ents), "tar", encodeTar(nil, ents), 8, pairs([]string{"a", "b", "c", "d", "e"}), true)
	})...)
	out = append(out, batch("hardlinks", N(quick, 100, 5000), 10, func(c *Ctx, r *rand.Rand, i int) {
		ents := chainEnts(r, c)
		reopen(c, r, "tar "+describeEnts(ents), "tar", encodeTar(nil, ents), 12, nil, true)
	})...)
	for _, kind := range []string{"tar", "ar", "erofs"} {
		kind := kind
		out = append(out, batch("open-"+kind, N(quick, 24, 1000), 4, func(c *Ctx, r *rand.Rand, i int) {
			reopen(c, r, kind, kind, knownArchive(r, kind, 3+r.Intn(12)), 5, nil, false)
		})...)
		out = append(out, batch("damaged-"+kind, N(quick, 40, 2000), 8, func(c *Ctx, r *rand.Rand, i int) {
			s := genSeed(r, kind)
			blob := mutate(r, s)
			if kind == "tar" && hugeSparse(blob) || len(blob) > 1<<17 {
				return
			}
			reopen(c, r, "damaged "+kind, kind, blob, 4, nil, false)
		})...)
		out = append(out, batch("create-"+kind, N(quick, 60, 3000), 4, func(c *Ctx, r *rand.Rand, i int) { recreate(c, r, kind, false) })...)
		out = append(out, batch("later-"+kind, N(quick, 3, 40), 1, func(c *Ctx, r *rand.Rand, i int) { recreate(c, r, kind, true) })...)
	}
	return
}

// recreate creates archives from the same source again and again.
func recreate(c *Ctx, r *rand.Rand, kind string, later bool) {
	f := formatOf(kind)
	t := sourceFor(r, kind)
	opts := randFSOpts(r)
	opts.Chunk = 0
	mk := func(chunk int) func() (fs.FS, error) {
		o := opts
		o.Chunk = chunk
		return func() (fs.FS, error) { return newModelFS(t, o), nil }
	}
	source := mk(0)
	provided := r.Intn(3) == 0
	if provided { // one of the library's own filesystems, opened afresh each time
		var open func() (fs.FS, error)
		switch k := r.Intn(4); {
		case k == 0:
			links, valid := false, true
			t.each(func(p string, n *Node) { links = links || n.IsLink(); valid = valid && fs.ValidPath(p) })
			if links || !valid {
				return
			}
			open = func() (fs.FS, error) { return toMemFS(t) }
		case k == 1 && kind == "ar":
			blob, err := createAr(newModelFS(t, opts))
			if err != nil {
				c.Fail("ar: %v", err)
				return
			}
			open = func() (fs.FS, error) { return openAr(bytes.NewReader(blob)) }
		case k == 2:
			img, _, _ := buildEROFS(r, t, randEroOpt(r))
			open = func() (fs.FS, error) { return openErofs(img) }
		default:
			var ents []*tarEnt
			for {
				ents, _ = tarFromTree(r, t)
				if kind != "ar" {
					break
				}
				hard := false
				for _, e := range ents {
					hard = hard || e.Type == '1'
				}
				if !hard {
					break
				}
			}
			blob := encodeTar(nil, ents)
			open = func() (fs.FS, error) { return openTar(bytes.NewReader(blob)) }
		}
		source = open
		c.Count("provided_sources", 1)
	}
	create := func(what string, source func() (fs.FS, error)) ([]byte, bool) {
		src, err := source()
		if err != nil {
			c.Fail("%s: source: %v", kind, err)
			return nil, false
		}
		b, err := f.create(src)
		if err != nil {
			c.Fail("%s: %s: create: %v (tree %s)", kind, what, err, t.describe())
			return nil, false
		}
		c.Count("created_"+kind, 1)
		return b, true
	}
	ref, ok := create("first", source)
	if !ok {
		return
	}
	c.Eval(append([]byte(kind), ref...), len(t.Kids) > 0)
	same := func(what string, b []byte) {
		if !bytes.Equal(b, ref) {
			c.Fail("%s: %s: other bytes: %s (tree %s)", kind, what, diffBytes(b, ref), t.describe())
		}
	}
	for k := 0; k < 3; k++ {
		if b, ok := create("again", source); ok {
			same("again", b)
		}
	}
	if !provided {
		for chunk := 0; chunk < 5; chunk++ {
			if b, ok := create("chunks", mk(chunk)); ok {
				same(fmt.Sprintf("source files delivering their data in style %d", chunk), b)
				c.Count("other_chunks", 1)
			}
		}
	}
	if r.Intn(3) == 0 {
		old := time.Local
		time.Local = time.FixedZone("far", []int{-11 * 3600, 14 * 3600, 5*3600 + 1800}[r.Intn(3)])
		b, ok := create("zone", source)
		time.Local = old
		if ok {
			same("in another time zone", b)
		}
		c.Count("other_zone", 1)
	}
	if later {
		time.Sleep(1100 * time.Millisecond)
		if b, ok := create("later", source); ok {
			same("a second later", b)
			c.Count("later", 1)
		}
	}
	if kind == "erofs" && r.Intn(3) == 0 {
		src, err := source()
		if err != nil {
			return
		}
		b, err := createErofsFile(c, src)
		if err != nil {
			c.Fail("erofs: into a file: %v", err)
		} else {
			same("into a file", b)
		}
	}
	if r.Intn(3) == 0 && !c.Failed() {
		src, err := source()
		if err != nil || !provided && opts.Chunk != 0 {
			return
		}
		if !provided {
			return // model filesystems are for one goroutine
		}
		var wg sync.WaitGroup
		blobs, errs := make([][]byte, 4), make([]error, 4)
		for k := range blobs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				blobs[k], errs[k] = f.create(src)
			}()
		}
		wg.Wait()
		c.Count("parallel", 1)
		for k := range blobs {
			if errs[k] != nil {
				c.Fail("%s: in parallel: %v", kind, errs[k])
			} else {
				same("in parallel", blobs[k])
			}
		}
	}
}
