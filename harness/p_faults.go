package main

import (
	"bytes"
	"fmt"
	"hash/crc32"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"github.com/dpeckett/archivefs"
	"github.com/dpeckett/archivefs/erofs"
)

func init() {
	register(&Prop{
		ID: "C11",
		Rule: "One evaluation opens one archive over a source that fails on one chosen read (alone, or it and all later ones until it recovers) and runs a fixed script of operations; every result must be the one a healthy source gives, or an error during which the fault was delivered, " +
			"and after recovery every operation must give the healthy result. Also sources that return EOF with the last bytes or only afterwards, for whole archives, the smallest ones, and archives cut anywhere. Non-trivial: a fault was delivered; distinct by archive, position and kind of fault.",
		MinEvents: []string{"faults_in_open", "faults_in_use", "errors_surfaced", "recovered_operations", "faults_tar", "faults_ar", "faults_erofs", "eof_styles", "handle_retries", "partial_reads", "smallest_archives", "cut_archives", "short_opened", "short_refused"},
		Cases:     casesC11,
	})
}

func casesC11(quick bool, seed int64) (out []Case) {
	for _, kind := range []string{"tar", "ar", "erofs"} {
		kind := kind
		out = append(out, batch("faults-"+kind, N(quick, 64, 2500), N(quick, 2, 4), func(c *Ctx, r *rand.Rand, i int) { sourceFaults(c, r, kind) })...)
		out = append(out, batch("eof-"+kind, N(quick, 40, 1500), 5, func(c *Ctx, r *rand.Rand, i int) { eofStyles(c, r, kind) })...)
		out = append(out, batch("ends-"+kind, N(quick, 400, 8000), 50, func(c *Ctx, r *rand.Rand, i int) { eofAnywhere(c, r, kind, i) })...)
	}
	return
}

// knownArchive makes a small well-formed archive of the kind.
func knownArchive(r *rand.Rand, kind string, nodes int) []byte {
	switch kind {
	case "tar":
		ents, _ := tarFromTree(r, genTree(r, GenOpt{Nodes: nodes, Links: true, MaxData: []int{200, 2000, 6000}[r.Intn(3)]}))
		return encodeTar(r, ents)
	case "ar":
		for {
			_, want, blob := genArArchive(r, 1+r.Intn(nodes))
			if len(want.Kids) > 0 && len(blob) < 1<<17 {
				return blob
			}
		}
	}
	for {
		o := randEroOpt(r)
		o.Bits = uint(9 + r.Intn(5))
		o.MetaBlk = min(o.MetaBlk, 5)
		o.Tight = r.Intn(3) == 0
		g := GenOpt{Nodes: nodes, Links: true, MaxData: []int{200, 2000, 6000}[r.Intn(3)], NoXattr: true}
		if r.Intn(3) == 0 {
			g.BigDir = 20 + r.Intn(20)
		}
		img, _, _ := buildEROFS(r, genTree(r, g), o)
		if img.size < 1<<18 {
			return img.bytes()
		}
	}
}

func eofStyles(c *Ctx, r *rand.Rand, kind string) {
	blob := knownArchive(r, kind, 8)
	f := formatOf(kind)
	var ref *Snap
	for style := 0; style < 3; style++ {
		var ra io.ReaderAt = &memRA{b: blob, eof: style == 1}
		if style == 2 {
			ra = io.NewSectionReader(bytes.NewReader(append([]byte("junk"), blob...)), 4, int64(len(blob)))
		}
		c.Count("eof_styles", 1)
		c.Eval(append([]byte{byte(style)}, blob...), true)
		fsys, err := f.open(ra)
		if err != nil {
			c.Fail("%s: source style %d: open: %v", kind, style, err)
			return
		}
		s := snapshot(fsys, snapOpt{rng: r, noNegative: true})
		for _, p := range s.Problems {
			c.Fail("%s: source style %d: %s", kind, style, p)
		}
		if ref == nil {
			ref = s
			continue
		}
		for _, d := range diffSnaps(ref, s) {
			c.Fail("%s: source style %d: %s", kind, style, d)
		}
	}
}

// eofAnywhere gives archives that are as short as can be, or cut somewhere, to sources that report the end in
// different ways. What is presented and what is refused must not depend on that.
func eofAnywhere(c *Ctx, r *rand.Rand, kind string, i int) {
	var blob []byte
	small := map[string][]string{
		"ar":    {"", "!<arch>", "!<arch>\n", "!<arch>\n\n", arMember0},
		"tar":   {"", "\x00", strings.Repeat("\x00", 512), strings.Repeat("\x00", 1024), strings.Repeat("\x00", 1500), strings.Repeat("\x00", 10240)},
		"erofs": {"", strings.Repeat("\x00", 1024), strings.Repeat("\x00", 1152), strings.Repeat("\x00", 4096)},
	}[kind]
	whole := knownArchive(r, kind, 6)
	if i < 5*len(small) {
		blob = []byte(small[i%len(small)])
		c.Count("smallest_archives", 1)
	} else {
		cut := r.Intn(len(whole) + 1)
		unit := []int{1, 2, 60, 512, 4096}[r.Intn(5)]
		if k := cut - cut%unit; k > 0 {
			cut = k
		}
		if kind == "ar" && r.Intn(2) == 0 {
			cut = 8
			for _, m := range decodeAr0(whole) {
				if m <= len(whole) && r.Intn(2) == 0 {
					cut = m
				}
			}
		}
		blob = whole[:cut]
		c.Count("cut_archives", 1)
	}
	f := formatOf(kind)
	var qs []string
	if w, err := f.open(&memRA{b: whole}); err == nil {
		for p := range snapshot(w, snapOpt{light: true, tolerate: true, noNegative: true}).M {
			qs = append(qs, p)
		}
	}
	sort.Strings(qs)
	var ref []string
	for style := 0; style < 4; style++ {
		var ra io.ReaderAt = &memRA{b: blob, eof: style == 1}
		switch style {
		case 2:
			ra = io.NewSectionReader(bytes.NewReader(append(append([]byte("junk"), blob...), "more"...)), 4, int64(len(blob)))
		case 3:
			ra = strings.NewReader(string(blob))
		}
		c.Eval(append([]byte{byte(style), 9}, blob...), true)
		got := []string{"refused"}
		if fsys, err := f.open(ra); err == nil {
			got = append(answers(fsys, qs), "opened")
			c.Count("short_opened", 1)
		} else {
			c.Count("short_refused", 1)
		}
		if ref == nil {
			ref = got
		}
		if len(ref) != len(got) {
			c.Fail("%s of %d bytes: source style %d: %q, style 0: %q", kind, len(blob), style, got[len(got)-1], ref[len(ref)-1])
			return
		}
		for k := range got {
			if got[k] != ref[k] {
				c.Fail("%s of %d bytes: source style %d: %s; style 0: %s", kind, len(blob), style, got[k], ref[k])
				return
			}
		}
	}
}

// arMember0 is an archive with one empty member.
var arMember0 = fmt.Sprintf("!<arch>\n%-16s%-12d%-6d%-6d%-8s%-10d`\n", "empty", 0, 0, 0, "100644", 0)

// decodeAr0 gives the offsets in a well-formed archive at which a member, its data or its padding ends.
func decodeAr0(b []byte) (at []int) {
	for off := 8; off+60 <= len(b); {
		n, _ := strconv.Atoi(strings.TrimSpace(string(b[off+48 : off+58])))
		at = append(at, off+60, off+60+n, off+60+n+n%2)
		off += 60 + n + n%2
	}
	return
}

func formatOf(kind string) format {
	return map[string]format{"tar": fmtTar, "ar": fmtAr, "erofs": fmtErofs}[kind]
}

// fop is one operation of the script. retry is called by an operation that failed halfway, to learn
// whether it may expect success now.
type fop struct {
	name string
	run  func(fsys fs.FS, e *fenv) (string, error)
}

type fenv struct {
	c    *Ctx
	ra   *memRA
	what string
	r    *rand.Rand
	img  *erofs.Image
}

// healthy reports whether the source has recovered.
func (e *fenv) healthy() bool {
	return e.ra.failAt == 0 || e.ra.disarmed || e.ra.failFor >= 0 && e.ra.calls >= e.ra.failAt+e.ra.failFor
}

func infoString(fi fs.FileInfo) string {
	u, g, _, _ := ownerOf(fi)
	return fmt.Sprintf("%q %v %d %d %v %d:%d", fi.Name(), fi.Mode(), fi.Size(), fi.ModTime().UnixNano(), fi.IsDir(), u, g)
}

func scriptFor(s *Snap, kind string, r *rand.Rand) (ops []fop) {
	add := func(name string, run func(fsys fs.FS, e *fenv) (string, error)) { ops = append(ops, fop{name, run}) }
	for _, p := range sortedKeys(s.M) {
		p := p
		o := s.M[p]
		if len(s.M) > 15 && r.Intn(len(s.M)) > 15 {
			continue
		}
		add("stat "+p, func(fsys fs.FS, e *fenv) (string, error) {
			fi, err := fs.Stat(fsys, p)
			if err != nil {
				return "", err
			}
			return infoString(fi), nil
		})
		if _, ok := map[string]bool{"tar": true, "erofs": true}[kind]; ok {
			add("statlink "+p, func(fsys fs.FS, e *fenv) (string, error) {
				fi, err := fsys.(archivefs.ReadLinkFS).StatLink(p)
				if err != nil {
					return "", err
				}
				return infoString(fi), nil
			})
			if o.Mode&fs.ModeSymlink != 0 || r.Intn(4) == 0 {
				add("readlink "+p, func(fsys fs.FS, e *fenv) (string, error) { return fsys.(archivefs.ReadLinkFS).ReadLink(p) })
			}
		}
		if o.Mode.IsDir() || r.Intn(4) == 0 {
			add("readdir "+p, func(fsys fs.FS, e *fenv) (string, error) { return listing(fsys, p, e) })
		}
		if !o.Mode.IsDir() {
			add("read "+p, func(fsys fs.FS, e *fenv) (string, error) { return readThrough(fsys, p, e, s.M[p].Data) })
		}
		if r.Intn(3) == 0 {
			add("readfile "+p, func(fsys fs.FS, e *fenv) (string, error) {
				b, err := fs.ReadFile(fsys, p)
				return fmt.Sprintf("%d %08x", len(b), crc32.ChecksumIEEE(b)), err
			})
			if o.Mode.IsDir() {
				add("absent below "+p, func(fsys fs.FS, e *fenv) (string, error) {
					f, err := fsys.Open(strings.TrimPrefix(p+"/absent", "./"))
					if err == nil {
						f.Close()
					}
					return "opened", err
				})
			}
		}
	}
	add("walk", func(fsys fs.FS, e *fenv) (string, error) {
		var b strings.Builder
		err := fs.WalkDir(fsys, ".", func(p string, d fs.DirEntry, err error) error {
			if err != nil {
				return err
			}
			fmt.Fprintf(&b, "%q %v\n", p, d.IsDir())
			return nil
		})
		return b.String(), err
	})
	if kind == "erofs" {
		add("inode api", func(fsys fs.FS, e *fenv) (string, error) { return inodeWalk(e) })
	}
	return
}

func listing(fsys fs.FS, p string, e *fenv) (string, error) {
	es, err := fs.ReadDir(fsys, p)
	if err != nil {
		return "", err
	}
	var b strings.Builder
	for _, d := range es {
		var fi fs.FileInfo
		typ := d.Type() & fs.ModeType
		for try := 0; ; try++ {
			f0 := e.ra.failed
			fi, err = d.Info()
			if err == nil {
				break
			}
			if e.ra.failed == f0 {
				e.c.Fail("%s: info of entry %q fails although no read failed: %v", e.what, d.Name(), err)
				return "", err
			}
			if !e.healthy() || try > 2 {
				return "", err
			}
			e.c.Count("handle_retries", 1)
		}
		fmt.Fprintf(&b, "%q %v %v %s\n", d.Name(), d.IsDir(), typ, infoString(fi))
	}
	return b.String(), nil
}

// readThrough reads a file in pieces and goes on after errors once the source has recovered.
func readThrough(fsys fs.FS, p string, e *fenv, want []byte) (string, error) {
	f, err := fsys.Open(p)
	if err != nil {
		return "", err
	}
	defer f.Close()
	buf := make([]byte, 1+e.r.Intn(3000))
	var data []byte
	var first error
	errs := 0
	for i := 0; ; i++ {
		n, err := f.Read(buf)
		if n < 0 || n > len(buf) {
			e.c.Fail("%s: read of %q returns %d", e.what, p, n)
			return "", io.ErrUnexpectedEOF
		}
		data = append(data, buf[:n]...)
		if want != nil && (len(data) > len(want) || !bytes.Equal(data, want[:len(data)])) {
			e.c.Fail("%s: read of %q delivers wrong data after %v: %s", e.what, p, first, diffBytes(data, want))
			return "", io.ErrUnexpectedEOF
		}
		if err == io.EOF {
			if first != nil && want != nil && len(data) != len(want) {
				e.c.Fail("%s: read of %q ends cleanly after %d of %d bytes following the error %v", e.what, p, len(data), len(want), first)
			}
			break
		}
		if err != nil {
			if first == nil {
				first = err
			}
			if errs++; errs > 3 || !e.healthy() {
				break
			}
			e.c.Count("handle_retries", 1)
		}
		if i > 1<<20 {
			e.c.Fail("%s: read of %q does not end", e.what, p)
			break
		}
	}
	if first != nil {
		return "", first
	}
	return fmt.Sprintf("%d %08x", len(data), crc32.ChecksumIEEE(data)), nil
}

// inodeWalk uses the image API on everything below the root.
func inodeWalk(e *fenv) (string, error) {
	if e.img == nil {
		return "", nil
	}
	var b strings.Builder
	var walk func(nid uint64, depth int) error
	walk = func(nid uint64, depth int) error {
		ino, err := e.img.Inode(nid)
		if err != nil {
			return err
		}
		fmt.Fprintf(&b, "%d %v %d\n", nid, ino.Mode(), ino.Size())
		switch {
		case ino.IsDir():
			type ent struct {
				n   string
				nid uint64
			}
			var es []ent
			if err := ino.IterDirents(func(n string, t uint8, nid uint64) error {
				es = append(es, ent{n, nid})
				fmt.Fprintf(&b, "%q %d %d\n", n, t, nid)
				return nil
			}); err != nil {
				return err
			}
			for i, x := range es {
				if i%7 == 0 {
					d, err := ino.Lookup(x.n)
					if err != nil {
						return err
					}
					fmt.Fprintf(&b, "%d\n", d.Nid)
				}
				if x.n != "." && x.n != ".." && depth < 10 && i%5 == 0 {
					if err := walk(x.nid, depth+1); err != nil {
						return err
					}
				}
			}
			_, err := ino.Lookup("absent!")
			fmt.Fprintln(&b, isNotExist(err))
			if err != nil && !isNotExist(err) {
				return err
			}
		case ino.IsSymlink():
			t, err := ino.Readlink()
			if err != nil {
				return err
			}
			b.WriteString(t)
		case ino.IsRegular():
			rd, err := ino.Data()
			if err != nil {
				return err
			}
			d, err := io.ReadAll(rd)
			if err != nil {
				return err
			}
			fmt.Fprintf(&b, "%d %08x", len(d), crc32.ChecksumIEEE(d))
		}
		return nil
	}
	err := walk(e.img.RootNid(), 0)
	return b.String(), err
}

var faultErrs = []error{nil, io.ErrUnexpectedEOF, &fs.PathError{Op: "read", Path: "x", Err: syscall.EIO}, os.ErrDeadlineExceeded, fs.ErrNotExist, io.ErrNoProgress}

func sourceFaults(c *Ctx, r *rand.Rand, kind string) {
	blob := knownArchive(r, kind, 3+r.Intn(5))
	f := formatOf(kind)
	eof := r.Intn(2) == 0
	ref := &memRA{b: blob, eof: eof}
	fsys, err := f.open(ref)
	if err != nil {
		c.Fail("%s: intact archive does not open: %v", kind, err)
		return
	}
	openCalls := ref.calls
	s := snapshot(fsys, snapOpt{rng: r, noNegative: true})
	for _, p := range s.Problems {
		c.Fail("%s: %s", kind, p)
	}
	ops := scriptFor(s, kind, r)
	type res struct {
		val string
		err error
	}
	base := make([]res, len(ops))
	env := &fenv{c: c, ra: ref, what: kind, r: r}
	openImg := func(e *fenv) error {
		if kind != "erofs" {
			return nil
		}
		img, err := erofs.OpenImage(e.ra)
		e.img = img
		return err
	}
	ref.calls = openCalls
	must(openImg(env))
	for i, o := range ops {
		base[i].val, base[i].err = o.run(fsys, env)
	}
	total := ref.calls
	step := int64(1)
	if limit := int64(N(c.Quick, 150, 1500)); total > limit {
		step = total/limit + 1
	}
	for k := int64(1); k <= total && !c.Failed(); k += 1 + r.Int63n(2*step-1) {
		kindOf := r.Intn(4)
		ra := &memRA{b: blob, eof: eof, failAt: k, failErr: faultErrs[r.Intn(len(faultErrs))], partial: r.Intn(3) == 0}
		switch kindOf {
		case 0:
			ra.failFor = -1
		case 1:
			ra.failFor = int64(r.Intn(4))
		}
		if ra.partial {
			c.Count("partial_reads", 1)
		}
		what := fmt.Sprintf("%s: fault at read %d of %d (lasting %d, %v)", kind, k, total, ra.failFor, ra.failErr)
		e := &fenv{c: c, ra: ra, what: what, r: r}
		c.Count("faults_"+kind, 1)
		c.Eval(append([]byte(fmt.Sprint(k, ra.failFor, ra.partial, ra.failErr)), blob...), true)
		var fsys fs.FS
		var err error
		if p := guard(func() { fsys, err = f.open(ra) }); p != nil {
			c.Fail("%s: open panics: %v", what, p)
			return
		}
		if err == nil {
			if kind == "erofs" {
				err = openImg(e)
			}
		}
		if err != nil {
			if ra.failed == 0 {
				c.Fail("%s: open fails although no read failed: %v", what, err)
			}
			c.Count("faults_in_open", 1)
			c.Count("errors_surfaced", 1)
			continue
		}
		runAll := func(phase string) {
			for i, o := range ops {
				f0 := ra.failed
				var v string
				var err error
				if p := guard(func() { v, err = o.run(fsys, e) }); p != nil {
					c.Fail("%s: %s%s panics: %v", what, o.name, phase, p)
					return
				}
				hit := ra.failed > f0
				if hit {
					c.Count("faults_in_use", 1)
				}
				if err == nil {
					if base[i].err != nil {
						c.Fail("%s: %s%s succeeds: %s; with a healthy source: %v", what, o.name, phase, v, base[i].err)
					} else if v != base[i].val {
						c.Fail("%s: %s%s gives\n%s\nwith a healthy source\n%s", what, o.name, phase, v, base[i].val)
					}
				} else if base[i].err == nil {
					c.Count("errors_surfaced", 1)
					if !hit {
						c.Fail("%s: %s%s fails although no read failed: %v", what, o.name, phase, err)
					} else if e.healthy() {
						v, err := o.run(fsys, e)
						c.Count("recovered_operations", 1)
						if err != nil || v != base[i].val {
							c.Fail("%s: %s again after the fault has cleared: %s, %v\nwith a healthy source: %s", what, o.name, v, err, base[i].val)
						}
					}
				} else if isNotExist(base[i].err) != isNotExist(err) && !hit {
					c.Fail("%s: %s%s: %v; with a healthy source: %v", what, o.name, phase, err, base[i].err)
				}
				if c.Failed() {
					return
				}
			}
		}
		runAll("")
		if ra.failFor < 0 && !c.Failed() {
			ra.disarmed = true
			runAll(" after recovery")
			c.Count("recovered_operations", int64(len(ops)))
		}
	}
}
