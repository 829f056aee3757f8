package main

import (
	"bytes"
	"fmt"
	"io/fs"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/dpeckett/archivefs/arfs"
)

func init() {
	register(&Prop{
		ID: "C06",
		Rule: "One evaluation opens one generated ar archive and compares everything observable with its members. Archives: trailing slashes or not, symbol table, replaced members, odd and empty members, missing final padding, blank fields, wide fields, adversarial names; a sample is made by binutils ar. " +
			"Non-trivial: at least one member; distinct by archive bytes.",
		MinEvents: []string{"archives", "members", "odd_members", "symbol_tables", "binutils_archives", "huge_files"},
		Cases: func(quick bool, seed int64) []Case {
			cs := batch("members", N(quick, 1500, 60000), 10, func(c *Ctx, r *rand.Rand, i int) {
				n := r.Intn(12)
				if r.Intn(60) == 0 {
					n = 800
				}
				ms, want, blob := genArArchive(r, n)
				if len(blob)%2 == 0 && r.Intn(8) == 0 { // padding where none is needed
					blob = append(blob, '\n')
					c.Count("stray_newlines", 1)
				}
				c.Eval(blob, len(ms) > 0)
				c.Count("archives", 1)
				c.Count("members", int64(len(ms)))
				for _, m := range ms {
					if len(m.Data)%2 == 1 {
						c.Count("odd_members", 1)
					}
					if m.Name == "/" {
						c.Count("symbol_tables", 1)
					}
				}
				c.Sample("%s", want.describe())
				fsys, err := arfs.Open(bytes.NewReader(blob))
				if err != nil {
					c.Fail("iteration %d: well-formed archive does not open: %v\n%.600q", i, err, blob)
					return
				}
				expectTree(c, fmt.Sprintf("iteration %d", i), fsys, want, cmpOpt{mtime: 2, owner: true})
				if c.Failed() {
					c.Fail("archive starts with %.600q", blob)
				}
			})
			cs = append(cs, batch("many", N(quick, 1, 6), 1, func(c *Ctx, r *rand.Rand, i int) {
				want := &Node{Name: ".", Mode: fs.ModeDir}
				var ms []*arMember
				for k := 0; k < 70000; k++ {
					n := &Node{Name: fmt.Sprintf("%07d.o", k), Mode: 0o644, MTime: time.Unix(int64(k), 0), Data: []byte("data")[:k%5]}
					want.Kids = append(want.Kids, n)
					ms = append(ms, &arMember{Name: n.Name, MTime: fmt.Sprint(k), UID: "0", GID: "0", Mode: "644", Data: n.Data})
				}
				blob := encodeAr(ms, true)
				c.Eval(blob, true)
				c.Count("members", int64(len(ms)))
				fsys, err := arfs.Open(bytes.NewReader(blob))
				if err != nil {
					c.Fail("archive of %d members does not open: %v", len(ms), err)
					return
				}
				expectTree(c, "archive of many members", fsys, want, cmpOpt{mtime: 2, owner: true})
			})...)
			cs = append(cs, batch("binutils", N(quick, 8, 40), 1, checkBinutilsAr)...)
			for _, l := range []int64{1<<31 + 4097, 1<<32 + 77, 9999999999} {
				l := l
				cs = append(cs, one(fmt.Sprint("huge-", l), func(c *Ctx) { hugeAr(c, l) }))
			}
			return cs
		},
	})
	register(&Prop{
		ID: "C07",
		Rule: "One evaluation runs ar Create on one generated source; the output is decoded by a strict independent reader, by arfs, and (a sample) by binutils ar, or, when the source cannot be represented, Create must refuse. " +
			"Non-trivial: the source has at least one object; distinct by source tree.",
		MinEvents: []string{"creates", "refusals", "binutils_readings", "members_decoded", "huge_files", "foreign_sources_directory", "foreign_sources_map", "foreign_sources_zip"},
		Cases: func(quick bool, seed int64) []Case {
			cs := batch("create", N(quick, 1500, 60000), 10, checkArCreate)
			cs = append(cs, batch("many", N(quick, 1, 6), 1, func(c *Ctx, r *rand.Rand, i int) {
				t := &Node{Name: ".", Mode: fs.ModeDir | 0o755}
				for k := 0; k < 70000; k++ {
					t.Kids = append(t.Kids, &Node{Name: fmt.Sprintf("%07d.o", k), Mode: 0o644, MTime: time.Unix(int64(k), 0), Data: []byte("data")[:k%5]})
				}
				blob, err := createAr(newModelFS(t, randFSOpts(r)))
				c.Eval(t.sig(), true)
				if err != nil {
					c.Fail("Create refuses a source of %d files: %v", len(t.Kids), err)
					return
				}
				checkArBlob(c, "archive of many members", blob, t)
			})...)
			cs = append(cs, batch("binutils", N(quick, 10, 60), 1, checkArBinutilsRead)...)
			cs = append(cs, batch("foreign", N(quick, 120, 3000), 10, foreignAr)...)
			// The largest size the decimal field can express is 9999999999.
			for _, l := range []int64{1<<31 + 4097, 1<<32 + 77, 9999999999} {
				l := l
				cs = append(cs, one(fmt.Sprint("huge-", l), func(c *Ctx) { checkHugeStream(c, c.Rng, "ar", l) }))
			}
			return cs
		},
	})
}

func checkBinutilsAr(c *Ctx, r *rand.Rand, i int) {
	bin, err := exec.LookPath("ar")
	if err != nil {
		c.Count("binutils_archives", 1)
		return
	}
	dir := c.Scratch()
	want := &Node{Name: ".", Mode: fs.ModeDir}
	var names []string
	for k := 0; k < 2+r.Intn(6); k++ {
		name := genName(r, &GenOpt{MaxName: 15, UTF8: true})
		if want.kid(name) != nil || strings.HasPrefix(name, "-") || strings.HasPrefix(name, "@") || strings.HasSuffix(name, " ") {
			continue
		}
		n := &Node{Name: name, Mode: fs.FileMode(r.Intn(0o1000)), Data: genData(r, 5000), MTime: time.Unix(int64(r.Intn(1<<31)), 0)}
		if os.Getuid() != 0 {
			n.UID, n.GID = os.Getuid(), os.Getgid()
		}
		p := filepath.Join(dir, name)
		must(os.WriteFile(p, n.Data, 0o600))
		must(os.Chmod(p, n.Mode))
		must(os.Chtimes(p, n.MTime, n.MTime))
		want.Kids = append(want.Kids, n)
		names = append(names, name)
	}
	if len(names) == 0 {
		return
	}
	want.sort()
	out := fmt.Sprintf("out%d.a", i)
	cmd := exec.Command(bin, append([]string{"rcU", "--", out}, names...)...)
	cmd.Dir = dir
	if b, err := cmd.CombinedOutput(); err != nil {
		cmd = exec.Command(bin, append([]string{"rcU", out}, names...)...)
		cmd.Dir = dir
		if b2, err := cmd.CombinedOutput(); err != nil {
			panic(harnessErr{fmt.Errorf("ar: %v %s %s", err, b, b2)})
		}
	}
	blob, err := os.ReadFile(filepath.Join(dir, out))
	must(err)
	c.Count("binutils_archives", 1)
	c.Eval(blob, true)
	fsys, err := arfs.Open(bytes.NewReader(blob))
	if err != nil {
		c.Fail("archive made by ar does not open: %v", err)
		return
	}
	expectTree(c, "archive made by ar", fsys, want, cmpOpt{mtime: 2, owner: true})
}

// arSource makes a flat source, most of the time one an ar archive can hold.
func arSource(r *rand.Rand) (t *Node, reason string) {
	o := GenOpt{Nodes: r.Intn(10), Flat: true, MaxName: 16, MaxData: 9000, NoXattr: true,
		IDs:   []int{0, 1, 1000, 65534, 65535, 65536, 999999},
		Times: []time.Time{{}, time.Unix(0, 0), time.Unix(1700000000, 5), time.Unix(1<<31, 0), time.Unix(1<<33, 999999999), time.Unix(-5, 0), time.Unix(999999999990, 0)}}
	t = genTree(r, o)
	var keep []*Node
	for _, k := range t.Kids {
		if !strings.HasSuffix(k.Name, " ") {
			if k.MTime.IsZero() {
				k.MTime = time.Unix(0, 0)
			}
			keep = append(keep, k)
		}
	}
	t.Kids = keep
	if r.Intn(3) > 0 {
		return t, ""
	}
	// One thing that does not fit.
	k := &Node{Name: fmt.Sprintf("odd%d", r.Intn(100)), Mode: 0o644, MTime: time.Unix(1, 0), Data: []byte("x")}
	if t.kid(k.Name) != nil {
		return t, ""
	}
	switch r.Intn(14) {
	case 13:
		n := 1 + r.Intn(16)
		k.Name, reason = strings.Repeat("x", n-1)+strings.Repeat([]string{"é", "中", "\U0001F600"}[r.Intn(3)], 17-n), "long name of few characters"
		if len(k.Name) <= 16 {
			k.Name += "中"
		}
	case 0:
		k.Mode, k.Data, reason = fs.ModeDir|0o755, nil, "directory"
	case 1:
		k.Mode, k.Data, k.Target, reason = fs.ModeSymlink|0o777, nil, "odd", "symlink"
	case 2:
		k.Mode, k.Data, reason = fs.ModeNamedPipe|0o644, nil, "pipe"
	case 3:
		k.Mode, k.Data, reason = fs.ModeDevice|fs.ModeCharDevice|0o644, nil, "device"
	case 4:
		k.Mode, k.Data, reason = fs.ModeSocket|0o644, nil, "socket"
	case 5:
		k.Name, reason = strings.Repeat("n", 17+r.Intn(240)), "long name"
	case 6:
		k.Name, reason = "trailing"+strings.Repeat(" ", 1+r.Intn(3)), "trailing space"
	case 7:
		k.UID, reason = []int{1000000, 2097152, 1<<31 - 1}[r.Intn(3)], "wide uid"
	case 8:
		k.GID, reason = []int{1000000, 2097152, 1<<31 - 1}[r.Intn(3)], "wide gid"
	case 9:
		k.MTime, reason = time.Unix(1000000000000+r.Int63n(1<<40), 0), "wide time"
	case 10:
		k.Big, k.Data, reason = &bigData{Len: 10000000000 + r.Int63n(1<<40), Seed: 3}, nil, "wide size"
	case 11:
		k.MTime, reason = time.Unix(-100000000000-r.Int63n(1<<20), 0), "wide negative time"
	case 12:
		k.Name, reason = " ", "blank name"
	}
	t.Kids = append(t.Kids, k)
	t.sort()
	return t, reason
}

func checkArCreate(c *Ctx, r *rand.Rand, i int) {
	t, reason := arSource(r)
	fo := randFSOpts(r)
	if r.Intn(4) == 0 {
		fo.Sys = sysAr
	}
	if (reason == "wide uid" || reason == "wide gid") && fo.Sys == sysNone {
		fo.Sys = sysTar
	}
	sink := &capBuf{max: 64 << 20}
	src := newModelFS(t, fo)
	err := arfs.Create(sink, src)
	c.Eval(t.sig(), len(t.Kids) > 0)
	c.Count("creates", 1)
	c.Sample("%s %s", reason, t.describe())
	if reason != "" {
		c.Count("refusals", 1)
		if err == nil {
			c.Fail("iteration %d: Create accepts a source with a %s: %s", i, reason, t.describe())
		}
		return
	}
	if err != nil {
		c.Fail("iteration %d: Create refuses a representable source: %v (%s)", i, err, t.describe())
		return
	}
	blob := sink.Bytes()
	want := t.clone()
	want.each(func(_ string, n *Node) {
		if fo.Sys == sysNone {
			n.UID, n.GID = 0, 0
		}
	})
	checkArBlob(c, fmt.Sprintf("iteration %d", i), blob, want)
}

// checkArBlob compares a created archive with the tree it was made from.
func checkArBlob(c *Ctx, what string, blob []byte, want *Node) {
	got, err := decodeArTree(blob)
	if err != nil {
		c.Fail("%s: output is not a valid ar archive: %v\n%.400q", what, err, blob)
		return
	}
	c.Count("members_decoded", int64(len(got.Kids)))
	co := cmpOpt{mtime: 1, owner: true}
	for _, d := range sameTree(want, got, co) {
		c.Fail("%s, as decoded: %s", what, d)
	}
	fsys, err := arfs.Open(bytes.NewReader(blob))
	if err != nil {
		c.Fail("%s: output does not open: %v", what, err)
		return
	}
	expectTree(c, what+", as read by arfs", fsys, want, co)
}

// foreignAr makes archives from filesystems of other origin.
func foreignAr(c *Ctx, r *rand.Rand, i int) {
	t := genTree(r, GenOpt{Nodes: r.Intn(12), Flat: true, UTF8: true, MaxName: 16, MaxData: 9000, NoXattr: true, IDs: []int{0, 1, 1000, 65534, 999999},
		Times: []time.Time{time.Unix(1700000000, 5), time.Unix(1<<31-5, 0), time.Unix(7, 999999999)}})
	links := r.Intn(6) == 0
	t.each(func(_ string, n *Node) {
		var kids []*Node
		for _, k := range n.Kids {
			if !strings.HasSuffix(k.Name, " ") {
				kids = append(kids, k)
			}
		}
		n.Kids = kids
	})
	odd := ""
	if links && t.kid("odd") == nil {
		odd = "symlink"
		t.Kids = append(t.Kids, &Node{Name: "odd", Mode: fs.ModeSymlink | 0o777, Target: "x", MTime: time.Unix(1, 0)})
		t.sort()
	} else if r.Intn(6) == 0 && t.kid("odd") == nil {
		odd = "directory"
		t.Kids = append(t.Kids, &Node{Name: "odd", Mode: fs.ModeDir | 0o755, MTime: time.Unix(1, 0)})
		t.sort()
	}
	src, want, what, done := foreignFS(c, r, t, links)
	defer done()
	c.Eval(want.sig(), len(want.Kids) > 0)
	c.Count("creates", 1)
	what = fmt.Sprintf("iteration %d (%s)", i, what)
	blob, err := createAr(src)
	if odd != "" {
		c.Count("refusals", 1)
		if err == nil {
			c.Fail("%s: Create accepts a source with a %s", what, odd)
		}
		return
	}
	if err != nil {
		c.Fail("%s: Create refuses a representable source: %v (%s)", what, err, want.describe())
		return
	}
	checkArBlob(c, what, blob, want)
	if c.Failed() {
		c.Fail("tree %s", want.describe())
	}
}

func decodeArTree(blob []byte) (*Node, error) {
	ms, err := decodeAr(blob)
	if err != nil {
		return nil, err
	}
	got := &Node{Name: ".", Mode: fs.ModeDir}
	for _, m := range ms {
		if got.kid(m.Name) != nil {
			return nil, fmt.Errorf("member %q twice", m.Name)
		}
		var mt, mode int64
		n := &Node{Name: m.Name, Data: m.Data}
		fmt.Sscan(m.MTime, &mt)
		fmt.Sscan(m.UID, &n.UID)
		fmt.Sscan(m.GID, &n.GID)
		fmt.Sscanf(m.Mode, "%o", &mode)
		n.MTime, n.Mode = time.Unix(mt, 0), goMode(mode&0o7777)
		if t := mode >> 12; t != 0 && t != 8 {
			return nil, fmt.Errorf("member %q has mode %o", m.Name, mode)
		}
		got.Kids = append(got.Kids, n)
	}
	return got, nil
}

// capBuf is a buffer with a maximum size, beyond which writing fails.
type capBuf struct {
	buf bytes.Buffer
	max int
}

func (b *capBuf) Write(p []byte) (int, error) {
	if b.buf.Len()+len(p) > b.max {
		return 0, errInjected
	}
	return b.buf.Write(p)
}

func (b *capBuf) Bytes() []byte { return b.buf.Bytes() }

func checkArBinutilsRead(c *Ctx, r *rand.Rand, i int) {
	bin, err := exec.LookPath("ar")
	if err != nil {
		c.Count("binutils_readings", 1)
		return
	}
	t := &Node{Name: ".", Mode: fs.ModeDir}
	for k := 0; k < 1+r.Intn(6); k++ {
		name := fmt.Sprintf("%s%d", []string{"m", ".m", "a_b", "x-"}[r.Intn(4)], r.Intn(50))
		if t.kid(name) == nil {
			t.Kids = append(t.Kids, &Node{Name: name, Mode: 0o644, Data: genData(r, 6000), MTime: time.Unix(1700000000, 0), UID: 7, GID: 8})
		}
	}
	t.sort()
	blob, err := createAr(newModelFS(t, FSOpts{Sys: sysTar}))
	c.Eval(t.sig(), true)
	if err != nil {
		c.Fail("Create: %v", err)
		return
	}
	p := filepath.Join(c.Scratch(), fmt.Sprintf("a%d.a", i))
	must(os.WriteFile(p, blob, 0o644))
	out, err := exec.Command(bin, "t", p).Output()
	c.Count("binutils_readings", 1)
	var want []string
	for _, k := range t.Kids {
		want = append(want, k.Name)
	}
	if err != nil || string(out) != strings.Join(want, "\n")+"\n" {
		c.Fail("ar t lists %q (%v), want %q", out, err, want)
		return
	}
	for _, k := range t.Kids {
		out, err := exec.Command(bin, "p", p, k.Name).Output()
		if err != nil || !bytes.Equal(out, k.Data) {
			c.Fail("ar p %q: %v, %s", k.Name, err, diffBytes(out, k.Data))
		}
	}
}
