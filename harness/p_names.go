package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/dpeckett/archivefs"
	"github.com/dpeckett/archivefs/erofs"
)

func init() {
	register(&Prop{
		ID: "C19",
		Rule: "One evaluation opens one archive with hostile names or links, while the current directory and the places the links name hold canary files under inotify watch, walks it, and asks for hostile paths. Every listed name must be a single safe path element, every entry must be found below the root (or the archive refused), and everything any query returns must come from the archive. " +
			"Non-trivial: the archive has a hostile name or link; distinct by archive bytes.",
		MinEvents: []string{"hostile_tar", "hostile_ar", "hostile_erofs", "refused", "opened", "names_checked", "queries", "queries_answered", "entries_found", "links_outside", "dirents_patched", "offsets_patched", "listings_refused"},
		Cases:     casesC19,
	})
}

// safeName is what the property demands of listed names.
func safeName(s string) bool { return s != "" && s != "." && s != ".." && !strings.Contains(s, "/") }

// jail is a directory with canaries all around, watched.
type jail struct {
	dir, old string
	fd       int
	outside  []string // paths of canaries
}

const canarySize = 54321

var canaryData = bytes.Repeat([]byte("CANARY "), canarySize/7+1)[:canarySize]

func newJail(c *Ctx) *jail {
	j := &jail{dir: c.Scratch(), fd: -1}
	var err error
	j.old, err = os.Getwd()
	must(err)
	cwd := filepath.Join(j.dir, "x/y/cwd")
	var dirs []string
	for _, d := range []string{"", "etc", "x", "x/y", "x/y/cwd", "x/y/cwd/a", "x/y/cwd/etc", "x/y/cwd/d", "a", "x/a", "x/y/a"} {
		d = filepath.Join(j.dir, d)
		must(os.MkdirAll(d, 0o755))
		dirs = append(dirs, d)
	}
	for _, d := range dirs {
		for _, n := range []string{"secret", "passwd", "b", "f0", "f1", "f2", "target", "h0"} {
			p := filepath.Join(d, n)
			must(os.WriteFile(p, canaryData, 0o612))
			must(os.Chtimes(p, time.Unix(123456789, 0), time.Unix(123456789, 0)))
			j.outside = append(j.outside, p)
		}
	}
	must(os.Chdir(cwd))
	if fd, err := syscall.InotifyInit1(syscall.IN_NONBLOCK | syscall.IN_CLOEXEC); err == nil {
		j.fd = fd
		for _, d := range dirs {
			if _, err := syscall.InotifyAddWatch(fd, d, syscall.IN_OPEN|syscall.IN_ACCESS|syscall.IN_MODIFY|syscall.IN_CREATE|syscall.IN_DELETE|syscall.IN_ATTRIB); err != nil {
				syscall.Close(fd)
				j.fd = -1
				break
			}
		}
	}
	if j.fd >= 0 {
		c.Count("watched_directories", int64(len(dirs)))
	}
	return j
}

func (j *jail) leave(c *Ctx) {
	j.look(c, "the case")
	must(os.Chdir(j.old))
	if j.fd >= 0 {
		syscall.Close(j.fd)
	}
}

// look reports whatever touched the canaries.
func (j *jail) look(c *Ctx, what string) {
	if j.fd < 0 {
		return
	}
	buf := make([]byte, 1<<16)
	n, err := syscall.Read(j.fd, buf)
	if err != nil || n < syscall.SizeofInotifyEvent {
		return
	}
	ev := (*syscall.InotifyEvent)(unsafe.Pointer(&buf[0]))
	name := string(bytes.TrimRight(buf[syscall.SizeofInotifyEvent:syscall.SizeofInotifyEvent+int(ev.Len)], "\x00"))
	c.Fail("%s: a file outside of the archive was touched (%q, event %#x)", what, name, ev.Mask)
}

// link makes a link target that leads outside.
func (j *jail) link(r *rand.Rand) string {
	p := j.outside[r.Intn(len(j.outside))]
	switch r.Intn(8) {
	case 0:
		return p
	case 1:
		return strings.Repeat("../", 1+r.Intn(20)) + p[1:]
	case 2:
		return strings.Repeat("../", 1+r.Intn(4)) + filepath.Base(p)
	case 3:
		return filepath.Dir(p)
	case 4:
		return []string{"/etc/passwd", "/proc/self/environ", "/", "..", "../..", "/..", "//etc//passwd", "C:\\windows", "\\\\host\\share", "file:///etc/passwd"}[r.Intn(10)]
	case 5:
		return "./" + filepath.Base(p)
	case 6:
		return "/" + filepath.Base(p)
	}
	return "../" + strings.Repeat("a/../", r.Intn(4)) + filepath.Base(p)
}

// hostileName makes a name for the k-th entry. The base is unique.
func (j *jail) name(r *rand.Rand, k int) string {
	b := fmt.Sprintf("f%d", k)
	switch r.Intn(22) {
	case 0:
		return "../" + b
	case 1:
		return "/" + b
	case 2:
		return strings.Repeat("../", 1+r.Intn(30)) + b
	case 3:
		return "a/../../" + b
	case 4:
		return "a/./" + b
	case 5:
		return "a//" + b
	case 6:
		return "..\\" + b
	case 7:
		return "C:\\" + b
	case 8:
		return "/../" + b
	case 9:
		return "./../" + b
	case 10:
		return "a/b/../../../../" + b
	case 11:
		return "../" + b + "/../../" + b + "x"
	case 12:
		return filepath.Join(j.dir, b)
	case 13:
		return strings.Repeat("../", 12) + filepath.Join(j.dir, b)[1:]
	case 14:
		return b + "/."
	case 15:
		return "." + b
	case 16:
		return ".." + b
	case 17:
		return "..../" + b
	case 18:
		return " ../" + b
	case 19:
		return "d/" + b + "/../" + b + "y"
	case 20:
		return "///" + b
	}
	return b
}

// interrogate checks that everything the filesystem says comes from the archive.
func interrogate(c *Ctx, r *rand.Rand, what string, fsys fs.FS, j *jail, s *Snap, queries []string) {
	interrogateLoose(c, r, what, fsys, j, s, queries, false)
}

// interrogateLoose, when loose, allows answers that the walk did not find: with damaged
// directories, what can be looked up and what can be listed need not be the same.
func interrogateLoose(c *Ctx, r *rand.Rand, what string, fsys fs.FS, j *jail, s *Snap, queries []string, loose bool) {
	type key struct {
		mode fs.FileMode
		size int64
		mt   int64
	}
	infos := map[key]bool{}
	names := map[string]bool{}
	datas := map[string]bool{}
	for _, p := range sortedKeys(s.M) {
		ob := s.M[p]
		infos[key{ob.Mode, ob.Size, ob.MTime.UnixNano()}] = true
		if ob.Mode.IsRegular() {
			datas[string(ob.Data)] = true
		}
		for _, k := range ob.Kids {
			names[k] = true
			c.Count("names_checked", 1)
			if !safeName(k) {
				c.Fail("%s: listing of %q has %q", what, p, k)
			}
			// Joined names stay below.
			if q := path.Join("/root/of/all", p, k); !strings.HasPrefix(q, "/root/of/all/") {
				c.Fail("%s: %q in %q leads to %q", what, k, p, q)
			}
		}
	}
	info := func(kind, q string, fi fs.FileInfo, err error) {
		c.Count("queries", 1)
		if err != nil {
			return
		}
		c.Count("queries_answered", 1)
		if !loose && !infos[key{fi.Mode(), fi.Size(), fi.ModTime().UnixNano()}] || fi.Size() == canarySize {
			c.Fail("%s: %s of %q gives something that is not in the archive: %v", what, kind, q, fs.FormatFileInfo(fi))
		}
	}
	lfs, _ := fsys.(archivefs.ReadLinkFS)
	for _, q := range queries {
		fi, err := fs.Stat(fsys, q)
		info("stat", q, fi, err)
		if f, err := fsys.Open(q); err == nil {
			fi, err := f.Stat()
			info("open", q, fi, err)
			f.Close()
		}
		if data, err := fs.ReadFile(fsys, q); err == nil {
			if fi == nil || fi.Mode().IsRegular() {
				if !loose && !datas[string(data)] {
					c.Fail("%s: reading %q gives something that is not in the archive: %.60q", what, q, data)
				}
			}
			if bytes.Contains(data, []byte("CANARY")) {
				c.Fail("%s: reading %q gives the content of a file outside", what, q)
			}
		}
		if es, err := fs.ReadDir(fsys, q); err == nil {
			for _, e := range es {
				if loose {
					if !safeName(e.Name()) {
						c.Fail("%s: listing %q gives %q", what, q, e.Name())
					}
				} else if !names[e.Name()] {
					c.Fail("%s: listing %q gives %q, which is not in the archive", what, q, e.Name())
				}
				if fi, err := e.Info(); err == nil {
					info("entry", q, fi, nil)
				}
			}
		}
		if lfs != nil {
			fi, err := lfs.StatLink(q)
			info("statlink", q, fi, err)
			_, _ = lfs.ReadLink(q)
		}
		if c.Failed() {
			return
		}
	}
	j.look(c, what)
}

// hostileQueries makes paths that try to leave the archive.
func (j *jail) queries(r *rand.Rand, s *Snap) (qs []string) {
	var names []string
	for _, p := range sortedKeys(s.M) {
		if p != "." {
			names = append(names, p, path.Base(p))
		}
	}
	for k := 0; k < 25; k++ {
		qs = append(qs, weirdPath(r, names))
	}
	for k := 0; k < 6; k++ {
		qs = append(qs, j.link(r))
	}
	for _, p := range sortedKeys(s.M) {
		ob := s.M[p]
		if ob.Mode&fs.ModeSymlink != 0 || r.Intn(6) == 0 {
			qs = append(qs, p, p+"/", p+"/secret", p+"/../secret", p+"/..", "../"+p, p+"/etc/passwd")
		}
		if len(qs) > 120 {
			break
		}
	}
	return
}

// watchedSnapshot walks the filesystem, tolerating errors, and reports unsafe names.
func watchedSnapshot(c *Ctx, r *rand.Rand, what string, fsys fs.FS) *Snap {
	return boundedSnapshot(c, r, what, fsys, 2000)
}

func boundedSnapshot(c *Ctx, r *rand.Rand, what string, fsys fs.FS, nodes int) *Snap {
	s := snapshot(fsys, snapOpt{rng: r, noNegative: true, tolerate: true, maxNodes: nodes, maxFile: 1 << 20})
	for _, p := range s.Problems {
		if strings.Contains(p, "unsafe name") {
			c.Fail("%s: %s", what, p)
		}
	}
	return s
}

func hostileTar(c *Ctx, r *rand.Rand, i int, j *jail) {
	var ents []*tarEnt
	n := 1 + r.Intn(8)
	for k := 0; k < n; k++ {
		e := &tarEnt{Name: j.name(r, k), Mode: 0o640, UID: int64(k), MTime: time.Unix(int64(2000+k), 0), Fmt: []int{fmtV7, fmtUstar, fmtPAX, fmtGNU}[r.Intn(4)]}
		switch r.Intn(8) {
		case 0:
			e.Type = '5'
		case 1, 2:
			e.Type, e.Link = '2', j.link(r)
			c.Count("links_outside", 1)
		case 3:
			e.Type, e.Link = '1', j.link(r)
			if k > 0 && r.Intn(2) == 0 {
				e.Link = ents[r.Intn(k)].Name
			}
		default:
			e.Type, e.Data = '0', []byte(fmt.Sprintf("token %d of %d in the archive", k, i))
		}
		if k > 0 && r.Intn(6) == 0 { // comes after what is below it
			if d := path.Dir(path.Clean("/" + ents[r.Intn(k)].Name)); d != "/" {
				e.Name = d[1:]
				c.Count("names_above", 1)
			}
		}
		if !e.canEncode() {
			e.Fmt = fmtPAX
		}
		ents = append(ents, e)
	}
	blob := encodeTar(nil, ents)
	what := "tar " + describeEnts(ents)
	c.Count("hostile_tar", 1)
	c.Eval(blob, true)
	fsys, err := openTar(bytes.NewReader(blob))
	if err != nil {
		c.Count("refused", 1)
		j.look(c, what)
		return
	}
	c.Count("opened", 1)
	s := watchedSnapshot(c, r, what, fsys)
	if s.cut {
		c.Fail("%s: does not end", what)
		return
	}
	bases := map[string]*Obs{}
	data := map[string]bool{}
	for p, ob := range s.M {
		bases[path.Base(p)] = ob
		if ob.Mode.IsRegular() {
			data[string(ob.Data)] = true
		}
	}
	for k, e := range ents {
		clean := path.Base(path.Clean("/" + e.Name))
		if clean == "/" { // names the root itself
			continue
		}
		over := false // replaced by a later entry, or by a directory that later entries imply
		for _, l := range ents[k+1:] {
			lp := path.Clean("/" + l.Name)
			over = over || lp == path.Clean("/"+e.Name) || strings.HasPrefix(lp, path.Clean("/"+e.Name)+"/")
		}
		if over {
			continue
		}
		if e.Type == '0' {
			if !data[string(e.Data)] {
				c.Fail("%s: entry %q is not found anywhere below the root", what, e.Name)
			}
		} else if bases[clean] == nil {
			c.Fail("%s: entry %q is not listed anywhere", what, e.Name)
		}
		c.Count("entries_found", 1)
	}
	interrogate(c, r, what, fsys, j, s, j.queries(r, s))
}

func hostileAr(c *Ctx, r *rand.Rand, i int, j *jail) {
	var ms []*arMember
	n := 1 + r.Intn(5)
	for k := 0; k < n; k++ {
		m := &arMember{MTime: fmt.Sprint(3000 + k), UID: "1", GID: "2", Mode: "100644", Data: []byte(fmt.Sprintf("token %d of %d in the archive", k, i))}
		switch r.Intn(10) {
		case 0:
			m.Name = []string{"..", ".", "/", "//", "../", "./", "/..", "..//", "/.", "../..", "/../", ".//", "..\\"}[r.Intn(13)]
		case 1:
			m.Name = fmt.Sprintf("/%d", k)
		case 2:
			m.Name = ""
		case 3:
			m.Name = fmt.Sprintf("f%d", k)
		case 4:
			m.Name, m.Slash = fmt.Sprintf("f%d", k), true
		case 5:
			m.Name = fmt.Sprintf("#1/%d", k)
		default:
			m.Name = j.name(r, k)
			if len(m.Name) > 16 {
				m.Name = m.Name[len(m.Name)-16:]
			}
		}
		ms = append(ms, m)
	}
	blob := encodeAr(ms, true)
	what := "ar"
	for _, m := range ms {
		what += fmt.Sprintf(" %q", m.Name)
	}
	c.Count("hostile_ar", 1)
	c.Eval(blob, true)
	fsys, err := openAr(bytes.NewReader(blob))
	if err != nil {
		c.Count("refused", 1)
		j.look(c, what)
		return
	}
	c.Count("opened", 1)
	s := watchedSnapshot(c, r, what, fsys)
	data := map[string]bool{}
	for _, ob := range s.M {
		data[string(ob.Data)] = true
	}
	for k, m := range ms {
		if strings.Trim(m.Name, " ") == "/" { // the symbol table
			continue
		}
		over := false
		for _, l := range ms[k+1:] {
			over = over || path.Clean("/"+l.Name) == path.Clean("/"+m.Name)
		}
		if over {
			continue
		}
		if !data[string(m.Data)] {
			c.Fail("%s: member %q is not found", what, m.Name)
		}
		c.Count("entries_found", 1)
	}
	interrogate(c, r, what, fsys, j, s, j.queries(r, s))
}

func hostileErofsLinks(c *Ctx, r *rand.Rand, i int, j *jail) {
	t := genTree(r, GenOpt{Nodes: 3 + r.Intn(10), Plain: true, MaxData: 300, NoXattr: true})
	var dirs []*Node
	t.each(func(_ string, n *Node) {
		if n.IsDir() {
			dirs = append(dirs, n)
		}
	})
	for k := 1 + r.Intn(6); k > 0; k-- {
		d := dirs[r.Intn(len(dirs))]
		name := fmt.Sprintf("h%d", k)
		if d.kid(name) == nil {
			d.Kids = append(d.Kids, &Node{Name: name, Mode: fs.ModeSymlink | 0o777, Target: j.link(r)})
			c.Count("links_outside", 1)
		}
	}
	t.sort()
	img, _, _ := buildEROFS(r, t, randEroOpt(r))
	if img.size > 1<<24 {
		return
	}
	what := "erofs " + t.describe()
	c.Count("hostile_erofs", 1)
	c.Eval([]byte(what), true)
	fsys, err := openErofs(img)
	if err != nil {
		c.Fail("%s: open: %v", what, err)
		return
	}
	c.Count("opened", 1)
	s := watchedSnapshot(c, r, what, fsys)
	interrogate(c, r, what, fsys, j, s, j.queries(r, s))
}

// hostileDirents overwrites the name of an entry inside an image.
func hostileDirents(c *Ctx, r *rand.Rand, i int, j *jail) {
	l := []int{1, 2, 2, 3, 3, 4, 5, 8, 12, 40}[r.Intn(10)]
	mark := strings.Repeat("\x05", l) // found nowhere else: names and data are plain
	if l < 8 {
		// Short marks may be found by chance; then the patch merely hits something else too.
		mark = "\x05\x06\x05\x07\x05\x06\x04\x06"[:l]
	}
	t := genTree(r, GenOpt{Nodes: 2 + r.Intn(8), Plain: true, NoXattr: true, NoMeta: true, MaxData: 1})
	var dirs []*Node
	t.each(func(p string, n *Node) {
		if n.IsReg() {
			n.Data = []byte("content of " + p)
		}
		if n.IsDir() {
			dirs = append(dirs, n)
		}
	})
	d := dirs[r.Intn(len(dirs))]
	ty := fs.FileMode(0o644)
	if r.Intn(3) == 0 {
		ty = fs.ModeDir | 0o755
	}
	x := &Node{Name: mark, Mode: ty, MTime: time.Unix(1600000000, 0)}
	if x.IsReg() {
		x.Data = []byte("the marked file")
	} else {
		x.Kids = []*Node{{Name: "inner", Mode: 0o600, MTime: time.Unix(1600000000, 0), Data: []byte("inside the marked directory")}}
	}
	d.Kids = append(d.Kids, x)
	t.sort()
	o := randEroOpt(r)
	o.Bits, o.MetaBlk, o.BigAddr, o.BigMeta = 9+uint(r.Intn(4)), 4, false, false
	img, _, _ := buildEROFS(r, t, o)
	if img.size > 1<<20 {
		return
	}
	blob := img.bytes()
	if bytes.Count(blob, []byte(mark)) != 1 {
		return
	}
	var bad string
	pool := []string{"..", ".", "/", "../", "/..", "../..", "a/b", "/a", "a/", "//", "\x00", "\x00\x00", "\x00a", "a\x00", "../x", "/etc/passwd", "../secret", "..\\", "./", "./x", "../../../secret"}
	for {
		bad = pool[r.Intn(len(pool))]
		if len(bad) < l {
			bad += strings.Repeat([]string{"a", "/", ".", "\x00", "/.."}[r.Intn(5)], l)
		}
		if bad = bad[:l]; bad != mark {
			break
		}
	}
	blob = bytes.Replace(blob, []byte(mark), []byte(bad), 1)
	fixErofsSum(blob)
	what := fmt.Sprintf("erofs image with the name %q among %d", bad, len(d.Kids))
	c.Count("hostile_erofs", 1)
	c.Count("dirents_patched", 1)
	c.Eval(blob, true)
	fsys, err := openErofs(bytes.NewReader(blob))
	if err != nil {
		c.Count("refused", 1)
		return
	}
	c.Count("opened", 1)
	s := watchedSnapshot(c, r, what, fsys)
	dp := "."
	t.each(func(p string, n *Node) {
		if n == d {
			dp = p
		}
	})
	es, err := fs.ReadDir(fsys, dp)
	nul := strings.TrimRight(bad, "\x00")
	switch {
	case err != nil:
		c.Count("listings_refused", 1)
	case bad == "." || bad == ".." || nul == "." || nul == "..": // names the directory itself or its parent
	case len(es) != len(d.Kids) && !(strings.Contains(bad, "\x00")):
		c.Fail("%s: the listing succeeds with %d entries: %q", what, len(es), entryNames(es))
	default:
		c.Count("entries_found", 1)
	}
	if im, err := erofs.OpenImage(bytes.NewReader(blob)); err == nil {
		// The lower level as well.
		for _, ob := range []uint64{im.RootNid()} {
			if ino, err := im.Inode(ob); err == nil {
				_ = ino.IterDirents(func(name string, _ uint8, _ uint64) error {
					c.Count("names_checked", 1)
					if name != "." && name != ".." && !safeName(name) {
						c.Fail("%s: IterDirents gives %q", what, name)
					}
					return nil
				})
			}
		}
	}
	qs := j.queries(r, s)
	for _, b := range []string{bad, path.Join(dp, bad), dp + "/" + bad, dp + "/" + bad + "/inner"} {
		qs = append(qs, b)
	}
	if err == nil {
		interrogate(c, r, what, fsys, j, s, qs)
	}
}

// dirBlock is a part of the image that holds entries of a directory.
type dirBlock struct{ at, size int }

// dirBlocks finds the blocks of the directory with the given inode, from the raw image.
func dirBlocks(blob []byte, o eroOpt, nid uint64) (out []dirBlock) {
	le := binary.LittleEndian
	at := int(o.MetaBlk<<o.Bits) + int(nid)*32
	h := blob[at:]
	bs, head := 1<<o.Bits, 32
	size := int(le.Uint32(h[8:]))
	if h[0]&1 != 0 {
		head = 64
	}
	raw := int(le.Uint32(h[16:])) << o.Bits
	for off := 0; off < size; off += bs {
		b := dirBlock{raw + off, min(bs, size-off)}
		if h[0]>>1&7 == 2 && size-off < bs {
			b.at = at + head
		}
		out = append(out, b)
	}
	return
}

// hostileOffsets damages the name offsets, inode numbers and types of directory entries.
func hostileOffsets(c *Ctx, r *rand.Rand, i int, j *jail) {
	o, want, exp, blob := smallErofs(r, 12)
	var dirs []string
	want.each(func(p string, n *Node) {
		if n.IsDir() {
			dirs = append(dirs, p)
		}
	})
	le := binary.LittleEndian
	var log []string
	for k := 1 + r.Intn(3); k > 0; k-- {
		p := dirs[r.Intn(len(dirs))]
		if exp[p].Size == 0 {
			continue
		}
		bs := dirBlocks(blob, o, exp[p].Nid)
		b := bs[r.Intn(len(bs))]
		n := int(le.Uint16(blob[b.at+8:])) / 12
		if n == 0 || b.at+12*n > len(blob) {
			continue
		}
		e := r.Intn(n)
		at := b.at + 12*e
		old := int(le.Uint16(blob[at+8:]))
		near := func(d int) int {
			if e+d >= 0 && e+d < n {
				return int(le.Uint16(blob[at+12*d+8:]))
			}
			return old
		}
		switch r.Intn(6) {
		case 0, 1, 2:
			v := []int{near(1), near(-1), 0, 12, 24, 65535, b.size, b.size - 1, old + 1, old - 1, near(1) - 1, near(1) + 1, r.Intn(65536), r.Intn(b.size)}[r.Intn(14)]
			le.PutUint16(blob[at+8:], uint16(v))
			log = append(log, fmt.Sprintf("%q entry %d of %d at %d: name offset %d instead of %d", p, e, n, b.at, v, old))
		case 3:
			blob[at+10] = byte(r.Intn(9))
			log = append(log, fmt.Sprintf("%q entry %d of %d: type %d", p, e, n, blob[at+10]))
		case 4:
			q := dirs[r.Intn(len(dirs))]
			le.PutUint64(blob[at:], exp[q].Nid)
			log = append(log, fmt.Sprintf("%q entry %d of %d: leads to %q", p, e, n, q))
		case 5:
			if old < b.size {
				x := b.at + old + r.Intn(min(b.size-old, 20))
				blob[x] = []byte{0, '/', '.', 0xff}[r.Intn(4)]
				log = append(log, fmt.Sprintf("%q entry %d of %d: byte %d of the names: %q", p, e, n, x-b.at, blob[x]))
			}
		}
	}
	if len(log) == 0 {
		return
	}
	fixErofsSum(blob)
	what := "erofs image with " + strings.Join(log, ", ")
	c.Count("hostile_erofs", 1)
	c.Count("offsets_patched", 1)
	c.Eval(blob, true)
	fsys, err := openErofs(bytes.NewReader(blob))
	if err != nil {
		c.Count("refused", 1)
		return
	}
	c.Count("opened", 1)
	s := boundedSnapshot(c, r, what, fsys, 150)
	if im, err := erofs.OpenImage(bytes.NewReader(blob)); err == nil {
		for _, p := range dirs {
			ino, err := im.Inode(exp[p].Nid)
			if err != nil || !ino.IsDir() {
				continue
			}
			left := 100000
			_ = ino.IterDirents(func(name string, _ uint8, _ uint64) error {
				c.Count("names_checked", 1)
				if name != "." && name != ".." && !safeName(name) {
					c.Fail("%s: IterDirents of %q gives %q", what, p, name)
				}
				if left--; left == 0 {
					return io.EOF
				}
				return nil
			})
		}
	}
	interrogateLoose(c, r, what, fsys, j, s, j.queries(r, s), true)
}

func casesC19(quick bool, seed int64) (out []Case) {
	add := func(name string, n, per int, fn func(c *Ctx, r *rand.Rand, i int, j *jail)) {
		for k := 0; k < n; k++ {
			k := k
			out = append(out, one(fmt.Sprintf("%s-%04d", name, k), func(c *Ctx) {
				j := newJail(c)
				defer j.leave(c)
				for i := 0; i < per && !c.Failed(); i++ {
					fn(c, rand.New(rand.NewSource(c.Rng.Int63())), k*per+i, j)
				}
			}))
		}
	}
	add("tar", N(quick, 160, 4000), 40, hostileTar)
	add("ar", N(quick, 96, 3000), 40, hostileAr)
	add("links", N(quick, 64, 2000), 20, hostileErofsLinks)
	add("dirents", N(quick, 128, 4000), 40, hostileDirents)
	add("offsets", N(quick, 128, 4000), 16, hostileOffsets)
	return
}
