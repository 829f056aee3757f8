package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io/fs"
	"math/rand"
	"path"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

// Node is one object of the abstract tree that archives are made from and compared with.
type Node struct {
	Name     string
	Mode     fs.FileMode // type, permission and setuid/setgid/sticky bits
	UID, GID int
	MTime    time.Time
	Data     []byte
	Big      *bigData // content of files too large to hold
	Target   string
	Xattr    map[string]string
	User     string // names of the owner, as decoded
	Group    string
	Kids     []*Node

	Implied bool // metadata beyond the type and 0755 is not recorded anywhere
	Hard    *Node
}

// bigData is synthetic content: every 8 byte word is a function of its offset.
type bigData struct {
	Len  int64
	Seed uint64
	Zero bool // nothing but zeros

	fills atomic.Int64
}

func (b *bigData) word(i int64) uint64 {
	x := uint64(i)*0x9E3779B97F4A7C15 + b.Seed
	x ^= x >> 29
	return x
}

func (b *bigData) fill(p []byte, off int64) {
	// Work on gigabytes takes long; this is a sign of life (but not for ever).
	if b.fills.Add(1) < 1<<20 && started.Load() != 0 {
		started.Store(time.Now().UnixNano())
	}
	if b.Zero {
		clear(p)
		return
	}
	var w [8]byte
	i := 0
	for i < len(p) {
		o := off + int64(i)
		if o%8 == 0 {
			q := p[i:]
			for k := o / 8; len(q) >= 8; k, q = k+1, q[8:] {
				binary.LittleEndian.PutUint64(q, b.word(k))
			}
			if i = len(p) - len(q); i == len(p) {
				break
			}
			o = off + int64(i)
		}
		binary.LittleEndian.PutUint64(w[:], b.word(o/8))
		i += copy(p[i:], w[o%8:])
	}
}

func (n *Node) Size() int64 {
	if n.Big != nil {
		return n.Big.Len
	}
	return int64(len(n.Data))
}

func (n *Node) readAt(p []byte, off int64) int {
	sz := n.Size()
	if off >= sz {
		return 0
	}
	if int64(len(p)) > sz-off {
		p = p[:sz-off]
	}
	if n.Big != nil {
		n.Big.fill(p, off)
		return len(p)
	}
	return copy(p, n.Data[off:])
}

func (n *Node) IsDir() bool  { return n.Mode.IsDir() }
func (n *Node) IsLink() bool { return n.Mode&fs.ModeSymlink != 0 }
func (n *Node) IsReg() bool  { return n.Mode.IsRegular() }

func (n *Node) sort() {
	sort.Slice(n.Kids, func(i, j int) bool { return n.Kids[i].Name < n.Kids[j].Name })
	for _, k := range n.Kids {
		if k.IsDir() {
			k.sort()
		}
	}
}

func (n *Node) kid(name string) *Node {
	for _, k := range n.Kids {
		if k.Name == name {
			return k
		}
	}
	return nil
}

func (n *Node) find(p string) *Node {
	cur := n
	if p == "." {
		return n
	}
	for _, c := range strings.Split(p, "/") {
		if cur = cur.kid(c); cur == nil {
			return nil
		}
	}
	return cur
}

// each visits the tree in path order, parents first; the root is ".".
func (n *Node) each(fn func(p string, n *Node)) { n.eachIn(".", fn) }

func (n *Node) eachIn(p string, fn func(string, *Node)) {
	fn(p, n)
	for _, k := range n.Kids {
		q := k.Name
		if p != "." {
			q = p + "/" + k.Name
		}
		k.eachIn(q, fn)
	}
}

func (n *Node) paths() (out []string) {
	n.each(func(p string, _ *Node) { out = append(out, p) })
	return
}

func (n *Node) clone() *Node {
	c := *n
	c.Kids = nil
	for _, k := range n.Kids {
		c.Kids = append(c.Kids, k.clone())
	}
	return &c
}

func (n *Node) remove(k *Node) {
	for i, x := range n.Kids {
		if x == k {
			n.Kids = append(n.Kids[:i:i], n.Kids[i+1:]...)
			return
		}
	}
}

// sig is a canonical description, used to count distinct inputs.
func (n *Node) sig() []byte {
	var b bytes.Buffer
	n.each(func(p string, x *Node) {
		fmt.Fprintf(&b, "%q %v %d %d %d %d %q %q\n", p, x.Mode, x.UID, x.GID, x.MTime.UnixNano(), x.Size(), x.Target, x.Xattr)
		d := x.Data
		if len(d) > 64 {
			d = d[:64]
		}
		b.Write(d)
	})
	return b.Bytes()
}

func (n *Node) describe() string {
	var parts []string
	n.each(func(p string, x *Node) {
		if len(parts) < 12 {
			s := fmt.Sprintf("%q(%v,%dB", p, x.Mode, x.Size())
			if x.Target != "" {
				s += fmt.Sprintf("->%.40q", x.Target)
			}
			parts = append(parts, s+")")
		}
	})
	return fmt.Sprintf("%d nodes: %s", n.count(), strings.Join(parts, " "))
}

func (n *Node) count() (c int) { n.each(func(string, *Node) { c++ }); return }

// ---------------------------------------------------------------- generator

type GenOpt struct {
	Nodes    int
	Depth    int
	MaxData  int
	Links    bool
	Flat     bool // no directories
	MaxName  int
	UTF8     bool // only names that are valid UTF-8
	Plain    bool // simple names only
	NoMeta   bool // no special bits, no owners, one time
	Times    []time.Time
	IDs      []int
	NoNS     bool // whole seconds only
	BigDir   int  // one directory gets this many extra entries
	NoXattr  bool
	NoAbsent bool // no dangling symlinks
}

var timePool = []time.Time{
	{},
	time.Unix(0, 0),
	time.Unix(1, 1),
	time.Unix(1700000000, 123456789),
	time.Unix(1<<31-1, 999999999),
	time.Unix(1<<31, 5),
	time.Unix(1<<32+77, 1000),
	time.Unix(1<<33+1, 500000000),
	time.Unix(-1234567890, 250000000),
	time.Unix(-1, 0),
	time.Unix(951782400, 0),
}

var idPool = []int{0, 0, 1, 1000, 1000, 65534, 65535, 65536, 100000, 2097151, 2097152, 1<<31 - 1, 1 << 31, 1<<32 - 2, 1<<32 - 1}

var namePool = []string{
	"a", "b", "c", "A", "B", "x1", "x10", "x2", "file.txt", "dir", "etc", "usr", "lib",
	"a.b", "a-b", "a b", "a,b", "a0", "a~", "a.", "a-", "a.b.c", "b-", "b.c", "dir.d", "dir-x",
	".a", ".hidden", "...", "....", "..a", "..", ".-", ".!", ". ", ".#x", "..-", ".~",
	"!", "!x", "\"q\"", "#", "#tmp#", "$v", "%s", "%2f", "&", "'", "(", ")", "*", "+", "++", ",", "-", "-rf", "--",
	" ", "  ", " lead", "trail ", " both ", "\t", "\ttab", "nl\nx", "cr\r", "\x01", "\x1f", "\x7f",
	"~", "~user", ":", "a:b", ";", "<", "=", "=x", "a=b", ">", "?", "@", "[", "\\", "a\\b", "\\..\\x", "]", "^", "_", "`", "{", "|", "}",
	"é", "e\u0301", "日本語", "naïve", "🙂", "\u200b", "ÿ",
	"\xff", "\xfe\xfd", "caf\xe9", "\xc3", "a\x80b",
	"0", "1", "01", "10", "2", "con", "nul", "COM1", "PaxHeader", "././@LongLink", "GNUSparseFile.0",
}

func okName(s string) bool {
	return s != "" && s != "." && s != ".." && !strings.ContainsAny(s, "/\x00")
}

func genName(r *rand.Rand, o *GenOpt) string {
	max := o.MaxName
	if max == 0 {
		max = 255
	}
	for {
		var s string
		switch k := r.Intn(20); {
		case o.Plain || k < 6:
			s = fmt.Sprintf("%c%c%d", 'a'+rune(r.Intn(4)), 'a'+rune(r.Intn(26)), r.Intn(100))
		case k < 14:
			s = namePool[r.Intn(len(namePool))]
			if r.Intn(5) == 0 {
				s += fmt.Sprint(r.Intn(30))
			}
		case k < 16:
			lens := []int{1, 2, 14, 15, 16, 17, 31, 63, 64, 98, 99, 100, 101, 102, 127, 128, 154, 155, 156, 200, 253, 254, 255}
			l := lens[r.Intn(len(lens))]
			b := make([]byte, l)
			for i := range b {
				b[i] = "abcdefghijklmnopqrstuvwxyz0123456789._-"[r.Intn(39)]
			}
			s = string(b)
		case k < 18:
			b := make([]byte, 1+r.Intn(6))
			for i := range b {
				b[i] = byte(1 + r.Intn(126))
			}
			s = string(b)
		case k < 19 && !o.UTF8:
			b := make([]byte, 1+r.Intn(8))
			for i := range b {
				b[i] = byte(1 + r.Intn(255))
			}
			s = string(b)
		default:
			s = strings.Repeat(string(rune('a'+r.Intn(3))), 1+r.Intn(4))
		}
		if len(s) > max || !okName(s) {
			continue
		}
		if o.UTF8 && !fs.ValidPath(s) {
			continue
		}
		return s
	}
}

var sizePool = []int{0, 0, 1, 2, 3, 7, 511, 512, 513, 959, 960, 961, 991, 992, 993, 1023, 1024, 1025, 2047, 2048, 2049,
	4031, 4032, 4033, 4063, 4064, 4065, 4095, 4096, 4097, 5119, 5120, 5121, 8191, 8192, 8193, 12288, 65535, 65536, 65537}

func genData(r *rand.Rand, max int) []byte {
	var n int
	switch k := r.Intn(10); {
	case k < 5:
		n = sizePool[r.Intn(len(sizePool))]
	case k < 8:
		n = r.Intn(2500)
	case k < 9:
		n = r.Intn(40000)
	default:
		n = 4096*r.Intn(6) + r.Intn(3) - 1
	}
	if n < 0 {
		n = 0
	}
	if max > 0 && n > max {
		n = r.Intn(max + 1)
	}
	b := make([]byte, n)
	if r.Intn(6) == 0 {
		for i := range b { // long runs of zeros
			if r.Intn(40) == 0 {
				b[i] = byte(r.Intn(256))
			}
		}
		return b
	}
	r.Read(b)
	return b
}

func genMeta(r *rand.Rand, o *GenOpt, n *Node) {
	n.Mode |= fs.FileMode(r.Intn(0o1000))
	if r.Intn(3) == 0 {
		n.Mode = n.Mode&^fs.ModePerm | []fs.FileMode{0, 0o777, 0o644, 0o755, 0o400, 0o001}[r.Intn(6)]
	}
	if o.NoMeta {
		n.MTime = time.Unix(1600000000, 0)
		return
	}
	if !n.IsLink() && r.Intn(4) == 0 {
		n.Mode |= []fs.FileMode{fs.ModeSetuid, fs.ModeSetgid, fs.ModeSticky, fs.ModeSetuid | fs.ModeSetgid | fs.ModeSticky}[r.Intn(4)]
	}
	ids, times := o.IDs, o.Times
	if ids == nil {
		ids = idPool
	}
	if times == nil {
		times = timePool
	}
	n.UID, n.GID = ids[r.Intn(len(ids))], ids[r.Intn(len(ids))]
	n.MTime = times[r.Intn(len(times))]
	if !n.MTime.IsZero() && r.Intn(2) == 0 {
		n.MTime = n.MTime.Add(time.Duration(r.Intn(2000000000)))
	}
	if o.NoNS && !n.MTime.IsZero() {
		n.MTime = time.Unix(n.MTime.Unix(), 0)
	}
}

func genTree(r *rand.Rand, o GenOpt) *Node {
	if o.Depth == 0 {
		o.Depth = 6
	}
	root := &Node{Name: ".", Mode: fs.ModeDir}
	genMeta(r, &o, root)
	root.Mode = fs.ModeDir | 0o755
	dirs := []*Node{root}
	depth := map[*Node]int{root: 0}
	var links []*Node
	parent := map[*Node]*Node{}
	add := func(d *Node, n *Node) bool {
		if d.kid(n.Name) != nil {
			return false
		}
		parent[n] = d
		d.Kids = append(d.Kids, n)
		return true
	}
	for i := 0; i < o.Nodes; i++ {
		d := dirs[r.Intn(len(dirs))]
		n := &Node{Name: genName(r, &o)}
		switch k := r.Intn(10); {
		case k < 3 && !o.Flat && depth[d] < o.Depth:
			n.Mode = fs.ModeDir
		case k < 5 && o.Links:
			n.Mode = fs.ModeSymlink
		default:
			n.Data = genData(r, o.MaxData)
		}
		genMeta(r, &o, n)
		if !add(d, n) {
			continue
		}
		if n.IsDir() {
			dirs = append(dirs, n)
			depth[n] = depth[d] + 1
		}
		if n.IsLink() {
			links = append(links, n)
		}
		if !o.NoXattr && !n.IsLink() && r.Intn(8) == 0 {
			n.Xattr = genXattr(r)
		}
	}
	if o.BigDir > 0 {
		d := dirs[r.Intn(len(dirs))]
		have := map[string]bool{}
		for _, k := range d.Kids {
			have[k.Name] = true
		}
		style := r.Intn(3)
		for i := 0; i < o.BigDir; i++ {
			var name string
			switch style {
			case 0:
				name = fmt.Sprintf("f%05d", i)
			case 1:
				name = genName(r, &o)
			default:
				l := r.Intn(240)
				if o.MaxName > 0 && l+8 > o.MaxName {
					l = 0
				}
				name = strings.Repeat(string(rune('a'+r.Intn(26))), l) + fmt.Sprintf("%06d", i)
			}
			if have[name] || (o.MaxName > 0 && len(name) > o.MaxName) {
				continue
			}
			have[name] = true
			n := &Node{Name: name}
			if r.Intn(6) == 0 && !o.Flat {
				n.Mode = fs.ModeDir
			} else {
				n.Data = []byte(fmt.Sprintf("content of %q %d", name, i))
			}
			genMeta(r, &o, n)
			n.Mode &= fs.ModeType | fs.ModePerm
			parent[n] = d
			d.Kids = append(d.Kids, n)
		}
	}
	root.sort()
	// Symlink targets, now that all nodes exist.
	all := root.paths()
	pathOf := map[*Node]string{}
	root.each(func(p string, n *Node) { pathOf[n] = p })
	for _, l := range links {
		l.Target = genTarget(r, path.Dir(pathOf[l]), all, o.NoAbsent)
	}
	return root
}

// relPath expresses target (a clean archive path) relative to directory dir.
func relPath(dir, target string) string {
	var a, b []string
	if dir != "." {
		a = strings.Split(dir, "/")
	}
	if target != "." {
		b = strings.Split(target, "/")
	}
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	var out []string
	for range a[i:] {
		out = append(out, "..")
	}
	out = append(out, b[i:]...)
	if len(out) == 0 {
		return "."
	}
	return strings.Join(out, "/")
}

func genTarget(r *rand.Rand, dir string, all []string, noAbsent bool) string {
	t := genCleanerTarget(r, dir, all, noAbsent)
	if r.Intn(9) > 0 || len(t) > 4000 {
		return t
	}
	switch r.Intn(4) { // the same in other words
	case 0:
		return t + "//"
	case 1:
		return strings.Replace(t, "/", "//", 1)
	case 2:
		return t + "/."
	}
	return t + "/"
}

func genCleanerTarget(r *rand.Rand, dir string, all []string, noAbsent bool) string {
	t := all[r.Intn(len(all))]
	rel := relPath(dir, t)
	k := r.Intn(14)
	if noAbsent && k >= 8 {
		k = r.Intn(8)
	}
	switch k {
	case 0, 1, 2, 3:
		return rel
	case 4, 5:
		if t == "." {
			return "/"
		}
		return "/" + t
	case 6:
		return "./" + rel
	case 7:
		return strings.Repeat("../", 1+r.Intn(8)) + t // clamps at the root when there are enough
	case 8:
		return rel + "/missing"
	case 9:
		return "nowhere"
	case 10:
		return "/" + strings.Repeat("x", 1+r.Intn(250))
	case 11:
		s := rel
		for len(s) < 90+r.Intn(60) {
			s = "sub-" + fmt.Sprint(r.Intn(10)) + "/../" + s
		}
		return s
	case 12:
		n := []int{98, 99, 100, 101, 255, 256, 1023, 1024, 1025, 2000, 3000, 4094, 4095}[r.Intn(13)]
		var b strings.Builder
		for b.Len() < n {
			b.WriteString("long-")
			if b.Len()%60 == 0 && b.Len() > 0 {
				b.WriteString("/")
			}
		}
		return strings.TrimRight(b.String()[:n], "/") + "x"[:boolInt(b.String()[n-1] == '/')]
	default:
		return "a//" + rel + "/."
	}
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

// cleanTargets returns a copy of the tree with lexically cleaned link targets.
func cleanTargets(t *Node) *Node {
	c := t.clone()
	c.each(func(_ string, n *Node) {
		if n.IsLink() {
			n.Target = path.Clean(n.Target)
		}
	})
	return c
}

// genXattr gives a few extended attributes, the values of which are bytes of any kind.
func genXattr(r *rand.Rand) map[string]string {
	x := map[string]string{}
	for k := 1 + r.Intn(3)*r.Intn(2); k > 0; k-- {
		key := []string{"user.k", "user.other", "security.capability", "security.selinux", "system.posix_acl_access", "trusted.overlay.opaque", "com.apple.quarantine", "user.päth", "user.with space"}[r.Intn(9)]
		v := fmt.Sprint("v", r.Intn(100))
		switch r.Intn(8) {
		case 0:
			v += "\nsecond line\n"
		case 1:
			v = "a=b=" + v + "="
		case 2:
			v = strings.Repeat(v, 1+r.Intn(2500))
		case 3:
			v = " " + v + "\t "
		case 4:
			v = string([]byte{0xff, 0xfe, 1, 0x80, 2, '\r'}) + v
		case 5:
			v += "\x00"
		case 6:
			v = string([]byte{1, 0, 0, 2, 0, 0x20, 0, 0}) + v
		}
		x[key] = v
	}
	return x
}
