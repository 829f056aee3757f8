package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"io/fs"
	"math/bits"
	"math/rand"
	"path"
	"strconv"
	"strings"

	"github.com/dpeckett/archivefs"
	"github.com/dpeckett/archivefs/erofs"
)

func init() {
	register(&Prop{
		ID: "C10",
		Rule: "One evaluation opens one damaged copy of an archive whose contents are known - cut at some byte, or with one of the stated kinds of damage - and checks that the damage is reported, or that everything still presented is exactly what the intact archive holds. " +
			"Non-trivial: the copy differs from the intact archive; distinct by its bytes.",
		MinEvents: []string{"cuts_tar", "cuts_ar", "cuts_erofs", "cuts_refused", "cuts_opened", "cuts_in_header", "cuts_in_data", "files_failing_to_read", "bad_magic", "bad_checksum",
			"incompat_bits", "bad_layouts", "xattr_inodes", "bad_terminators", "bad_numbers", "negative_sizes", "bad_tar_headers", "bad_tar_types"},
		Cases: casesC10,
	})
}

func casesC10(quick bool, seed int64) (out []Case) {
	out = append(out, batch("cut-tar", N(quick, 60, 2000), 6, func(c *Ctx, r *rand.Rand, i int) { cutTar(c, r, N(quick, 130, 4000)) })...)
	out = append(out, batch("cut-ar", N(quick, 60, 1500), 6, func(c *Ctx, r *rand.Rand, i int) { cutAr(c, r, N(quick, 130, 4000)) })...)
	out = append(out, batch("cut-erofs", N(quick, 60, 2000), 5, func(c *Ctx, r *rand.Rand, i int) { cutErofs(c, r, N(quick, 70, 1500)) })...)
	out = append(out, batch("damage-tar", N(quick, 40, 1500), 6, damageTar)...)
	out = append(out, batch("damage-ar", N(quick, 40, 1500), 6, damageAr)...)
	out = append(out, batch("damage-erofs-super", N(quick, 40, 1000), 4, damageSuper)...)
	out = append(out, batch("damage-erofs-inode", N(quick, 60, 2000), 6, damageInode)...)
	return
}

// cutPoints lists the prefixes to try: all near the marks, a sample elsewhere, or all.
func cutPoints(r *rand.Rand, size int, marks []int64, max int) []int {
	set := map[int]bool{}
	add := func(n int) {
		if n >= 0 && n < size {
			set[n] = true
		}
	}
	if size <= max {
		for n := 0; n < size; n++ {
			add(n)
		}
	}
	for _, m := range marks {
		if len(set) > max && r.Intn(4) > 0 {
			continue
		}
		for d := -2; d <= 2; d++ {
			add(int(m) + d)
		}
	}
	for len(set) < max && len(set) < size {
		add(r.Intn(size))
	}
	var out []int
	for n := 0; n < size; n++ {
		if set[n] {
			out = append(out, n)
		}
	}
	return out
}

// presentsOnly checks that everything an opened damaged archive presents is what the original holds.
func presentsOnly(c *Ctx, what string, s *Snap, want *Node, skipDirs bool) {
	for p, o := range s.M {
		n := want.find(p)
		if n == nil {
			c.Fail("%s: %q is presented and does not exist", what, p)
			continue
		}
		if o.DataErr != "" {
			c.Count("files_failing_to_read", 1)
			continue
		}
		if n.IsDir() {
			continue
		}
		if o.Mode != n.Mode {
			c.Fail("%s: %q has mode %v, want %v", what, p, o.Mode, n.Mode)
		}
		if n.IsReg() && !bytes.Equal(o.Data, n.Data) {
			c.Fail("%s: %q is read without an error as %s", what, p, diffBytes(o.Data, n.Data))
		}
		if n.IsLink() && path.Clean(o.Target) != path.Clean(n.Target) {
			c.Fail("%s: %q links to %q, want %q", what, p, o.Target, n.Target)
		}
		c.Count("objects_intact", 1)
	}
	for _, p := range s.Problems {
		c.Fail("%s: %s", what, p)
	}
}

func cutTar(c *Ctx, r *rand.Rand, max int) {
	var ents []*tarEnt
	var want *Node
	for {
		ents, want = tarFromTree(r, genTree(r, GenOpt{Nodes: 2 + r.Intn(7), Links: true, MaxData: []int{300, 3000}[r.Intn(2)]}))
		seen, dup := map[string]bool{}, false
		for _, e := range ents {
			k := path.Clean("/" + e.Name)
			dup = dup || seen[k]
			seen[k] = true
		}
		if !dup {
			break
		}
	}
	blob := encodeTar(nil, ents)
	want.Mode = fs.ModeDir | 0o755
	var marks []int64
	for _, e := range ents {
		marks = append(marks, e.HdrOff, e.HdrOff+512, e.HdrOff+1024, e.HdrOff+1536, e.DataOff-512, e.DataOff, (e.DataOff+e.End)/2, e.End)
	}
	for _, n := range cutPoints(r, len(blob), marks, max) {
		c.Count("cuts_tar", 1)
		part := blob[:n:n]
		c.Eval(part, true)
		what := fmt.Sprintf("tar cut at %d of %d", n, len(blob))
		var inHdr, inData *tarEnt
		for _, e := range ents {
			if int64(n) > e.HdrOff && int64(n) < e.DataOff {
				inHdr = e
			}
			if int64(n) >= e.DataOff && int64(n) < e.End {
				inData = e
			}
		}
		fsys, err := openTar(&memRA{b: part, eof: r.Intn(2) == 0})
		if inHdr != nil {
			c.Count("cuts_in_header", 1)
			if err == nil {
				c.Fail("%s, inside the header of %q (%d to %d): opens as a shorter archive", what, inHdr.Name, inHdr.HdrOff, inHdr.DataOff)
			}
		}
		if inData != nil {
			c.Count("cuts_in_data", 1)
		}
		if err != nil {
			c.Count("cuts_refused", 1)
			continue
		}
		c.Count("cuts_opened", 1)
		s := snapshot(fsys, snapOpt{rng: r, tolerate: true, noNegative: true})
		presentsOnly(c, what, s, want, true)
		if inData != nil && s.M[cleanName(inData.Name)] == nil {
			c.Fail("%s, inside the data of %q: opens without it", what, inData.Name)
		}
		for _, e := range ents { // complete entries are there
			if e.End <= int64(n) && e.Type != '1' && cleanName(e.Name) != "." && s.M[cleanName(e.Name)] == nil {
				c.Fail("%s: opens without the complete entry %q", what, e.Name)
			}
		}
		if c.Failed() {
			c.Fail("entries: %s", describeEnts(ents))
			return
		}
	}
}

func cleanName(s string) string {
	s = strings.TrimPrefix(path.Clean("/"+s), "/")
	if s == "" {
		return "."
	}
	return s
}

func cutAr(c *Ctx, r *rand.Rand, max int) {
	ms, want, blob := genUniqueAr(r)
	var marks []int64
	for _, m := range ms {
		marks = append(marks, m.HdrOff, m.HdrOff+58, m.DataOff, (m.DataOff+m.End)/2, m.End)
	}
	marks = append(marks, 0, 8)
	for _, n := range cutPoints(r, len(blob), marks, max) {
		c.Count("cuts_ar", 1)
		part := blob[:n:n]
		c.Eval(part, true)
		what := fmt.Sprintf("ar cut at %d of %d", n, len(blob))
		fsys, err := openAr(&memRA{b: part, eof: r.Intn(2) == 0})
		if n < 8 && err == nil {
			c.Fail("%s: opens", what)
		}
		var inData *arMember
		for _, m := range ms {
			if int64(n) > m.HdrOff && int64(n) < m.DataOff {
				c.Count("cuts_in_header", 1)
				if err == nil && !(blob[m.HdrOff] == '\n' && int64(n) == m.HdrOff+1) { // a newline may pad the archive
					c.Fail("%s, inside the header of %q: opens as a shorter archive", what, m.Name)
				}
			}
			if int64(n) >= m.DataOff && int64(n) < m.End {
				c.Count("cuts_in_data", 1)
				inData = m
			}
		}
		if err != nil {
			c.Count("cuts_refused", 1)
			for _, m := range ms { // between members the archive is a valid shorter one
				if int64(n) == m.HdrOff || int64(n) == m.End {
					c.Fail("%s, which is at the end of a member: %v", what, err)
				}
			}
			continue
		}
		c.Count("cuts_opened", 1)
		s := snapshot(fsys, snapOpt{rng: r, tolerate: true, noNegative: true})
		presentsOnly(c, what, s, want, true)
		for _, m := range ms {
			if m.Name == "/" {
				continue
			}
			if (m.End <= int64(n) || m == inData) && s.M[m.Name] == nil {
				c.Fail("%s: opens without %q", what, m.Name)
			}
		}
		if c.Failed() {
			return
		}
	}
}

func genUniqueAr(r *rand.Rand) ([]*arMember, *Node, []byte) {
	for {
		ms, want, _ := genArArchive(r, 1+r.Intn(5))
		seen, ok := map[string]bool{}, len(ms) > 0
		for _, m := range ms {
			ok = ok && !seen[m.Name]
			seen[m.Name] = true
			if len(m.Data) > 3000 && m.Name != "/" {
				m.Data = m.Data[:r.Intn(3000)]
				want.kid(m.Name).Data = m.Data
			}
		}
		if ok {
			return ms, want, encodeAr(ms, r.Intn(2) == 0)
		}
	}
}

// smallErofs makes a small image with known contents.
func smallErofs(r *rand.Rand, maxBits int) (o eroOpt, want *Node, exp map[string]eroObj, blob []byte) {
	for {
		o = randEroOpt(r)
		o.Bits = uint(9 + r.Intn(maxBits-8))
		o.MetaBlk = min(o.MetaBlk, 5)
		g := GenOpt{Nodes: 2 + r.Intn(9), Links: true, MaxData: []int{400, 5000}[r.Intn(2)], NoXattr: true}
		if r.Intn(3) == 0 {
			g.BigDir = 20 + r.Intn(30)
		}
		img, w, e := buildEROFS(r, genTree(r, g), o)
		if img.size <= 1<<18 {
			return o, w, e, img.bytes()
		}
	}
}

func cutErofs(c *Ctx, r *rand.Rand, max int) {
	o, want, exp, blob := smallErofs(r, 12)
	marks := []int64{1024, 1152, int64(1024+127) >> o.Bits << o.Bits}
	for _, p := range sortedKeys(exp) {
		at := o.MetaBlk<<o.Bits + int64(exp[p].Nid)*32
		marks = append(marks, at, at+32, at+64)
	}
	full := snapshot(&memFSView{blob, openErofs}, snapOpt{rng: r, noNegative: true, light: true})
	paths := want.paths()
	for _, n := range cutPoints(r, len(blob), marks, max) {
		c.Count("cuts_erofs", 1)
		part := blob[:n:n]
		c.Eval(part, true)
		what := fmt.Sprintf("erofs cut at %d of %d", n, len(blob))
		fsys, err := openErofs(&memRA{b: part, eof: r.Intn(2) == 0})
		if n < 1152 {
			c.Count("cuts_in_header", 1)
			if err == nil {
				c.Fail("%s, inside the superblock: opens", what)
			}
		}
		if err != nil {
			c.Count("cuts_refused", 1)
			continue
		}
		c.Count("cuts_opened", 1)
		s := snapshot(fsys, snapOpt{rng: r, tolerate: true, noNegative: true})
		presentsOnly(c, what, s, want, false)
		for p, ob := range s.M {
			x := full.M[p]
			if ob.DataErr == "" && x != nil && strings.Join(ob.Kids, "/") != strings.Join(x.Kids, "/") {
				c.Fail("%s: %q lists %d of %d names", what, p, len(ob.Kids), len(x.Kids))
			}
		}
		for i := 0; i < 8; i++ {
			p := paths[r.Intn(len(paths))]
			n := want.find(p)
			if n.IsLink() {
				continue
			}
			if fi, err := fs.Stat(fsys, p); err != nil {
				c.Count("files_failing_to_read", 1)
				if isNotExist(err) {
					c.Fail("%s: stat of %q, which is stored: %v", what, p, err)
				}
			} else if fi.Mode() != n.Mode || n.IsReg() && fi.Size() != n.Size() {
				c.Fail("%s: stat of %q gives %v %d, want %v %d", what, p, fi.Mode(), fi.Size(), n.Mode, n.Size())
			}
		}
		if c.Failed() {
			c.Fail("tree %s", want.describe())
			return
		}
	}
}

// memFSView opens bytes lazily as a filesystem that must open.
type memFSView struct {
	b    []byte
	open func(io.ReaderAt) (fs.FS, error)
}

func (m *memFSView) Open(name string) (fs.File, error) {
	f, err := m.open(bytes.NewReader(m.b))
	if err != nil {
		return nil, err
	}
	return f.Open(name)
}

func (m *memFSView) ReadDir(name string) ([]fs.DirEntry, error) {
	f, err := m.open(bytes.NewReader(m.b))
	if err != nil {
		return nil, err
	}
	return fs.ReadDir(f, name)
}

// refused runs one damaged copy that must not open, or whose part p must not be usable.
func refused(c *Ctx, f format, blob []byte, p string, what string, args ...any) {
	c.Eval(blob, true)
	fsys, err := f.open(bytes.NewReader(blob))
	if err != nil {
		c.Count("refused", 1)
		return
	}
	desc := f.name + ": " + fmt.Sprintf(what, args...)
	if p == "" {
		c.Fail("%s: opens", desc)
		return
	}
	// Used: as a directory, file or link.
	fi, serr := fs.Stat(fsys, p)
	if serr == nil && fi.IsDir() {
		if _, err := fs.ReadDir(fsys, p); err == nil {
			c.Fail("%s: the directory %q can be listed", desc, p)
		}
		return
	}
	if l, ok := fsys.(archivefs.ReadLinkFS); ok {
		if t, err := l.ReadLink(p); err == nil {
			c.Fail("%s: the link %q can be read: %q", desc, p, t)
			return
		}
	}
	if _, err := fs.ReadFile(fsys, p); err == nil {
		c.Fail("%s: the file %q can be read", desc, p)
		return
	}
	c.Count("refused_at_use", 1)
}

func damageTar(c *Ctx, r *rand.Rand, i int) {
	ents, _ := tarFromTree(r, genTree(r, GenOpt{Nodes: 1 + r.Intn(6), Links: true, MaxData: 800}))
	if len(ents) == 0 {
		return
	}
	blob := encodeTar(nil, ents)
	if _, err := openTar(bytes.NewReader(blob)); err != nil {
		c.Fail("intact archive: %v", err)
		return
	}
	var heads []int
	for _, e := range ents {
		for off := int(e.HdrOff); off < int(e.DataOff); off += 512 {
			if tarSumOK(blob[off : off+512]) {
				heads = append(heads, off)
			}
		}
	}
	for k := 0; k < 80 && !c.Failed(); k++ {
		b := bytes.Clone(blob)
		at := heads[r.Intn(len(heads))]
		h := b[at : at+512]
		for j := 1 + r.Intn(3)*r.Intn(4); j > 0; j-- {
			h[r.Intn(512)] ^= byte(1 + r.Intn(255))
		}
		if tarSumMaybe(h) || bytes.Equal(h, make([]byte, 512)) {
			continue
		}
		c.Count("bad_tar_headers", 1)
		refused(c, fmtTar, b, "", "damaged header at %d", at)
	}
	for k := 0; k < 30 && !c.Failed(); k++ {
		b := bytes.Clone(blob)
		e := ents[r.Intn(len(ents))]
		last := int(e.DataOff) - 512
		if e.Fmt == fmtGNUSparse || !tarSumOK(b[last:last+512]) {
			continue
		}
		types := "346ABCDEFGHIJMNOPQRTUVWXYZabcdefhijklmnopqrstuvwyz89!\x01\x7f"
		b[last+156] = types[r.Intn(len(types))]
		fixTarSum(b[last : last+512])
		c.Count("bad_tar_types", 1)
		refused(c, fmtTar, b, "", "entry %q of unsupported type %q", e.Name, b[last+156])
	}
}

// tarSumMaybe says whether any reading of the checksum field could match.
func tarSumMaybe(h []byte) bool {
	var uns, sig int64
	for i, b := range h {
		if i >= 148 && i < 156 {
			b = ' '
		}
		uns += int64(b)
		sig += int64(int8(b))
	}
	f := h[148:156]
	if f[0]&0x80 != 0 { // base 256
		return true
	}
	v, err := strconv.ParseInt(strings.Trim(string(f), " \x00"), 8, 64)
	if err != nil {
		if z := bytes.IndexAny(f, "\x00"); z >= 0 { // something after the terminator
			if v, err = strconv.ParseInt(strings.Trim(string(f[:z]), " "), 8, 64); err == nil {
				return v == uns || v == sig
			}
		}
		return false
	}
	return v == uns || v == sig
}

func damageAr(c *Ctx, r *rand.Rand, i int) {
	ms, _, blob := genUniqueAr(r)
	if _, err := openAr(bytes.NewReader(blob)); err != nil {
		c.Fail("intact archive: %v", err)
		return
	}
	for k := 0; k < 8; k++ {
		b := bytes.Clone(blob)
		b[k] ^= byte(1 + r.Intn(255))
		c.Count("bad_magic", 1)
		refused(c, fmtAr, b, "", "magic %q", b[:8])
	}
	for k := 0; k < 40 && !c.Failed(); k++ {
		b := bytes.Clone(blob)
		m := ms[r.Intn(len(ms))]
		h := b[m.HdrOff : m.HdrOff+60]
		switch r.Intn(3) {
		case 0:
			if r.Intn(4) > 0 {
				h[58+r.Intn(2)] ^= byte(1 + r.Intn(255))
			} else {
				copy(h[58:], []string{"\n`", "``", "\n\n", "  ", "\x00\x00", "`\r"}[r.Intn(6)])
			}
			c.Count("bad_terminators", 1)
			refused(c, fmtAr, b, "", "member %q has terminator %q", m.Name, h[58:60])
		case 1:
			f := [][2]int{{16, 12}, {28, 6}, {34, 6}, {40, 8}, {48, 10}}[r.Intn(5)]
			bad := []string{"x", "1x", "0x10", "1 2", "1.5", "--1", "1e3", "12\x00", "a", "-", "+", "\xff1", "/", "1,0", "1_0", "'1", "9z", "0b1", "1-", "#1"}
			v := bad[r.Intn(len(bad))]
			if f[0] == 40 && r.Intn(3) == 0 {
				v = []string{"8", "9", "100648", "1009", "-1"}[r.Intn(5)]
			}
			if r.Intn(4) == 0 {
				v = strings.Repeat(" ", r.Intn(f[1]-len(v)+1)) + v
			}
			copy(h[f[0]:f[0]+f[1]], v+strings.Repeat(" ", f[1]-len(v)))
			c.Count("bad_numbers", 1)
			refused(c, fmtAr, b, "", "member %q has the number %q in the field at %d", m.Name, h[f[0]:f[0]+f[1]], f[0])
		default:
			n := []int64{-1, -2, -60, -61, -59, -m.HdrOff, -m.HdrOff - 60, -999999999, -int64(r.Intn(5000)) - 1}[r.Intn(9)]
			if n == 0 {
				continue
			}
			copy(h[48:58], fmt.Sprintf("%-10d", n))
			c.Count("negative_sizes", 1)
			refused(c, fmtAr, b, "", "member %q has size %q", m.Name, h[48:58])
		}
	}
}

func damageSuper(c *Ctx, r *rand.Rand, i int) {
	o, _, _, blob := smallErofs(r, 12)
	if r.Intn(6) == 0 { // made by the library
		if b, err := createErofs(newModelFS(genTree(r, GenOpt{Nodes: 5, MaxData: 500}), FSOpts{Link: 2})); err == nil {
			blob, o = b, eroOpt{Bits: 12, Checksum: true}
		}
	}
	if _, err := openErofs(bytes.NewReader(blob)); err != nil {
		c.Fail("intact image: %v", err)
		return
	}
	fix := func(b []byte) {
		if b[1024+8]&1 != 0 {
			fixErofsSum(b)
		}
	}
	for k := 0; k < 4; k++ {
		b := bytes.Clone(blob)
		b[1024+k] ^= byte(1 + r.Intn(255))
		fix(b)
		c.Count("bad_magic", 1)
		refused(c, fmtErofs, b, "", "magic %x", b[1024:1028])
	}
	for k := 0; k < 32; k++ {
		b := bytes.Clone(blob)
		v := uint32(1) << k
		if r.Intn(4) == 0 {
			v |= r.Uint32()
		}
		binary.LittleEndian.PutUint32(b[1024+80:], v)
		fix(b)
		c.Count("incompat_bits", 1)
		refused(c, fmtErofs, b, "", "incompatible features %#x", v)
	}
	if !o.Checksum || blob[1024+8]&1 == 0 {
		return
	}
	// The stored checksum replaced by values that might pass for a special one.
	sum := binary.LittleEndian.Uint32(blob[1024+4:])
	for _, v := range []uint32{0, 1, 0xffffffff, ^sum, bits.ReverseBytes32(sum), bits.Reverse32(sum), sum &^ 0xffff, sum & 0xffff, sum + 1, r.Uint32()} {
		if v == sum {
			continue
		}
		b := bytes.Clone(blob)
		binary.LittleEndian.PutUint32(b[1024+4:], v)
		c.Count("bad_checksum", 1)
		refused(c, fmtErofs, b, "", "checksum %#x instead of %#x", v, sum)
		if _, err := erofs.OpenImage(bytes.NewReader(b)); err == nil {
			c.Fail("checksum %#x instead of %#x: OpenImage succeeds", v, sum)
		}
	}
	// Whole fields cleared or set (other than the magic, the features and the block size).
	for k := 0; k < 20 && !c.Failed(); k++ {
		b := bytes.Clone(blob)
		at, n := 1024+13+r.Intn(115), 1+r.Intn(16)
		n = min(n, 1024+128-at)
		v := []byte{0, 0xff, 1}[r.Intn(3)]
		for x := range b[at : at+n] {
			b[at+x] = v
		}
		if bytes.Equal(b, blob) {
			continue
		}
		c.Count("bad_checksum", 1)
		refused(c, fmtErofs, b, "", "bytes %d to %d of the superblock are all %d", at-1024, at+n-1024, v)
	}
	end := (1024 + 128 + 1<<o.Bits - 1) &^ (1<<o.Bits - 1)
	for k := 0; k < 120 && !c.Failed(); k++ {
		b := bytes.Clone(blob)
		at := 1024 + r.Intn(128)
		if r.Intn(3) == 0 {
			at = 1024 + r.Intn(min(end, len(b))-1024)
		}
		b[at] ^= 1 << r.Intn(8)
		if r.Intn(3) == 0 {
			b[at] ^= byte(r.Intn(256))
		}
		if b[at] == blob[at] || b[1024+8]&1 == 0 || b[1024+12] != blob[1024+12] {
			continue
		}
		c.Count("bad_checksum", 1)
		refused(c, fmtErofs, b, "", "byte %d of the superblock's block is damaged", at-1024)
		if _, err := erofs.OpenImage(bytes.NewReader(b)); err == nil {
			c.Fail("byte %d of the superblock's block is damaged: OpenImage succeeds", at-1024)
		}
	}
}

func damageInode(c *Ctx, r *rand.Rand, i int) {
	o, want, exp, blob := smallErofs(r, 12)
	for _, p := range want.paths() {
		n := want.find(p)
		if n.Mode.Type()&^(fs.ModeDir|fs.ModeSymlink) != 0 {
			continue
		}
		at := int(o.MetaBlk<<o.Bits) + int(exp[p].Nid)*32
		b := bytes.Clone(blob)
		h := b[at:]
		if r.Intn(2) == 0 {
			v := uint16(1 << r.Intn(16))
			if r.Intn(2) == 0 {
				v = uint16(1 + r.Intn(65535))
			}
			binary.LittleEndian.PutUint16(h[2:], v)
			c.Count("xattr_inodes", 1)
		} else {
			h[0] = h[0]&^0x0e | []byte{1, 3, 4, 5, 6, 7}[r.Intn(6)]<<1
			c.Count("bad_layouts", 1)
		}
		if int64(at) < 1024+1<<o.Bits {
			fixErofsSum(b)
		}
		desc := fmt.Sprintf("inode of %q with format %#x and %d xattrs", p, binary.LittleEndian.Uint16(h), binary.LittleEndian.Uint16(h[2:]))
		q := p
		refused(c, fmtErofs, b, q, "%s", desc)
		// The rest is still readable, except through the damaged one.
		if fsys, err := openErofs(bytes.NewReader(b)); err == nil {
			s := snapshot(fsys, snapOpt{rng: r, tolerate: true, noNegative: true, light: true})
			presentsOnly(c, desc, s, want, false)
			if o := s.M[p]; o != nil && o.DataErr == "" {
				c.Fail("%s: used without an error", desc)
			}
		}
		img, err := erofs.OpenImage(bytes.NewReader(b))
		if err == nil {
			if ino, err := img.Inode(exp[p].Nid); err == nil {
				var derr error
				switch {
				case n.IsDir():
					derr = ino.IterDirents(func(string, uint8, uint64) error { return nil })
				case n.IsLink():
					_, derr = ino.Readlink()
				default:
					var rd io.Reader
					if rd, derr = ino.Data(); derr == nil {
						_, derr = io.ReadAll(rd)
					}
				}
				if derr == nil {
					c.Fail("%s: the inode is used without an error", desc)
				}
			}
		}
		if c.Failed() {
			return
		}
	}
}
