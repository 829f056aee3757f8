package main

import (
	"encoding/binary"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"sort"
	"time"
)

// An independent writer of uncompressed EROFS images that uses the freedom the format gives:
// it places inodes, data and metadata anywhere, and splits and pads directories at will.

// sparseImage is a possibly huge image of which only some ranges are stored.
type sparseImage struct {
	segs []seg
	size int64
	eof  bool // report EOF together with a full read that ends at the end
}

type seg struct {
	off  int64
	data []byte
	big  *bigData
	n    int64
}

func (s *sparseImage) put(off int64, b []byte) {
	if len(b) == 0 {
		return
	}
	s.segs = append(s.segs, seg{off: off, data: b, n: int64(len(b))})
	s.size = max(s.size, off+int64(len(b)))
}

func (s *sparseImage) putBig(off int64, b *bigData) {
	s.segs = append(s.segs, seg{off: off, big: b, n: b.Len})
	s.size = max(s.size, off+b.Len)
}

func (s *sparseImage) sort() {
	sort.Slice(s.segs, func(i, j int) bool { return s.segs[i].off < s.segs[j].off })
	for i := 1; i < len(s.segs); i++ {
		if s.segs[i-1].off+s.segs[i-1].n > s.segs[i].off {
			panic(harnessErr{fmt.Errorf("image segments overlap at %d", s.segs[i].off)})
		}
	}
}

func (s *sparseImage) ReadAt(p []byte, off int64) (int, error) {
	if off < 0 {
		return 0, fs.ErrInvalid
	}
	if off >= s.size {
		return 0, io.EOF
	}
	n := len(p)
	if int64(n) > s.size-off {
		n = int(s.size - off)
	}
	q := p[:n]
	clear(q)
	i := sort.Search(len(s.segs), func(i int) bool { return s.segs[i].off+s.segs[i].n > off })
	for ; i < len(s.segs) && s.segs[i].off < off+int64(n); i++ {
		g := &s.segs[i]
		from := max(off, g.off)
		to := min(off+int64(n), g.off+g.n)
		if g.big != nil {
			g.big.fill(q[from-off:to-off], from-g.off)
		} else {
			copy(q[from-off:to-off], g.data[from-g.off:to-g.off])
		}
	}
	if n < len(p) || s.eof && off+int64(n) == s.size {
		return n, io.EOF
	}
	return n, nil
}

func (s *sparseImage) bytes() []byte {
	b := make([]byte, s.size)
	for _, g := range s.segs {
		if g.big != nil {
			g.big.fill(b[g.off:g.off+g.n], 0)
		} else {
			copy(b[g.off:], g.data)
		}
	}
	return b
}

func crc32c(b []byte, crc uint32) uint32 {
	for _, c := range b {
		crc ^= uint32(c)
		for i := 0; i < 8; i++ {
			if crc&1 != 0 {
				crc = crc>>1 ^ 0x82F63B78
			} else {
				crc >>= 1
			}
		}
	}
	return crc
}

type eroOpt struct {
	Bits     uint
	MetaBlk  int64
	Checksum bool
	BigAddr  bool // addresses and inode numbers beyond 32 bits of bytes
	BigMeta  bool
	Dense    bool // no gaps
	Build    time.Time
	Ext      bool // only extended inodes
	NoTypes  bool // the types of entries are only in their inodes
	Tight    bool // the data comes first and the image ends with an inode
}

func randEroOpt(r *rand.Rand) eroOpt {
	o := eroOpt{Bits: uint(9 + r.Intn(8)), Checksum: r.Intn(2) == 0, Dense: r.Intn(2) == 0}
	if r.Intn(3) == 0 {
		o.Bits = 12
	}
	switch r.Intn(3) {
	case 0:
		o.MetaBlk = 0
	case 1:
		o.MetaBlk = (1024+128-1)>>o.Bits + 1
	default:
		o.MetaBlk = int64(r.Intn(40))
	}
	o.NoTypes = r.Intn(8) == 0
	o.Build = time.Unix(1500000000+int64(r.Intn(1<<30)), int64(r.Intn(1000000000)))
	if r.Intn(6) == 0 {
		o.Build = time.Unix([]int64{0, 0, 1, -1, -1 << 31, 1<<31 - 1, 1 << 31, 1 << 32, 253402300799}[r.Intn(9)], o.Build.UnixNano()%1e9)
	}
	return o
}

type eroInode struct {
	n      *Node
	path   string
	parent *eroInode
	kids   []*eroInode
	names  map[*eroInode]string

	ext    bool
	inline bool
	nid    uint64
	off    int64
	body   []byte // file data, link target or directory blocks
	size   int64
	raw    uint32
	nlink  uint32
	ftype  uint8
	mtime  time.Time
}

// eroObj is the expectation for one path of a built image.
type eroObj struct {
	Nid   uint64
	Nlink uint32
	Size  int64
}

func eroType(m fs.FileMode) (uint16, uint8) {
	switch {
	case m.IsDir():
		return 0o040000, 2
	case m&fs.ModeSymlink != 0:
		return 0o120000, 7
	case m&fs.ModeCharDevice != 0:
		return 0o020000, 3
	case m&fs.ModeDevice != 0:
		return 0o060000, 4
	case m&fs.ModeNamedPipe != 0:
		return 0o010000, 5
	case m&fs.ModeSocket != 0:
		return 0o140000, 6
	default:
		return 0o100000, 1
	}
}

type ent struct {
	name  string
	ino   *eroInode
	ftype uint8
}

// splitDir distributes sorted entries over blocks. The result is the directory data with the entries'
// inode numbers filled in.
func splitDir(r *rand.Rand, ents []ent, bs int, dense bool) []byte {
	var blocks [][]ent
	var cur []ent
	used := 0
	limit := bs
	style := r.Intn(3)
	newLimit := func() {
		limit = bs
		if !dense && style > 0 {
			limit = bs/4 + r.Intn(bs-bs/4+1)
		}
	}
	newLimit()
	for _, e := range ents {
		need := 12 + len(e.name)
		if len(cur) > 0 && (used+need > limit || style == 2 && !dense && r.Intn(12) == 0) {
			blocks = append(blocks, cur)
			cur, used = nil, 0
			newLimit()
		}
		cur = append(cur, e)
		used += need
	}
	blocks = append(blocks, cur)
	var out []byte
	for i, blk := range blocks {
		off := 12 * len(blk)
		b := make([]byte, 0, bs)
		for _, e := range blk {
			var d [12]byte
			binary.LittleEndian.PutUint64(d[:], e.ino.nid)
			binary.LittleEndian.PutUint16(d[8:], uint16(off))
			d[10] = e.ftype
			off += len(e.name)
			b = append(b, d[:]...)
		}
		for _, e := range blk {
			b = append(b, e.name...)
		}
		if i < len(blocks)-1 {
			b = append(b, make([]byte, bs-len(b))...)
		} else if room := bs - len(b); room > 0 && !dense {
			switch r.Intn(4) {
			case 0:
				b = append(b, 0)
			case 1:
				b = append(b, make([]byte, r.Intn(room+1))...)
			case 2:
				b = append(b, make([]byte, room)...)
			}
		}
		out = append(out, b...)
	}
	return out
}

// buildEROFS stores the tree. Nodes with Hard set share the inode of another node. It returns the image,
// the expected tree (times of compact inodes replaced by the build time) and per-path raw expectations.
func buildEROFS(r *rand.Rand, t *Node, o eroOpt) (*sparseImage, *Node, map[string]eroObj) {
	bs := int64(1) << o.Bits
	want := t.clone()
	img := &sparseImage{}

	// Inodes.
	byNode := map[*Node]*eroInode{}
	var all []*eroInode
	orig := map[*Node]*Node{} // clone -> original, to follow Hard
	var pair func(a, b *Node)
	pair = func(a, b *Node) {
		orig[b] = a
		for i := range a.Kids {
			pair(a.Kids[i], b.Kids[i])
		}
	}
	pair(t, want)
	cloneOf := map[*Node]*Node{}
	for c, a := range orig {
		cloneOf[a] = c
	}
	var mk func(n *Node, p string, parent *eroInode) *eroInode
	mk = func(n *Node, p string, parent *eroInode) *eroInode {
		ino := &eroInode{n: n, path: p, parent: parent, names: map[*eroInode]string{}}
		byNode[n] = ino
		all = append(all, ino)
		for _, k := range n.Kids {
			if k.Hard != nil {
				continue
			}
			q := k.Name
			if p != "." {
				q = p + "/" + k.Name
			}
			mk(k, q, ino)
		}
		return ino
	}
	root := mk(want, ".", nil)
	root.parent = root

	// Attributes.
	for _, ino := range all {
		n := ino.n
		_, ino.ftype = eroType(n.Mode)
		ino.nlink = 1
		if n.IsDir() {
			ino.nlink = 2
			for _, k := range n.Kids {
				if k.IsDir() {
					ino.nlink++
				}
			}
		}
		switch {
		case n.IsLink():
			ino.body = []byte(n.Target)
		case n.IsReg():
			ino.body = n.Data
		}
		ino.size = int64(len(ino.body))
		if n.Big != nil {
			ino.size = n.Big.Len
		}
		ino.ext = r.Intn(2) == 0 || o.Ext || n.UID > 65535 || n.GID > 65535 || ino.size > 1<<32-1 || ino.nlink > 65535
		if n.MTime.IsZero() {
			n.MTime = time.Unix(0, 0)
		}
		if !ino.ext {
			n.MTime = o.Build
		}
	}
	want.each(func(p string, n *Node) {
		if n.Hard != nil {
			tgt := cloneOf[n.Hard]
			byNode[tgt].nlink++
			byNode[n] = byNode[tgt]
			n.Mode, n.MTime, n.UID, n.GID, n.Data, n.Target, n.Big = tgt.Mode, tgt.MTime, tgt.UID, tgt.GID, tgt.Data, tgt.Target, tgt.Big
		}
	})
	// A count of links is what is stored, also where the image doesn't hold all
	// of the links.
	for _, ino := range all {
		if !ino.n.IsDir() && r.Intn(8) == 0 {
			ino.nlink += uint32(r.Intn(1 << 15 << r.Intn(2)))
			if ino.ext {
				ino.nlink += r.Uint32() >> 1
			}
		}
	}

	// Directory sizes do not depend on inode numbers; use a forked generator so that the same split
	// is made once the numbers are known.
	dirSeed := map[*eroInode]int64{}
	dirBody := func(ino *eroInode) []byte {
		ents := []ent{{".", ino, 2}, {"..", ino.parent, 2}}
		for _, k := range ino.n.Kids {
			ents = append(ents, ent{k.Name, byNode[k], byNode[k].ftype})
		}
		if o.NoTypes {
			for i := range ents {
				ents[i].ftype = 0
			}
		}
		sort.Slice(ents, func(i, j int) bool { return ents[i].name < ents[j].name })
		return splitDir(rand.New(rand.NewSource(dirSeed[ino])), ents, int(bs), o.Dense)
	}
	for _, ino := range all {
		if ino.n.IsDir() {
			dirSeed[ino] = r.Int63()
			ino.body = dirBody(ino)
			ino.size = int64(len(ino.body))
		}
	}

	// Place inodes in the metadata area.
	order := append([]*eroInode{}, all...)
	r.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
	for i, ino := range order {
		if ino == root { // its number has only 16 bits
			j := r.Intn(min(len(order), 20))
			order[i], order[j] = order[j], order[i]
			break
		}
	}
	if o.Tight {
		o.MetaBlk = (1024+128+bs-1)>>o.Bits + 1
		for _, ino := range all {
			o.MetaBlk += (ino.size + bs - 1) >> o.Bits
		}
	}
	meta := o.MetaBlk << o.Bits
	pos := meta
	if r.Intn(2) == 0 && !o.Dense {
		pos += 32 * int64(r.Intn(20))
	}
	sbEnd := int64(1024 + 128)
	place := func(need int64) int64 {
		// inode and inline tail stay within one block, and clear of the superblock
		for {
			if pos < sbEnd && pos+need > 1024 {
				pos = sbEnd
			}
			if pos/bs != (pos+need-1)/bs && need <= bs {
				pos = (pos/bs + 1) * bs
				continue
			}
			if pos < sbEnd && pos+need > 1024 {
				continue
			}
			break
		}
		at := pos
		pos = (pos + need + 31) &^ 31
		return at
	}
	// The checksum of small blocks covers what follows the superblock; nothing special is needed as the
	// checksum is computed last.
	for i, ino := range order {
		isz := int64(32)
		if ino.ext {
			isz = 64
		}
		tail := ino.size & (bs - 1)
		ino.inline = tail != 0 && isz+tail <= bs && ino.n.Big == nil && r.Intn(3) > 0
		need := isz
		if o.Tight && i == len(order)-1 && (isz+tail)%32 != 0 {
			ino.inline = false
		}
		if ino.inline {
			need += tail
		}
		if o.Tight && i == len(order)-1 { // the end of a block is the end of the image
			pos = (pos+need+bs-1)&^(bs-1) - need
		}
		if at := (pos - meta) >> 5; ino == root && !o.Dense && !o.Tight && at < 65000 && r.Intn(4) == 0 {
			pos += 32 * int64(r.Intn(int(65000-at))) // far from the start
		}
		ino.off = place(need)
		ino.nid = uint64(ino.off-meta) >> 5
		if ino == root && ino.nid > 65535 {
			panic(harnessErr{fmt.Errorf("root inode number too large")})
		}
		if !o.Dense && r.Intn(6) == 0 {
			pos += 32 * int64(r.Intn(40))
		}
		if o.BigMeta && i == len(order)/2 && ino != root {
			done := true
			for _, x := range order[i+1:] {
				if x == root {
					done = false
				}
			}
			if done {
				pos += []int64{5 << 32, 5 << 32, 1 << 38}[r.Intn(3)] // inode numbers beyond 2^29 or 2^32, offsets beyond 2^32
				pos = (pos + bs - 1) &^ (bs - 1)
			}
		}
	}
	metaEnd := (pos + bs - 1) &^ (bs - 1)

	// Place data extents: before the metadata area when there is room, and after it, in any order.
	firstFree := (sbEnd + bs - 1) >> o.Bits
	beforePos := firstFree
	afterPos := max(metaEnd>>o.Bits, firstFree)
	if o.BigAddr {
		afterPos = max(afterPos, 1<<31+int64(r.Intn(1<<20)))
	}
	// Small blocks leave room before the superblock as well.
	bootPos, bootEnd := int64(0), int64(1024)>>o.Bits
	if o.MetaBlk < bootEnd {
		bootEnd = 0
	}
	dord := append([]*eroInode{}, all...)
	r.Shuffle(len(dord), func(i, j int) { dord[i], dord[j] = dord[j], dord[i] })
	for _, ino := range dord {
		n := ino.size
		if ino.inline {
			n = ino.size &^ (bs - 1)
		}
		blocks := (n + bs - 1) >> o.Bits
		if blocks == 0 {
			switch r.Intn(3) {
			case 0:
				ino.raw = 0xffffffff
			case 1:
				ino.raw = uint32(r.Intn(1000))
			}
			if t, _ := eroType(ino.n.Mode); t == 0o020000 || t == 0o060000 {
				ino.raw = r.Uint32() // device number
			}
			continue
		}
		if bootPos+blocks <= bootEnd && r.Intn(2) == 0 {
			ino.raw = uint32(bootPos)
			bootPos += blocks
			continue
		}
		if beforePos+blocks <= o.MetaBlk && (o.Tight || r.Intn(2) == 0) {
			ino.raw = uint32(beforePos)
			beforePos += blocks
			continue
		}
		if !o.Dense && r.Intn(4) == 0 {
			afterPos += int64(r.Intn(5))
		}
		ino.raw = uint32(afterPos)
		afterPos += blocks
	}

	// Emit.
	put := func(off int64, b []byte) { img.put(off, b) }
	exp := map[string]eroObj{}
	endBlk := max(afterPos, metaEnd>>o.Bits, firstFree)
	for _, ino := range all {
		n := ino.n
		if n.IsDir() {
			ino.body = dirBody(ino)
		}
		tm, _ := eroType(n.Mode)
		mode := tm | uint16(unixMode(n.Mode))
		format := uint16(0)
		if ino.inline {
			format |= 2 << 1
		}
		var b []byte
		ino32 := uint32(r.Uint32())
		if ino.ext {
			b = make([]byte, 64)
			le := binary.LittleEndian
			le.PutUint16(b[0:], format|1)
			le.PutUint16(b[4:], mode)
			le.PutUint64(b[8:], uint64(ino.size))
			le.PutUint32(b[16:], ino.raw)
			le.PutUint32(b[20:], ino32)
			le.PutUint32(b[24:], uint32(n.UID))
			le.PutUint32(b[28:], uint32(n.GID))
			le.PutUint64(b[32:], uint64(n.MTime.Unix()))
			le.PutUint32(b[40:], uint32(n.MTime.Nanosecond()))
			le.PutUint32(b[44:], ino.nlink)
		} else {
			b = make([]byte, 32)
			le := binary.LittleEndian
			le.PutUint16(b[0:], format)
			le.PutUint16(b[4:], mode)
			le.PutUint16(b[6:], uint16(ino.nlink))
			le.PutUint32(b[8:], uint32(ino.size))
			le.PutUint32(b[16:], ino.raw)
			le.PutUint32(b[20:], ino32)
			le.PutUint16(b[24:], uint16(n.UID))
			le.PutUint16(b[26:], uint16(n.GID))
		}
		full := ino.body
		if ino.inline {
			cut := int64(len(ino.body)) &^ (bs - 1)
			b = append(b, ino.body[cut:]...)
			full = ino.body[:cut]
		}
		put(ino.off, b)
		if n.Big != nil {
			img.putBig(int64(ino.raw)<<o.Bits, n.Big)
		} else if len(full) > 0 {
			put(int64(ino.raw)<<o.Bits, full)
		}
	}
	want.each(func(p string, n *Node) {
		i := byNode[n]
		exp[p] = eroObj{Nid: i.nid, Nlink: i.nlink, Size: i.size}
	})

	sb := make([]byte, 128)
	le := binary.LittleEndian
	le.PutUint32(sb[0:], 0xE0F5E1E2)
	compat := uint32(0)
	if o.Checksum {
		compat |= 1
	}
	if r.Intn(2) == 0 {
		compat |= 2 // mtime
	}
	le.PutUint32(sb[8:], compat)
	sb[12] = byte(o.Bits)
	le.PutUint16(sb[14:], uint16(root.nid))
	le.PutUint64(sb[16:], uint64(len(all)))
	le.PutUint64(sb[24:], uint64(o.Build.Unix()))
	le.PutUint32(sb[32:], uint32(o.Build.Nanosecond()))
	le.PutUint32(sb[36:], uint32(endBlk))
	le.PutUint32(sb[40:], uint32(o.MetaBlk))
	r.Read(sb[48:64])
	copy(sb[64:80], "harness")
	img.put(1024, sb)
	img.size = max(img.size, endBlk<<o.Bits)
	img.sort()
	if o.Checksum {
		end := (1024 + 128 + bs - 1) &^ (bs - 1)
		blk := make([]byte, end-1024)
		_, err := img.ReadAt(blk, 1024)
		if err != nil && err != io.EOF {
			panic(harnessErr{err})
		}
		le.PutUint32(sb[4:], crc32c(blk, 0xffffffff))
	} else {
		le.PutUint32(sb[4:], r.Uint32())
	}
	return img, want, exp
}

// addHardAndSpecial adds hard links and device, pipe and socket inodes to a tree.
func addHardAndSpecial(r *rand.Rand, t *Node) {
	var files, dirs []*Node
	t.each(func(_ string, n *Node) {
		if n.IsDir() {
			dirs = append(dirs, n)
		} else {
			files = append(files, n)
		}
	})
	for i := r.Intn(4); i > 0 && len(files) > 0; i-- {
		d := dirs[r.Intn(len(dirs))]
		name := fmt.Sprintf("hl%d", r.Intn(100))
		if d.kid(name) == nil {
			d.Kids = append(d.Kids, &Node{Name: name, Hard: files[r.Intn(len(files))], Mode: files[0].Mode})
		}
	}
	for i := r.Intn(4); i > 0; i-- {
		d := dirs[r.Intn(len(dirs))]
		name := fmt.Sprintf("dev%d", r.Intn(100))
		if d.kid(name) == nil {
			ty := []fs.FileMode{fs.ModeDevice, fs.ModeDevice | fs.ModeCharDevice, fs.ModeNamedPipe, fs.ModeSocket}[r.Intn(4)]
			d.Kids = append(d.Kids, &Node{Name: name, Mode: ty | fs.FileMode(r.Intn(0o1000)), MTime: time.Unix(int64(r.Intn(1<<31)), 7)})
		}
	}
	t.sort()
}
