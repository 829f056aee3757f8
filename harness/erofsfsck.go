package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"io/fs"
	"sort"
	"time"
)

// An independent checker and reader of uncompressed EROFS images, written from the on-disk format.

type fsck struct {
	src    io.ReaderAt
	size   int64 // of the image, -1 if unknown
	bits   uint
	bs     int64
	meta   int64
	blocks int64
	build  time.Time
	probs  []string

	inodes  map[uint64]*fino
	extents []extent
	refs    map[uint64]int
	slots   int64
	dirents int64
}

type fino struct {
	nid    uint64
	off    int64
	isz    int64
	mode   uint16
	size   int64
	raw    uint32
	inline bool
	nlink  uint32
	uid    uint32
	gid    uint32
	mtime  time.Time
	ftype  uint8
}

type extent struct {
	off, n int64
	what   string
}

func (f *fsck) bad(format string, args ...any) {
	if len(f.probs) < 12 {
		f.probs = append(f.probs, fmt.Sprintf(format, args...))
	}
}

func (f *fsck) read(off, n int64) ([]byte, bool) {
	b := make([]byte, n)
	k, err := f.src.ReadAt(b, off)
	if int64(k) < n {
		f.bad("image ends inside [%d,%d): %v", off, off+n, err)
		return nil, false
	}
	return b, true
}

// runFsck checks the image and returns the tree it stores. size is the image length (-1: padding of the
// last block may be missing).
func runFsck(src io.ReaderAt, size int64) (*Node, *fsck) {
	f := &fsck{src: src, size: size, inodes: map[uint64]*fino{}, refs: map[uint64]int{}}
	sb, ok := f.read(1024, 128)
	if !ok {
		return nil, f
	}
	le := binary.LittleEndian
	if m := le.Uint32(sb); m != 0xE0F5E1E2 {
		f.bad("magic is %#x", m)
		return nil, f
	}
	f.bits = uint(sb[12])
	if f.bits < 9 || f.bits > 16 {
		f.bad("block size bits is %d", f.bits)
		return nil, f
	}
	f.bs = 1 << f.bits
	f.blocks = int64(le.Uint32(sb[36:]))
	f.meta = int64(le.Uint32(sb[40:])) << f.bits
	f.build = time.Unix(int64(le.Uint64(sb[24:])), int64(le.Uint32(sb[32:])))
	if v := le.Uint32(sb[80:]); v != 0 {
		f.bad("incompatible features %#x", v)
	}
	if size >= 0 && f.blocks*f.bs != size {
		f.bad("superblock has %d blocks of %d bytes, image has %d bytes", f.blocks, f.bs, size)
	}
	// Checksum of the superblock's block (with the checksum field zero).
	end := (1024 + 128 + f.bs - 1) &^ (f.bs - 1)
	blk := make([]byte, end-1024)
	if n, _ := src.ReadAt(blk, 1024); n < 128 {
		f.bad("short superblock")
	}
	want := le.Uint32(blk[4:])
	copy(blk[4:8], []byte{0, 0, 0, 0})
	if got := crc32c(blk, 0xffffffff); got != want {
		f.bad("superblock checksum is %#x, computed %#x", want, got)
	}
	f.extents = append(f.extents, extent{0, 1024 + 128, "superblock"})

	rootNid := uint64(le.Uint16(sb[14:]))
	root := f.inode(rootNid, "root")
	if root == nil {
		return nil, f
	}
	if root.ftype != 2 {
		f.bad("root is not a directory (mode %o)", root.mode)
		return nil, f
	}
	f.refs[rootNid]++
	tree := f.toNode(root, ".")
	f.dir(root, root, ".", tree, 0)

	if n := le.Uint64(sb[16:]); n != uint64(len(f.inodes)) {
		f.bad("superblock counts %d inodes, %d are reachable", n, len(f.inodes))
	}
	for nid, n := range f.refs {
		if n != 1 {
			f.bad("inode %d is referenced %d times", nid, n)
		}
	}
	sort.Slice(f.extents, func(i, j int) bool { return f.extents[i].off < f.extents[j].off })
	for i, e := range f.extents {
		if f.blocks > 0 && e.off+e.n > f.blocks*f.bs {
			f.bad("%s at [%d,%d) is outside the %d blocks of the image", e.what, e.off, e.off+e.n, f.blocks)
		}
		if i > 0 {
			p := f.extents[i-1]
			if p.off+p.n > e.off {
				f.bad("%s at [%d,%d) overlaps %s at [%d,%d)", p.what, p.off, p.off+p.n, e.what, e.off, e.off+e.n)
			}
		}
	}
	return tree, f
}

func (f *fsck) inode(nid uint64, what string) *fino {
	off := f.meta + int64(nid)*32
	h, ok := f.read(off, 32)
	if !ok {
		return nil
	}
	le := binary.LittleEndian
	format := le.Uint16(h)
	i := &fino{nid: nid, off: off, isz: 32}
	if format&1 == 1 {
		i.isz = 64
		if h, ok = f.read(off, 64); !ok {
			return nil
		}
	}
	if format>>4 != 0 {
		f.bad("inode of %s: reserved format bits %#x", what, format)
	}
	switch format >> 1 & 7 {
	case 0:
	case 2:
		i.inline = true
	default:
		f.bad("inode of %s: data layout %d", what, format>>1&7)
		return nil
	}
	if x := le.Uint16(h[2:]); x != 0 {
		f.bad("inode of %s: xattr count %d", what, x)
	}
	i.mode = le.Uint16(h[4:])
	i.raw = le.Uint32(h[16:])
	if i.isz == 64 {
		i.size = int64(le.Uint64(h[8:]))
		i.uid, i.gid = le.Uint32(h[24:]), le.Uint32(h[28:])
		i.mtime = time.Unix(int64(le.Uint64(h[32:])), int64(le.Uint32(h[40:])))
		if ns := le.Uint32(h[40:]); ns >= 1000000000 {
			f.bad("inode of %s: %d nanoseconds", what, ns)
		}
		i.nlink = le.Uint32(h[44:])
	} else {
		i.size = int64(le.Uint32(h[8:]))
		i.uid, i.gid = uint32(le.Uint16(h[24:])), uint32(le.Uint16(h[26:]))
		i.mtime = f.build
		i.nlink = uint32(le.Uint16(h[6:]))
	}
	if i.size < 0 {
		f.bad("inode of %s: size %d", what, i.size)
		return nil
	}
	if i.nlink == 0 {
		f.bad("inode of %s: link count 0", what)
	}
	switch i.mode & 0o170000 {
	case 0o100000:
		i.ftype = 1
	case 0o040000:
		i.ftype = 2
	case 0o120000:
		i.ftype = 7
	default:
		f.bad("inode of %s: mode %o", what, i.mode)
		return nil
	}
	tail := i.size & (f.bs - 1)
	full := i.size
	n := i.isz
	if i.inline {
		if tail == 0 {
			f.bad("inode of %s: inline layout without a tail (size %d)", what, i.size)
		}
		if off/f.bs != (off+i.isz+tail-1)/f.bs && tail > 0 {
			f.bad("inode of %s: inline tail of %d bytes crosses the block of its inode at %d", what, tail, off)
		}
		full -= tail
		n += tail
	}
	if old := f.inodes[nid]; old == nil {
		f.inodes[nid] = i
		f.slots += (n + 31) / 32
		f.extents = append(f.extents, extent{off, n, "inode of " + what})
		if full > 0 {
			f.extents = append(f.extents, extent{int64(i.raw) << f.bits, (full + f.bs - 1) &^ (f.bs - 1), "data of " + what})
		}
	}
	return i
}

func (f *fsck) data(i *fino, what string) ([]byte, bool) {
	if i.size > 1<<30 {
		return nil, false
	}
	full := i.size
	tail := int64(0)
	if i.inline {
		tail = i.size & (f.bs - 1)
		full -= tail
	}
	b, ok := f.read(int64(i.raw)<<f.bits, full)
	if !ok && full > 0 {
		return nil, false
	}
	if i.inline {
		t, ok := f.read(i.off+i.isz, tail)
		if !ok {
			return nil, false
		}
		b = append(b, t...)
	}
	return b, true
}

func (f *fsck) toNode(i *fino, name string) *Node {
	n := &Node{Name: name, UID: int(i.uid), GID: int(i.gid), MTime: i.mtime, Mode: goMode(int64(i.mode & 0o7777))}
	switch i.ftype {
	case 2:
		n.Mode |= fs.ModeDir
	case 7:
		n.Mode |= fs.ModeSymlink
	}
	return n
}

func (f *fsck) dir(i, parent *fino, p string, n *Node, depth int) {
	if depth > 500 {
		f.bad("directories nested too deeply at %q", p)
		return
	}
	b, ok := f.data(i, p)
	if !ok {
		f.bad("data of directory %q is not readable", p)
		return
	}
	prev := []byte(nil)
	dot, dotdot, subdirs := false, false, uint32(0)
	for base := int64(0); base < int64(len(b)); base += f.bs {
		blk := b[base:min(base+f.bs, int64(len(b)))]
		if len(blk) < 12 {
			f.bad("directory %q: block of %d bytes", p, len(blk))
			return
		}
		le := binary.LittleEndian
		off0 := int(le.Uint16(blk[8:]))
		if off0 < 12 || off0%12 != 0 || off0 >= len(blk) {
			f.bad("directory %q: first name offset %d in a block of %d bytes", p, off0, len(blk))
			return
		}
		cnt := off0 / 12
		at := off0
		for k := 0; k < cnt; k++ {
			d := blk[12*k:]
			nid := le.Uint64(d)
			off := int(le.Uint16(d[8:]))
			ft := d[10]
			if off != at {
				f.bad("directory %q: entry %d has name offset %d, want %d", p, k, off, at)
			}
			end := len(blk)
			if k+1 < cnt {
				end = int(le.Uint16(blk[12*(k+1)+8:]))
			}
			if off > end || end > len(blk) || off < off0 {
				f.bad("directory %q: entry %d has name range [%d,%d)", p, k, off, end)
				return
			}
			name := blk[off:end]
			if k+1 == cnt {
				if z := bytes.IndexByte(name, 0); z >= 0 {
					for _, c := range name[z:] {
						if c != 0 {
							f.bad("directory %q: garbage after the last name", p)
							break
						}
					}
					name = name[:z]
				}
			}
			at = end
			f.dirents++
			if len(name) == 0 || len(name) > 255 || bytes.ContainsAny(name, "\x00/") {
				f.bad("directory %q: bad name %q", p, name)
				continue
			}
			if prev != nil && bytes.Compare(prev, name) >= 0 {
				f.bad("directory %q: %q is not after %q", p, name, prev)
			}
			prev = append([]byte{}, name...)
			switch string(name) {
			case ".":
				dot = true
				if nid != i.nid || ft != 2 {
					f.bad("directory %q: '.' is inode %d type %d, the directory is %d", p, nid, ft, i.nid)
				}
				continue
			case "..":
				dotdot = true
				if nid != parent.nid || ft != 2 {
					f.bad("directory %q: '..' is inode %d type %d, the parent is %d", p, nid, ft, parent.nid)
				}
				continue
			}
			q := string(name)
			if p != "." {
				q = p + "/" + q
			}
			f.refs[nid]++
			if f.refs[nid] > 3 {
				f.bad("inode %d is referenced repeatedly", nid)
				continue
			}
			c := f.inode(nid, fmt.Sprintf("%.60q", q))
			if c == nil {
				f.bad("entry %q has no inode", q)
				continue
			}
			if c.ftype != ft {
				f.bad("entry %q has type %d, its inode is of type %d", q, ft, c.ftype)
			}
			kn := f.toNode(c, string(name))
			n.Kids = append(n.Kids, kn)
			if c.ftype != 2 && c.nlink != 1 {
				f.bad("entry %q is the only one of its inode, the link count is %d", q, c.nlink)
			}
			switch c.ftype {
			case 2:
				subdirs++
				f.dir(c, i, q, kn, depth+1)
			case 7:
				t, _ := f.data(c, q)
				kn.Target = string(t)
				if len(t) >= int(f.bs) {
					f.bad("symlink %q is %d bytes long", q, len(t))
				}
			default:
				if c.size <= 64<<20 {
					kn.Data, _ = f.data(c, q)
				} else {
					kn.Big = &bigData{Len: c.size}
				}
			}
		}
	}
	if !dot || !dotdot {
		f.bad("directory %q: entries '.' and '..' present: %v, %v", p, dot, dotdot)
	}
	if i.nlink != 2+subdirs {
		f.bad("directory %q: %d subdirectories, but link count %d", p, subdirs, i.nlink)
	}
}

// sameTree compares two abstract trees (expected first).
func sameTree(want, got *Node, o cmpOpt) []string {
	s := &Snap{M: map[string]*Obs{}}
	got.each(func(p string, n *Node) {
		ob := &Obs{Mode: n.Mode, Size: n.Size(), MTime: n.MTime, UID: int64(n.UID), GID: int64(n.GID), HasOwner: true, Target: n.Target, Data: n.Data, Xattr: n.Xattr}
		if n.IsLink() {
			ob.Size = int64(len(n.Target))
		}
		s.M[p] = ob
	})
	return compare(s, want, o)
}
