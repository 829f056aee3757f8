package main

import (
	"archive/tar"
	"bytes"
	"crypto/sha256"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/dpeckett/archivefs"
	"github.com/dpeckett/archivefs/arfs"
	"github.com/dpeckett/archivefs/erofs"
)

// Obs is what was observed of one object through all views of a filesystem.
type Obs struct {
	Mode     fs.FileMode
	Size     int64
	MTime    time.Time
	UID, GID int64
	HasOwner bool
	Xattr    map[string]string
	Target   string
	Data     []byte
	Sum      [32]byte
	Kids     []string
	DataErr  string
}

type Snap struct {
	M        map[string]*Obs
	Problems []string // disagreements between views, unsafe names, errors
	Ops      int64
	Bytes    int64
	cut      bool
}

func (s *Snap) bad(format string, args ...any) {
	if len(s.Problems) < 10 {
		s.Problems = append(s.Problems, fmt.Sprintf(format, args...))
	}
}

type snapOpt struct {
	rng        *rand.Rand
	maxNodes   int
	noNegative bool  // skip looking for missing names
	maxFile    int64 // give up reading a file after that many bytes more than its size
	light      bool  // only listings, info and contents
	tolerate   bool  // errors of operations are expected (recorded, not problems)
}

func ownerOf(fi fs.FileInfo) (uid, gid int64, ok bool, xattr map[string]string) {
	switch s := fi.Sys().(type) {
	case *tar.Header:
		for k, v := range s.PAXRecords {
			if strings.HasPrefix(k, "SCHILY.xattr.") {
				if xattr == nil {
					xattr = map[string]string{}
				}
				xattr[strings.TrimPrefix(k, "SCHILY.xattr.")] = v
			}
		}
		return int64(s.Uid), int64(s.Gid), true, xattr
	case *erofs.Inode:
		return int64(s.UID()), int64(s.GID()), true, nil
	case *arfs.Entry:
		return s.Uid, s.Gid, true, nil
	case *syscall.Stat_t:
		return int64(s.Uid), int64(s.Gid), true, nil
	}
	return 0, 0, false, nil
}

// readStyled reads to the end with one of several calling patterns and checks the Reader contract.
func readStyled(f io.Reader, style int, r *rand.Rand, limit int64) (data []byte, err error, problem string) {
	if style == 0 {
		data, err = io.ReadAll(io.LimitReader(f, limit+1))
		if int64(len(data)) > limit {
			return data[:limit], nil, fmt.Sprintf("delivers more than %d bytes", limit)
		}
		if err == nil {
			if n, e := f.Read(make([]byte, 16)); n != 0 || e != io.EOF {
				return data, e, fmt.Sprintf("read after end returns (%d, %v)", n, e)
			}
		}
		return data, err, ""
	}
	idle := 0
	buf := make([]byte, 70000)
	for {
		var n int
		switch style {
		case 1:
			n = 1
			if len(data) > 300 {
				n = 1 + r.Intn(4096)
			}
		case 2:
			n = 1 + r.Intn(700)
		case 3:
			n = 512
		case 4:
			n = 65536
		default:
			n = []int{0, 1, 511, 512, 513, 4095, 4096, 4097, 32768}[r.Intn(9)]
		}
		p := buf[:n]
		for i := range p {
			p[i] = 0xEE
		}
		k, e := f.Read(p)
		if k < 0 || k > n {
			return data, e, fmt.Sprintf("Read of %d bytes returned %d", n, k)
		}
		data = append(data, p[:k]...)
		if int64(len(data)) > limit {
			return data[:limit], nil, fmt.Sprintf("delivers more than %d bytes", limit)
		}
		if e == io.EOF {
			if n, e := f.Read(make([]byte, 16)); n != 0 || e != io.EOF {
				return data, e, fmt.Sprintf("read after end returns (%d, %v)", n, e)
			}
			return data, nil, ""
		}
		if e != nil {
			return data, e, ""
		}
		if k == 0 && n > 0 {
			if idle++; idle > 200 {
				return data, nil, "reads make no progress"
			}
		} else if k > 0 {
			idle = 0
		}
	}
}

func snapshot(fsys fs.FS, o snapOpt) *Snap {
	if o.rng == nil {
		o.rng = rand.New(rand.NewSource(7))
	}
	if o.maxNodes == 0 {
		o.maxNodes = 200000
	}
	if o.maxFile == 0 {
		o.maxFile = 64 << 20
	}
	s := &Snap{M: map[string]*Obs{}}
	s.dir(fsys, ".", nil, 0, &o)
	return s
}

func eqInfo(a, b fs.FileInfo) string {
	switch {
	case a.Mode() != b.Mode():
		return fmt.Sprintf("mode %v / %v", a.Mode(), b.Mode())
	case a.Size() != b.Size():
		return fmt.Sprintf("size %d / %d", a.Size(), b.Size())
	case !a.ModTime().Equal(b.ModTime()):
		return fmt.Sprintf("mtime %v / %v", a.ModTime(), b.ModTime())
	case a.IsDir() != b.IsDir():
		return fmt.Sprintf("isdir %v / %v", a.IsDir(), b.IsDir())
	}
	return ""
}

func (s *Snap) dir(fsys fs.FS, p string, fi fs.FileInfo, depth int, o *snapOpt) {
	if depth > 400 || len(s.M) > o.maxNodes {
		s.cut = true
		return
	}
	ob := &Obs{}
	s.M[p] = ob
	if fi == nil { // root
		var err error
		fi, err = fs.Stat(fsys, p)
		s.Ops++
		if err != nil {
			ob.DataErr = err.Error()
			if !o.tolerate {
				s.bad("stat of root: %v", err)
			}
			return
		}
		if !fi.IsDir() || !fi.Mode().IsDir() {
			s.bad("root is not a directory: %v", fi.Mode())
		}
		s.openStat(fsys, p, fi, ob, o)
	}
	s.record(ob, fi)
	ents, err := fs.ReadDir(fsys, p)
	s.Ops++
	if err != nil {
		ob.DataErr = err.Error()
		if !o.tolerate {
			s.bad("readdir %q: %v", p, err)
		}
		return
	}
	prev := ""
	seen := map[string]bool{}
	for i, e := range ents {
		name := e.Name()
		if !safeName(name) {
			s.bad("listing of %q has unsafe name %q", p, name)
			continue
		}
		if seen[name] {
			s.bad("listing of %q has %q twice", p, name)
			continue
		}
		seen[name] = true
		if i > 0 && name <= prev {
			s.bad("listing of %q is not sorted: %q after %q", p, name, prev)
		}
		prev = name
		ob.Kids = append(ob.Kids, name)
		q := name
		if p != "." {
			q = p + "/" + name
		}
		s.entry(fsys, q, e, depth, o)
		if len(s.M) > o.maxNodes {
			s.cut = true
			return
		}
	}
	if !o.noNegative && !o.light {
		s.negative(fsys, p, seen, o)
	}
}

func (s *Snap) record(ob *Obs, fi fs.FileInfo) {
	ob.Mode, ob.Size, ob.MTime = fi.Mode(), fi.Size(), fi.ModTime()
	ob.UID, ob.GID, ob.HasOwner, ob.Xattr = ownerOf(fi)
}

func (s *Snap) openStat(fsys fs.FS, q string, fi fs.FileInfo, ob *Obs, o *snapOpt) {
	f, err := fsys.Open(q)
	s.Ops++
	if err != nil {
		ob.DataErr = err.Error()
		if !o.tolerate {
			s.bad("open %q: %v", q, err)
		}
		return
	}
	defer f.Close()
	fi2, err := f.Stat()
	if err != nil {
		if !o.tolerate {
			s.bad("stat of opened %q: %v", q, err)
		}
	} else if d := eqInfo(fi, fi2); d != "" {
		s.bad("info and opened file of %q disagree: %s", q, d)
	} else if q != "." && fi2.Name() != path.Base(q) {
		s.bad("opened file %q is called %q", q, fi2.Name())
	}
	if !fi.Mode().IsRegular() {
		return
	}
	limit := fi.Size() + 65536
	if limit > o.maxFile || limit < 0 {
		limit = o.maxFile
	}
	style := o.rng.Intn(6)
	data, err, prob := readStyled(f, style, o.rng, limit)
	s.Bytes += int64(len(data))
	s.Ops++
	if prob != "" && !(o.tolerate && strings.HasPrefix(prob, "delivers more") && fi.Size() > o.maxFile-65536) {
		s.bad("%q (read style %d): %s", q, style, prob)
	}
	ob.Data = data
	ob.Sum = sha256.Sum256(data)
	if err != nil {
		ob.DataErr = err.Error()
		if !o.tolerate {
			s.bad("read %q: %v", q, err)
		}
	} else if prob == "" && int64(len(data)) != fi.Size() {
		s.bad("%q has size %d but delivers %d bytes and ends cleanly", q, fi.Size(), len(data))
	}
	if fi3, err := f.Stat(); err == nil && fi3.Size() != fi.Size() {
		s.bad("%q: size reported by the open file changed from %d to %d by reading", q, fi.Size(), fi3.Size())
	}
}

func (s *Snap) entry(fsys fs.FS, q string, e fs.DirEntry, depth int, o *snapOpt) {
	name := e.Name()
	fi, err := e.Info()
	s.Ops++
	if err != nil {
		ob := &Obs{DataErr: err.Error()}
		s.M[q] = ob
		if !o.tolerate {
			s.bad("info of listed %q: %v", q, err)
		}
		return
	}
	if fi.Name() != name {
		s.bad("info of %q is called %q", q, fi.Name())
	}
	if e.IsDir() != fi.IsDir() || fi.IsDir() != fi.Mode().IsDir() {
		if !o.tolerate {
			s.bad("entry and info of %q disagree on being a directory", q)
		}
	}
	if e.Type()&fs.ModeType != fi.Mode()&fs.ModeType && !o.tolerate {
		s.bad("entry and info of %q disagree on the type: %v / %v", q, e.Type()&fs.ModeType, fi.Mode()&fs.ModeType)
	}
	link := fi.Mode()&fs.ModeSymlink != 0
	lfs, isLink := fsys.(archivefs.ReadLinkFS)
	if isLink && !o.light {
		li, err := lfs.StatLink(q)
		s.Ops++
		if err != nil {
			if !o.tolerate {
				s.bad("statlink %q: %v", q, err)
			}
		} else {
			if d := eqInfo(fi, li); d != "" {
				s.bad("info and statlink of %q disagree: %s", q, d)
			}
			if li.Name() != name {
				s.bad("statlink %q is called %q", q, li.Name())
			}
		}
	}
	if fi.IsDir() {
		if !o.light {
			s.stat(fsys, q, fi, o)
			tmp := &Obs{}
			s.openStat(fsys, q, fi, tmp, o)
		}
		s.dir(fsys, q, fi, depth+1, o)
		return
	}
	ob := &Obs{}
	s.M[q] = ob
	s.record(ob, fi)
	if isLink {
		t, err := lfs.ReadLink(q)
		s.Ops++
		switch {
		case link && err != nil:
			ob.DataErr = err.Error()
			if !o.tolerate {
				s.bad("readlink %q: %v", q, err)
			}
		case link:
			ob.Target = t
		case err == nil:
			s.bad("readlink of %q (%v) succeeds: %q", q, fi.Mode(), t)
		}
	}
	if link {
		return
	}
	if !o.light {
		s.stat(fsys, q, fi, o)
	}
	s.openStat(fsys, q, fi, ob, o)
	if !o.light && o.rng.Intn(3) == 0 {
		s.Ops++
		if _, err := fs.ReadDir(fsys, q); err == nil {
			s.bad("listing of %q (%v) succeeds", q, fi.Mode())
		}
	}
}

func (s *Snap) stat(fsys fs.FS, q string, fi fs.FileInfo, o *snapOpt) {
	si, err := fs.Stat(fsys, q)
	s.Ops++
	if err != nil {
		if !o.tolerate {
			s.bad("stat %q: %v", q, err)
		}
		return
	}
	if d := eqInfo(fi, si); d != "" {
		s.bad("info and stat of %q disagree: %s", q, d)
	}
	if si.Name() != path.Base(q) {
		s.bad("stat %q is called %q", q, si.Name())
	}
	if u1, g1, ok1, _ := ownerOf(fi); ok1 {
		if u2, g2, ok2, _ := ownerOf(si); !ok2 || u1 != u2 || g1 != g2 {
			s.bad("info and stat of %q disagree on the owner", q)
		}
	}
}

// negative looks for names that are not listed, especially neighbours of listed ones.
func (s *Snap) negative(fsys fs.FS, p string, seen map[string]bool, o *snapOpt) {
	var names []string
	for n := range seen {
		names = append(names, n)
		if len(names) > 400 {
			break
		}
	}
	sort.Strings(names)
	cand := []string{"absent", "!", "~~~", "zzzz", "...", "-", "\u00ff"}
	for i := 0; i < 4 && len(names) > 0; i++ {
		n := names[o.rng.Intn(len(names))]
		cand = append(cand, n+"x", n+" ", n[:len(n)-1], strings.ToUpper(n), "."+n, n+".", n+"\x01")
	}
	lfs, isLink := fsys.(archivefs.ReadLinkFS)
	for _, c := range cand {
		if !okName(c) || seen[c] || len(c) > 255 {
			continue
		}
		q := c
		if p != "." {
			q = p + "/" + c
		}
		valid := fs.ValidPath(q)
		s.Ops++
		if f, err := fsys.Open(q); err == nil {
			f.Close()
			s.bad("%q is not listed but opens", q)
		} else if valid && !o.tolerate && !errors.Is(err, fs.ErrNotExist) {
			s.bad("open of missing %q: %v is not a not-exist error", q, err)
		}
		if _, err := fs.Stat(fsys, q); err == nil {
			s.bad("%q is not listed but stat succeeds", q)
		} else if valid && !o.tolerate && !errors.Is(err, fs.ErrNotExist) {
			s.bad("stat of missing %q: %v is not a not-exist error", q, err)
		}
		if isLink {
			if _, err := lfs.StatLink(q); err == nil {
				s.bad("%q is not listed but statlink succeeds", q)
			} else if valid && !o.tolerate && !errors.Is(err, fs.ErrNotExist) {
				s.bad("statlink of missing %q: %v is not a not-exist error", q, err)
			}
			if _, err := lfs.ReadLink(q); err == nil {
				s.bad("%q is not listed but readlink succeeds", q)
			}
		}
		if _, err := fs.ReadDir(fsys, q); err == nil {
			s.bad("%q is not listed but can be listed", q)
		}
	}
}

// ---------------------------------------------------------------- comparison

type cmpOpt struct {
	mtime     int // 0: not compared, 1: to the second, 2: exactly
	owner     bool
	xattr     bool
	linkClean bool // link targets are compared after cleaning the expected one
	root      bool // compare the mode of the root
	rootOwner bool
	linkSize  bool
	noDirMeta bool // directories have no owner and time
}

func zeroish(t time.Time) bool { return t.IsZero() || t.Unix() == 0 && t.Nanosecond() == 0 }

func sameTime(want, got time.Time, how int) bool {
	switch how {
	case 0:
		return true
	case 1:
		if want.IsZero() {
			return zeroish(got)
		}
		d := want.Sub(got)
		return d > -time.Second && d < time.Second
	default:
		if want.IsZero() {
			return zeroish(got)
		}
		return want.Equal(got)
	}
}

// compare reports how the observed filesystem differs from the expected tree.
func compare(s *Snap, want *Node, o cmpOpt) (diffs []string) {
	bad := func(format string, args ...any) {
		if len(diffs) < 8 {
			diffs = append(diffs, fmt.Sprintf(format, args...))
		}
	}
	exp := map[string]bool{}
	want.each(func(p string, n *Node) {
		exp[p] = true
		ob := s.M[p]
		if ob == nil {
			bad("%q is missing", p)
			return
		}
		if p == "." {
			if o.root && ob.Mode != n.Mode {
				bad("root has mode %v, want %v", ob.Mode, n.Mode)
			}
			if o.rootOwner {
				if ob.HasOwner && (ob.UID != int64(n.UID) || ob.GID != int64(n.GID)) {
					bad("root has owner %d:%d, want %d:%d", ob.UID, ob.GID, n.UID, n.GID)
				}
				if !sameTime(n.MTime, ob.MTime, o.mtime) {
					bad("root has mtime %v, want %v", ob.MTime, n.MTime)
				}
			}
			return
		}
		if ob.Mode != n.Mode {
			bad("%q has mode %v, want %v", p, ob.Mode, n.Mode)
		}
		if n.IsLink() {
			t := n.Target
			if o.linkClean {
				t = path.Clean(t)
			}
			if ob.Target != t {
				bad("%q links to %.80q, want %.80q", p, ob.Target, t)
			}
			if o.linkSize && ob.Size != int64(len(n.Target)) {
				bad("%q has size %d, want %d", p, ob.Size, len(n.Target))
			}
		}
		if n.IsReg() {
			if ob.Size != n.Size() {
				bad("%q has size %d, want %d", p, ob.Size, n.Size())
			}
			if ob.DataErr != "" {
				bad("%q cannot be read: %s", p, ob.DataErr)
			} else if n.Big == nil && !bytes.Equal(ob.Data, n.Data) {
				bad("%q has wrong content: %s", p, diffBytes(ob.Data, n.Data))
			}
		}
		if n.Implied || (o.noDirMeta && n.IsDir()) {
			return
		}
		if !sameTime(n.MTime, ob.MTime, o.mtime) {
			bad("%q has mtime %v, want %v", p, ob.MTime, n.MTime)
		}
		if o.owner {
			if !ob.HasOwner {
				bad("%q reports no owner", p)
			} else if ob.UID != int64(n.UID) || ob.GID != int64(n.GID) {
				bad("%q has owner %d:%d, want %d:%d", p, ob.UID, ob.GID, n.UID, n.GID)
			}
		}
		if o.xattr {
			for k, v := range n.Xattr {
				if ob.Xattr[k] != v {
					bad("%q has xattr %s=%q, want %q", p, k, ob.Xattr[k], v)
				}
			}
			if len(ob.Xattr) != len(n.Xattr) {
				bad("%q has %d xattrs, want %d", p, len(ob.Xattr), len(n.Xattr))
			}
		}
	})
	for p := range s.M {
		if !exp[p] {
			bad("%q should not exist", p)
		}
	}
	sort.Strings(diffs)
	return
}

func diffBytes(got, want []byte) string {
	n := min(len(got), len(want))
	i := 0
	for i < n && got[i] == want[i] {
		i++
	}
	return fmt.Sprintf("%d bytes, want %d, first difference at %d", len(got), len(want), i)
}

// diffSnaps compares two observations of what must be the same filesystem.
func diffSnaps(a, b *Snap) (diffs []string) {
	bad := func(format string, args ...any) {
		if len(diffs) < 8 {
			diffs = append(diffs, fmt.Sprintf(format, args...))
		}
	}
	for p, x := range a.M {
		y := b.M[p]
		switch {
		case y == nil:
			bad("%q only in the first", p)
		case x.Mode != y.Mode || x.Size != y.Size || !x.MTime.Equal(y.MTime) || x.UID != y.UID || x.GID != y.GID || x.Target != y.Target:
			bad("%q differs: %v %d %v %d:%d %q / %v %d %v %d:%d %q", p, x.Mode, x.Size, x.MTime, x.UID, x.GID, x.Target, y.Mode, y.Size, y.MTime, y.UID, y.GID, y.Target)
		case x.Sum != y.Sum:
			bad("%q differs in content: %s", p, diffBytes(x.Data, y.Data))
		case (x.DataErr == "") != (y.DataErr == ""):
			bad("%q: error %q / %q", p, x.DataErr, y.DataErr)
		}
	}
	for p := range b.M {
		if a.M[p] == nil {
			bad("%q only in the second", p)
		}
	}
	sort.Strings(diffs)
	return
}

// expectTree runs the whole observation and reports everything wrong with it.
func expectTree(c *Ctx, what string, fsys fs.FS, want *Node, o cmpOpt) *Snap {
	s := snapshot(fsys, snapOpt{rng: c.Rng})
	c.Count("fs_operations", s.Ops)
	c.Count("file_bytes_read", s.Bytes)
	c.Count("objects_compared", int64(len(s.M)))
	for _, d := range compare(s, want, o) {
		c.Fail("%s: %s", what, d)
	}
	for _, p := range s.Problems {
		c.Fail("%s: %s", what, p)
	}
	return s
}
