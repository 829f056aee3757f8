package main

import (
	"archive/tar"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"path"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/dpeckett/archivefs/arfs"
)

// ModelFS serves a Node tree as a source filesystem, with every freedom io/fs leaves to one.

const (
	sysNone = iota
	sysTar
	sysStat
	sysAr
)

type FSOpts struct {
	Sys       int
	ReadDirFS bool
	StatFS    bool
	Link      int // 0: no link support, 1: ReadLink only, 2: archivefs.ReadLinkFS
	Chunk     int // how reads deliver data, see mfile.Read
	Unsorted  bool
	Seed      int64
	Lies      map[string]lie
	Op        func(kind, p string) error // called before every operation
	Track     *handles
	Got       func(p string, n int) // called with the size of every piece of data delivered
}

// lie makes a file deliver another size than it announces.
type lie struct {
	Info int64 // added to the size in directory entry infos
	Stat int64 // added to the size the opened file reports
	Data int64 // added to the number of bytes delivered
}

type ModelFS struct {
	root  *Node
	o     FSOpts
	index map[string]*Node
}

func (m *ModelFS) find(p string) *Node {
	if m.index == nil {
		m.index = map[string]*Node{}
		m.root.each(func(p string, n *Node) { m.index[p] = n })
	}
	return m.index[p]
}

func (m *ModelFS) op(kind, p string) error {
	if m.o.Op != nil {
		return m.o.Op(kind, p)
	}
	return nil
}

func (m *ModelFS) look(p string, follow bool) (*Node, string, error) {
	n := m.find(path.Clean(p))
	if n == nil {
		return nil, "", fs.ErrNotExist
	}
	if follow && n.IsLink() {
		for i := 0; i < 40 && n.IsLink(); i++ {
			t := n.Target
			if !path.IsAbs(t) {
				t = path.Join("/", path.Dir(p), t)
			}
			p = path.Clean(t)[1:]
			if p == "" {
				p = "."
			}
			if n = m.find(p); n == nil {
				return nil, "", fs.ErrNotExist
			}
		}
		if n.IsLink() {
			return nil, "", errors.New("loop")
		}
	}
	return n, p, nil
}

type fOpen struct{ m *ModelFS }

func (f fOpen) Open(name string) (fs.File, error) {
	m := f.m
	if err := m.op("open", name); err != nil {
		return nil, err
	}
	n, p, err := m.look(name, true)
	if err != nil {
		return nil, &fs.PathError{Op: "open", Path: name, Err: err}
	}
	fl := &mfile{m: m, n: n, p: p, r: rand.New(rand.NewSource(m.o.Seed + int64(len(name))))}
	m.o.Track.opened(fl)
	if n.IsDir() {
		return &mdir{mfile: fl}, nil
	}
	return fl, nil
}

// handles follows what is done with opened files.
type handles struct {
	mu     sync.Mutex
	live   map[*mfile]bool
	most   int
	total  int
	closes int
	misuse string
}

func (h *handles) opened(f *mfile) {
	if h == nil {
		return
	}
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.live == nil {
		h.live = map[*mfile]bool{}
	}
	h.live[f] = true
	h.total++
	h.most = max(h.most, len(h.live))
}

func (h *handles) closed(f *mfile) {
	if h == nil {
		return
	}
	h.mu.Lock()
	defer h.mu.Unlock()
	delete(h.live, f)
	h.closes++
}

func (h *handles) used(f *mfile, how string) {
	if h == nil {
		return
	}
	h.mu.Lock()
	defer h.mu.Unlock()
	if !h.live[f] && h.misuse == "" {
		h.misuse = how + " of " + strconv.Quote(f.p) + " after it was closed"
	}
}

func (h *handles) left() (out []string) {
	h.mu.Lock()
	defer h.mu.Unlock()
	for f := range h.live {
		out = append(out, f.p)
	}
	sort.Strings(out)
	return out
}

type fReadDir struct{ m *ModelFS }

func (f fReadDir) ReadDir(name string) ([]fs.DirEntry, error) {
	m := f.m
	operr := m.op("readdir", name)
	if _, ok := operr.(partialErr); operr != nil && !ok {
		return nil, operr
	}
	n, p, err := m.look(name, true)
	if err != nil {
		return nil, err
	}
	if !n.IsDir() {
		return nil, errors.New("not a directory")
	}
	es := m.entries(n, p)
	if operr != nil {
		es = es[:len(es)/2]
	}
	return es, operr
}

func (m *ModelFS) entries(n *Node, p string) []fs.DirEntry {
	var out []fs.DirEntry
	for _, k := range n.Kids {
		out = append(out, &mentry{m, k, path.Join(p, k.Name)})
	}
	return out
}

type fStat struct{ m *ModelFS }

func (f fStat) Stat(name string) (fs.FileInfo, error) {
	if err := f.m.op("stat", name); err != nil {
		return nil, err
	}
	n, p, err := f.m.look(name, true)
	if err != nil {
		return nil, err
	}
	return f.m.info(n, p, f.m.o.Lies[p].Info), nil
}

type fLink1 struct{ m *ModelFS }

func (f fLink1) ReadLink(name string) (string, error) {
	if err := f.m.op("readlink", name); err != nil {
		return "", err
	}
	n, _, err := f.m.look(name, false)
	if err != nil {
		return "", err
	}
	if !n.IsLink() {
		return "", fs.ErrInvalid
	}
	return n.Target, nil
}

type fLink2 struct{ m *ModelFS }

func (f fLink2) ReadLink(name string) (string, error) { return fLink1(f).ReadLink(name) }

func (f fLink2) StatLink(name string) (fs.FileInfo, error) {
	if err := f.m.op("statlink", name); err != nil {
		return nil, err
	}
	n, p, err := f.m.look(name, false)
	if err != nil {
		return nil, err
	}
	return f.m.info(n, p, f.m.o.Lies[p].Info), nil
}

// partialErr is an injected error that comes together with part of the result.
type partialErr struct{ err error }

func (p partialErr) Error() string { return "partial result: " + p.err.Error() }
func (p partialErr) Unwrap() error { return p.err }

// newModelFSPtr is newModelFS for callers that change the tree while it is used.
func newModelFSPtr(root *Node, o FSOpts, m **ModelFS) fs.FS {
	return buildModelFS(&ModelFS{root: root, o: o}, o, m)
}

// newModelFS returns the filesystem with exactly the optional interfaces asked for.
func newModelFS(root *Node, o FSOpts) fs.FS {
	return buildModelFS(&ModelFS{root: root, o: o}, o, nil)
}

func buildModelFS(m *ModelFS, o FSOpts, out **ModelFS) fs.FS {
	if out != nil {
		*out = m
	}
	fo, fr, fst, f1, f2 := fOpen{m}, fReadDir{m}, fStat{m}, fLink1{m}, fLink2{m}
	switch {
	case o.ReadDirFS && o.StatFS && o.Link == 2:
		return struct {
			fOpen
			fReadDir
			fStat
			fLink2
		}{fo, fr, fst, f2}
	case o.ReadDirFS && o.StatFS && o.Link == 1:
		return struct {
			fOpen
			fReadDir
			fStat
			fLink1
		}{fo, fr, fst, f1}
	case o.ReadDirFS && o.StatFS:
		return struct {
			fOpen
			fReadDir
			fStat
		}{fo, fr, fst}
	case o.ReadDirFS && o.Link == 2:
		return struct {
			fOpen
			fReadDir
			fLink2
		}{fo, fr, f2}
	case o.ReadDirFS && o.Link == 1:
		return struct {
			fOpen
			fReadDir
			fLink1
		}{fo, fr, f1}
	case o.ReadDirFS:
		return struct {
			fOpen
			fReadDir
		}{fo, fr}
	case o.StatFS && o.Link == 2:
		return struct {
			fOpen
			fStat
			fLink2
		}{fo, fst, f2}
	case o.StatFS && o.Link == 1:
		return struct {
			fOpen
			fStat
			fLink1
		}{fo, fst, f1}
	case o.StatFS:
		return struct {
			fOpen
			fStat
		}{fo, fst}
	case o.Link == 2:
		return struct {
			fOpen
			fLink2
		}{fo, f2}
	case o.Link == 1:
		return struct {
			fOpen
			fLink1
		}{fo, f1}
	default:
		return fo
	}
}

func randFSOpts(r *rand.Rand) FSOpts {
	return FSOpts{Sys: r.Intn(3), ReadDirFS: r.Intn(2) == 0, StatFS: r.Intn(2) == 0, Link: 2,
		Chunk: r.Intn(5), Unsorted: r.Intn(2) == 0, Seed: r.Int63()}
}

type mentry struct {
	m *ModelFS
	n *Node
	p string
}

func (e *mentry) Name() string      { return e.n.Name }
func (e *mentry) IsDir() bool       { return e.n.IsDir() }
func (e *mentry) Type() fs.FileMode { return e.n.Mode.Type() }
func (e *mentry) Info() (fs.FileInfo, error) {
	if err := e.m.op("info", e.p); err != nil {
		return nil, err
	}
	return e.m.info(e.n, e.p, e.m.o.Lies[e.p].Info), nil
}

type minfo struct {
	n    *Node
	name string
	size int64
	sys  any
}

func (m *ModelFS) info(n *Node, p string, delta int64) fs.FileInfo {
	i := &minfo{n: n, name: path.Base(p), size: n.Size() + delta}
	switch {
	case n.IsLink():
		i.size = int64(len(n.Target))
	case n.IsDir():
		i.size = 4096
	}
	switch m.o.Sys {
	case sysTar:
		h := &tar.Header{Name: p, Mode: int64(n.Mode.Perm()), Uid: n.UID, Gid: n.GID, Size: i.size, ModTime: n.MTime, Linkname: n.Target}
		h.Uname, h.Gname = ownerNames(n)
		if len(n.Xattr) > 0 {
			h.PAXRecords = map[string]string{}
			for k, v := range n.Xattr {
				h.PAXRecords["SCHILY.xattr."+k] = v
			}
		}
		i.sys = h
	case sysAr:
		i.sys = &arfs.Entry{Filename: n.Name, Timestamp: n.MTime.Unix(), Uid: int64(n.UID), Gid: int64(n.GID), FileMode: n.Mode, FileSize: i.size}
	case sysStat:
		st := &syscall.Stat_t{Uid: uint32(n.UID), Gid: uint32(n.GID), Size: i.size, Nlink: 1}
		st.Mtim = syscall.NsecToTimespec(n.MTime.UnixNano())
		i.sys = st
	}
	return i
}

// ownerNames gives the names the source reports for the owner of an object, which do not exist here.
func ownerNames(n *Node) (user, group string) {
	switch (n.UID + 3*n.GID) % 5 {
	case 0:
		return "", ""
	case 1:
		return fmt.Sprint("zz-user-", n.UID), ""
	case 2:
		return "zz-Ünicode", "zz-" + strings.Repeat("group", 10)
	default:
		return fmt.Sprint("zz-u", n.GID), fmt.Sprint("zz-g", n.UID)
	}
}

func (i *minfo) Name() string       { return i.name }
func (i *minfo) Size() int64        { return i.size }
func (i *minfo) Mode() fs.FileMode  { return i.n.Mode }
func (i *minfo) ModTime() time.Time { return i.n.MTime }
func (i *minfo) IsDir() bool        { return i.n.IsDir() }
func (i *minfo) Sys() any           { return i.sys }

type mfile struct {
	m   *ModelFS
	n   *Node
	p   string
	off int64
	r   *rand.Rand
}

func (f *mfile) Stat() (fs.FileInfo, error) {
	f.m.o.Track.used(f, "stat")
	if err := f.m.op("fstat", f.p); err != nil {
		return nil, err
	}
	return f.m.info(f.n, f.p, f.m.o.Lies[f.p].Stat), nil
}

func (f *mfile) Close() error {
	f.m.o.Track.closed(f)
	return f.m.op("close", f.p)
}

func (f *mfile) Read(p []byte) (int, error) {
	f.m.o.Track.used(f, "read")
	operr := f.m.op("read", f.p)
	if _, ok := operr.(partialErr); operr != nil && !ok {
		return 0, operr
	}
	if len(p) == 0 {
		return 0, operr
	}
	end := f.n.Size() + f.m.o.Lies[f.p].Data
	if f.off >= end {
		if operr != nil {
			return 0, operr
		}
		return 0, io.EOF
	}
	want := len(p)
	if int64(want) > end-f.off {
		want = int(end - f.off)
	}
	switch f.m.o.Chunk {
	case 1:
		if f.n.Size() < 20000 {
			want = 1
		}
	case 2, 4:
		want = 1 + f.r.Intn(want)
		if f.m.o.Chunk == 4 && f.r.Intn(8) == 0 {
			return 0, operr
		}
	}
	got := f.n.readAt(p[:want], f.off)
	for i := got; i < want; i++ { // bytes beyond the recorded size
		p[i] = byte(0xA5 ^ (f.off + int64(i)))
	}
	f.off += int64(want)
	if f.m.o.Got != nil {
		f.m.o.Got(f.p, want)
	}
	if operr != nil {
		return want, operr
	}
	if f.m.o.Chunk == 3 && f.off >= end {
		return want, io.EOF
	}
	return want, nil
}

type mdir struct {
	*mfile
	pos  int
	list []fs.DirEntry
}

func (d *mdir) Read([]byte) (int, error) { return 0, errors.New("is a directory") }

func (d *mdir) ReadDir(n int) ([]fs.DirEntry, error) {
	d.m.o.Track.used(d.mfile, "listing")
	operr := d.m.op("readdir", d.p)
	if _, ok := operr.(partialErr); operr != nil && !ok {
		return nil, operr
	}
	if d.list == nil {
		d.list = d.m.entries(d.n, d.p)
		if d.m.o.Unsorted {
			d.r.Shuffle(len(d.list), func(i, j int) { d.list[i], d.list[j] = d.list[j], d.list[i] })
		}
	}
	rest := d.list[d.pos:]
	if n > 0 && len(rest) == 0 {
		return nil, io.EOF
	}
	if n > 0 && n < len(rest) {
		rest = rest[:n]
	}
	if operr != nil {
		rest = rest[:len(rest)/2]
	}
	d.pos += len(rest)
	return rest, operr
}
