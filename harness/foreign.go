package main

import (
	"archive/zip"
	"bytes"
	"fmt"
	"io/fs"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"strings"
	"syscall"
	"testing/fstest"
)

// Filesystems that neither the library nor the harness provides: a directory on
// disk (seen in several ways), the standard library's in-memory filesystem, and
// a zip archive.

// diskFS is a directory on disk that implements everything Create asks for.
type diskFS struct {
	fs.FS
	dir string
}

func (d diskFS) ReadLink(name string) (string, error) { return os.Readlink(filepath.Join(d.dir, name)) }
func (d diskFS) StatLink(name string) (fs.FileInfo, error) {
	return os.Lstat(filepath.Join(d.dir, name))
}

type mapLinkFS struct{ fstest.MapFS }

func (m mapLinkFS) StatLink(name string) (fs.FileInfo, error) { return m.MapFS.Lstat(name) }

// foreignFS presents the tree by another filesystem and returns what that
// presents, as its own methods say. Links are kept only if asked for. The
// filesystem can be used until done is called.
func foreignFS(c *Ctx, r *rand.Rand, t *Node, links bool) (src fs.FS, want *Node, what string, done func()) {
	t = t.clone()
	var drop func(d *Node)
	drop = func(d *Node) {
		var kids []*Node
		for _, k := range d.Kids {
			if k.IsLink() && (!links || k.Target == "") {
				continue
			}
			drop(k)
			kids = append(kids, k)
		}
		d.Kids = kids
	}
	drop(t)
	done = func() {}
	kind := r.Intn(5)
	if links && kind == 4 {
		kind = r.Intn(4) // zip archives don't report link targets
	}
	readLink := func(p string) (string, error) { return "", fs.ErrInvalid }
	switch kind {
	default:
		dir, err := os.MkdirTemp(c.Scratch(), "foreign")
		must(err)
		done = func() { os.RemoveAll(dir) }
		writeDisk(dir, t)
		readLink = func(p string) (string, error) { return os.Readlink(filepath.Join(dir, p)) }
		switch kind {
		case 0:
			src, what = os.DirFS(dir), "directory"
			if links {
				src, what = diskFS{src, dir}, "directory with links"
			}
		case 1:
			root, err := os.OpenRoot(dir)
			must(err)
			done = func() { root.Close(); os.RemoveAll(dir) }
			src, what = root.FS(), "confined directory"
			if links {
				src, what = diskFS{src, dir}, "confined directory with links"
			}
		case 2:
			src, what = struct{ fs.FS }{os.DirFS(dir)}, "bare directory"
			if links {
				src, what = diskFS{src, dir}, "bare directory with links"
			}
		}
	case 3:
		m := fstest.MapFS{}
		t.each(func(p string, n *Node) {
			f := &fstest.MapFile{Mode: n.Mode, ModTime: n.MTime, Data: n.Data}
			if n.IsLink() {
				f.Data = []byte(n.Target)
			}
			if r.Intn(3) == 0 {
				f.Sys = "something"
			}
			if p != "." && n.IsDir() && len(n.Kids) > 0 && r.Intn(5) == 0 {
				return // implied
			}
			m[p] = f
		})
		src, what = m, "map"
		readLink = m.ReadLink
		if links {
			src = mapLinkFS{m}
		}
	case 4:
		var b bytes.Buffer
		w := zip.NewWriter(&b)
		t.each(func(_ string, n *Node) { // a backslash means a slash there
			for i, k := range n.Kids {
				if strings.Contains(k.Name, "\\") {
					k.Name = fmt.Sprintf("zipped%d", i)
				}
			}
		})
		t.each(func(p string, n *Node) {
			if p == "." || n.IsDir() && len(n.Kids) > 0 && r.Intn(3) == 0 {
				return
			}
			h := &zip.FileHeader{Name: p, Modified: n.MTime, Method: []uint16{zip.Store, zip.Deflate}[r.Intn(2)]}
			h.SetMode(n.Mode)
			if n.IsDir() {
				h.Name += "/"
			}
			f, err := w.CreateHeader(h)
			must(err)
			if !n.IsDir() {
				_, err = f.Write(n.Data)
				must(err)
			}
		})
		must(w.Close())
		z, err := zip.NewReader(bytes.NewReader(b.Bytes()), int64(b.Len()))
		must(err)
		src, what = z, "zip"
	}

	// What is there, according to the filesystem itself.
	want = &Node{}
	at := map[string]*Node{".": want}
	must(fs.WalkDir(src, ".", func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		fi, err := d.Info()
		if err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		n := &Node{Name: path.Base(p), Mode: fi.Mode(), MTime: fi.ModTime()}
		if st, ok := fi.Sys().(*syscall.Stat_t); ok {
			n.UID, n.GID = int(st.Uid), int(st.Gid)
		}
		switch {
		case n.IsLink():
			n.Target, err = readLink(p)
		case n.IsReg():
			n.Data, err = fs.ReadFile(src, p)
		}
		if p == "." {
			*want = *n
		} else {
			at[p] = n
			d := at[path.Dir(p)]
			d.Kids = append(d.Kids, n)
		}
		return err
	}))
	want.sort()
	if want.count() != t.count() {
		must(fmt.Errorf("%s: holds %d objects, want %d", what, want.count(), t.count()))
	}
	c.Count("foreign_sources", 1)
	c.Count("foreign_sources_"+[]string{"directory", "confined_directory", "bare_directory", "map", "zip"}[kind], 1)
	return src, want, what, done
}

// writeDisk makes the tree below an existing directory, with its metadata as far
// as the system allows.
func writeDisk(dir string, t *Node) {
	type dirMeta struct {
		path string
		n    *Node
	}
	var dirs []dirMeta
	meta := func(q string, n *Node) {
		_ = os.Lchown(q, n.UID, n.GID)
		if n.IsLink() {
			return
		}
		mode := n.Mode
		if os.Geteuid() != 0 || n.IsDir() {
			mode |= 0o700
		}
		must(os.Chmod(q, mode))
		if !n.MTime.IsZero() {
			_ = os.Chtimes(q, n.MTime, n.MTime)
		}
	}
	t.each(func(p string, n *Node) {
		q := filepath.Join(dir, p)
		switch {
		case n.IsDir():
			if p != "." {
				must(os.Mkdir(q, 0o700))
			}
			dirs = append(dirs, dirMeta{q, n})
			return
		case n.IsLink():
			must(os.Symlink(n.Target, q))
		default:
			must(os.WriteFile(q, n.Data, 0o600))
		}
		meta(q, n)
	})
	for i := len(dirs) - 1; i >= 0; i-- {
		meta(dirs[i].path, dirs[i].n)
	}
}
