// Package wdump describes everything an archive presents, and converts archives into
// others, in a form that does not depend on the platform.
package wdump

import (
	"archive/tar"
	"bytes"
	"fmt"
	"hash/crc32"
	"io"
	"io/fs"
	"os"
	"path"

	"github.com/dpeckett/archivefs"
	"github.com/dpeckett/archivefs/arfs"
	"github.com/dpeckett/archivefs/erofs"
	"github.com/dpeckett/archivefs/tarfs"
)

type Req struct {
	Op      string // dump or convert
	Kind    string
	File    string
	To, Out string // convert
	Queries []string
}

type Resp struct {
	Err   string // the whole operation was refused
	Lines []string
}

func Do(q Req) Resp {
	f, err := os.Open(q.File)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	var fsys fs.FS
	switch q.Kind {
	case "tar":
		fsys, err = tarfs.Open(f)
	case "ar":
		fsys, err = arfs.Open(f)
	default:
		fsys, err = erofs.Open(f)
	}
	if err != nil {
		return Resp{Err: "open: " + err.Error()}
	}
	if q.Op == "dump" {
		d := &dumper{fsys: fsys}
		d.dir(".", 0)
		for _, p := range q.Queries {
			fi, err := fs.Stat(fsys, p)
			d.add("query %q: %s", p, info(fi, err))
		}
		return Resp{Lines: d.out}
	}
	out, err := os.Create(q.Out)
	if err != nil {
		panic(err)
	}
	defer out.Close()
	switch q.To {
	case "tar":
		err = tarfs.Create(&holes{f: out}, fsys)
	case "ar":
		err = arfs.Create(&holes{f: out}, fsys)
	default:
		w := &holes{f: out}
		if err = erofs.Create(w, fsys); err == nil {
			err = out.Truncate(w.end)
		}
	}
	if err != nil {
		return Resp{Err: "create: " + err.Error()}
	}
	return Resp{}
}

// holes writes to a new file, and leaves out what is zero.
type holes struct {
	f        *os.File
	pos, end int64
}

var zero [32 << 10]byte

func (h *holes) Write(p []byte) (int, error) {
	n, err := h.WriteAt(p, h.pos)
	h.pos += int64(n)
	return n, err
}

func (h *holes) WriteAt(p []byte, off int64) (int, error) {
	if len(p) >= 512 && len(p) <= len(zero) && bytes.Equal(p, zero[:len(p)]) {
		if end := off + int64(len(p)); end > h.end {
			h.end = end
			if err := h.f.Truncate(end); err != nil {
				return 0, err
			}
		}
		return len(p), nil
	}
	h.end = max(h.end, off+int64(len(p)))
	return h.f.WriteAt(p, off)
}

type dumper struct {
	fsys fs.FS
	out  []string
}

func (d *dumper) add(format string, args ...any) { d.out = append(d.out, fmt.Sprintf(format, args...)) }

func info(fi fs.FileInfo, err error) string {
	if err != nil {
		return "error"
	}
	s := fmt.Sprint(fi.Name(), fi.Mode(), fi.Size(), fi.ModTime().Unix(), fi.ModTime().Nanosecond(), fi.IsDir())
	switch x := fi.Sys().(type) {
	case *tar.Header: // the owner is an int
		s += fmt.Sprint(int32(x.Uid), int32(x.Gid), x.Mode, x.Linkname)
	case *arfs.Entry:
		s += fmt.Sprint(x.Uid, x.Gid, x.Timestamp, x.FileSize)
	case *erofs.Inode:
		s += fmt.Sprint(x.UID(), x.GID(), x.Nlink(), x.Nid(), x.Size(), x.Mtime(), x.MtimeNsec())
	}
	return s
}

func (d *dumper) dir(p string, depth int) {
	fi, err := fs.Stat(d.fsys, p)
	d.add("stat %q: %s", p, info(fi, err))
	ents, err := fs.ReadDir(d.fsys, p)
	if err != nil {
		d.add("list %q: error", p)
		return
	}
	d.add("list %q: %d", p, len(ents))
	for _, e := range ents {
		if len(d.out) > 20000 {
			return
		}
		q := path.Join(p, e.Name())
		fi, err := e.Info()
		d.add("entry %q: %v %v %s", q, e.IsDir(), e.Type(), info(fi, err))
		if l, ok := d.fsys.(archivefs.ReadLinkFS); ok {
			t, err := l.ReadLink(q)
			d.add("link %q: %q %v", q, t, err != nil)
			fi, err := l.StatLink(q)
			d.add("statlink %q: %s", q, info(fi, err))
		}
		if e.IsDir() {
			if depth < 40 {
				d.dir(q, depth+1)
			}
			continue
		}
		fi, err = fs.Stat(d.fsys, q)
		d.add("stat %q: %s", q, info(fi, err))
		d.file(q)
	}
}

func (d *dumper) file(p string) {
	f, err := d.fsys.Open(p)
	if err != nil {
		d.add("open %q: error", p)
		return
	}
	defer f.Close()
	fi, err := f.Stat()
	d.add("handle %q: %s", p, info(fi, err))
	if err != nil || fi.IsDir() {
		return
	}
	sum := crc32.NewIEEE()
	buf := make([]byte, 1<<20)
	n := int64(0)
	for {
		k, err := f.Read(buf)
		for at := 0; at < k; { // of long files only a little of every piece, and the end
			end := k
			if o := n + int64(at); o >= 64<<20 && o < fi.Size()-4096 {
				if o%(1<<20) >= 64 {
					at = int(min(int64(k), int64(at)+1<<20-o%(1<<20), fi.Size()-4096-n))
					continue
				}
				end = min(k, at+int(64-o%(1<<20)))
			}
			sum.Write(buf[at:end])
			at = end
		}
		n += int64(k)
		if err != nil || n > 1<<34 {
			d.add("data %q: %d %08x %v", p, n, sum.Sum32(), err == io.EOF)
			return
		}
	}
}
