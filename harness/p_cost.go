package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/bits"
	"math/rand"
	"path"
	"runtime"
	"strings"
	"time"

	"github.com/dpeckett/archivefs/arfs"
	"github.com/dpeckett/archivefs/erofs"
	"github.com/dpeckett/archivefs/tarfs"
)

// C22: random access stays random access. What operations read of the source is bounded by what they were asked for.

func init() {
	register(&Prop{
		ID: "C22",
		Rule: "One evaluation runs one operation on an opened archive whose source counts the bytes read of it (and, for long files, the memory allocated) and compares the count with a bound computed from the layout of the archive: the superblock's block for opening EROFS, a multiple of the archive for opening tar and ar, the binary search for a lookup, the directory for a listing, the member for a file. " +
			"Non-trivial: the bound is less than the whole archive; distinct by archive and operation.",
		MinEvents: []string{"opens_erofs", "large_roots", "opens_tar", "opens_ar", "lookups", "missing_lookups", "listings", "file_reads", "partial_file_reads", "long_files", "stats", "links_followed"},
		Cases: func(quick bool, seed int64) []Case {
			out := batch("erofs", N(quick, 32, 800), 2, costErofs)
			out = append(out, batch("tar", N(quick, 40, 1000), 4, func(c *Ctx, r *rand.Rand, i int) { costStream(c, r, "tar") })...)
			out = append(out, batch("ar", N(quick, 40, 1000), 4, func(c *Ctx, r *rand.Rand, i int) { costStream(c, r, "ar") })...)
			return append(out, batch("long", N(quick, 6, 60), 1, costLong)...)
		},
		Assumptions: []string{"constant factors (reading whole blocks, read-ahead of 64 KiB, reading things twice) are not judged"},
	})
}

// costRA counts what is read of a source.
type costRA struct {
	io.ReaderAt
	calls, bytes int64
}

func (m *costRA) ReadAt(p []byte, off int64) (int, error) {
	n, err := m.ReaderAt.ReadAt(p, off)
	m.calls++
	m.bytes += int64(n)
	return n, err
}

const ahead = 64 << 10

// costs runs one operation and compares what it read with its bound.
func costs(c *Ctx, ra *costRA, what string, bound, whole int64, op func() error) {
	ra.bytes, ra.calls = 0, 0
	var err error
	if p := guard(func() { err = op() }); p != nil {
		c.Fail("%s: panic: %v", what, p)
		return
	}
	c.Eval([]byte(c.ID+what), bound < whole)
	if err != nil {
		c.Fail("%s: %v", what, err)
	}
	if ra.bytes > bound {
		c.Fail("%s: read %d bytes of the source (%d reads), which should take no more than %d (the source has %d bytes)", what, ra.bytes, ra.calls, bound, whole)
	}
}

func missing(err error) error {
	if errors.Is(err, fs.ErrNotExist) {
		return nil
	}
	return fmt.Errorf("got %v for a missing name", err)
}

func costErofs(c *Ctx, r *rand.Rand, i int) {
	o := randEroOpt(r)
	if r.Intn(2) == 0 {
		o.Bits = uint(9 + r.Intn(4))
	}
	o.BigAddr = r.Intn(4) == 0
	t := genTree(r, GenOpt{Nodes: 6, Plain: true, NoXattr: true, NoAbsent: true, MaxData: 100})
	wide := &Node{Name: "~wide", Mode: fs.ModeDir | 0o755, MTime: time.Unix(5, 0)}
	n := 8000 + r.Intn(8000)
	fill := strings.Repeat("n", r.Intn(120))
	for k := 0; k < n; k++ {
		kid := &Node{Name: fmt.Sprintf("%s%06d", fill, k*2), Mode: 0o644, MTime: time.Unix(int64(k), 0)}
		if k%997 == 0 {
			kid.Data = bytes.Repeat([]byte{byte(k)}, 100+r.Intn(300000))
		}
		wide.Kids = append(wide.Kids, kid)
	}
	t.Kids = append(t.Kids, wide, &Node{Name: "~link", Mode: fs.ModeSymlink | 0o777, Target: "~wide/../~wide", MTime: t.MTime})
	if i%2 == 1 {
		// Opening the image does not read its root, however large it is.
		for k := 0; k < 20000; k++ {
			t.Kids = append(t.Kids, &Node{Name: fmt.Sprintf("~~%05d", k), Mode: 0o600, MTime: time.Unix(7, 0)})
		}
		c.Count("large_roots", 1)
	}
	t.sort()
	img, want, _ := buildEROFS(r, t, o)
	w := want.find("~wide")
	ra := &costRA{ReaderAt: img}
	bs := int64(1) << o.Bits
	var stored int64 // bytes of everything, without the gaps
	for _, s := range img.segs {
		stored += s.n
	}
	var fsys *erofs.Filesystem
	id := fmt.Sprintf("image of %d bytes, blocks of %d: ", stored, bs)
	costs(c, ra, id+"Open", 2*(bs+ahead), stored, func() (err error) { fsys, err = erofs.Open(ra); return err })
	c.Count("opens_erofs", 1)
	if fsys == nil {
		return
	}
	// dirBytes is a lower bound of the size of a directory, which depends on how it was split.
	dirBytes := func(d *Node) (n int64) {
		for _, k := range d.Kids {
			n += 12 + int64(len(k.Name))
		}
		return n
	}
	search := func(d *Node) int64 {
		blocks := 4 * (dirBytes(d)/bs + 2)
		return int64(bits.Len64(uint64(blocks))+3)*2*max(bs, 4096) + 4096
	}
	lookup := search(want) + search(w) + ahead
	for k := 0; k < 40; k++ {
		kid := w.Kids[r.Intn(len(w.Kids))]
		p := "~wide/" + kid.Name
		costs(c, ra, id+"Stat "+p, lookup, stored, func() error { _, err := fsys.Stat(p); return err })
		c.Count("lookups", 1)
		p = "~wide/" + fmt.Sprintf("%s%06d", fill, r.Intn(n)*2+1)
		costs(c, ra, id+"Stat of missing "+p, lookup, stored, func() error { _, err := fsys.Stat(p); return missing(err) })
		c.Count("missing_lookups", 1)
		p = "~link/" + kid.Name
		costs(c, ra, id+"StatLink "+p, 3*lookup, stored, func() error { _, err := fsys.StatLink(p); return err })
		c.Count("links_followed", 1)
	}
	costs(c, ra, id+"ReadDir", lookup+16*(dirBytes(w)+int64(len(w.Kids))*64)+ahead, stored, func() error {
		es, err := fsys.ReadDir("~wide")
		if err == nil && len(es) != len(w.Kids) {
			err = fmt.Errorf("%d of %d entries", len(es), len(w.Kids))
		}
		return err
	})
	c.Count("listings", 1)
	c.Count("stats", 40)
	for k := 0; k < len(w.Kids); k += 997 {
		costFile(c, r, ra, id, fsys, "~wide/"+w.Kids[k].Name, w.Kids[k].Size(), lookup, stored)
	}
	c.Sample("%s%d names", id, n)
}

// costFile reads a file completely, and in another handle only its beginning.
func costFile(c *Ctx, r *rand.Rand, ra *costRA, id string, fsys fs.FS, p string, stored, extra, whole int64) {
	costs(c, ra, id+"read "+p, extra+2*stored+ahead, whole, func() error {
		f, err := fsys.Open(p)
		if err != nil {
			return err
		}
		defer f.Close()
		_, err = io.CopyBuffer(struct{ io.Writer }{io.Discard}, struct{ io.Reader }{f}, make([]byte, 1+r.Intn(5000)))
		return err
	})
	c.Count("file_reads", 1)
	costs(c, ra, id+"read the beginning of "+p, extra+2*ahead, whole, func() error {
		f, err := fsys.Open(p)
		if err != nil {
			return err
		}
		defer f.Close()
		if _, err := f.Stat(); err != nil {
			return err
		}
		_, err = f.Read(make([]byte, 10))
		if err == io.EOF {
			err = nil
		}
		return err
	})
	c.Count("partial_file_reads", 1)
}

func costStream(c *Ctx, r *rand.Rand, kind string) {
	var blob []byte
	stored := map[string]int64{} // bytes of the archive that belong to each file
	var open func(io.ReaderAt) (fs.FS, error)
	n := 20 + r.Intn(40)
	size := func() []byte {
		b := make([]byte, r.Intn(20)*r.Intn(8)*200)
		if r.Intn(6) == 0 {
			b = make([]byte, 300000+r.Intn(1000000))
		}
		return b
	}
	switch kind {
	case "tar":
		open = func(ra io.ReaderAt) (fs.FS, error) { return tarfs.Open(ra) }
		var ents []*tarEnt
		for i := 0; i < n; i++ {
			e := &tarEnt{Name: fmt.Sprintf("d%d/f%03d%s", i%4, i, strings.Repeat("x", r.Intn(60)*r.Intn(3))), Type: '0', Mode: 0o644, MTime: time.Unix(int64(i), 0), Data: size(), Fmt: fmtUstar + r.Intn(3)}
			if e.Fmt == fmtUstar {
				e.Name = path.Join(path.Dir(e.Name), fmt.Sprintf("f%03d", i))
			}
			ents = append(ents, e)
		}
		blob = encodeTar(nil, ents)
		for _, e := range ents {
			stored[e.Name] = e.End - e.HdrOff
		}
	default:
		open = func(ra io.ReaderAt) (fs.FS, error) { return arfs.Open(ra) }
		var ms []*arMember
		for i := 0; i < n; i++ {
			ms = append(ms, &arMember{Name: fmt.Sprintf("f%03d", i), MTime: "1", UID: "0", GID: "0", Mode: "100644", Data: size()})
		}
		blob = encodeAr(ms, true)
		for _, m := range ms {
			stored[m.Name] = m.End - m.HdrOff
		}
	}
	ra := &costRA{ReaderAt: bytes.NewReader(blob)}
	whole := int64(len(blob))
	id := fmt.Sprintf("%s of %d bytes: ", kind, whole)
	var fsys fs.FS
	costs(c, ra, id+"Open", 3*whole+ahead, 4*whole+2*ahead, func() (err error) { fsys, err = open(ra); return err })
	c.Count("opens_"+kind, 1)
	if fsys == nil || c.Failed() {
		return
	}
	costs(c, ra, id+"ReadDir", ahead, whole, func() error { _, err := fs.ReadDir(fsys, "."); return err })
	c.Count("listings", 1)
	k := 0
	for p, s := range stored {
		costs(c, ra, id+"Stat "+p, ahead, whole, func() error { _, err := fs.Stat(fsys, p); return err })
		c.Count("stats", 1)
		costs(c, ra, id+"Stat "+p+"-", ahead, whole, func() error { _, err := fs.Stat(fsys, p+"-"); return missing(err) })
		costFile(c, r, ra, id, fsys, p, s, 0, whole)
		if k++; k > 30 {
			break
		}
	}
	c.Sample("%s%d members", id, n)
}

// costLong reads a long file through a small buffer and looks at the memory this takes.
func costLong(c *Ctx, r *rand.Rand, i int) {
	big := &bigData{Len: 96<<20 + int64(r.Intn(1<<20)), Seed: r.Uint64()}
	img := &sparseImage{}
	var open func() (fs.FS, error)
	kind := []string{"tar", "ar", "erofs"}[i%3]
	ra := &costRA{ReaderAt: img}
	switch kind {
	case "tar":
		var hd bytes.Buffer
		(&tarEnt{Name: "big", Type: '0', Mode: 0o600, MTime: time.Unix(1, 0), Fmt: fmtGNU}).encode(&hd)
		var raw hdrRaw
		copy(raw.b[:], hd.Bytes()[:512])
		putBase256(raw.b[124:136], big.Len)
		raw.sum(nil)
		img.put(0, bytes.Clone(raw.b[:]))
		img.putBig(512, big)
		img.put((512+big.Len+511)&^511, make([]byte, 1024))
		open = func() (fs.FS, error) { return tarfs.Open(ra) }
	case "ar":
		img.put(0, []byte(fmt.Sprintf("!<arch>\n%-16s%-12d%-6d%-6d%-8s%-10d`\n", "big", 1, 0, 0, "100600", big.Len)))
		img.putBig(68, big)
		if big.Len%2 == 1 {
			img.put(68+big.Len, []byte("\n"))
		}
		open = func() (fs.FS, error) { return arfs.Open(ra) }
	default:
		t := genTree(r, GenOpt{Nodes: 3, Plain: true, NoXattr: true})
		t.Kids = append(t.Kids, &Node{Name: "big", Mode: 0o600, Big: big, MTime: time.Unix(77, 8)})
		t.sort()
		img, _, _ = buildEROFS(r, t, randEroOpt(r))
		ra.ReaderAt = img
		open = func() (fs.FS, error) { return erofs.Open(ra) }
	}
	img.sort()
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	fsys, err := open()
	if err != nil {
		c.Fail("%s: open: %v", kind, err)
		return
	}
	costFile(c, r, ra, kind+" with a long file: ", fsys, "big", big.Len, 1<<20, img.size)
	runtime.ReadMemStats(&b)
	c.Count("long_files", 1)
	if got := b.TotalAlloc - a.TotalAlloc; got > uint64(big.Len)/4 {
		c.Fail("%s: opening an archive and reading its file of %d bytes through a small buffer allocated %d bytes", kind, big.Len, got)
	}
}
