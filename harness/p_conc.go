package main

import (
	"bytes"
	"errors"
	"fmt"
	"hash/crc32"
	"hash/fnv"
	"io"
	"io/fs"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/dpeckett/archivefs"
	"github.com/dpeckett/archivefs/erofs"
)

func init() {
	register(&Prop{
		ID: "C13",
		Rule: "One evaluation opens an archive and lets goroutines, released together right after the open, run operations on it while reads of the source are delayed at random; every result is compared online with that of the operation run alone on a separately opened instance, and the race detector watches. " +
			"Or: one goroutine reads many open files in a random interleaving, and the filesystem is observed again afterwards. Non-trivial: operations overlapped; distinct by the recorded order of starts and ends.",
		MinEvents: []string{"overlapping_operations", "operations_tar", "operations_ar", "operations_erofs", "interleaved_reads", "same_file_opened_twice", "inode_api_operations", "listings_scribbled", "reobservations", "shared_entries"},
		Cases:     casesC13,
		Assumptions: []string{
			"the race detector reports races between accesses that were executed; -race keeps a bounded history per address",
		},
	})
}

func casesC13(quick bool, seed int64) (out []Case) {
	for _, kind := range []string{"tar", "ar", "erofs"} {
		kind := kind
		out = append(out, batch("concurrent-"+kind, N(quick, 64, 3000), 6, func(c *Ctx, r *rand.Rand, i int) { concurrentUse(c, r, kind) })...)
		out = append(out, batch("interleaved-"+kind, N(quick, 48, 2000), 4, func(c *Ctx, r *rand.Rand, i int) { interleavedUse(c, r, kind) })...)
		out = append(out, batch("hammer-"+kind, N(quick, 24, 600), 1, func(c *Ctx, r *rand.Rand, i int) { hammerOne(c, r, kind) })...)
	}
	return
}

// slowRA is a source that may be used by many goroutines, with random delays.
type slowRA struct {
	b     []byte
	pace  int // 0: no delays
	calls atomic.Int64
	seed  uint64
}

func (s *slowRA) ReadAt(p []byte, off int64) (int, error) {
	n := s.calls.Add(1)
	if s.pace > 0 {
		h := (uint64(n) + s.seed) * 0x9E3779B97F4A7C15
		switch h >> 61 {
		case 0, 1:
			runtime.Gosched()
		case 2:
			if s.pace > 1 {
				time.Sleep(time.Duration(h>>40&0x3f) * time.Microsecond)
			}
		}
	}
	if off < 0 {
		return 0, fs.ErrInvalid
	}
	if off >= int64(len(s.b)) {
		return 0, io.EOF
	}
	c := copy(p, s.b[off:])
	if c < len(p) {
		return c, io.EOF
	}
	return c, nil
}

// cop is an operation whose outcome is a string, errors included.
type cop struct {
	name string
	run  func(r *rand.Rand, e *cenv) string
}

type cenv struct {
	fsys    fs.FS
	img     *erofs.Image
	root    *erofs.Inode // shared by all goroutines
	entries map[string][]fs.DirEntry
	c       *Ctx
	n       map[string]*atomic.Int64
}

func errString(err error) string {
	switch {
	case err == nil:
		return "nil"
	case errors.Is(err, fs.ErrNotExist):
		return "not exist"
	case errors.Is(err, fs.ErrInvalid):
		return "invalid"
	}
	return err.Error()
}

func sum(b []byte) string { return fmt.Sprintf("%d bytes %08x", len(b), crc32.ChecksumIEEE(b)) }

// concScript lists operations on everything a snapshot saw.
func concScript(s *Snap, kind string, r *rand.Rand) (ops []cop) {
	add := func(name string, run func(r *rand.Rand, e *cenv) string) { ops = append(ops, cop{name, run}) }
	paths := sortedKeys(s.M)
	if len(paths) > 40 {
		r.Shuffle(len(paths), func(i, j int) { paths[i], paths[j] = paths[j], paths[i] })
		paths = paths[:40]
	}
	for _, p := range paths {
		p := p
		o := s.M[p]
		add("stat "+p, func(r *rand.Rand, e *cenv) string {
			fi, err := fs.Stat(e.fsys, p)
			if err != nil {
				return errString(err)
			}
			return infoString(fi)
		})
		if l, ok := map[string]bool{"tar": true, "erofs": true}[kind]; ok && l {
			add("statlink "+p, func(r *rand.Rand, e *cenv) string {
				fi, err := e.fsys.(archivefs.ReadLinkFS).StatLink(p)
				if err != nil {
					return errString(err)
				}
				return infoString(fi)
			})
			add("readlink "+p, func(r *rand.Rand, e *cenv) string {
				t, err := e.fsys.(archivefs.ReadLinkFS).ReadLink(p)
				return t + " " + errString(err)
			})
		}
		add("readdir "+p, func(r *rand.Rand, e *cenv) string {
			es, err := fs.ReadDir(e.fsys, p)
			if err != nil {
				return errString(err)
			}
			var b strings.Builder
			for _, d := range es {
				fi, err := d.Info()
				if err != nil {
					fmt.Fprintln(&b, d.Name(), errString(err))
					continue
				}
				fmt.Fprintln(&b, d.Name(), d.IsDir(), d.Type(), infoString(fi))
			}
			// The slice is ours: reorder and clear it.
			if r.Intn(2) == 0 {
				sort.Slice(es, func(i, j int) bool { return es[i].Name() > es[j].Name() })
			}
			for i := range es {
				es[i] = nil
			}
			e.n["listings_scribbled"].Add(1)
			return b.String()
		})
		if !o.Mode.IsDir() {
			add("read "+p, func(r *rand.Rand, e *cenv) string {
				f, err := e.fsys.Open(p)
				if err != nil {
					return errString(err)
				}
				defer f.Close()
				st := ""
				if fi, err := f.Stat(); err == nil {
					st = infoString(fi)
				}
				buf := make([]byte, 1+r.Intn(5000))
				var d []byte
				for {
					n, err := f.Read(buf[:1+r.Intn(len(buf))])
					d = append(d, buf[:n]...)
					if r.Intn(4) == 0 {
						runtime.Gosched()
					}
					if err == io.EOF {
						return st + sum(d)
					}
					if err != nil {
						return errString(err)
					}
				}
			})
			add("readfile "+p, func(r *rand.Rand, e *cenv) string {
				b, err := fs.ReadFile(e.fsys, p)
				s := sum(b) + errString(err)
				for i := range b { // ours, too
					b[i] ^= 0x55
				}
				return s
			})
		} else {
			add("open dir "+p, func(r *rand.Rand, e *cenv) string {
				f, err := e.fsys.Open(p)
				if err != nil {
					return errString(err)
				}
				defer f.Close()
				fi, err := f.Stat()
				if err != nil {
					return errString(err)
				}
				return infoString(fi)
			})
			add("entries of "+p, func(r *rand.Rand, e *cenv) string {
				// Entries listed once and used by everyone.
				var b strings.Builder
				for _, d := range e.entries[p] {
					fmt.Fprint(&b, d.Name(), d.IsDir(), d.Type())
					fi, err := d.Info()
					if err != nil {
						fmt.Fprintln(&b, errString(err))
						continue
					}
					fmt.Fprintln(&b, infoString(fi))
					e.n["shared_entries"].Add(1)
				}
				return b.String()
			})
		}
		add("absent below "+p, func(r *rand.Rand, e *cenv) string {
			_, err := e.fsys.Open(strings.TrimPrefix(p+"/absent", "./"))
			return errString(err)
		})
	}
	add("walk", func(r *rand.Rand, e *cenv) string {
		var b strings.Builder
		err := fs.WalkDir(e.fsys, ".", func(p string, d fs.DirEntry, err error) error {
			if err == nil {
				fmt.Fprintln(&b, p, d.IsDir())
			}
			return err
		})
		return sum([]byte(b.String())) + errString(err)
	})
	if kind == "erofs" {
		add("inode api", func(r *rand.Rand, e *cenv) string {
			v, err := inodeWalk(&fenv{img: e.img})
			e.n["inode_api_operations"].Add(1)
			return v + errString(err)
		})
		add("shared inode", func(r *rand.Rand, e *cenv) string {
			var b strings.Builder
			fmt.Fprintln(&b, e.root.Nid(), e.root.Mode(), e.root.Size())
			err := e.root.IterDirents(func(n string, t uint8, nid uint64) error {
				d, err := e.root.Lookup(n)
				fmt.Fprintln(&b, n, t, nid, d.Nid, errString(err))
				return nil
			})
			e.n["inode_api_operations"].Add(1)
			return b.String() + errString(err)
		})
	}
	return
}

var concCounters = []string{"listings_scribbled", "inode_api_operations", "shared_entries"}

// newEnv opens the archive for the script.
func newEnv(c *Ctx, kind string, ra io.ReaderAt, dirs []string) (*cenv, error) {
	e := &cenv{c: c, entries: map[string][]fs.DirEntry{}, n: map[string]*atomic.Int64{}}
	for _, k := range concCounters {
		e.n[k] = new(atomic.Int64)
	}
	var err error
	if e.fsys, err = formatOf(kind).open(ra); err != nil {
		return nil, err
	}
	if kind == "erofs" {
		if e.img, err = erofs.OpenImage(ra); err != nil {
			return nil, err
		}
		root, err := e.img.Inode(e.img.RootNid())
		if err != nil {
			return nil, err
		}
		e.root = &root
	}
	for _, d := range dirs {
		es, err := fs.ReadDir(e.fsys, d)
		if err != nil {
			return nil, err
		}
		e.entries[d] = append([]fs.DirEntry(nil), es...)
	}
	return e, nil
}

// concArchive is a small archive, sometimes with wide directories.
func concArchive(r *rand.Rand, kind string) []byte { return knownArchive(r, kind, 4+r.Intn(12)) }

func concurrentUse(c *Ctx, r *rand.Rand, kind string) {
	blob := concArchive(r, kind)
	fsys, err := formatOf(kind).open(bytes.NewReader(blob))
	if err != nil {
		c.Fail("%s: intact archive does not open: %v", kind, err)
		return
	}
	s := snapshot(fsys, snapOpt{rng: r, noNegative: true})
	ops := concScript(s, kind, r)
	var dirs []string
	for p, o := range s.M {
		if o.Mode.IsDir() {
			dirs = append(dirs, p)
		}
	}
	sort.Strings(dirs)
	alone, err := newEnv(c, kind, bytes.NewReader(blob), dirs)
	if err != nil {
		c.Fail("%s: %v", kind, err)
		return
	}
	base := make([]string, len(ops))
	for i, o := range ops {
		base[i] = o.run(rand.New(rand.NewSource(1)), alone)
	}

	ra := &slowRA{b: blob, pace: r.Intn(3), seed: r.Uint64()}
	shared := dirs
	if r.Intn(2) == 0 {
		shared = nil // nothing is used before the goroutines start
	}
	e, err := newEnv(c, kind, ra, shared)
	if err != nil {
		c.Fail("%s: %v", kind, err)
		return
	}
	g := 2 + r.Intn(7)
	per := N(c.Quick, 30, 60)
	// Some runs concentrate on few operations, so that the same ones overlap.
	pool := r.Perm(len(ops))
	if r.Intn(2) == 0 {
		pool = pool[:min(len(pool), 1+r.Intn(4))]
	}
	var started, active, overlap atomic.Int64
	var mu sync.Mutex
	order := fnv.New64a()
	var wg sync.WaitGroup
	start := make(chan struct{})
	for k := 0; k < g; k++ {
		wg.Add(1)
		gr := rand.New(rand.NewSource(r.Int63()))
		go func(k int) {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					c.Fail("%s: panic in concurrent use: %v\n%s", kind, p, stackOf())
				}
			}()
			<-start
			for n := 0; n < per; n++ {
				i := pool[gr.Intn(len(pool))]
				if shared == nil && strings.HasPrefix(ops[i].name, "entries of") {
					continue
				}
				mu.Lock()
				fmt.Fprint(order, "s", k, i)
				mu.Unlock()
				started.Add(1)
				if active.Add(1) > 1 {
					overlap.Add(1)
				}
				got := ops[i].run(gr, e)
				active.Add(-1)
				mu.Lock()
				fmt.Fprint(order, "e", k)
				mu.Unlock()
				if got != base[i] {
					c.Fail("%s: %q run concurrently gives\n%s\nalone it gives\n%s", kind, ops[i].name, got, base[i])
					return
				}
			}
		}(k)
	}
	close(start)
	wg.Wait()
	c.Count("operations_"+kind, started.Load())
	c.Count("overlapping_operations", overlap.Load())
	for _, k := range concCounters {
		c.Count(k, e.n[k].Load())
	}
	c.Eval(order.Sum(nil), overlap.Load() > 0)
	c.Sample("%s archive of %d bytes, %d goroutines, %d operations of which %d overlapped others", kind, len(blob), g, started.Load(), overlap.Load())
	if c.Failed() {
		return
	}
	// Nothing was changed by the use.
	again := snapshot(e.fsys, snapOpt{rng: r, noNegative: true})
	c.Count("reobservations", 1)
	for _, d := range diffSnaps(s, again) {
		c.Fail("%s: after concurrent use: %s", kind, d)
	}
}

func stackOf() string {
	b := make([]byte, 8192)
	return string(b[:runtime.Stack(b, false)])
}

// hammerOne lets many goroutines do the same first thing at once, for every operation in turn.
func hammerOne(c *Ctx, r *rand.Rand, kind string) {
	blob := concArchive(r, kind)
	fsys, err := formatOf(kind).open(bytes.NewReader(blob))
	if err != nil {
		c.Fail("%s: intact archive does not open: %v", kind, err)
		return
	}
	s := snapshot(fsys, snapOpt{rng: r, noNegative: true})
	ops := concScript(s, kind, r)
	r.Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
	if m := N(c.Quick, 40, 150); len(ops) > m {
		ops = ops[:m]
	}
	var dirs []string
	for p, o := range s.M {
		if o.Mode.IsDir() {
			dirs = append(dirs, p)
		}
	}
	sort.Strings(dirs)
	for _, o := range ops {
		alone, err := newEnv(c, kind, bytes.NewReader(blob), dirs)
		must(err)
		want := o.run(rand.New(rand.NewSource(1)), alone)
		var pre []string
		if strings.HasPrefix(o.name, "entries of") {
			pre = dirs
		}
		e, err := newEnv(c, kind, &slowRA{b: blob, pace: 1, seed: r.Uint64()}, pre)
		if err != nil {
			c.Fail("%s: %v", kind, err)
			return
		}
		var wg sync.WaitGroup
		start := make(chan struct{})
		var overlap, active atomic.Int64
		for k := 0; k < 6; k++ {
			wg.Add(1)
			gr := rand.New(rand.NewSource(r.Int63()))
			go func() {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						c.Fail("%s: panic in concurrent %s: %v\n%s", kind, o.name, p, stackOf())
					}
				}()
				<-start
				if active.Add(1) > 1 {
					overlap.Add(1)
				}
				if got := o.run(gr, e); got != want {
					c.Fail("%s: %q run by several goroutines at once gives\n%s\nalone it gives\n%s", kind, o.name, got, want)
				}
				active.Add(-1)
			}()
		}
		close(start)
		wg.Wait()
		c.Count("operations_"+kind, 6)
		c.Count("overlapping_operations", overlap.Load())
		for _, k := range concCounters {
			c.Count(k, e.n[k].Load())
		}
		c.Eval([]byte(kind+o.name+string(blob)), overlap.Load() > 0)
		if c.Failed() {
			return
		}
	}
}

// interleavedUse reads many open files of one filesystem a piece at a time.
func interleavedUse(c *Ctx, r *rand.Rand, kind string) {
	blob := concArchive(r, kind)
	fsys, err := formatOf(kind).open(bytes.NewReader(blob))
	if err != nil {
		c.Fail("%s: intact archive does not open: %v", kind, err)
		return
	}
	s := snapshot(fsys, snapOpt{rng: r, noNegative: true})
	var files []string
	for p, o := range s.M {
		if o.Mode.IsRegular() {
			files = append(files, p)
		}
	}
	sort.Strings(files)
	if len(files) == 0 {
		return
	}
	other := concScript(s, kind, r)
	e, err := newEnv(c, kind, bytes.NewReader(blob), nil)
	if err != nil {
		c.Fail("%s: %v", kind, err)
		return
	}
	type handle struct {
		path string
		f    fs.File
		off  int
		eof  bool
		info fs.FileInfo
		str  string
	}
	var open []*handle
	order := fnv.New64a()
	steps := N(c.Quick, 300, 800)
	seen := map[string]int{}
	for i := 0; i < steps && !c.Failed(); i++ {
		switch k := r.Intn(10); {
		case k < 2 && len(open) < 30 || len(open) == 0:
			p := files[r.Intn(len(files))]
			f, err := e.fsys.Open(p)
			if err != nil {
				c.Fail("%s: open of %q with %d other files open: %v", kind, p, len(open), err)
				return
			}
			if seen[p] > 0 {
				c.Count("same_file_opened_twice", 1)
			}
			seen[p]++
			h := &handle{path: p, f: f}
			if fi, err := f.Stat(); err == nil {
				h.info, h.str = fi, infoString(fi)
			} else {
				c.Fail("%s: stat of open %q: %v", kind, p, err)
			}
			open = append(open, h)
			fmt.Fprint(order, "o", p)
		case k == 2:
			j := r.Intn(len(open))
			if err := open[j].f.Close(); err != nil {
				c.Fail("%s: close of %q: %v", kind, open[j].path, err)
			}
			seen[open[j].path]--
			open = append(open[:j], open[j+1:]...)
			fmt.Fprint(order, "c", j)
		case k == 3:
			o := other[r.Intn(len(other))]
			if strings.HasPrefix(o.name, "entries of") {
				continue
			}
			o.run(r, e)
			fmt.Fprint(order, o.name)
		case k == 4:
			h := open[r.Intn(len(open))]
			fi, err := h.f.Stat()
			if err != nil {
				c.Fail("%s: stat of open %q after %d bytes: %v", kind, h.path, h.off, err)
			} else if infoString(fi) != h.str || infoString(h.info) != h.str {
				c.Fail("%s: stat of open %q changed from %s to %s (the old one now says %s)", kind, h.path, h.str, infoString(fi), infoString(h.info))
			}
		default:
			j := r.Intn(len(open))
			h := open[j]
			want := s.M[h.path].Data
			buf := make([]byte, []int{0, 1, 2, 7, 100, 512, 513, 4096, 9000, 100000}[r.Intn(10)])
			n, err := h.f.Read(buf)
			fmt.Fprint(order, "r", j, len(buf))
			c.Count("interleaved_reads", 1)
			switch {
			case n < 0 || n > len(buf) || h.off+n > len(want) || !bytes.Equal(buf[:n], want[h.off:h.off+n]):
				c.Fail("%s: read of %d bytes at %d of %q with %d files open gives %d bytes that differ from the file's", kind, len(buf), h.off, h.path, len(open), n)
			case err == io.EOF && h.off+n != len(want):
				c.Fail("%s: %q ends after %d of %d bytes with %d files open", kind, h.path, h.off+n, len(want), len(open))
			case err != nil && err != io.EOF:
				c.Fail("%s: read of %q at %d: %v", kind, h.path, h.off, err)
			case h.eof && (n != 0 || err != io.EOF) && len(buf) > 0:
				c.Fail("%s: %q at its end reads %d bytes, %v", kind, h.path, n, err)
			}
			h.off += n
			h.eof = h.eof || err == io.EOF
		}
	}
	c.Eval(order.Sum(nil), true)
	c.Sample("%s: %d steps over %d files", kind, steps, len(files))
	if c.Failed() {
		return
	}
	again := snapshot(e.fsys, snapOpt{rng: r, noNegative: true})
	c.Count("reobservations", 1)
	for _, d := range diffSnaps(s, again) {
		c.Fail("%s: after interleaved use: %s", kind, d)
	}
}
