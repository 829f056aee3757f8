package main

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"verif/harness/wdump"
)

// C24: nothing depends on the word size of the platform. The library is built a second
// time for a 32-bit platform (GOARCH=386, which this machine executes), both builds do
// the same with the same files, and what they observe is compared.

func init() {
	register(&Prop{
		ID: "C24",
		Rule: "One evaluation has the 64-bit and the 32-bit build of the library open one archive file and compares everything they present - refusals, entries, metadata, links, contents, answers to queries - and has both convert it to each format and compares the refusals and the bytes. " +
			"Non-trivial: the archive opens and has an entry; distinct by content.",
		MinEvents: []string{"archives", "lines_compared", "archives_created", "bytes_created", "refusals", "beyond_32_bits"},
		Cases: func(quick bool, seed int64) (out []Case) {
			for _, kind := range []string{"tar", "ar", "erofs"} {
				kind := kind
				out = append(out, batch("same-"+kind, N(quick, 8, 160), 1, func(c *Ctx, r *rand.Rand, i int) { wordSize(c, r, kind, i, false) })...)
				if kind != "tar" { // archive/tar itself keeps owners in words
					out = append(out, batch("damaged-"+kind, N(quick, 4, 80), 1, func(c *Ctx, r *rand.Rand, i int) { wordSize(c, r, kind, i, true) })...)
				}
				out = append(out, one("huge-"+kind, func(c *Ctx) { wordHuge(c, kind, "") }))
				for _, to := range []string{"tar", "ar", "erofs"} {
					to := to
					if to == "erofs" && kind != "tar" || !quick { // only the layout of an image needs offsets
						out = append(out, one("huge-"+kind+"-to-"+to, func(c *Ctx) { wordHuge(c, kind, to) }))
					}
				}
			}
			return out
		},
		Assumptions: []string{"of the 32-bit platforms, 386 is executed", "tar owners are compared as far as the int of archive/tar holds them"},
	})
}

// on32 has the 32-bit build process requests. It reports how many were answered, and how
// the process ended if it was not asked to.
func on32(dir string, reqs []wdump.Req) (resps []wdump.Resp, crash string) {
	bin := os.Getenv("VMON_W32")
	if bin == "" {
		panic(harnessErr{fmt.Errorf("VMON_W32 does not name the 32-bit build")})
	}
	var in bytes.Buffer
	must(gob.NewEncoder(&in).Encode(reqs))
	cmd := exec.Command(bin)
	cmd.Stdin = &in
	var stderr strings.Builder
	cmd.Stderr = &stderr
	po, err := cmd.StdoutPipe()
	must(err)
	must(cmd.Start())
	late := time.AfterFunc(5*time.Minute, func() { _ = cmd.Process.Kill() })
	defer late.Stop()
	dec := gob.NewDecoder(po)
	for len(resps) < len(reqs) {
		var q wdump.Resp
		if dec.Decode(&q) != nil {
			break
		}
		resps = append(resps, q)
	}
	_, _ = io.Copy(io.Discard, po)
	if err := cmd.Wait(); err != nil || len(resps) < len(reqs) {
		crash = fmt.Sprintf("%v %.600s", err, stderr.String())
	}
	return
}

type wordCase struct {
	reqs []wdump.Req // as for the 64-bit build
	what []string
	big  bool
}

func (w *wordCase) add(c *Ctx, kind, file, what string, to []string, queries []string) {
	w.reqs = append(w.reqs, wdump.Req{Op: "dump", Kind: kind, File: file, Queries: queries})
	w.what = append(w.what, what)
	for _, k := range to {
		w.reqs = append(w.reqs, wdump.Req{Op: "convert", Kind: kind, File: file, To: k, Out: file + ".to." + k})
		w.what = append(w.what, what+" converted to "+k)
	}
}

func (w *wordCase) run(c *Ctx) {
	reqs := append([]wdump.Req(nil), w.reqs...)
	for k := range reqs {
		if reqs[k].Out != "" {
			reqs[k].Out += ".32"
		}
	}
	type answer struct {
		resps []wdump.Resp
		crash string
	}
	ch := make(chan answer, 1)
	go func() {
		r, s := on32(c.Scratch(), reqs)
		ch <- answer{r, s}
	}()
	var ref []wdump.Resp
	for k, q := range w.reqs {
		var a wdump.Resp
		if p := guard(func() { a = wdump.Do(q) }); p != nil {
			c.Fail("%s: panic: %v", w.what[k], p)
		}
		ref = append(ref, a)
	}
	got := <-ch
	if got.crash != "" {
		c.Fail("the 32-bit build crashes on %s: %s", w.what[min(len(got.resps), len(w.what)-1)], got.crash)
	}
	for k := range got.resps {
		a, b := ref[k], got.resps[k]
		what, q := w.what[k], w.reqs[k]
		if q.Op == "dump" {
			c.Count("archives", 1)
			c.Eval([]byte(fmt.Sprint(what, a.Lines)), len(a.Lines) > 2)
		}
		if a.Err != "" {
			c.Count("refusals", 1)
		}
		if (a.Err == "") != (b.Err == "") {
			c.Fail("%s: 64-bit build: %q, 32-bit build: %q", what, a.Err, b.Err)
			continue
		}
		c.Count("lines_compared", int64(len(a.Lines)))
		for i := 0; i < len(a.Lines) || i < len(b.Lines); i++ {
			x, y := "nothing", "nothing"
			if i < len(a.Lines) {
				x = a.Lines[i]
			}
			if i < len(b.Lines) {
				y = b.Lines[i]
			}
			if x != y {
				c.Fail("%s: 64-bit build: %.300s, 32-bit build: %.300s", what, x, y)
				break
			}
		}
		if q.Op == "convert" && a.Err == "" {
			c.Count("archives_created", 1)
			n, d := sameFiles(q.Out, q.Out+".32")
			c.Count("bytes_created", n)
			if d != "" {
				c.Fail("%s: %s", what, d)
			}
		}
	}
	for _, q := range w.reqs {
		if q.Out != "" {
			_ = os.Remove(q.Out)
			_ = os.Remove(q.Out + ".32")
		} else {
			_ = os.Remove(q.File)
		}
	}
}

func sameFiles(p, q string) (int64, string) {
	a, err := os.Open(p)
	must(err)
	defer a.Close()
	b, err := os.Open(q)
	must(err)
	defer b.Close()
	x, y := make([]byte, 1<<20), make([]byte, 1<<20)
	for n := int64(0); ; {
		k, e1 := io.ReadFull(a, x)
		l, e2 := io.ReadFull(b, y)
		if !bytes.Equal(x[:k], y[:l]) {
			i := 0
			for i < k && i < l && x[i] == y[i] {
				i++
			}
			return n, fmt.Sprintf("what the 32-bit build writes differs from what the 64-bit build writes at offset %d: %q, %q", n+int64(i), x[i:min(k, i+40)], y[i:min(l, i+40)])
		}
		n += int64(k)
		if e1 != nil || e2 != nil {
			return n, ""
		}
	}
}

// writeSparse stores an image in a file, leaving out long data.
func (s *sparseImage) writeTo(p string) {
	f, err := os.Create(p)
	must(err)
	defer f.Close()
	must(f.Truncate(s.size))
	for _, g := range s.segs {
		if g.big == nil {
			_, err := f.WriteAt(g.data, g.off)
			must(err)
		}
	}
}

func wordSize(c *Ctx, r *rand.Rand, kind string, i int, damage bool) {
	w := &wordCase{}
	for k := 0; k < 12; k++ {
		file := filepath.Join(c.Scratch(), fmt.Sprintf("w%d-%d", i, k))
		var queries []string
		var blob []byte
		var img *sparseImage
		to := []string{"tar", "erofs"}
		var t *Node
		switch kind {
		case "tar":
			if r.Intn(3) == 0 {
				t, _ = arSource(r)
				to = append(to, "ar")
			} else {
				t = genTree(r, GenOpt{Nodes: 1 + r.Intn(20), Links: true, MaxData: 9000,
					IDs: []int{0, 1, 65535, 65536, 2097152, 1<<31 - 1}})
			}
			ok := true
			t.each(func(_ string, n *Node) { ok = ok && n.Big == nil && n.Mode.Type()&^(fs.ModeDir|fs.ModeSymlink) == 0 })
			if !ok {
				continue
			}
			ents, _ := tarFromTree(r, t)
			blob = encodeTar(r, ents)
		case "ar":
			ms, want, _ := genArArchive(r, 1+r.Intn(8))
			t = want
			for _, m := range ms {
				if r.Intn(2) == 0 {
					m.MTime = []string{"2147483647", "2147483648", "4294967296", "99999999999", "999999999999", "-5", "-2147483649"}[r.Intn(7)]
				}
				if r.Intn(4) == 0 {
					m.UID, m.GID = "999999", "65536"
				}
			}
			blob = encodeAr(ms, r.Intn(2) == 0)
			to = append(to, "ar")
		default:
			t = genTree(r, GenOpt{Nodes: 1 + r.Intn(20), Links: true, MaxData: 9000, NoXattr: true, Flat: r.Intn(4) == 0})
			o := randEroOpt(r)
			if !damage && k%3 == 0 {
				o.Bits = 9 + uint(r.Intn(3))
				o.BigAddr, o.BigMeta = r.Intn(2) == 0, r.Intn(3) > 0
			}
			img, t, _ = buildEROFS(r, t, o)
			to = append(to, "ar")
			if img.size > 1<<32 {
				c.Count("beyond_32_bits", 1)
			}
			if img.size > 1<<42 {
				continue
			}
		}
		t.each(func(p string, n *Node) { queries = append(queries, p, p+"/x", "/"+p+"~") })
		if len(queries) > 200 {
			queries = queries[:200]
		}
		what := fmt.Sprintf("%s archive %d of iteration %d", kind, k, i)
		if damage {
			what = "damaged " + what
			if img != nil && img.size < 1<<20 {
				blob = img.bytes()
			}
			for n := 1 + r.Intn(3); n > 0 && len(blob) > 0; n-- {
				j := r.Intn(len(blob))
				switch r.Intn(4) {
				case 0:
					blob[j] ^= 1 << r.Intn(8)
				case 1:
					blob[j] = []byte{0, 0xff, 0x7f, 0x80, '9', '-'}[r.Intn(6)]
				case 2:
					for q := j; q < len(blob) && q < j+4; q++ {
						blob[q] = []byte{0xff, '9'}[r.Intn(2)]
					}
				default:
					blob = blob[:j]
				}
			}
		}
		if blob == nil && img != nil {
			img.writeTo(file)
		} else {
			must(os.WriteFile(file, blob, 0o600))
		}
		w.add(c, kind, file, what, to, queries)
	}
	w.run(c)
}

// wordHuge has a file beyond 32 bits and one after it.
func wordHuge(c *Ctx, kind, to string) {
	w := &wordCase{big: true}
	for k, size := range []int64{1<<31 + 4097, 1<<32 + 77} {
		var tos []string
		if to != "" {
			if k == 0 {
				continue
			}
			tos = []string{to}
		}
		file := filepath.Join(c.Scratch(), fmt.Sprintf("huge-%s-%d", kind, k))
		img := &sparseImage{}
		c.Count("beyond_32_bits", 1)
		switch kind {
		case "tar":
			var b bytes.Buffer
			e := &tarEnt{Name: "huge", Type: '0', Mode: 0o600, MTime: time.Unix(1<<32+5, 0), Fmt: fmtGNU}
			e.encode(&b)
			b.Truncate(512)
			clear(b.Bytes()[124:136])
			putBase256(b.Bytes()[124:136], size)
			var raw hdrRaw
			copy(raw.b[:], b.Bytes())
			raw.sum(nil)
			copy(b.Bytes(), raw.b[:])
			img.put(0, bytes.Clone(b.Bytes()))
			img.put(int64(b.Len())+size-20, []byte("the end of the file."))
			at := (int64(b.Len()) + size + 511) &^ 511
			img.put(at, encodeTar(nil, []*tarEnt{{Name: "later", Type: '0', Mode: 0o644, MTime: time.Unix(7, 0), Fmt: fmtUstar, Data: []byte("later data")}}))
		case "ar":
			img.put(0, []byte(fmt.Sprintf("!<arch>\n%-16s%-12d%-6d%-6d%-8s%-10d`\n", "huge/", 1<<33, 0, 0, "100600", size)))
			img.put(68+size-20, []byte("the end of the file."))
			pad := "\n"[:size%2]
			img.put(68+size, []byte(pad+fmt.Sprintf("%-16s%-12d%-6d%-6d%-8s%-10d`\n%s", "later/", 2, 0, 0, "100644", 5, "later\n")))
		default:
			r := c.Rng
			t := genTree(r, GenOpt{Nodes: 5, Plain: true, NoXattr: true, Flat: true})
			t.Kids = append(t.Kids, &Node{Name: "~later", Mode: 0o600, Data: []byte(strings.Repeat("later", 2000)), MTime: time.Unix(1, 0)}, &Node{Name: "~huge", Mode: 0o600, Big: &bigData{Len: size, Seed: 3}, MTime: time.Unix(1<<32+77, 8)})
			t.sort()
			img, _, _ = buildEROFS(r, t, randEroOpt(r))
			if img.size > 1<<42 {
				continue
			}
		}
		img.writeTo(file)
		w.add(c, kind, file, fmt.Sprintf("%s archive with a file of %d bytes", kind, size), tos, []string{"later", "huge", "~huge"})
	}
	w.run(c)
}
