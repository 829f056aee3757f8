package main

import (
	"bytes"
	"fmt"
	"io/fs"
	"math/rand"
	"path"
	"strings"
	"time"
)

// An independent tar encoder (V7, ustar, PAX, GNU, sparse).

type tarEnt struct {
	Name     string // as stored
	Type     byte
	Mode     int64
	UID, GID int64
	MTime    time.Time
	Link     string
	Data     []byte
	Sparse   []span // data regions, only for sparse encodings
	Xattr    map[string]string
	Fmt      int
	// filled by encode
	HdrOff, DataOff, End int64
}

type span struct{ off, n int64 }

const (
	fmtV7 = iota
	fmtUstar
	fmtPAX
	fmtGNU
	fmtGNUSparse
	fmtPAXSparse00
	fmtPAXSparse01
	fmtPAXSparse10
	numFmts
)

var fmtNames = []string{"v7", "ustar", "pax", "gnu", "gnu-sparse", "pax-sparse-0.0", "pax-sparse-0.1", "pax-sparse-1.0"}

func putOct(b []byte, v int64) {
	s := fmt.Sprintf("%0*o", len(b)-1, v)
	copy(b, s)
	b[len(b)-1] = 0
}

func fitsOct(n int, v int64) bool { return v >= 0 && v < 1<<(3*uint(n-1)) }

func putBase256(b []byte, v int64) {
	for i := len(b) - 1; i >= 0; i-- {
		b[i] = byte(v)
		v >>= 8
	}
	b[0] |= 0x80
}

type hdrRaw struct {
	b [512]byte
}

func (h *hdrRaw) sum(r *rand.Rand) {
	copy(h.b[148:156], "        ")
	var s int64
	for _, c := range h.b {
		s += int64(c)
	}
	copy(h.b[148:156], fmt.Sprintf("%06o\x00 ", s))
}

func pad512(b *bytes.Buffer) {
	if n := b.Len() % 512; n != 0 {
		b.Write(make([]byte, 512-n))
	}
}

func paxRecord(k, v string) string {
	n := len(k) + len(v) + 3
	l := n + len(fmt.Sprint(n))
	if len(fmt.Sprint(l)) != len(fmt.Sprint(n)) {
		l = n + len(fmt.Sprint(l))
	}
	return fmt.Sprintf("%d %s=%s\n", l, k, v)
}

func (e *tarEnt) num(f []byte, v int64) {
	switch {
	case (e.Fmt == fmtGNU || e.Fmt == fmtGNUSparse) && len(f) > 8 && len(e.Name)%3 == 0:
		putBase256(f, v) // allowed for values that would fit, too
	case fitsOct(len(f), v):
		putOct(f, v)
	case e.Fmt == fmtGNU || e.Fmt == fmtGNUSparse:
		putBase256(f, v)
	default:
		putOct(f, 0) // carried by a PAX record
	}
}

// splitPrefix finds a ustar prefix/name split.
func splitPrefix(name string) (prefix, rest string, ok bool) {
	if len(name) <= 100 {
		return "", name, true
	}
	for i := len(name) - 1; i > 0; i-- {
		if name[i] == '/' && i <= 155 && len(name)-i-1 <= 100 && i < len(name)-1 {
			return name[:i], name[i+1:], true
		}
	}
	return "", "", false
}

// canEncode reports whether the format can hold the entry exactly.
func (e *tarEnt) canEncode() bool {
	ns := e.MTime.Nanosecond() != 0
	switch e.Fmt {
	case fmtV7:
		if e.Type != '0' && e.Type != '5' && e.Type != '1' && e.Type != '2' {
			return false
		}
		n := e.Name
		if e.Type == '5' && !strings.HasSuffix(n, "/") {
			n += "/"
		}
		return len(n) <= 100 && len(e.Link) <= 100 && !ns && fitsOct(8, e.UID) && fitsOct(8, e.GID) &&
			fitsOct(12, e.MTime.Unix()) && len(e.Xattr) == 0 && !(e.Type == '0' && strings.HasSuffix(e.Name, "/"))
	case fmtUstar:
		_, _, ok := splitPrefix(e.Name)
		return ok && len(e.Link) <= 100 && !ns && fitsOct(8, e.UID) && fitsOct(8, e.GID) &&
			fitsOct(12, e.MTime.Unix()) && len(e.Xattr) == 0
	case fmtGNU, fmtGNUSparse:
		return !ns && len(e.Xattr) == 0
	}
	return true
}

func (e *tarEnt) encode(b *bytes.Buffer) {
	var h hdrRaw
	e.HdrOff = int64(b.Len())
	name, link := e.Name, e.Link
	pax := ""
	add := func(k, v string) { pax += paxRecord(k, v) }
	phys := e.Data
	typ := e.Type
	size := int64(len(e.Data))

	hb := h.b[:]
	switch e.Fmt {
	case fmtV7:
		if typ == '0' {
			typ = 0
		}
		if typ == '5' {
			typ = 0
			if !strings.HasSuffix(name, "/") {
				name += "/"
			}
		}
	case fmtUstar:
		copy(hb[257:], "ustar\x0000")
		p, n, _ := splitPrefix(name)
		copy(hb[345:500], p)
		name = n
	case fmtPAX, fmtPAXSparse00, fmtPAXSparse01, fmtPAXSparse10:
		copy(hb[257:], "ustar\x0000")
	case fmtGNU, fmtGNUSparse:
		copy(hb[257:], "ustar  \x00")
	}

	if e.Fmt == fmtGNUSparse || e.Fmt >= fmtPAXSparse00 {
		phys = nil
		for _, s := range e.Sparse {
			phys = append(phys, e.Data[s.off:s.off+s.n]...)
		}
	}

	gnuLong := func(t byte, s string) {
		var lh hdrRaw
		copy(lh.b[0:], "././@LongLink")
		putOct(lh.b[100:108], 0)
		putOct(lh.b[108:116], 0)
		putOct(lh.b[116:124], 0)
		putOct(lh.b[124:136], int64(len(s)+1))
		putOct(lh.b[136:148], 0)
		lh.b[156] = t
		copy(lh.b[257:], "ustar  \x00")
		lh.sum(nil)
		b.Write(lh.b[:])
		b.WriteString(s + "\x00")
		pad512(b)
	}

	var extra []byte // GNU sparse extension blocks
	switch e.Fmt {
	case fmtGNU, fmtGNUSparse:
		if len(link) > 100 {
			gnuLong('K', link)
			link = link[:100]
		}
		if len(name) > 100 {
			gnuLong('L', name)
			name = name[:100]
		}
		if e.Fmt == fmtGNUSparse {
			typ = 'S'
			regs := append([]span{}, e.Sparse...)
			if n := len(regs); n == 0 || regs[n-1].off+regs[n-1].n < size {
				regs = append(regs, span{size, 0})
			}
			put := func(dst []byte, s span) {
				putOct(dst[:12], s.off)
				putOct(dst[12:24], s.n)
			}
			for i := 0; i < 4 && i < len(regs); i++ {
				put(hb[386+24*i:], regs[i])
			}
			if len(regs) > 4 {
				hb[482] = 1
			}
			putOct(hb[483:495], size)
			rest := regs[min(4, len(regs)):]
			for len(rest) > 0 {
				blk := make([]byte, 512)
				for i := 0; i < 21 && i < len(rest); i++ {
					put(blk[24*i:], rest[i])
				}
				rest = rest[min(21, len(rest)):]
				if len(rest) > 0 {
					blk[504] = 1
				}
				extra = append(extra, blk...)
			}
		}
	case fmtPAX, fmtPAXSparse00, fmtPAXSparse01, fmtPAXSparse10:
		if e.Fmt >= fmtPAXSparse00 {
			regs := e.Sparse
			if n := len(regs); n == 0 || regs[n-1].off+regs[n-1].n < size {
				regs = append(append([]span{}, regs...), span{size, 0})
			}
			switch e.Fmt {
			case fmtPAXSparse00:
				add("GNU.sparse.size", fmt.Sprint(size))
				add("GNU.sparse.numblocks", fmt.Sprint(len(regs)))
				for _, s := range regs {
					add("GNU.sparse.offset", fmt.Sprint(s.off))
					add("GNU.sparse.numbytes", fmt.Sprint(s.n))
				}
			case fmtPAXSparse01:
				add("GNU.sparse.size", fmt.Sprint(size))
				add("GNU.sparse.numblocks", fmt.Sprint(len(regs)))
				var m []string
				for _, s := range regs {
					m = append(m, fmt.Sprint(s.off), fmt.Sprint(s.n))
				}
				add("GNU.sparse.map", strings.Join(m, ","))
				add("GNU.sparse.name", name)
				name = "GNUSparseFile.0/x"
			case fmtPAXSparse10:
				add("GNU.sparse.major", "1")
				add("GNU.sparse.minor", "0")
				add("GNU.sparse.name", name)
				add("GNU.sparse.realsize", fmt.Sprint(size))
				var m bytes.Buffer
				fmt.Fprintf(&m, "%d\n", len(regs))
				for _, s := range regs {
					fmt.Fprintf(&m, "%d\n%d\n", s.off, s.n)
				}
				pad512(&m)
				phys = append(m.Bytes(), phys...)
				name = "GNUSparseFile.0/x"
			}
		}
		if len(name) > 100 || e.Fmt == fmtPAX && len(pax) == 0 && len(name)%7 == 3 {
			add("path", name)
			name = "trunc-" + name[:min(len(name), 90)]
		}
		if len(link) > 100 {
			add("linkpath", link)
			link = link[:100]
		}
		if !fitsOct(8, e.UID) {
			add("uid", fmt.Sprint(e.UID))
		}
		if !fitsOct(8, e.GID) {
			add("gid", fmt.Sprint(e.GID))
		}
		if !fitsOct(12, e.MTime.Unix()) || e.MTime.Nanosecond() != 0 {
			add("mtime", paxTime(e.MTime))
		}
		for k, v := range e.Xattr {
			add("SCHILY.xattr."+k, v)
		}
		if len(name)%5 == 1 {
			add("comment", "made by the harness")
		}
		if len(pax) > 0 {
			var ph hdrRaw
			copy(ph.b[0:], "PaxHeaders.0/x")
			putOct(ph.b[100:108], 0o644)
			putOct(ph.b[108:116], 0)
			putOct(ph.b[116:124], 0)
			putOct(ph.b[124:136], int64(len(pax)))
			putOct(ph.b[136:148], 0)
			ph.b[156] = 'x'
			copy(ph.b[257:], "ustar\x0000")
			ph.sum(nil)
			b.Write(ph.b[:])
			b.WriteString(pax)
			pad512(b)
		}
	}

	copy(hb[0:100], name)
	e.num(hb[100:108], e.Mode)
	e.num(hb[108:116], e.UID)
	e.num(hb[116:124], e.GID)
	if typ == '0' || typ == 0 || typ == 'S' || typ == '7' {
		e.num(hb[124:136], int64(len(phys)))
	} else {
		putOct(hb[124:136], 0)
		phys = nil
	}
	if typ == 0 && strings.HasSuffix(name, "/") {
		putOct(hb[124:136], 0)
		phys = nil
	}
	if t := e.MTime; t.IsZero() {
		putOct(hb[136:148], 0)
	} else {
		e.num(hb[136:148], t.Unix())
	}
	hb[156] = typ
	copy(hb[157:257], link)
	if e.Fmt != fmtV7 {
		copy(hb[265:], "user")
		copy(hb[297:], "group")
	}
	h.sum(nil)
	b.Write(hb)
	b.Write(extra)
	e.DataOff = int64(b.Len())
	b.Write(phys)
	e.End = int64(b.Len())
	pad512(b)
}

func paxTime(t time.Time) string {
	s, ns := t.Unix(), t.Nanosecond()
	if ns == 0 {
		return fmt.Sprint(s)
	}
	if s >= 0 {
		return fmt.Sprintf("%d.%09d", s, ns)
	}
	// seconds below zero count towards it
	s++
	ns = 1000000000 - ns
	sign := "-"
	return fmt.Sprintf("%s%d.%09d", sign, -s, ns)
}

func globalHeader(b *bytes.Buffer) {
	rec := paxRecord("comment", "0123456789012345678901234567890123456789")
	var ph hdrRaw
	copy(ph.b[0:], "pax_global_header")
	putOct(ph.b[100:108], 0o666)
	putOct(ph.b[108:116], 0)
	putOct(ph.b[116:124], 0)
	putOct(ph.b[124:136], int64(len(rec)))
	putOct(ph.b[136:148], 0)
	ph.b[156] = 'g'
	copy(ph.b[257:], "ustar\x0000")
	ph.sum(nil)
	b.Write(ph.b[:])
	b.WriteString(rec)
	pad512(b)
}

// genSpans makes data regions of a sparse file and zeroes everything outside of them.
func genSpans(r *rand.Rand, data []byte) []span {
	var out []span
	off := int64(0)
	n := int64(len(data))
	many := r.Intn(3) == 0
	for off < n {
		var hole, reg int64
		if many {
			hole, reg = 1+int64(r.Intn(60)), 1+int64(r.Intn(40))
		} else {
			hole, reg = int64(r.Intn(3))*512*int64(r.Intn(8)), 512*int64(1+r.Intn(6))
		}
		if off > 0 && hole == 0 {
			hole = 512
		}
		end := off + hole
		if end > n {
			end = n
		}
		for i := off; i < end; i++ {
			data[i] = 0
		}
		off = end
		if off >= n {
			break
		}
		if reg > n-off {
			reg = n - off
		}
		if r.Intn(6) == 0 && off+reg == n { // end with a hole
			for i := off; i < n; i++ {
				data[i] = 0
			}
			break
		}
		out = append(out, span{off, reg})
		off += reg
	}
	return out
}

// tarFromTree turns a tree into entries, using every freedom the format leaves. The returned tree is
// what a reader has to present.
func tarFromTree(r *rand.Rand, t *Node) (ents []*tarEnt, want *Node) {
	want = t.clone()
	style := r.Intn(4) // name decoration
	deco := func(p string, dir bool) string {
		k := style
		if k == 3 {
			k = r.Intn(6)
		}
		switch k {
		case 1:
			p = "./" + p
		case 2:
			p = "/" + p
		case 4:
			p = strings.ReplaceAll(p, "/", "//")
		case 5:
			p = strings.ReplaceAll(p, "/", "/./")
		}
		if dir && r.Intn(3) > 0 {
			p += "/"
		}
		return p
	}
	base := r.Intn(numFmts + 4)
	dropDirs := r.Intn(3)
	var files []string
	want.each(func(p string, n *Node) {
		if n.IsReg() {
			files = append(files, p)
		}
	})
	mk := func(p string, n *Node) *tarEnt {
		e := &tarEnt{Name: deco(p, n.IsDir()), Mode: int64(n.Mode.Perm()), UID: int64(n.UID), GID: int64(n.GID), MTime: n.MTime, Xattr: n.Xattr}
		if n.Mode&fs.ModeSetuid != 0 {
			e.Mode |= 0o4000
		}
		if n.Mode&fs.ModeSetgid != 0 {
			e.Mode |= 0o2000
		}
		if n.Mode&fs.ModeSticky != 0 {
			e.Mode |= 0o1000
		}
		if e.MTime.IsZero() {
			e.MTime = time.Unix(0, 0)
		}
		switch {
		case n.IsDir():
			e.Type = '5'
		case n.IsLink():
			e.Type, e.Link = '2', n.Target
		default:
			e.Type, e.Data = '0', n.Data
		}
		return e
	}
	setFmt := func(e *tarEnt) {
		for try := 0; ; try++ {
			switch {
			case try > 12:
				e.Fmt = fmtPAX
			case base < numFmts && try == 0:
				e.Fmt = base
			default:
				e.Fmt = r.Intn(numFmts)
			}
			if e.Fmt >= fmtGNUSparse && (e.Type != '0' || len(e.Data) == 0) {
				continue
			}
			if e.canEncode() {
				break
			}
		}
		if e.Fmt >= fmtGNUSparse {
			e.Sparse = genSpans(r, e.Data)
		}
	}
	type pe struct {
		p string
		n *Node
		e *tarEnt
	}
	var list []pe
	want.each(func(p string, n *Node) {
		if p == "." {
			return
		}
		if n.IsDir() && len(n.Kids) > 0 && (dropDirs == 0 || dropDirs == 1 && r.Intn(2) == 0) {
			n.Implied = true
			n.Mode = 0o755 | fs.ModeDir
			return
		}
		if n.IsReg() {
			n.Data = bytes.Clone(n.Data)
		}
		e := mk(p, n)
		setFmt(e)
		list = append(list, pe{p, n, e})
	})
	want.MTime, want.UID, want.GID = time.Time{}, 0, 0
	// Hard links: to files and symlinks, in chains, anywhere in the order.
	linkable := []pe{}
	for _, x := range list {
		if !x.n.IsDir() {
			linkable = append(linkable, x)
		}
	}
	nl := 0
	if len(linkable) > 0 {
		nl = r.Intn(4)
	}
	var dirs []*Node
	dpath := map[*Node]string{}
	want.each(func(p string, n *Node) {
		if n.IsDir() {
			dirs = append(dirs, n)
			dpath[n] = p
		}
	})
	protected := map[string]bool{}
	for i := 0; i < nl; i++ {
		tgt := linkable[r.Intn(len(linkable))]
		d := dirs[r.Intn(len(dirs))]
		name := fmt.Sprintf("hard%d", r.Intn(1000))
		if d.kid(name) != nil {
			continue
		}
		k := *tgt.n
		k.Name = name
		d.Kids = append(d.Kids, &k)
		q := path.Join(dpath[d], name)
		e := mk(q, &k)
		e.Type, e.Link, e.Data = '1', deco(tgt.p, false), nil
		e.Xattr = nil
		if r.Intn(3) == 0 { // metadata of the link, not of the file: it reads as the file
			e.Mode, e.UID, e.GID, e.MTime = []int64{0, 0o777, 0o4711}[r.Intn(3)], 7, 8, time.Unix(int64(r.Intn(3)), 0)
		}
		setFmt(e)
		x := pe{q, &k, e}
		list = append(list, x)
		linkable = append(linkable, x)
		protected[tgt.p], protected[q] = true, true
	}
	want.sort()
	// The tar header of a hard link usually carries its target's metadata; xattrs come with the target.
	switch r.Intn(4) {
	case 0:
		r.Shuffle(len(list), func(i, j int) { list[i], list[j] = list[j], list[i] })
	case 1:
		for i, j := 0, len(list)-1; i < j; i, j = i+1, j-1 {
			list[i], list[j] = list[j], list[i]
		}
	}
	for _, x := range list {
		ents = append(ents, x.e)
	}
	// Superseded earlier entries of the same path.
	for i := r.Intn(3); i > 0 && len(list) > 0; i-- {
		x := list[r.Intn(len(list))]
		if protected[x.p] || x.n.IsDir() && len(x.n.Kids) > 0 && r.Intn(2) == 0 {
			continue
		}
		old := &Node{Name: x.n.Name, MTime: time.Unix(1, 0), Data: []byte("superseded content that must not be seen")}
		switch {
		case x.n.IsDir():
			old.Mode, old.Data = 0o700|fs.ModeDir, nil
		case r.Intn(3) == 0:
			old.Mode, old.Data, old.Target = 0o777|fs.ModeSymlink, nil, "superseded"
		default:
			old.Mode = 0o600
		}
		e := mk(x.p, old)
		setFmt(e)
		pos := 0
		for j, y := range ents {
			if y == x.e {
				pos = r.Intn(j + 1)
			}
		}
		ents = append(ents[:pos], append([]*tarEnt{e}, ents[pos:]...)...)
	}
	// A junk entry for the root.
	if r.Intn(3) == 0 {
		e := mk(".", &Node{Mode: 0o700 | fs.ModeDir, MTime: time.Unix(5, 0)})
		e.Name = []string{"./", ".", "/", "./."}[r.Intn(4)]
		e.Fmt = fmtUstar
		ents = append([]*tarEnt{e}, ents...)
	}
	return
}

func encodeTar(r *rand.Rand, ents []*tarEnt) []byte {
	var b bytes.Buffer
	if r != nil && r.Intn(4) == 0 {
		globalHeader(&b)
	}
	for i, e := range ents {
		e.encode(&b)
		if r != nil && i%7 == 3 && r.Intn(6) == 0 {
			globalHeader(&b)
		}
	}
	trailer := 1024
	if r != nil {
		switch r.Intn(6) {
		case 0:
			trailer = 10240 - b.Len()%10240
			if trailer < 1024 {
				trailer += 10240
			}
		case 1:
			trailer = 0 // some writers omit it
		case 2:
			trailer = 1024 + 512*r.Intn(40)
		case 3:
			b.Write(make([]byte, 1024))
			junk := make([]byte, 700)
			r.Read(junk)
			b.Write(junk) // after the end marker
			return b.Bytes()
		}
	}
	b.Write(make([]byte, trailer))
	return b.Bytes()
}
