package main

import (
	"bytes"
	"errors"
	"fmt"
	"io/fs"
	"math/rand"
	"strconv"
	"strings"
	"time"
)

// An independent ar codec.

type arMember struct {
	Name                  string
	MTime, UID, GID, Mode string // as stored, trimmed
	Data                  []byte
	Slash                 bool // GNU style name/
	ZeroSize              int  // width the size is padded to with zeros
	HdrOff, DataOff, End  int64
}

func (m *arMember) header() []byte {
	n := m.Name
	if m.Slash {
		n += "/"
	}
	if len(n) < 16 {
		n += strings.Repeat(" ", 16-len(n)) // fmt would count runes
	}
	return []byte(n + fmt.Sprintf("%-12s%-6s%-6s%-8s%-10s`\n", m.MTime, m.UID, m.GID, m.Mode, fmt.Sprintf("%0*d", m.ZeroSize, len(m.Data))))
}

func encodeAr(ms []*arMember, finalPad bool) []byte {
	b := bytes.NewBufferString("!<arch>\n")
	for i, m := range ms {
		m.HdrOff = int64(b.Len())
		b.Write(m.header())
		m.DataOff = int64(b.Len())
		b.Write(m.Data)
		m.End = int64(b.Len())
		if len(m.Data)%2 == 1 && (i < len(ms)-1 || finalPad) {
			b.WriteByte('\n')
		}
	}
	return b.Bytes()
}

// decodeAr is a strict reader of ar archives with short names.
func decodeAr(b []byte) (out []*arMember, err error) {
	if !bytes.HasPrefix(b, []byte("!<arch>\n")) {
		return nil, errors.New("bad magic")
	}
	off := 8
	for off < len(b) {
		if off%2 != 0 {
			return nil, fmt.Errorf("member header at odd offset %d", off)
		}
		if len(b)-off < 60 {
			return nil, fmt.Errorf("trailing %d bytes at %d", len(b)-off, off)
		}
		h := b[off : off+60]
		if h[58] != '`' || h[59] != '\n' {
			return nil, fmt.Errorf("bad terminator at %d", off)
		}
		f := func(a, e int) string { return strings.TrimRight(string(h[a:e]), " ") }
		m := &arMember{Name: f(0, 16), MTime: f(16, 28), UID: f(28, 34), GID: f(34, 40), Mode: f(40, 48), HdrOff: int64(off)}
		for i, s := range []string{m.MTime, m.UID, m.GID} {
			if _, err := strconv.ParseInt(s, 10, 64); err != nil {
				return nil, fmt.Errorf("field %d of %q: %v", i, m.Name, err)
			}
		}
		if _, err := strconv.ParseUint(m.Mode, 8, 32); err != nil {
			return nil, fmt.Errorf("mode of %q: %v", m.Name, err)
		}
		n, err := strconv.ParseUint(f(48, 58), 10, 40)
		if err != nil {
			return nil, fmt.Errorf("size of %q: %v", m.Name, err)
		}
		if uint64(len(b)-off-60) < n {
			return nil, fmt.Errorf("data of %q is cut short", m.Name)
		}
		m.Data = b[off+60 : off+60+int(n)]
		m.DataOff = int64(off + 60)
		off += 60 + int(n)
		m.End = int64(off)
		if n%2 == 1 {
			if off >= len(b) {
				return nil, fmt.Errorf("no padding after %q", m.Name)
			}
			off++
		}
		out = append(out, m)
	}
	return out, nil
}

// unixMode converts to the bits stored in archives.
func unixMode(m fs.FileMode) int64 {
	v := int64(m.Perm())
	if m&fs.ModeSetuid != 0 {
		v |= 0o4000
	}
	if m&fs.ModeSetgid != 0 {
		v |= 0o2000
	}
	if m&fs.ModeSticky != 0 {
		v |= 0o1000
	}
	return v
}

func goMode(v int64) fs.FileMode {
	m := fs.FileMode(v & 0o777)
	if v&0o4000 != 0 {
		m |= fs.ModeSetuid
	}
	if v&0o2000 != 0 {
		m |= fs.ModeSetgid
	}
	if v&0o1000 != 0 {
		m |= fs.ModeSticky
	}
	return m
}

// genArArchive makes an archive and the tree it stores.
func genArArchive(r *rand.Rand, n int) (ms []*arMember, want *Node, blob []byte) {
	want = &Node{Name: ".", Mode: fs.ModeDir}
	gnu := r.Intn(3) // 0: never a trailing slash, 1: always, 2: mixed
	regType := r.Intn(2) == 0
	blankAll := r.Intn(6) == 0
	if r.Intn(4) == 0 { // GNU symbol table
		d := make([]byte, 4*r.Intn(10)+r.Intn(2))
		r.Read(d)
		ms = append(ms, &arMember{Name: "/", MTime: "0", UID: "0", GID: "0", Mode: "0", Data: d})
	}
	o := &GenOpt{MaxName: 16}
	for i := 0; i < n; i++ {
		slash := gnu == 1 || gnu == 2 && r.Intn(2) == 0
		if slash {
			o.MaxName = 15
		} else {
			o.MaxName = 16
		}
		name := genName(r, o)
		if strings.HasSuffix(name, " ") {
			continue
		}
		if r.Intn(16) == 0 { // looks like padding
			name = "\n" + name[:min(len(name), o.MaxName-1)]
		}
		if strings.HasSuffix(name, " ") {
			continue
		}
		if i > 0 && r.Intn(8) == 0 && len(want.Kids) > 0 {
			name = want.Kids[r.Intn(len(want.Kids))].Name // replaced later
			if slash && len(name) > 15 {
				slash = false
			}
		}
		mode := int64(r.Intn(0o10000))
		if r.Intn(3) > 0 {
			mode &= 0o777
		}
		k := &Node{Name: name, Mode: goMode(mode), Data: genData(r, 70000)}
		mt := []int64{0, 1, 1700000000, 1<<31 - 1, 1 << 31, 1 << 33, 999999999999, -5}[r.Intn(8)]
		uid := []int{0, 1, 1000, 65534, 65535, 65536, 999999}[r.Intn(7)]
		gid := []int{0, 1, 100, 65534, 65535, 65536, 999999}[r.Intn(7)]
		m := &arMember{Name: name, Slash: slash, MTime: fmt.Sprint(mt), UID: fmt.Sprint(uid), GID: fmt.Sprint(gid), Data: k.Data}
		if r.Intn(6) == 0 { // decimal numbers with zeros in front
			m.MTime, m.UID, m.GID = fmt.Sprintf("%0*d", 2+r.Intn(11), mt), fmt.Sprintf("%0*d", 2+r.Intn(5), uid), fmt.Sprintf("%0*d", 2+r.Intn(5), gid)
			m.ZeroSize = 2 + r.Intn(9)
		}
		if regType {
			mode |= 0o100000
		}
		switch r.Intn(3) {
		case 0:
			m.Mode = fmt.Sprintf("%o", mode)
		case 1:
			m.Mode = fmt.Sprintf("%07o", mode)
		default:
			m.Mode = fmt.Sprintf("%08o", mode)
		}
		if blankAll || r.Intn(12) == 0 {
			m.MTime, mt = "", 0
		}
		if blankAll || r.Intn(12) == 0 {
			m.UID, uid = "", 0
		}
		if blankAll || r.Intn(12) == 0 {
			m.GID, gid = "", 0
		}
		k.MTime, k.UID, k.GID = time.Unix(mt, 0), uid, gid
		if old := want.kid(name); old != nil {
			want.remove(old)
		}
		want.Kids = append(want.Kids, k)
		ms = append(ms, m)
	}
	want.sort()
	return ms, want, encodeAr(ms, r.Intn(2) == 0)
}
