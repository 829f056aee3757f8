package main

import (
	"archive/tar"
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"strconv"
	"strings"
)

// seedArchive makes a small valid archive of one of the formats, with the offsets of its structures.
type seedArchive struct {
	kind string
	blob []byte
	offs []int // starts of headers, inodes, directory entries
}

func genSeed(r *rand.Rand, kind string) *seedArchive {
	s := &seedArchive{kind: kind}
	switch kind {
	case "tar":
		o := GenOpt{Nodes: 1 + r.Intn(8), Links: true, MaxData: 1500}
		ents, _ := tarFromTree(r, genTree(r, o))
		s.blob = encodeTar(r, ents)
		for i := 0; i+512 <= len(s.blob); i += 512 {
			if tarSumOK(s.blob[i : i+512]) {
				s.offs = append(s.offs, i)
			}
		}
	case "ar":
		ms, _, blob := genArArchive(r, 1+r.Intn(5))
		s.blob = blob
		for _, m := range ms {
			s.offs = append(s.offs, int(m.HdrOff))
		}
	default:
		o := randEroOpt(r)
		if r.Intn(2) == 0 {
			o.Bits = uint(9 + r.Intn(4))
		}
		o.MetaBlk = min(o.MetaBlk, 6)
		g := GenOpt{Nodes: 1 + r.Intn(10), Links: true, MaxData: 1200, NoXattr: true}
		if r.Intn(4) == 0 {
			g.BigDir = 40
		}
		t := genTree(r, g)
		addHardAndSpecial(r, t)
		if r.Intn(6) == 0 {
			blob, err := createErofs(newModelFS(genTree(r, g), FSOpts{Link: 2}))
			if err == nil {
				s.blob = blob
				s.offs = []int{1024}
				for i := 0; i < 12; i++ {
					s.offs = append(s.offs, 4096+32*r.Intn(40))
				}
				return s
			}
		}
		img, _, exp := buildEROFS(r, t, o)
		if img.size > 1<<22 {
			return genSeed(r, kind)
		}
		s.blob = img.bytes()
		s.offs = append(s.offs, 1024, 1024)
		for _, p := range sortedKeys(exp) {
			e := exp[p]
			off := int(o.MetaBlk<<o.Bits) + int(e.Nid)*32
			s.offs = append(s.offs, off)
			if e.Size > 0 && r.Intn(2) == 0 { // its data
				if raw := int(binary.LittleEndian.Uint32(s.blob[off+16:])) << o.Bits; raw < len(s.blob) {
					s.offs = append(s.offs, raw)
				}
			}
		}
	}
	return s
}

func tarSumOK(h []byte) bool {
	if bytes.Equal(h, make([]byte, 512)) {
		return false
	}
	v, err := strconv.ParseInt(strings.Trim(string(h[148:156]), " \x00"), 8, 64)
	if err != nil {
		return false
	}
	return v == tarSum(h)
}

func tarSum(h []byte) (n int64) {
	for i, b := range h {
		if i >= 148 && i < 156 {
			b = ' '
		}
		n += int64(b)
	}
	return
}

func fixTarSum(h []byte) { copy(h[148:156], fmt.Sprintf("%06o\x00 ", tarSum(h))) }

func fixErofsSum(b []byte) {
	if len(b) < 1152 || b[1024+12] > 20 {
		return
	}
	bs := 1 << b[1024+12]
	end := (1024 + 128 + bs - 1) / bs * bs
	if end > len(b) {
		end = len(b)
	}
	blk := bytes.Clone(b[1024:end])
	copy(blk[4:8], []byte{0, 0, 0, 0})
	binary.LittleEndian.PutUint32(b[1028:], crc32c(blk, 0xffffffff))
}

var hostileInts = []uint64{0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff,
	0x100000000, 0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff, 0xfffffffffffff000, 0x7ffffffffffff000, 1 << 40, 1 << 52, 12, 13, 24, 4096, 4095, 4097, 511, 512, 513}

func hostileInt(r *rand.Rand, n int) uint64 {
	switch r.Intn(6) {
	case 0:
		return uint64(r.Intn(n + 1))
	case 1:
		return uint64(int64(n) + int64(r.Intn(65)) - 32)
	case 2:
		return r.Uint64() >> uint(r.Intn(64))
	}
	return hostileInts[r.Intn(len(hostileInts))]
}

var tarFields = [][2]int{{0, 100}, {100, 8}, {108, 8}, {116, 8}, {124, 12}, {136, 12}, {148, 8}, {156, 1}, {157, 100}, {257, 6}, {263, 2}, {265, 32}, {297, 32}, {329, 8}, {337, 8}, {345, 155}, {386, 12}, {398, 12}, {482, 1}, {483, 12}}

var arFields = [][2]int{{0, 16}, {16, 12}, {28, 6}, {34, 6}, {40, 8}, {48, 10}, {58, 2}}

func hostileText(r *rand.Rand, n, size int) []byte {
	s := ""
	switch r.Intn(9) {
	case 0:
		s = strconv.FormatUint(hostileInt(r, size), 10)
	case 1:
		s = strconv.FormatUint(hostileInt(r, size), 8)
	case 2:
		s = "-" + strconv.Itoa(r.Intn(1000))
	case 3:
		s = strings.Repeat([]string{"9", "7", " ", "\x00", "a", "0", "\xff"}[r.Intn(7)], n)
	case 4:
		s = []string{"../x", "/", "//", "..", ".", "", "a/../..", "a//b", "/abs", "x/"}[r.Intn(10)]
	case 5:
		s = "+" + strconv.Itoa(r.Intn(1000))
	case 6:
		s = "0x1f"
	case 7:
		b := make([]byte, n)
		r.Read(b)
		s = string(b)
	default:
		b := make([]byte, 8)
		binary.BigEndian.PutUint64(b, hostileInt(r, size))
		s = "\x80\x00\x00\x00" + string(b)
		if r.Intn(2) == 0 {
			s = "\xff\xff\xff\xff" + string(b)
		}
	}
	out := bytes.Repeat([]byte{[]byte(" \x00")[r.Intn(2)]}, n)
	copy(out, s)
	return out[:n]
}

// mutate damages a copy of the archive in a few places.
func mutate(r *rand.Rand, s *seedArchive) []byte {
	b := bytes.Clone(s.blob)
	for k := 1 + r.Intn(4); k > 0 && len(b) > 0; k-- {
		switch r.Intn(12) {
		case 0: // bit
			b[r.Intn(len(b))] ^= 1 << r.Intn(8)
		case 1: // byte
			b[r.Intn(len(b))] = byte(r.Intn(256))
		case 2: // cut
			b = b[:r.Intn(len(b)+1)]
		case 3: // repeat or move a part
			if len(b) > 64 {
				n := 1 + r.Intn(min(2048, len(b)/2))
				copy(b[r.Intn(len(b)-n):], bytes.Clone(b[r.Intn(len(b)-n):][:n]))
			}
		case 4: // grow
			x := make([]byte, r.Intn(5000))
			if r.Intn(2) == 0 {
				r.Read(x)
			}
			b = append(b, x...)
		default:
			if len(s.offs) == 0 {
				continue
			}
			at := s.offs[r.Intn(len(s.offs))]
			switch s.kind {
			case "tar":
				if at+512 > len(b) {
					continue
				}
				f := tarFields[r.Intn(len(tarFields))]
				copy(b[at+f[0]:at+f[0]+f[1]], hostileText(r, f[1], len(b)))
				if f[0] == 156 {
					b[at+156] = "01234567xgKLSDMNVX\x00A"[r.Intn(20)]
				}
				if r.Intn(10) > 0 {
					fixTarSum(b[at : at+512])
				}
				if r.Intn(3) == 0 && at+1024 <= len(b) { // the block after it
					body := b[at+512 : at+1024]
					switch r.Intn(3) {
					case 0:
						copy(body, fmt.Sprintf("%d GNU.sparse.%s=%d\n", r.Intn(60), []string{"major", "numblocks", "size", "map", "offset", "realsize"}[r.Intn(6)], r.Intn(100)))
					case 1:
						rec := paxRecord([]string{"size", "path", "linkpath", "mtime", "uid", "GNU.sparse.major", "GNU.sparse.minor", "GNU.sparse.realsize", "GNU.sparse.name", "GNU.sparse.map", "GNU.sparse.numblocks", "SCHILY.xattr.x"}[r.Intn(12)],
							strings.Trim(string(hostileText(r, 1+r.Intn(20), len(b))), "\x00"))
						copy(body, rec)
					default:
						body[r.Intn(512)] = "0123456789 =\n"[r.Intn(13)]
					}
				}
			case "ar":
				if at+60 > len(b) {
					continue
				}
				f := arFields[r.Intn(len(arFields))]
				copy(b[at+f[0]:at+f[0]+f[1]], hostileText(r, f[1], len(b)))
			default:
				n := []int{1, 2, 4, 8}[r.Intn(4)]
				off := at + r.Intn(68)
				if r.Intn(2) == 0 {
					off = at + []int{0, 2, 4, 6, 8, 12, 14, 16, 32, 36, 40, 80}[r.Intn(12)]
				}
				if off+n > len(b) {
					continue
				}
				v := hostileInt(r, len(b))
				for i := 0; i < n; i++ {
					b[off+i] = byte(v >> (8 * i))
				}
				if at == 1024 && r.Intn(3) > 0 {
					binary.LittleEndian.PutUint32(b[1024:], 0xE0F5E1E2)
				}
			}
		}
	}
	if s.kind == "erofs" && r.Intn(10) > 0 {
		fixErofsSum(b)
	}
	return b
}

// rawInput makes bytes that are no mutation of an archive.
func rawInput(r *rand.Rand, kind string) []byte {
	b := make([]byte, r.Intn(3000))
	switch r.Intn(3) {
	case 0:
		r.Read(b)
	case 1:
		for i := range b {
			b[i] = "0123456789 /\n`!<arch>\x00ax"[r.Intn(24)]
		}
	}
	switch kind {
	case "ar":
		if r.Intn(4) > 0 {
			b = append([]byte("!<arch>\n"), b...)
		}
	case "tar":
		if len(b) >= 512 && r.Intn(4) > 0 {
			copy(b[257:], "ustar\x0000")
			for i := 0; i+512 <= len(b); i += 512 {
				if r.Intn(2) == 0 {
					copy(b[i+100:], "0000644\x000000000\x000000000\x00")
					copy(b[i+124:], fmt.Sprintf("%011o\x00%011o\x00", r.Intn(2000), r.Intn(1<<30)))
					b[i+156] = "01235xgL"[r.Intn(8)]
					fixTarSum(b[i : i+512])
				}
			}
		}
	default:
		if len(b) >= 1200 && r.Intn(4) > 0 {
			binary.LittleEndian.PutUint32(b[1024:], 0xE0F5E1E2)
			b[1024+12] = byte(9 + r.Intn(8))
			if r.Intn(2) == 0 {
				b[1024+8] = 0
				copy(b[1024+80:1024+84], []byte{0, 0, 0, 0})
			}
		}
	}
	return b
}

// hugeSparse reports whether a tar archive announces sparse members of a large logical size. Opening those
// takes time in proportion to that size (a known finding), so they are kept out of the other cases.
func hugeSparse(b []byte) (yes bool) {
	defer func() {
		if recover() != nil {
			yes = false
		}
	}()
	tr := tar.NewReader(bytes.NewReader(b))
	for i := 0; i < 100000; i++ {
		h, err := tr.Next()
		if err != nil {
			return false
		}
		sparse := h.Typeflag == tar.TypeGNUSparse
		for k := range h.PAXRecords {
			sparse = sparse || strings.HasPrefix(k, "GNU.sparse.")
		}
		if sparse && h.Size > 16<<20 {
			return true
		}
	}
	return false
}

// weirdPath makes a path string, sometimes from known names.
func weirdPath(r *rand.Rand, names []string) string {
	n := func() string {
		if len(names) == 0 || r.Intn(5) == 0 {
			return []string{"a", "..", ".", "", "x y", "\x00", "\xff", "aa", "very-long-" + strings.Repeat("n", 300)}[r.Intn(9)]
		}
		return names[r.Intn(len(names))]
	}
	switch r.Intn(12) {
	case 0:
		return []string{"", ".", "/", "..", "../..", "//", "./", "/.", "\x00", "\\", "C:\\", "./.", "../", "...", "/../x"}[r.Intn(15)]
	case 1:
		return "/" + n()
	case 2:
		return n() + "/"
	case 3:
		return n() + "/../" + n()
	case 4:
		return "../" + n()
	case 5:
		return strings.Repeat(n()+"/", 1+r.Intn(200)) + n()
	case 6:
		b := make([]byte, r.Intn(40))
		r.Read(b)
		return string(b)
	case 7:
		return n() + "//" + n()
	default:
		var p []string
		for i := 1 + r.Intn(5); i > 0; i-- {
			p = append(p, n())
		}
		return strings.Join(p, "/")
	}
}
