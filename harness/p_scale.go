package main

import (
	"bytes"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"strings"
	"time"

	"github.com/dpeckett/archivefs/erofs"
)

// scaleOpt says what a format can hold.
type scaleOpt struct {
	Comp   int // longest name
	Target int // longest link target, 0 for no links
	Many   int // entries of the large directory
}

const scaleKinds = 4

// scaleTree is a tree that is extreme in one respect: it has a long path, long
// names, long link targets, or many entries.
func scaleTree(r *rand.Rand, kind int, o scaleOpt) *Node {
	at := func() time.Time { return time.Unix(int64(1+r.Intn(1<<31)), 0) }
	file := func(name string) *Node {
		return &Node{Name: name, Mode: fs.FileMode(r.Intn(0o1000)), MTime: at(), Data: []byte("file " + name[:min(9, len(name))])}
	}
	dir := func(name string) *Node {
		return &Node{Name: name, Mode: fs.ModeDir | fs.FileMode(r.Intn(0o1000)), MTime: at()}
	}
	link := func(name, target string) *Node {
		return &Node{Name: name, Mode: fs.ModeSymlink | 0o777, MTime: at(), Target: target}
	}
	name := func(n int) string {
		n = min(n, o.Comp)
		return fmt.Sprintf("%x", r.Int63())[:min(6, n)] + strings.Repeat(string(rune('a'+r.Intn(26))), max(0, n-6))
	}
	root := &Node{Name: ".", Mode: fs.ModeDir | 0o755, MTime: at()}
	add := func(d *Node, k *Node) *Node {
		if d.kid(k.Name) == nil {
			d.Kids = append(d.Kids, k)
		}
		return k
	}
	switch kind % scaleKinds {
	case 0: // a long path
		d, width := root, []int{2, 6, 24}[r.Intn(3)]
		for k := 257 + r.Intn(60); k > 0; k-- {
			add(d, file("~f"))
			d = add(d, dir(name(1+r.Intn(width))))
		}
		add(d, file("end"))
		if o.Target > 0 {
			add(d, link("link", "end"))
		}
	case 1: // long names
		for _, n := range []int{100, 101, 155, 156, 254, 255, 256, 257, 300, 512, 1023, 1024, 1025, 2049, 4095, 4096, 4097, 5000} {
			if n > o.Comp {
				continue
			}
			add(root, file(name(n)))
			add(root, dir(name(n)))
			d := add(root, dir(name(n)))
			add(d, file(name(n)))
			if o.Target > 0 {
				add(d, link(name(n), "x"))
			}
			add(add(d, dir(name(n))), file(name(n)))
		}
	case 2: // long link targets
		if o.Target == 0 {
			return scaleTree(r, kind+1, o)
		}
		d := add(root, dir("d"))
		for _, n := range []int{100, 101, 255, 256, 257, 1023, 1024, 1025, 2047, 2048, 2049, 4094, 4095, 4096, 4097, 9000, 32767, 32768, 65535, 65536, 70000} {
			if n > o.Target {
				continue
			}
			t := ""
			for len(t) < n {
				t += name(1+r.Intn(200)) + "/"
			}
			t = strings.TrimSuffix(t[:n], "/")
			if len(t) < n {
				t += "x"
			}
			add([]*Node{root, d}[r.Intn(2)], link(fmt.Sprint("l", n), t))
			add(d, file(fmt.Sprint("f", n)))
		}
	case 3: // many entries
		d := add(root, dir("many"))
		for k := 0; k < o.Many; k++ {
			n := &Node{Name: fmt.Sprintf("%06d", k), Mode: 0o640, MTime: time.Unix(int64(k), 0)}
			if k%16 == 0 {
				n.Mode = fs.ModeDir | 0o750
			} else if k%9 == 0 {
				n.Data = []byte(n.Name)
			}
			d.Kids = append(d.Kids, n)
		}
	}
	root.each(func(_ string, n *Node) { n.sort() })
	return root
}

// scale is a batch of checks of extreme trees.
func scale(quick bool, o scaleOpt, fn func(c *Ctx, r *rand.Rand, t *Node, i int)) []Case {
	kinds := scaleKinds
	if o.Many == 0 {
		kinds--
	}
	return batch("scale", kinds*N(quick, 2, 20), 1, func(c *Ctx, r *rand.Rand, i int) {
		oo := o
		if i >= kinds { // many entries once are enough
			oo.Many = min(o.Many, 3000)
		}
		t := scaleTree(r, i%kinds, oo)
		c.Count("extreme_trees", 1)
		fn(c, r, t, i)
	})
}

// checkVast opens images with a file of more bytes than could ever be read.
func checkVast(c *Ctx, r *rand.Rand, i int) {
	size := []int64{1<<40 + 4097, 1<<43 - 1, 1<<47 + 12345}[i%3]
	big := &bigData{Len: size, Seed: uint64(i)}
	t := genTree(r, GenOpt{Nodes: 5, Plain: true, NoXattr: true})
	t.Kids = append(t.Kids, &Node{Name: "~vast", Mode: 0o640, Big: big, MTime: time.Unix(77, 8)})
	t.sort()
	o := randEroOpt(r)
	o.Bits = 16
	img, want, _ := buildEROFS(r, t, o)
	c.Eval([]byte(fmt.Sprint("vast", img.size)), true)
	c.Count("vast_files", 1)
	fsys, err := erofs.Open(img)
	if err != nil {
		c.Fail("image with a file of %d bytes does not open: %v", size, err)
		return
	}
	fi, err := fs.Stat(fsys, "~vast")
	if err != nil || fi.Size() != size || fi.Mode() != 0o640 || fi.ModTime().Unix() != want.find("~vast").MTime.Unix() {
		c.Fail("stat of a file of %d bytes: %v %v", size, infoString(fi), err)
		return
	}
	f, err := fsys.Open("~vast")
	if err != nil {
		c.Fail("file of %d bytes does not open: %v", size, err)
		return
	}
	defer f.Close()
	got, exp := make([]byte, 300000), make([]byte, 300000)
	if _, err := io.ReadFull(f, got); err != nil {
		c.Fail("the start of a file of %d bytes cannot be read: %v", size, err)
		return
	}
	if big.fill(exp, 0); !bytes.Equal(got, exp) {
		c.Fail("the start of a file of %d bytes: %s", size, diffBytes(got, exp))
	}
}
