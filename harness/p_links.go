package main

import (
	"bytes"
	"errors"
	"fmt"
	"io/fs"
	"math/rand"
	"path"
	"sort"
	"strings"
	"time"

	"github.com/dpeckett/archivefs"
)

func init() {
	register(&Prop{
		ID: "C08",
		Rule: "One evaluation runs one path query (stat, open, list, read link, stat link) against a tar or EROFS filesystem and compares the answer with an independent resolver over the tree the archive was made from. " +
			"Non-trivial: the path goes through at least one symlink; distinct by archive and path.",
		MinEvents: []string{"queries_tar", "queries_erofs", "links_followed", "dangling", "cycles", "deep_chains", "through_link_dirs", "clamped_at_root", "deep_links"},
		Cases:     casesC08,
	})
}

// mustFollow is how many links a resolution may need before an implementation may give up.
const mustFollow = 200

var (
	errLoop   = errors.New("loop")
	errNotDir = errors.New("not a directory")
)

type resolver struct {
	root  *Node
	links int
	limit int
	clamp bool
}

type complist struct {
	name string
	next *complist
}

func pushComps(p string, l *complist) *complist {
	parts := strings.Split(p, "/")
	for i := len(parts) - 1; i >= 0; i-- {
		if parts[i] != "" && parts[i] != "." {
			l = &complist{parts[i], l}
		}
	}
	return l
}

// walk resolves a path from the directory stack.
func (v *resolver) walk(stack []*Node, p string, follow bool) ([]*Node, error) {
	comps := pushComps(p, nil)
	for comps != nil {
		comp := comps.name
		comps = comps.next
		cur := stack[len(stack)-1]
		if !cur.IsDir() {
			return nil, errNotDir
		}
		if comp == ".." {
			if len(stack) > 1 {
				stack = stack[:len(stack)-1]
			} else {
				v.clamp = true
			}
			continue
		}
		k := cur.kid(comp)
		if k == nil {
			return nil, fs.ErrNotExist
		}
		if k.IsLink() && (follow || comps != nil) {
			if v.links++; v.links > v.limit {
				return nil, errLoop
			}
			t := path.Clean(k.Target)
			if strings.HasPrefix(t, "/") {
				stack = stack[:1]
			}
			comps = pushComps(t, comps)
			continue
		}
		stack = append(stack[:len(stack):len(stack)], k)
	}
	return stack, nil
}

func (v *resolver) resolve(p string, follow bool) (*Node, error) {
	st, err := v.walk([]*Node{v.root}, p, follow)
	if err != nil {
		return nil, err
	}
	return st[len(st)-1], nil
}

// linkTree makes a tree with a web of links.
func linkTree(r *rand.Rand) *Node {
	t := genTree(r, GenOpt{Nodes: 6 + r.Intn(14), Plain: true, MaxData: 50, NoXattr: true, Links: r.Intn(2) == 0, Depth: 5, NoMeta: true})
	var dirs []*Node
	paths := map[*Node]string{}
	refresh := func() {
		dirs = nil
		t.each(func(p string, n *Node) {
			paths[n] = p
			if n.IsDir() {
				dirs = append(dirs, n)
			}
		})
	}
	if r.Intn(3) == 0 { // names that resemble something else
		odd := []string{" ", "a ", " a", "a\n", "\t", "...", "..a", ".a", "a.", "a\\b", "\\", "~", "%2f", "C:", "*", "a\x00"[:1] + "?", "\xff", "\u2215", "..\\a", "-", "$HOME", "A", "nul", "l1 ", ". ", ".. "}
		for k := 1 + r.Intn(5); k > 0; k-- {
			all := t.paths()
			p := all[1+r.Intn(len(all)-1)]
			n, d := t.find(p), t.find(path.Dir(p))
			if name := odd[r.Intn(len(odd))]; d != nil && d.kid(name) == nil {
				n.Name = name
				d.sort()
			}
		}
	}
	refresh()
	for i := 4 + r.Intn(20); i > 0; i-- {
		refresh()
		d := dirs[r.Intn(len(dirs))]
		all := t.paths()
		name := fmt.Sprintf("l%d", r.Intn(30))
		if d.kid(name) != nil {
			continue
		}
		to := all[r.Intn(len(all))]
		dp := paths[d]
		var tgt string
		switch r.Intn(12) {
		case 0:
			tgt = "."
		case 1:
			tgt = ".."
		case 2:
			tgt = strings.Repeat("../", r.Intn(8)) + to
		case 3:
			tgt = "/" + to
		case 4:
			tgt = name // itself
		case 5:
			tgt = relPath(dp, to) + "/" + fmt.Sprintf("l%d", r.Intn(30))
		case 6:
			tgt = fmt.Sprintf("l%d/l%d", r.Intn(30), r.Intn(30))
		case 7:
			tgt = "/../../" + to
		case 8:
			tgt = fmt.Sprintf("../l%d", r.Intn(30))
		case 9:
			tgt = relPath(dp, to) + "/missing"
		default:
			tgt = relPath(dp, to)
		}
		d.Kids = append(d.Kids, &Node{Name: name, Mode: fs.ModeSymlink | 0o777, Target: tgt})
		d.sort()
	}
	markTree(t)
	return t
}

// markTree makes every object recognizable.
func markTree(t *Node) {
	i := int64(0)
	t.each(func(p string, n *Node) {
		i++
		n.MTime = time.Unix(1000000+i, 0)
		if n.IsReg() {
			n.Data = []byte("this is " + p)
		}
	})
}

func walkQuery(r *rand.Rand, t *Node) string {
	v := &resolver{root: t, limit: 300}
	stack := []*Node{t}
	var out []string
	for n := 1 + r.Intn(9); n > 0; n-- {
		cur := stack[len(stack)-1]
		if !cur.IsDir() || len(cur.Kids) == 0 {
			if r.Intn(4) == 0 {
				out = append(out, "x")
			}
			break
		}
		k := cur.Kids[r.Intn(len(cur.Kids))]
		if r.Intn(3) == 0 { // prefer links
			for _, x := range cur.Kids {
				if x.IsLink() && r.Intn(2) == 0 {
					k = x
				}
			}
		}
		name := k.Name
		if r.Intn(25) == 0 {
			name = []string{"missing", name + "x", "l0", "l1"}[r.Intn(4)]
		}
		out = append(out, name)
		st, err := v.walk(stack, name, true)
		if err != nil {
			if r.Intn(3) == 0 {
				out = append(out, "y")
			}
			break
		}
		stack = st
	}
	if len(out) == 0 {
		return "."
	}
	return strings.Join(out, "/")
}

func sameObject(fi fs.FileInfo, n, root *Node) string {
	if fi.Mode().Type() != n.Mode.Type() {
		return fmt.Sprintf("it is a %v, want %v", fi.Mode(), n.Mode)
	}
	if n != root && !n.Implied && fi.ModTime().Unix() != n.MTime.Unix() {
		return fmt.Sprintf("it is another object (mtime %d, want %d)", fi.ModTime().Unix(), n.MTime.Unix())
	}
	if n.IsReg() && fi.Size() != int64(len(n.Data)) {
		return fmt.Sprintf("it has size %d, want %d", fi.Size(), len(n.Data))
	}
	return ""
}

// queryLinks checks every way of asking about a path.
func queryLinks(c *Ctx, what string, fsys fs.FS, t *Node, q string) {
	ask := func(kind string, follow bool, got error, check func(n *Node) string) {
		v := &resolver{root: t, limit: 1000}
		n, err := v.resolve(q, follow)
		c.Count("links_followed", int64(min(v.links, 1000)))
		if v.clamp {
			c.Count("clamped_at_root", 1)
		}
		if v.links > 100 && err == nil {
			c.Count("deep_chains", 1)
		}
		switch {
		case err == nil && got != nil:
			if v.links <= mustFollow && !(kind == "open" && !n.IsDir() && !n.IsReg()) {
				c.Fail("%s: %s of %.200q fails (%v), want %q", what, kind, q, got, n.Name)
			}
		case err == nil:
			if d := check(n); d != "" {
				c.Fail("%s: %s of %.200q: %s", what, kind, q, d)
			}
		case got == nil:
			if errors.Is(err, errLoop) { // a loop, or just very many links?
				n, err = (&resolver{root: t, limit: 1 << 22}).resolve(q, follow)
				if err == nil {
					if d := check(n); d != "" {
						c.Fail("%s: %s of %.200q: %s", what, kind, q, d)
					}
					return
				}
			}
			c.Fail("%s: %s of %.200q succeeds, want: %v", what, kind, q, err)
		case errors.Is(err, fs.ErrNotExist):
			if !isNotExist(got) && v.links <= mustFollow {
				c.Fail("%s: %s of %.200q does not report that it does not exist: %v", what, kind, q, got)
			}
			if v.links > 0 {
				c.Count("dangling", 1)
			}
		case errors.Is(err, errLoop):
			c.Count("cycles", 1)
		}
	}
	fi, err := fs.Stat(fsys, q)
	ask("stat", true, err, func(n *Node) string { return sameObject(fi, n, t) })

	f, err := fsys.Open(q)
	ask("open", true, err, func(n *Node) string {
		fi, err := f.Stat()
		if err != nil {
			return fmt.Sprint("stat of the open file: ", err)
		}
		return sameObject(fi, n, t)
	})
	if err == nil {
		f.Close()
	}
	data, err := fs.ReadFile(fsys, q)
	if v := (&resolver{root: t, limit: 1000}); true {
		if n, rerr := v.resolve(q, true); rerr == nil && n.IsReg() {
			ask("reading", true, err, func(n *Node) string {
				if !bytes.Equal(data, n.Data) {
					return fmt.Sprintf("got %.80q, want %.80q", data, n.Data)
				}
				return ""
			})
		} else if rerr != nil && !errors.Is(rerr, errLoop) && err == nil {
			c.Fail("%s: reading %.200q succeeds, want: %v", what, q, rerr)
		}
	}
	ents, err := fs.ReadDir(fsys, q)
	if n, rerr := (&resolver{root: t, limit: 1000}).resolve(q, true); rerr == nil && !n.IsDir() {
		if err == nil {
			c.Fail("%s: listing %.200q, a file, succeeds", what, q)
		}
	} else {
		ask("listing", true, err, func(n *Node) string {
			var got, want []string
			for _, e := range ents {
				got = append(got, e.Name())
			}
			for _, k := range n.Kids {
				want = append(want, k.Name)
			}
			sort.Strings(want)
			if fmt.Sprint(got) != fmt.Sprint(want) {
				return fmt.Sprintf("got %q, want %q", got, want)
			}
			return ""
		})
	}
	lfs := fsys.(archivefs.ReadLinkFS)
	li, err := lfs.StatLink(q)
	ask("statlink", false, err, func(n *Node) string { return sameObject(li, n, t) })
	tgt, err := lfs.ReadLink(q)
	if n, rerr := (&resolver{root: t, limit: 1000}).resolve(q, false); rerr == nil && !n.IsLink() {
		if err == nil {
			c.Fail("%s: readlink of %.200q, which is no link, gives %q", what, q, tgt)
		}
	} else {
		ask("readlink", false, err, func(n *Node) string {
			if path.Clean(tgt) != path.Clean(n.Target) {
				return fmt.Sprintf("got %.80q, want %.80q", tgt, n.Target)
			}
			return ""
		})
	}
}

// linkFSes makes a tar and an EROFS filesystem of the tree.
// depth is the number of levels below the node.
func (n *Node) depth() (d int) {
	for _, k := range n.Kids {
		d = max(d, 1+k.depth())
	}
	return
}

func linkFSes(c *Ctx, r *rand.Rand, t *Node) (out []struct {
	name string
	fs   fs.FS
	tree *Node
}) {
	ents, want := tarFromTree(r, t)
	blob := encodeTar(r, ents)
	tf, err := openTar(bytes.NewReader(blob))
	if err != nil {
		c.Fail("tar archive does not open: %v", err)
		return
	}
	o := randEroOpt(r)
	o.Ext = true
	img, want2, _ := buildEROFS(r, t, o)
	ef, err := openErofs(img)
	if err != nil {
		c.Fail("EROFS image does not open: %v", err)
		return
	}
	type x = struct {
		name string
		fs   fs.FS
		tree *Node
	}
	return append(out, x{"tar", tf, want}, x{"erofs", ef, want2})
}

func casesC08(quick bool, seed int64) []Case {
	run := func(c *Ctx, r *rand.Rand, t *Node, qs []string, i int) {
		for _, x := range linkFSes(c, r, t) {
			for _, q := range qs {
				if c.Failed() {
					c.Fail("tree %s", x.tree.describe())
					return
				}
				c.Count("queries_"+x.name, 1)
				v := &resolver{root: x.tree, limit: 1000}
				_, _ = v.resolve(q, true)
				if v.links > 0 && strings.Contains(q, "/") {
					c.Count("through_link_dirs", 1)
				}
				c.Eval([]byte(fmt.Sprint(c.ID, i, x.name, q)), v.links > 0)
				queryLinks(c, x.name, x.fs, x.tree, q)
			}
			// Whatever was asked, nothing changed.
			if x.tree.depth() > 100 {
				continue
			}
			expectTree(c, x.name, x.fs, x.tree, cmpOpt{mtime: 1, linkClean: x.name == "tar", noDirMeta: true})
		}
	}
	cs := batch("web", N(quick, 400, 12000), 4, func(c *Ctx, r *rand.Rand, i int) {
		t := linkTree(r)
		c.Sample("%s", t.describe())
		var qs []string
		seen := map[string]bool{}
		for k := 0; k < 60; k++ {
			q := walkQuery(r, t)
			if !seen[q] {
				seen[q] = true
				qs = append(qs, q)
			}
		}
		run(c, r, t, qs, i)
	})
	cs = append(cs, batch("chains", N(quick, 10, 60), 1, func(c *Ctx, r *rand.Rand, i int) {
		n := []int{2, 10, 38, 39, 40, 41, 100, 150, 199, 200}[i%10]
		t := &Node{Name: ".", Mode: fs.ModeDir | 0o755}
		d := &Node{Name: "d", Mode: fs.ModeDir | 0o755, Kids: []*Node{{Name: "file", Mode: 0o644}}}
		t.Kids = append(t.Kids, d)
		var qs []string
		for k := 0; k < n; k++ {
			tgt := fmt.Sprintf("c%d", k-1)
			if k == 0 {
				tgt = []string{"d", "/d", "./d", "../d"}[r.Intn(4)]
			} else if r.Intn(3) == 0 {
				tgt = "/" + tgt
			}
			t.Kids = append(t.Kids, &Node{Name: fmt.Sprintf("c%d", k), Mode: fs.ModeSymlink | 0o777, Target: tgt})
		}
		qs = append(qs, fmt.Sprintf("c%d", n-1), fmt.Sprintf("c%d/file", n-1), fmt.Sprintf("c%d/none", n-1), fmt.Sprintf("c%d/file", n/2))
		t.sort()
		markTree(t)
		run(c, r, t, qs, i)
	})...)
	cs = append(cs, batch("blowup", N(quick, 6, 24), 1, func(c *Ctx, r *rand.Rand, i int) {
		// Links that each name the previous one twice: the number of links followed doubles.
		n := []int{4, 6, 7, 18, 40, 60}[i%6]
		t := &Node{Name: ".", Mode: fs.ModeDir | 0o755, Kids: []*Node{{Name: "file", Mode: 0o644}, {Name: "b0", Mode: fs.ModeSymlink | 0o777, Target: "."}}}
		for k := 1; k <= n; k++ {
			t.Kids = append(t.Kids, &Node{Name: fmt.Sprintf("b%d", k), Mode: fs.ModeSymlink | 0o777, Target: fmt.Sprintf("b%d/b%d", k-1, k-1)})
		}
		t.sort()
		markTree(t)
		if n >= 40 { // no way to follow them all: refusing is right, and so is a quick right answer
			for _, x := range linkFSes(c, r, t) {
				c.Eval([]byte(fmt.Sprint("blowup", x.name, n)), true)
				q := fmt.Sprintf("b%d/file", n)
				fi, err := fs.Stat(x.fs, q)
				c.Count("cycles", 1)
				if err == nil {
					if d := sameObject(fi, x.tree.kid("file"), x.tree); d != "" {
						c.Fail("%s: stat of %q: %s", x.name, q, d)
					}
				}
				_, _ = fs.ReadFile(x.fs, q)
				_, _ = fs.ReadDir(x.fs, fmt.Sprintf("b%d", n))
				_, _ = x.fs.(archivefs.ReadLinkFS).ReadLink(q)
			}
			return
		}
		run(c, r, t, []string{fmt.Sprintf("b%d", n), fmt.Sprintf("b%d/file", n), fmt.Sprintf("b%d/b%d/file", n, n)}, i)
	})...)
	cs = append(cs, batch("deep", N(quick, 26, 130), 1, func(c *Ctx, r *rand.Rand, i int) {
		// Links far down: absolute ones, ones that climb all or almost all the way, ones that climb too far.
		n := []int{3, 17, 63, 64, 65, 100, 130, 200, 254, 255, 256, 257, 300}[i%13]
		t := &Node{Name: ".", Mode: fs.ModeDir | 0o755, Kids: []*Node{{Name: "file", Mode: 0o644}, {Name: "side", Mode: fs.ModeDir | 0o755, Kids: []*Node{{Name: "file", Mode: 0o600}}}}}
		var qs []string
		at, prefix := t, ""
		link := func(name, target string) {
			at.Kids = append(at.Kids, &Node{Name: name, Mode: fs.ModeSymlink | 0o777, Target: target})
			qs = append(qs, prefix+name)
		}
		for k := 1; k <= n; k++ {
			name := fmt.Sprintf("%c", 'a'+k%3)
			d := &Node{Name: name, Mode: fs.ModeDir | 0o755}
			at.Kids = append(at.Kids, d)
			at, prefix = d, prefix+name+"/"
			if k == n || r.Intn(1+n/12) == 0 {
				at.Kids = append(at.Kids, &Node{Name: "own", Mode: 0o640})
				link("l0", "/file")
				link("l1", strings.Repeat("../", k)+"file")
				link("l2", strings.Repeat("../", k-1)+"own")
				link("l3", strings.Repeat("../", k+1+r.Intn(9))+"side")
				link("l4", "/"+strings.TrimSuffix(prefix, "/"))
				link("l5", []string{"own", "./own", "l0", "l3/file", "l4/l1", "l4/l4/own", "../" + name + "/own", "none", "/none"}[r.Intn(9)])
				qs = append(qs, prefix+"own", prefix+"l3/file", prefix+"l4/own", prefix+"l4/l0", prefix+"l4/l3/file", prefix+"none")
				c.Count("deep_links", 1)
			}
		}
		var all func(d *Node)
		all = func(d *Node) {
			d.sort()
			for _, k := range d.Kids {
				all(k)
			}
		}
		all(t)
		markTree(t)
		r.Shuffle(len(qs), func(a, b int) { qs[a], qs[b] = qs[b], qs[a] })
		run(c, r, t, qs[:min(len(qs), 40)], i)
	})...)
	cs = append(cs, batch("loops", N(quick, 10, 200), 1, func(c *Ctx, r *rand.Rand, i int) {
		n := 1 + r.Intn(5)
		t := &Node{Name: ".", Mode: fs.ModeDir | 0o755, Kids: []*Node{{Name: "d", Mode: fs.ModeDir | 0o755, Kids: []*Node{{Name: "f", Mode: 0o600}}}}}
		var qs []string
		for k := 0; k < n; k++ {
			nx := (k + 1) % n
			tgt := []string{fmt.Sprintf("r%d", nx), fmt.Sprintf("/r%d", nx), fmt.Sprintf("r%d/x", nx), fmt.Sprintf("d/../r%d", nx), fmt.Sprintf("../r%d/..", nx)}[r.Intn(5)]
			t.Kids = append(t.Kids, &Node{Name: fmt.Sprintf("r%d", k), Mode: fs.ModeSymlink | 0o777, Target: tgt})
			qs = append(qs, fmt.Sprintf("r%d", k), fmt.Sprintf("r%d/f", k), fmt.Sprintf("r%d/r%d", k, k))
		}
		t.kid("d").Kids = append(t.kid("d").Kids, &Node{Name: "in", Mode: fs.ModeSymlink | 0o777, Target: "in/in"}, &Node{Name: "up", Mode: fs.ModeSymlink | 0o777, Target: "../d"})
		qs = append(qs, "d/in", "d/in/f", "d/up/up/up/f", "d/up/in", strings.Repeat("d/up/", 1)+"up/f", "d/"+strings.Repeat("up/", 40)+"f")
		t.sort()
		t.kid("d").sort()
		markTree(t)
		run(c, r, t, qs, i)
	})...)
	return cs
}
