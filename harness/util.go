package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"path/filepath"
	"sort"

	"github.com/dpeckett/archivefs/arfs"
	"github.com/dpeckett/archivefs/erofs"
	"github.com/dpeckett/archivefs/memfs"
	"github.com/dpeckett/archivefs/tarfs"
)

// batch makes n cases of per iterations each.
func batch(name string, n, per int, fn func(c *Ctx, r *rand.Rand, i int)) []Case {
	var out []Case
	for k := 0; k < n; k++ {
		k := k
		out = append(out, Case{ID: fmt.Sprintf("%s-%04d", name, k), Run: func(c *Ctx) {
			for i := 0; i < per && !c.Failed(); i++ {
				fn(c, rand.New(rand.NewSource(c.Rng.Int63())), k*per+i)
			}
		}})
	}
	return out
}

func one(name string, fn func(c *Ctx)) Case { return Case{ID: name, Run: fn} }

// ---- the code under test behind one interface

type format struct {
	name   string
	open   func(ra io.ReaderAt) (fs.FS, error)
	create func(src fs.FS) ([]byte, error)
}

func openTar(ra io.ReaderAt) (fs.FS, error) {
	f, err := tarfs.Open(ra)
	if err != nil {
		return nil, err
	}
	return f, nil
}

func openAr(ra io.ReaderAt) (fs.FS, error) {
	f, err := arfs.Open(ra)
	if err != nil {
		return nil, err
	}
	return f, nil
}

func openErofs(ra io.ReaderAt) (fs.FS, error) {
	f, err := erofs.Open(ra)
	if err != nil {
		return nil, err
	}
	return f, nil
}

func createTar(src fs.FS) ([]byte, error) {
	var b bytes.Buffer
	err := tarfs.Create(&b, src)
	return b.Bytes(), err
}

func createAr(src fs.FS) ([]byte, error) {
	var b bytes.Buffer
	err := arfs.Create(&b, src)
	return b.Bytes(), err
}

func createErofs(src fs.FS) ([]byte, error) {
	var w memWA
	err := erofs.Create(&w, src)
	if err != nil {
		return w.b, err
	}
	return w.padded(), nil
}

// createErofsFile goes through a real file.
func createErofsFile(c *Ctx, src fs.FS) ([]byte, error) {
	f, err := os.Create(filepath.Join(c.Scratch(), fmt.Sprintf("img%d", c.Rng.Int63())))
	must(err)
	defer f.Close()
	defer os.Remove(f.Name())
	if err := erofs.Create(f, src); err != nil {
		return nil, err
	}
	b, err := os.ReadFile(f.Name())
	must(err)
	return b, nil
}

var fmtTar = format{"tar", openTar, createTar}
var fmtAr = format{"ar", openAr, createAr}
var fmtErofs = format{"erofs", openErofs, createErofs}
var formats = []format{fmtTar, fmtAr, fmtErofs}

// toMemFS loads a tree without symlinks into a memory filesystem.
func toMemFS(t *Node) (*memfs.FS, error) {
	m := memfs.New()
	var err error
	t.each(func(p string, n *Node) {
		if err != nil || p == "." {
			return
		}
		switch {
		case n.IsDir():
			err = m.MkdirAll(p, n.Mode&^fs.ModeType)
		case n.IsReg():
			err = m.WriteFile(p, n.Data, n.Mode)
		}
	})
	return m, err
}

// guard runs fn and turns a panic of the code under test into an error string.
func guard(fn func()) (p any) {
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(harnessErr); ok {
				panic(h)
			}
			p = r
		}
	}()
	fn()
	return nil
}

func isNotExist(err error) bool { return errors.Is(err, fs.ErrNotExist) }

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
