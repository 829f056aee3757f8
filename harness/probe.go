package main

import (
	"archive/tar"
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"time"

	"github.com/dpeckett/archivefs/tarfs"
)

// Probes for the known findings: each runs the one input that fails in a process of its own.

var probes = map[string]func() []byte{
	// A sparse member that announces 2^62 bytes in three blocks.
	"tar-huge-sparse": func() []byte {
		body := "1\n4611686018427387904\n0\n"
		var b bytes.Buffer
		w := tar.NewWriter(&b)
		must(w.WriteHeader(&tar.Header{Typeflag: tar.TypeReg, Name: "GNUSparseFile.0/s", Mode: 0o644, Size: 512, Format: tar.FormatPAX}))
		_ = w
		// archive/tar cannot write sparse headers, so the extended header is made by hand.
		b.Reset()
		rec := paxRecord("GNU.sparse.major", "1") + paxRecord("GNU.sparse.minor", "0") + paxRecord("GNU.sparse.name", "s") + paxRecord("GNU.sparse.realsize", "4611686018427387904")
		hdr := func(name string, typ byte, size int) {
			h := make([]byte, 512)
			copy(h, name)
			copy(h[100:], "0000644\x000000000\x000000000\x00")
			copy(h[124:], fmt.Sprintf("%011o\x00%011o\x00", size, 0))
			h[156] = typ
			copy(h[257:], "ustar\x0000")
			fixTarSum(h)
			b.Write(h)
		}
		hdr("x", 'x', len(rec))
		b.WriteString(rec)
		pad512(&b)
		body = "0\n"
		hdr("GNUSparseFile.0/s", '0', 512)
		b.WriteString(body)
		pad512(&b)
		b.Write(make([]byte, 1024))
		return b.Bytes()
	},
	// A directory 100000 levels deep.
	"tar-deep-path": func() []byte {
		var b bytes.Buffer
		w := tar.NewWriter(&b)
		must(w.WriteHeader(&tar.Header{Typeflag: tar.TypeDir, Name: strings.Repeat("x/", 100000), Mode: 0o755, Format: tar.FormatPAX}))
		must(w.Close())
		return b.Bytes()
	},
}

func probe(name string) {
	blob := probes[name]()
	fmt.Println("opening", len(blob), "bytes")
	_, err := tarfs.Open(bytes.NewReader(blob))
	fmt.Println("opened:", err)
}

func probeKnown(c *Ctx) {
	self, err := os.Executable()
	must(err)
	for _, name := range []string{"tar-huge-sparse", "tar-deep-path"} {
		ctx, cancel := context.WithTimeout(context.Background(), 8*time.Second)
		out, _ := exec.CommandContext(ctx, self, "probe", name).CombinedOutput()
		if ctx.Err() != nil && strings.Contains(string(out), "opening") {
			c.Finding(name)
		}
		cancel()
		c.Count("probes_run", 1)
	}
}
