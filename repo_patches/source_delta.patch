From 04982ab156ff4ce9d774b978601441715636f27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:29 +0000
Subject: [PATCH 01/62] fix: tarfs: keep the metadata of directories listed
 before their children

---
 tarfs/tarfs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 9e7e20e..af767c4 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -84,6 +84,10 @@ func Open(ra io.ReaderAt) (*FS, error) {
 		for dir := filepath.Dir(h.Name); dir != "." && dir != "/"; dir = filepath.Dir(dir) {
 			// Create a default directory entry if it doesn't exist.
 			// Don't worry if we see one later, we'll just overwrite it.
+			if existing, ok := dirents[dir]; ok && existing.Typeflag == tar.TypeDir {
+				continue
+			}
+
 			dirents[dir] = &dirent{
 				Header: tar.Header{
 					Typeflag: tar.TypeDir,
-- 
2.43.0


From 43f02e35471f59842021c9b8af158103a810f579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:30 +0000
Subject: [PATCH 02/62] fix: tarfs: do not strip leading dots and surrounding
 spaces from names

---
 tarfs/tarfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index af767c4..511edf2 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -285,7 +285,7 @@ func resolve(root *dirent, name string) (*dirent, error) {
 }
 
 func sanitizePath(name string) string {
-	return strings.TrimPrefix(strings.TrimPrefix(filepath.Clean(filepath.ToSlash(strings.TrimSpace(name))), "."), "/")
+	return strings.TrimPrefix(filepath.ToSlash(filepath.Clean("/"+filepath.ToSlash(name))), "/")
 }
 
 type file struct {
-- 
2.43.0


From e22986321b020093a54262c1d1bc0b0466dda0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:30 +0000
Subject: [PATCH 03/62] fix: tarfs: resolve symlinks relative to their
 directory and bound link cycles

---
 tarfs/tarfs.go | 58 +++++++++++++++++++++++++++++---------------------
 1 file changed, 34 insertions(+), 24 deletions(-)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 511edf2..db656ca 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -29,6 +29,9 @@ var (
 	_ archivefs.ReadLinkFS = (*FS)(nil)
 )
 
+// maxSymlinks is the maximum number of symlinks followed when resolving a path.
+const maxSymlinks = 255
+
 type FS struct {
 	root dirent
 }
@@ -248,37 +251,44 @@ func (fsys *FS) StatLink(name string) (fs.FileInfo, error) {
 
 func resolve(root *dirent, name string) (*dirent, error) {
 	d := root
+	links := 0
 
-	name = sanitizePath(name)
-	if name == "" {
-		return d, nil
-	}
+	components := strings.Split(sanitizePath(name), "/")
+	for len(components) > 0 {
+		component := components[0]
+		components = components[1:]
+
+		switch component {
+		case "", ".":
+			continue
+		case "..":
+			// The parent of the root directory is the root directory.
+			if d.parent != nil {
+				d = d.parent
+			}
+			continue
+		}
 
-	for _, component := range strings.Split(name, "/") {
-		var found bool
-		d, found = d.findChild(component)
+		child, found := d.findChild(component)
 		if !found {
 			return nil, fs.ErrNotExist
 		}
 
-		if d.Type()&fs.ModeSymlink != 0 {
-			// Resolve the symlink.
-			target := d.Linkname
-
-			var err error
-			if !filepath.IsAbs(target) && d.parent != nil {
-				d, err = resolve(d.parent, target)
-				if err != nil {
-					return nil, err
-				}
-			} else {
-				// The target is an absolute path or the dirent is the root dirent.
-				d, err = resolve(root, target)
-				if err != nil {
-					return nil, err
-				}
-			}
+		if child.Type()&fs.ModeSymlink == 0 {
+			d = child
+			continue
+		}
+
+		if links++; links > maxSymlinks {
+			return nil, errors.New("too many levels of symbolic links")
+		}
+
+		// Absolute targets start at the root, relative targets at the directory
+		// containing the symlink.
+		if filepath.IsAbs(child.Linkname) {
+			d = root
 		}
+		components = append(strings.Split(child.Linkname, "/"), components...)
 	}
 
 	return d, nil
-- 
2.43.0


From f82813bcf2a477e44044d4d3f5144625180df188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:31 +0000
Subject: [PATCH 04/62] fix: tarfs: treat ./ symlink targets as relative to the
 link, not to the archive root

---
 tarfs/tarfs.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index db656ca..fbd7719 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -75,11 +75,7 @@ func Open(ra io.ReaderAt) (*FS, error) {
 			continue
 		}
 
-		// Make archive relative paths absolute.
 		if h.Typeflag == tar.TypeSymlink {
-			if strings.HasPrefix(h.Linkname, "./") {
-				h.Linkname = strings.TrimPrefix(h.Linkname, ".")
-			}
 			h.Linkname = filepath.Clean(h.Linkname)
 		}
 
-- 
2.43.0


From 935ca36b8f388083055be96959783d612b64f497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:32 +0000
Subject: [PATCH 05/62] fix: tarfs: resolve chains of hardlinks independently
 of map order

---
 tarfs/tarfs.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index fbd7719..cf36490 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -109,10 +109,18 @@ func Open(ra io.ReaderAt) (*FS, error) {
 	// Point hardlinks to the underlying dirent.
 	for path, d := range dirents {
 		if d.Typeflag == tar.TypeLink {
-			name := sanitizePath(d.Linkname)
-			target, ok := dirents[name]
-			if !ok {
-				return nil, fmt.Errorf("failed to resolve hardlink %q: %w", name, fs.ErrNotExist)
+			// The target may be another hardlink, follow the chain to its end.
+			target := d
+			for hops := 0; target.Typeflag == tar.TypeLink; hops++ {
+				name := sanitizePath(target.Linkname)
+				next, ok := dirents[name]
+				if !ok {
+					return nil, fmt.Errorf("failed to resolve hardlink %q: %w", name, fs.ErrNotExist)
+				}
+				if hops > len(dirents) {
+					return nil, fmt.Errorf("failed to resolve hardlink %q: link cycle", name)
+				}
+				target = next
 			}
 
 			targetCopy := *target
-- 
2.43.0


From 875f8fbc5601d25fd60a2040d11a57fea449242d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:33 +0000
Subject: [PATCH 06/62] fix: tarfs: do not panic when opening the root or an
 implied directory

---
 tarfs/tarfs.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index cf36490..7746d61 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -164,6 +164,11 @@ func (fsys *FS) Open(name string) (fs.File, error) {
 		return nil, err
 	}
 
+	// The root and implied directories have no entry (and no data) of their own.
+	if d.data == nil {
+		return &file{dirent: d, r: strings.NewReader("")}, nil
+	}
+
 	tr := tar.NewReader(d.data())
 	if _, err := tr.Next(); err != nil {
 		return nil, fmt.Errorf("failed to read file %s: %w", name, err)
-- 
2.43.0


From da226bf2dc57431d522e19f1e4d5f42037843436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:34 +0000
Subject: [PATCH 07/62] fix: tarfs: fail to list something that is not a
 directory

---
 tarfs/tarfs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 7746d61..9b2e659 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -183,6 +183,10 @@ func (fsys *FS) ReadDir(name string) ([]fs.DirEntry, error) {
 		return nil, err
 	}
 
+	if !d.IsDir() {
+		return nil, errors.New("not a directory")
+	}
+
 	var children []fs.DirEntry
 	for _, child := range d.children {
 		children = append(children, child)
-- 
2.43.0


From 537ccf0efa81d6d5e7aa63ac08447519d643cd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:34 +0000
Subject: [PATCH 08/62] fix: tarfs: report GNU sparse files as regular files

---
 tarfs/tarfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 9b2e659..9282161 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -368,7 +368,7 @@ func (d *dirent) IsDir() bool {
 
 func (d *dirent) Type() fs.FileMode {
 	switch d.Typeflag {
-	case tar.TypeReg:
+	case tar.TypeReg, tar.TypeGNUSparse:
 		return 0
 	case tar.TypeSymlink:
 		return fs.ModeSymlink
-- 
2.43.0


From d967924025a48428265ce31d8c9497137fef7e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:35 +0000
Subject: [PATCH 09/62] fix: tarfs: accept the root and unclean paths in
 ReadLink and StatLink

---
 tarfs/tarfs.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 9282161..1f818e8 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -228,6 +228,11 @@ func (fsys *FS) Stat(name string) (fs.FileInfo, error) {
 // Experimental implementation of fs.ReadLinkFS:
 // https://github.com/golang/go/issues/49580
 func (fsys *FS) ReadLink(name string) (string, error) {
+	name = sanitizePath(name)
+	if name == "" {
+		return "", fs.ErrInvalid
+	}
+
 	d, err := resolve(&fsys.root, filepath.Dir(name))
 	if err != nil {
 		return "", err
@@ -249,6 +254,11 @@ func (fsys *FS) ReadLink(name string) (string, error) {
 // Experimental implementation of fs.ReadLinkFS:
 // https://github.com/golang/go/issues/49580
 func (fsys *FS) StatLink(name string) (fs.FileInfo, error) {
+	name = sanitizePath(name)
+	if name == "" {
+		return fsys.Stat(name)
+	}
+
 	d, err := resolve(&fsys.root, filepath.Dir(name))
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 1062c0d37162b1a4fbf85fc205597d896de7afc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:36 +0000
Subject: [PATCH 10/62] fix: tarfs: report errors from finishing the archive in
 Create

---
 tarfs/create.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tarfs/create.go b/tarfs/create.go
index b8a105e..fe5d9d6 100644
--- a/tarfs/create.go
+++ b/tarfs/create.go
@@ -21,9 +21,8 @@ import (
 // Create creates a tar archive from the given filesystem.
 func Create(dst io.Writer, src fs.FS) error {
 	tw := tar.NewWriter(dst)
-	defer tw.Close()
 
-	return fs.WalkDir(src, ".", func(path string, d fs.DirEntry, err error) error {
+	err := fs.WalkDir(src, ".", func(path string, d fs.DirEntry, err error) error {
 		if err != nil {
 			return err
 		}
@@ -79,4 +78,9 @@ func Create(dst io.Writer, src fs.FS) error {
 
 		return nil
 	})
+	if err != nil {
+		return err
+	}
+
+	return tw.Close()
 }
-- 
2.43.0


From 2a1e48c380cc3ff64dc119e28c2f1c19ce92ebf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:24 +0000
Subject: [PATCH 11/62] fix: arfs: do not strip leading dots from names

---
 arfs/arfs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index 0102238..adb69fe 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -175,7 +175,7 @@ func parseArEntry(line []byte) (*Entry, error) {
 	fileMode := (&tar.Header{Mode: int64(mode)}).FileInfo().Mode()
 
 	e := Entry{
-		Filename: sanitizePath(string(line[0:16])),
+		Filename: sanitizePath(strings.TrimRight(string(line[0:16]), " ")),
 		FileMode: fileMode,
 	}
 
@@ -214,7 +214,7 @@ func checkAr(ra io.ReaderAt) (int64, error) {
 }
 
 func sanitizePath(name string) string {
-	return strings.TrimPrefix(strings.TrimPrefix(filepath.Clean(filepath.ToSlash(strings.TrimSpace(name))), "."), "/")
+	return strings.TrimPrefix(filepath.ToSlash(filepath.Clean("/"+filepath.ToSlash(name))), "/")
 }
 
 type file struct {
-- 
2.43.0


From 6845e6f6d0337e5ffa8983c56cd61dd965c3fbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:25 +0000
Subject: [PATCH 12/62] fix: arfs: reject partial member headers, accept full
 reads that report EOF

---
 arfs/arfs.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index adb69fe..d9c6343 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -69,18 +69,16 @@ func Open(ra io.ReaderAt) (*FS, error) {
 		line := make([]byte, 60)
 
 		n, err := ra.ReadAt(line, offset)
-		if err != nil {
-			if errors.Is(err, io.EOF) {
-				break
+		if n != 60 {
+			if err != nil && !errors.Is(err, io.EOF) {
+				return nil, err
 			}
 
-			return nil, err
-		}
+			// The archive may be padded with a trailing newline.
+			if n == 0 || (n == 1 && line[0] == '\n') {
+				break
+			}
 
-		if n == 1 && line[0] == '\n' {
-			return nil, io.EOF
-		}
-		if n != 60 {
 			return nil, errors.New("short read")
 		}
 
@@ -204,7 +202,7 @@ func parseArEntry(line []byte) (*Entry, error) {
 // like an `ar(1)` archive, and not some random file.
 func checkAr(ra io.ReaderAt) (int64, error) {
 	header := make([]byte, 8)
-	if _, err := ra.ReadAt(header, 0); err != nil {
+	if n, err := ra.ReadAt(header, 0); n != len(header) {
 		return 0, err
 	}
 	if string(header) != "!<arch>\n" {
-- 
2.43.0


From 8662186dbeeebe1e6a5bda0159b532ce5d9bca15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:26 +0000
Subject: [PATCH 13/62] fix: arfs: check both bytes of the member header
 terminator

---
 arfs/arfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index d9c6343..afa3be1 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -160,7 +160,7 @@ func parseArEntry(line []byte) (*Entry, error) {
 		return nil, errors.New("malformed file entry line length")
 	}
 
-	if line[58] != 0x60 && line[59] != 0x0A {
+	if line[58] != 0x60 || line[59] != 0x0A {
 		return nil, errors.New("malformed file entry line endings")
 	}
 
-- 
2.43.0


From 3c84b5e63b88af75b5d440ee5f19e40f97cce547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:26 +0000
Subject: [PATCH 14/62] fix: arfs: reject negative member sizes

---
 arfs/arfs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index afa3be1..894aa8d 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -195,6 +195,10 @@ func parseArEntry(line []byte) (*Entry, error) {
 		*target = int64(intValue)
 	}
 
+	if e.FileSize < 0 {
+		return nil, errors.New("negative entry size")
+	}
+
 	return &e, nil
 }
 
-- 
2.43.0


From 97d398e40e7dfce664aa9f0d611e3e1fe3c5933d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:27 +0000
Subject: [PATCH 15/62] fix: arfs: reject archives with truncated member data

---
 arfs/arfs.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index 894aa8d..7e91503 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -92,6 +92,18 @@ func Open(ra io.ReaderAt) (*FS, error) {
 		}
 
 		begin := offset + int64(n)
+
+		// Make sure the data has not been truncated.
+		if e.FileSize > 0 {
+			if n, err := ra.ReadAt(make([]byte, 1), begin+e.FileSize-1); n != 1 {
+				if err == nil || errors.Is(err, io.EOF) {
+					err = io.ErrUnexpectedEOF
+				}
+
+				return nil, fmt.Errorf("failed to read data of %s: %w", e.Filename, err)
+			}
+		}
+
 		e.data = func() io.Reader {
 			return io.NewSectionReader(ra, begin, e.FileSize)
 		}
-- 
2.43.0


From 1997777a41a384e648917059b2e6829eace6943e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:28 +0000
Subject: [PATCH 16/62] fix: arfs: do not list the GNU symbol table or unnamed
 members as files

---
 arfs/arfs.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index 7e91503..07c30cc 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -87,7 +87,10 @@ func Open(ra io.ReaderAt) (*FS, error) {
 			return nil, err
 		}
 
-		if strings.Contains(e.Filename, "/") {
+		// The GNU symbol table is not a file.
+		symbolTable := strings.TrimRight(string(line[0:16]), " ") == "/"
+
+		if strings.Contains(e.Filename, "/") || (e.Filename == "" && !symbolTable) {
 			return nil, fmt.Errorf("invalid filename: %s", e.Filename)
 		}
 
@@ -109,7 +112,9 @@ func Open(ra io.ReaderAt) (*FS, error) {
 		}
 		offset += int64(n) + e.FileSize + (e.FileSize % 2)
 
-		entries[e.Filename] = e
+		if !symbolTable {
+			entries[e.Filename] = e
+		}
 	}
 
 	return &FS{entries: entries}, nil
-- 
2.43.0


From 404b5b66e7e8fd52a1aed29253aed75ca9745a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:29 +0000
Subject: [PATCH 17/62] fix: arfs: allow opening the root directory

---
 arfs/arfs.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index 07c30cc..0e9b38b 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -124,6 +124,15 @@ func Open(ra io.ReaderAt) (*FS, error) {
 func (fsys *FS) Open(name string) (fs.File, error) {
 	name = sanitizePath(name)
 
+	if name == "" {
+		root := &Entry{
+			Filename: ".",
+			FileMode: fs.ModeDir,
+		}
+
+		return &file{Entry: root, Reader: strings.NewReader("")}, nil
+	}
+
 	e, ok := fsys.entries[name]
 	if !ok {
 		return nil, fs.ErrNotExist
-- 
2.43.0


From 75c3da560d4f1dd356ecbc4e1412756190dd3602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:30 +0000
Subject: [PATCH 18/62] fix: arfs: refuse names in Create that an ar header
 cannot represent

---
 arfs/create.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/arfs/create.go b/arfs/create.go
index a76be3d..98964c5 100644
--- a/arfs/create.go
+++ b/arfs/create.go
@@ -16,6 +16,7 @@ import (
 	"io"
 	"io/fs"
 	"strconv"
+	"strings"
 )
 
 // Create creates an ar(1) archive from the given filesystem.
@@ -71,6 +72,11 @@ func writeArHeader(w io.Writer, hdr *tar.Header) error {
 		return fmt.Errorf("file name too long: %s", name)
 	}
 
+	// Names are padded with spaces and cannot contain path separators.
+	if name != hdr.Name || strings.HasSuffix(name, " ") || strings.Contains(name, "/") {
+		return fmt.Errorf("unsupported file name: %q", hdr.Name)
+	}
+
 	// Construct the ar(1) header
 	arHeader := fmt.Sprintf(
 		"%-16s%-12s%-6s%-6s%-8s%-10s`\n",
-- 
2.43.0


From d7398f2abc76ec2088be8492e5c0101c15b5ac9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:31 +0000
Subject: [PATCH 19/62] fix: arfs: refuse metadata in Create that does not fit
 into its header field

---
 arfs/create.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/arfs/create.go b/arfs/create.go
index 98964c5..504dbd7 100644
--- a/arfs/create.go
+++ b/arfs/create.go
@@ -88,6 +88,11 @@ func writeArHeader(w io.Writer, hdr *tar.Header) error {
 		fmt.Sprintf("%-10d", hdr.Size),
 	)
 
+	// A value too wide for its field would shift all of the following fields.
+	if len(arHeader) != 60 {
+		return fmt.Errorf("file metadata does not fit into the ar header: %s", name)
+	}
+
 	// Write the ar header to the output
 	if _, err := io.WriteString(w, arHeader); err != nil {
 		return err
-- 
2.43.0


From 40a2fa247a66d1365938b47ebc8e2fc3c20a6aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:32 +0000
Subject: [PATCH 20/62] fix: arfs: fail Create when a file does not have its
 announced size

---
 arfs/create.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arfs/create.go b/arfs/create.go
index 504dbd7..4fc97e0 100644
--- a/arfs/create.go
+++ b/arfs/create.go
@@ -115,6 +115,10 @@ func writeArData(w io.Writer, src fs.FS, path string, size int64) error {
 		return err
 	}
 
+	if n != size {
+		return fmt.Errorf("size of %s changed while reading: expected %d bytes, got %d", path, size, n)
+	}
+
 	// Handle padding if the file size is odd (ar format requires even size)
 	if n%2 != 0 {
 		if _, err := io.WriteString(w, "\n"); err != nil {
-- 
2.43.0


From 262da93467caf1c6f58944feeb598ebb68769669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:32 +0000
Subject: [PATCH 21/62] fix: arfs: refuse devices, pipes and sockets in Create

---
 arfs/create.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arfs/create.go b/arfs/create.go
index 4fc97e0..b4d3de6 100644
--- a/arfs/create.go
+++ b/arfs/create.go
@@ -40,6 +40,10 @@ func Create(dst io.Writer, src fs.FS) error {
 			return errors.New("symlinks are not supported")
 		}
 
+		if !d.Type().IsRegular() {
+			return errors.New("only regular files are supported")
+		}
+
 		fi, err := d.Info()
 		if err != nil {
 			return err
-- 
2.43.0


From 6a9a40a7cb50960837f84bc969be7aebc74998ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:33 +0000
Subject: [PATCH 22/62] fix: arfs: preserve ownership when copying from an ar
 archive

---
 arfs/create.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/arfs/create.go b/arfs/create.go
index b4d3de6..7e4389b 100644
--- a/arfs/create.go
+++ b/arfs/create.go
@@ -54,6 +54,11 @@ func Create(dst io.Writer, src fs.FS) error {
 			return err
 		}
 
+		// Preserve the ownership of files copied from another ar archive.
+		if e, ok := fi.Sys().(*Entry); ok {
+			hdr.Uid, hdr.Gid = int(e.Uid), int(e.Gid)
+		}
+
 		// Write ar(1) header for the file
 		if err := writeArHeader(dst, hdr); err != nil {
 			return err
-- 
2.43.0


From d2020683472887c334e9d886c5b7b14c0d36219d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:06 +0000
Subject: [PATCH 23/62] fix: erofs: return errors from reading inodes instead
 of panicking

---
 erofs/erofs.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/erofs/erofs.go b/erofs/erofs.go
index 28998b3..98b7f33 100644
--- a/erofs/erofs.go
+++ b/erofs/erofs.go
@@ -236,12 +236,12 @@ func (f *file) Stat() (fs.FileInfo, error) {
 }
 
 type dirEntry struct {
-	image         *Image
-	name          string
-	typ           uint8
-	nid           uint64
-	readInodeOnce sync.Once
-	inode         *Inode
+	image   *Image
+	name    string
+	typ     uint8
+	nid     uint64
+	inodeMu sync.Mutex
+	inode   *Inode
 }
 
 func (de *dirEntry) Name() string {
@@ -294,13 +294,16 @@ func (de *dirEntry) lookup(name string) (*dirEntry, error) {
 }
 
 func (de *dirEntry) getInode() (Inode, error) {
-	de.readInodeOnce.Do(func() {
+	de.inodeMu.Lock()
+	defer de.inodeMu.Unlock()
+
+	if de.inode == nil {
 		ino, err := de.image.Inode(de.nid)
 		if err != nil {
-			panic(err)
+			return Inode{}, err
 		}
 		de.inode = &ino
-	})
+	}
 
 	return *de.inode, nil
 }
-- 
2.43.0


From 5949eddcb335e253e2f2e57c16c21af8156e1724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:07 +0000
Subject: [PATCH 24/62] fix: erofs: validate the block size and checksum small
 blocks correctly

---
 erofs/reader.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/erofs/reader.go b/erofs/reader.go
index e31e4a1..fa5238e 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -228,6 +228,11 @@ func (i *Image) initSuperBlock() error {
 		return fmt.Errorf("unknown magic: 0x%x", i.sb.Magic)
 	}
 
+	// The same range of block sizes as supported by Linux.
+	if i.sb.BlockSizeBits < 9 || i.sb.BlockSizeBits > 16 {
+		return fmt.Errorf("unsupported block size bits: %d", i.sb.BlockSizeBits)
+	}
+
 	if err := i.verifyChecksum(); err != nil {
 		return err
 	}
@@ -257,7 +262,7 @@ func (i *Image) verifyChecksum() error {
 	checksum := crc32.Checksum(marshalledSb.Bytes(), table)
 
 	off := SuperBlockOffset + int64(binary.Size(i.sb))
-	if buf, err := i.bytesAt(off, int64(i.BlockSize())-off); err != nil {
+	if buf, err := i.bytesAt(off, roundUp(off, int64(i.BlockSize()))-off); err != nil {
 		return errors.New("image size is too small")
 	} else {
 		checksum = ^crc32.Update(checksum, table, buf)
-- 
2.43.0


From 2ac2f3136bd39eec8112f7cdb8d7c23b1248b5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:08 +0000
Subject: [PATCH 25/62] fix: erofs: reject inodes with impossible sizes

---
 erofs/reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/erofs/reader.go b/erofs/reader.go
index fa5238e..3b32f55 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -39,6 +39,7 @@ import (
 	"hash/crc32"
 	"io"
 	"io/fs"
+	"math"
 )
 
 const (
@@ -424,6 +425,9 @@ func (i *Image) Inode(nid uint64) (Inode, error) {
 	}
 
 	blockSize := int64(i.BlockSize())
+	if inode.size > math.MaxInt64-uint64(blockSize) {
+		return Inode{}, fmt.Errorf("invalid size at inode %d", nid)
+	}
 	inode.blocks = (int64(inode.size) + (blockSize - 1)) / blockSize
 
 	switch dataLayout := inode.DataLayout(); dataLayout {
-- 
2.43.0


From ab0a377d303f8c63fa33c78abb6324f75cacef61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:09 +0000
Subject: [PATCH 26/62] fix: erofs: accept directory blocks with large padding
 after the last name

---
 erofs/reader.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/erofs/reader.go b/erofs/reader.go
index 3b32f55..60c0a32 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -699,6 +699,18 @@ func (ino *Inode) getDirentName(d *Dirent, direntOff int64, block blockData, las
 	var nameLen uint32
 	if lastDirent {
 		nameLen = block.size - uint32(d.NameOff)
+
+		// Optional padding of any size may exist at the end of a block, the name
+		// ends at the first NUL byte.
+		if uint32(d.NameOff) < block.size && nameLen > MaxNameLen {
+			name, err := ino.image.bytesAt(int64(block.base)+int64(d.NameOff), MaxNameLen+1)
+			if err != nil {
+				return nil, err
+			}
+			if n := bytes.IndexByte(name, 0); n > 0 {
+				nameLen = uint32(n)
+			}
+		}
 	} else {
 		next, err := ino.image.direntAt(direntOff + DirentSize)
 		if err != nil {
-- 
2.43.0


From 27efb7d59ff72817e64061c7012cf207e8af2d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:10 +0000
Subject: [PATCH 27/62] fix: erofs: report the setuid, setgid and sticky bits

---
 erofs/reader.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/erofs/reader.go b/erofs/reader.go
index 60c0a32..cc3e027 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -588,6 +588,15 @@ func (ino *Inode) MtimeNsec() uint32 {
 func (ino *Inode) Mode() fs.FileMode {
 	mode := fs.FileMode(ino.mode) & fs.ModePerm
 
+	if ino.mode&S_ISUID != 0 {
+		mode |= fs.ModeSetuid
+	}
+	if ino.mode&S_ISGID != 0 {
+		mode |= fs.ModeSetgid
+	}
+	if ino.mode&S_ISVTX != 0 {
+		mode |= fs.ModeSticky
+	}
 	if ino.IsDir() {
 		mode |= fs.ModeDir
 	}
-- 
2.43.0


From 3a3fde5e3be3c0308b22352a1f8a845f2f26dc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:11 +0000
Subject: [PATCH 28/62] fix: erofs: use the io/fs representation of character
 devices

---
 erofs/constants.go | 4 ++--
 erofs/reader.go    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/erofs/constants.go b/erofs/constants.go
index 3e33128..6303a2f 100644
--- a/erofs/constants.go
+++ b/erofs/constants.go
@@ -32,7 +32,7 @@ func fileTypeFromFileMode(mode fs.FileMode) uint8 {
 		return FT_SYMLINK
 	case fs.ModeDevice:
 		return FT_BLKDEV
-	case fs.ModeCharDevice:
+	case fs.ModeCharDevice, fs.ModeDevice | fs.ModeCharDevice:
 		return FT_CHRDEV
 	case fs.ModeNamedPipe:
 		return FT_FIFO
@@ -68,7 +68,7 @@ func statModeFromFileMode(mode fs.FileMode) uint16 {
 		stMode |= S_IFLNK
 	case fs.ModeDevice:
 		stMode |= S_IFBLK
-	case fs.ModeCharDevice:
+	case fs.ModeCharDevice, fs.ModeDevice | fs.ModeCharDevice:
 		stMode |= S_IFCHR
 	case fs.ModeNamedPipe:
 		stMode |= S_IFIFO
diff --git a/erofs/reader.go b/erofs/reader.go
index cc3e027..d704ead 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -601,7 +601,7 @@ func (ino *Inode) Mode() fs.FileMode {
 		mode |= fs.ModeDir
 	}
 	if ino.IsCharDev() {
-		mode |= fs.ModeCharDevice
+		mode |= fs.ModeDevice | fs.ModeCharDevice
 	}
 	if ino.IsBlockDev() {
 		mode |= fs.ModeDevice
-- 
2.43.0


From a6b118c2a486338d4033add517d191958287e488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:12 +0000
Subject: [PATCH 29/62] fix: erofs: report the nanoseconds of the modification
 time

---
 erofs/erofs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/erofs/erofs.go b/erofs/erofs.go
index 98b7f33..dbe68cc 100644
--- a/erofs/erofs.go
+++ b/erofs/erofs.go
@@ -327,7 +327,7 @@ func (fi *fileInfo) Mode() fs.FileMode {
 }
 
 func (fi *fileInfo) ModTime() time.Time {
-	return time.Unix(int64(fi.inode.Mtime()), 0)
+	return time.Unix(int64(fi.inode.Mtime()), int64(fi.inode.MtimeNsec()))
 }
 
 func (fi *fileInfo) IsDir() bool {
-- 
2.43.0


From 80238c58e78d8145311c80d763b84796b78d30df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:13 +0000
Subject: [PATCH 30/62] fix: erofs: handle reads ending at the end of the image

---
 erofs/reader.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/erofs/reader.go b/erofs/reader.go
index d704ead..29c6aee 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -455,8 +455,9 @@ func (i *Image) Inode(nid uint64) (Inode, error) {
 // bytesAt returns the bytes at [off, off+n) of the image.
 func (i *Image) bytesAt(off, n int64) ([]byte, error) {
 	buf := make([]byte, n)
-	if _, err := i.src.ReadAt(buf, off); err != nil {
-		return nil, err
+	// A full read may report EOF when it ends at the end of the image.
+	if n, err := i.src.ReadAt(buf, off); n < len(buf) {
+		return nil, unexpectedEOF(err)
 	}
 	return buf, nil
 }
@@ -464,12 +465,21 @@ func (i *Image) bytesAt(off, n int64) ([]byte, error) {
 func (i *Image) unmarshalFrom(off int64, data any) error {
 	if err := binary.Read(io.NewSectionReader(i.src, off, int64(binary.Size(data))),
 		binary.LittleEndian, data); err != nil {
-		return err
+		return unexpectedEOF(err)
 	}
 
 	return nil
 }
 
+// unexpectedEOF converts an EOF within a structure of the image (which means that
+// the image is truncated) so that it isn't mistaken for the end of a file.
+func unexpectedEOF(err error) error {
+	if err == nil || errors.Is(err, io.EOF) {
+		return io.ErrUnexpectedEOF
+	}
+	return err
+}
+
 // checkInodeAlignment checks whether off matches inode's alignment requirement.
 func checkInodeAlignment(off int64) bool {
 	// Each valid inode should be aligned with an inode slot, which is
-- 
2.43.0


From be9322989e3feebf49c421c39088f9b0210b146f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:14 +0000
Subject: [PATCH 31/62] fix: erofs: report truncated file data as an error

---
 erofs/reader.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/erofs/reader.go b/erofs/reader.go
index 29c6aee..0f801e8 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -462,6 +462,26 @@ func (i *Image) bytesAt(off, n int64) ([]byte, error) {
 	return buf, nil
 }
 
+// sectionReader returns a reader of the bytes at [off, off+n) of the image, which
+// fails with io.ErrUnexpectedEOF if the image ends before.
+func (i *Image) sectionReader(off, n int64) io.Reader {
+	return &exactReader{r: io.NewSectionReader(i.src, off, n), remaining: n}
+}
+
+type exactReader struct {
+	r         io.Reader
+	remaining int64
+}
+
+func (e *exactReader) Read(p []byte) (int, error) {
+	n, err := e.r.Read(p)
+	e.remaining -= int64(n)
+	if err == io.EOF && e.remaining > 0 {
+		err = io.ErrUnexpectedEOF
+	}
+	return n, err
+}
+
 func (i *Image) unmarshalFrom(off int64, data any) error {
 	if err := binary.Read(io.NewSectionReader(i.src, off, int64(binary.Size(data))),
 		binary.LittleEndian, data); err != nil {
@@ -643,15 +663,15 @@ func (ino *Inode) GID() uint32 {
 func (ino *Inode) Data() (io.Reader, error) {
 	switch dataLayout := ino.DataLayout(); dataLayout {
 	case InodeDataLayoutFlatPlain:
-		return io.NewSectionReader(ino.image.src, int64(ino.dataOff), int64(ino.size)), nil
+		return ino.image.sectionReader(ino.dataOff, int64(ino.size)), nil
 
 	case InodeDataLayoutFlatInline:
 		readers := make([]io.Reader, 0, 2)
 		idataSize := ino.size & (uint64(ino.image.BlockSize()) - 1)
 		if ino.size > idataSize {
-			readers = append(readers, io.NewSectionReader(ino.image.src, int64(ino.dataOff), int64(ino.size-idataSize)))
+			readers = append(readers, ino.image.sectionReader(ino.dataOff, int64(ino.size-idataSize)))
 		}
-		readers = append(readers, io.NewSectionReader(ino.image.src, int64(ino.idataOff), int64(idataSize)))
+		readers = append(readers, ino.image.sectionReader(ino.idataOff, int64(idataSize)))
 		return io.MultiReader(readers...), nil
 
 	default:
-- 
2.43.0


From 68727571f9a20110a2c9cabd6441d768fa683e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:15 +0000
Subject: [PATCH 32/62] fix: erofs: resolve symlinks relative to their real
 directory and bound link cycles

---
 erofs/erofs.go | 48 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/erofs/erofs.go b/erofs/erofs.go
index dbe68cc..6a174c6 100644
--- a/erofs/erofs.go
+++ b/erofs/erofs.go
@@ -41,6 +41,9 @@ var (
 	_ fs.StatFS    = (*Filesystem)(nil)
 )
 
+// maxSymlinks is the maximum number of symlinks followed when resolving a path.
+const maxSymlinks = 255
+
 type Filesystem struct {
 	image *Image
 	root  *dirEntry
@@ -57,6 +60,7 @@ func Open(src io.ReaderAt) (*Filesystem, error) {
 		image: image,
 		root: &dirEntry{
 			image: image,
+			name:  ".",
 			nid:   image.RootNid(),
 			typ:   FT_DIR,
 		},
@@ -167,11 +171,27 @@ func (fsys *Filesystem) StatLink(name string) (fs.FileInfo, error) {
 }
 
 func (fsys *Filesystem) resolve(name string, noResolveLastSymlink bool) (*dirEntry, error) {
-	de := fsys.root
+	// The chain of directories from the root to the current position.
+	chain := []*dirEntry{fsys.root}
+	links := 0
 
 	components := splitPath(name)
-	for i, comp := range components {
-		child, err := de.lookup(comp)
+	for len(components) > 0 {
+		comp := components[0]
+		components = components[1:]
+
+		switch comp {
+		case ".":
+			continue
+		case "..":
+			// The parent of the root directory is the root directory.
+			if len(chain) > 1 {
+				chain = chain[:len(chain)-1]
+			}
+			continue
+		}
+
+		child, err := chain[len(chain)-1].lookup(comp)
 		if err != nil {
 			return nil, err
 		}
@@ -181,28 +201,30 @@ func (fsys *Filesystem) resolve(name string, noResolveLastSymlink bool) (*dirEnt
 			return nil, err
 		}
 
-		if ino.IsSymlink() && !(noResolveLastSymlink && i == len(components)-1) {
+		if ino.IsSymlink() && !(noResolveLastSymlink && len(components) == 0) {
+			if links++; links > maxSymlinks {
+				return nil, errors.New("too many levels of symbolic links")
+			}
+
 			link, err := ino.Readlink()
 			if err != nil {
 				return nil, err
 			}
 			link = filepath.Clean(link)
 
+			// Absolute targets start at the root, relative targets at the
+			// directory containing the symlink.
 			if strings.HasPrefix(link, "/") {
-				link = strings.TrimPrefix(link, "/")
-			} else {
-				link = filepath.Join(strings.Join(components[:i], "/"), link)
+				chain = chain[:1]
 			}
 
-			child, err = fsys.resolve(link, noResolveLastSymlink)
-			if err != nil {
-				return nil, err
-			}
+			components = append(splitPath(link), components...)
+			continue
 		}
 
-		de = child
+		chain = append(chain, child)
 	}
-	return de, nil
+	return chain[len(chain)-1], nil
 }
 
 type file struct {
-- 
2.43.0


From 5cbebac93873d66869868ddc73943e2e756da08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:16 +0000
Subject: [PATCH 33/62] fix: erofs: reject directory entries with a path
 separator in their name

---
 erofs/reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/erofs/reader.go b/erofs/reader.go
index 0f801e8..40a10d6 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -775,6 +775,9 @@ func (ino *Inode) getDirentName(d *Dirent, direntOff int64, block blockData, las
 			name = name[:n]
 		}
 	}
+	if bytes.IndexByte(name, '/') != -1 {
+		return nil, errors.New("corrupted dirent")
+	}
 	return name, nil
 }
 
-- 
2.43.0


From fe56b5400e1a68229b384e23f220cab84eb84b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:17 +0000
Subject: [PATCH 34/62] fix: erofs: report the stored type of entries whose
 inode cannot be read

---
 erofs/constants.go | 21 +++++++++++++++++++++
 erofs/erofs.go     |  3 ++-
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/erofs/constants.go b/erofs/constants.go
index 6303a2f..0729f95 100644
--- a/erofs/constants.go
+++ b/erofs/constants.go
@@ -43,6 +43,27 @@ func fileTypeFromFileMode(mode fs.FileMode) uint8 {
 	}
 }
 
+func fileModeFromFileType(typ uint8) fs.FileMode {
+	switch typ {
+	case FT_REG_FILE:
+		return 0
+	case FT_DIR:
+		return fs.ModeDir
+	case FT_CHRDEV:
+		return fs.ModeDevice | fs.ModeCharDevice
+	case FT_BLKDEV:
+		return fs.ModeDevice
+	case FT_FIFO:
+		return fs.ModeNamedPipe
+	case FT_SOCK:
+		return fs.ModeSocket
+	case FT_SYMLINK:
+		return fs.ModeSymlink
+	default:
+		return fs.ModeIrregular
+	}
+}
+
 // Values for mode_t.
 const (
 	S_IFMT   = 0170000
diff --git a/erofs/erofs.go b/erofs/erofs.go
index 6a174c6..5874b93 100644
--- a/erofs/erofs.go
+++ b/erofs/erofs.go
@@ -277,7 +277,8 @@ func (de *dirEntry) IsDir() bool {
 func (de *dirEntry) Type() fs.FileMode {
 	ino, err := de.getInode()
 	if err != nil {
-		return 0
+		// Fall back to the type stored in the directory.
+		return fileModeFromFileType(de.typ)
 	}
 
 	return ino.Mode()
-- 
2.43.0


From ec0b2e58f70f861473355069040a59af53ad3bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:18 +0000
Subject: [PATCH 35/62] fix: erofs: do not inline the data of empty files,
 which makes them unreadable

---
 erofs/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/erofs/writer.go b/erofs/writer.go
index ff65dcd..8349a65 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -105,7 +105,7 @@ func (w *writer) firstPass() (metaSize, dataSize int64, err error) {
 		}
 		_ = data.Close()
 
-		inlined := size <= MaxInlineDataSize
+		inlined := size > 0 && size <= MaxInlineDataSize
 		if inlined {
 			// if the size of the inode and data exceeds the block size, we need to
 			// pad to the next block boundary before inlining the data.
-- 
2.43.0


From ad5229ce78958b850bfc25d33c68de6fac333ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:19 +0000
Subject: [PATCH 36/62] fix: erofs: sort all directory entries written by
 Create

---
 erofs/writer.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/erofs/writer.go b/erofs/writer.go
index 8349a65..72f13ee 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -19,6 +19,7 @@ import (
 	"math"
 	"os"
 	"path/filepath"
+	"sort"
 	"time"
 )
 
@@ -367,6 +368,10 @@ func (w *writer) dataForInode(path string, ino any) (io.ReadCloser, int64, error
 			names = append(names, de.Name())
 		}
 
+		// Entries must be strictly sorted by name, and not all names sort after
+		// "." and "..".
+		sort.Sort(&direntsByName{dirents: dirents, names: names})
+
 		buf, err := encodeDirents(dirents, names)
 		if err != nil {
 			return nil, 0, fmt.Errorf("failed to encode directory entries: %w", err)
@@ -464,6 +469,18 @@ func encodeDirents(dirents []Dirent, names []string) ([]byte, error) {
 	return buf.Bytes(), nil
 }
 
+type direntsByName struct {
+	dirents []Dirent
+	names   []string
+}
+
+func (d *direntsByName) Len() int           { return len(d.names) }
+func (d *direntsByName) Less(i, j int) bool { return d.names[i] < d.names[j] }
+func (d *direntsByName) Swap(i, j int) {
+	d.dirents[i], d.dirents[j] = d.dirents[j], d.dirents[i]
+	d.names[i], d.names[j] = d.names[j], d.names[i]
+}
+
 type direntBlock struct {
 	entries []Dirent
 	names   []string
-- 
2.43.0


From afb5337df48ea5e95e0c11d1e4a8e398c416da8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:20 +0000
Subject: [PATCH 37/62] fix: erofs: point . and .. entries written by Create at
 the right inodes

---
 erofs/writer.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/erofs/writer.go b/erofs/writer.go
index 72f13ee..aa128ce 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -335,11 +335,17 @@ func (w *writer) dataForInode(path string, ino any) (io.ReadCloser, int64, error
 			return nil, 0, fmt.Errorf("failed to read directory entries: %w", err)
 		}
 
-		dirents := []Dirent{{FileType: uint8(fileTypeFromFileMode(fs.ModeDir))}}
+		dirents := []Dirent{{
+			Nid:      uint64(inodeNumber(ino)),
+			FileType: uint8(fileTypeFromFileMode(fs.ModeDir)),
+		}}
 		names := []string{"."}
 
 		if path != "." {
-			dirents = append(dirents, Dirent{FileType: uint8(fileTypeFromFileMode(fs.ModeDir))})
+			dirents = append(dirents, Dirent{
+				Nid:      uint64(inodeNumber(w.inodes[filepath.Dir(path)])),
+				FileType: uint8(fileTypeFromFileMode(fs.ModeDir)),
+			})
 			names = append(names, "..")
 		}
 
@@ -527,6 +533,17 @@ func offsetToNID(metaOffset int64) (uint32, error) {
 	return nid, nil
 }
 
+func inodeNumber(ino any) uint32 {
+	switch ino := ino.(type) {
+	case InodeCompact:
+		return ino.Ino
+	case InodeExtended:
+		return ino.Ino
+	default:
+		return 0
+	}
+}
+
 func isInlined(ino any) bool {
 	var format uint16
 	switch ino := ino.(type) {
-- 
2.43.0


From 94d238cf2e487c1d4e4dee37d45f682993f8df05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:21 +0000
Subject: [PATCH 38/62] fix: erofs: refuse names and symlink targets in Create
 that cannot be read back

---
 erofs/writer.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/erofs/writer.go b/erofs/writer.go
index aa128ce..0afc27d 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -350,6 +350,10 @@ func (w *writer) dataForInode(path string, ino any) (io.ReadCloser, int64, error
 		}
 
 		for _, de := range entries {
+			if len(de.Name()) > MaxNameLen {
+				return nil, 0, fmt.Errorf("file name too long: %q", de.Name())
+			}
+
 			path := filepath.Clean(filepath.Join(path, de.Name()))
 
 			ino, ok := w.inodes[path]
@@ -396,6 +400,11 @@ func (w *writer) dataForInode(path string, ino any) (io.ReadCloser, int64, error
 			return nil, 0, fmt.Errorf("failed to read symlink target: %w", err)
 		}
 
+		// Longer targets are truncated when read.
+		if len(target) > BlockSize-1 {
+			return nil, 0, fmt.Errorf("symlink target too long: %d bytes", len(target))
+		}
+
 		return io.NopCloser(bytes.NewReader([]byte(target))), int64(len(target)), nil
 
 	// TODO: device files, named pipes, sockets, etc.
-- 
2.43.0


From 4edf517a9009f75a4b5938393a33a4f5c3500035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:22 +0000
Subject: [PATCH 39/62] fix: erofs: fail Create when a file does not have its
 announced size

---
 erofs/writer.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/erofs/writer.go b/erofs/writer.go
index 0afc27d..312313e 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -219,11 +219,14 @@ func (w *writer) writeMetadata(metaBlockAddr int64) error {
 			}
 
 			// Write the inlined data.
-			_, err = io.Copy(io.NewOffsetWriter(w.dst, off+int64(binary.Size(ino))), data)
+			n, err := io.Copy(io.NewOffsetWriter(w.dst, off+int64(binary.Size(ino))), data)
 			_ = data.Close()
 			if err != nil {
 				return fmt.Errorf("failed to write inline data for %q: %w", path, err)
 			}
+			if n != inodeSize(ino) {
+				return fmt.Errorf("size of %q changed while reading: expected %d bytes, got %d", path, inodeSize(ino), n)
+			}
 		}
 	}
 
@@ -254,11 +257,14 @@ func (w *writer) writeData() error {
 			return fmt.Errorf("failed to get data for %q: %w", path, err)
 		}
 
-		_, err = io.Copy(io.NewOffsetWriter(w.dst, int64(rawBlockAddr)*BlockSize), data)
+		n, err := io.Copy(io.NewOffsetWriter(w.dst, int64(rawBlockAddr)*BlockSize), data)
 		_ = data.Close()
 		if err != nil {
 			return fmt.Errorf("failed to write data for %q: %w", path, err)
 		}
+		if n != inodeSize(ino) {
+			return fmt.Errorf("size of %q changed while reading: expected %d bytes, got %d", path, inodeSize(ino), n)
+		}
 	}
 
 	return nil
@@ -553,6 +559,17 @@ func inodeNumber(ino any) uint32 {
 	}
 }
 
+func inodeSize(ino any) int64 {
+	switch ino := ino.(type) {
+	case InodeCompact:
+		return int64(ino.Size)
+	case InodeExtended:
+		return int64(ino.Size)
+	default:
+		return 0
+	}
+}
+
 func isInlined(ino any) bool {
 	var format uint16
 	switch ino := ino.(type) {
-- 
2.43.0


From 70d9bfa61b6f81dc8c3c5a724b25b8512eb58bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:23 +0000
Subject: [PATCH 40/62] fix: erofs: preserve ownership when copying from an
 EROFS image

---
 erofs/owner_unix.go    | 6 ++++++
 erofs/owner_windows.go | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/erofs/owner_unix.go b/erofs/owner_unix.go
index 57ae752..d9b3d66 100644
--- a/erofs/owner_unix.go
+++ b/erofs/owner_unix.go
@@ -31,6 +31,12 @@ func getOwner(fi fs.FileInfo) (uid, gid int) {
 
 		uid = hdr.Uid
 		gid = hdr.Gid
+
+	case *Inode:
+		ino := fi.Sys().(*Inode)
+
+		uid = int(ino.UID())
+		gid = int(ino.GID())
 	}
 
 	return
diff --git a/erofs/owner_windows.go b/erofs/owner_windows.go
index d497daa..3d1fd19 100644
--- a/erofs/owner_windows.go
+++ b/erofs/owner_windows.go
@@ -24,6 +24,12 @@ func getOwner(fi fs.FileInfo) (uid, gid int) {
 
 		uid = hdr.Uid
 		gid = hdr.Gid
+
+	case *Inode:
+		ino := fi.Sys().(*Inode)
+
+		uid = int(ino.UID())
+		gid = int(ino.GID())
 	}
 
 	return
-- 
2.43.0


From 8920d6418e190e3379f9e58294bcc6d94b217643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:24 +0000
Subject: [PATCH 41/62] fix: erofs: do not truncate the link count of huge
 directories

---
 erofs/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/erofs/writer.go b/erofs/writer.go
index 312313e..12fc293 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -425,7 +425,7 @@ func toInode(fi fs.FileInfo, nlink int) any {
 
 	// Can we use a compact inode?
 	compact := fi.Size() <= math.MaxUint32 &&
-		uid <= math.MaxUint16 && gid <= math.MaxUint16 &&
+		uid <= math.MaxUint16 && gid <= math.MaxUint16 && nlink <= math.MaxUint16 &&
 		fi.ModTime() == time.Time{}
 
 	if compact {
-- 
2.43.0


From ee8f6b0fceabbd813ebbc67b8707a1acd2ba4ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:04 +0000
Subject: [PATCH 42/62] fix: memfs: release the directory lock when MkdirAll
 fails

---
 memfs/memfs.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index 6f09735..b597277 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -102,6 +102,7 @@ func (rootFS *FS) MkdirAll(path string, perm os.FileMode) error {
 		} else {
 			childDir, ok := child.(*dir)
 			if !ok {
+				cur.mu.Unlock()
 				return fmt.Errorf("not a directory: %s: %w", part, fs.ErrInvalid)
 			}
 			next = childDir
-- 
2.43.0


From c6e3818859210b63ebae9cc5b5d2af74042e602e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:05 +0000
Subject: [PATCH 43/62] fix: memfs: publish written files atomically, copy
 their data and keep permissions

---
 memfs/memfs.go | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index b597277..b36f6d1 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -190,7 +190,7 @@ func (rootFS *FS) get(path string) (childI, error) {
 	return chld, nil
 }
 
-func (rootFS *FS) create(path string) (*File, error) {
+func (rootFS *FS) create(path string, data []byte, perm os.FileMode) (*File, error) {
 	if !fs.ValidPath(path) {
 		return nil, fmt.Errorf("invalid path: %s: %w", path, fs.ErrInvalid)
 	}
@@ -212,16 +212,19 @@ func (rootFS *FS) create(path string) (*File, error) {
 	defer dir.mu.Unlock()
 	existing := dir.children[filePart]
 	if existing != nil {
-		_, ok := existing.(*File)
+		existingFile, ok := existing.(*File)
 		if !ok {
 			return nil, fmt.Errorf("path is a directory: %s: %w", path, fs.ErrExist)
 		}
+		perm = existingFile.perm
 	}
 
+	// Files in the tree are never modified once they are visible to others, and
+	// must not share memory with the caller.
 	newFile := &File{
 		name:    filePart,
-		perm:    0666,
-		content: &bytes.Buffer{},
+		perm:    perm,
+		content: bytes.NewBuffer(bytes.Clone(data)),
 	}
 	dir.children[filePart] = newFile
 
@@ -241,13 +244,8 @@ func (rootFS *FS) WriteFile(path string, data []byte, perm os.FileMode) error {
 		path = ""
 	}
 
-	f, err := rootFS.create(path)
-	if err != nil {
-		return err
-	}
-	f.content = bytes.NewBuffer(data)
-	f.perm = perm
-	return nil
+	_, err := rootFS.create(path, data, perm)
+	return err
 }
 
 // Open opens the named file.
-- 
2.43.0


From 16fc01ed3d39e0cefdf28717958527f8c470c709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 44/62] fix: memfs: return each directory entry once and end
 with EOF when reading in pieces

---
 memfs/memfs.go | 49 +++++++++++++++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 16 deletions(-)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index b36f6d1..86604e3 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -44,9 +44,11 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"io"
 	"io/fs"
 	"os"
 	syspath "path"
+	"slices"
 	"strings"
 	"sync"
 	"time"
@@ -304,8 +306,9 @@ type dir struct {
 }
 
 type fhDir struct {
-	dir *dir
-	idx int
+	dir     *dir
+	read    bool          // whether entries has been populated
+	entries []fs.DirEntry // remaining entries
 }
 
 func (d *fhDir) Stat() (fs.FileInfo, error) {
@@ -327,23 +330,39 @@ func (d *fhDir) Close() error {
 }
 
 func (d *fhDir) ReadDir(n int) ([]fs.DirEntry, error) {
-	d.dir.mu.Lock()
-	defer d.dir.mu.Unlock()
+	if !d.read {
+		d.entries = d.dir.list()
+		d.read = true
+	}
 
-	names := make([]string, 0, len(d.dir.children))
-	for name := range d.dir.children {
-		names = append(names, name)
+	if n > 0 && len(d.entries) == 0 {
+		return nil, io.EOF
 	}
+	if n <= 0 || n > len(d.entries) {
+		n = len(d.entries)
+	}
+
+	out := d.entries[:n:n]
+	d.entries = d.entries[n:]
+
+	return out, nil
+}
+
+// list returns the entries of the directory, sorted by name.
+func (d *dir) list() []fs.DirEntry {
+	d.mu.Lock()
+	defer d.mu.Unlock()
 
-	if n <= 0 {
-		n = len(names)
+	names := make([]string, 0, len(d.children))
+	for name := range d.children {
+		names = append(names, name)
 	}
+	slices.Sort(names)
 
-	out := make([]fs.DirEntry, 0, n)
+	out := make([]fs.DirEntry, 0, len(names))
 
-	for i := d.idx; i < n && i < len(names); i++ {
-		name := names[i]
-		child := d.dir.children[name]
+	for _, name := range names {
+		child := d.children[name]
 
 		f, isFile := child.(*File)
 		if isFile {
@@ -363,10 +382,8 @@ func (d *fhDir) ReadDir(n int) ([]fs.DirEntry, error) {
 				info: &fi,
 			})
 		}
-
-		d.idx = i
 	}
-	return out, nil
+	return out
 }
 
 type File struct {
-- 
2.43.0


From 482aaa91b48657c5796fe95a81bb58006b7292dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 45/62] fix: memfs: return the filesystem itself for the
 subtree at the root

---
 memfs/memfs.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index 86604e3..6c74e54 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -290,6 +290,11 @@ func (rootFS *FS) Open(name string) (fs.File, error) {
 
 // Sub returns an FS corresponding to the subtree rooted at path.
 func (rootFS *FS) Sub(path string) (fs.FS, error) {
+	if path == "." {
+		// root dir
+		path = ""
+	}
+
 	dir, err := rootFS.getDir(path)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 10c1d023c1af4513610d06b796cb98fad4c02da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:08 +0000
Subject: [PATCH 46/62] fix: memfs: report the full size of partially read
 files

---
 memfs/memfs.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index 6c74e54..e4f2782 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -226,6 +226,7 @@ func (rootFS *FS) create(path string, data []byte, perm os.FileMode) (*File, err
 	newFile := &File{
 		name:    filePart,
 		perm:    perm,
+		size:    int64(len(data)),
 		content: bytes.NewBuffer(bytes.Clone(data)),
 	}
 	dir.children[filePart] = newFile
@@ -275,6 +276,7 @@ func (rootFS *FS) Open(name string) (fs.File, error) {
 		handle := &File{
 			name:    cc.name,
 			perm:    cc.perm,
+			size:    cc.size,
 			content: bytes.NewBuffer(cc.content.Bytes()),
 		}
 		return handle, nil
@@ -394,7 +396,8 @@ func (d *dir) list() []fs.DirEntry {
 type File struct {
 	name    string
 	perm    os.FileMode
-	content *bytes.Buffer
+	size    int64
+	content *bytes.Buffer // unread content
 	modTime time.Time
 	closed  bool
 }
@@ -405,7 +408,7 @@ func (f *File) Stat() (fs.FileInfo, error) {
 	}
 	fi := fileInfo{
 		name:    f.name,
-		size:    int64(f.content.Len()),
+		size:    f.size,
 		modTime: f.modTime,
 		mode:    f.perm,
 	}
-- 
2.43.0


From 5eaf506718dc73b4d85e0ce3379a2c93431f4cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:12 +0000
Subject: [PATCH 47/62] fix: arfs: pad names to the width of their header field
 by bytes, not runes

---
 arfs/create.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/arfs/create.go b/arfs/create.go
index 7e4389b..3fb793f 100644
--- a/arfs/create.go
+++ b/arfs/create.go
@@ -86,10 +86,10 @@ func writeArHeader(w io.Writer, hdr *tar.Header) error {
 		return fmt.Errorf("unsupported file name: %q", hdr.Name)
 	}
 
-	// Construct the ar(1) header
-	arHeader := fmt.Sprintf(
-		"%-16s%-12s%-6s%-6s%-8s%-10s`\n",
-		name,
+	// Construct the ar(1) header (the name field is padded by hand, as fmt counts
+	// runes rather than bytes).
+	arHeader := name + strings.Repeat(" ", 16-len(name)) + fmt.Sprintf(
+		"%-12s%-6s%-6s%-8s%-10s`\n",
 		strconv.Itoa(int(hdr.ModTime.Unix())),
 		strconv.Itoa(hdr.Uid),
 		strconv.Itoa(hdr.Gid),
-- 
2.43.0


From 0d2d39505df6801e83bc91a4cfc81101bfe05341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:04 +0000
Subject: [PATCH 48/62] fix: erofs: refuse names in Create that contain NUL
 bytes

---
 erofs/writer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/erofs/writer.go b/erofs/writer.go
index 12fc293..fbc2f09 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -20,6 +20,7 @@ import (
 	"os"
 	"path/filepath"
 	"sort"
+	"strings"
 	"time"
 )
 
@@ -360,6 +361,11 @@ func (w *writer) dataForInode(path string, ino any) (io.ReadCloser, int64, error
 				return nil, 0, fmt.Errorf("file name too long: %q", de.Name())
 			}
 
+			// The last name of a directory block ends at the first NUL byte.
+			if strings.IndexByte(de.Name(), 0) != -1 {
+				return nil, 0, fmt.Errorf("unsupported file name: %q", de.Name())
+			}
+
 			path := filepath.Clean(filepath.Join(path, de.Name()))
 
 			ino, ok := w.inodes[path]
-- 
2.43.0


From 869c5ae71dad6c9d177494b7ee3531e07226bce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:33 +0000
Subject: [PATCH 49/62] fix: erofs: do not cut off or refuse symlink targets
 longer than a small block

---
 erofs/reader.go | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/erofs/reader.go b/erofs/reader.go
index 40a10d6..c5ef7cc 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -923,24 +923,20 @@ func (ino *Inode) Readlink() (string, error) {
 	if !ino.IsSymlink() {
 		return "", fs.ErrInvalid
 	}
-	off := int64(ino.dataOff)
-	size := int64(ino.size)
-	if ino.idataOff != 0 {
-		// Inline symlink data shouldn't cross block boundary.
-		if ino.blocks > 1 {
-			return "", fmt.Errorf("inline data cross block boundary at inode %d", ino.Nid())
-		}
-		off = int64(ino.idataOff)
-	} else {
-		// This matches Linux's behaviour in fs/namei.c:page_get_link() and
-		// include/linux/namei.h:nd_terminate_link().
-		if size > int64(ino.image.BlockSize())-1 {
-			size = int64(ino.image.BlockSize()) - 1
-		}
-	}
-	target, err := ino.image.bytesAt(off, size)
+
+	// This matches Linux's behaviour in fs/namei.c:page_get_link() and
+	// include/linux/namei.h:nd_terminate_link(), where the limit is the size of a
+	// page (not that of a block, which may be smaller).
+	size := min(int64(ino.size), max(int64(ino.image.BlockSize()), 4096)-1)
+
+	data, err := ino.Data()
 	if err != nil {
 		return "", err
 	}
+
+	target := make([]byte, size)
+	if _, err := io.ReadFull(data, target); err != nil {
+		return "", unexpectedEOF(err)
+	}
 	return string(target), nil
 }
-- 
2.43.0


From 7c10a4f6c36193449a8c27647e6e2608573942ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:06 +0000
Subject: [PATCH 50/62] fix: tarfs, erofs: do not hold all components of every
 symlink target while resolving a path

A self-referencing symlink with a long target made a single Stat allocate
memory quadratic in the number of hops times the length of the target.
---
 erofs/erofs.go | 41 ++++++++++++++++++++++++++++-------------
 tarfs/tarfs.go | 37 +++++++++++++++++++++++++++++++------
 2 files changed, 59 insertions(+), 19 deletions(-)

diff --git a/erofs/erofs.go b/erofs/erofs.go
index 5874b93..a429da8 100644
--- a/erofs/erofs.go
+++ b/erofs/erofs.go
@@ -175,10 +175,10 @@ func (fsys *Filesystem) resolve(name string, noResolveLastSymlink bool) (*dirEnt
 	chain := []*dirEntry{fsys.root}
 	links := 0
 
-	components := splitPath(name)
-	for len(components) > 0 {
-		comp := components[0]
-		components = components[1:]
+	components := &componentStack{}
+	components.push(filepath.ToSlash(name))
+	for !components.empty() {
+		comp := components.pop()
 
 		switch comp {
 		case ".":
@@ -201,7 +201,7 @@ func (fsys *Filesystem) resolve(name string, noResolveLastSymlink bool) (*dirEnt
 			return nil, err
 		}
 
-		if ino.IsSymlink() && !(noResolveLastSymlink && len(components) == 0) {
+		if ino.IsSymlink() && !(noResolveLastSymlink && components.empty()) {
 			if links++; links > maxSymlinks {
 				return nil, errors.New("too many levels of symbolic links")
 			}
@@ -218,7 +218,7 @@ func (fsys *Filesystem) resolve(name string, noResolveLastSymlink bool) (*dirEnt
 				chain = chain[:1]
 			}
 
-			components = append(splitPath(link), components...)
+			components.push(filepath.ToSlash(link))
 			continue
 		}
 
@@ -361,12 +361,27 @@ func (fi *fileInfo) Sys() any {
 	return &fi.inode
 }
 
-func splitPath(path string) []string {
-	var components []string
-	for _, part := range strings.Split(filepath.ToSlash(path), "/") {
-		if part != "" {
-			components = append(components, part)
-		}
+// componentStack holds the path components that are still to be walked.
+type componentStack struct {
+	paths []string
+}
+
+func (s *componentStack) empty() bool {
+	return len(s.paths) == 0
+}
+
+// push puts the components of path before those already on the stack.
+func (s *componentStack) push(path string) {
+	if path = strings.Trim(path, "/"); path != "" {
+		s.paths = append(s.paths, path)
 	}
-	return components
+}
+
+func (s *componentStack) pop() string {
+	last := len(s.paths) - 1
+	component, rest, _ := strings.Cut(s.paths[last], "/")
+	s.paths = s.paths[:last]
+	s.push(rest)
+
+	return component
 }
diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 1f818e8..40fbc84 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -276,13 +276,13 @@ func resolve(root *dirent, name string) (*dirent, error) {
 	d := root
 	links := 0
 
-	components := strings.Split(sanitizePath(name), "/")
-	for len(components) > 0 {
-		component := components[0]
-		components = components[1:]
+	components := &componentStack{}
+	components.push(sanitizePath(name))
+	for !components.empty() {
+		component := components.pop()
 
 		switch component {
-		case "", ".":
+		case ".":
 			continue
 		case "..":
 			// The parent of the root directory is the root directory.
@@ -311,12 +311,37 @@ func resolve(root *dirent, name string) (*dirent, error) {
 		if filepath.IsAbs(child.Linkname) {
 			d = root
 		}
-		components = append(strings.Split(child.Linkname, "/"), components...)
+		components.push(child.Linkname)
 	}
 
 	return d, nil
 }
 
+// componentStack holds the path components that are still to be walked.
+type componentStack struct {
+	paths []string
+}
+
+func (s *componentStack) empty() bool {
+	return len(s.paths) == 0
+}
+
+// push puts the components of path before those already on the stack.
+func (s *componentStack) push(path string) {
+	if path = strings.Trim(path, "/"); path != "" {
+		s.paths = append(s.paths, path)
+	}
+}
+
+func (s *componentStack) pop() string {
+	last := len(s.paths) - 1
+	component, rest, _ := strings.Cut(s.paths[last], "/")
+	s.paths = s.paths[:last]
+	s.push(rest)
+
+	return component
+}
+
 func sanitizePath(name string) string {
 	return strings.TrimPrefix(filepath.ToSlash(filepath.Clean("/"+filepath.ToSlash(name))), "/")
 }
-- 
2.43.0


From 0ad1845c43bad369cd8faf3befdd8bd55f390051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:01 +0000
Subject: [PATCH 51/62] fix: tarfs: refuse archives that end between the
 extended headers of an entry and the entry

Such an archive was cut short, but opened without its last entry and without an error.
---
 tarfs/tarfs.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 40fbc84..1a5b255 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -11,6 +11,7 @@ package tarfs
 
 import (
 	"archive/tar"
+	"bytes"
 	"errors"
 	"fmt"
 	"io"
@@ -48,6 +49,17 @@ func Open(ra io.ReaderAt) (*FS, error) {
 		h, err := tr.Next()
 		if err != nil {
 			if errors.Is(err, io.EOF) {
+				// The archive must not end between the extended headers of an
+				// entry and the entry itself.
+				block := make([]byte, 512)
+				n, err := ra.ReadAt(block, begin)
+				if err != nil && !errors.Is(err, io.EOF) {
+					return nil, err
+				}
+				if len(bytes.Trim(block[:n], "\x00")) != 0 {
+					return nil, io.ErrUnexpectedEOF
+				}
+
 				break
 			}
 
-- 
2.43.0


From 62141ddfff57a4a328072069294a21149eff3dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:12 +0000
Subject: [PATCH 52/62] fix: tarfs, arfs, erofs: report short writes while
 creating an archive

---
 arfs/create.go  | 15 +++++++++++++++
 erofs/writer.go | 21 +++++++++++++++++----
 tarfs/create.go | 15 ++++++++++++++-
 3 files changed, 46 insertions(+), 5 deletions(-)

diff --git a/arfs/create.go b/arfs/create.go
index 3fb793f..2e8e0ca 100644
--- a/arfs/create.go
+++ b/arfs/create.go
@@ -21,6 +21,8 @@ import (
 
 // Create creates an ar(1) archive from the given filesystem.
 func Create(dst io.Writer, src fs.FS) error {
+	dst = fullWriter{dst}
+
 	// Write the ar(1) magic header
 	if _, err := io.WriteString(dst, "!<arch>\n"); err != nil {
 		return err
@@ -137,3 +139,16 @@ func writeArData(w io.Writer, src fs.FS, path string, size int64) error {
 
 	return nil
 }
+
+// fullWriter reports short writes as errors.
+type fullWriter struct {
+	io.Writer
+}
+
+func (w fullWriter) Write(p []byte) (int, error) {
+	n, err := w.Writer.Write(p)
+	if err == nil && n < len(p) {
+		err = io.ErrShortWrite
+	}
+	return n, err
+}
diff --git a/erofs/writer.go b/erofs/writer.go
index fbc2f09..5b1d04b 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -83,7 +83,7 @@ func (w *writer) write() error {
 		return fmt.Errorf("failed to calculate superblock checksum: %w", err)
 	}
 
-	if err := binary.Write(io.NewOffsetWriter(w.dst, SuperBlockOffset), binary.LittleEndian, &sb); err != nil {
+	if err := binary.Write(io.NewOffsetWriter(fullWriterAt{w.dst}, SuperBlockOffset), binary.LittleEndian, &sb); err != nil {
 		return fmt.Errorf("failed to write superblock: %w", err)
 	}
 
@@ -208,7 +208,7 @@ func (w *writer) writeMetadata(metaBlockAddr int64) error {
 		off := metaBlockAddr*BlockSize + int64(nid)*InodeSlotSize
 
 		// Write the inode.
-		if err := binary.Write(io.NewOffsetWriter(w.dst, off), binary.LittleEndian, ino); err != nil {
+		if err := binary.Write(io.NewOffsetWriter(fullWriterAt{w.dst}, off), binary.LittleEndian, ino); err != nil {
 			return fmt.Errorf("failed to write inode for %q: %w", path, err)
 		}
 
@@ -220,7 +220,7 @@ func (w *writer) writeMetadata(metaBlockAddr int64) error {
 			}
 
 			// Write the inlined data.
-			n, err := io.Copy(io.NewOffsetWriter(w.dst, off+int64(binary.Size(ino))), data)
+			n, err := io.Copy(io.NewOffsetWriter(fullWriterAt{w.dst}, off+int64(binary.Size(ino))), data)
 			_ = data.Close()
 			if err != nil {
 				return fmt.Errorf("failed to write inline data for %q: %w", path, err)
@@ -258,7 +258,7 @@ func (w *writer) writeData() error {
 			return fmt.Errorf("failed to get data for %q: %w", path, err)
 		}
 
-		n, err := io.Copy(io.NewOffsetWriter(w.dst, int64(rawBlockAddr)*BlockSize), data)
+		n, err := io.Copy(io.NewOffsetWriter(fullWriterAt{w.dst}, int64(rawBlockAddr)*BlockSize), data)
 		_ = data.Close()
 		if err != nil {
 			return fmt.Errorf("failed to write data for %q: %w", path, err)
@@ -544,6 +544,19 @@ func splitIntoDirentBlocks(dirents []Dirent, names []string) []direntBlock {
 	return blocks
 }
 
+// fullWriterAt reports short writes as errors.
+type fullWriterAt struct {
+	io.WriterAt
+}
+
+func (w fullWriterAt) WriteAt(p []byte, off int64) (int, error) {
+	n, err := w.WriterAt.WriteAt(p, off)
+	if err == nil && n < len(p) {
+		err = io.ErrShortWrite
+	}
+	return n, err
+}
+
 func offsetToNID(metaOffset int64) (uint32, error) {
 	// The inode number is the relative offset divided by the inode slot size.
 	if metaOffset%InodeSlotSize != 0 {
diff --git a/tarfs/create.go b/tarfs/create.go
index fe5d9d6..391ce33 100644
--- a/tarfs/create.go
+++ b/tarfs/create.go
@@ -20,7 +20,7 @@ import (
 
 // Create creates a tar archive from the given filesystem.
 func Create(dst io.Writer, src fs.FS) error {
-	tw := tar.NewWriter(dst)
+	tw := tar.NewWriter(fullWriter{dst})
 
 	err := fs.WalkDir(src, ".", func(path string, d fs.DirEntry, err error) error {
 		if err != nil {
@@ -84,3 +84,16 @@ func Create(dst io.Writer, src fs.FS) error {
 
 	return tw.Close()
 }
+
+// fullWriter reports short writes as errors.
+type fullWriter struct {
+	io.Writer
+}
+
+func (w fullWriter) Write(p []byte) (int, error) {
+	n, err := w.Writer.Write(p)
+	if err == nil && n < len(p) {
+		err = io.ErrShortWrite
+	}
+	return n, err
+}
-- 
2.43.0


From 67af7d158da07ed34b47e86e9780b04fcad345eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:15 +0000
Subject: [PATCH 53/62] fix: tarfs: refuse archives that put entries below
 something that is not a directory

---
 tarfs/tarfs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 1a5b255..75fa35f 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -163,6 +163,9 @@ func Open(ra io.ReaderAt) (*FS, error) {
 		if err != nil {
 			return nil, fmt.Errorf("failed to resolve directory %q: %w", filepath.Dir(path), err)
 		}
+		if !dir.IsDir() {
+			return nil, fmt.Errorf("failed to resolve directory %q: not a directory", filepath.Dir(path))
+		}
 
 		dir.addChild(d)
 	}
-- 
2.43.0


From 50f016b90d154e79d0361ba79c22574bdea4203b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:33 +0000
Subject: [PATCH 54/62] fix: tarfs: refuse archives that replace a directory
 and its entries with something else through a symlink

---
 tarfs/tarfs.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 75fa35f..0b68b53 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -167,7 +167,9 @@ func Open(ra io.ReaderAt) (*FS, error) {
 			return nil, fmt.Errorf("failed to resolve directory %q: not a directory", filepath.Dir(path))
 		}
 
-		dir.addChild(d)
+		if err := dir.addChild(d); err != nil {
+			return nil, fmt.Errorf("failed to add %q: %w", path, err)
+		}
 	}
 
 	return &FS{root: root}, nil
@@ -392,7 +394,7 @@ func (d *dirent) findChild(name string) (*dirent, bool) {
 	return c, ok
 }
 
-func (d *dirent) addChild(child *dirent) {
+func (d *dirent) addChild(child *dirent) error {
 	if d.children == nil {
 		d.children = make(map[string]*dirent)
 	}
@@ -402,10 +404,20 @@ func (d *dirent) addChild(child *dirent) {
 
 	// do we already have a child with the same name?
 	if existing, ok := d.children[c.Name()]; ok {
+		if len(existing.children) > 0 && !c.IsDir() {
+			return errors.New("not a directory")
+		}
+
+		// The children keep pointing to their parent.
 		c.children = existing.children
+		*existing = c
+
+		return nil
 	}
 
 	d.children[c.Name()] = &c
+
+	return nil
 }
 
 func (d *dirent) Name() string {
-- 
2.43.0


From 9e985ed94e37cd078d46b1aee6f8e65ef1505499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:31 +0000
Subject: [PATCH 55/62] fix: erofs: refuse images that block addresses cannot
 express

---
 erofs/writer.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/erofs/writer.go b/erofs/writer.go
index 5b1d04b..5916fb6 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -29,6 +29,9 @@ const (
 	BlockSizeBits     = 12
 	InodeSlotSize     = 1 << InodeSlotBits
 	MaxInlineDataSize = BlockSize / 4
+
+	// maxImageSize is the size of the largest image that block addresses can express.
+	maxImageSize = math.MaxUint32 * BlockSize
 )
 
 // Create creates an EROFS filesystem image from the source filesystem and writes
@@ -107,6 +110,11 @@ func (w *writer) firstPass() (metaSize, dataSize int64, err error) {
 		}
 		_ = data.Close()
 
+		// Block addresses are 32 bits wide.
+		if size > maxImageSize-metaSize-dataSize {
+			return metaSize, dataSize, fmt.Errorf("image too large: size of %q is %d bytes", path, size)
+		}
+
 		inlined := size > 0 && size <= MaxInlineDataSize
 		if inlined {
 			// if the size of the inode and data exceeds the block size, we need to
@@ -164,6 +172,11 @@ func (w *writer) firstPass() (metaSize, dataSize int64, err error) {
 
 	metaSize = roundUp(metaSize, BlockSize)
 
+	// There's also the block of the superblock.
+	if metaSize+dataSize > maxImageSize-BlockSize {
+		return metaSize, dataSize, fmt.Errorf("image too large: %d bytes", metaSize+dataSize)
+	}
+
 	dataBlockAddr := 1 + (metaSize / BlockSize)
 
 	// fix up the raw block addresses now that we know the total size of the
-- 
2.43.0


From 0c657fc664be8c3fe41fc4b85245dcdc35d70402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:37 +0000
Subject: [PATCH 56/62] fix: erofs: refuse owners that do not fit into an inode

---
 erofs/writer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/erofs/writer.go b/erofs/writer.go
index 5916fb6..4a9905d 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -307,6 +307,11 @@ func (w *writer) populateInodes() error {
 			nlink = len(entries) + 2
 		}
 
+		// Owners are at most 32 bits wide.
+		if uid, gid := getOwner(fi); uint(uid) > math.MaxUint32 || uint(gid) > math.MaxUint32 {
+			return fmt.Errorf("unsupported owner of %q: %d:%d", path, uid, gid)
+		}
+
 		w.inodes[path] = toInode(fi, nlink)
 		w.inodeOrder = append(w.inodeOrder, path)
 
-- 
2.43.0


From 88fbfe291acd0e692abb77e92ef28e0e966442b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:39 +0000
Subject: [PATCH 57/62] fix: erofs: don't store irregular files as regular ones

---
 erofs/constants.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/erofs/constants.go b/erofs/constants.go
index 0729f95..d3f697f 100644
--- a/erofs/constants.go
+++ b/erofs/constants.go
@@ -95,7 +95,7 @@ func statModeFromFileMode(mode fs.FileMode) uint16 {
 		stMode |= S_IFIFO
 	case fs.ModeSocket:
 		stMode |= S_IFSOCK
-	default:
+	case 0:
 		stMode |= S_IFREG
 	}
 
-- 
2.43.0


From df84d739e010b4207fbc7868fd7f00226c68754e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:35 +0000
Subject: [PATCH 58/62] fix: arfs: don't limit times and sizes to the
 platform's int

---
 arfs/arfs.go   | 4 ++--
 arfs/create.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index 0e9b38b..64180cb 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -214,11 +214,11 @@ func parseArEntry(line []byte) (*Entry, error) {
 			continue
 		}
 
-		intValue, err := strconv.Atoi(input)
+		intValue, err := strconv.ParseInt(input, 10, 64)
 		if err != nil {
 			return nil, fmt.Errorf("failed to parse entry value: %w", err)
 		}
-		*target = int64(intValue)
+		*target = intValue
 	}
 
 	if e.FileSize < 0 {
diff --git a/arfs/create.go b/arfs/create.go
index 2e8e0ca..35a2826 100644
--- a/arfs/create.go
+++ b/arfs/create.go
@@ -92,7 +92,7 @@ func writeArHeader(w io.Writer, hdr *tar.Header) error {
 	// runes rather than bytes).
 	arHeader := name + strings.Repeat(" ", 16-len(name)) + fmt.Sprintf(
 		"%-12s%-6s%-6s%-8s%-10s`\n",
-		strconv.Itoa(int(hdr.ModTime.Unix())),
+		strconv.FormatInt(hdr.ModTime.Unix(), 10),
 		strconv.Itoa(hdr.Uid),
 		strconv.Itoa(hdr.Gid),
 		fmt.Sprintf("%07o", hdr.Mode),
-- 
2.43.0


From ecfc843134aefcafe008cb38c8af13b7996b1c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:49 +0000
Subject: [PATCH 59/62] fix: erofs: store the parent entry of the root
 directory

---
 erofs/writer.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/erofs/writer.go b/erofs/writer.go
index 4a9905d..e51ff2a 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -363,16 +363,12 @@ func (w *writer) dataForInode(path string, ino any) (io.ReadCloser, int64, error
 		dirents := []Dirent{{
 			Nid:      uint64(inodeNumber(ino)),
 			FileType: uint8(fileTypeFromFileMode(fs.ModeDir)),
+		}, {
+			// The parent of the root directory is the root directory.
+			Nid:      uint64(inodeNumber(w.inodes[filepath.Dir(path)])),
+			FileType: uint8(fileTypeFromFileMode(fs.ModeDir)),
 		}}
-		names := []string{"."}
-
-		if path != "." {
-			dirents = append(dirents, Dirent{
-				Nid:      uint64(inodeNumber(w.inodes[filepath.Dir(path)])),
-				FileType: uint8(fileTypeFromFileMode(fs.ModeDir)),
-			})
-			names = append(names, "..")
-		}
+		names := []string{".", ".."}
 
 		for _, de := range entries {
 			if len(de.Name()) > MaxNameLen {
-- 
2.43.0


From 4786347b68f6ba501ca0510f99dac312a822147b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:49 +0000
Subject: [PATCH 60/62] fix: erofs: don't count files as links to their
 directory

---
 erofs/writer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/erofs/writer.go b/erofs/writer.go
index e51ff2a..a4a1bd1 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -304,7 +304,12 @@ func (w *writer) populateInodes() error {
 				return fmt.Errorf("failed to read directory entries: %w", err)
 			}
 
-			nlink = len(entries) + 2
+			nlink = 2
+			for _, de := range entries {
+				if de.IsDir() {
+					nlink++
+				}
+			}
 		}
 
 		// Owners are at most 32 bits wide.
-- 
2.43.0


From 797edc9e7a143bcd80b8c756260eae8c9ae0a9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:17 +0000
Subject: [PATCH 61/62] fix: erofs: find names in directories stored at the
 start of the image

---
 erofs/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/erofs/reader.go b/erofs/reader.go
index c5ef7cc..fcfb891 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -841,7 +841,7 @@ func (ino *Inode) Lookup(name string) (Dirent, error) {
 		}
 	}
 
-	if targetBlock.base == 0 {
+	if targetNumDirents == 0 {
 		// The target block was not found.
 		return Dirent{}, fs.ErrNotExist
 	}
-- 
2.43.0


From 5fca0f15bcd9de93360ee49ca886e141a610f241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:34 +0000
Subject: [PATCH 62/62] fix: erofs: do not rely on the types in directory
 entries

Directory entries may leave the file type unknown, Linux ignores it when
looking up names. The directories of such images could not be listed, and
walking the filesystem silently skipped what is below them.
---
 erofs/constants.go |  1 +
 erofs/erofs.go     | 17 +++++++++++++----
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/erofs/constants.go b/erofs/constants.go
index d3f697f..ab5dec3 100644
--- a/erofs/constants.go
+++ b/erofs/constants.go
@@ -15,6 +15,7 @@ import (
 
 // Linux values for fs on-disk file types.
 const (
+	FT_UNKNOWN  = 0
 	FT_REG_FILE = 1
 	FT_DIR      = 2
 	FT_CHRDEV   = 3
diff --git a/erofs/erofs.go b/erofs/erofs.go
index a429da8..dfce927 100644
--- a/erofs/erofs.go
+++ b/erofs/erofs.go
@@ -85,15 +85,15 @@ func (fsys *Filesystem) ReadDir(name string) ([]fs.DirEntry, error) {
 		return nil, err
 	}
 
-	if !de.IsDir() {
-		return nil, errors.New("not a directory")
-	}
-
 	ino, err := de.getInode()
 	if err != nil {
 		return nil, err
 	}
 
+	if !ino.IsDir() {
+		return nil, errors.New("not a directory")
+	}
+
 	var dirents []fs.DirEntry
 	err = ino.IterDirents(func(name string, typ uint8, nid uint64) error {
 		// Skip "." and ".." entries.
@@ -101,6 +101,15 @@ func (fsys *Filesystem) ReadDir(name string) ([]fs.DirEntry, error) {
 			return nil
 		}
 
+		// Directories may leave the types of their entries unknown.
+		if typ == FT_UNKNOWN {
+			ino, err := de.image.Inode(nid)
+			if err != nil {
+				return err
+			}
+			typ = fileTypeFromFileMode(ino.Mode())
+		}
+
 		dirents = append(dirents, &dirEntry{
 			image: de.image,
 			name:  name,
-- 
2.43.0

