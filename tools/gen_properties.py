#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Opening a tar archive presents exactly the tree its entries describe",
  "For every well-formed tar archive (V7, ustar, PAX, GNU, sparse) holding files, directories, symlinks and hard links, the opened filesystem contains exactly the described tree, under the archived names: every regular file with exactly its bytes, and every explicit entry with its recorded type, permission and setuid/setgid/sticky bits, size, modification time, owner and link target (lexically cleaned). "
  "Entry order does not matter except that a later entry for the same path replaces an earlier one; an explicit directory entry keeps its metadata whether it comes before or after its children, parents without an entry appear as 0755 directories, and the root is a 0755 directory. "
  "A hard link, including a link to another hard link, reads as the file (or symlink) it finally names.",
  ["inputs"], "every well-formed archive: names, sizes, metadata, entry orders, header formats, duplicates, link graphs",
  "The tests read about twenty fixed fixtures and mostly assert one or two files each; no directory metadata, ordering, duplicate or chained-hard-link case is covered.",
  ["tarfs/tarfs.go"],
  [("entry index, implied parents, hard-link redirection", "tarfs/tarfs.go Open"), ("tree construction", "tarfs/tarfs.go addChild, resolve"), ("per-entry section readers", "tarfs/tarfs.go Open (file data)"), ("name sanitising", "tarfs/tarfs.go sanitizePath")],
  [("dirents", "path to last entry seen", "tarfs/tarfs.go Open"), ("offset/begin/size", "byte range of one entry incl. extension headers", "tarfs/tarfs.go readerWithOffset")],
  ["fs.ReadDir / Stat / StatLink / ReadLink / Open+Read on the opened filesystem"])

p("C02", "tar Create writes an archive every tar reader reads back as the source tree",
  "For every source filesystem of regular files, directories and symlinks, a successful tar Create produces a valid, properly terminated archive that both this library and independent tar readers read back as the same tree: same paths, types, permission and setuid/setgid/sticky bits, file bytes, symlink targets, modification times (to the second), and owner (numbers and names) and extended attributes when the source reports them as a tar header (owner also from an OS stat). "
  "Nothing is added, dropped or renamed apart from the root itself, which has no entry. "
  "A symlink in a source that cannot report link targets makes Create fail instead of producing an archive without it.",
  ["inputs"], "every source tree and every conforming fs.FS implementation of it (chunked reads, with or without ReadDir/Stat shortcuts)",
  "One fixture is copied and only a content hash of non-symlink files is compared; metadata, symlinks, empty directories, long names and other source implementations are never checked.",
  ["tarfs/create.go"], [("walk and header construction", "tarfs/create.go Create"), ("content copy", "tarfs/create.go Create"), ("archive termination", "tarfs/create.go tw.Close")],
  observe=["bytes handed to the destination writer, parsed by archive/tar, GNU tar and tarfs.Open"])

p("C03", "EROFS reader presents exactly the tree stored in any valid uncompressed image",
  "For every valid uncompressed EROFS image without extended attributes - any block size from 512 bytes to 64 KiB, compact or extended inodes, plain or tail-inlined data, any placement of inodes, data and metadata, directories split over any number of blocks with any permitted padding - the opened filesystem and the image/inode API present exactly the stored tree. "
  "Every name is found by lookup and listed once in sorted order, names not stored are reported as not existing, and every file's bytes, link target, size, type, permission and setuid/setgid/sticky bits, owner, link count and modification time with nanoseconds (the image build time for compact inodes) are exactly the stored ones.",
  ["inputs"], "every valid image within the supported feature set",
  "The tests read one 4 KiB-block image made by one tool; other block sizes, layouts, multi-block directories, padding, special bits and nanoseconds never occur.",
  ["erofs/reader.go", "erofs/erofs.go"],
  [("superblock and inode decoding", "erofs/reader.go initSuperBlock, Inode"), ("directory binary search and iteration", "erofs/reader.go Lookup, IterDirents, getDirentName"), ("data mapping", "erofs/reader.go Data, getBlockDataInfo, Readlink"), ("fs.FS adapter", "erofs/erofs.go")],
  observe=["erofs.Open and erofs.OpenImage results"])

p("C04", "EROFS Create followed by Open reproduces the source tree",
  "For every source filesystem of regular files, directories and symlinks with names of 1 to 255 bytes, if EROFS Create succeeds then opening the image shows the same tree: same paths, types, permission and setuid/setgid/sticky bits, file bytes (including empty files and files at any block or inline boundary), symlink targets, modification times to the nanosecond, and owner when the source reports it as a tar header, an OS stat or an EROFS inode. "
  "Every stored name can both be listed and be looked up, for any set of names and any directory size. "
  "Anything the image cannot hold (a longer name, an owner beyond 32 bits, a device, pipe or socket or other irregular file, a symlink whose target the source cannot report) makes Create fail instead of producing an image that misrepresents it.",
  ["inputs"], "every source tree (names, sizes, directory sizes, metadata) and source implementation",
  "The only Create test hashes the source filesystem, not the image it wrote, so no content written by Create is ever checked.",
  ["erofs/writer.go", "erofs/reader.go", "erofs/constants.go", "erofs/owner_unix.go"],
  [("layout pass", "erofs/writer.go firstPass"), ("inode, inline and block data output", "erofs/writer.go writeMetadata, writeData"), ("directory encoding", "erofs/writer.go dataForInode, encodeDirents, splitIntoDirentBlocks"), ("mode and owner mapping", "erofs/constants.go, erofs/owner_unix.go")],
  [("inodes/inodeOrder", "planned inode per path", "erofs/writer.go writer")],
  ["erofs.Create output through erofs.Open"])

p("C05", "EROFS Create emits structurally valid EROFS images",
  "Every image EROFS Create reports as written satisfies the EROFS on-disk format independently of this library's reader: correct magic, checksum field, block size and inode/block counts, image length matching the block count when written to a file; aligned, non-overlapping inodes and data extents inside the image; inline tails only when non-empty and inside their inode's block. "
  "Every directory's entries are strictly sorted by name across all blocks, entry offsets and lengths are consistent, every directory has the entries '.' and '..', which name the directory itself and its parent (the root is its own), and every entry's inode number and file type agree with an existing inode. "
  "Every inode is reachable from the root exactly once, and its link count says so: one for files and links, two plus the number of subdirectories for a directory.",
  ["inputs"], "every source tree accepted by Create",
  "No test inspects the bytes of a created image; the library's own reader tolerates many malformed images that a kernel or fsck would reject.",
  ["erofs/writer.go", "erofs/reader.go"], [("layout pass", "erofs/writer.go firstPass"), ("dirent encoding", "erofs/writer.go encodeDirents"), ("superblock and checksum", "erofs/writer.go write, erofs/reader.go checksum")],
  observe=["bytes written through the destination WriterAt"])

p("C06", "Opening an ar archive presents exactly its members",
  "For every well-formed ar archive with short member names (Debian or GNU style, with or without trailing slash, any member sizes including zero and odd ones, with or without padding after the last member or a GNU symbol table), the opened filesystem lists exactly the members, sorted and under their exact names including leading dots. "
  "Each member has exactly its bytes, size, permission and special bits, modification time, owner and group as recorded (blank owner, group and time fields reading as zero), and a later member with the same name replaces an earlier one.",
  ["inputs"], "every well-formed archive: names, sizes, field values, member orders",
  "One two-member fixture is read.",
  ["arfs/arfs.go"], [("member scan", "arfs/arfs.go Open"), ("header parsing", "arfs/arfs.go parseArEntry"), ("section readers", "arfs/arfs.go Open"), ("name sanitising", "arfs/arfs.go sanitizePath")],
  observe=["arfs.Open results"])

p("C07", "ar Create writes a faithful archive or refuses",
  "For every source filesystem, ar Create either succeeds and the output, read by this library and by independent ar readers, holds exactly the source's files with the same names, bytes, permission and setuid/setgid/sticky bits, modification time to the second, and owner and group when the source reports them as a tar header, an OS stat or an ar entry; or it returns an error. "
  "Directories, symlinks and other non-regular files, names longer than 16 bytes or not representable in the padded name field, and owner, group, time or size values too wide for their header fields are refused; header fields never run into each other, and members always start on even offsets.",
  ["inputs"], "every source listing: names, sizes (odd and even), metadata values",
  "One fixture is copied and only contents are compared; no field overflow, odd size at other positions, metadata or refusal is exercised.",
  ["arfs/create.go"], [("member header", "arfs/create.go writeArHeader"), ("data and padding", "arfs/create.go writeArData"), ("type refusal", "arfs/create.go Create")],
  observe=["bytes handed to the destination writer"])

p("C08", "Symlinks resolve by POSIX rules inside the archive, and cycles fail cleanly",
  "In tar and EROFS filesystems, opening, stat'ing or listing a path follows every symlink in it: relative targets (lexically cleaned) start at the directory that really contains the link, absolute targets at the archive root, and '..' moves to the real parent and never above the root, for any nesting and chain of links. "
  "Reading a link or stat'ing without following resolves all links except the last component and reports that link itself. "
  "A dangling link reports that the file does not exist, and a link cycle returns an error; resolution never crashes, hangs or answers with the wrong file.",
  ["inputs"], "every link graph and every path through it",
  "Three fixed one-step links are tested; '..' targets, chains, links through linked directories, absolute links in subdirectories and cycles are not.",
  ["tarfs/tarfs.go", "erofs/erofs.go"], [("path resolution", "tarfs/tarfs.go resolve"), ("path resolution", "erofs/erofs.go resolve"), ("no-follow variants", "tarfs/tarfs.go ReadLink, StatLink; erofs/erofs.go ReadLink, StatLink")],
  observe=["Open/Stat/ReadDir/ReadLink/StatLink results compared with an independent resolver"])

p("C09", "No input bytes can crash, hang or exhaust memory in any reader",
  "For every sequence of input bytes, opening it as a tar, ar or EROFS archive and then performing any sequence of filesystem operations on whatever was opened - listing, stat, open, read, link reading, with any path string - terminates and returns values or errors. "
  "It never panics, overflows the stack, loops without making progress, or allocates memory out of proportion to the input and the output delivered.",
  ["inputs", "histories"], "every byte string and every operation sequence on the result (recursive directory graphs are walked to a bounded depth)",
  "No test feeds malformed input to any reader.",
  ["tarfs/tarfs.go", "arfs/arfs.go", "erofs/reader.go", "erofs/erofs.go"],
  [("superblock/inode validation", "erofs/reader.go initSuperBlock, Inode"), ("dirent bounds checks", "erofs/reader.go getDirentName, getDirent0"), ("inode loading", "erofs/erofs.go getInode"), ("member scan progress", "arfs/arfs.go Open"), ("entry without data", "tarfs/tarfs.go Open")],
  observe=["process exit, recovered panics, ReadAt call count, heap allocation counters"])

p("C10", "Damaged or unsupported archives are refused, never silently misread",
  "An input with a wrong magic, an unknown EROFS incompatible-feature bit, a superblock failing its enabled checksum, an EROFS inode using an unsupported layout or extended attributes, a malformed ar member header (bad terminator, non-numeric fields, or a negative size), a damaged tar header, or a tar entry type the library does not support produces an error at the latest when the affected part is used. "
  "When an archive is cut short at any byte, every file that is still presented either yields all of its original bytes or fails with an error - never fewer bytes followed by a clean end of file - and an archive cut inside a member or entry header does not open as a shorter archive.",
  ["inputs", "crash_points"], "every truncation point and the stated classes of damage at every position",
  "No test opens a damaged or truncated archive.",
  ["erofs/reader.go", "erofs/erofs.go", "arfs/arfs.go", "tarfs/tarfs.go"],
  [("superblock checks", "erofs/reader.go initSuperBlock, verifyChecksum"), ("inode checks", "erofs/reader.go Inode"), ("header terminator and numeric checks", "arfs/arfs.go parseArEntry, checkAr"), ("type refusal", "tarfs/tarfs.go Open")],
  observe=["errors and bytes returned for damaged copies of archives whose contents are known"])

p("C11", "Read results do not depend on the source's ReadAt behaviour; its errors surface",
  "For every archive and every conforming random-access source (one that returns end-of-file together with the last full read or only afterwards), opening, listing and reading give identical results. "
  "If the source fails on any single read, the operation that needed that read returns an error or its correct result - never a crash, wrong data, a shortened listing or a clean end of file - and once the fault has cleared the same opened filesystem gives correct results again.",
  ["fault_sequences", "inputs"], "every position of a failing read in the history of reads made while opening and using an archive",
  "All tests read from healthy files.",
  ["tarfs/tarfs.go", "arfs/arfs.go", "erofs/reader.go", "erofs/erofs.go"],
  [("offset-tracking reader", "tarfs/tarfs.go readerWithOffset"), ("raw reads", "erofs/reader.go bytesAt, unmarshalFrom"), ("inode caching", "erofs/erofs.go getInode"), ("header reads", "arfs/arfs.go Open, checkAr")],
  observe=["results with the k-th ReadAt failing, for every k"])

p("C12", "Create never reports success for an archive that is not completely written",
  "For tar, ar and EROFS: if any write to the destination fails or is short, including writes made while finishing the archive, or if opening, listing, stat'ing, reading or link-reading the source fails at any point, Create returns an error. "
  "If a source file delivers more or fewer bytes than its reported size, Create returns an error rather than reporting success for an archive whose contents disagree with their headers.",
  ["fault_sequences", "inputs"], "every position of a failing or short write and of a failing source operation, for every source tree; every mismatch between declared and delivered size",
  "No test injects any fault into Create.",
  ["tarfs/create.go", "arfs/create.go", "erofs/writer.go"],
  [("archive termination", "tarfs/create.go Create"), ("size agreement", "arfs/create.go writeArData, erofs/writer.go writeData, writeMetadata"), ("error propagation", "erofs/writer.go write")],
  observe=["the error returned by Create with the k-th write or source operation failing"])

p("C13", "One opened archive may be used by many goroutines and many open files at once",
  "Any number of goroutines may open, read, stat, list and resolve links on one opened tar, ar or EROFS filesystem concurrently, and any number of open files may be read in any interleaving with any buffer sizes: every operation returns exactly what it returns when run alone. "
  "No such use is a data race, and no operation changes what later operations observe.",
  ["schedules", "histories"], "every interleaving of read-only operations over any number of goroutines and open files",
  "All tests are single-threaded and read one file at a time to the end.",
  ["tarfs/tarfs.go", "arfs/arfs.go", "erofs/erofs.go", "erofs/reader.go"],
  [("independent section readers per open file", "tarfs/tarfs.go Open, arfs/arfs.go Open, erofs/reader.go Data"), ("inode loading guard", "erofs/erofs.go getInode")],
  observe=["race detector reports; results compared with a sequential run"])

p("C14", "memfs operations are atomic and race-free under concurrency",
  "Under any concurrent mix of writing files, creating directories, opening, reading, stat'ing, listing and taking subtrees on one in-memory filesystem, every operation appears to take effect at one instant between its call and return (creating a path with several missing parents counts as one operation per directory). "
  "In particular a reader sees either the complete previous content and permissions of a file or the complete new ones, an open file keeps the content it was opened with, a listing contains every file created before it began, and the result equals some sequential order of the operations. "
  "No such use is a data race or a deadlock.",
  ["schedules", "histories"], "every interleaving of operations of any number of goroutines",
  "The single memfs test is sequential.",
  ["memfs/memfs.go"], [("per-directory locks", "memfs/memfs.go dir.mu"), ("file publication", "memfs/memfs.go create, WriteFile"), ("open snapshot", "memfs/memfs.go Open")],
  [("children", "name to file or directory, under the directory's lock", "memfs/memfs.go dir")],
  ["call/return history at the API; race detector"],
  "no change in /repo: the check compiles memfs through an overlay whose sync import is replaced by locks that pause at random")

p("C15", "memfs behaves as its reference model for every sequence of operations",
  "For every sequence of operations the in-memory filesystem agrees with a simple model: creating directories creates all parents (existing ones keep their permissions) and fails on a path through a file; writing a file requires an existing parent directory, replaces content, sets permissions only when it creates the file, and fails on a directory; open, stat, read and list reflect the latest successful writes; a subtree shares state with its parent filesystem; invalid and missing paths give invalid and not-exist errors. "
  "The bytes passed to a write are copied, so later changes to the caller's buffer or to bytes already read never alter the file, and an already open file is unaffected by later writes. "
  "A failed operation leaves the filesystem unchanged and fully usable.",
  ["histories", "inputs"], "every finite sequence of operations with any paths and contents",
  "One fixed nine-step sequence is tested.",
  ["memfs/memfs.go"], [("directory creation", "memfs/memfs.go MkdirAll"), ("path lookup", "memfs/memfs.go get, getDir"), ("file replacement", "memfs/memfs.go create, WriteFile"), ("open handles", "memfs/memfs.go Open, File")],
  observe=["results and errors of each call; full tree after each call"])

p("C16", "Reading a memfs directory in pieces yields each entry once, then ends",
  "For every directory and every sequence of read sizes on one open directory handle, successive directory reads return each entry that existed when the handle was first read exactly once, at most the requested number at a time, with correct name, type, size and permissions. "
  "After the last entry a positive-size read returns no entries and end-of-file, and a read of all remaining entries returns none and no error; handles are independent of each other, and files created meanwhile never cause an entry to be repeated or lost.",
  ["inputs", "histories"], "every directory size and every sequence of read counts, with concurrent creations",
  "Directories are only read through one WalkDir over single-entry directories.",
  ["memfs/memfs.go"], [("handle position", "memfs/memfs.go fhDir.ReadDir")], [("idx", "position of a directory handle", "memfs/memfs.go fhDir")],
  ["ReadDir(n) results on directory handles"])

p("C17", "All views of one filesystem agree with each other",
  "In every filesystem this library provides (tar, ar, EROFS, memory), listings are sorted and free of duplicates, and for each listed name the directory entry, its info, stat without following, and (for non-links) stat and the opened file agree on name, type, size, mode and modification time; a regular file yields exactly its reported size in bytes however it is read; every listed path, implied directories and the root included, can be opened. "
  "A name that is not listed is reported as not existing by open and stat, listing something that is not a directory fails, and reading a link of something that is not a link fails. "
  "For archives, a path spelled with a leading slash or './' or a trailing slash means the same as the clean path.",
  ["inputs", "histories"], "every archive or memory tree and every path in or outside it",
  "The tests check a few attributes of a few files and never compare views with each other.",
  ["tarfs/tarfs.go", "arfs/arfs.go", "erofs/erofs.go", "memfs/memfs.go"],
  [("entry/info types", "tarfs/tarfs.go dirent, arfs/arfs.go Entry, erofs/erofs.go dirEntry+fileInfo, memfs/memfs.go fileInfo"), ("path normalisation", "sanitizePath / splitPath")],
  observe=["every public method on every path"])

p("C18", "Converting a tree through any chain of the formats preserves it",
  "Copying a filesystem of regular files, directories and symlinks from any provided filesystem into any archive format that can hold it, opening the result and copying again, through any chain of memory, tar and EROFS (and ar for flat trees of short names), preserves all paths, types, permission and setuid/setgid/sticky bits, file bytes and symlink targets (lexically cleaned), and modification times to the second. "
  "Each provided filesystem is usable as the source of every Create.",
  ["inputs", "histories"], "every tree and every chain of conversions",
  "Each format is only copied onto itself once, from one fixture.",
  ["tarfs/create.go", "erofs/writer.go", "arfs/create.go", "tarfs/tarfs.go", "erofs/erofs.go", "arfs/arfs.go", "memfs/memfs.go"],
  [("source access through fs.FS", "Create functions"), ("symlink access interfaces", "readlink_fs.go; erofs/writer.go dataForInode")],
  observe=["the tree observed after each hop"])

p("C19", "No archive can present an unsafe name or reach outside itself",
  "However a tar, ar or EROFS archive is crafted - absolute names, '..' components, names containing separators, empty or dot names, links pointing anywhere - every name a listing returns is a single path element: non-empty, not '.' or '..', and without '/'. "
  "Joining listed names therefore never leaves the directory it starts in, every entry (other than one naming the root itself) is found below the archive root unless a later entry replaces it, or the archive is refused, and opening, stat'ing or listing any path only ever returns data from the archive itself.",
  ["inputs"], "every crafted archive, entry name, link target and requested path",
  "No test uses a hostile name or link.",
  ["tarfs/tarfs.go", "arfs/arfs.go", "erofs/reader.go", "erofs/erofs.go"],
  [("name sanitising", "tarfs/tarfs.go sanitizePath; arfs/arfs.go Open, sanitizePath"), ("dirent name checks", "erofs/reader.go getDirentName")],
  observe=["names returned by ReadDir; canary files on the host"])

p("C20", "Opening and creating archives is deterministic",
  "Opening the same archive bytes always presents the same filesystem - the same entries, link resolutions, metadata and contents, or the same refusal - on every open, however the runtime orders its maps. "
  "Creating an archive from the same source always produces the same bytes, independent of the sizes in which source files deliver their data.",
  ["inputs", "schedules"], "every archive and source, over repeated runs with differing map orders and read chunkings",
  "Each fixture is opened and each archive created once per run, and outputs are never compared byte for byte.",
  ["tarfs/tarfs.go", "tarfs/create.go", "arfs/arfs.go", "arfs/create.go", "erofs/writer.go"],
  [("hard-link resolution over a map", "tarfs/tarfs.go Open"), ("sorted insertion and listings", "tarfs/tarfs.go Open, ReadDir; arfs/arfs.go ReadDir"), ("ordered inode layout", "erofs/writer.go inodeOrder")],
  observe=["snapshots and output bytes of repeated runs"])

p("C21", "Create releases every file it opens and leaves its destination alone",
  "Whatever the source and however creation ends - success, a refusal, or an error of the source or the destination at any point - tar, ar and EROFS Create have closed every file and directory they opened in the source when they return, and do not use any of them afterwards or after closing it. "
  "The number of source files open at one time does not grow with the number of entries (at most with the depth of the tree), and Create never closes the destination it was given, which stays usable by the caller.",
  ["inputs", "faults"], "every source tree, and an error at any source operation or destination write",
  "Each Create runs once, successfully, and no test looks at what stays open.",
  ["tarfs/create.go", "arfs/create.go", "erofs/writer.go"],
  [("per-file close", "tarfs/create.go, arfs/create.go Create"), ("per-inode close on every path", "erofs/writer.go Create, writeInode, writeFileData")],
  observe=["Open, Read, Stat, ReadDir and Close of every source handle; descriptors of the process; Close of the destination"])

p("C22", "Random access stays random access",
  "What an operation on an opened archive reads of its source is bounded by what was asked for, not by the size of the archive. "
  "Opening EROFS reads a constant amount; looking a name up reads an amount logarithmic in its directory's size; listing a directory reads an amount proportional to that directory; stat reads no file data; reading a file, or a part of it, reads about that many bytes of the source. "
  "Opening tar or ar reads at most a small multiple of the archive once, and afterwards stat and listings read next to nothing and a file no more than about its own bytes. "
  "A long file is read through a small buffer without holding it in memory.",
  ["inputs", "sizes"], "every archive of any size and every operation on it",
  "All fixtures are a few kilobytes, and no test counts what is read.",
  ["tarfs/tarfs.go", "arfs/arfs.go", "erofs/erofs.go", "erofs/reader.go"],
  [("binary search in directories", "erofs/reader.go Inode.Lookup; erofs/erofs.go dirEntry lookup"), ("lazy data readers", "erofs/reader.go Inode.Data; arfs/arfs.go Open; tarfs/tarfs.go Open"), ("superblock and inode reads", "erofs/reader.go OpenImage, Inode")],
  observe=["bytes read of the source per operation; bytes allocated"])

p("C23", "Creating an archive is linear in the source and streams file data",
  "For every source, tar, ar and EROFS Create read the data of each file about once (never more than twice), open, stat, list and link-read each object a fixed number of times, and write an amount proportional to the archive they produce. "
  "Source operations and memory grow in proportion to the number of entries, whatever the shape of the tree, and the data of files is streamed: the memory used does not grow with their sizes.",
  ["inputs", "sizes"], "every source tree, of any size and shape",
  "All sources in the tests are a few small files, and no test counts operations or memory.",
  ["tarfs/create.go", "arfs/create.go", "erofs/writer.go"],
  [("data copied through a small buffer", "tarfs/create.go, arfs/create.go Create; erofs/writer.go writeMetadata, writeData"), ("passes over the tree", "erofs/writer.go populateInodes, firstPass, dataForInode")],
  observe=["source operations per object, bytes delivered per file, bytes written, bytes allocated"])

p("C24", "Answers do not depend on the word size of the platform",
  "On a 32-bit platform opening an archive and creating one give exactly what they give on a 64-bit platform: the same entries, metadata, contents, link resolutions and refusals for every archive and path, including sizes, offsets, times and inode numbers beyond 32 bits, and the same bytes written by Create. "
  "No operation panics there because a number does not fit into a word. Only owners are limited to what the int of the platform holds.",
  ["inputs", "platforms"], "every archive and source, on platforms with 32-bit and 64-bit int",
  "The tests run on one platform with small fixtures, where no size, offset or time exceeds 31 bits.",
  ["tarfs/tarfs.go", "tarfs/create.go", "arfs/arfs.go", "arfs/create.go", "erofs/erofs.go", "erofs/reader.go", "erofs/writer.go"],
  [("header fields and member offsets", "arfs/arfs.go parseArEntry, Open; tarfs/tarfs.go Open"), ("block addresses, inode offsets and sizes", "erofs/reader.go OpenImage, Inode, Data, Lookup; erofs/erofs.go"), ("layout arithmetic", "erofs/writer.go firstPass, secondPass, writeMetadata, writeData")],
  observe=["everything presented by, and every byte written by, the builds for 386 and for amd64"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
