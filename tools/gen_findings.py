#!/usr/bin/env python3
"""Writes known_findings.json: what is left unrepaired, and what was repaired by which commit of /repo."""
import json, os, subprocess, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
findings = [
 {"Property": "C09", "Key": "tar-huge-sparse",
  "What": "tarfs.Open of a 3 KB archive with a sparse member that announces 2^62 bytes reads all of its zeros: time is proportional to the announced, not the stored size"},
 {"Property": "C09", "Key": "tar-deep-path",
  "What": "tarfs.Open of an archive with one path of 100000 components (200 KB) takes quadratic time, minutes"},
]
fixed = [
 ("C01", "keep the metadata of directories listed before", "a directory entry followed by its children lost its mode, owner and time"),
 ("C01", "tarfs: do not strip leading dots and surrounding spaces", "'.hidden' was listed as 'hidden', ' x ' as 'x'"),
 ("C08", "tarfs: resolve symlinks relative to their directory", "links in subdirectories resolved against the root; cycles recursed until the stack overflowed"),
 ("C08", "treat ./ symlink targets as relative", "'d/l -> ./f' led to '/f'"),
 ("C20", "resolve chains of hardlinks", "a hard link to a hard link was a file or an unusable link, depending on map order"),
 ("C17", "do not panic when opening the root", "Open('.') and Open of an implied directory panicked with a nil pointer"),
 ("C17", "replace a directory and its entries with something else through", "a file that replaced a directory through a symlink kept its children: 'a/c' opened although 'a' is a file"),
 ("C17", "tarfs: fail to list something that is not a directory", "ReadDir of a file succeeded with no entries"),
 ("C01", "report GNU sparse files as regular", "old GNU sparse members were irregular files that no Create would copy"),
 ("C17", "accept the root and unclean paths in ReadLink and StatLink", "StatLink('/a'), './a' and 'a/' failed where Stat succeeds; StatLink('.') failed"),
 ("C12", "report errors from finishing the archive", "tarfs.Create succeeded although the trailer was not written or the last file was short"),
 ("C06", "arfs: do not strip leading dots from names", "member '.a' was listed as 'a'"),
 ("C10", "reject partial member headers", "an archive cut inside a member header opened without the member; a full read with io.EOF dropped the last member"),
 ("C10", "check both bytes of the member header terminator", "a header with one damaged terminator byte was accepted"),
 ("C10", "reject negative member sizes", "a member of size -1 was accepted and moved the reader backwards"),
 ("C10", "reject archives with truncated member data", "an archive cut inside a member's data opened and the file ended early without an error"),
 ("C06", "do not list the GNU symbol table", "the symbol table was listed as a file with an empty name"),
 ("C17", "arfs: allow opening the root directory", "Open('.') failed"),
 ("C07", "refuse names in Create that an ar header cannot represent", "names with trailing spaces or separators were written as other names"),
 ("C07", "refuse metadata in Create that does not fit", "an owner id of seven digits shifted all following fields of the header"),
 ("C12", "arfs: fail Create when a file does not have its announced size", "a file that delivered more or less than announced corrupted the archive silently"),
 ("C07", "refuse devices, pipes and sockets", "a device was written as an empty regular member"),
 ("C07", "preserve ownership when copying from an ar", "owners were lost when copying ar to ar"),
 ("C09", "return errors from reading inodes instead of panicking", "inodes that cannot be read made Open, Stat and ReadDir panic"),
 ("C09", "validate the block size and checksum small blocks", "block size exponents of 0 or 255 panicked or hung; valid 512 byte block images were refused (C03)"),
 ("C09", "reject inodes with impossible sizes", "a directory inode with size 2^63 made a listing run for ever"),
 ("C03", "accept directory blocks with large padding", "valid directory blocks with more padding than one name length were refused"),
 ("C03", "report the setuid, setgid and sticky bits", "special permission bits were lost"),
 ("C03", "use the io/fs representation of character devices", "character devices lacked fs.ModeDevice"),
 ("C03", "report the nanoseconds of the modification time", "modification times lost their nanoseconds"),
 ("C11", "handle reads ending at the end of the image", "sources that return io.EOF together with a full read made images unreadable"),
 ("C10", "report truncated file data as an error", "a file cut by the end of the image ended early without an error"),
 ("C08", "erofs: resolve symlinks relative to their real directory", "links through linked directories led elsewhere; cycles never ended"),
 ("C19", "reject directory entries with a path separator", "a listing returned names such as '../x'"),
 ("C17", "report the stored type of entries whose inode cannot be read", "DirEntry.Type panicked for an unreadable inode"),
 ("C04", "do not inline the data of empty files", "empty files at the end of the metadata could not be read"),
 ("C05", "sort all directory entries written by Create", "'.' and '..' were written first although names such as '!' sort before them: lookups failed"),
 ("C05", "point . and .. entries written by Create", "'.' and '..' pointed at inode 0"),
 ("C04", "refuse names and symlink targets in Create that cannot be read back", "names over 255 bytes and huge link targets were written but could not be read"),
 ("C12", "erofs: fail Create when a file does not have its announced size", "a growing or shrinking file corrupted the following data silently"),
 ("C04", "preserve ownership when copying from an EROFS", "owners were lost when copying EROFS to EROFS"),
 ("C05", "do not truncate the link count of huge directories", "a directory with 65536 subdirectories had link count 0"),
 ("C15", "release the directory lock when MkdirAll fails", "after a failed MkdirAll through a file every later operation on the directory blocked for ever"),
 ("C14", "publish written files atomically", "concurrent readers saw empty or partly written files; WriteFile kept the caller's buffer"),
 ("C16", "return each directory entry once", "ReadDir(n) returned the first n entries again and again and never io.EOF"),
 ("C15", "return the filesystem itself for the subtree at the root", "Sub('.') failed"),
 ("C15", "report the full size of partially read files", "Stat of an open file reported only the bytes not yet read"),
 ("C07", "pad names to the width of their header field by bytes", "names of multi-byte characters made a header of the wrong length"),
 ("C04", "refuse names in Create that contain NUL", "a name with a NUL byte came back cut off"),
 ("C03", "do not cut off or refuse symlink targets longer", "in images with 512 byte blocks link targets over 511 bytes were cut off"),
 ("C09", "do not hold all components of every symlink target", "nested long link targets took gigabytes of memory to resolve"),
 ("C10", "refuse archives that end between the extended headers", "an archive cut after a PAX or GNU long name header opened without the entry"),
 ("C12", "report short writes while creating an archive", "destinations that write less than asked without an error led to a success and a corrupt archive"),
 ("C04", "refuse images that block addresses cannot express", "sources of 16 TiB and more produced images whose files overlap"),
 ("C17", "refuse archives that put entries below something", "entries below a file could be opened but were listed nowhere"),
 ("C04", "refuse owners that do not fit into an inode", "a file owned by user 2^32 came back owned by root"),
 ("C04", "store irregular files as regular ones", "an irregular file came back as a regular one"),
 ("C24", "limit times and sizes to the platform's int", "on 32-bit platforms ar archives with times after 2038 or members of 2 GiB did not open, and Create wrote wrapped times"),
 ("C05", "store the parent entry of the root directory", "the root directory had no '..' entry, which consistency checkers for the format require"),
 ("C05", "count files as links to their directory", "the link counts of directories counted files as well as subdirectories"),
 ("C03", "find names in directories stored at the start", "in images with 512 or 1024 byte blocks names of directories stored in block 0 could be listed but not found"),
 ("C03", "do not rely on the types in directory entries", "in images whose directory entries leave the file type unknown, directories could not be listed or walked"),
]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True, check=True).stdout.splitlines()
lines, used = [], set()
for prop, key, what in fixed:
    hit = [l for l in log if " fix: " in l and key in l]
    assert len(hit) == 1, (key, hit)
    used.add(hit[0])
    lines.append(f"fixed: property={prop} {hit[0].split()[0]} {what}")
left = [l for l in log if " fix: " in l and l not in used]
assert not left, left
json.dump({"Findings": findings, "Fixed": lines}, open(os.path.join(root, "known_findings.json"), "w"), indent=1)
open(os.path.join(root, "known_findings.json"), "a").write("\n")
