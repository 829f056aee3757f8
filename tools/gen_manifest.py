#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = ("Decided by monitors over executions of the real code: it assures the property for what was executed, "
          "and assumes the generators reach the inputs that matter and that the oracle, written independently from the format, is right. ")
T = {
 "C01": ("runtime monitor: tree observer compared with an independent tar encoder's model, plus GNU tar", "Oracle: the model tree an independent encoder for 8 tar flavours was driven by."),
 "C02": ("runtime monitor: created archives decoded by archive/tar, GNU tar and tarfs, compared with the source model", "Trusts archive/tar and GNU tar as readers."),
 "C03": ("runtime monitor: observer and inode API compared with an independent EROFS image builder's model", "The builder was written from the on-disk format documentation."),
 "C04": ("runtime monitor: create, open and observe, compared with the source model; counting sink for huge files", "Reader and writer together; C03 and C05 judge each alone."),
 "C05": ("runtime monitor: independent on-disk format checker run over every created image", "The checker was written from the on-disk format documentation."),
 "C06": ("runtime monitor: observer compared with an independent ar encoder's model, plus binutils ar", "GNU, Debian and BSD-less short-name archives only, as the property says."),
 "C07": ("runtime monitor: strict independent ar decoder, binutils ar and arfs over created archives", "Trusts binutils ar as reader."),
 "C08": ("runtime monitor: every path query compared online with an independent link resolver; watchdog for hangs", "Chains of up to 200 links must resolve; beyond that an error is accepted."),
 "C09": ("runtime monitor: hostile inputs under address-space limit, step budget, allocation accounting and watchdog", "Time is judged by reads of the source and a generous watchdog only."),
 "C10": ("runtime monitor: every header field damaged and every cut length tried; results compared with the undamaged archive", "Damage is judged against what the format obliges a reader to notice."),
 "C11": ("runtime monitor: fault injection at every source read, results compared online with the healthy run", "Faults of one source at a time."),
 "C12": ("runtime monitor: fault injection at every destination write and source operation; lying and changing sources", "Destination faults follow io.Writer and io.WriterAt, short writes without an error included."),
 "C13": ("race detector plus differential monitor: every result of concurrent use compared online with the operation run alone", "Schedules are sampled, not enumerated; delays are injected into source reads."),
 "C14": ("race detector, linearizability checking of recorded histories (porcupine) and online version checkers, with pauses injected at lock boundaries", "Schedules are sampled. Pauses need memfs to use package sync; otherwise the check runs without them."),
 "C15": ("runtime monitor: lockstep comparison with a reference model, all short and random long operation sequences", "The model was written from the documentation of the API."),
 "C16": ("runtime monitor: history checker over directory reads in pieces, with creations in between and in parallel; race detector", "An entry created after the first read may appear or not."),
 "C17": ("runtime monitor: cross-view consistency checker over every listing, entry, info, stat, link, read and io/fs helper", "Only agreement is judged here; C01 to C08 judge the content."),
 "C18": ("runtime monitor: the tree every stage of random conversion chains presents compared with the original model", "Owners and the root's own metadata are not compared, as the property says."),
 "C19": ("runtime monitor: name-safety and provenance checker over hostile archives, with canary files under inotify watch", "Where inotify is not available, only the data and infos returned are judged."),
 "C21": ("runtime monitor: life of every source handle followed through Create with faults at every operation; process descriptors", "Sources and destinations fault one operation at a time."),
 "C22": ("runtime monitor: bytes read of the source and bytes allocated, counted per operation and compared with bounds computed from the layout", "Constant factors are not judged: bounds leave room for whole blocks and read-ahead."),
 "C23": ("runtime monitor: source operations, bytes delivered, bytes written and bytes allocated counted per object and compared between sizes", "Constant factors are not judged; CPU time is not measured."),
 "C24": ("runtime monitor: a 32-bit and a 64-bit build of the library execute the same requests, everything presented and written compared", "Of the 32-bit platforms, 386 is executed."),
 "C20": ("runtime monitor: everything presented compared across repeated opens, bytes compared across repeated creations", "Map orders are sampled by repetition."),
}
checks = []
for p in sorted(T):
    tech, note = T[p]
    checks.append({"property": p, "quick_cmd": f"./check {p} quick", "thorough_cmd": f"./check {p} thorough",
                   "technique": tech, "level": "exploration", "level_note": COMMON + note})
m = {"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: instrumentation is applied with go build -cover, -race and -overlay at check time."}
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
for i in ids:
    if i not in T:
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
