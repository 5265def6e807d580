#!/usr/bin/env python3
"""Writes checks.json (what run.py needs) and MANIFEST.json from the table below."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAP = ("A case is a random well-formed heap (random classes, hierarchies, threads, frames, locals, system properties, "
        "strings, roots, identifier width 4 or 8) encoded as HPROF bytes with a random segmentation and record order, "
        "and random commands with random flags. ")
MODEL = ("The reference model (harness/model) states the HPROF layout of HotSpot 11-17 and the meaning of the reports "
         "independently of neojhat's code; its encoder was checked against dumps written by a real JVM.")
TOOL = "The tool is built from the working tree and run as a process."
INPROC = "The functions used from neojhat's packages are those its own tests use."

# property: kinds, level, rule, technique, note, assumptions, extra
T = {
"C01": (["cli", "inproc"], "exploration",
  HEAP + "Three subchecks: random increasing keys and offsets in the index with random batch sizes, every present key and its neighbours looked up; "
  "a random heap whose every object, and absent identifiers and identifiers of other kinds, are looked up through the saved index; "
  "every object of a heap referred to by a local so that the threads report must name its type. "
  "Non-trivial: at least 2 keys; at least 5 objects; more than 3 objects, all referred to.",
  "property-based testing: generated heaps and indexes against a reference map",
  "Every lookup result (class, element type, length, payload bytes) is compared with the generated heap; absent identifiers must be reported as not found.", [MODEL, INPROC]),
"C02": (["cli", "inproc"], "exploration",
  HEAP + "Half of the in-process cases are 'wild' dumps: arbitrary symbols, records, constants and values which need not be a consistent Java heap. "
  "Parsed records are compared with the generated ones, as multisets, then saved and restored and compared again. "
  "Non-trivial: at least 5 records (in process); threads present and more than 3 rows (reports).",
  "property-based testing: parse of generated records, save and restore round trip, against the generator's records",
  "Every field of every record kind is compared, in memory and after the round trip through the files of the index.", [MODEL, INPROC]),
"C03": (["cli"], "exploration", HEAP + "The objects report is compared with counts and sizes computed from the generated heap. Non-trivial: at least 3 rows.",
  "property-based testing: objects report against a reference model", "All rows, counts, sizes and totals of the report are compared with the model; and no row may be left over.", [MODEL, TOOL]),
"C04": (["cli", "inproc"], "exploration",
  "Random histograms (ties, zero sizes, counts and sizes up to 2^62, up to hundreds of rows) rendered by the report writer, random sizes near powers of 1024, and " + HEAP +
  "Non-trivial: at least 2 rows; sizes of at least 1 KiB.",
  "property-based testing: ordering and arithmetic of rows against an exact big-integer oracle",
  "Order by the chosen key, marks, percents and units are recomputed with exact integers; both sort keys must give the same set of rows. The order of rows that tie is not judged here (C23 requires it to be stable).", [MODEL, TOOL, INPROC]),
"C05": (["cli"], "exploration", HEAP + "Thread subclasses hide fields, status words are drawn from random bits and from those HotSpot writes. The subcheck aliveOnly keeps the listed finding in sight. Non-trivial: at least 2 threads; at least one changed status word.",
  "property-based testing: threads report against a reference model (Thread.getState of JDK as the state oracle)",
  "Name, ID, priority, daemon flag and state of every thread are compared with the model, in order. Known finding: status word with only the alive bit.", [MODEL, TOOL, "Thread IDs are distinct and every thread root refers to a thread object, as in any dump of HotSpot."]),
"C06": (["cli"], "exploration", HEAP + "Heaps have up to hundreds of frames per thread, shared frames, traces without threads, all codes of line numbers. Non-trivial: at least 2 threads and 3 frames.",
  "property-based testing: stack frames of the threads report against a reference model", "All frame lines of all threads are compared with the model, in order, in plain, colored and HTML form.", [MODEL, TOOL, "Line number 0 and supplementary characters of modified UTF-8 are outside of the domain."]),
"C07": (["cli"], "exploration", HEAP + "Heaps have locals of all kinds in random frames. Non-trivial: at least 2 locals shown.",
  "property-based testing: locals of the threads report against a reference model, and metamorphic relation to the report without locals",
  "Locals of every frame are compared as a multiset; the report with the lines of locals taken out must be the report without locals.", [MODEL, TOOL]),
"C08": (["inproc"], "exploration", "Random method descriptors (0-255 parameters, 0-255 dimensions, class names of any permitted characters) and bare type sequences, generated from the Java types they denote. Non-trivial: at least one parameter; at least two types or an array.",
  "property-based testing: rendering of generated descriptors against the types they were generated from (inverse construction)",
  "The descriptor is built from the list of types, so the expected text is known by construction. C06 checks descriptors through the command.", [INPROC]),
"C09": (["cli"], "exploration", HEAP + "Counts of the summary are compared with the heap and with the totals of the objects report. Non-trivial: at least 2 roots and 10 objects.",
  "property-based testing: summary against a reference model, and agreement of two reports", "Classes, GC roots, instances and heap size must equal the model's numbers.", [MODEL, TOOL]),
"C10": (["cli"], "exploration", HEAP + "Properties are stored in ConcurrentHashMap tables of random size with chains, tree bins, tables being resized, non-string entries and keys. Non-trivial: at least 3 properties.",
  "property-based testing: properties and environment of the summary against a reference map",
  "The whole list is compared with the generated map, sorted; the Environment section as well.", [MODEL, TOOL, "Line breaks within a property are shown as they are, so only their text as a whole is compared."]),
"C11": (["cli"], "exploration", HEAP + "Start and dump times are random, also reversed, the field holding the start time is at random places and absent in several ways. Non-trivial: the start time is recorded.",
  "property-based testing: uptime of the summary against exact arithmetic", "Uptime is compared with the exact difference (Go's duration notation), 'unknown' is required when nothing is recorded.", [MODEL, TOOL, "Differences stay below 292 years."]),
"C12": (["cli", "inproc"], "exploration", "Random texts (ASCII, Latin-1, BMP, supplementary, empty, over 64K) stored as String objects with random field layouts and read back; heaps whose threads and system properties have such texts, reported by the command. Non-trivial: not empty; there are characters that are not printable.",
  "property-based testing: round trip of generated texts through String objects", "The decoded text must be the generated one, and reports must show exactly the texts of the heap.", [MODEL, INPROC, TOOL, "Unpaired surrogates are outside of the domain; line breaks, NUL and whitespace at the ends are not judged through the command."]),
"C13": (["cli"], "exploration", HEAP + "The same heap is encoded twice with independent random layouts and the reports are compared with each other and with the model. Non-trivial: the two files differ and there are more than 3 objects.",
  "property-based testing: metamorphic relation between two layouts of the same heap", "Byte-identical reports are required (locals of a frame compared as a set).", [MODEL, TOOL]),
"C14": (["cli"], "exploration", HEAP + "The same heap is encoded with 4-byte and 8-byte identifiers. Non-trivial: there are object arrays.",
  "property-based testing: metamorphic relation between both identifier widths", "Threads reports must be identical, objects reports differ exactly by the sizes of object arrays, summaries by heap size.", [MODEL, TOOL]),
"C15": (["cli"], "exploration", HEAP + "A sequence of commands runs over one dump and is compared with each command on its own fresh copy and with the model; the dump and its time must stay as they were. Non-trivial: more than 2 commands of different kinds.",
  "stateful property-based testing: histories of commands against fresh runs and the model", "Outputs of a history must be byte-identical to the ones of fresh runs.", [MODEL, TOOL]),
"C16": (["cli"], "exploration", "A case is a history: dumps (valid, cut, random, older, newer, of equal size, earlier ones restored) are put in place of each other and commands run in between. Non-trivial: at least 2 dumps and 2 runs.",
  "stateful property-based testing: histories of replacements against the model of the dump in place", "Every run must give exactly the report of the dump which is in the file at the time (or refuse it when it is not a dump).", [MODEL, TOOL, "A replacement changes size or modification time; no command is running during a replacement."]),
"C17": (["cli"], "fault_enumeration", HEAP + "A run of the tool is stopped under ptrace and killed at system calls: file system calls of a run are enumerated (all, when few; a random sample otherwise), in first analysis and after replacement, also killed repeatedly; then other commands run. Non-trivial: killed at more than 10 points.",
  "property-based testing with injected faults: kill at every file system call of generated runs, next run against the model", "After each kill every following command must give the model's report. Only state visible to another process is examined, not loss of power.", [MODEL, TOOL, "ptrace of own children is permitted."], True),
"C18": (["cli", "inproc"], "exploration", HEAP + "Every proper prefix (in process, of small dumps) or random cuts and those near record boundaries (command) are analysed, then the whole dump. Non-trivial: more than 500 prefixes; every case of the command.",
  "property-based testing: every prefix of generated dumps must be refused", "Each prefix must give an error, an exit code other than 0 and no report, then the completed file the model's report.", [MODEL, TOOL, INPROC]),
"C19": (["cli", "inproc"], "exploration", "Random sequences of keys with disorder anywhere are put to the index with random batch sizes; " + HEAP + "Objects of one kind are then disordered (swap, move, reverse, shuffle, last first). Non-trivial: every disordered case.",
  "property-based testing: disorder injected to generated heaps must be refused, ordered ones accepted", "Every command must refuse the disordered dump each time; in order it must be accepted and reported as the model says.", [MODEL, TOOL, INPROC, "Equal identifiers of two objects are outside of the domain."]),
"C20": (["cli", "inproc"], "exploration", "Structured mutations of generated dumps (lengths, counts, types, references, cycles, record edits), byte mutations (changed, inserted, removed, duplicated, cut), random bytes behind a valid header, and in the thorough tier coverage-guided fuzzing of the whole pipeline. Non-trivial: more than a header and at least one mutation.",
  "structured and coverage-guided fuzzing of dump files, oracle: report or clean error, no crash or hang, in bounded memory", "Each file is analysed by all commands in process (journaled, so that a death of the process becomes a replay) and by the built command under a memory limit.", [TOOL, "Hang: no end within two minutes for a file of at most some hundred KiB."]),
"C21": (["cli", "inproc"], "fault_enumeration", HEAP + "Under ptrace, file system calls of a run fail (one or all from one on) with ENOSPC, EIO, EACCES and others, or writes are short, also those of the report itself going to a file; in process readers and writers fail at random places. Non-trivial: more than 5 calls failed; the fault was hit.",
  "property-based testing with injected faults: failure of every file system call of generated runs against the model", "Each faulty run must give the model's report or an error with a non-zero exit code (just the exit code when the report can not be written); the run after it the model's report.", [MODEL, TOOL, INPROC, "ptrace of own children is permitted."], True),
"C22": (["cli"], "exploration", HEAP + "Names and values contain HTML metacharacters, markup and script. Plain, colored and HTML reports are parsed by an own strict HTML reader and compared. Non-trivial: special characters are present in a report of more than 100 bytes.",
  "property-based testing: differential relation between plain, colored and HTML reports, structural check of HTML", "HTML must consist of exactly the template's elements, and its texts must be those of the plain report.", [MODEL, TOOL]),
"C23": (["cli"], "exploration", HEAP + "The same command runs repeatedly with and without an index. Heaps have ties in every key. Non-trivial: ties are present (objects) or another command.",
  "property-based testing: repeated runs must print the same bytes", "Byte comparison of several runs; Go's map order differs in every run of the tool.", [TOOL]),
"C24": (["cli", "inproc"], "exploration", HEAP + "Sparse huge arrays of up to 14 GiB are put between the objects, or over a million of objects around multiples of the index batch; in the process an index of up to 2^39 entries, computed when read, is asked for keys in it and beside them. Non-trivial: over 4 GiB or over a million objects; over 2^27 entries.",
  "property-based testing: huge generated dumps against a reference model, with measured memory", "Reports must be the model's; the maximum resident set must stay below 256 MiB, whatever the payload. A lookup may read at most 16 MiB of the index.", [MODEL, TOOL, INPROC, "Sparse files are supported by the scratch file system."]),
"C25": (["inproc"], "exploration", HEAP + "Hierarchies with hidden fields and static fields of the same names; every field of objects and absent names are read. Non-trivial: an object of a class with at least 3 superclasses having fields.",
  "property-based testing: field reads against the generated field values", "Value, type and declaring class are compared for every name visible in the object.", [MODEL, INPROC]),
"C26": (["cli"], "exploration", HEAP + "Some of the files are cut, claim more bytes than they have, are random or empty. Each is analysed with and without the display. Non-trivial: at least one value of progress was shown.",
  "property-based testing: differential relation between runs with and without the progress display", "Output and exit code must agree, every shown value be between 0 and 100%.", [MODEL, TOOL]),
"C27": (["cli"], "exploration", "Random argument vectors: commands, documented flags in all spellings, repeated, defaults, wrong flags and values, missing files, help. Non-trivial: more than 2 arguments.",
  "property-based testing: command line against a reference parser and the model's report", "Accepted lines must give the model's report for the flags' meaning; others usage or help, a fitting exit code, no report, no index.", [MODEL, TOOL, "Positional arguments and -- are outside of the domain."]),
"C28": (["cli"], "exploration", HEAP + "Commands run at the same time with random delays (parallel), or two runs are interleaved at file system calls by ptrace (interleaved). Non-trivial: more than 2 runs; more than 10 interleavings.",
  "property-based testing: concurrent runs and controlled interleavings at system calls against the model", "Each run must give the model's report, and so must runs after them. Interleavings within a system call are not controlled.", [MODEL, TOOL, "ptrace of own children is permitted."], True),
"C29": (["cli"], "exploration", HEAP + "Records that do not concern a report are added at random places; undefined sub-record codes are inserted at random places. Non-trivial: more than 3 roots added; every undefined code.",
  "property-based testing: metamorphic relation between a heap and the heap with irrelevant records", "Reports must stay the same except for the numbers that count the records, an undefined code must be refused.", [MODEL, TOOL]),
"C30": (["cli"], "exploration", HEAP + "The heap gets up to 300 local variables, 4-12 MB of arrays, referred to by local variables, and 40000-400000 small objects. System calls of a run are traced to sum up what it reads of the dump and of the index, in the first run and from the saved index, and the same is done for the heap with these arrays short and without the small objects. Non-trivial: the difference is over 3 MiB and 10000 objects.",
  "property-based testing: metamorphic relation of traced costs between a generated dump and the same dump without its weight",
  "The limits leave room: first run 1.5 times the dump, index 64 bytes per object, later runs an eighth of the added bytes of the dump and twice the added bytes of the index. Reading by mmap would not be counted.", [MODEL, TOOL, "ptrace of own children is permitted."], True),
"C31": (["cli"], "exploration", HEAP + "Commands run over dumps with random names (spaces, quotes, wildcards, control characters, non-ASCII, long), named in seven ways, among files with similar names; the trees before and after are compared and all system calls changing files anywhere are traced; for half of the cases these calls fail once the dump is indexed. Non-trivial: some run found its index complete.",
  "property-based testing: histories of commands over generated paths, with traced changes of files and an injected read-only file system, against the model",
  "Nothing outside of the index may be created, changed or removed, the same files must be left by every history, nothing may be written with a complete index, reports must be the model's.", [MODEL, TOOL, "ptrace of own children is permitted."], True),
"C32": (["cli"], "exploration", HEAP + "The command runs in random surroundings: up to 6 of 29 environment variables, 4 working directories, umask, 5 kinds of standard input, output and error each, with and without index. Non-trivial: the report has over 100 bytes.",
  "property-based testing: metamorphic relation between runs in different surroundings, byte by byte",
  "Each report must be byte-identical to the one in plain surroundings, which must be the model's.", [MODEL, TOOL]),
"C33": (["cli"], "exploration", HEAP + "Commands run with random umasks over dumps and directories with random permissions, with and without an older index or foreign files in its place. Permissions of all files of the index, and of directories on the way to them, are looked at after each run and in snapshots taken before random system calls of a run. Non-trivial: the umask permits something.",
  "property-based testing: permissions of everything a run creates, over generated masks, places and moments, as an invariant",
  "No file of the index may be reachable and readable or writable by the group or others. In the middle of a run only what lies below the index is looked at.", [MODEL, TOOL, "ptrace of own children is permitted."], True),
"C34": (["cli", "inproc"], "exploration", HEAP + "The index of the dump is made and then spoiled: its mark is removed, replaced by one of another dump or by other bytes, or kept; up to 3 files of it are removed, emptied, cut, extended, changed at random places, taken from another dump, replaced by random bytes, links or directories, and unrelated ones added; or the place of the directory is taken by a file or a link. In the process (subcheck records) values of saved records, found by reflection, bytes of their files and keys and offsets are changed before all reports are made. Non-trivial: anything was done; the files were restored.",
  "property-based testing: structured mutations of the saved index, then commands against the model",
  "Without a valid mark only the model's report is accepted. With it, missing or cut records must give an error or the right report; after changes that nothing can tell, only an orderly end is required, under a memory limit of 6 GiB (3 GiB in the process).", [MODEL, TOOL, INPROC]),
"C35": (["cli"], "exploration", HEAP + "Names and keys contain characters beyond ASCII, markup and separators, and have any length. Places of separators, widths of rows and starts of values are compared, in characters. Non-trivial: at least two rows; more than 8 values.",
  "property-based testing: geometric invariant of the report over generated names and numbers",
  "The contents must be the model's as well. Characters of double width count as one.", [MODEL, TOOL]),
"C36": (["cli"], "exploration", HEAP + "Texts hold any characters, markup and addresses. The HTML report is read by an own strict reader; attributes, styles and the icon are examined. Non-trivial: a document of over 3000 bytes.",
  "property-based testing: structural invariant of the HTML report over generated texts",
  "The report must be valid UTF-8 with one html, head, title and body element, no attribute may load anything but data within the document.", [MODEL, TOOL]),
}


def main():
    checks, entries = {}, []
    for k in sorted(T):
        v = T[k]
        kinds, level, rule, technique, note, assumptions = v[:6]
        checks[k] = {"kinds": kinds, "level": level, "rule": rule, "assumptions": assumptions}
        if len(v) > 6:
            checks[k]["faultrun"] = True
        if k == "C20":
            checks[k]["fuzz"] = {"name": "FuzzFile", "subcheck": "pipeline", "seconds": 240}
        entries.append({
            "property": k,
            "quick_cmd": "VERIF_TIER=quick python3 run.py " + k,
            "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + k,
            "evidence_file": "evidence/%s.json" % k,
            "technique": technique, "level": level, "level_note": note,
        })
    with open(os.path.join(VERIF, "properties.jsonl")) as f:
        ids = [json.loads(line)["id"] for line in f if line.strip()]
    manifest = {
        "version": 1,
        "setup_cmd": "python3 tools/setup.py",
        "checks": entries,
        "not_applicable": [],
        "notes": "run.py ID builds neojhat from /repo's working tree in a scratch directory; run.py ID --replay FILE repeats a failing case.",
    }
    assert ids == sorted(T), set(ids) ^ set(T)
    for name, doc in (("checks.json", checks), ("MANIFEST.json", manifest)):
        with open(os.path.join(VERIF, name), "w") as f:
            json.dump(doc, f, indent=1)
            f.write("\n")


main()
