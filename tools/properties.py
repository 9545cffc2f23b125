#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json. The source of both."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MOD = "protox/src/compile/mod.rs"
FILE = "protox/src/file/mod.rs"
INC = "protox/src/file/include.rs"
CHAIN = "protox/src/file/chain.rs"
SET = "protox/src/file/descriptor_set.rs"
GOOG = "protox/src/file/google.rs"
ERR = "protox/src/error.rs"
MAIN = "protox/src/main.rs"
LIB = "protox/src/lib.rs"
PLIB = "protox-parse/src/lib.rs"

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, level, note, state=None):
    P.append(dict(
        row={
            "id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                **({"state": state} if state else {}),
                "mechanism": [{"name": n, "where": w} for n, w in mech],
                "observe_at": observe,
                "hook_needed": None,
            },
        }, level=level, note=note, na=None))


def na(id, title, statement, over, text, why, files, mech, reason):
    P.append(dict(
        row={
            "id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None},
        }, level=None, note=None, na=reason))


TRUST = (" Seeded search, so a clean run is evidence and not proof. Trusts the in-memory file system to answer like POSIX, and the "
         "reference compiler in sim/src/model.rs for the generated subset of the language.")

prop("C01", "Source files are read whole or not at all",
     "Opening a source file either fails with an error or compiles exactly the bytes the file holds from its first byte to its end, however the "
     "operating system delivers them: short reads, interrupted reads, and a reported size that is too small, too large or zero change nothing. "
     "A read that fails part way is an error naming the file, never a successfully compiled prefix, and no input (small, empty, larger than any "
     "internal buffer) makes the reader loop or stop early. The source text a resolver hands out is that very text. A file whose reported size exceeds 2,147,483,647 bytes may be refused as too large.",
     ["inputs", "fault_sequences", "schedules"],
     "every file content and length, every way of splitting the delivery into reads, EINTR at any read, a failure at any read, any wrong size reported by stat, and changes to the file between two reads",
     "The tests read a handful of complete regular files from a temporary directory; the operating system never delivers a short or failing read there.",
     [FILE, CHAIN, INC], [("open, size check, take and read_to_string", f"{FILE} File::open"), ("error mapping", f"{FILE} File::open map_io_err")],
     ["file_descriptor_set after open_file", "File::source of an opened file", "Error of open_file"], "exploration",
     "Every outcome of every open is compared with the reference compiler's verdict on the bytes the simulated disk delivered, under short reads, EINTR, EIO at a chosen byte, lying stat sizes and changes between reads." + TRUST)

prop("C02", "Include paths are searched in order and only absence falls through",
     "A name is taken from the first source in the order given (include directories or custom resolvers first, built-in well-known files last) that has it, "
     "with that source's content and path. Only 'not found' moves the search on: any other failure of an earlier source (permission denied, I/O error, "
     "not UTF-8, syntax error, a custom error) is reported and never hidden by using a later source's file. A name no source has is reported as not found, "
     "and an include directory that does not exist simply has no files. The same holds when the resolvers are asked directly, without a compiler.",
     ["inputs", "configurations", "fault_sequences", "histories"],
     "every stack of include directories, in-memory resolvers, descriptor sets and built-ins, every set of names present in several of them, and every failure of any of the lookups",
     "The chain resolver is tested with two fixed directories and no failing lookup except absence.",
     [CHAIN, INC, GOOG, FILE, MOD], [("chain order and fall-through", f"{CHAIN} ChainFileResolver::open_file"), ("which errors mean absent", f"{FILE} map_io_err; {ERR} is_file_not_found"), ("built-ins last", f"{MOD} Compiler::new")],
     ["FileMetadata::path", "file_descriptor_set", "Error"], "exploration",
     "Include directories deliberately overlap with different contents; the source each file came from is decided by markers in the content and compared with the reference search, with failures injected at every layer." + TRUST)

prop("C03", "Opening a file by path never yields a different file",
     "When a path that lies under an include directory is opened successfully, the file compiled is the file at that path; if an earlier include directory has "
     "another file of the same name the open fails with an error naming both paths, also when that name is already loaded. The result does not depend on how the path "
     "is spelled ('.' components, doubled or trailing separators), a path is matched to an include directory only by whole components, and a path with a '..' or a root outside the include directories is refused.",
     ["inputs", "configurations", "histories"],
     "every layout of overlapping and nested include directories, every spelling of a path, and every history of earlier opens and of files appearing or vanishing in between",
     "Seven fixed path pairs are tested; none with history, nested include directories or a changing disk.",
     [MOD, INC], [("path to name", f"{INC} resolve_path, path_to_file_name, strip_prefix"), ("shadow check", f"{INC} check_shadow; {MOD} open_file")],
     ["FileMetadata::path", "Error::file", "file_descriptor_set"], "exploration",
     "Paths are spelled in many forms over overlapping and nested include directories, with files created and removed between opens; the reference compiler decides the name, the file or the error for each." + TRUST)

prop("C04", "A failed open leaves what was already compiled intact",
     "When opening a file or a list of files fails, for whatever reason and at whatever point, every file held before the call is still there with the same descriptor, path, order and "
     "import flag, all output forms still contain exactly those (plus, for imports that were compiled completely before the failure, those as imports), and the file whose open failed is not held as opened. "
     "Names of the failing file are not left behind: afterwards, another file that defines them, or the corrected file itself, compiles.",
     ["inputs", "histories", "fault_sequences"],
     "every history of successful opens, followed by a failure of any kind (missing import, cycle, duplicate, syntax or type error, I/O error at any system call) at any file of the import graph, and every continuation",
     "Tests of failures look at the error and then drop the compiler; only one reuses it.",
     [MOD], [("commit after all imports are in", f"{MOD} open_file, add_import"), ("pool restored when a file is rejected", f"{MOD} check_file")],
     ["files()", "file_descriptor_set", "encode_file_descriptor_set", "descriptor_pool", "subsequent open_file"], "exploration",
     "After every failed open all views of the compiler are compared with the reference state before it, and the history continues: retried, corrected and clashing files must compile. " + TRUST,
     [{"name": "pool, files", "meaning": "files committed so far", "where": f"{MOD} Compiler"}])

prop("C05", "Faults are transient: once cleared, the same compiler succeeds",
     "A failed open caches nothing: when its cause (an unreadable or missing file, a failing system call, a source error since corrected) has gone, opening the same path with the same compiler "
     "gives exactly what a fresh compiler would give. No fault makes the compiler crash, hang, or leave a file descriptor open after the call returns.",
     ["fault_sequences", "histories"],
     "every sequence of faults at any system call of any open, repaired in any order, with retries in between",
     "No test retries after a failure or counts file descriptors; the file system of the tests never fails.",
     [MOD, FILE, CHAIN], [("no negative caching", f"{MOD} open_file, add_import"), ("file closed when reading ends", f"{FILE} File::open")],
     ["open_file after repair", "open file descriptors"], "exploration",
     "Fault windows open and close around opens; after each repair the reference compiler demands success and equal output, and the simulated kernel's descriptor table is checked after every call. " + TRUST)

prop("C06", "A loaded file is a snapshot, read once",
     "Within one compiler each file name is loaded at most once: all files that import it see the same definition, it appears once in every output, and opening it again (as a path or import) does not read it again. "
     "Changing, replacing or deleting source files after they were loaded does not change anything the compiler already holds, and a file name imported along many routes within one open is read once.",
     ["histories", "schedules", "inputs"],
     "every sequence of opens interleaved with changes to the disk, also between two system calls of one open, over every import graph",
     "The tests never change a file while a compiler is alive.",
     [MOD], [("already-loaded check", f"{MOD} open_file, add_import"), ("owned contents", f"{FILE} File")],
     ["system call log", "file_descriptor_set", "files()"], "exploration",
     "The simulated disk is changed between and during opens; the log of system calls shows what was read, and every output is compared with the first loaded state. " + TRUST)

prop("C07", "Output is dependency-ordered, closed and correctly flagged",
     "After successful opens, files() and the descriptor set with imports contain every opened file and everything it imports transitively, exactly once, and no other file, each after all the files it imports. "
     "A file is flagged as import exactly when it was never itself opened; without imports the set is the opened files alone in the same order. "
     "Each entry equals the descriptor of its source: imports with their public and weak marks, package, syntax, definitions and options.",
     ["inputs", "histories"],
     "every import graph (chains, diamonds, public and weak imports, built-in files), opened from any roots in any order, once or repeatedly, in one call or several",
     "The tests compile a few graphs of at most three files in a single order.",
     [MOD], [("post-order commit", f"{MOD} add_import, check_file"), ("flag promotion", f"{MOD} open_file"), ("filtering", f"{MOD} file_descriptor_set, encode_file_descriptor_set")],
     ["files()", "file_descriptor_set", "encode_file_descriptor_set"], "exploration",
     "Generated import graphs of up to 14 files over several directories; every view is compared with the reference compiler's set, order and flags after each step, and each descriptor with one derived from the abstract file. " + TRUST)

prop("C08", "Every import graph terminates with the right verdict",
     "For every finite set of files, opening any of them terminates: with success exactly when the imports reachable from it exist, contain no cycle (self-imports included) and list no import twice. "
     "Otherwise the error is the one for the defect: a cycle error whose chain follows imports of that graph from file to file and ends in a file it already passed, a duplicate-import error naming the import, or a missing-import error naming the importing file and the missing name. "
     "A file reached along many acyclic paths is no cycle, and work grows with the size of the graph and not the number of paths.",
     ["inputs", "configurations", "fault_sequences", "histories"],
     "every directed import graph up to 40 files with cycles, self-loops, shared imports and missing files at any depth, over directories, in-memory resolvers and descriptor sets, with lookups failing and files appearing between opens",
     "The tests have one direct self-import, one cycle of three and one diamond.",
     [MOD], [("stack of imports in progress", f"{MOD} add_import"), ("duplicate check", f"{MOD} open_file, add_import"), ("already loaded check", f"{MOD} add_import")],
     ["Error", "system calls and resolver calls per open"], "exploration",
     "Random graphs with the reference verdict, a bound on lookups per open, and watchdogs against hangs and system-call livelock. " + TRUST)

prop("C09", "Every failure is reported as what it is, where it is",
     "The error an open returns is one that really is present: its category predicates (not found, parse, I/O) agree with the cause, the file it is attributed to is the file at fault (the importing file for a missing or duplicated import), and its text names the missing path or import. "
     "For missing and duplicated imports in source text the label marks exactly the bytes of an import of that name, also after non-ASCII text or CR LF line ends. "
     "Every error can be formatted and rendered (Display, Debug, graphical report) without panicking, all its labels lie inside the source it carries, and the underlying I/O or custom error is preserved.",
     ["inputs", "fault_sequences", "histories"],
     "every kind of defect at any file of the graph, alone or together, every failing system call, and every history before it",
     "The tests compare a dozen rendered errors; none under I/O faults, after history, or with non-ASCII text before the import.",
     [ERR, MOD, CHAIN, FILE], [("categories", f"{ERR} is_file_not_found, is_parse, is_io"), ("attribution", f"{ERR} file, into_import_error, duplicated_import"), ("label position", f"{ERR} find_import_span")],
     ["Error: predicates, file(), Display, Debug, miette report"], "exploration",
     "The reference compiler lists every error that would be true; the one returned has to be among them, with label bytes checked against the source. " + TRUST)

prop("C10", "Damaged source files are diagnosed, never fatal",
     "Whatever bytes a source file has after a crash or media fault (cut off at any byte, a tail of zeros, flipped bits, blocks lost, zeroed, duplicated or mixed with another version), opening it or a file importing it "
     "returns a result or an error: it never panics, hangs or exhausts memory. A file that ends inside a declaration, string or block comment, or turns to zeros there, is always an error attributed to that file, with all labels inside its text and on character boundaries; "
     "a file cut between two top-level declarations compiles to exactly the declarations before the cut. Bytes that are not UTF-8 are an error naming the file. The damage affects nothing already loaded, and once the file is repaired the same compiler compiles it.",
     ["crash_points", "inputs", "fault_sequences", "histories"],
     "every generated file of every style, every cut position, every kind of damage, present from the start, arriving between opens or while the file is being read, and every continuation",
     "The parser's tests have a handful of malformed snippets; none is a valid file damaged at every possible place, and none continues with the same compiler.",
     [FILE, PLIB, "protox-parse/src/lex/mod.rs", "protox-parse/src/parse/mod.rs", "protox-parse/src/parse/comments.rs", ERR],
     [("end of input inside a construct", "protox-parse/src/parse/mod.rs"), ("unterminated strings and comments, invalid bytes", "protox-parse/src/lex/mod.rs"), ("UTF-8 check", f"{FILE} File::open")],
     ["open_file", "Error: predicates, file(), labels", "open_file after repair"], "exploration",
     "Damage is applied to files on the simulated disk at chosen bytes, before, between and during reads; the reference knows for each cut whether it falls between declarations, inside one, or (undecided) inside a line comment. " + TRUST)

prop("C11", "Descriptor sets are decoded exactly, whatever becomes of the bytes",
     "Decoding an encoded descriptor set or file gives the same result however the bytes are split into buffers. A set cut off at any byte is an error, unless the cut falls between two records: then exactly the files before it are served. "
     "Damaged bytes are never a panic, a hang or a huge allocation; they are accepted exactly when they still are a valid encoding, and then serve exactly what it says. Unknown set-level fields are skipped, the first of several files of one name is served, other names are 'not found'. "
     "Whatever is served can be given to a compiler, which compiles it or returns an error: in an undamaged or cleanly cut set every file with its imports compiles, keeping custom options, unknown fields and source info, except that files whose syntax is not proto2 or proto3, and files depending on them, are an error naming the file.",
     ["inputs", "crash_points", "fault_sequences"],
     "every descriptor set, every splitting into buffers, every cut, and every damage by flipped, zeroed, lost, duplicated or appended bytes",
     "Two hand-made buffers are decoded in one piece each.",
     [SET, FILE, MOD], [("record loop, length check", f"{SET} DescriptorSetFileResolver::decode"), ("raw bytes kept", f"{SET} FileDescriptor::decode; {FILE} File::decode_file_descriptor_proto"), ("adding to the pool", f"{MOD} check_file")],
     ["DescriptorSetFileResolver::decode, open_file", "File::decode_file_descriptor_proto", "Compiler outputs"], "exploration",
     "Sets are encoded from abstract files record by record, so that the verdict on a cut needs no decoder; for other damage the reference is prost's own FileDescriptorSet. " + TRUST)

prop("C12", "Compilers do not influence each other",
     "What a compiler gives depends only on its configuration, the files and the calls made on it: not on other compilers in the same process, working at the same time in other threads or earlier, on the same or other files of the same names; "
     "not on how the threads are scheduled, nor on which of them is the first in the process to use the library, nor on the random seeds of hash tables. Compilers working at the same time never block each other for good.",
     ["schedules", "histories", "fault_sequences"],
     "every interleaving of threads at system calls, allocations and lock operations, every history in each of them with failures and disk changes, every hash seed",
     "The tests run one compiler each; what they share by running in one process is not looked at.",
     [MOD, FILE, GOOG, PLIB, "protox-parse/src/lex/mod.rs"],
     [("all state in the compiler", f"{MOD} Compiler"), ("parser state per call", f"{PLIB} parse; protox-parse/src/parse/mod.rs Parser"), ("built-in files parsed anew", f"{GOOG} open_file")],
     ["all outputs and errors of every compiler"], "exploration",
     "Each thread runs a history of one of the other properties on a simulated machine of its own with the same paths, under a seeded scheduler; the reference compiler judges it as if it were alone, in a fresh process per run, and what goes wrong alone as well is not counted. " + TRUST)

prop("C13", "The command line tool's exit code and output file tell the truth",
     "protox exits with 0 exactly when every input was compiled and the output file, if one was asked for, holds the complete descriptor set that the library gives for the same includes, inputs and switches, in every spelling of the arguments. "
     "Otherwise it exits with a nonzero code and says why on standard error. If compilation fails, the output path is neither created nor changed. A full disk or any failing write, or an output path that cannot be opened, is never a success. "
     "Nothing but the output path is written. Killed at any point, it leaves at the output path the old content or a prefix of the new one, and running it again gives what an undisturbed run gives.",
     ["inputs", "configurations", "fault_sequences", "crash_points", "histories"],
     "every combination of arguments, every set of sources, every failure of any system call on input or output, being killed at any system call, and every sequence of invocations over one disk",
     "The tool has no tests at all.",
     [MAIN, MOD], [("compile, then write", f"{MAIN} main, run"), ("arguments", f"{MAIN} Args")],
     ["exit status", "standard error", "the disk after each invocation"], "exploration",
     "Each invocation is a process of its own running the real main function on the simulated disk, which outlives it; expected bytes come from the reference compiler. " + TRUST)

prop("C14", "Compilation only reads, and only what the includes and imports name",
     "Opening files never creates, writes, renames or removes anything. The only files opened or looked at are include directory joined with the name of the requested file or of a file imported (transitively) by it; "
     "file names and paths that would leave the include directories ('..', absolute, empty) are refused without being opened, whether given as the file to open or written in an import statement.",
     ["inputs", "configurations", "fault_sequences", "histories"],
     "every import graph, include configuration, path spelling and fault sequence",
     "Tests observe results, not system calls.",
     [INC, FILE, MOD, "protox-parse/src/parse/mod.rs"], [("path to name", f"{INC} path_to_file_name"), ("imports that are refused", "protox-parse/src/parse/mod.rs is_valid_import"), ("include joined with name", f"{INC} IncludeFileResolver::open_file"), ("read-only open", f"{FILE} File::open")],
     ["system call log"], "exploration",
     "Every file system call of every open is intercepted and compared with the set the reference compiler allows. " + TRUST)

prop("C15", "All output forms agree, at any time and in any mode",
     "At every point of a compiler's history and for each of the four combinations of the import and source-info switches, the encoded descriptor set decodes to exactly the descriptor set, and both agree with files() and the descriptor pool in names, order and content. "
     "The switches only select: they can be flipped at any time, source info is present exactly when asked for, and nothing else (options, extensions, nesting of any depth the parser accepts) is changed or lost; extension values of custom options survive in the encoded form. "
     "Reading outputs changes nothing, and pools and sets handed out earlier are never changed by later opens.",
     ["histories", "inputs", "configurations"],
     "every sequence of opens, failures, switch flips and reads, over every generated file set including custom options and deep nesting",
     "Each test takes one output in one mode at the end of one open.",
     [MOD], [("switches", f"{MOD} include_imports, include_source_info"), ("encoders", f"{MOD} file_descriptor_set, encode_file_descriptor_set, remove_source_code_info"), ("shared pool", f"{MOD} descriptor_pool")],
     ["file_descriptor_set", "encode_file_descriptor_set", "files()", "descriptor_pool"], "exploration",
     "All views are taken in all modes at random points of histories with failures and disk changes and compared with each other field by field on the wire and with the reference state; held outputs are compared again at the end. " + TRUST)

prop("C16", "A persisted descriptor set restarts the compiler where it was",
     "An encoded descriptor set with imports, decoded and used as a resolver in a new compiler (alone or before include directories that have since changed), yields for every file in it the descriptor it was persisted with, "
     "custom option values included when the encoded form was used, and files compiled against it from sources resolve their imports to it exactly as before the restart. "
     "Persisting again gives the same bytes for the same files, for any number of generations; names the set lacks are 'not found' and fall through to the next resolver.",
     ["histories", "crash_points", "inputs"],
     "every history of opens, persisted at any point in any mode, restarted any number of times, with sources changed or deleted in between and the bytes delivered in any chunking",
     "One test decodes one hand-made set and opens one file.",
     [SET, MOD, FILE], [("lookup by name", f"{SET} DescriptorSetFileResolver::open_file"), ("raw bytes kept", f"{SET} FileDescriptor::decode; {MOD} check_file"), ("persisting", f"{MOD} encode_file_descriptor_set")],
     ["encode_file_descriptor_set", "file_descriptor_set", "files()"], "exploration",
     "A restart persists, drops the compiler, and rebuilds it from the bytes; the reference state survives only as what was persisted, and the history continues against it. " + TRUST)


prop("C17", "Sources beyond the length limit are refused whole, however they are delivered",
     "A source longer than 2,147,483,647 bytes is never compiled, not even in part: opening it by path, by name, as an import, through any resolver, from a string or with the parser gives an error that names it, and not 'not found', "
     "whether the disk reports its size, reports a smaller one (a pipe, a device, a file that grows while it is read), or the file never ends. "
     "Reading stops soon after the limit, the compiler is as it was before, and with the file repaired it compiles. A source of exactly the limit is not cut: it compiles completely.",
     ["inputs", "faults"],
     "every length around and beyond the limit, every reported size, every splitting of the reads, every way of delivery",
     "A test would need files of 2 GiB and a disk that reports sizes wrongly; there is none.",
     [FILE, PLIB], [("size check and bounded read", f"{FILE} File::open"), ("length check of texts", f"{PLIB} parse")],
     ["Result of open_file, File::open, parse", "descriptor set", "system call log"], "exploration",
     "Files of up to endless length exist only as a rule on the simulated disk (first bytes, filler, last bytes), so that each run costs about two seconds; 24 runs in the quick tier. Lengths in between the limit and 2 GiB + 128 MiB are real, what lies beyond is cut off there, which a correct reader never notices.")


PURE = "A pure function of one input text: no schedule, clock, fault, I/O, or history enters it, so there is nothing for a simulator to decide; generating inputs for it would be plain fuzzing."

na("N01", "Literals denote exactly what the language says",
   "Every integer, float, string and byte literal accepted by the lexer has the value protoc gives it (all escapes, octal and hex forms, overflow rejected, floats correctly rounded).",
   ["inputs"], "every literal", "Tests sample some literals.", ["protox-parse/src/lex/mod.rs"], [("literal conversion", "protox-parse/src/lex/mod.rs")], PURE)
na("N02", "The grammar accepts exactly protobuf's language",
   "A text is accepted exactly when it is a syntactically valid proto2 or proto3 file.",
   ["inputs"], "every text", "Tests sample some texts.", ["protox-parse/src/parse/mod.rs"], [("recursive descent parser", "protox-parse/src/parse/")], PURE)
na("N03", "Source code info spans are exact",
   "Every recorded span is the exact extent of the element with that path.",
   ["inputs"], "every file", "Snapshots of a few files.", ["protox-parse/src/generate/lines.rs"], [("span to line and column", "protox-parse/src/generate/lines.rs")], PURE)
na("N04", "Comments are attached as protoc attaches them",
   "Leading, trailing and detached comments are attributed to the same elements with the same text as by protoc.",
   ["inputs"], "every file", "Snapshots of a few files.", ["protox-parse/src/parse/comments.rs"], [("comment tracking", "protox-parse/src/parse/comments.rs")], PURE)
na("N05", "Desugaring is faithful",
   "Maps, groups, proto3 optional fields, JSON names and defaults are turned into the descriptors protoc produces.",
   ["inputs"], "every file", "Snapshots of a few files.", ["protox-parse/src/generate/mod.rs"], [("descriptor generation", "protox-parse/src/generate/mod.rs")], PURE)
na("N06", "Field numbers and ranges are validated",
   "Numbers and ranges outside the language's limits are rejected, all others accepted.",
   ["inputs"], "every number", "Boundary values are sampled.", ["protox-parse/src/parse/mod.rs"], [("number parsing", "protox-parse/src/parse/mod.rs")], PURE)
na("N07", "Type checking decides what protoc decides",
   "Names resolve with protobuf's scoping rules, and every semantic rule protoc enforces is enforced.",
   ["inputs"], "every closed set of files", "Tests sample the rules.", [MOD], [("delegated to prost-reflect", f"{MOD} check_file")],
   "A pure function of a set of descriptors, decided in the external crate prost-reflect; no schedule, fault or I/O enters it. What of it depends on history is claimed under C04, C06 and C16.")
na("N08", "Nesting of any depth is handled without exhausting the stack",
   "Arbitrarily deep nesting of messages, groups or option values gives a result or an error and never a stack overflow.",
   ["inputs"], "every depth", "No test nests deeply.", ["protox-parse/src/parse/mod.rs"], [("recursive descent", "protox-parse/src/parse/mod.rs")],
   PURE + " (As it stands the parser does overflow the stack at some ten thousand levels; protoc limits the depth instead.)")

TECH = "deterministic simulation with fault injection"


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p["row"], ensure_ascii=False) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": [],
        "not_applicable": [{"property": p["row"]["id"], "reason": p["na"]} for p in P if p["na"]],
        "notes": "No hooks in /repo: the seams are the libc symbols the standard library calls, replaced inside the simulator's executable. "
                 "Replay a reported file with: bash run.sh replay FILE. Commits in /repo starting with 'fix:' repair defects found; see known_findings.txt.",
    }
    for p in P:
        if p["na"]:
            continue
        i = p["row"]["id"]
        m["checks"].append({
            "property": i,
            "quick_cmd": f"bash run.sh check {i}",
            "thorough_cmd": f"bash run.sh check {i} thorough",
            "technique": TECH,
            "level": p["level"],
            "level_note": p["note"],
        })
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
