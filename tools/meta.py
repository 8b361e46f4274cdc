#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json, so that they stay in step with props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE); sys.path.insert(0, HERE)
from props import PROPS
def F(*f): return list(f)
def M(*ms): return [dict(name=n, where=w) for n, w in ms]
IFACE, GEN = "base/components/interface.cpp", "base/components/"
TECH = "deterministic simulation with fault injection: "
P = []
def prop(id, title, statement, over, text, why, files, mech, tech="", note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=dict(files=files, mechanism=mech), tech=tech, note=note, na=na))

prop("C01", "Contexts do not influence each other",
 "Several library contexts may be used in one process by switching the active context between any two calls. What each context parses, builds, interns, registers as macros, scans and writes is exactly what the same calls produce when that context works alone in its own process.",
 ["schedules", "programs", "configurations"], "All programs of 2-4 contexts, all interleavings of their calls, all context configurations.",
 "The tests use one context and one fixed call sequence; interference needs a switch at a particular point between two programs.",
 F("base/components/interface.cpp", "base/components/static_data.cpp", "base/components/lexer.cpp", "base/components/parser.cpp", "base/components/interface.upfront.cpp"),
 M(("active context pointer and its setters", "base/components/interface.cpp: init, set_context, get_context"), ("per-context lexer tokens, string cache, code pools, macros", "base/components/types.hpp, gen.hpp: struct Context")),
 "seeded interleavings of contexts, compared with each job alone")
prop("C02", "A reset context behaves like a new one",
 "After any amount of work, finished or abandoned half way, resetting a context and carrying on gives exactly the results that the same calls give in a freshly initialised context: nothing of the earlier work shows through. Resetting one context leaves the code, strings and macros of every other context intact, and ending a context that was reset returns all its memory.",
 ["histories", "programs", "configurations"], "All histories of jobs and resets, with and without a second live context, all configurations.",
 "The tests never call reset, and a leftover only shows for particular pairs of work before and after it.",
 F("base/components/interface.cpp"), M(("reset", "base/components/interface.cpp: reset"), ("constants and default macros defined again", "base/components/interface.cpp: define_constants")),
 "seeded job/reset histories against a fresh process")
prop("C03", "Contexts return all memory and files they took",
 "Whatever work was done, ending a context returns to the allocators it was configured with every block it took from them, each exactly once and with the size and alignment contract respected, and leaves no file open. The system heap is empty again once the last context has ended, and contexts can be started again afterwards.",
 ["histories", "programs", "configurations"], "All histories of starting, working, resetting and ending 1-3 contexts over all assignments of allocators.",
 "The tests end once and never look at the allocators; leaks and double frees depend on what grew before the end.",
 F("base/components/interface.cpp", "base/dependencies/memory.cpp"), M(("deinit", "base/components/interface.cpp: deinit"), ("fallback bucket allocator", "base/components/interface.cpp: fallback_allocator_proc")),
 "seeded lifecycles over instrumented allocators")
prop("C04", "Interning never conflates and never duplicates strings",
 "Interning a text returns a string with exactly that text, however many other texts were interned before, whatever their lengths and even when their hashes collide. Interning the same text again in the same context returns the very same string, at the same address and unchanged, for as long as the context lives and is not reset.",
 ["inputs", "histories", "configurations"], "All histories of interning (any lengths, contents, hash collisions) between other work, all cache configurations.",
 "The tests intern the few names of one sample; collisions, oversize strings and growth at the right moment do not occur.",
 F("base/components/interface.cpp"), M(("cache_str and its hash table", "base/components/interface.cpp: cache_str, get_cached_str"), ("string arenas", "base/components/interface.cpp: get_string_allocator")),
 "seeded interning histories against a reference map, with growth and collisions")
prop("C05", "Code and names stay what they were while the library works on",
 "Every piece of code and every name handed out keeps its address, type, name and text, whatever the library does later in the same context: pools, arenas and tables may grow and move any number of times. No two pieces of code share storage.",
 ["histories", "programs", "configurations"], "All later work, with pools, arenas and tables of every initial size, over allocators that move blocks on growth and scrub freed memory.",
 "The tests use initial sizes so large that nothing ever grows.",
 F("base/components/interface.cpp", "base/dependencies/containers.hpp", "base/dependencies/memory.cpp"), M(("make_code and code pools", "base/components/interface.cpp: make_code"), ("string arenas", "base/components/interface.cpp: get_string_allocator")),
 "seeded growth under moving, scrubbing allocators; everything re-read after each step")
prop("C06", "Results do not depend on sizes and allocators of the context",
 "Initial sizes, growth steps and the assignment of allocators in a context's configuration influence only memory use. The same calls produce the same code, text and files under every configuration.",
 ["configurations", "programs"], "All configurations (each size from minimal to roomy, every assignment of 1-4 allocators or defaults) for all programs.",
 "The tests run one configuration: the defaults.",
 F("base/components/interface.cpp", "base/dependencies/memory.cpp", "base/dependencies/memory.hpp"), M(("defaults filled in by init", "base/components/interface.cpp: init"), ("growth of pools, arenas, arrays and tables", "base/dependencies/containers.hpp, base/components/interface.cpp")),
 "seeded configurations, compared with a roomy reference")
prop("C07", "A failed allocation never corrupts results",
 "When an allocator given to the library refuses a request, once or from then on, the library either still produces exactly the right result or stops through its fatal error path with a message. It never crashes, touches memory it does not own, or carries on with wrong or missing code.",
 ["fault_sequences", "programs", "configurations"], "Every request of every program may be the one that fails, once or permanently, in each of the allocators.",
 "No test makes an allocation fail.",
 F("base/dependencies/containers.hpp", "base/dependencies/strings.hpp", "base/dependencies/strings.cpp", "base/components/interface.cpp", "base/components/lexer.cpp", "base/components/parser.cpp"), M(("checks of allocation results", "array_*, hashtable_*, strbuilder_*, make_code, cache_str, lex, parser"), ("fatal path", "base/dependencies/debug.cpp, macros.hpp: GEN_FATAL")),
 "n-th allocation fails, once or for ever; transcript compared or fatal stop required")
prop("C08", "Files are read completely or the failure is reported",
 "Reading a file, be it for its contents, as scanned code or as parsed code, hands out exactly what the file holds, without the leading editor-only block when scanning. When the file is missing or empty or the system reports an error or delivers less than the file's size, the failure is reported (nothing returned or a stop with a message); never is part of a file or other memory passed off as its contents, and files and memory are released either way.",
 ["inputs", "fault_sequences", "schedules"], "All file contents and sizes, all faults of open, size, seek, read and close, and a writer that changes the file before it is read.",
 "The tests read existing files on a healthy disk.",
 F("base/dependencies/filesystem.cpp", "base/auxiliary/scanner.cpp", "base/components/interface.parsing.cpp"), M(("file_read_contents", "base/dependencies/filesystem.cpp"), ("scan_file, parse_file", "base/auxiliary/scanner.cpp"), ("platform read", "base/dependencies/filesystem.cpp: _win32_file_read, _posix_file_read")),
 "simulated disk with read faults and racing writers")
prop("C09", "The builder writes exactly what was printed or says so",
 "A builder's file ends up holding exactly what was printed to it, in order, and only then is it announced as generated. If it cannot be created or completely written, that is reported naming the file, it is never announced as generated, and no other file is touched.",
 ["inputs", "fault_sequences"], "All sequences of prints (code, text, formatted, padding) into several files, all faults of open, write, close and the console, every disk capacity.",
 "The tests write to a healthy disk with room, and one fixed text.",
 F("base/auxiliary/builder.cpp", "base/dependencies/filesystem.cpp"), M(("builder_open, builder_print*, builder_write", "base/auxiliary/builder.cpp"), ("platform write", "base/dependencies/filesystem.cpp")),
 "simulated disk with write faults and capacity")
prop("C10", "File operations do what they report",
 "For every history of opening, reading, writing, seeking, asking the size and closing, each successful call has exactly the effect and result of the documented operation on the file's bytes and cursor. A call that could not do all it was asked to reports that, with the right count where one is returned; nothing beyond the caller's buffer or the file's named bytes is touched, and closing releases the file.",
 ["histories", "fault_sequences"], "All histories over several files and open modes, all faults of open, read, write and close.",
 "The tests write one file front to back; seeks, positioned and partial transfers and failures do not occur.",
 F("base/dependencies/filesystem.cpp", "base/dependencies/filesystem.hpp"), M(("file operations tables", "base/dependencies/filesystem.cpp: default_file_operations"), ("cursor and counts", "base/dependencies/filesystem.cpp: file_read_at_check, file_write_at_check, file_seek, file_size")),
 "seeded histories against a model of files, with partial transfers")
prop("C11", "A killed generator damages nothing, and running it again repairs",
 "If a program that generates files is killed at any moment, each of its files then holds its old contents, is absent or empty, or holds a beginning of the new contents, a file already announced as generated is complete, and no other file is changed. Running the program again produces exactly the files an uninterrupted run produces.",
 ["crash_points", "histories"], "All generator programs over 1-4 files, killed in any system call, including in the middle of a write, 1-3 times.",
 "The tests never kill the generator.",
 F("base/auxiliary/builder.cpp", "base/dependencies/filesystem.cpp"), M(("truncate-and-write of a file in one go", "base/auxiliary/builder.cpp: builder_write"), ("announcement after the write", "base/auxiliary/builder.cpp: builder_write")),
 "crash in every system call with torn writes, rerun and compare")
prop("C12", "Dynamic arrays behave like sequences",
 "For every history of appending, inserting, popping, removing, filling, reserving, resizing and clearing, a dynamic array holds exactly the sequence of items those operations define, while its storage grows and moves. When an allocation fails the operation reports it and the array still holds what it held, and freeing the array returns its storage.",
 ["histories", "fault_sequences"], "All histories of operations with all item sizes and initial capacities, over moving allocators and with any request failing.",
 "The tests use arrays only indirectly, with capacities that never grow.",
 F("base/dependencies/containers.hpp"), M(("array operations", "base/dependencies/containers.hpp: array_*")), "seeded histories against a reference sequence, with moving and failing allocators")
prop("C13", "Hash tables behave like maps",
 "For every history of setting, looking up, removing, growing, rehashing and clearing, a hash table maps exactly the keys that were set to their latest values, including keys that fall into the same slot, while its storage grows and moves. When an allocation fails the table still maps what it mapped, and destroying it returns its storage.",
 ["histories", "fault_sequences"], "All histories over keys chosen to collide, all initial sizes, moving allocators, any request failing.",
 "The tests use tables only indirectly; collisions, removals and failed growth do not occur.",
 F("base/dependencies/containers.hpp"), M(("hash table operations", "base/dependencies/containers.hpp: hashtable_*")), "seeded histories against a reference map, with moving and failing allocators")
prop("C14", "String builders behave like strings",
 "For every history of appending, joining, trimming, resetting, duplicating and reserving, a string builder holds exactly the text those operations define, always terminated, with its recorded length and capacity true, while its storage grows and moves. When an allocation fails that is reported and no text is silently lost, and freeing returns its storage.",
 ["histories", "fault_sequences"], "All histories of operations with all texts and initial capacities, over moving allocators and with any request failing.",
 "The tests build strings only by serialising one sample.",
 F("base/dependencies/strings.hpp", "base/dependencies/strings.cpp"), M(("string builder operations", "base/dependencies/strings.hpp: strbuilder_*")), "seeded histories against a reference string, with moving and failing allocators")
prop("C15", "Arenas, pools and heaps hand out disjoint, aligned, stable memory",
 "Every block obtained from an arena, fixed arena, pool, the heap, the context's default allocator or virtual memory is aligned as asked, lies within the memory the allocator owns, overlaps no other live block, and keeps its bytes until it is released, also when it is resized. A request that does not fit is refused rather than handed out, and ending the allocator returns what it took. Copying, moving and filling memory change exactly the bytes asked for, wherever the blocks lie and however they overlap.",
 ["histories", "fault_sequences", "configurations"], "All histories of requests, resizes and releases with all sizes and alignments, over moving and failing backing allocators.",
 "The tests reach only arenas and pools of one size with one alignment.",
 F("base/dependencies/memory.hpp", "base/dependencies/memory.cpp", "base/components/interface.cpp"), M(("arena, pool, fixed arena", "base/dependencies/memory.hpp, memory.cpp"), ("default allocator of a context", "base/components/interface.cpp: fallback_allocator_proc"), ("virtual memory", "base/dependencies/memory.cpp: vm_*")), "seeded histories against a model of live blocks, with failing backing store")
prop("C17", "Results are reproducible",
 "The same calls in the same configuration always produce the same code, text and files: nothing depends on addresses, on the contents of fresh memory, on the time, or on what other contexts did earlier in the process.",
 ["programs", "histories", "configurations"], "All programs; all address layouts, memory contents, clocks and earlier uses of the library.",
 "A test run samples one address layout and zeroed fresh memory.",
 F("base/components/interface.cpp", "base/components/interface.upfront.cpp", "base/components/parser.cpp", "base/components/lexer.cpp", "base/components/ast.cpp"), M(("zeroing of nodes, parse state and tokens", "make_code, parser and lexer setup"), ("ordered output", "base/components/ast.cpp: code_to_strbuilder_ref")), "every source of nondeterminism varied by seed, transcripts compared")
prop("C18", "Memory streams behave like files",
 "For every history of reads, writes, seeks and size queries, a memory stream behaves like a file over its own bytes, starting at the beginning; a stream over a caller's buffer never touches anything outside it, and a cloned or read-only stream never changes the original. A write that cannot be stored because memory runs out is refused and leaves the contents unchanged, and closing releases all memory.",
 ["histories", "fault_sequences"], "All kinds of streams, sizes and histories of operations, moving allocators, any request failing.",
 "The tests never use memory streams.",
 F("base/dependencies/filesystem.cpp"), M(("memory stream operations", "base/dependencies/filesystem.cpp: file_stream_*, _memory_file_*")), "seeded histories against a model of bytes, with failing allocators")
prop("C19", "CSV data survives writing and reading, and data trees keep their shape",
 "A table written as CSV and read again, from memory or from a file, gives the same cells in the same order for every text a cell may hold; malformed text is reported instead of giving a table. A data tree holds exactly the nodes that were added, moved, swapped and removed, each found under its name and parent, also while its storage grows, and destroying it returns its storage.",
 ["inputs", "histories", "fault_sequences"], "All tables with quoted, numeric and empty cells and all delimiters; all histories of tree edits; failing reads and allocations.",
 "The tests read two well-formed files and never write or edit.",
 F("base/dependencies/parsing.cpp", "base/dependencies/parsing.hpp"), M(("CSV reader and writer", "base/dependencies/parsing.cpp: csv_*"), ("tree of nodes", "base/dependencies/parsing.cpp: adt_*")), "seeded tables and edit histories against a reference tree")
prop("C20", "Token templates substitute exactly, however often they are used",
 "Filling a template replaces every named token by the value given for that name in this call and copies everything else unchanged, for every sequence of calls and whatever names and values earlier calls used. The result has the exact length, and a result that does not fit is cut or refused, never written past its space.",
 ["histories", "inputs"], "All histories of template calls with all templates, names and values, between other work, in several contexts.",
 "The tests use a few fixed templates with short values.",
 F("base/components/interface.untyped.cpp", "base/components/inlines.hpp"), M(("token_fmt_va and its per-context map", "base/components/interface.untyped.cpp: token_fmt_va")), "seeded template histories against a reference substitution")
prop("C21", "Bodies hold exactly the code that was put in, in order",
 "A body of any kind made from a list of code, in either calling form, or by appending one by one, has the asked-for kind and holds exactly those pieces in that order; iterating visits each once. Appending, duplicating and merging bodies never loses, repeats, reorders or alters a piece, in any order of such edits.",
 ["histories", "programs"], "All histories of building, appending, merging and reading bodies, specifier lists, parameter lists and arguments.",
 "The tests build each kind once with one fixed list.",
 F("base/components/ast.cpp", "base/components/ast.hpp", "base/components/inlines.hpp", "base/components/interface.upfront.cpp", "base/components/code_types.hpp"), M(("linked entries of a node", "base/components/inlines.hpp: code_append, body_append, begin/next"), ("def_*_body and *_arr", "base/components/interface.upfront.cpp")), "seeded edit histories against reference lists")
prop("C22", "The macro registry holds exactly what was registered",
 "After any sequence of registrations and resets, a macro is found exactly if it was registered since, directly or by parsing a definition of a name not yet known, with the kind and flags of its latest registration, also when names share a hash. A registration is visible only in its own context.",
 ["histories", "inputs"], "All histories of registering singly and in lists, defining by parsing, looking up and resetting, in several contexts, with colliding names.",
 "The tests register a fixed list once.",
 F("base/components/interface.cpp", "base/components/lexer.cpp"), M(("register_macro(s), lookup_macro", "base/components/interface.cpp"), ("definitions found by the lexer", "base/components/lexer.cpp: lex_preprocessor_define")), "seeded registration histories against a reference registry")
prop("C23", "Time never runs backwards",
 "Readings of the relative clock never decrease, advance by the time that passed, and stay unaffected when the wall clock is set.",
 ["schedules", "fault_sequences"], "All sequences of readings, elapsed times and wall-clock jumps.",
 "The tests never read the clock.",
 F("base/dependencies/timing.cpp"), M(("relative and local time", "base/dependencies/timing.cpp")), "simulated clocks with skew and jumps")
prop("C24", "The shipped generators finish their files exactly or say so",
 "Each of the repository's generator programs writes the same files wherever its memory lies, whatever fresh memory holds and whatever the time is; sources taken over whole and rows of enumeration tables are all in them. When reading, writing or memory fails at any moment, every generated file still ends up as in an undisturbed run or the failure is reported, and no other file is touched. Killed at any moment, the program repairs everything when run again.",
 ["fault_sequences", "crash_points", "configurations"], "All moments and kinds of failing reads, writes, allocations and kills in the programs base, segmented, single header, C library and Unreal over the repository's sources.",
 "The build runs each generator once, undisturbed.",
 F("base/base.cpp", "gen_segmented/segmented.cpp", "gen_singleheader/singleheader.cpp", "gen_c_library/c_library.cpp", "gen_unreal_engine/unreal.cpp", "base/helpers/misc.hpp", "base/helpers/base_codegen.hpp"), M(("generator programs", "gen_main in each generator's main file"), ("scratch file round trip through the formatter", "base/helpers/misc.hpp: code_refactor_and_format"), ("enumeration tables", "base/helpers/base_codegen.hpp: gen_ecode, gen_etoktype ...")), "whole generator programs with injected faults, kills and reruns",
 note="Seeded search over complete executions of the real generator programs and library, compiled from the working tree under AddressSanitizer, over the repository's own sources on a simulated disk; judged against an undisturbed run of the same program. The formatting tools the programs start are stubs (absent, or a tidying one). Samples, does not enumerate.")
prop("C25", "A torn or damaged source is parsed or refused, never worse",
 "Whatever is left of a source after a crash or on a bad medium (cut short, with pieces lost, doubled, repeated, swapped, overwritten or inserted, bits flipped), parsing it returns code or ends with a message, within a bounded time and without touching memory that is not its own. Which of the two, the code's text and the message depend on the source alone, not on what memory held before. Code taken from it prints the same text every time, also after later work, and later work in the same context gives what it gives alone.",
 ["inputs", "fault_sequences"], "All damages of sources of every kind of declaration the library parses, through every parsing procedure and parse_file, in debug and release builds.",
 "The tests parse complete files only; each lookahead past the end needs a source that ends, or breaks, at one particular token.",
 F("base/components/lexer.cpp", "base/components/parser.cpp", "base/components/interface.parsing.cpp", "base/auxiliary/scanner.cpp"), M(("lexing to the end of the source", "base/components/lexer.cpp: lex"), ("token consumption and the report of parse errors", "base/components/parser.cpp: lex__eat, parser_to_strbuilder"), ("lookahead and specifier gathering", "base/components/parser.cpp"), ("reading a source file", "base/auxiliary/scanner.cpp: parse_file")), "seeded storage damage to sources, judged by outcome, reproducibility and the work that follows")
NA = [
 ("C16", "Parsed code serialises to equivalent code", "Parsing any supported C++ text and serialising it gives code with the same meaning, and parsing that again gives the same text.", ["inputs"], "All C++ texts in the supported subset.", "The tests parse a handful of sample files.", F("base/components/parser.cpp", "base/components/ast.cpp", "base/components/code_serialization.cpp"), M(("parser and serialiser", "base/components/parser.cpp, code_serialization.cpp")),
  "A function of the input text alone: no scheduling, clock, I/O, randomness or fault takes part in it, so a simulated machine has nothing to vary; deciding it needs a grammar oracle over inputs (property-based testing or translation validation), which is another technique."),
 ("C90", "Formatting, number conversion and hashing functions are correct", "Formatted printing, number parsing and printing, and checksums give the documented value for every argument.", ["inputs"], "All arguments.", "The tests use a few formats.", F("base/dependencies/printing.cpp", "base/dependencies/string_ops.cpp", "base/dependencies/hashing.cpp"), M(("print_va, str_to_*, crc32", "base/dependencies/printing.cpp, string_ops.cpp, hashing.cpp")),
  "Pure functions of their arguments without state, schedule, time or I/O; simulation has nothing to decide (their memory use under the simulator's bounds checks is covered where C07, C09 and C14 use them)."),
 ("C91", "Upfront constructors reject invalid requests", "Every constructor refuses names, specifiers and bodies that are not allowed for the kind of code, and accepts all that are.", ["inputs"], "All combinations of arguments.", "The tests use valid arguments only.", F("base/components/interface.upfront.cpp"), M(("validation in def_*", "base/components/interface.upfront.cpp")),
  "A pure decision on one call's arguments; no interleaving, fault or history takes part, so this is not a matter for simulation."),
 ("C92", "The generated C library matches the C++ library", "The C library produced by the generator offers the same functions with the same behaviour as the C++ library.", ["programs"], "All programs using either.", "The tests compile it and run one sample.", F("gen_c_library/c_library.cpp"), M(("generation of the C library", "gen_c_library/")),
  "A relation between two translations of the same code, not a behaviour under schedules or faults; it calls for translation validation."),
]
def main():
    props, checks, na = [], [], []
    for x in P:
        claimed = x["id"] in PROPS
        if not claimed: continue
        props.append({k: x[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")})
        checks.append(dict(property=x["id"], quick_cmd="python3 tools/check.py %s" % x["id"], thorough_cmd="VERIF_TIER=thorough python3 tools/check.py %s" % x["id"], evidence_file="evidence/%s.json" % x["id"], technique=TECH + x["tech"], level="exploration",
            level_note=x["note"] or "Seeded search over simulated executions of the real library, compiled from the working tree under AddressSanitizer; violations are confirmed by two identical replays and minimised. Samples, does not enumerate; trusts the simulated operating system, the allocators' contract checks and the scenario's reference model."))
    for i, t, s, o, q, w, f, m, r in NA:
        props.append(dict(id=i, title=t, statement=s, quantifier=dict(over=o, text=q), why_tests_cant=w, anchors=dict(files=f, mechanism=m))); na.append(dict(property=i, reason=r))
    for x in props: assert len(x["title"]) <= 80, x["title"]; assert x["statement"].count(". ") <= 2, x["id"]
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for x in props: f.write(json.dumps(x) + "\n")
    man = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
        notes="No hooks in /repo: the simulated machine sits below the library's own seams (allocator procedures, and the operating system calls, renamed in the compiled objects). Every check compiles the library from /repo's working tree.")
    json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
main()
