#!/usr/bin/env python3
"""Generates MANIFEST.json from the list of checks below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE_COMMON = (" Enumeration is complete within the bounds (no sampling); the code that runs is the real library, rebuilt from /repo with "
               "AddressSanitizer and undefined behaviour checks. Trusted: the reference model in /verif/harness, the compiler and its sanitizers.")
CHECKS = {}
def c(id, technique, note): CHECKS[id] = (technique, note + NOTE_COMMON)

c("C01", "exhaustive enumeration of templates, values and headers; encoder and decoder checked against an independent BUFR model",
  "All templates of up to 3-4 items over a set of element, replication, sequence and operator items, all values of narrow fields and all limits of wide ones, all header fields at their limits in the three editions, every entry of the shipped tables, all sample files, all bytes in strings and binary fields, all programs of up to 5 items (6 in thorough) that define, use and cancel reference values. The bytes that are written are compared with those of the model, and what is decoded with what was encoded.")
c("C02", "exhaustive enumeration of descriptor programs; decoder checked against an independent BUFR interpreter",
  "All descriptor programs of up to 3-4 items (5 in thorough) over elements, replications, sequences and operators, with all counts, significances, references and boundary values; every sequence of every shipped D table; all bytes in strings and binary fields; the sample files. The expected variables come from a model written from the specification.")
c("C03", "exhaustive enumeration of compressed data sections, checked against an independent model and the uncompressed message",
  "All tuples of values of narrow elements over up to 6 subsets (8 in thorough), all difference widths and bases up to 2 more bits than needed, all template programs of up to 4 items (5 in thorough), all field widths, subset counts around powers of two and up to the maximum, all bytes in strings.")
c("C04", "exhaustive fault injection on BUFR messages under memory, leak and time monitors",
  "All truncations, all single byte values in all positions, all pairs of selected bytes, all section lengths on a grid, deletions and insertions, of messages that use every feature; all single descriptors; all programs of up to 3 descriptors (4 in thorough) over interesting ones with several data contents, data lengths and subset counts; positions of the sample files. Each execution is monitored for out of bounds accesses, undefined behaviour, leaks, foreign exceptions and time.")
c("C05", "exhaustive enumeration of CREX templates, values, headers and layouts against an independent CREX model",
  "All templates of up to 4 items, all limits of numbers and shapes of strings, all header fields at their limits, replication counts up to 9999, check digits, all separators and optional sections on a grid; every element and sequence of the shipped CREX tables. The text is compared with that of the model, and what is decoded with what was encoded.")
c("C06", "exhaustive fault injection on CREX messages under memory, leak and time monitors",
  "All truncations, substitutions, insertions, deletions and duplications of single characters of messages that use every feature, pairs of changes, all sequences of up to 4 tokens (5 in thorough) and up to 3 descriptors (4 in thorough); positions of the sample files. Each execution is monitored for out of bounds accesses, undefined behaviour, leaks, foreign exceptions and time.")
c("C23", "exhaustive enumeration of bitmap patterns and programs; decoder and encoder checked against an independent BUFR model",
  "All bitmap patterns up to 6 bits (9 in thorough) over templates with replications, character data and other bitmaps, fixed and delayed, all programs of up to 4 items (5 in thorough) with several bitmaps, reuse, cancellation and substituted values, plain and compressed, long bitmaps with one or two marks in any position and different in two subsets, all operators that begin or end before, between and after the parts of a bitmap, bitmaps computed from attributes.")
c("C07", "exhaustive enumeration of streams, cuts and read faults against an independent splitter",
  "All streams of up to 2 messages (3 in thorough) with all things between them that look like the beginning of a message, all strings of up to 8 characters that matter before a message and inside a CREX message, all cuts, read errors and short reads in any position, all declared lengths around the size of what is there, write errors after any number of bytes, messages of up to 16 MB, offsets around 2 and 4 GB, all sequences of up to 5 pieces of the end of a CREX message, the sample files.")
c("C08", "stateless model checking of Var histories against a value-type model",
  "All histories of up to 2-3 operations (4 in thorough) over 2-3 variables of every type, including self and aliased operands, compared after each step with a plain value model; leaks and memory errors are detected on every execution.")

c("C09", "exhaustive enumeration of setters, values and error modes against a domain model",
  "Every description on a grid of types, scales and widths, every value around each limit, every setter and every combination of the error handling options.")
c("C10", "exhaustive enumeration of descriptions, values and setters against a value model",
  "Every type, scale and width on a grid, every value of narrow domains and the boundary values of wide ones, every pair of view and setter.")
c("C11", "stateless model checking of attribute histories against an ordered map",
  "All histories of attribute operations up to a depth over small sets of codes, compared after each step with an ordered map.")
c("C12", "exhaustive enumeration of pairs and triples of variables against structural equality",
  "All pairs (and triples, for transitivity) of a set of variables of all types, values and attribute sets, and strings and binaries of all lengths up to 270 (1100 in thorough) and some longer.")
c("C13", "exhaustive enumeration of variable descriptions and field values against an arithmetic model",
  "Every entry of every shipped B table and a grid of scale, reference and width; every value of narrow fields, boundary values of wide ones.")
c("C14", "stateless model checking of lookup and alteration histories, and exhaustive enumeration of codes and alterations",
  "All codes of all shipped tables, all tables made of a subset of codes, all histories of up to 3 requests (4 in thorough) over valid and invalid alterations, table loads and failed loads.")
c("C15", "exhaustive enumeration of sets of installed tables, requests, listing orders and lookup histories against an independent ranking",
  "All sets of up to 3 tables over a grid of identifiers, all requests over the grid, all directory listing orders (readdir is replaced), all names with all kinds of neighbours, all histories of up to 4 operations (5 in thorough) that add directories, look up, explain and print; the tables that bulletins load for all versions, centres and editions, from the shipped tables and from an extra directory; comparisons of all pairs of table identifiers for all requests, and their order.")
c("C18", "stateless model checking of real threads under a controlled scheduler that can stop them at every edge and memory access of the library, with preemption bound 2",
  "17 operations that use options, hooks, notes, conversions to strings and errors, all pairs of them on two real threads: one is stopped at each of its scheduling points (edges and non-stack loads and stores of the instrumented library) while the other runs to the end, and both stopped once at all pairs of edges (of all points in thorough); all programs of 2 threads of 2 steps (3 threads of 1 step in thorough) in all interleavings, with new threads; all nestings of up to 5-7 scopes (6-9 in thorough) left normally or by exceptions, against a stack model. Tables that are loaded when first used are loaded before the threads start: that is not covered.")
c("C24", "stateless model checking of histories of decode, encode and other operations, in fresh and in warm processes",
  "All histories of 2 operations (with a third that interferes) over valid, broken and conflicting messages, each history in a fresh process, all histories of 3 messages in fresh and warm processes (4 in thorough), all ordered pairs of the small sample files; results are compared with those of each message alone in a fresh process, and bulletins kept from before are compared again at the end.")
c("C25", "stateless model checking of the real Python bindings, embedded in the harness, in lock step with the C++ library",
  "All values of a pool (all Python types, limits of integers, non finite numbers, bytes with zeros) for all kinds of variables through all ways to create or set them; all histories of 3 operations (4 in thorough) on two variables mirrored in C++; all methods of all types with all tuples of 0 to 3 arguments of a pool; all types created without their constructor, initialised twice or after a failure, with all pairs of uses; all codes of all tables, all table requests, all unit conversions; binary and string values of thousands of bytes; the C API. Reference counts (also of the arguments of each call) and memory are compared before and after each execution.")
c("C16", "exhaustive enumeration of table file contents against an independent parser",
  "All shipped table files, all combinations of field values at their column limits, all orders of short files, sequences of up to 999 items, all single line truncations and corruptions.")
c("C17", "exhaustive enumeration of all pairs and triples of units over a value grid",
  "All pairs and triples of the units known to the library and of unknown ones; octants of all directions in steps of 1/16 of a degree; conversions of variables.")
c("C21", "exhaustive enumeration of all codes of each table",
  "All codes in and around the legal range of each conversion, all there-and-back pairs.")
c("C22", "exhaustive enumeration of all codes and of all short strings",
  "All 65536 codes; all strings of up to 6 characters over a small alphabet; all single character changes of valid codes.")
c("C19", "exhaustive enumeration of templates and subsets, right and wrong, cross-checking validation, encoding and decoding",
  "A list of templates that covers elements of all types, replications of all kinds, sequences, every operator and bitmaps, each with the subsets that match it (one and two subsets) and every single change to any of their variables (pairs of changes for CREX, and for BUFR in thorough): wrong codes, missing and surplus variables, values at and past the limits of the field, altered descriptions, wrong counts and bitmaps; the values around the limits of every element; BUFR operators in CREX templates. Validation must succeed exactly when encoding does, and then decoding must give back the same variables.")
c("C20", "exhaustive enumeration of single and pairwise changes of bulletins",
  "All header fields of both formats at several values, all single changes of descriptors, subsets, variables, values and attributes of bulletins of up to 3 subsets, and all pairs of changes; differences must be reported in both directions, and none between equal bulletins however they were obtained.")
c("C26", "exhaustive enumeration of messages and faults through all decoding and printing entry points, compared with each other",
  "All descriptor programs of up to 2 items (3 in thorough) with optional data before and after them, all truncations and corruptions of messages that use every feature, the sample files, decoded plainly, verbosely, with each option and for the header only, and printed in all forms.")
c("C27", "stateless model checking of slicing histories against a vector model",
  "All histories of slicing operations over all short sequences.")

c("C28", "stateless model checking of the real tool, run in process, over all files, faults and command lines up to a bound, against the library and a model of the options",
  "All files of up to 3 pieces (4 in thorough) out of 9 kinds for BUFR and of up to 4 (5) for CREX, whole or cut, all lists of 2 files (3 in thorough) of good, broken and missing ones, all single byte faults with 5 values, all combinations of up to 3 options (4 in thorough), all lists of up to 3 variables (4 in thorough), long values and lists, many subsets and messages, the sample files, and the features of all sequences of up to 3 items (4).")
c("C29", "exhaustive enumeration of header bytes and section layouts against an independent reader",
  "Editions 2, 3 and 4: each header byte with all its 256 values, all pairs of bytes over 6 values (64 in thorough), all combinations of section lengths and reserved bytes, all 256 values of the flags, sections of up to 70000 bytes, 1 to 130 descriptors (300 in thorough), all 65536 descriptors; each decoded fully and header only.")
c("C30", "stateless model checking of the real Lua bindings, embedded in the harness, in lock step with the C++ library",
  "14 kinds of variables with all values of a pool, through all methods, constant or not, with all wrong objects and surplus arguments; all histories of up to 3 calls (5 in thorough), good and failing; memory and the Lua stack are compared before and after each execution.")
c("C31", "stateless model checking of the real bulletins and subsets in lock step with lists of what was stored",
  "All histories of 3 operations (4 in thorough) of creating subsets, storing variables in all ways (good and failing), bitmaps, clearing, setting the header, copying and moving subsets, loading tables (good and missing) and changing what was stored; BUFR and CREX; plus encoding of new and of used and cleared bulletins.")
c("C32", "exhaustive enumeration of error classes, message lengths, error numbers and single faults of messages and tables",
  "11 classes of errors in all ways to raise them with messages of all lengths from 0 to 600 bytes (5000 in thorough) and some up to 1 Mb; all error numbers 0 to 139; notes of all lengths; all truncations and byte faults of a BUFR and of a CREX message with 6 file names and 6 offsets; a bad line at each position of B and D tables; missing files.")
c("C33", "exhaustive enumeration of small WMO XML and zip files, and of their faults, imported with the real script and loaded with the library",
  "All values of each field of an entry from a pool (codes x names, units x units, scales x references x widths, CREX scales x widths), all tables of up to 3 entries (4 in thorough) of 4 kinds in all orders, all D tables of up to 3 rows of 14 kinds and of 4 rows (5 in thorough) of fewer, sequences of 1 to 130 elements (400 in thorough); zip files with all orders and subsets of the tables, versions, other members in all positions; all truncations and all faults of each byte (2 faults, 8 in thorough) of a zip file; all truncations of XML, each field missing or not a number. ASCII only.")
c("C34", "exhaustive enumeration of all strings up to a length over alphabets with the special characters, against independent models of each function",
  "Splitting of strings of up to 11 characters with 6 separators (14 in thorough), paths of up to 10 characters (12), stripping of up to 7 (9), C strings and URLs of up to 5 (6) to encode and 6 (7) to decode, base64 of up to 7 bytes out of 8 (8 bytes) and of all lengths up to 200; all strings of 1 and 2 bytes.")

c("C35", "exhaustive enumeration of fault points: each system call is interposed and made to fail or to do part of its work, with the files inspected around every call",
  "Each of the first 8 system calls failing, with up to 3 partial reads or writes of any size, for contents of up to 4 bytes (and larger files for whole transfers); histories of up to 5 operations on two handles, and of opening again a file that comes and goes; locks refused and interrupted; times to the nanosecond; directory trees of up to 4 entries of 6 types, with and without types told by the file system.")
c("C36", "exhaustive enumeration of redirections run for real in a helper process, and of all histories and schedules of a virtual process that ends, or interrupts waiting, at every possible point",
  "8 x 8 x 9 redirections with and without closing and passing files, and with each subset of the standard streams closed in the parent; histories of 4 operations (5 in thorough) on a process with 7 exit statuses and 6 timeouts, up to 2 interruptions; each pipe and fork failing.")
c("C37", "exhaustive enumeration of pairs of colours on all kinds of files, with the output interpreted by a model of a terminal",
  "All pairs of 18 colours, 6 functions, 4 texts, 5 kinds of files (pseudo terminal, pipe, file, memory, /dev/null).")

NA = {}
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
for p in props:
    if p not in CHECKS:
        NA.setdefault(p, "Check not built yet")
m = dict(version=1, setup_cmd="python3 run.py setup",
    hooks=dict(guard="WREPORT_VERIF", enable="No hooks were needed: the checks drive the public interface, and no code in /repo is guarded"),
    checks=[dict(property=k, quick_cmd="python3 run.py check %s" % k, thorough_cmd="python3 run.py check %s --tier thorough" % k,
                 evidence_file="evidence/%s.json" % k, technique=t, level="model_checking", level_note=n) for k, (t, n) in sorted(CHECKS.items())],
    not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items()) if k not in CHECKS])
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "wt"), indent=1)
