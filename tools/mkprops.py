#!/usr/bin/env python3
"""Generates properties.jsonl (kept here because JSON lines are unpleasant to edit by hand)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

p("C01", "BUFR encode then decode gives back the same bulletin",
  "For every bulletin that can be encoded to BUFR edition 2, 3 or 4, decoding the encoded bytes gives a bulletin with the same header fields (as far as the edition can represent them), data descriptors, subsets, variables, missing values and attributes, and the bytes are the ones the BUFR specification prescribes. Numbers come back with exactly the same scaled integer, strings come back unchanged apart from trailing padding, and the optional section comes back unchanged apart from padding to an even length. A number that cannot be represented in the field it is encoded to makes encoding fail instead of being silently altered, and a string that is too long is cut.",
  ["inputs", "programs"], "all data descriptor sections, numbers of subsets, values including limits and missing, header field values and editions",
  "The tests re-encode a few sample files and one hand-made template; they do not sweep widths, scales, references, operators, limits, missing values and header field limits.",
  ["wreport/bufr_encoder.cc", "wreport/buffers/bufr.cc", "wreport/bufr/decoder.cc", "wreport/bufr/input.cc"],
  [("section writers", "wreport/bufr_encoder.cc: Encoder"), ("bit packing", "wreport/buffers/bufr.cc: BufrOutput::add_bits, append_var, append_string"), ("value scaling", "wreport/varinfo.cc: encode_binary, decode_binary")],
  ["BufrBulletin::encode", "BufrBulletin::decode"])
p("C02", "BUFR decoding follows the descriptor and operator semantics",
  "Decoding an uncompressed BUFR message yields, for each subset, exactly the sequence of variables, values, missing values and attributes that the data descriptor section prescribes: element widths, scales and references from the tables, expanded sequences, fixed and delayed replication (also nested and with zero repetitions), and the operators that change width, scale, reference, string length, add associated fields, insert characters or describe local elements. Each operator has effect exactly from where it appears until it is cancelled or the subset ends. Descriptors that cannot be followed, such as unknown elements and sequences or replications of more descriptors than there are, are reported as errors.",
  ["programs", "inputs"], "all data descriptor sections up to a size bound built from the supported descriptors, with all combinations of boundary values",
  "Tests decode about forty sample files and compare a few values; combinations, nesting and cancellation of operators, and boundary values are not covered.",
  ["wreport/bulletin/interpreter.cc", "wreport/bufr/decoder.cc", "wreport/bufr/input.cc", "wreport/bulletin/associated_fields.cc", "wreport/vartable.cc", "wreport/tables.cc"],
  [("descriptor interpreter", "wreport/bulletin/interpreter.cc: run, c_modifier, get_varinfo, r_replication"), ("bit reader", "wreport/bufr/input.h: get_bits"), ("number and string decoding", "wreport/bufr/input.cc: decode_number, decode_string, decode_binary")],
  ["BufrBulletin::decode"])
p("C03", "Compressed and uncompressed BUFR decode to the same subsets",
  "A message whose data section is encoded with compression decodes to exactly the same subsets, variables, values, missing values and attributes as the same data encoded without compression. This holds for every number of subsets, every mix of equal, different and missing values across subsets, and every number of difference bits that can represent them.",
  ["inputs", "programs"], "all templates up to a bound, all tuples of values over 1 to 3 subsets, all valid difference widths",
  "Tests decode a few compressed samples; which values are equal, different or missing across subsets and which difference width is used is whatever those files contain.",
  ["wreport/bufr/input.cc", "wreport/bufr/decoder.cc"],
  [("compressed value decoding", "wreport/bufr/input.cc: decode_compressed_base, decode_compressed_number, decode_string, decode_compressed_number_af, decode_compressed_bitmap"), ("dispatch to subsets", "wreport/bufr/decoder.cc: CompressedDecoderTarget; input.h: DispatchToSubsets")],
  ["BufrBulletin::decode"])
p("C04", "Malformed BUFR input is rejected or decoded, never harmful",
  "Decoding or decoding only the header of any byte string either returns a bulletin or raises one of the library's exceptions. It never reads or writes outside the input or its own objects, never crashes, never leaks memory, never runs or allocates without a bound related to the size of the input.",
  ["inputs", "fault_sequences"], "all truncations of valid messages, all single-byte and systematic multi-field corruptions, all descriptor sections up to a bound over random-looking data",
  "Tests try a dozen corrupted samples found by fuzzing; the fault space is every prefix and every corruption of every message.",
  ["wreport/bufr/input.h", "wreport/bufr/input.cc", "wreport/bufr/decoder.cc", "wreport/bulletin/interpreter.cc", "wreport/bulletin/bitmaps.cc", "wreport/opcodes.h", "wreport/vartable.cc"],
  [("availability checks", "wreport/bufr/input.cc: check_available_*, scan_section_length; input.h: get_bits"), ("descriptor list bounds", "wreport/opcodes.h: pop_left, operator[]"), ("bitmap bounds", "wreport/bulletin/bitmaps.cc")],
  ["BufrBulletin::decode", "BufrBulletin::decode_header"])
p("C05", "CREX encode then decode gives back the same bulletin",
  "For every bulletin that can be encoded to CREX, decoding the encoded text gives a bulletin with the same header fields (the ones that CREX represents: table numbers and versions, category and subcategory), data descriptors, subsets, variables and values, with strings equal apart from trailing padding. Missing values stay missing, negative values keep their sign, check digits are written when requested and accepted when read.",
  ["inputs", "programs"], "all CREX templates up to a bound, all boundary values, editions, numbers of subsets and check digit settings",
  "Tests decode two dozen samples and re-encode them; header limits, check digits, sign and width limits, and replication counts are not swept.",
  ["wreport/crex_encoder.cc", "wreport/crex_decoder.cc", "wreport/buffers/crex.cc"],
  [("CREX output buffer", "wreport/buffers/crex.cc: CrexOutput"), ("CREX input buffer", "wreport/buffers/crex.cc: CrexInput"), ("section coding", "wreport/crex_encoder.cc, wreport/crex_decoder.cc")],
  ["CrexBulletin::encode", "CrexBulletin::decode"])
p("C06", "Malformed CREX input is rejected or decoded, never harmful",
  "Decoding or decoding only the header of any text as CREX either returns a bulletin or raises one of the library's exceptions. It never reads outside the input, never crashes, never leaks memory, and always terminates in time and memory bounded by the size of the input.",
  ["inputs", "fault_sequences"], "all truncations and single-character substitutions, insertions and deletions of valid messages, all short token sequences",
  "Tests use a handful of broken messages.",
  ["wreport/crex_decoder.cc", "wreport/buffers/crex.cc"],
  [("end of buffer checks", "wreport/buffers/crex.cc: check_eof, check_available_data, parse_value"), ("section parsing", "wreport/crex_decoder.cc")],
  ["CrexBulletin::decode", "CrexBulletin::decode_header"])
p("C07", "Reading a stream finds every message, byte for byte, with its offset",
  "Reading BUFR or CREX messages from a stream returns, in order, exactly the bytes of every complete message in it and the offset where each starts, whatever bytes that are not a message come before, between and after them. At the end of the stream it reports the end; a message cut short or an input error is reported with an exception and never as a message. Writing messages to a stream and reading them back returns them unchanged.",
  ["inputs", "fault_sequences"], "all interleavings of messages and gaps made of prefixes of the start and end marks, all truncation points, all read error points",
  "Tests read sample files holding one message and no noise.",
  ["wreport/bulletin.cc"],
  [("signature search", "wreport/bulletin.cc: seek_past_signature"), ("message length handling", "wreport/bulletin.cc: BufrBulletin::read, CrexBulletin::read, write")],
  ["BufrBulletin::read", "BufrBulletin::write", "CrexBulletin::read", "CrexBulletin::write"])
p("C08", "Copying, moving and assigning variables preserves values and isolation",
  "Over any history of constructions, copies, moves, assignments and changes of variables of any type and length, each variable holds the description, value and attributes a plain value type would hold, moved-from variables are unset and have no attributes, and changing one variable never affects another. No history corrupts or leaks memory.",
  ["histories"], "all operation sequences up to a depth over a few variables of different types and lengths, including self-assignment and containers",
  "Tests copy and move one variable of each kind once; they never assign across types or chain operations.",
  ["wreport/var.cc", "wreport/var.h", "wreport/subset.cc"],
  [("copy and move", "wreport/var.cc: operator=, copy_value, move_value, setattrs, ~Var")],
  ["Var", "Subset"])
p("C09", "A set variable is always inside its domain, in every error mode",
  "A variable never holds a number outside the range its description allows. Setting an out of range number, an infinity, a not-a-number or a numeric string of any length, by any setter, raises a domain error and leaves the variable unset; with silent domain errors it just leaves the variable unset; with clamping it stores the nearest limit; with a hook it calls the hook once with the offending value and stores nothing itself. In range values are always accepted.",
  ["inputs", "configurations"], "all variable descriptions over a grid of widths, scales and references, all values around every limit, all setters, all combinations of the error handling options",
  "Tests try one value past the limit on two variables.",
  ["wreport/var.cc", "wreport/varinfo.cc", "wreport/options.h"],
  [("range checks", "wreport/var.cc: assign_i_checked, assign_d_checked"), ("range computation", "wreport/varinfo.cc: compute_range")],
  ["Var::seti, setd, setc, sets, setf, set"])
p("C10", "Integer, real, string and formatted views of a value agree",
  "The unscaled integer, the unscaled string, the scaled real and the formatted text of a variable always describe the same value, and setting a variable of the same description from any of them gives back an equal variable. Reading an unset variable, or reading or setting it as a type it does not support, always raises an error, and too long strings are cut to the length of the variable.",
  ["inputs"], "all descriptions over a grid of scales and lengths, all values at and around powers of ten and the range limits, strings and binaries of all lengths up to beyond the field",
  "Tests check about twenty fixed values.",
  ["wreport/var.cc", "wreport/varinfo.cc"],
  [("accessors", "wreport/var.cc: enqi, enqd, enqc, enqs, format, setf, setc, sets"), ("scaling", "wreport/varinfo.cc: decode_decimal, encode_decimal")],
  ["Var"])
p("C11", "Attributes of a variable behave as a map ordered by code",
  "After any history of setting, replacing, removing, clearing and copying attributes, a variable has exactly the attributes a map from code to value would hold: at most one per code, iterated in ascending code order, found by code if and only if present, and without attributes of their own. Attributes never influence the value of the variable.",
  ["histories"], "all sequences of attribute operations up to a depth over a few codes and variables",
  "Tests add and remove one or two attributes.",
  ["wreport/var.cc"],
  [("attribute list", "wreport/var.cc: seta, unseta, enqa, next_attr, setattrs, clear_attrs")],
  ["Var::seta, unseta, enqa, next_attr"])
p("C12", "Equality and differences of variables are consistent",
  "Comparing variables is an equivalence: two variables are equal exactly when they have the same code, are both unset or have the same type and the same value, and have the same attributes, and comparing never fails or crashes whatever the types. The difference count of two variables is zero exactly when they are equal, and copies are always equal.",
  ["inputs"], "all pairs and triples of variables from a pool covering types, lengths, missing values and attribute sets",
  "Tests compare a few equal variables and one pair that differs in one attribute.",
  ["wreport/var.cc"],
  [("comparison", "wreport/var.cc: operator==, value_equals, diff")],
  ["Var::operator==", "Var::diff", "Var::value_equals"])
p("C13", "Value ranges and binary encoding of variable descriptions agree",
  "For every variable description, every value inside its declared range encodes to binary and decimal and decodes back to itself, the declared limits are the tightest ones that the field can hold besides the missing value, and a value outside what the field can hold is refused by binary encoding. Delayed replication counts may use the whole field. Descriptions of ten or more digits allow any 32-bit integer, and the values that do not fit the field are refused by binary encoding.",
  ["inputs"], "every entry of every shipped B table plus a full grid of scale, reference and width, with every value of narrow fields and the boundary values of wide ones",
  "Tests check four descriptions.",
  ["wreport/varinfo.cc", "wreport/vartable.cc"],
  [("ranges and scaling", "wreport/varinfo.cc: compute_range, encode_binary, decode_binary, encode_decimal, decode_decimal")],
  ["_Varinfo"])
p("C14", "Variable table lookups are exact and stay valid forever",
  "Looking up a code in a B table returns its entry if and only if the table has it. Requesting an altered entry returns the entry with exactly the requested scale, width and reference, always the same object for the same request, and no later lookup, alteration or table load ever changes or invalidates an entry already handed out. Iteration visits every entry.",
  ["histories"], "all sequences of lookups and alterations up to a depth, all codes of every shipped table",
  "Tests query a few codes and make one alteration.",
  ["wreport/vartable.cc", "wreport/tables.cc"],
  [("lookup and alterations", "wreport/vartable.cc: query_entry, query_altered, iterate"), ("per bulletin entries", "wreport/tables.cc: get_bitmap, get_chardata, get_unknown")],
  ["Vartable", "Tables"])
p("C15", "The tables chosen for a message are the best available ones",
  "Given the centre, subcentre and table versions a message asks for and any set of installed tables, the tables chosen are an acceptable replacement and no installed one is closer: same master table, exact version if available, else the nearest later one, and matching originating centre and local tables when they exist. Older tables are never chosen: when there are no acceptable tables an error is raised. Among equally good tables, those in the first directory of the search path win. The choice does not depend on the order of directory listing or on previous lookups.",
  ["configurations", "inputs", "histories"], "all sets of up to a few installed tables over a grid of identifiers, all requests over the grid, all listing orders, all lookup histories",
  "Tests check fixed pairs of identifiers and one directory.",
  ["wreport/tableinfo.cc", "wreport/internals/tabledir.cc"],
  [("acceptability and ordering", "wreport/tableinfo.cc: is_acceptable_replacement, closest_match"), ("index and query", "wreport/internals/tabledir.cc: Index, Query, Tabledirs")],
  ["Tabledirs::find_bufr", "Tabledirs::find_crex", "BufrTableID::closest_match"])
p("C16", "B and D table files are loaded faithfully",
  "Loading a B or D table file in the shipped format yields exactly the entries written in the file, with their description, unit, scale, reference, width and expansion. A malformed file, or a B table that is not sorted, is rejected with an error that does not poison later loads; D table entries are found in whatever order they are. Descriptions and units that fill their column are handled without loss or corruption.",
  ["inputs", "configurations"], "every shipped table file, and all small table files generated over a grid of field contents and malformations",
  "Tests load a few tables and check a handful of entries.",
  ["wreport/vartable.cc", "wreport/dtable.cc"],
  [("parsers", "wreport/vartable.cc: BufrVartable, CrexVartable; wreport/dtable.cc: DTableBase")],
  ["Vartable::load_bufr", "Vartable::load_crex", "DTable::load_bufr", "DTable::load_crex"])
p("C17", "Unit conversions are exact, invertible and consistent",
  "Converting a value between two units gives the physically correct value, converting back gives the starting value, and converting directly gives the same result as going through a third unit. A conversion that is not supported raises an error, and supported conversions are supported in both directions.",
  ["inputs"], "all pairs and triples of unit names used in the shipped tables, with a grid of values",
  "Tests check about ten conversions of one value.",
  ["wreport/conv.cc", "wreport/conv.h"],
  [("conversion repository", "wreport/conv.cc: ConvertRepository")],
  ["convert_units"])
p("C18", "Configuration is per thread and scoped overrides always restore it",
  "A thread that changes an option, a notes target or reads values as strings never affects another thread, under any interleaving, nor leaves memory behind when it ends. Any nesting of scoped overrides, also when left by an exception, restores the previous setting, and notes are delivered to the innermost active target of the thread that logs them.",
  ["schedules", "histories"], "all interleavings at operation granularity of small multi-thread programs, all nestings of overrides up to a depth, with and without exceptions",
  "Tests use a single thread and one level of override.",
  ["wreport/options.h", "wreport/options.cc", "wreport/notes.cc", "wreport/var.cc"],
  [("thread local configuration", "wreport/options.cc; wreport/notes.cc; wreport/var.cc: enqc buffer"), ("scoped overrides", "wreport/options.h: LocalOverride; wreport/notes.h: Collect")],
  ["options", "notes", "Var::enqc"])
p("C19", "Validation accepts a bulletin exactly when it can be encoded",
  "Validating all the subsets of a bulletin against its data descriptors succeeds if and only if encoding the bulletin succeeds, and then decoding the result gives back the same variables and values (to the precision of their field, with too long strings cut), and encoding them again gives the same message. Missing or extra variables, wrong codes, wrong replication counts and values that do not fit their field are reported as errors by both.",
  ["inputs", "programs"], "all small templates with all small subsets over correct, wrong, missing, surplus and out of range variables",
  "Tests validate sample bulletins, which are all valid.",
  ["wreport/bulletin/dds-validator.cc", "wreport/bulletin/internals.cc"],
  [("validator", "wreport/bulletin/dds-validator.cc: check_fits")],
  ["bulletin::DDSValidator", "BufrBulletin::encode"])
p("C20", "Bulletin comparison notices every difference and nothing else",
  "Comparing a bulletin with itself or with an identical one reports no differences, and comparing bulletins that differ in any header field, descriptor, number of subsets or variables, code, value, missing value or attribute reports at least one, in both directions. How the message was packed (compressed or not) is not a difference.",
  ["inputs"], "all single-field and all pairwise perturbations of BUFR and CREX bulletins",
  "Tests only compare equal bulletins.",
  ["wreport/bulletin.cc", "wreport/subset.cc", "wreport/var.cc"],
  [("comparison", "wreport/bulletin.cc: diff, diff_details; wreport/subset.cc: diff")],
  ["Bulletin::diff", "Subset::diff"])
p("C21", "Code table conversions are total, stable and mutually inverse",
  "Conversions between WMO and BUFR code tables, flight levels and pressure, octants and degrees map every legal code to the code with the same meaning, converting there and back gives the starting code, and illegal codes are either mapped to the missing code or rejected with an error.",
  ["inputs"], "all integers in and around the domain of each conversion",
  "Tests check a few codes per table.",
  ["wreport/conv.cc", "wreport/codetables.h"],
  [("code table conversions", "wreport/conv.cc: convert_*")],
  ["convert_* functions"])
p("C22", "Variable codes and their text form are in bijection",
  "Every code formats to text that parses back to the same code, in both the letter and the all-digits notation, and text that is not a complete code is rejected with an error. The F, X and Y parts extracted from a code are the ones it was built from.",
  ["inputs"], "all 65536 codes and all strings of up to 6 characters over a small alphabet",
  "Tests parse a dozen strings.",
  ["wreport/varinfo.cc", "wreport/varinfo.h"],
  [("parsing and formatting", "wreport/varinfo.cc: varcode_parse, varcode_format; wreport/varinfo.h: WR_VAR macros")],
  ["varcode_parse", "varcode_format"])
p("C23", "Data present bitmaps attach quality data to the right variables",
  "When a message carries a data present bitmap, each quality value or substituted value that follows becomes an attribute of exactly the variable that the bitmap marks, in order, counting only data elements back from the bitmap. This holds for every bitmap pattern and length, for delayed or fixed length bitmaps, for several bitmaps, for reuse and cancellation of a bitmap, and survives encoding and decoding.",
  ["programs", "inputs"], "all bitmap patterns up to a length, over templates with replication, character data and several quality blocks",
  "Tests decode a few samples with all-present bitmaps.",
  ["wreport/bulletin/bitmaps.cc", "wreport/bulletin/interpreter.cc", "wreport/subset.cc", "wreport/bufr/decoder.cc", "wreport/bufr_encoder.cc"],
  [("bitmap iteration", "wreport/bulletin/bitmaps.cc"), ("bitmap definition and use", "wreport/bulletin/interpreter.cc: r_bitmap, b_variable, c_modifier"), ("bitmap construction", "wreport/subset.cc: append_dpb, append_fixed_dpb")],
  ["BufrBulletin::decode", "BufrBulletin::encode", "Subset::append_dpb"])
p("C24", "Decoding does not depend on what was processed before",
  "Decoding or encoding a message gives the same result, or the same kind of error, whatever other messages were decoded, encoded, rejected or compared before in the same process, and in whichever order. Bulletins already decoded never change when others are processed or destroyed.",
  ["histories"], "all sequences up to a depth of decode, encode and destroy operations over a corpus of valid and broken messages that share tables",
  "Each test decodes one message with fresh objects.",
  ["wreport/vartable.cc", "wreport/tables.cc", "wreport/dtable.cc", "wreport/internals/tabledir.cc", "wreport/bulletin.cc"],
  [("shared caches", "wreport/vartable.cc: load_bufr, query_altered; wreport/dtable.cc: load_bufr; wreport/tables.cc")],
  ["BufrBulletin::decode", "CrexBulletin::decode", "encode"])
p("C25", "Python bindings agree with the C++ library",
  "Every operation on variables, variable descriptions and variable tables available from Python gives the same result as in C++, reports failures as Python exceptions of the documented kinds, and keeps reference counts balanced. Python integers that do not fit in a variable's integers raise an exception, and are never truncated. No sequence of Python operations, not even on objects created without their constructor, crashes the interpreter or runs forever.",
  ["histories", "inputs"], "all operation sequences up to a depth over a pool of Python values of all types passed to all methods",
  "Tests call each method once or twice with good arguments.",
  ["python/var.cc", "python/varinfo.cc", "python/vartable.cc", "python/common.cc", "python/wreport.cc"],
  [("bindings", "python/var.cc, python/varinfo.cc, python/vartable.cc")],
  ["wreport Python module"])
p("C26", "Header-only, verbose and plain decoding agree, and printing is harmless",
  "For every input, decoding only the header yields the same header and descriptors as full decoding, decoding verbosely yields the same bulletin or the same kind of error as decoding plainly, and the options that add undefined attributes only add undefined attributes. Printing a decoded bulletin, its structure or its descriptors never fails, crashes or changes it.",
  ["inputs", "programs"], "all generated templates and data of the other properties plus the sample files, through every decoding and printing entry point",
  "Tests decode verbosely and print only a few samples.",
  ["wreport/bufr/decoder.cc", "wreport/bulletin/dds-printer.cc", "wreport/bulletin/interpreter.cc", "wreport/bulletin.cc", "wreport/crex_decoder.cc"],
  [("verbose decoder", "wreport/bufr/decoder.cc: VerboseDataSectionDecoder"), ("printers", "wreport/bulletin/interpreter.cc: Printer; wreport/bulletin/dds-printer.cc")],
  ["decode_header", "decode_verbose", "print", "print_structured", "print_datadesc"])
p("C27", "Descriptor sequences can be sliced and walked without surprises",
  "A sequence of descriptors, and any part of it obtained by taking descriptors from its front or cutting it, always contains exactly the expected descriptors in order, is empty exactly when none are left, and never gives out a descriptor it does not have: looking past its end gives 0, taking past its end raises an error and leaves it unchanged, and cutting past its end gives what is left. Taking a part never changes the sequence it came from nor copies made before.",
  ["histories"], "all sequences of slicing operations up to a depth on sequences of up to four descriptors",
  "Tests check one sequence of three descriptors.",
  ["wreport/opcodes.h", "wreport/opcodes.cc"],
  [("sequence views", "wreport/opcodes.h: Opcodes")],
  ["Opcodes"])

p("C28", "The wrep tool processes every message of every file it is given",
  "Given any list of files, wrep handles each of their messages in order: those that can be decoded are printed as the library prints them (or listed, or reduced to the first value in each subset of each variable asked for with -p), those that cannot, and files that cannot be read, are reported on standard error naming the file, and processing goes on with what follows. With -U it writes exact copies of the messages that cannot be decoded, and of no other; all documented options work in short and long form and together, the last action given wins, and asking for details never changes standard output. Wrong usage is reported on standard error with a nonzero status, and no input makes wrep crash.",
  ["inputs", "fault_sequences", "configurations"], "all files made of up to a number of good, broken and truncated messages and other text, all lists of files, all single byte corruptions, all combinations of options, all lists of variables",
  "There are no tests of the tool.",
  ["src/wrep.cc", "src/options.cc", "src/iterate.cc", "src/output.cc", "src/unparsable.cc", "src/input.cc"],
  [("the tool", "src/wrep.cc: main"), ("actions", "src/output.cc, src/iterate.cc, src/unparsable.cc, src/info.cc"), ("reading", "src/input.cc, wreport/bulletin.cc: BufrBulletin::read, CrexBulletin::read")],
  ["wrep command line"])
p("C29", "BUFR headers of every edition are decoded as they were written",
  "For every BUFR edition supported, decoding gives each header field the value found at its position in the message, whatever the lengths of the sections, local data in section 1, the optional section and padding, and the values of reserved bytes and bits. The descriptors are those listed in the message, in order, and the optional section is returned byte for byte. The ends of the sections are those declared in the message, and the file name and offset given by the caller are kept.",
  ["inputs"], "all values of each header byte, all pairs of header bytes over a set of values, all combinations of section lengths and reserved values, all numbers of descriptors and all descriptors",
  "Tests decode a few samples with one layout of the sections.",
  ["wreport/bufr/decoder.cc", "wreport/bufr/input.cc", "wreport/bulletin.cc"],
  [("header decoding", "wreport/bufr/decoder.cc: Decoder::decode_header, decode_sec1ed3, decode_sec1ed4; wreport/bufr/input.cc: scan_*")],
  ["BufrBulletin::decode", "BufrBulletin::decode_header"])
p("C30", "Variables seen from Lua are the same as in C++",
  "Every method of variables available from Lua gives the same value as in C++, for all types, values and missing values, with binary values given whole. Calls on a wrong object, or that fail in the library, raise Lua errors that a script can catch, and the interpreter can go on. No sequence of calls crashes, changes the variable or leaks memory.",
  ["histories", "inputs"], "all kinds of variables with all values of a pool through all methods, all wrong arguments, all histories of calls up to a depth",
  "Tests call each method once.",
  ["wreport/var-lua.cc", "wreport/utils/lua.cc", "wreport/var.h"],
  [("bindings", "wreport/var-lua.cc")],
  ["Var::lua_push", "Var::lua_check"])

p("C31", "Bulletins and subsets hold exactly what was stored in them",
  "After any sequence of operations, a bulletin has the header fields, descriptors, subsets and values that were put in it, in order, and nothing else; reading never changes it, and copies and moved-to subsets are independent. Operations that fail (variables not in the tables, values that do not fit, subsets that do not exist, tables that cannot be loaded) raise the documented error and leave what was stored unchanged. A bulletin that has been cleared behaves as a new one, also when it is encoded.",
  ["histories"], "all histories of operations up to a depth on a BUFR and on a CREX bulletin, compared to lists after each step",
  "Tests build a few bulletins with one order of operations.",
  ["wreport/bulletin.cc", "wreport/bulletin.h", "wreport/subset.cc", "wreport/subset.h", "wreport/tables.cc"],
  [("bulletin contents", "wreport/bulletin.cc: clear, obtain_subset, subset, load_tables"), ("subset contents", "wreport/subset.cc: store_variable, append_dpb, append_fixed_dpb")],
  ["Bulletin::obtain_subset", "Bulletin::clear", "Subset::store_variable*", "Subset::append_dpb", "Bulletin::load_tables"])
p("C32", "Errors and notes tell what went wrong and where, whole",
  "Every error keeps its class, code and complete message, whatever the length, when it is thrown, caught by base class, copied, moved or thrown again; system errors end with the description of the system's error number. Errors found while decoding a message start with the file name, the offset of the message in the file and the position of the error in the message; errors in table files name the file and the line. Notes reach the current target whole and in order.",
  ["inputs", "fault_sequences"], "all error classes and ways to raise them with all message lengths up to a bound, all system error numbers, all truncations and all faults of one byte of messages with several file names and offsets, a bad line at each position of a table",
  "Tests look at one or two messages of errors.",
  ["wreport/error.cc", "wreport/error.h", "wreport/notes.cc", "wreport/bufr/input.cc", "wreport/buffers/crex.cc", "wreport/vartable.cc", "wreport/dtable.cc"],
  [("errors", "wreport/error.cc: throwf, error_system, error_parse"), ("where", "wreport/bufr/input.cc: parse_error; wreport/buffers/crex.cc: parse_error"), ("notes", "wreport/notes.cc: logf, Collect")],
  ["wreport::error and its subclasses", "wreport::notes", "BufrBulletin::decode", "CrexBulletin::decode"])
p("C33", "Tables imported from the files published by WMO are the same tables",
  "wrep-importtable turns every B table in WMO's XML format into table files from which the library loads exactly the same entries (code, name up to 64 characters, unit, scale, reference value, width, and CREX unit, scale and width), and every D table into one with the same sequences, whatever the order of the rows. The tables in a zip file are found by name, wherever they are and whatever else is there, and written in files named by their version, which replace older ones; no other file is touched. Input that is missing, damaged or incomplete is reported with a nonzero exit status.",
  ["inputs", "fault_sequences"], "all tables of up to 3 entries of all kinds in all orders, all values of each field from a pool, all D tables of up to 4 rows, all orders and subsets of zip members, all truncations and single byte faults of a zip file, all truncations of XML files",
  "There are no tests of the script.",
  ["src/wrep-importtable", "wreport/vartable.cc", "wreport/dtable.cc"],
  [("the script", "src/wrep-importtable: TableB, TableD, Tables"), ("loading what it writes", "wreport/vartable.cc: BufrVartable, CrexVartable; wreport/dtable.cc")],
  ["wrep-importtable --btable, --dtable, --zipfile"])
p("C34", "Helpers for strings, paths and encodings are exact for every string",
  "For every string, including empty ones and those with any byte: splitting gives the parts between the separators (all of them, or only those that are not empty), together with what remains, always ends, and is undone by joining; stripping, changing case and looking for prefixes and suffixes look at the whole string; base names, directory names, joined and normalised paths are what the components of the path say, also above the starting directory; encoding as C string, URL or base64 gives only characters allowed there and decoding gives back the same bytes, and the number of characters parsed. Decoding anything else never reads out of bounds.",
  ["inputs"], "all strings up to a length over alphabets with all the special characters, and all strings of up to 2 bytes, for each function; all lengths up to 200 for base64",
  "Tests try a few strings per function, mostly well formed.",
  ["wreport/utils/string.cc", "wreport/utils/string.h"],
  [("splitting and joining", "wreport/utils/string.cc: Split; wreport/utils/string.h: join"), ("paths", "wreport/utils/string.cc: normpath, dirname, basename, appendpath"), ("encodings", "wreport/utils/string.cc: encode_*, decode_*")],
  ["wreport::str"])

p("C35", "Helpers for files are exact, atomic where they say so, and never leak",
  "Whatever system call fails, and however little each read or write does: writing a file atomically leaves either the old contents or all of the new ones, with the permissions asked for, at every moment, and no temporary file behind; reading and writing files and file descriptors transfers exactly the bytes asked for or is an error; a file descriptor, directory or memory map is closed exactly once, also when objects are moved or fail half way, and none leaks; listing a directory gives each of its entries once, with its type, also when the file system does not tell it; removing a tree removes all of it and nothing that its symbolic links point to; functions that test for or remove something distinguish what does not exist from errors; times, locks, limits and temporary files are what was asked for, and are restored or removed at the end.",
  ["inputs", "fault_sequences", "crash_points", "histories"], "all the points where a system call can fail and all the amounts that reads and writes can do within bounds, all histories of handles up to a length, all small directory trees",
  "Tests run a few of the functions on a file system where nothing fails.",
  ["wreport/utils/sys.cc", "wreport/utils/sys.h"],
  [("writing and reading", "wreport/utils/sys.cc: write_file_atomically, write_file, read_file, FileDescriptor"), ("directories", "wreport/utils/sys.cc: Path, rmtree"), ("resources", "wreport/utils/sys.h: ManagedNamedFileDescriptor, MMap, Tempfile, Tempdir, PreserveFileTimes, Lock")],
  ["wreport::sys"])

p("C36", "Child processes get what was asked for and are waited for exactly once",
  "For every combination of redirections, including to file descriptors 0, 1 and 2, to the same one more than once, and when the parent has some of them closed: the streams of the child are what was asked for, pipes connect the right ends and reach their end, files to be closed are closed in the child and those to be passed are not, and the parent keeps exactly its own files and its ends of the pipes until they are closed. The program, arguments, environment, directory and session are the ones given, a program that cannot be run gives a failing exit code, and if the process cannot be started it is an error, nothing is left open, and it can be tried again. Whenever the process ends, and whatever interrupts the wait, polling and waiting tell if it has ended, wait neither more nor less than the time given, report its status, wait for it only once, and leave the handling of signals as it was, and signals are sent only to a process that is running.",
  ["inputs", "schedules", "fault_sequences", "histories"], "all the combinations of redirections, all the points where the process can end or a wait can be interrupted in all histories of operations up to a length, all failures of pipe and fork",
  "Tests do not run this code at all.",
  ["wreport/utils/subprocess.cc", "wreport/utils/subprocess.h"],
  [("streams", "wreport/utils/subprocess.cc: Child::pre_fork, post_fork_child, post_fork_parent"), ("waiting and signals", "wreport/utils/subprocess.cc: Child::poll, wait, send_signal"), ("programs", "wreport/utils/subprocess.cc: Popen")],
  ["wreport::subprocess::Child", "wreport::subprocess::Popen"])

p("C37", "Coloured output shows the text in the colours asked for, only on terminals",
  "For every combination of foreground and background colour, bright or not: text written to a terminal is shown unchanged, in those colours, and what follows has the colours of the terminal again; a file that is not a terminal gets only the text.",
  ["inputs"], "all the pairs of colours, on all kinds of files, with all the functions",
  "Tests do not run this code.",
  ["wreport/utils/term.cc", "wreport/utils/term.h"],
  [("colours", "wreport/utils/term.cc: Terminal::set_color, color")],
  ["wreport::term::Terminal"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as fd:
    for x in P:
        fd.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
