#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the lines stay uniform)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))
DBF = "src/metadata/database.rs"; LOAD = "src/metadata/loader.rs"; FMT = "src/formatter.rs"
PARSE = "src/parser/mod.rs"; HELP = "src/parser/helper.rs"; VAL = "src/validator.rs"; PN = "src/phone_number.rs"
CONSTS = "src/consts.rs"; NN = "src/national_number.rs"; CTRY = "src/country.rs"; ERR = "src/error.rs"
ALLOPS = [PARSE, HELP, "src/parser/natural.rs", "src/parser/rfc3966.rs", VAL, FMT, PN, CONSTS, DBF]

p("C01", "Concurrent calls return what each would return alone",
  "However many threads parse, validate, classify, format and query numbers at the same time, on the default database or on shared custom databases, every call returns exactly what the same call returns when it is the only one ever made in a fresh process. No interleaving produces a different value, a different error, a panic, a deadlock or an endless wait.",
  ["schedules", "inputs"], "all interleavings of 2-5 caller threads issuing any mix of public operations on any inputs, tables warm or partly cold",
  "tests/concurrency.rs starts 16 threads on five inputs and observes whatever interleavings the OS happens to produce, mostly none; a race needs a preemption inside a window of a few instructions.",
  ALLOPS + ["tests/concurrency.rs"],
  [("immutable Database shared by reference, no regex cache behind a mutex (issue #103)", DBF), ("lazily initialised constants, read-only afterwards", CONSTS)],
  [("DATABASE", "the shared default database", DBF), ("consts::*", "lazily compiled shared regexes and maps", CONSTS)],
  ["return values of parse/parse_with/is_valid/number_type/format/metadata"])
p("C02", "Racing first uses all complete, correctly, on one shared database",
  "When any number of threads make their very first calls into the library at the same time, whichever operations those are and wherever the initialising thread is delayed, every call completes within a bounded number of scheduling steps once no thread is held back, and returns what it would return alone. All threads observe the same default database instance, and spurious wake-ups of waiting threads change nothing.",
  ["schedules", "fault_sequences"], "all interleavings of 2-5 threads performing first calls in a cold process, with delayed initialisers and spurious wake-ups",
  "A test binary initialises the shared tables once per process, almost always from one thread that nobody races; no test controls who initialises or delays it half-way.",
  [DBF, CONSTS, PARSE, FMT], [("once_cell::sync::Lazy for the database and for nested constants", DBF), ("nested Lazy constants", CONSTS)],
  [("DATABASE", "cold, being initialised, ready", DBF)], ["completion of first calls, identity of metadata references across threads"])
p("C03", "A stalled caller never blocks other callers",
  "Once the tables that its own call needs have been initialised, a caller thread that is suspended for ever at an arbitrary point inside any operation never prevents calls on other threads, whatever they are, from completing with their usual results in a bounded number of their own steps. Parsing and formatting therefore hold no shared lock.",
  ["schedules", "crash_points", "fault_sequences"], "all suspension points of a victim thread inside any operation, combined with all interleavings of the remaining threads' operations",
  "No test can stop a thread at a chosen instruction; on a warm path a lock is held so briefly that ordinary threads practically never meet it.",
  ALLOPS + ["tests/concurrency.rs"], [("no mutex on the parse/format path (regex cache removed, issue #103)", PARSE), ("shared state is read-only after initialisation", CONSTS)],
  [], ["progress of the other threads while one is suspended"])
p("C04", "Results depend on arguments only: no history, clock, entropy or environment",
  "The result of an operation is a function of its arguments and the database passed to it: it is the same after any history of earlier operations in the process or thread (including failed ones), on any thread, at any time of day, with any environment variables and any random seed the process receives. Repeating a call any number of times keeps returning the same result.",
  ["histories", "configurations", "fault_sequences"], "all histories of operations before the call, all values of clock, entropy, environment and thread identity",
  "Tests make a handful of calls per process, rarely the same input twice with different arguments, under one environment and whatever clock and entropy the machine has.",
  ALLOPS + [CTRY, NN], [("operations read only their arguments and immutable tables", PARSE), ("deterministic FNV hashing, no per-process seed", DBF)],
  [], ["return values of every public operation"])
p("C05", "Databases are isolated values",
  "An operation given a particular database is answered from that database alone: loading, cloning, using or dropping any other database, before or concurrently, at any address, never changes the answer, and neither does the default database for the operations that are handed one explicitly. A clone keeps answering like its original after the original is dropped.",
  ["histories", "schedules", "configurations"], "all interleavings of loads, clones, drops and uses of several different databases",
  "No test builds a second database: every existing test uses the embedded default only.",
  [DBF, LOAD, PARSE, VAL, FMT, PN], [("every *_with operation threads the given &Database through", PARSE), ("Database owns its tables (Arc-shared between clones)", DBF)],
  [("Database", "three maps of shared metadata", DBF)], ["parse_with/is_valid_with/number_type_with/format_with/metadata, Database accessors"])
p("C06", "Loading yields exactly the document's content, however it is delivered",
  "A well-formed metadata document yields the same territories, descriptors, formats and attributes - exactly those it describes - whether it comes from a string, a file or any buffered reader, in chunks of any sizes, and with reads interrupted or delayed any number of times.",
  ["fault_sequences", "inputs"], "all partitions of the byte stream into reads, all placements of interruptions, all well-formed documents of the metadata vocabulary",
  "The only document tests ever load is the bundled one, at build time, from a local file in full 8 KiB reads.",
  [LOAD, DBF], [("streaming event loop over quick_xml::Reader", LOAD), ("Database::load / Database::parse / loader::load", DBF)],
  [], ["loader::load result, Database accessors"])
p("C07", "A failed or cut-short load is always reported, never a partial database",
  "If the source fails, or ends, at any point before the document is complete, loading returns an error - for a failing source one that carries the underlying I/O failure - and never a database, never a panic, never an endless loop. Loading again from a healthy source afterwards succeeds completely, and no file stays open whatever the outcome.",
  ["fault_sequences", "crash_points"], "all failure points (byte offsets, system calls) and failure kinds of the source, also repeated, followed by retries",
  "Nothing tests loading errors at all; the paths only run when a disk or stream fails at a particular byte.",
  [LOAD, DBF, ERR], [("every event loop treats Eof as an error", LOAD), ("errors converted with ? into LoadMetadata", ERR)],
  [], ["result of Database::load/parse and loader::load, open file descriptors"])
p("C08", "Damaged metadata never crashes loading or later use",
  "Whatever bytes a metadata document has been damaged into - flipped bits, torn or repeated or lost blocks - loading it returns a database or an error; and if it returns a database, every operation on it, with any region and any number, returns normally. No panic, no abort, no endless loop.",
  ["fault_sequences", "inputs"], "all corruptions of stored documents, and all operations on any database that such a document still loads into",
  "No test loads anything but the pristine bundled document, and none uses a database that lacks a region or a value.",
  [LOAD, DBF, HELP, VAL, FMT, PARSE], [("LoadMetadata errors for missing or malformed values", ERR), ("Option/Result handling of missing entries in the operations", HELP)],
  [], ["Database::parse/load, and every operation taking a database"])
p("C09", "Formatting into a failing sink is reported and emits only a prefix",
  "Formatting a number, whose country code the database knows, in any mode into any sink either delivers the complete text, in which case it reports success, or reports an error; what the sink accepted is then a prefix of the complete text. Short writes, interruptions and transient or permanent sink failures at any point never cause lost, repeated or reordered text behind a success.",
  ["fault_sequences", "inputs"], "all failure points and kinds of a text or byte sink, for all numbers, extensions, carriers and modes",
  "Tests only format into String, which never fails.",
  [FMT, NN, "src/extension.rs", "src/carrier.rs", PN], [("every write! in Display is propagated with ?", FMT)],
  [], ["impl Display for Formatter / PhoneNumber / NationalNumber / Extension / Carrier"])
p("C10", "Caller-supplied code may panic or re-enter without leaving a trace",
  "Code the caller supplies - the string argument's conversion, the sink being formatted into, the reader or path being loaded, a serializer's output - may panic or call back into the library at any moment, also while the thread is unwinding or shutting down. The panic reaches the caller unchanged, re-entrant calls return their usual results, and every later or concurrent call on any thread behaves as if the interrupted one had never been made.",
  ["fault_sequences", "schedules", "histories"], "all callback invocations at which a panic or a re-entrant call happens, in any calling context, interleaved with other threads",
  "No test supplies its own AsRef, Write, BufRead or Serializer; poisoning and re-entrancy need a failure in the middle of a call.",
  [PARSE, FMT, LOAD, DBF, PN], [("no lock or thread-local borrow is held across caller code", PARSE)],
  [], ["propagated panics, results of nested, later and concurrent calls"])
p("C11", "Stored numbers survive crash and restart unchanged",
  "A number written to storage in any serde format and made durable reads back, in another process after a crash, as the same number: same code and how it was determined, same digits and leading zeros, same extension and carrier, and the same formatting, validity and type. A record the crash cut short is rejected or yields the number that was written, never a different one, and a record damaged in any way never makes decoding, or any operation on what was decoded, panic or hang.",
  ["crash_points", "fault_sequences", "histories"], "all numbers, all crash points and torn prefixes of a log of serialized numbers, all short reads and single damaged blocks, in self-describing and positional formats",
  "No test serializes a PhoneNumber at all, and equality ignores part of its content.",
  [PN, NN, CTRY, "src/extension.rs", "src/carrier.rs"], [("derived Serialize/Deserialize of PhoneNumber and its parts", PN)],
  [("PhoneNumber", "code, national, extension, carrier", PN)], ["serde round trip and operations on the decoded number"])
p("C12", "An interrupted build never ships a partial default database",
  "Whatever disk faults or kills hit the build step that turns the metadata document into the embedded default database, the step reports success only if the database it wrote is complete and equal to the document's content. After an interruption at any point, running it again produces the complete database.",
  ["crash_points", "fault_sequences"], "all system calls of the build step x all disk faults and kills, also repeated over several attempts",
  "Tests run after a successful build on a healthy disk; they would not even notice missing territories they do not use.",
  ["build.rs", LOAD, ERR], [("loader errors and postcard::to_io errors abort the build", "build.rs")],
  [("database.bin", "the serialized default database", "build.rs")], ["exit status of the build step and bytes of its output"])
p("C13", "No history, failing or not, accumulates memory or other resources",
  "In a process of any age the live memory and open files owned by the library stay bounded by what the databases alive need: any sequence of operations, including operations that fail, are interrupted by a sink or reader failure or unwind, on any number of threads that come and go, releases what it took.",
  ["histories", "fault_sequences", "schedules"], "all long histories of operations on ever new inputs, failing operations included, on threads that are created and exit",
  "Tests run for seconds and never look at memory or descriptors; growth per distinct input only shows over long histories.",
  ALLOPS + [LOAD], [("no caches keyed by input; values dropped by ownership", PARSE)],
  [], ["live heap bytes, open descriptors, threads"])

p("C14", "Stored numbers cross versions: older and newer programs read them alike",
  "A number, or a row holding numbers with their type and region, stored in any serde format by a program built on the release this tree is based on is read by the current library as the same number with the same formatting, validity and type, and what the current library stores is read unchanged by such a program: through any sequence of upgrades, downgrades, rewrites in other formats and crashes, and also when a self-describing store has reordered or reformatted the fields or left out absent ones.",
  ["histories", "crash_points", "configurations"], "all sequences of processes of either version creating, reading and rewriting records of one store, killed at any byte, with stores that reorder, reformat and drop absent fields",
  "Tests only ever serialise and deserialise with the same code; a changed layout that agrees with itself passes them all.",
  [PN, CTRY, NN, "src/extension.rs", "src/carrier.rs"], [("derived Serialize/Deserialize of PhoneNumber and its parts, of Type and of country::Id", PN)],
  [], ["decoded numbers, their formatting, validity and type; what the earlier layout decodes"])
p("C15", "A failed memory allocation never yields a wrong result",
  "Whichever request for memory is refused during whichever operation, the process either ends there, as Rust programs do, or the operation reports it (loading, serialising or formatting returns an error, or it panics), or it returns its usual result; it never returns another value, another verdict about its input, or part of the result, and no later or concurrent operation of the process does.",
  ["fault_sequences", "inputs", "schedules"], "all requests for memory of all operations on all inputs refused once, from one on, or above a size, in warm and cold processes with other threads",
  "Tests never run out of memory; no test can refuse one chosen request.",
  ALLOPS + [LOAD], [("no fallible allocation on any path: all go through Rust's infallible allocation", HELP)],
  [], ["result of the operation during which a request was refused, and of all others"])

PURE = "pure function of its input: no schedule, clock, I/O, fault or interleaving to simulate"
p("C20", "Parsing any string returns a number or an error, never a panic",
  "For every string and every optional reference region, parsing against the intact default database returns a number or an error; it never panics.",
  ["inputs"], "all strings and region hints", "Property tests sample a few hundred random strings per run.", [PARSE, HELP, "src/parser/natural.rs", "src/parser/rfc3966.rs"], [("nom parsers and explicit length checks", PARSE)])
p("C21", "Formatting a valid number and parsing it back gives the same number",
  "For every valid number, formatting it in E.164, international or RFC 3966 mode and parsing the text, without or with any region hint, yields an equal number with the same extension (where the mode carries one).",
  ["inputs"], "all valid numbers x modes x hints", "The round-trip test is ignored upstream and samples 17 numbers.", [PARSE, FMT], [("formatter and parser agree on separators", FMT)])
p("C22", "E.164 text is a plus, the country code and the national digits",
  "For every number whose country code is known, the E.164 text consists of '+', the decimal country code, the leading zeros and the national digits, and nothing else.",
  ["inputs"], "all numbers", "Tests compare a handful of literals.", [FMT, NN], [("Mode::E164 arm", FMT)])
p("C23", "A region hint does not change how an international number is read",
  "A string that starts with '+' and a known country code parses to the same number whatever reference region is supplied.",
  ["inputs"], "all international strings x region hints", "One literal (issue 30) is tested.", [PARSE, HELP], [("metadata chosen from the number's own code", PARSE)])
p("C24", "Validity and type agree with the metadata",
  "A number is reported valid exactly if some region of its country code describes it, and its reported type is one whose description in that region matches it.",
  ["inputs"], "all numbers x databases", "A few dozen literals are tested.", [VAL, PN], [("source_for and number_type", VAL)])
p("C25", "Equal numbers hash equally and equality ignores how the code was found",
  "Two numbers are equal exactly if country code, national number with its leading zeros, extension and carrier are equal, and equal numbers have equal hashes.",
  ["inputs"], "all pairs of numbers", "One pair is tested.", [PN, CTRY, NN], [("hand-written PartialEq/Hash of Code", CTRY)])
p("C26", "Punctuation and digit script do not change the parsed number",
  "Adding accepted separators between digits, or writing digits in another supported script, does not change the number a string parses to.",
  ["inputs"], "all numbers x punctuation x scripts", "A few literals are tested.", [HELP, "src/parser/natural.rs"], [("normalize", HELP)])
p("C27", "Every example number in the metadata is valid and of the stated type",
  "For every territory and number type of the default database, the example number, parsed in that territory, is valid and classified as that type.",
  ["inputs"], "all territories x types (a finite table)", "Only a few countries appear in tests.", [VAL, "assets/PhoneNumberMetadata.xml"], [("descriptor matching", "src/metadata/descriptor.rs")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
