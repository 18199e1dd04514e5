#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when a property's text changes)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (len(title), title)
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

CM = "crates/chain-map/src/lib.rs"
p("C01", "Clones of a chain map behave as independent maps under any interleaving",
  "Every chain map always answers lookups, emptiness, newness of insertion, iteration, removal, draining, appending and consuming exactly as an ordinary map would to which only its own operations were applied, starting from its source's bindings at the moment it was cloned. This holds however many clones share storage and however operations on them interleave, across threads (in the thread-safe configuration) and in the middle of one another. Every key and value is released exactly once.",
  ["schedules", "histories", "configurations"],
  "For every family of maps related by cloning, every history of operations on them by any number of tasks, every interleaving of those operations (including a switch inside a key's or value's own hash/compare/clone/drop code), and both the single-threaded and the thread-safe build.",
  "The one existing test inserts one key into one map, never clones, and runs on one thread; sharing between clones and the consolidation path are never exercised.",
  [CM],
  [("layer stack searched newest first", CM + " get / iter"), ("merge of layers, sharing-aware", CM + " consolidate_"), ("copy on write of the last shared layer", CM + " consolidate_ (make_mut)")],
  ["public API of ChainMap on every clone", "drops of keys and values"],
  [("stack", "shared immutable layers, newest last", CM)])
p("C02", "A panic in a key's or value's own code never damages a chain map or its clones",
  "If user code that clones, hashes or compares keys and values panics in the middle of an operation on one map, every other map keeps exactly its bindings. If the panic came from cloning, or the operation was a lookup, insertion or extension, the interrupted map too keeps exactly the bindings it had before; otherwise it stays usable and reports only bindings it already held. No key or value is ever released twice.",
  ["fault_sequences", "histories", "schedules"],
  "For every history of operations over related maps and every placement of panics at any call of user-supplied clone/hash/equality code, with later operations (including retries) continuing on all maps.",
  "No test has a key or value whose code can fail; the failure instant (which callback of which operation over which sharing state) is an unbounded space.",
  [CM],
  [("shared layers are copied before the map is taken apart", CM + " consolidate_"), ("new layer is built before it is attached", CM + " insert / extend")],
  ["public API of every map after the panic was caught"])

AC = "crates/apply-changes/src/lib.rs"; TP = "crates/text-pos/src/lib.rs"
p("D01", "Editor and server copies of a document converge",
  "After a server has processed all the changes an editor sent, in whatever batches they were delivered and after any number of restarts each followed by a full resend, the server's text is identical to the editor's. At that point every position and range the server reports or resolves for any character boundary of the text denotes the same place in the editor's line/UTF-16 view, and offsets that are not character boundaries have no position.",
  ["histories", "schedules", "fault_sequences"],
  "For every document, every sequence of single- and multi-cursor edits, full replacements, every way of batching, delaying and coalescing the notifications, and every sequence of server stalls and crash-restarts with resynchronisation.",
  "The crate that applies changes has no test at all; the position tests convert a few ASCII offsets one way. Correctness depends on the history of changes inside a batch (an index is kept across changes and only sometimes rebuilt).",
  [AC, TP],
  [("last full replacement wins, earlier changes dropped", AC + " get"), ("line index rebuilt only when an earlier change may have invalidated it", AC + " get (index_valid)"), ("offset to line/UTF-16 column and back", TP + " PositionDb")],
  ["server text after each processed batch", "position/range queries on the server"],
  [("index_valid", "first line whose index entry may be stale", AC)])
p("D02", "Stale or malformed edits are skipped, never applied wrongly and never fatal",
  "Whatever ranges arrive in a batch (past the end of a line or of the document, inside a surrogate pair, end before start, or computed against changes that were lost, duplicated or reordered), applying it never crashes. Exactly the changes whose range is not a valid range of the text at that point are skipped, and all others are applied as if the skipped ones had never been sent. A later full-document change restores agreement.",
  ["fault_sequences", "histories", "inputs"],
  "For every document, every history of well-formed and malformed changes, every loss, duplication and reordering of change messages between editor and server, and every batching of them.",
  "No test applies any change, let alone an invalid one; which offsets are invalid depends on everything applied before.",
  [AC, TP],
  [("out-of-bounds positions resolve to nothing", TP + " text_size_utf16 / text_range_utf16"), ("unresolvable change is skipped without touching the index state", AC + " get")],
  ["server text after each batch", "whether applying returned"])

PA = "crates/paths/src/lib.rs"
p("F01", "Reading a file returns one complete version of it, or an error",
  "Through the real file system, reading a file as bytes or as text returns either the complete content of one version of the file or an error, whichever of the underlying I/O calls fail, are interrupted or transfer only part, and even while another process atomically replaces the file. Interrupted and partial transfers alone never cause an error; content that is not valid text makes only the text read fail. Without faults the results (content, not-found errors, is-it-a-file) agree with the in-memory file system holding the same files.",
  ["fault_sequences", "schedules", "inputs"],
  "For every file content and size, every sequence of faults on the system calls (EINTR, short reads, EIO/EACCES/EMFILE at any call, unknown or wrong size hints) and every instant at which a concurrent process replaces or removes the file.",
  "No test performs any I/O through the file-system abstraction; faults of the OS cannot be provoked from a unit test without a seam below the standard library.",
  [PA],
  [("delegation to the standard library's whole-file reads", PA + " RealFileSystem"), ("errors propagated with ?", PA + " RealFileSystem"), ("map lookup", PA + " MemoryFileSystem")],
  ["results of read_to_string, read_to_bytes, is_file", "simulated disk below libc"])
p("F02", "Listings, current directory and file tests never pass off partial facts",
  "Through the real file system, listing a directory returns the full path of every entry that was present throughout, each exactly once and nothing that was never there, or else an error; a failure to open the directory or to read any single entry is reported as an error and never as a shorter listing. The current directory is returned only when the OS reports an absolute path, and is an error otherwise. Asking whether a path is a file answers true only for an existing regular file whose status could be determined, and false in every other case. Without faults, a directory that holds only files is listed by the in-memory file system with those files exactly as by the real one, and the in-memory current directory is absolute.",
  ["fault_sequences", "schedules"],
  "For every directory content and entry order, every failing call position (open, n-th entry read, status query, current-directory query), and every interleaving with another process creating and removing entries.",
  "No test lists a directory or asks for the current directory; failing the n-th entry read needs control of the OS boundary.",
  [PA],
  [("per-entry errors collected into the result", PA + " RealFileSystem::read_dir"), ("absolute-path check", PA + " RealFileSystem::current_dir")],
  ["results of read_dir, current_dir, is_file"])
p("S01", "Merged path stores keep every path identifier meaningful",
  "In a path store, equal clean paths always get the same identifier, however they were spelled or put together, different ones different identifiers, and an identifier always resolves to the path it was issued for, for the life of the store. When workers' stores are merged into it in any order, each path of the worker's store is announced exactly once with its old identifier and a new one that resolves to the same path, and identifiers issued before stay unchanged. This remains so when the receiver of these announcements panics part-way or a worker is lost before its store is merged.",
  ["schedules", "fault_sequences", "histories"],
  "For every set of workers interning any paths, every completion order and interleaving of merges with further interning, every instant at which an announcement receiver panics or a worker dies.",
  "No test uses the store at all; merging has order-dependent behaviour (shared, new and repeated paths) and the failure instant is unbounded.",
  [PA, "crates/idx/src/lib.rs"],
  [("two tables kept in step", PA + " Store::get_id / get_id_owned"), ("re-interning of every path of the other store", PA + " Store::combine")],
  ["get_id, get_id_owned, get_path, combine"],
  [("id_to_path / path_to_id", "inverse tables", PA)])

WR = "crates/write-rs-tokens/src/lib.rs"; SG = "crates/syntax-gen/src/"
p("G01", "When code generation returns, the generated files are completely on disk",
  "If generation returns without reporting a failure, each output file holds exactly the complete formatted code that was generated, whatever the file held before (nothing, older longer or shorter output, or torn output of a run that crashed). Any I/O failure that leaves an output incomplete is reported by panicking; interrupted and partial writes alone are not failures. No file other than the outputs is created or changed for good.",
  ["fault_sequences", "crash_points", "inputs"],
  "For every grammar or token stream, every previous content of the output directory, every sequence of faults on the system calls (EINTR, short writes, ENOSPC, EIO, EACCES, missing directory) and a crash of the process at any call, followed by a re-run.",
  "The generator and writer have no tests; disk faults and crashes between two system calls are outside unit tests.",
  [WR, SG + "lib.rs"],
  [("whole-file write, panic on error", WR + " go"), ("two outputs written in turn", SG + "lib.rs get")],
  ["simulated disk below libc after return, panic or crash"])
p("G02", "Code generation is reproducible",
  "Generating from the same grammar and options always produces byte-identical files. The result does not depend on the iteration order, hashing or capacity of the maps passed in, on the process's random hash seeds, on the thread or time at which it runs, on what was generated earlier, or on where the output directory is and what it held.",
  ["schedules", "configurations", "histories"],
  "For every grammar and option set, every hasher behaviour of the option maps (including fully colliding ones), every value of the OS randomness and clock, every thread, and every earlier history in the same process.",
  "There is no test of the generator; a run in one process sees one hash seed and one map order.",
  [SG + "lib.rs", SG + "kind.rs", SG + "token.rs", SG + "seq.rs", SG + "alt.rs"],
  [("sorting of every table built from a hash map", SG + "kind.rs get"), ("maps only looked up, never iterated", SG + "token.rs TokenDb::new")],
  ["bytes of the two output files"])

EL = "crates/elapsed/src/lib.rs"
p("L01", "Timing reports the monotonic time a call took and never alters the call",
  "Timing a call runs it exactly once, returns its result unchanged and reports exactly the monotonic time that passed between its start and its end, nested and concurrent calls included, unaffected by changes of the wall clock and zero if the monotonic clock steps back. The logging variant also emits, after the call, exactly one information-level record made of the given message and that time. If the call panics, the panic propagates and nothing is logged.",
  ["schedules", "fault_sequences"],
  "For every nesting and thread interleaving of timed calls, every advance, stall, backward step of the monotonic clock, every jump of the wall clock, every logger level, and every panic instant.",
  "No test covers this crate; real clocks cannot be stepped in a unit test.",
  [EL],
  [("two reads of the monotonic clock around the call", EL + " time"), ("one log record after the call", EL + " log")],
  ["returned duration", "records received by the installed logger"])

AL = "crates/always/src/"; TS = "crates/topo-sort/src/lib.rs"
p("A01", "A broken invariant stops a debug build; a release build logs it and survives",
  "An always-check evaluates its condition exactly once and yields its value; a true condition has no other effect. A false one panics with the given message in builds with debug assertions, and in builds without them logs exactly one error record carrying that message and continues. Accordingly, the saturating integer conversions and the sorting machinery, when run in a release build over a set storage that now and then loses or corrupts membership, never panic, still terminate, and still finish every element they started exactly once in nested order, with the inconsistency logged.",
  ["configurations", "fault_sequences"],
  "For both build configurations, every sequence of true/false/panicking conditions and logger levels, every conversion input, and every sequence of wrong answers and lost updates by the set storage during a sort.",
  "Tests only run with debug assertions on and never break an invariant, so the release behaviour is never executed.",
  [AL + "lib.rs", AL + "convert.rs", TS],
  [("assert in debug, log otherwise", AL + "lib.rs always!"), ("saturation after the check", AL + "convert.rs"), ("checked level arithmetic", TS + " Work::run")],
  ["panic or return value", "records received by the installed logger", "visitor callbacks"])
p("T01", "Every element is finished once, after its dependencies, even when lookups fail",
  "When elements are sorted through a visitor, each element that is started is finished exactly once, after every element it asked for unless that one was skipped by a failed lookup or is part of a cycle, with the reported level equal to the number of other elements still in progress. Every requested element ends up finished or skipped, the returned set is exactly the finished elements, and a cycle is reported if and only if an element was requested again while in progress and looking it up then does not fail, naming an element that lies on a cycle. Sorting a plain graph gives all of its nodes in such an order, or an error naming a node on a cycle. This holds however deep the dependencies are, whatever set type is used, and whichever lookups fail and later succeed.",
  ["fault_sequences", "histories", "inputs"],
  "For every dependency structure discovered while running, every order of requests (repeats, self-requests, requests of unrelated work), every sequence of failed lookups by the visitor, permanent or transient, and every provided set type.",
  "The tests cover eight small static graphs whose lookups never fail, only through the graph wrapper with one set type.",
  [TS, "crates/topo-sort/src/graph.rs"],
  [("explicit stack of start/end actions", TS + " Work::run"), ("in-progress and done sets", TS + " Work::run")],
  ["enter/process/exit callbacks, returned value"],
  [("actions", "stack of pending starts and ends", TS), ("level", "number of pending ends", TS)])

PM = "crates/pattern-match/src/"
p("P01", "Match verdicts are right however the language enumerates its constructors",
  "When a match check succeeds, a pattern (or part of one) is reported unreachable exactly if no value reaches it, and missing patterns are reported exactly if some value is matched by no pattern, each reported one describing only unmatched values. The verdict does not depend on the order in which the language lists constructors, on whether it lists all of them or legally groups those that need no distinction, on the depth at which it does so, or on checks made earlier with the same context.",
  ["schedules", "configurations", "inputs"],
  "For every data type, every list of patterns (nested alternatives, wildcards, literals, constructors with omitted arguments), and every legal sequence of answers by the language's constructor enumeration (any order, any grouping, varying call by call).",
  "The crate has no tests; verdicts depend on the interplay of pattern list and the language's call-by-call choices.",
  [PM + "alg.rs", PM + "matrix.rs", PM + "types.rs"],
  [("usefulness recursion over the pattern matrix", PM + "alg.rs useful"), ("specialisation", PM + "alg.rs specialize"), ("expansion of alternatives", PM + "matrix.rs push")],
  ["returned unreachable set and missing patterns"])
p("P02", "A language error in a match check is returned, never turned into a verdict",
  "If any answer of the language during a match check is an error, the check returns that very error and asks nothing more; it returns a verdict only if every answer it got was successful. Patterns that do not fit their type (arguments on a wildcard, more arguments than the constructor has) yield an error and not a panic. A failed check leaves nothing behind: repeating it with the same context once the language works gives the normal verdict.",
  ["fault_sequences", "inputs"],
  "For every list of patterns, every position of a failing answer among the language's callbacks, every placement of an ill-formed pattern, and every retry after failure.",
  "The crate has no tests; the position of the failing callback is unbounded.",
  [PM + "alg.rs", PM + "types.rs"],
  [("errors propagated with ?", PM + "alg.rs useful / specialize / check"), ("arity checks", PM + "alg.rs specialize")],
  ["returned Result, calls received by the language"])

EP = "crates/event-parse/src/lib.rs"; RS = "crates/event-parse/src/rowan_sink.rs"
p("E01", "A failed speculative parse leaves no trace",
  "After a speculative attempt that recorded an error is rolled back, everything observable (lookahead, consumed tokens, emptiness of constructs, and the final tree and errors) is as if the attempt had never been made, however much it consumed, built, abandoned, re-parented or attempted itself. An attempt that recorded no error is kept entirely. The verdict on an attempt is failure exactly if an error was recorded in it and not rolled back by an attempt inside it.",
  ["fault_sequences", "histories"],
  "For every token sequence with any trivia, every parse history, every nesting of attempts, and every instant at which attempts hit an error.",
  "The crate has no test of parsing at all; rollback correctness quantifies over the history before, inside and after the attempt.",
  [EP],
  [("save of token index and event count, truncation on error", EP + " save / ok_since")],
  ["peek, peek_n, at, bump, eat, is_empty, ok_since and the sink's calls"],
  [("events / tok_idx", "everything parsed so far", EP)])
p("E02", "The delivered tree is balanced, complete and in order under any parse history",
  "Whatever constructs a parse abandons, re-parents or leaves empty, the sink receives a balanced tree with exactly the kept non-empty constructs nested as built, every consumed token exactly once in order inside its construct, every error at its place, and all trivia before and just after the consumed tokens, never at the edge of a construct other than the root. Looking ahead shows exactly the tokens that consuming would return. A finished construct reports itself empty exactly if it contains no tokens. A parse that consumed nothing still delivers its outermost construct. A panic of the grammar code with constructs still open propagates as that panic.",
  ["histories", "fault_sequences", "inputs"],
  "For every token sequence with any trivia, every history of enter, exit, abandon, re-parent, lookahead, consume, error and rollback operations, and every panic instant.",
  "The crate has no test of parsing at all.",
  [EP, RS],
  [("deferred entering of constructs", EP + " finish"), ("parent links resolved when the child is entered", EP + " precede / finish"), ("trivia attached in one place", EP + " eat_trivia"), ("errors ranged to the next token", RS)],
  ["calls received by the sink; the rowan tree and error ranges", "Exited::is_empty"])

p("W01", "Rendering reports every writer failure and writes nothing after it",
  "Formatting any of the library's displayable values or separated sequences into a writer succeeds exactly if every write and every element succeeded, and then has written exactly the full rendering. If a write or an element fails, formatting returns an error, nothing more is written or asked for after the failure, and what was written is a prefix of the full rendering.",
  ["fault_sequences", "inputs"],
  "For every displayable value, every sequence of elements and separator, and every instant at which the writer or an element's own rendering fails.",
  "No test renders anything; a failing writer at each possible position is never simulated.",
  ["crates/fmt-util/src/lib.rs", "crates/diagnostic/src/lib.rs", TP, PM + "types.rs", "crates/uniq/src/lib.rs", "crates/str-util/src/lib.rs", "crates/topo-sort/src/graph.rs"],
  [("errors propagated with ?", "crates/fmt-util/src/lib.rs sep_seq; Display impls")],
  ["fmt::Write implementation supplied by the caller"])

p("X01", "A language server built from these parts publishes what the texts call for",
  "Take a server that keeps documents in step with an editor by applying its changes, reads the project's other files from disk, lexes and parses every file with the generated syntax, orders the files by their imports, resolves names in cloned environments, checks case distinctions, and publishes its results by path. Every result it publishes - the tree, parse errors and their places, the definition that each name resolves to, cases that are missing or never reached, what is shown about a token, unreadable imports and import cycles - is what an independent evaluation of the same texts gives, whatever messages, workers, reads or earlier sessions were lost on the way. Once faults stop and all messages are delivered, it publishes what the editor's texts and the disk call for.",
  ["schedules", "fault_sequences", "crash_points", "histories", "inputs"],
  "For every sequence of edits, every loss, duplication and reordering of messages, every crash of the server or loss of a worker, every failing or partial disk operation and every change of the disk by others, in every order.",
  "The tests exercise each crate on a few examples; no test combines two crates, and what one crate promises another is never checked.",
  ["crates/apply-changes/src/lib.rs", TP, "crates/str-process/src/lib.rs", "crates/event-parse/src/lib.rs", "crates/event-parse/src/rowan_sink.rs", "crates/syntax-gen/src/kind.rs", "crates/syntax-gen/src/seq.rs", "crates/syntax-gen/src/alt.rs", PA, "crates/idx/src/lib.rs", "crates/topo-sort/src/lib.rs", "crates/chain-map/src/lib.rs", "crates/diagnostic/src/lib.rs", "crates/pattern-match/src/alg.rs", "crates/uniq/src/lib.rs", "crates/str-util/src/lib.rs", "crates/fmt-util/src/lib.rs"],
  [("document changes to text", "crates/apply-changes/src/lib.rs get"), ("text to tokens", "crates/str-process/src/lib.rs, generated keyword and punctuation tables"), ("tokens to tree", "crates/event-parse/src/lib.rs finish; rowan_sink.rs"), ("tree to typed accessors", "crates/syntax-gen/src/seq.rs, alt.rs"), ("names to definitions", "crates/chain-map/src/lib.rs"), ("order of analysis", "crates/topo-sort/src/lib.rs Work::run"), ("identity of files", PA + " Store::combine"), ("places in results", TP + " PositionDb")],
  ["what the server publishes per file, its log of the analysis, the text of its documents"])

# Pure functions: listed for completeness, not claimed.
def na(id, title, statement, text, why, files, mech):
    p(id, title, statement, ["inputs"], text, why, files, mech)
na("Q01", "Line/UTF-16 positions and byte offsets are inverse to each other",
   "For every text, converting a byte offset at a character boundary to a position and back gives the offset again, and no other position resolves to it.",
   "For every text and offset.", "The tests convert a dozen ASCII offsets in one direction.", [TP], [("line index", TP)])
na("Q02", "Clean paths are absolute and free of dot components",
   "Every clean path is absolute, contains no current- or parent-directory component, and cleaning it again changes nothing; this survives joining with any path.",
   "For every path and every sequence of joins.", "Three examples are tested.", [PA], [("component folding", PA + " new_unchecked")])
na("Q03", "Identifier case conversion round-trips on well-formed identifiers",
   "Converting a well-formed snake-case identifier to pascal case and back gives the original.",
   "For every identifier.", "Seven examples are tested.", ["crates/identifier-case/src/lib.rs"], [("character scan", "crates/identifier-case/src/lib.rs")])
na("Q04", "Every line of a documentation file ends up under its heading",
   "Splitting a Markdown file by code headings keeps each section's lines in order under its key and loses none after the first heading.",
   "For every Markdown text.", "There are no tests.", ["crates/code-h2-md-map/src/lib.rs"], [("line scan", "crates/code-h2-md-map/src/lib.rs get")])
na("Q05", "The generated syntax API matches the grammar",
   "For every supported grammar the generated code compiles, its accessors find exactly the children the grammar names, and its punctuation table lists longer tokens before their prefixes.",
   "For every grammar.", "There are no tests of the generator.", [SG + "kind.rs", SG + "seq.rs", SG + "alt.rs", SG + "ast.rs", SG + "token.rs"], [("quasi-quoted templates", SG)])
na("Q06", "Unique identifiers never repeat",
   "One maker never returns the same identifier twice.",
   "For every number of calls.", "Two calls are compared.", ["crates/uniq/src/lib.rs"], [("counter", "crates/uniq/src/lib.rs")])
na("Q07", "The byte cursor visits the string in order and its slices tile it",
   "Advancing a byte cursor never skips or repeats a byte, and slices taken between markers concatenate to the text passed over.",
   "For every string and sequence of cursor calls.", "There are no tests.", ["crates/str-process/src/lib.rs"], [("index arithmetic", "crates/str-process/src/lib.rs")])
na("Q09", "Diagnostic codes and character names are unambiguous",
   "Parsing a printed diagnostic code gives the code back, and no two characters share a name.",
   "For every code and character.", "There are no tests.", ["crates/diagnostic/src/lib.rs", "crates/char-name/src/lib.rs"], [("table and integer parsing", "crates/diagnostic/src/lib.rs, crates/char-name/src/lib.rs")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
