#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that the wording is reviewable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
LIB="src/lib.rs"; DIR="src/parsers/directives/mod.rs"; PM="src/parsers/mod.rs"; AST="src/ast/mod.rs"; VAR="src/parsers/variable/mod.rs"; CON="src/parsers/conditional/mod.rs"; TGT="src/parsers/targets/mod.rs"; SEQ="src/parsers/file_sequence.rs"
p("C01","The result of reading does not depend on how the bytes are delivered",
 "Reading a makefile from a stream gives the same outcome (success or error, every variable, rule, dependency and recipe) for every way the same bytes can arrive: any chunk sizes, splits inside a line, a line ending or a multi-byte character, interrupted system calls, and file sizes reported wrongly or not at all. The same holds for every file pulled in by an include directive.",
 ["inputs","schedules","fault_sequences"],"For all makefiles and included files, and all sequences of short reads, interruptions and chunk boundaries that deliver the same bytes.",
 "The tests read from in-memory slices and two tiny real files, always in one chunk and never interrupted.",
 [LIB,DIR],[("the whole stream is collected before parsing","src/lib.rs Engine::read_makefile"),("buffered file reader for included files","src/parsers/directives/mod.rs handle_include")],
 ["Engine::read_makefile result","Database contents afterwards"])
p("C02","A failed read of the main makefile changes nothing and can be retried",
 "When the stream handed to the engine fails, delivers bytes that are not valid text, or panics, at any byte offset, the call reports that very failure and the database holds exactly what it held before. Reading the same makefile again once the fault is gone gives exactly what a first, undisturbed read would have given.",
 ["inputs","fault_sequences","histories"],"For all makefiles, prior databases, byte offsets and kinds of read failure, and retry histories.",
 "No test injects a read error; the error path of the reader is never executed by the suite.",
 [LIB],[("no statement is processed before the stream ended cleanly","src/lib.rs Engine::read_makefile")],
 ["MakefileError::IOError returned","Database before and after the call"])
p("C03","A mandatory include that fails stops the read at exactly that point",
 "When a file named by a mandatory include cannot be opened or read to its end as text, the whole read stops with an error that names that file and carries the operating system's reason, at any nesting depth. Every statement before that point, including earlier files of the same directive, has taken effect exactly once, and nothing of the failed file and nothing after it has.",
 ["inputs","fault_sequences","crash_points"],"For all include trees and all positions, depths and kinds of open and read failure.",
 "The tests include one existing file and never make an open or a read fail.",
 [DIR,LIB,PM],[("open error mapped to an include failure","src/parsers/directives/mod.rs handle_include"),("error propagation out of nested reads","src/lib.rs Engine::process_block")],
 ["error returned by Engine::read_makefile","Database contents after the failure"])
p("C04","An optional include skips what cannot be opened and nothing else",
 "A file named by an optional include that cannot be opened, for whatever reason, is skipped without any effect, and every other file of the directive and every later statement is still read in order. A file that was opened but then fails to be read or parsed is never skipped silently: the read stops with that error, as for a mandatory include.",
 ["inputs","fault_sequences"],"For all include trees and all combinations of optional files missing, unreadable, failing to open or failing while being read.",
 "The suite has a single optional include of one existing file.",
 [DIR],[("soft flag on the include action","src/parsers/directives/mod.rs handle_include")],
 ["Engine::read_makefile result","Database contents"])
p("C05","Included and evaluated text takes effect in place, once and in order",
 "Reading a makefile is equivalent to carrying out its statements one after the other, with each included file and each eval'd text carried out completely, exactly once, at the place where it is named and in the order named, under whatever variables and rules hold at that moment, and with nothing from skipped conditional branches carried out at all. A conditional, definition or rule left open inside an included or eval'd text neither leaks into the text around it nor is affected by it.",
 ["inputs","programs","histories","fault_sequences"],"For all makefiles built from assignments, definitions, rules with recipes, conditionals, comments, continuations, includes and evals, nested in any way, with files appearing, missing and failing.",
 "The tests fix a handful of files with at most one include and one eval each; no test combines includes, evals, open rules and conditionals.",
 [LIB,PM,DIR,AST,VAR,CON,TGT],[("one fresh parser state per block of text","src/lib.rs Engine::process_block"),("eval feeds its text back into the engine","src/ast/mod.rs eval_internal"),("statements that end a rule record it first","src/parsers/mod.rs parse_line/close_rule")],
 ["Database contents compared with a reference interpreter","sequence of files opened"],
 [dict(name="open conditionals, definition and rule",meaning="what the parser is in the middle of",where="src/parsers/mod.rs ParserState")])
p("C06","Every include sees the file as it is when the include is reached",
 "When files change, appear, disappear or are replaced while a makefile is being read, each include directive uses the content that the file has when that directive is reached, even for a file read before in the same or an earlier read. Text already read is unaffected by later changes, and a file created by then is found while one removed by then is not.",
 ["schedules","histories","fault_sequences"],"For all include trees and all interleavings of a concurrent writer that creates, rewrites, truncates, replaces and removes the included files.",
 "No test changes a file during or between reads.",
 [DIR,LIB],[("the file is opened and read at the time of the directive","src/parsers/directives/mod.rs handle_include")],
 ["order and number of opens","Database contents versus delivered contents"])
p("C07","Interrupting a read leaves a whole-statement prefix and a usable engine",
 "If reading is cut short at any point, by an error or by a panic unwinding through the engine (from the caller's reader, from a log sink, from an unsupported construct), the database equals the result of carrying out some whole number of leading statements, at least all those that precede the last file opened: no statement is half done (each line of a multi-line definition counts as one), and a rule with several targets is recorded for all of them or none. The engine can be used for further reads and expansions, which behave as if the interrupted read had consisted of that prefix only.",
 ["crash_points","inputs","fault_sequences","histories"],"For all makefiles and all points at which the read can be interrupted. A multi-line definition counts one line at a time.",
 "Tests never interrupt a read; atomicity at every possible point is a quantifier over crash points.",
 [LIB,PM,VAR],[("persistent maps replaced in one assignment per statement","src/lib.rs Database::from_protorule, set_variable, append_to_variable")],
 ["Database contents after a caught panic or error","later reads on the same engine"])
p("C08","Database snapshots never change and can be restored at any time",
 "A copy of the database taken at any moment keeps answering every query (variables and their expansions, rules, dependencies, recipes) exactly as it did when it was taken, whatever is read, evaluated, added, interrupted or restored afterwards, on the original or on other copies. Putting a snapshot back makes the engine continue exactly as if everything since had not happened, and name handles obtained earlier stay valid and keep denoting the same names.",
 ["histories","schedules","fault_sequences"],"For all histories of reads, failed reads, snapshots, restores and direct additions over branching copies, including snapshots shared between threads.",
 "No test keeps a database across a later modification or restores one.",
 [LIB,"src/types.rs",AST],[("persistent (structurally shared) maps","src/types.rs Map"),("every update clones before it inserts","src/lib.rs Database"),("append-only interner","src/lib.rs NameCache")],
 ["Database::get_variable, get_rule, rules on old copies","Engine::replace_database then further reads"])
p("C09","Engines used in parallel threads do not influence each other",
 "When several threads each use an engine of their own at the same time, even starting from one shared database snapshot, each of them gets exactly the result it would get alone, for every interleaving and whatever fails or panics in the others. No thread ever blocks another for good.",
 ["schedules","fault_sequences","inputs"],"For all thread schedules (preempting at every log call, system call and allocation) and all workloads and faults per thread.",
 "The suite never runs two engines concurrently on purpose, and a few real schedules say nothing about the others.",
 [LIB,"src/evaluated/mod.rs","src/evaluated/nodes.rs"],[("all mutable state hangs off the caller's engine and name cache","src/lib.rs Engine, NameCache"),("shared constants initialised once","src/evaluated/nodes.rs, src/evaluated/mod.rs lazy_static")],
 ["per-thread results versus the same work done alone"])
p("C10","The engine's working directory alone decides which files are meant",
 "Relative names in include directives are resolved against the engine's working directory as it stands when the directive is reached, at every nesting depth, and absolute names are used as they are. The current directory of the process, whether it differs, changes during the read, or no longer exists, makes no difference to any result (a relative working directory of the engine counts from the directory of the process, and nothing is found under it when that is gone).",
 ["configurations","schedules","fault_sequences"],"For all combinations of engine working directory, process directory, decoy files and moments at which the process directory changes or disappears.",
 "Tests run with the process directory equal to the engine's and never change it.",
 [DIR,LIB,SEQ,TGT],[("paths joined onto Engine::working_directory","src/parsers/directives/mod.rs handle_include"),("file sequences parsed relative to the engine","src/parsers/targets/mod.rs parse_line")],
 ["absolute path of every open","Database contents"])
p("C11","Reading touches only the named files, read-only, and releases them all",
 "Each file named by an include that is carried out is opened exactly once, for reading only, and no other file is opened, created, changed or removed. When the call returns, with success, error or panic, every descriptor it opened has been closed exactly once, and at no time does it hold more descriptors than files being read at that moment, nested ones included.",
 ["inputs","fault_sequences","crash_points"],"For all include trees and all error, interruption and panic points.",
 "Tests cannot see descriptors or opens, and never take the failure paths on which they would leak.",
 [DIR,LIB],[("scoped file handles","src/parsers/directives/mod.rs handle_include")],
 ["simulated system call log: opens, closes, other calls"])
p("C12","Reading always comes to an end, and promptly once faults stop",
 "For every stream and every set of included files, including ones cut off at any byte, including files that name themselves until one can no longer be opened, and including bursts of interruptions and a reader that keeps answering 'would block', a read returns after a number of steps bounded by the size of what it was given (text that evals itself over and over aside). A variable that leads back to itself is reported as an error. In particular a read neither retries a failed operation forever nor spins, and after the last fault it needs no more steps than an undisturbed read.",
 ["inputs","fault_sequences","schedules"],"For all inputs, truncation points, include cycles and fault bursts; steps are counted, never timed.",
 "Termination is a statement about all inputs and fault sequences; tests only show that a few runs ended.",
 [LIB,PM,DIR,"src/parsers/comment.rs",VAR],[("every parser step consumes input","src/lib.rs Engine::process_block"),("interrupted reads retried, other errors returned","src/lib.rs Engine::read_makefile")],
 ["number of simulated system calls and log steps until return"])
p("C13","The same input gives the same result in every process",
 "Two reads of the same makefiles under the same file contents and failures give identical results, including the order in which rules and sensitivities are listed and the text of errors, whatever the random seed of hash tables, the clock, the environment, the memory layout, the log level and whatever was read before by other engines in the process.",
 ["configurations","schedules","inputs"],"For all inputs and all values of the ambient nondeterminism: hash seeds, time, environment, log configuration, process history.",
 "One test process samples one hash seed and compares with fixed expectations that do not involve order.",
 [LIB,"src/types.rs"],[("deterministic hasher and sequential symbols","src/types.rs, src/lib.rs NameCache")],
 ["complete dump of database and errors, order included"])
p("C14","Nothing but the database carries over from one read to the next",
 "After any history of reads on one engine, successful or not, the next read behaves exactly as it would on a brand-new engine holding the same database, names and settings. Open conditionals, definitions or rules, partial input, counters and failures of earlier reads leave no trace, and each read honours the recipe prefix character and the working directory that are set when it starts.",
 ["histories","fault_sequences","crash_points","configurations"],"For all histories of complete, truncated, failing and interrupted reads with settings changed in between.",
 "Every test uses a fresh engine for a single read.",
 [LIB,PM],[("parser state local to one block","src/lib.rs Engine::process_block")],
 ["Database after each read versus the same read on a fresh engine"])
# --- not applicable to this technique: pure functions of their input ---
na=["inputs"]
p("P01","Expansion follows GNU make text semantics","Expanding any text (references, nested and computed names, substitution references, dollar escapes) yields the characters GNU make would yield for the same variables.",na,"For all texts and variable environments.","Unit tests sample a few dozen texts.",[AST,"src/ast/text_functions.rs","src/parsers/ast/mod.rs"],[("AST evaluation","src/ast/mod.rs")],["Variable::expand"])
p("P02","Every piece of evaluated text keeps where it came from","Each segment of an evaluated text reports the file, line and character it was written at, through any number of expansions, slices and simplifications.",na,"For all texts and slices.","Unit tests check single constants.",["src/source_location.rs","src/evaluated/block_span.rs","src/evaluated/content_reference.rs"],[("located strings","src/source_location.rs")],["BlockSpan::segments"])
p("P03","Sensitivity lists every variable that was consulted","The sensitivity set of an evaluated text contains every variable whose value could change that text, including unset ones.",na,"For all texts and environments.","Tests check three shapes of reference.",[AST,"src/evaluated/mod.rs"],[("sensitivity merging","src/ast/mod.rs eval_internal")],["Block::sensitivity"])
p("P04","The text tree behaves like the flat string it stands for","Length, characters, slices, searches and comparisons on a text tree agree with the same operation on its flattened string.",na,"For all trees and operations.","Property tests cover a few node kinds.",["src/evaluated/nom/mod.rs","src/evaluated/block_span.rs"],[("nom input traits","src/evaluated/nom/mod.rs")],["BlockSpan operations"])
p("P05","Line structure follows GNU make","Splitting text into logical lines honours continuations, comments, escapes and both line endings as GNU make does.",na,"For all texts.","Tests sample single lines.",[PM,"src/parsers/comment.rs","src/parsers/recipe_line.rs"],[("makefile_line","src/parsers/mod.rs")],["Database contents"])
p("P06","Rule lines with escapes and drive letters are split correctly","Targets, prerequisites and inline recipes are separated at the unescaped colon and semicolon, with escapes removed as GNU make does.",na,"For all rule lines.","Property tests cover unescaped names.",[TGT,SEQ],[("mword scanner","src/parsers/targets/mod.rs")],["Rule::target, dependencies"])
p("P07","No input text makes the engine panic","For every text, reading returns success or an error.",na,"For all texts.","Only well-formed samples are tested.",["src"],[("error enum","src/lib.rs MakefileError")],["Engine::read_makefile"])
p("P08","Visitors reach every node of a syntax tree once","Walking any syntax tree calls the visiting method of every node exactly once, in source order.",na,"For all trees.","Property tests bound depth and shapes.",["src/ast/visit.rs"],[("visitor macro","src/ast/visit.rs")],["Visitor callbacks"])
p("P09","Comparison of source locations is a partial order","Comparing locations is reflexive, antisymmetric and transitive, and only locations of the same file are comparable.",na,"For all triples of locations.","Tests compare a few pairs.",["src/source_location.rs"],[("PartialOrd","src/source_location.rs")],["Location::partial_cmp"])
with open('properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
    assert all(len(x['title'])<=80 for x in P)
