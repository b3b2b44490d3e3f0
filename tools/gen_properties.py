#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

OV = "build-time overlay (no committed hook): statement-level yield points, simulated clock, scheduler-ordered map iteration"

# ---------------------------------------------------------------- validation engines
prop("C01", "A validator's verdict never depends on what it validated before",
 "After a grammar has been prepared once, every document validated with it receives exactly the verdict that the grammar's meaning assigns to that document, whatever sequence of documents was validated before it. "
 "This includes earlier documents that were rejected or accepted before they were fully read, documents with labels and values never seen before, and repeats of the same document.",
 ["histories", "inputs", "programs"],
 "for every grammar without left recursion, every finite sequence of documents over one prepared validator, and every position in that sequence",
 "The tests validate at most a couple of documents per prepared grammar; the memoised states, calls and returns grow with each new document, so a wrong entry only shows on particular later documents.",
 ["relapse/mem/mem.go", "relapse/mem/deriv.go", "relapse/mem/ifs.go", "relapse/intern/sets.go", "relapse/intern/construct.go", "relapse/intern/deriv.go", "relapse/intern/zip.go"],
 [("memoised call trees and return tables keyed by interned state", "relapse/mem/mem.go getCall, getReturn"),
  ("lazily built condition tree", "relapse/mem/ifs.go eval"),
  ("hash-consed set of pattern lists", "relapse/intern/sets.go")],
 [("memo tables", "state -> call tree; (state, zip index, null index) -> state", "relapse/mem/mem.go")],
 ["verdict and error returned by Validate for each document of the history"], OV)

prop("C02", "A validation that fails midway reports it and leaves the validator usable",
 "If the document source reports an error while being stepped, at any point of a validation that the validator reaches, the validation returns an error and never a verdict of acceptance or rejection. "
 "Whatever ended a validation early - such an error, an error or panic raised by a user-registered function or by the source's own methods - every later validation with the same prepared grammar still returns the correct verdict.",
 ["fault_sequences", "histories", "crash_points"],
 "for every grammar, every history of validations and every placement of a stepping error, function error or panic at any callback of any validation in it",
 "No test injects a failing source into a validator, let alone at every step, and none reuses a validator after a failure.",
 ["relapse/mem/deriv.go", "relapse/mem/ifs.go", "relapse/mem/mem.go", "relapse/auto/deriv.go", "relapse/auto/auto.go", "relapse/intern/deriv.go", "relapse/interp/deriv.go", "relapse/compose/compose.go"],
 [("error paths of the derivative loop", "deriv in each engine"), ("memo tables only extended after success", "relapse/mem/ifs.go eval, relapse/mem/mem.go getReturn")],
 [("partially built memo entries", "condition nodes created while a callback is on the stack", "relapse/mem/ifs.go")],
 ["error and verdict of the failed validation; verdicts of later validations"], OV)

prop("C03", "All validation engines give the verdict the grammar means, in any internal order",
 "The interpreter, the interning interpreter, the memoising validator and the compiled automaton return the same verdict for every grammar and document, and it is the verdict that the documented meaning of the grammar assigns; their record-optimised variants do so for documents whose siblings all have different labels. "
 "The verdict does not depend on the iteration order of any internal collection.",
 ["inputs", "programs", "schedules"],
 "for every grammar without left recursion, every document and every iteration order of internal maps; compiled automaton where compilation succeeds",
 "The cross-engine test-suite data is not part of this repository, the unit tests compare a handful of grammars, and Go's random map order makes each run sample a single order.",
 ["relapse/interp/deriv.go", "relapse/interp/simplify.go", "relapse/interp/nullable.go", "relapse/intern/deriv.go", "relapse/intern/construct.go", "relapse/auto/compile.go", "relapse/auto/deriv.go", "relapse/mem/deriv.go", "relapse/sets/zip.go"],
 [("derivative rules", "derivCall/derivReturn in each engine"), ("simplification and reference folding", "relapse/interp/simplify.go checkRef, Grammar"), ("zip/unzip of child patterns", "relapse/sets/zip.go, relapse/intern/zip.go")],
 None, ["verdicts of the four engines and their record variants"], OV)

prop("C04", "Independent objects can be used concurrently without interfering",
 "When many goroutines each use their own parsers, validators, encoders and grammar parsers at the same time, under any interleaving and while sharing one parsed grammar, one descriptor set, one input buffer and the function registry, each obtains exactly the result it obtains when running alone.",
 ["schedules", "programs"],
 "for every set of concurrently running tasks and every interleaving of their statements",
 "The tests are single-threaded; the race detector, where used, only sees the schedules that happen.",
 ["relapse/mem/mem.go", "relapse/intern/construct.go", "relapse/funcs/register.go", "relapse/compose/compose.go", "parser/xml/typeinfo.go", "parser/proto/desc.go", "relapse/parser/parse.go", "encode/proto/proto.go"],
 [("per-instance mutable state only", "constructors of every parser, validator and encoder"), ("locked type cache", "parser/xml/typeinfo.go tinfoLock"), ("package-level constants never written", "relapse/intern/construct.go empty/zany/notzany, relapse/mem/ifs.go")],
 [("package-level variables", "shared by all instances", "relapse/funcs, relapse/intern, relapse/parser, parser/xml")],
 ["per-task results compared with the same task run alone"], OV)

prop("C05", "A parsed grammar is never modified by using it",
 "Preparing a parsed grammar with any engine, simplifying it, validating with it, printing, walking, cloning, comparing or hashing it, or formatting or changing a clone of it, in any number, order and interleaving, leaves its printed text and its structure unchanged. "
 "Every validator prepared from it, earlier or later, therefore behaves the same.",
 ["schedules", "histories", "programs"],
 "for every grammar and every interleaved history of read-only operations on it by several tasks",
 "Tests use a grammar for one operation and throw it away; aliasing between the syntax tree and engine-internal lists needs a history to show.",
 ["relapse/ast/util.go", "relapse/ast/walk.go", "relapse/ast/clone.go", "relapse/ast/builtin.go", "relapse/interp/simplify.go", "relapse/intern/construct.go", "relapse/auto/compiler.go", "relapse/compose/builtin.go"],
 [("copy on write in the simplifier and constructors", "relapse/interp/simplify.go, relapse/ast/new.go"), ("reference lookup built as a fresh map", "relapse/ast/util.go NewRefLookup")],
 [("syntax tree", "shared by all engines", "relapse/ast/relapse.pb.go Grammar")],
 ["text and deep snapshot of the grammar before and after; verdicts of validators prepared at different times"], OV)

prop("C06", "Context values and the clock are read at validation time",
 "Functions that consult the validation context or the current time see the context that was last set and the time at which they are evaluated, wherever in the grammar they occur. "
 "Neither memoisation, nor constant folding, nor preparing the grammar earlier may freeze an old value.",
 ["histories", "schedules", "programs"],
 "for every grammar with context- or time-dependent functions at any position and every history of context changes, clock advances and jumps, and validations",
 "A test would have to control the clock and repeat validations over a memoised grammar; the existing tests set one context once, directly on a function.",
 ["relapse/intern/context.go", "relapse/compose/compose.go", "relapse/funcs/time.go", "relapse/mem/mem.go", "relapse/funcs/variable.gen.go", "relapse/compose/bool.go"],
 [("context propagated to every function of the grammar", "relapse/intern/context.go setContext, relapse/compose SetContext"), ("time-dependent functions marked as variable", "relapse/funcs/time.go"), ("trimming only of constant expressions", "relapse/compose/bool.go")],
 [("context", "pointer held by each function instance", "relapse/funcs"), ("clock", "process clock", "relapse/funcs/time.go")],
 ["verdicts after each context change and clock step"], OV)

prop("C07", "Validators and encoders drive a document cursor in one legal forward pass",
 "Every validator and encoder visits each node of the document at most once and in document order, descends only into a node it has just stepped to and that is not a leaf, reads labels and values only of the node it is on, ascends exactly as often as it descended when it ends without error, and stops after an end of the document or an error. "
 "It therefore works with single-pass sources.",
 ["inputs", "programs", "fault_sequences"],
 "for every grammar or target, every document and every early exit or failure",
 "The protocol is only implicit in the interface; tests check verdicts and not the sequence of cursor calls.",
 ["parser/parser.go", "relapse/mem/deriv.go", "relapse/auto/auto.go", "relapse/intern/deriv.go", "relapse/interp/deriv.go", "encode/json/json.go", "encode/xml/xml.go", "encode/proto/proto.go", "encode/reflect/reflect.go"],
 [("derivative loop", "deriv in each engine"), ("recursive encoders", "encode/*")],
 None, ["sequence of calls made on the source by a monitoring source"], OV)

prop("C08", "Repeated use and longer lists never cost more than in proportion",
 "Using the same validator, parser, encoder or grammar parser again for the same inputs takes no more work, and keeps no more memory in the object or in the package, than earlier uses did, however often this is repeated, and whatever uses failed, panicked or were left early in between. "
 "A validator keeps nothing more for each further element of a list, or level of nesting, once it has seen many like it, and interpreting, reading, parsing and encoding an input in which a part is repeated take work in proportion to its length, without calls that are nested deeper for longer lists.",
 ["histories", "fault_sequences", "inputs"],
 "for every object, every history of repeated uses with failures, and every input with a repeated part",
 "Tests use an object a few times on small inputs and look at results only; growth shows after many uses or in long lists, and never as a wrong verdict.",
 ["relapse/mem/mem.go", "relapse/mem/ifs.go", "relapse/intern/sets.go", "relapse/intern/construct.go", "relapse/interp/simplify.go", "parser/json/json.go", "parser/xml/parser.go", "parser/yaml/yaml.go", "parser/proto/proto.go", "encode/proto/proto.go", "relapse/parser/parser.go"],
 [("memo tables that are added to only for something new", "relapse/mem/mem.go getReturn, relapse/intern/sets.go Add"), ("removal of equal alternatives", "relapse/intern/construct.go NewOr, NewAnd"), ("reset of stacks", "Init of each parser, relapse/parser/parser.go Parse")],
 [("memo tables", "states, calls and returns", "relapse/mem/mem.go"), ("package variables", "caches and registries", "all packages")], ["statements executed per use, values reachable from the object and from package variables"], OV)

# ---------------------------------------------------------------- parsers
prop("C10", "What a parser shows of a node never depends on how the rest was visited",
 "For JSON, XML, YAML, protocol buffer and Go-value sources, every node a consumer visits has the label, kind, position and scalar values that the document defines, and every node is offered exactly once and in document order, no matter which subtrees were skipped, entered, left before their end, or stepped past their end, and no matter which and how many values were read on the way.",
 ["schedules", "inputs", "histories"],
 "for every well-formed document and every legal sequence of cursor operations (step, descend, ascend, read)",
 "Tests walk a document completely, or validate it; the number of partial traversals is exponential and each parser keeps hidden cursor state for skipped regions.",
 ["parser/json/json.go", "parser/xml/parser.go", "parser/yaml/yaml.go", "parser/proto/proto.go", "parser/reflect/reflect.go"],
 [("explicit state stack", "Up/Down in each parser"), ("skipping of unvisited values", "parser/proto/proto.go skipRepeated, parser/xml/parser.go Up, parser/json/json.go scanObject/scanArray")],
 [("cursor", "offset, stack and flags", "parser/*")],
 ["labels, leaf flags, accessor results and errors at every step"], OV)

prop("C11", "A parser re-initialised or reset behaves like a new one",
 "After initialising a parser with a new document, or resetting it, it presents that document exactly as a newly created parser would, whatever it was doing before: untouched, in the middle of a walk, left early by a validator, finished, failed, or stopped by corrupt input.",
 ["histories", "fault_sequences", "inputs"],
 "for every sequence of documents (intact or corrupt), partial walks and resets on one parser object",
 "Tests create a fresh parser per document or reuse it after a complete walk only.",
 ["parser/json/json.go", "parser/xml/parser.go", "parser/yaml/yaml.go", "parser/proto/proto.go", "parser/reflect/reflect.go"],
 [("Init and Reset", "each parser")],
 [("left-over cursor state", "flags, token, stack", "parser/*")],
 ["full walk after re-initialisation compared with the document"], OV)

prop("C12", "Corrupt input never crashes, hangs or escapes the buffer",
 "Walking a truncated, bit-flipped, spliced or otherwise corrupted JSON, XML, YAML or protocol buffer document ends after a number of steps bounded by its size, either normally or with an error, without a crash, whatever part of it is entered, skipped or read. "
 "No returned string or byte slice contains data from outside the given document, and data outside a nested length-delimited region is never presented as being inside it.",
 ["fault_sequences", "inputs", "schedules"],
 "for every document, every corruption of its bytes and every traversal schedule",
 "Tests parse well-formed documents, with very few exceptions.",
 ["parser/json/json.go", "parser/json/unquote.go", "parser/xml/parser.go", "parser/xml/xml.go", "parser/yaml/yaml.go", "parser/proto/proto.go"],
 [("bounds checks", "scan functions of each parser"), ("length prefix checks", "parser/proto/proto.go Next")],
 None, ["panics, step counts, returned slices relative to guard bytes around the buffer"], OV)

prop("C13", "A parser never changes its input, and values it returned stay valid",
 "No parser, validator or encoder modifies the byte buffer, descriptor or Go value it was given. "
 "A string or byte slice obtained from a node keeps its contents while the walk continues, after it ends, and after the parser is re-initialised with another buffer.",
 ["histories", "schedules", "inputs"],
 "for every document, every traversal schedule and every point at which a retained value is re-read",
 "Tests compare a value at once and then drop it, so reuse of an internal buffer behind a returned slice is invisible.",
 ["parser/json/json.go", "parser/json/unquote.go", "parser/xml/parser.go", "parser/xml/xml.go", "parser/yaml/yaml.go", "parser/proto/proto.go", "parser/reflect/reflect.go"],
 [("values are copies or views of the input", "String/Bytes of each parser")],
 [("decoder scratch buffer", "reused for each token", "parser/xml/xml.go")],
 ["retained values and input bytes re-read after later steps"], OV)

prop("C14", "A torn document is reported, and nothing wrong is shown before that",
 "If a JSON or XML document is cut short inside its root container, or a protocol buffer is cut inside a field, a complete walk of it ends in an error, and is never reported as a complete document. "
 "The nodes and values delivered before the error are those of the intact document, except for a scalar or text touching the cut.",
 ["crash_points", "inputs", "fault_sequences"],
 "for every document and every cut position, which is what a reader sees after a torn write",
 "Tests do not truncate documents.",
 ["parser/json/json.go", "parser/xml/parser.go", "parser/xml/xml.go", "parser/proto/proto.go"],
 [("short buffer detection", "parser/json/json.go, parser/proto/proto.go Next"), ("syntax errors of the decoder", "parser/xml/xml.go")],
 None, ["events delivered before the first error; the error"], OV)

prop("C15", "The XML decoder does not depend on how its input arrives",
 "The XML decoder yields the same tokens, offsets and final error for the same bytes whatever way the reader delivers them: byte by byte, in arbitrary chunks, with empty reads, or with data together with the end of input. "
 "If the reader fails, exactly that error is reported after the tokens that were completely delivered, neither a piece of the token that the failure interrupted nor another error is reported in its place, and it stays reported.",
 ["schedules", "fault_sequences", "inputs"],
 "for every byte sequence, every chunking and every failure point of the reader",
 "Tests use in-memory readers that deliver everything at once or one fixed one-byte reader.",
 ["parser/xml/xml.go", "parser/xml/buffer.go", "parser/xml/read.go"],
 [("buffered byte reading with one-byte push-back", "parser/xml/xml.go getc/ungetc"), ("sticky error", "parser/xml/xml.go d.err")],
 [("line, offset, pushed-back byte", "decoder position", "parser/xml/xml.go")],
 ["token sequence, InputOffset, final error"], OV)

prop("C16", "The logging and walking wrappers are transparent",
 "Wrapping a source in the debug logger changes nothing the consumer observes: the same steps, labels, values and errors come through, in the same order and number, and failures of the wrapped source are passed on. "
 "The complete and the randomly skipping walkers terminate, deliver nodes of the document only, in order, and raise the source's failure as a panic, which is their only way to report it, instead of returning a partial result.",
 ["inputs", "schedules", "fault_sequences"],
 "for every document, every consumer schedule, every choice made by the random walker and every failing call",
 "The wrappers are only used for eyeballing; no test compares wrapped with unwrapped behaviour.",
 ["parser/debug/log.go", "parser/debug/walk.go", "parser/debug/value.go"],
 [("delegation", "parser/debug/log.go"), ("recursive walk", "parser/debug/walk.go")],
 None, ["call and result sequence through the wrapper"], OV)

# ---------------------------------------------------------------- encoders
prop("C20", "An encoder never presents a failed source as a complete document",
 "If the source fails at any step while it is being encoded to JSON, XML, protocol buffer or a Go value, the encoder returns an error, and neither crashes nor returns output as if it were complete. "
 "A value or node that the target cannot hold leads to an error or is left out, and never to a crash.",
 ["fault_sequences", "crash_points", "inputs"],
 "for every document, every target and every failing step",
 "The encoder tests transcode a few intact documents; no test injects an error.",
 ["encode/json/json.go", "encode/xml/xml.go", "encode/proto/proto.go", "encode/reflect/reflect.go"],
 [("error propagation through the recursion", "encode functions")],
 None, ["error returned by Encode, recovered panics"], OV)

prop("C21", "Encoding carries every value, whatever buffer or encoder is reused",
 "Encoding a source whose nodes the target can represent yields a document that carries every label and value the source delivered, each exactly once and at its place, for every size of the scratch buffer passed in, and however often the same encoder has been used before, including after failed encodings. "
 "Reading the result back with this library yields the same data, up to what the target format defines: JSON numbers, XML text, the order of JSON fields and of protocol buffer fields with different numbers, and default values.",
 ["histories", "inputs", "fault_sequences"],
 "for every document, every scratch buffer size and content and every history of encodings with one encoder",
 "Tests encode single documents with one buffer size; loss needs particular sizes, lengths and nesting.",
 ["encode/proto/proto.go", "encode/json/json.go", "encode/xml/xml.go", "encode/reflect/reflect.go"],
 [("growing scratch buffer", "encode/proto/proto.go checkSize, msgField.encode")],
 [("scratch buffer", "caller-provided, grown on demand", "encode/proto/proto.go")],
 ["decoded output compared with the source tree"], OV)

# ---------------------------------------------------------------- grammar text
prop("C30", "Parsing grammar text survives any text and any parser history",
 "Parsing arbitrary or corrupted grammar text terminates within a number of steps bounded by its length, and returns a grammar or an error, without a crash. "
 "The same text always gives the same outcome, whether the grammar parser object is new, or was used before on valid, invalid or truncated text.",
 ["histories", "fault_sequences", "inputs"],
 "for every text, every corruption of a valid grammar and every history of uses of one grammar parser object",
 "Tests parse fixed valid grammars with a fresh parser each.",
 ["relapse/parser/parse.go", "relapse/parser/parser.go", "relapse/lexer/lexer.go", "relapse/ast/new.go", "relapse/ast/util.go", "relapse/ast/string.go"],
 [("reset of the parse stack", "relapse/parser/parser.go Parse"), ("error recovery", "relapse/parser/parser.go")],
 [("parse stack", "kept in the parser object", "relapse/parser/parser.go")],
 ["grammar text, error, panics, step count"], OV)

prop("C31", "Every grammar that parses can be prepared or is refused, without crashing",
 "Preparing any grammar that was parsed successfully, including ones with undefined or duplicate references, unknown functions or ill-typed expressions, but without left recursion (a reference that reaches itself without entering a node), which the documentation excludes, returns a validator or an error within a bounded number of steps, and does not crash, hang or leave damage that affects other grammars prepared before or after. "
 "Validating any document with the prepared result does not crash.",
 ["inputs", "programs", "histories"],
 "for every accepted grammar text including semantically broken ones (without left recursion), and every document",
 "Tests prepare hand-written sensible grammars.",
 ["relapse/ast/util.go", "relapse/intern/construct.go", "relapse/compose/compose.go", "relapse/funcs/register.go", "relapse/mem/mem.go", "relapse/interp/simplify.go", "relapse/auto/compiler.go"],
 [("reference checks", "relapse/intern/construct.go NewReference"), ("function lookup errors", "relapse/funcs/register.go")],
 None, ["error or validator, panics, step count"], OV)

# ---------------------------------------------------------------- pure functions, not claimed
prop("N01", "Printing and parsing a grammar are inverse",
 "Printing any grammar and parsing the text gives an equal grammar, and reformatting is idempotent and keeps comments.",
 ["inputs"], "for every grammar", "Tests cover fixed examples.",
 ["relapse/ast/string.go", "relapse/ast/format.go", "relapse/parser/parse.go"], [("printer", "relapse/ast/string.go")])
prop("N02", "Built-in functions compute what their documentation says",
 "Each built-in function of the grammar language returns the documented result for every argument.",
 ["inputs"], "for every function and argument", "Tests sample few arguments.",
 ["relapse/funcs", "list_of_functions.txt"], [("generated and hand-written functions", "relapse/funcs")])
prop("N03", "Combinators build the same grammar as text",
 "A grammar built with the Go combinators equals the grammar parsed from the corresponding text.",
 ["inputs", "programs"], "for every combinator expression", "Tests compare fixed examples.",
 ["relapse/combinator/combinator.go", "relapse/combinator/funcs.go"], [("combinators", "relapse/combinator")])
prop("N04", "Equality, ordering and hashing of syntax trees and functions are lawful",
 "Equality is an equivalence, comparison is a total order consistent with it, and equal objects have equal hashes.",
 ["inputs"], "for all pairs and triples of syntax trees and function expressions", "Tests sample pairs.",
 ["relapse/ast/derived.gen.go", "relapse/ast/compare.go", "relapse/funcs/derived.gen.go"], [("generated Equal, Hash, Compare", "relapse/ast, relapse/funcs")])
prop("N05", "The check for latent appending or merging is exact",
 "The protocol buffer check accepts a buffer exactly when no field is merged or split in it.",
 ["inputs"], "for every buffer and descriptor", "Tests cover single examples.",
 ["parser/proto/nomerge.go"], [("recursive scan", "parser/proto/nomerge.go")])
prop("N06", "Simplification preserves meaning",
 "Simplifying a grammar, or merging of conditions, never changes which documents it accepts.",
 ["inputs", "programs"], "for every grammar and document", "Tests compare fixed examples.",
 ["relapse/interp/simplify.go", "relapse/intern/construct.go", "relapse/funcs/logic.go"], [("rewrite rules", "relapse/interp/simplify.go")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
