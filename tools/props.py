#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json,os
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(observe),hook_needed=hook)))

prop("C01","String values are isolated from one another",
 "A mutation applied to one string value changes that value only: every other string value, including copies of it, substrings taken from it or from a common parent, strings it was assigned from or appended with, and the value as passed by another holder, reads exactly as before. This holds whatever storage the values happen to share and in whatever order they were copied, sliced, mutated and destroyed.",
 ["histories","inputs"],"Every history of construct/copy/assign/slice/append/insert/case-change/transform/JSON/destroy operations over any number of live strings, with any mix of 1-4 byte characters.",
 "strval_test only prints; it samples a dozen fixed sequences and asserts nothing about other holders of the same storage.",
 ["include/strval.h","include/array.h","include/refcount.h"],
 [("copy-on-write before mutation","StrValI::Unshare, copyBody"),("reference counted body","RefCounted/Ref"),("slices share a body","StrValI::substr")],
 [("body,offset,num_chars","shared storage, first character and length of the slice","StrRefI"),("mark","bookmark accelerating char->byte lookup","StrValI")],
 ["return of each public StrVal call"])

prop("C02","Strings behave as sequences of characters",
 "Every string operation (length, byte count, character access, substring/head/tail/shorter, find/rfind of characters and substrings, find/rfind of any/none of a set, concatenation, append, prepend, insert, repetition, comparison, UTF-8 extraction) gives the result it has on the abstract sequence of Unicode characters the value denotes. The result depends on the denoted sequence alone, never on how the value was built: not on slicing, sharing, previous lookups or multi-byte neighbours.",
 ["histories","inputs"],"Every operation with every legal argument, on every string value reachable by any history of string operations, with any mix of character widths.",
 "strval_test prints results without checking them; lookups take different internal paths depending on width, position, slice offset and earlier lookups, and only a few are touched.",
 ["include/strval.h","include/char_encoding.h"],
 [("character index to byte offset with bookmark","StrBodyI::nthChar"),("lazy character count","StrBodyI::countChars/numChars"),("slice arithmetic","StrValI::substr, nthChar")],
 [("num_chars","cached character count of a body","StrBodyI"),("mark","last looked-up position","StrValI")],
 ["return of each public StrVal call"])

prop("C03","Arrays are sequences with value semantics",
 "Every array operation (element access, set, slice/head/tail/shorter/drop, push/append/insert/unshift/shift/pull, remove/delete_at/delete_if, reverse, concatenation, comparison, find/rfind/detect, select/map/inject/each/all/any/one, binary search) has the effect and result it has on the abstract sequence of elements. A mutation changes only the array it is applied to, whatever slices or copies share its storage; an element or array given may be (part of) the array itself; what goes over the elements visits those the array had when called, whatever is changed meanwhile; and the empty array is a legal subject of every operation.",
 ["histories","inputs"],"Every history of array operations over any number of live arrays and slices with any element values, including trivially copyable and counted elements.",
 "array_test prints and asserts nothing; slices with a non-zero offset, unshared slices, and boundary indices are not exercised.",
 ["include/array.h","include/refcount.h"],
 [("copy-on-write","ArrayR::Unshare"),("body insert/remove/resize","ArrayBody::insert, remove, resize")],
 [("body,offset,num_elements","shared storage and the slice's extent","ArrayR")],["return of each public Array call"])

prop("C04","Maps are key-value functions with value semantics",
 "A map returns for each key the value most recently put for it, and contains exactly the keys put and not removed since; size, contains, lookup, iteration order (ascending by key), insertion into a copy, removal and clear all agree with that function. Changing one map never changes another map that was copied or assigned from it or that it was copied from, and what goes over the entries (each, all, any, one, select, map, inject) visits those the map had when called, even if they are changed from within.",
 ["histories","inputs"],"Every history of put/insert/remove/clear/copy/assign/lookup/iteration over any number of live maps and any keys, including strings sharing prefixes and substrings of one another.",
 "No test exercises CowMap mutation of a shared map; Variant tests only build small maps once.",
 ["include/cowmap.h","include/refcount.h","include/strval.h"],
 [("copy-on-write","CowMap::Unshare"),("key ordering","StrVal comparison")],
 [("body","shared std::map","CowMap")],["return of each public CowMap call"])

prop("C05","Shared storage is freed exactly once, after its last user",
 "Storage shared between values stays intact as long as any value still refers to it, and is released exactly once when the last one is destroyed or reassigned, including self-assignment. This holds for any number of threads concurrently copying, assigning, reading and destroying values that share storage, under every interleaving of their reference-count steps.",
 ["schedules","histories"],"All interleavings of copy/assign/destroy of references to a common object by any number of threads, for references, strings, arrays, maps and variants.",
 "No test shares a value between threads; a lost update or premature release needs one particular interleaving.",
 ["include/refcount.h","include/strval.h","include/array.h","include/cowmap.h","include/variant.h"],
 [("atomic counter","RefCounted::AddRef/Release"),("acquire new before releasing old","Ref::operator=")],
 [("ref_count","number of live references","RefCounted")],["each reference-count step","object destructor"])

prop("C06","Variants hold one typed value, faithfully",
 "A variant always reports the type and exactly the value most recently constructed, assigned or coerced into it, copies and assignments (including self-assignment and assignment across types) are independent deep values, and nothing it held is leaked or released early. Coercion to a type either yields a variant of that type whose value denotes the same thing (string to number parses it, number to string prints it, and so on), or refuses without changing the value's meaning.",
 ["histories","inputs"],"Every history of construct/assign/copy/coerce/mutate/destroy over any variants of every type including nested arrays and maps.",
 "variant_test prints a fixed set of variants and checks nothing; coercion failures and leaks are invisible to it.",
 ["include/variant.h","src/variant.cpp","include/strval.h","include/array.h","include/cowmap.h"],
 [("tagged union with placement new","Variant constructors/destruct"),("coercion switch","Variant::coerce")],
 [("_type,u","the tag and the value","Variant")],["return of each public Variant call"])

prop("C07","JSON output is valid JSON that denotes the value",
 "For every variant and at any nesting and indentation, the JSON text it renders is well-formed JSON that parses back to the value: the same structure, order, numbers and strings. Escaping a string to JSON yields a legal JSON string body that decodes, with UTF-16 surrogate pairs where used, to exactly the original characters, for every Unicode string.",
 ["inputs"],"Every string over all Unicode scalar values including NUL, controls, quotes, non-BMP; every nesting of none/number/string/string-array/array/map and every indent.",
 "Tests print a handful of JSON renderings and check none; supplementary-plane and control characters are not covered.",
 ["include/strval.h","include/variant.h"],
 [("per-character escape","StrBodyI::toJSON"),("recursive renderer","Variant::as_json")],
 [],["result of toJSON/asJSON/as_json"])

prop("C08","Every thread that ends is joined exactly once",
 "Each started thread is reported by joining exactly once, only after it has run to completion, to one joiner; join-any keeps waiting while some started thread is unreported, and reports nothing only when there is none. No interleaving of starts, completions and joins by any number of threads loses a completed thread, reports one twice, or leaves a joiner waiting for ever.",
 ["schedules","histories"],"All interleavings of create, run, exit, join, joinAny and destroy for any number of threads.",
 "thread_test is built but not run, and one run samples one schedule.",
 ["include/thread.h","src/thread.cpp","include/condition.h","include/lockfree.h"],
 [("thread map under a latch","Thread::threads/latch"),("completion list and condition","Thread::cleanup, joinAny")],
 [("threads","started, unjoined threads","Thread")],["pthread calls of the implementation","joinAny/join return"])

prop("C09","Latches exclude, and condition wake-ups are not lost",
 "At most one thread holds a latch at a time and only its holder's release lets another in. A thread waiting on a condition is released by a signal or broadcast made after it began waiting, re-holds the latch when it returns, a signal releases one thread that was waiting already if there is any, a broadcast all of them, and a timed wait returns no earlier than its timeout unless woken. A wait without a latch behaves alike.",
 ["schedules"],"All interleavings of enter/leave/wait/timed wait/signal/broadcast of any number of threads.",
 "No test exercises contention or the order of wake-ups.",
 ["include/lockfree.h","src/lockfree.cpp","include/condition.h","src/condition.cpp"],
 [("mutex wrapper","Latch"),("condition wrapper","Condition")],
 [("holder","thread holding the latch","Latch")],["enter/leave/wait/signal/broadcast entry and return"])

prop("C10","UTF-8 and UTF-16 codecs round-trip and resynchronise",
 "Encoding any code point and decoding it gives back that code point and consumes exactly the bytes written, and the predicted lengths agree with the bytes written and read. Decoding any byte string at all consumes at least one byte per step, never reads past the terminating NUL, and reports ill-formed bytes as distinguishable characters that re-encode to the same bytes; stepping backwards visits exactly the character boundaries of stepping forwards.",
 ["inputs"],"Every code point 0..7FFFFFFF and every byte sequence, in particular truncated, overlong and stray-continuation ones.",
 "char_encoding_test checks well-formed code points only; ill-formed sequences and backward stepping are sampled by hand.",
 ["include/char_encoding.h","src/char_encoding.cpp"],
 [("UTF-8 encode/decode","UTF8Get, UTF8Put, UTF8Len, UTF8Backup"),("UTF-16","UTF16Get, UTF16Put, surrogate tests")],
 [],["return of each codec call"])

prop("C11","Character properties do not depend on history",
 "Character classification, digit value and case conversion of a code point are fixed functions: the answer for a code point is the same whichever characters were asked about before, in any order and on any thread. To-lower and to-upper agree with the character data the library ships, and leave a character without a counterpart unchanged.",
 ["histories","inputs"],"All code points, all orders of queries.",
 "char_encoding_test asks in one ascending order; memoised state only shows with other orders.",
 ["src/char_encoding.cpp","src/case_conversions.c","include/char_encoding.h"],
 [("range tables with search and last-result memo","UCS4ToLower/UCS4ToUpper/UCS4Digit")],
 [],["return of each classification call"])

prop("C12","A Pegexp matches exactly what the PEG semantics say",
 "For every well-formed pattern and every text, an anchored match at a position succeeds or fails, and on success consumes exactly the text, that possessive ordered PEG semantics prescribes for literals, escapes, properties, character classes, any, line anchors, sequence, groups, ordered choice, ?, *, +, and & and ! lookahead, nested in any way; by characters or by bytes as the source is. Searching reports the leftmost position at which the pattern matches, with the extent it matches there, and always terminates. No pattern text, well-formed or not, makes a match read outside the pattern or the text, crash or fail to return.",
 ["inputs","programs"],"Every well-formed pattern up to any size and nesting, every text.",
 "pegexp_test samples under two hundred pattern/text pairs; combinations of operators, nesting and position are unbounded.",
 ["include/pegexp.h"],
 [("recursive-descent matcher over the prefix pattern","Pegexp::match_sequence, match_atom, skip_atom"),("search loop","Pegexp::match")],
 [("State","pattern position, text position, captures","PegexpState")],["result of match_here/match"])

prop("C13","Pegexp captures describe the match that was returned",
 "The captures delivered for a successful match are exactly the labelled atoms matched on the successful path, in order of completion, each with the extent of text it matched: nothing captured in an alternative, repetition or lookahead that was abandoned remains. The repetition marking seen with a capture is true exactly for captures inside a repeated element, however repetitions nest and fail.",
 ["inputs","programs"],"All patterns with nested captures under choice, repetition and lookahead, all texts.",
 "pegexp tests use flat captures; roll-back after partial progress is hardly sampled.",
 ["include/pegexp.h","include/peg.h"],
 [("capture count save and rollback","PegContext::capture, rollback_capture"),("capture disabling in lookahead","capture_disabled")],
 [],["Context::capture calls and capture list at match end"])

prop("C14","Peg rules match as the grammar prescribes",
 "Parsing with a grammar of named rules matches exactly as if each rule reference were its pattern, for every grammar and rule names in any combination; recursion of any depth works, and a left-recursive reference at the same position fails rather than looping or crashing. The outcome of a parse is the same whatever was parsed before with the same parser.",
 ["programs","inputs"],"All sets of rules with any names, all rule-reference structures, all texts.",
 "peg_test is not run; pegexp tests have no named rules.",
 ["include/peg.h","include/pegexp.h"],
 [("rule lookup by name","Peg::lookup"),("nested context and left-recursion check","Peg::recurse, PegContext")],
 [],["result of Peg::parse"])

prop("C15","Parse results: captured values and furthest failure",
 "A successful parse delivers for each rule the labelled atoms and called rules its declaration asks for (by exactly their label, or name if unlabelled), complete and in source order, a value captured once as a scalar and one captured repeatedly or under repetition as a list, a rule that captured nothing as its text (unless empty), without anything from abandoned attempts or lookahead. Every parse, failing or not, reports the furthest position at which a plain character or character class outside lookahead was wanted and not found, with exactly those that were wanted there, each once, with its extent in the pattern and the path of rules that led to it.",
 ["programs","inputs"],"All grammars with capture declarations, all texts.",
 "No executed test looks at an AST or failure report.",
 ["include/peg_ast.h","include/peg.h"],
 [("AST building contexts","PegContext::capture"),("failure set","PegContext::record_failure")],
 [],["match result of Peg::parse"])

prop("C16","Compiled regular expressions match their language",
 "For every regular expression the compiler accepts and every text, matching reports success exactly when some substring at or after the start offset belongs to the expression's language under its anchors and lookaheads, reports the leftmost such position and the longest length there, and reports group captures lying on that match. Match options and the start offset have their documented effect and the same program can be reused for any number of texts.",
 ["inputs","programs"],"All accepted regular expressions (literals, classes, any, anchors, groups, alternation, repetition counts, lookahead, captures), all texts, all offsets.",
 "rxmatch_test samples about two hundred pairs.",
 ["rx/strregex.h","rx/rxcompile.cpp","rx/rxmatch.cpp"],
 [("compiler to threaded program","RxCompiler"),("parallel NFA simulation","RxMatcher/RxMatch")],
 [("threads of execution","stations with counters and captures","RxMatch")],["result of RxProgram::match_after/match"])

prop("C17","The regex engine is total",
 "Compiling any byte string either yields a program or a false result with an error message and position; it never crashes, reads out of bounds or fails to return. Matching any program the compiler accepted against any text terminates without crashing, with bounded memory. The listing of an accepted program (dump) knows each of its instructions and ends at its last byte.",
 ["inputs","programs"],"Arbitrary pattern strings, well-formed or not, and arbitrary texts.",
 "Tests use a curated list of patterns; combinations that overflow internal limits are not tried.",
 ["rx/rxcompile.cpp","rx/rxmatch.cpp","rx/rxdump.cpp","rx/strregex.h"],
 [("two-pass compile with buffer sizing","RxCompiler::compile"),("station limits","RxMatch")],
 [],["return of compile/match"])

prop("C18","Guarded pointers never leave their string",
 "A guarded character pointer, moved by any sequence of increments, decrements, additions and subtractions, always stays between the start (where it keeps one) and the terminating NUL, and dereferencing it gives the character at its position or NUL at the end. Moves that stay within the text behave as the corresponding plain pointer moves, by bytes or by whole UTF-8 characters.",
 ["histories","inputs"],"All sequences of pointer operations on all texts.",
 "utf8pointer_test moves back and forth over one string only.",
 ["include/char_ptr.h","include/utf8_ptr.h","include/charpointer.h"],
 [("guarded arithmetic","GuardedCharPtr, NulGuardedCharPtr, GuardedUTF8Ptr, NulGuardedUTF8Ptr")],
 [("cp, origin","position and start","GuardedCharPtr")],["return of each pointer operation"])

prop("C19","Error numbers keep their parts",
 "An error number built from a message set and message number gives back exactly that set and number for all legal values, is distinguishable from every other pair and from success, and converts to its integer representation and back unchanged. An error with attached parameters keeps its number, default text and parameters through copying and assignment.",
 ["inputs"],"All sets and message numbers; all copies.",
 "err_test prints one or two errors and checks nothing.",
 ["include/error.h"],[("bit fields of the 32-bit code","ErrNum")],[],["return of ErrNum/Error accessors"])

prop("C20","String to integer conversion is exact or refused",
 "Converting a string to an integer yields exactly the number the text denotes in the given or detected radix, or an error that names what is wrong: no digits, not a number, trailing text, overflow, illegal radix. It never returns a truncated or wrapped value as success, and the reported scan length is the number of characters used.",
 ["inputs"],"All strings, all radices 0..36 and illegal ones.",
 "strval_test tries a few decimal strings and checks nothing.",
 ["include/strval.h","include/error.h","include/char_encoding.h"],
 [("digit loop with overflow detection","StrValI::asInt32")],[],["return, err_return and scanned of asInt32"])

prop("C21","Case change and transform rewrite the whole value",
 "Lower-casing, upper-casing and transforming a string replace each character (or each run the transform function consumes) by its replacement, in order, once, starting after the given character and stopping when the function consumes nothing; the result has exactly the characters so produced, whatever their encoded widths, and remains fully usable by every other operation. The result is the same for a whole string and for an equal slice of a bigger one.",
 ["inputs","histories"],"All strings and slices, all transform functions (consuming 0..n characters, returning 0..n characters of any width), all starting points.",
 "strval_test runs one transform on one ASCII string and only prints.",
 ["include/strval.h","src/char_encoding.cpp"],
 [("body rewrite with buffer growth","StrBodyI::transform"),("case mapping","toLower/toUpper")],[],["string value after the call"])

prop("C22","Formatting and joining build exactly the specified text",
 "Joining an array of strings yields the elements in order separated by the joiner. Formatting replaces each conversion by the corresponding argument's rendering, with positional arguments, doubled percent signs and surrounding text handled as documented, never reading an argument that was not supplied. An array of strings, however it was built, yields (whole, by position, or taken off) exactly the strings put in, and taking one leaves the others and every copy of the array as they were.",
 ["inputs"],"All arrays of strings and joiners; all format strings and argument lists.",
 "Existing tests print a few samples.",
 ["include/strval.h","include/strformat.h","include/variant.h"],
 [("join","StringArray::join"),("format scanner","StrVal::format")],[],["result of join/format"])

prop("C23","Parsing sources keep truthful positions",
 "A text source reports for each position the byte offset, line and column that result from counting the characters consumed from the start, yields the text's characters in order, and reports end-of-input exactly at the end. Copies advance independently: backtracking by restoring a saved copy restores character, byte, line and column position exactly.",
 ["histories","inputs"],"All texts including multi-byte characters and line ends, all interleavings of advancing and copying several sources.",
 "pegexp tests do not look at counters.",
 ["include/pegexp.h","include/utf8_ptr.h","include/char_ptr.h"],
 [("counting source","PegTextSource / PegexpDefaultSource")],[],["get_char/get_byte/at_eof/current_line etc."])

if __name__=="__main__":
    out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
    with open(out,"w") as f:
        for p in P: f.write(json.dumps(p)+"\n")
