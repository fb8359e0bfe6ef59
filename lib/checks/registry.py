from checks import c03_array, c04_map, c05_ref, c08_thread, c09_latch, c18_ptr, c19_err, c22_fmt, c23_source, chars, numbers, pegexps, pegs, rxs, strings, variants

TRACE = "TLA+ spec; TLC model checking + trace validation of the real code"
REGISTRY = {
    "C01": ("model_checking", strings.run_c01),
    "C02": ("model_checking", strings.run_c02),
    "C03": ("model_checking", c03_array.run),
    "C04": ("model_checking", c04_map.run),
    "C05": ("model_checking", c05_ref.run),
    "C06": ("model_checking", variants.run_c06),
    "C07": ("model_checking", variants.run_c07),
    "C08": ("model_checking", c08_thread.run),
    "C09": ("model_checking", c09_latch.run),
    "C10": ("model_checking", chars.run_c10),
    "C11": ("model_checking", chars.run_c11),
    "C12": ("model_checking", pegexps.run_c12),
    "C13": ("model_checking", pegexps.run_c13),
    "C14": ("model_checking", pegs.run_c14),
    "C15": ("model_checking", pegs.run_c15),
    "C18": ("model_checking", c18_ptr.run),
    "C16": ("model_checking", rxs.run_c16),
    "C17": ("model_checking", rxs.run_c17),
    "C19": ("model_checking", c19_err.run),
    "C20": ("model_checking", numbers.run_c20),
    "C21": ("model_checking", strings.run_c21),
    "C22": ("model_checking", c22_fmt.run),
    "C23": ("model_checking", c23_source.run),
}
NOTES = {
    "C01": (TRACE, "Storage and bookmark design (StrCow) exhaustively refined against the abstract value spec StrSpec at small constants; transitions of that model stretched to lengths where the code keeps bookmarks, systematic mutate-on-every-slice-shape scripts and seeded random histories are replayed on the real StrVal and every result and every live value validated by StrTrace."),
    "C02": (TRACE, "Lookup design (StrIndex) exhaustive for all width patterns and lookup sequences at small lengths; systematic bookmark scripts, searches and random histories on the real StrVal validated call by call against StrSpec."),
    "C04": (TRACE, "Sharing design (MapCow) exhaustively refined against the abstract function spec MapSpec at small constants; its transitions, every change in every sharing situation, and random histories are replayed on the real CowMap with int, StrVal and Variant keys/values and validated call by call."),
    "C05": (TRACE + "; programs of the model under a controlled scheduler", "Reference counting design (RefCount: counts, bodies, copy-on-write, a latched slot) model checked for no use after free, isolation and exact release, three unsafe designs rejected; its programs, systematic and random ones run by several threads on the real StrVal, Array, CowMap, Variant, Error and Ref, preempted at every atomic access (to a bound) and at random heap accesses, every value validated by RefTrace and the heap checked. Sequentially consistent memory."),
    "C06": (TRACE, "Ownership design (VarModel: tagged cells, counted bodies, copy-then-release assignment, coercion) exhaustively refined against VarSpec at small constants; its transitions, every type accessed as every other in every sharing situation, and random nested histories replayed on the real Variant, every value and the live heap validated."),
    "C07": (TRACE, "Rendering design (JsonModel) checked by parsing every rendering of every small nested value at every indent with an RFC 8259 reading written in TLA+ (JsonSpec); the real as_json/asJSON/toJSON on code-point sweeps, critical pairs, systematic nestings and random nested values parsed by the same specification."),
    "C08": (TRACE + "; schedules of the model replayed under a controlled scheduler", "Algorithm (ThreadModel) model checked with spurious wakeups and fairness, its variants without each protection rejected; its behaviours and preemption-bounded and random schedules of the real Thread (real threads, simulated pthread primitives, one runs at a time) recorded and validated by ThreadTrace with hidden linearisation steps, including use of one identity by several threads in turn, failing creation and deletion unjoined. Sequentially consistent memory; joining by name a thread that joinAny may take at the same time is outside the contract."),
    "C09": (TRACE + "; schedules of the model replayed under a controlled scheduler", "Monitor programs on the call-level spec (LatchSpec) model checked for exclusion and progress, unsafe programs rejected; their behaviours, and preemption-bounded and random schedules of the real Latch and Condition (real threads, simulated pthread primitives and clock) recorded and validated by LatchTrace: each call's effect at a hidden moment, wake-ups only for waiters already asleep, timed waits to the microsecond. Sequentially consistent memory."),
    "C10": (TRACE, "The codecs are defined in CodecSpec; CodecModel checks exhaustively over byte texts, edge characters and unit texts that those definitions round-trip, progress, resynchronise and step back over exactly the boundaries. The real functions are validated on exhaustive short texts over a critical alphabet, random longer ones, code-point sweeps (all of Unicode in thorough) and 32-bit edges, with signed and unsigned char, in exactly-sized storage under AddressSanitizer."),
    "C11": (TRACE, "Memo design (CharMemo: one memo per table, read once) exhaustive for two threads on small tables, unsafe variants rejected; character data are part of the specification (CharData); the real functions are validated on sweeps in both directions and strides, on histories that visit the edges of every table entry after every other kind of query, on values beyond the tables, and under the controlled scheduler with several threads."),
    "C12": (TRACE, "Patterns are read as trees by the specification itself (PegSpec) and matched by their meaning; a model of the interpreter that keeps a place in the pattern (PegModel) agrees with the trees on every pattern over nine letters to length 5 (thorough 6) and every short text, four unsafe variants rejected. Patterns of that model, every terminal in every notation against every character near it, and random nested patterns with matching and near-matching texts run on the real Pegexp, by character and by byte, anchored and searching; mangled patterns in exactly-sized storage must do nothing untoward. Counted repetition is not implemented and excluded; so are malformed patterns, unescaped braces and colons, and characters beyond ASCII in a pattern but by escape."),
    "C13": (TRACE, "As C12, with labels: PegModel agrees with the trees in what is captured, where, and whether repeated; a variant that does not roll back is rejected. Labelled patterns of the model and random ones, nested in every operator, run on the real Pegexp with a context that records every capture and obeys every roll-back."),
    "C14": (TRACE, "A model of the chain of contexts, the left recursion test, the undo log and the furthest failure (PegGram) agrees with the stateless meaning of a grammar (PegSpec!Parse) on every grammar of two rules of 4 and 2 (thorough 4 and 3) tokens and every short text, a variant without the left recursion test rejected. Its grammars, structured ones (left recursion of every kind, names that begin alike in every order, undefined rules, deep nesting) and random ones of up to four rules run on the real Peg, without captures and with, the same parser for many texts."),
    "C15": (TRACE, "As C14, the whole result: the value delivered (maps, lists, texts, what was asked for and not) and what was expected at the furthest place, each with its rule and path. Models without partial roll-back, without forgetting nearer failures and with duplicates rejected. Labelled atoms whose name the rule does not ask for are excluded (delivered all the same)."),
    "C16": (TRACE, "Expressions are read as trees by the specification itself (RxSpec, under every feature) and denote relations between places; the threaded program (RxModel) finds what they say, leftmost and longest, with captures of that very match, on every expression of up to 6 and 7 pieces and every short text, five unsafe variants rejected. Expressions of that model, every character in every notation, every feature off and rejected, nested repetition counts, many alternates and groups, and random expressions with matching and near-matching texts compiled and run by the real code from every kind of offset. Which of several equal matches the captures describe is left open. \\p of an unknown name (any character), and {0} (the same as *), are as the code has them."),
    "C17": (TRACE, "RxModel bounds the places a match can be in by the size of the program and its counts; a variant that counts on is rejected. Mangled expressions under every feature must be compiled exactly when RxSpec reads them, else refused with a message and position; code of every size at which an offset changes size; expressions and texts of any bytes; thousands of alternates, groups, repetitions and characters; all under AddressSanitizer, and with the allocator that knows how each array was allocated."),
    "C18": (TRACE, "The meaning of every move (PtrSpec, on the codecs of CodecSpec) model checked to stay within the text and its origin, to be undoable and to clamp, on every short text; the behaviours of that model, every move from every place of every short text over a critical alphabet, and random histories of copies and moves (including extreme distances, truncated and overlong sequences, origins within a character) replayed on the five real classes in exactly-sized storage under AddressSanitizer."),
    "C19": (TRACE, "The numbering scheme is checked at full width on edge values (ErrModel); the real ErrNum is validated on edge and random sets with edge, random and all message numbers (thorough: every set), and Error objects on random copy histories."),
    "C20": (TRACE, "The denotation (NumSpec) is itself checked by printing every chosen number in every radix and decoration (NumModel); the real asInt32 is validated against it on all short texts over a critical alphabet, numbers around every representation limit in every radix, and random Unicode-digit texts."),
    "C21": (TRACE, "Transform loop design (XformModel) exhaustive over texts, starting points and the function catalogue; systematic and random scripts on the real StrVal validated by StrTrace."),
    "C03": (TRACE, "Storage design exhaustively refined against the abstract value spec at small constants; every transition of that model (sampled in quick), systematic boundary scripts and seeded random histories replayed on the real Array<> and validated call by call. Trusts the driver's projection and TLC."),
    "C23": (TRACE, "The counters a source keeps are model checked against their definition by what it has consumed (SourceSpec), over every small text and every interleaving of reading and copying two sources; its behaviours, every way on from every place of short texts over a critical alphabet (line ends, overlong and truncated sequences), and random histories of four sources replayed on the real source classes, read by character and by byte."),
    "C22": (TRACE, "Format's denotation is compared with the concatenation of its parts on every format of up to four parts (FmtModel); the real join and format are validated on systematic and random formats, argument lists (including missing and unsuitable arguments, which must be refused) and arrays."),
}
NOT_APPLICABLE = {}
