import json
P=[]
def add(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":mech}
    if state: a["state"]=state
    if observe: a["observe_at"]=observe
    if hook: a["hook_needed"]=hook
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":qtext},why_tests_cant=why,anchors=a))
def m(name,where): return {"name":name,"where":where}
RT="crates/planus/src/"
CG="crates/planus-codegen/src/"

add("C01","Whatever is built with a Builder reads back as exactly what was written",
 "For every supported schema and every sequence of build operations on any number of independent builders (owned values, the builder API, values nested inside one another, and already-serialized offsets shared between any number of parents, finished any number of times and reused after clearing), each finished buffer, read through the generated accessors and through conversion to the owned types, yields exactly the values that were supplied: absent optional fields are absent, omitted fields have their defaults, and every scalar, string, vector, struct, table, enum and union keeps its value, order and variant. An independent FlatBuffers decoder that knows only the schema reads the same values. Builders used side by side never influence each other.",
 ["histories","inputs","programs","configurations"],
 "over generated schemas, generated values, every interleaving of create / nest / share / finish / clear / replace operations on several builders, every style of passing a value that the API offers, initial capacities, and hash behaviour of the internal caches",
 "The tests serialize a handful of fixed values with a fresh or once-cleared builder; they do not reuse a builder over long histories, share offsets between parents, run builders side by side, or control hash collisions, and for most schemas compare only with a recorded byte dump.",
 [RT+"builder.rs",RT+"backvec.rs",RT+"builder_cache.rs",RT+"table_writer.rs",RT+"table_reader.rs",RT+"impls/",CG+"templates/rust/",CG+"rust/mod.rs","crates/planus-translation/src/intermediate_language/translation.rs"],
 [m("back-to-front buffer with growth",RT+"backvec.rs"),m("delayed padding bookkeeping",RT+"builder.rs prepare_write"),m("vtable emission and lookup",RT+"table_writer.rs, "+RT+"table_reader.rs"),m("generated create/prepare/accessor code",CG+"templates/rust/*.template"),m("vtable slots, default values, field order",  "crates/planus-translation/src/intermediate_language/translation.rs")],
 observe=["bytes returned by Builder::finish","values returned by the generated Ref accessors, TryFrom<Ref> and Vector/UnionVector"],hook=False)

add("C02","Every finished buffer is a well-formed, correctly aligned FlatBuffer",
 "Whatever operations preceded it on the builder, every buffer returned by finish is a valid FlatBuffer by the published binary format: the root offset, every table, vtable, vector, string, struct and union lies inside the buffer, every scalar, offset, struct and vector element sits at a multiple of its alignment from the start of the buffer (including alignment forced by the schema), fields of one table do not overlap, strings are valid UTF-8 with a terminating zero, union type and value come in pairs, and a requested file identifier is at bytes 4 to 7. A buffer therefore passes the verifier of any conforming implementation.",
 ["histories","inputs","programs","configurations"],
 "over generated schemas and values, build histories (several finishes on one builder, garbage left by abandoned objects, any initial capacity), all ways of passing vectors and arrays, and presence or absence of a file identifier",
 "Tests compare a few buffers with recorded dumps and (when flatc is installed) with flatc; alignment depends on everything written before, so a sample of histories cannot settle it.",
 [RT+"builder.rs",RT+"table_writer.rs",RT+"impls/slice.rs",RT+"impls/array.rs",RT+"impls/str.rs",RT+"impls/byte_slice.rs",CG+"templates/rust/","crates/planus-translation/src/intermediate_language/translation.rs"],
 [m("alignment promises folded into delayed_bytes/alignment_mask",RT+"builder.rs"),m("alignment order of table fields","crates/planus-translation/src/intermediate_language/translation.rs"),m("vector and string layout",RT+"impls/")],
 observe=["bytes returned by Builder::finish"],hook=False)

add("C03","Serialized bytes depend only on what was written since the last clear",
 "The bytes returned by finish are a function of the sequence of build operations since the builder was created or last cleared. They do not depend on the random seed or collision behaviour of the internal hash tables, on the initial capacity or on reallocations, on what the builder was used for before clear, on other builders, on the thread or process, or on uninitialised memory (every byte of the buffer, padding included, is determined).",
 ["histories","schedules","configurations","inputs"],
 "over build histories replayed under different hash seeds and collision patterns, capacities, prior histories followed by clear, allocator fill patterns, interleavings with other builders, and processes",
 "Each test run uses one random hash seed and one history; nondeterminism that appears only for some seeds, collision patterns or earlier contents is not visible to it.",
 [RT+"builder.rs",RT+"builder_cache.rs",RT+"backvec.rs",RT+"table_writer.rs",RT+"impls/",CG+"templates/rust/struct.template"],
 [m("randomly seeded caches",RT+"builder_cache.rs"),m("Builder::clear",RT+"builder.rs"),m("padding bytes",RT+"backvec.rs extend_with_zeros, "+CG+"templates/rust/struct.template")],
 observe=["bytes returned by Builder::finish under two executions of one history"],hook=False)

add("C04","Sharing caches store equal content once and never mix up different content",
 "With the caches on (the default), all equal strings, all equal byte vectors and all equal vtables written between two clears occupy exactly one place in the buffer, however often, in whatever order and through whichever API they were created; with a cache off, or for different content, even if one is a prefix of the other, differs only in length, has the same bytes but another kind (string or byte vector), or collides in the hash table, no reference ever reads another value's content. Clearing a builder forgets all cached content.",
 ["histories","inputs","configurations"],
 "over build histories with repeated, nearly equal and colliding content, hash behaviours from uniform to all-equal, cache growth and rehash, intervening clears, finishes and buffer reallocations",
 "Tests check one fixed example per cache with a random hash seed; collisions in a 64-bit hash, rehashing after growth of the buffer and stale entries after clear are not reachable by sampling without controlling the hash.",
 [RT+"builder_cache.rs",RT+"builder.rs",RT+"impls/str.rs",RT+"impls/byte_slice.rs"],
 [m("hash table of back offsets compared by content",RT+"builder_cache.rs"),m("lookup before write, insert after write",RT+"impls/str.rs, "+RT+"impls/byte_slice.rs, "+RT+"builder.rs write_vtable")],
 observe=["positions of strings, byte vectors and vtables in finished buffers"],hook=False)

add("C05","Reading a damaged or hostile buffer never panics and never leaves the buffer",
 "Reading any bytes as any root type through the generated accessors, vector and union-vector views, iterators, Debug formatting and conversion to owned values either succeeds or returns an error: it never panics, never reads memory outside the given slice, and every string and slice it hands out lies inside that slice. The outcome depends only on the bytes, not on where the slice lies in memory or how it is aligned.",
 ["inputs","fault_sequences","programs"],
 "over stored buffers damaged by any sequence of storage faults (truncation, torn, lost, misdirected and duplicated writes, flipped bits, hostile edits of offsets, lengths, vtables and tags), for every root type of generated schemas, at every placement and alignment of the slice in memory",
 "The tests read valid buffers only, plus a few hand-written negative cases; a stray read of a few bytes past the end is invisible in an ordinary heap allocation.",
 [RT+"table_reader.rs",RT+"slice_helpers.rs",RT+"impls/",RT+"vectors/",RT+"union_vectors/",RT+"errors.rs",CG+"templates/rust/"],
 [m("checked offset arithmetic",RT+"table_reader.rs, "+RT+"slice_helpers.rs"),m("length check once, unchecked access per element",RT+"vectors/mod.rs, "+RT+"vectors/vector.rs, "+RT+"union_vectors/union_vector.rs"),m("tag dispatch",CG+"templates/rust/union.template")],
 observe=["return values, panics and memory faults of reading a slice placed against an inaccessible page"],hook=False)

add("C06","Vectors, union vectors and their iterators behave as fixed sequences",
 "A vector or union-vector view over a buffer behaves like an immutable slice of its elements: indexing, first, last, splitting, chunking, reversing, copying out and every iterator over it (forwards, backwards and mixed, skipping, by chunks from either end) yields each element exactly once, in order, with exact remaining lengths at every step and an exhausted iterator staying exhausted. Invalid arguments are refused in the documented way and never yield a wrong element.",
 ["histories","inputs"],
 "over every interleaving of iterator and view operations from both ends, on vectors of every element type and length, including elements that decode to errors",
 "The tests run each method once on one or two short vectors; the defects to fear sit in sequences of calls that meet in the middle, at chunk boundaries or after exhaustion.",
 [RT+"vectors/vector.rs",RT+"vectors/iterators.rs",RT+"union_vectors/union_vector.rs",RT+"union_vectors/iterators.rs",RT+"union_vectors/mod.rs",RT+"vectors/mod.rs"],
 [m("view as base pointer and length",RT+"vectors/vector.rs, "+RT+"union_vectors/union_vector.rs"),m("double-ended iterators over views",RT+"vectors/iterators.rs, "+RT+"union_vectors/iterators.rs")],
 observe=["values, lengths and size hints returned by each call"],hook=False)

add("C07","A build that fails half way leaves the builder droppable and reusable",
 "If building is cut short at any point, because memory for the buffer cannot be allocated or because code supplying a value panics, then nothing is freed twice, leaked or left dangling, the builder can be dropped, and after clear it behaves in every respect like a new one. Previously obtained finished bytes are never altered retroactively by such a failure.",
 ["crash_points","fault_sequences","histories"],
 "over every point inside a build at which an allocation fails or a supplied value panics, in every build history, with any number of failures one after another",
 "No test makes an allocation fail or a value panic while it is being serialized.",
 [RT+"backvec.rs",RT+"builder.rs",RT+"builder_cache.rs",RT+"impls/slice.rs",RT+"impls/array.rs"],
 [m("allocate-copy-free growth",RT+"backvec.rs grow"),m("reset of all bookkeeping",RT+"builder.rs clear"),m("temporary storage of prepared elements",RT+"impls/slice.rs, "+RT+"impls/array.rs")],
 observe=["allocator history, process exit, bytes of buffers built after recovery"],hook=False)

add("C08","The array cursor never leaves an array partly initialised unnoticed",
 "A cursor over an uninitialised array can end normally only when every element has been written exactly once and in order, whatever sequence of write, split and finish produced it; a cursor dropped with elements still missing panics. Elements are never dropped by the cursor once written, never dropped twice, and an interrupted sequence never exposes an unwritten element as initialised.",
 ["histories","crash_points"],
 "over every tree of split, write, assert-size and finish operations on every array size up to a bound, completed in any order, cut off at any point by a drop or a panic",
 "Two unit tests exercise three fixed sequences, none of which fails half way.",
 ["crates/array-init-cursor/src/lib.rs","crates/array-init-cursor/src/util.rs"],
 [m("ownership transfer by split and forget","crates/array-init-cursor/src/lib.rs"),m("size-checked split","crates/array-init-cursor/src/util.rs"),m("drop panics when elements remain","crates/array-init-cursor/src/lib.rs Drop")],
 observe=["contents of the array, drop counts per element, panics"],hook=False)

add("C09","Different schema versions and implementations understand each other's messages",
 "When a schema evolves by the rules of FlatBuffers (fields appended or given new ids, fields deprecated, enum values and union variants appended, names changed) a reader generated from any version reads a buffer from a writer of any other version correctly: fields both know have the written value, fields the writer did not know read as absent or as their default, and unknown fields are ignored. The same holds for buffers laid out differently but legally by another implementation, and a value or variant unknown to the reader is reported as an error at exactly that field and nowhere else.",
 ["histories","programs","schedules","fault_sequences","inputs"],
 "over generated chains of legal schema evolutions, nodes upgraded and rolled back at any time, messages stored, forwarded, re-encoded, delayed, duplicated and reordered between nodes of different versions, and any legal layout choice of a foreign writer",
 "There is one pair of schema versions in the examples of valid files and no test that reads a buffer of one version with code generated from another, nor one with a layout planus itself would not produce.",
 [RT+"table_reader.rs",RT+"errors.rs",CG+"templates/rust/table.template",CG+"templates/rust/union.template",CG+"templates/rust/enum.template",CG+"backend_translation.rs","crates/planus-translation/src/intermediate_language/translation.rs"],
 [m("vtable lookup with absent entries",RT+"table_reader.rs access*"),m("id and slot assignment, union slots in pairs","crates/planus-translation/src/intermediate_language/translation.rs"),m("unknown enum and union tags as errors",CG+"templates/rust/enum.template, "+CG+"templates/rust/union.template")],
 observe=["values and errors returned by the accessors of each version for each delivered message"],hook=False)

add("C10","The command line never reports success for output it did not fully produce",
 "Whatever goes wrong with files or standard output during check, rust, dot, format, generate-completions or the start of view (a missing, unreadable or vanishing input or include, short or interrupted reads and writes, a full disk, a failing or closed output, death at any operation), the command exits with success only if it produced its complete correct output, and otherwise ends with a failure status and a message (where messages can be written at all), never a panic or a hang. A failure before output is written leaves an existing output file exactly as it was, inputs are never changed, harmless short or interrupted calls change nothing, and once the trouble is over the same command works again.",
 ["fault_sequences","crash_points","inputs"],
 "over every sequence of operating-system faults at every file and output operation of each subcommand, on schemas made of one or several including files",
 "The command-line tests run check on intact files only; no test makes an open, read, write or close fail.",
 ["crates/planus-cli/src/main.rs","crates/planus-cli/src/app/","crates/planus-translation/src/ctx.rs","crates/planus-translation/src/lib.rs","crates/planus-translation/src/intermediate_language/ast_map.rs"],
 [m("read of inputs and includes","crates/planus-translation/src/ctx.rs add_file"),m("generate first, then create and write the output","crates/planus-cli/src/app/rust.rs, crates/planus-cli/src/app/dot.rs"),m("formatted schema to standard output","crates/planus-cli/src/app/format.rs")],
 observe=["exit status, standard output and error, content of the output file"],hook=False)

add("C11","Command line output is reproducible",
 "For the same input files and arguments, check, rust, dot and format produce byte-identical output files, standard output, diagnostics and exit status on every run, whatever the random seeds of hash tables, the addresses of memory, the clock, the process id, the previous content of the output file and the fragmentation of reads and writes.",
 ["configurations","schedules","inputs"],
 "over runs with controlled randomness, clocks, address layouts and read/write fragmentation, on generated and existing valid and invalid schemas",
 "Each test run sees one random seed per hash table; an order that depends on it shows only by chance.",
 [CG+"backend.rs",CG+"backend_translation.rs",CG+"rust/analysis.rs",CG+"dot/mod.rs","crates/planus-translation/src/intermediate_language/","crates/planus-translation/src/ast_convert.rs","crates/planus-types/src/intermediate.rs"],
 [m("insertion-ordered declarations","crates/planus-types/src/intermediate.rs"),m("name reservation",CG+"backend.rs"),m("include closure","crates/planus-translation/src/intermediate_language/ast_map.rs")],
 observe=["output bytes and exit status of repeated simulated runs"],hook=False)

add("C12","Generated code is published only if rustfmt really formatted it",
 "When planus rust formats its output, the output file is written only if every run of rustfmt started, took the complete code that was sent to it and exited successfully, and it then contains exactly what the last run returned; noise on rustfmt's standard error alone is reported but is not a failure. If rustfmt is missing, cannot be started, dies at any point, closes its pipes early or exits with an error, planus ends with a failure status and an explanation, leaves an existing output file untouched, and never hangs or panics; with formatting off rustfmt is not needed at all.",
 ["fault_sequences","schedules","crash_points"],
 "over every behaviour of the rustfmt child process at every step of the exchange (failed spawn, early exit, early close, partial consumption, fragmented pipes, signals, exit codes, error output) in the probe and in both formatting runs, and every interleaving of the two processes",
 "No test runs the generator with a misbehaving rustfmt; the failure handling is only exercised by hand.",
 [CG+"rust/mod.rs",CG+"lib.rs","crates/planus-cli/src/app/rust.rs"],
 [m("probe, spawn, write, wait",CG+"rust/mod.rs format_string"),m("two formatting passes",CG+"lib.rs"),m("output written after generation","crates/planus-cli/src/app/rust.rs")],
 observe=["exit status, standard error, content of the output file, state of the simulated child"],hook=False)

add("C13","The buffer viewer survives and undoes every sequence of user actions",
 "In planus view, on any buffer written for the schema or for another version of it, no sequence of key presses, window resizes (down to tiny windows) and redraws ever panics or hangs; the cursor always stays inside the buffer and visible, and what is drawn is determined by the state alone: drawing again, or after any other draws, shows the same screen. The movement keys move the cursor as the help says: arrows to the neighbouring byte, row or line (with ctrl past the edges of the selected object), left and right in the object view to the line above and the first line below, Home and End to the ends, the page keys by several rows, tab to the other view; nothing else moves it. Entering a field and going back restores exactly the view before, closing a dialog leaves the view as it was, q and ctrl-c get out at once, and going back repeatedly always gets out. An error of the terminal is returned, not swallowed.",
 ["histories","schedules","inputs","fault_sequences"],
 "over every sequence of keys, resizes and draws, on generated schemas and buffers of all types, with failing terminal output at any draw",
 "There are no tests for the viewer at all.",
 ["crates/planus-inspector/src/lib.rs","crates/planus-inspector/src/ui.rs","crates/planus-inspector/src/vec_with_index.rs","crates/planus-buffer-inspection/src/"],
 [m("modal key handling and view stack","crates/planus-inspector/src/lib.rs"),m("layout arithmetic","crates/planus-inspector/src/ui.rs"),m("byte-to-object map","crates/planus-buffer-inspection/src/object_mapping.rs")],
 observe=["panics, cursor position, rendered screen, should-quit result"],hook=False)

add("C14","The buffer viewer shows exactly what is in the buffer",
 "In planus view, on any buffer written for its schema by planus or by another implementation and after any sequence of user actions: for the byte under the cursor the viewer offers exactly the objects (tables, vtables, vectors, strings, structs, offsets) of the buffer that the byte belongs to, and says so if there are none; every line shown names the right field, slot or element, shows exactly the value stored there (numbers, strings, variant names, lengths) and stands for exactly the bytes that hold it; following a pointer shows the object it leads to; every object of the buffer can be found; and the screen shows the bytes at their offsets, the selected lines, ranges and cursor of that state.",
 ["histories","inputs","programs"],
 "over generated schemas, values, writers and layouts (shared, interleaved and reordered objects), every sequence of keys and every window size",
 "There are no tests for the viewer at all.",
 ["crates/planus-buffer-inspection/src/","crates/planus-inspector/src/lib.rs","crates/planus-inspector/src/ui.rs","crates/planus-types/src/intermediate.rs"],
 [m("byte ranges and children of objects","crates/planus-buffer-inspection/src/children.rs"),m("text of objects","crates/planus-buffer-inspection/src/object_info.rs"),m("map from bytes to objects and lines","crates/planus-buffer-inspection/src/object_mapping.rs"),m("panels","crates/planus-inspector/src/ui.rs")],
 observe=["lines, ranges and interpretations of the current view","rendered screen"],hook=False)

add("C15","Damaged schema files are diagnosed and never crash the tools",
 "Whatever storage does to schema files (writes torn at any sector, lost tails, lost, zeroed, repeated or misplaced sectors, flipped bits, one file in place of another, files of different versions side by side, missing files, edits interrupted half way), check, rust, dot and format each end with success or with a failure and a message, never with a panic, a hang or a fatal signal. A message names a file that takes part and a line that exists in it. A refused schema produces no output at all, and check accepts and reports exactly what rust and dot accept and report.",
 ["fault_sequences","inputs","configurations"],
 "over every sequence of storage faults and interrupted edits on sets of one or several including schema files, under all command-line flags and any fragmentation of reads",
 "The tests hold a few dozen hand-written invalid schemas, all intact text, each checked on its own.",
 ["crates/planus-lexer/src/","crates/planus-translation/src/","crates/planus-types/src/","crates/planus-cli/src/app/",CG+"backend_translation.rs"],
 [m("lexer and parser with recovery","crates/planus-lexer/src, crates/planus-translation/src/cst_convert"),m("declarations and descriptions kept in step","crates/planus-translation/src/intermediate_language/translation.rs"),m("reports with spans","crates/planus-translation/src/ctx.rs, crates/planus-translation/src/error.rs")],
 observe=["exit status, standard output and error, output files"],hook=False)

add("C16","planus view gives the terminal back",
 "However a planus view session ends (the user quits, a terminal call fails at any point including while the terminal is being set up, a write to the terminal fails, or the viewer panics), the terminal is afterwards in the mode in which it was found, on the main screen, with a visible cursor; if the terminal refuses one of these restoring operations, the others still happen. Nothing is drawn on the main screen. A session that ends in an error exits with a failure status and its message appears after the terminal has been restored; a session without trouble exits successfully and leaves nothing behind.",
 ["fault_sequences","histories"],
 "over every buffer (intact, damaged or foreign), every sequence of keys, window sizes and idle times, and every failing terminal call or write in any phase of the session, alone or in combination",
 "There are no tests for the viewer; no test can make a terminal call fail at a chosen point.",
 ["crates/planus-inspector/src/app.rs","crates/planus-cli/src/app/view.rs"],
 [m("setting up and restoring the terminal","crates/planus-inspector/src/app.rs"),m("panic hook that restores first","crates/planus-inspector/src/app.rs")],
 observe=["mode of the terminal, current screen, cursor, text on the main screen, exit status"],hook=False)

# not applicable
add("C20","Schemas are accepted and rejected exactly by the language rules",
 "Every schema that follows the supported FlatBuffers schema language is accepted and translated with the meaning the language gives it, and every other schema is rejected with an error message at the offending place.",
 ["programs"],"over all schema texts","The tests hold a few dozen valid and invalid files.",
 ["crates/planus-lexer/src/","crates/planus-translation/src/ast_convert.rs","crates/planus-translation/src/intermediate_language/translation.rs"],
 [m("lexer, parser, type check","crates/planus-lexer/src, crates/planus-translation/src")])
add("C21","Formatting a schema keeps its meaning and is stable",
 "Formatting a valid schema yields a schema with the same declarations, comments and meaning, and formatting the result again changes nothing.",
 ["programs"],"over all schema texts","No formatting test is run at all.",
 ["crates/planus-translation/src/pretty_print.rs","crates/planus-types/src/cst.rs"],
 [m("pretty printer","crates/planus-translation/src/pretty_print.rs")])
add("C22","Generated code always compiles, with unique names",
 "For every accepted schema the generated Rust code compiles, whatever names, namespaces, keywords and name clashes the schema contains.",
 ["programs"],"over all accepted schemas","The tests compile a few dozen schemas.",
 [CG+"rust/mod.rs",CG+"backend.rs",CG+"templates/rust/"],
 [m("name reservation",CG+"backend.rs")])
add("C23","The dot output describes exactly the declarations of the schema",
 "planus dot emits a syntactically valid graph with one node per declaration and one edge per reference between declarations.",
 ["programs"],"over all accepted schemas","One recorded example.",
 [CG+"dot/mod.rs",CG+"templates/dot/"],[m("dot backend",CG+"dot/mod.rs")])
add("C24","Every string literal, number and docstring of a schema is carried over exactly",
 "Literals (escapes, numeric bases, limits), default values and docstrings of an accepted schema appear in the generated code with exactly the value they denote.",
 ["programs"],"over all literals","A few literals are tested.",
 ["crates/planus-translation/src/ast_convert.rs","crates/planus-lexer/src/text_lexer.rs"],
 [m("literal conversion","crates/planus-translation/src/ast_convert.rs")])
open("properties.jsonl","w").write("".join(json.dumps(p)+"\n" for p in P))
