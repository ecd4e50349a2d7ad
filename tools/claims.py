c("C01", "property-based testing: generated modules against an independent encoder's size model",
  GEN + "hundreds of thousands of modules per run (all section kinds, padded integers, custom sections anywhere); trusts the model encoder in harness/src/wasm.rs. In a third of the cases the module is damaged in ways that the wasmparser validator accepts, and the sum is checked. Module linking, exception handling and threads are not generated.")
c("C02", "property-based testing: generated modules against a model of names and kinds",
  GEN + "names are compared as multisets together with kind and size, and tied to the right entry through exports, element segments and types.")
c("C03", "property-based testing: generated modules against a model of references and entry points",
  GEN + "items are matched by name and size. The recorded finding on address lookup is modelled exactly, so any other deviation on the same addresses is still reported.")
c("C04", "property-based testing: generated item graphs and modules, unreachable items by brute-force search",
  GEN + "every row, limit, remainder, total and percentage is recomputed; which of equally large items are shown is left open.")
c("C05", "property-based testing: generated graphs against dominators by node deletion",
  GEN + "graphs of nine shapes up to 150 items (chains, trees, ladders, irreducible loops, dense, disconnected), built through the API or parsed from modules; the oracle deletes each item and recomputes reachability.")
c("C06", "property-based testing: generated graphs against retained sizes by node deletion",
  GEN + "same graphs as C05; the oracle deletes each item and adds up what became unreachable.")
c("C07", "property-based testing: generated graphs, selections and limits; the report is replayed against the brute-force dominator tree",
  GEN + "rows are consumed one by one against the set of rows allowed next, so ties may come in any order; where items share names the whole forest is compared; all three formats.")
c("C08", "property-based testing: generated item sets and limits against a sorted reference",
  GEN + "ties may come in any order; remainder, total and percentages are recomputed.")
c("C09", "property-based testing: generated graphs, selections and limits; the report is replayed against the reference relation",
  GEN + "rows are consumed one by one against the entries allowed next (at most 4000 rows per report); where items share names the whole forest is compared; all three formats.")
c("C10", "property-based testing: generated instantiations against recomputed groups, bloat, limits and totals",
  GEN + "the generic of each function is known by construction; ties may come in any order.")
c("C11", "property-based testing: generated symbols with known readable forms, and a differential against the demanglers",
  GEN + "legacy Rust, v0 and C++ symbols built from known parts, mutated and hostile symbols, plain names; the generic and the hash are known by construction. rustc_demangle and cpp_demangle are trusted for the richer symbols.")
c("C12", "property-based testing: generated pairs of versions against recomputed per-name differences, swap and self-diff relations",
  GEN + "versions are derived from each other by dropping, resizing, renaming, adding and reordering items, or are two generated modules.")
c("C13", "property-based testing: generated hostile names, strict JSON/CSV/table readers, names read back compared with the item names",
  GEN + "names mix quotes, backslashes, control characters, separators, box-drawing characters and non-ASCII text; text tables only without line breaks.")
c("C14", "property-based testing: the three formats of one generated report compared row by row (metamorphic)",
  GEN + "any command and options; rows that exist in one format only by design are left out.")
c("C15", "structure-aware mutation fuzzing with all reports on what still parses",
  GEN + "damage is placed inside intact framing; run with overflow checks; long chains run on a small stack. The recorded finding on the depth limit of paths is probed on every run.")
c("C16", "structure-aware mutation fuzzing of generated object files with all reports on what still parses",
  GEN + "damage inside debug sections, in headers and section tables, cut files and bytes behind a magic number, for ELF, Mach-O, PE, COFF and wasm containers; impossible allocations are observed by the harness's allocator. The recorded crash inside a dependency is identified by its source line and probed on every run.")
c("C17", "property-based testing: generated DWARF descriptions against the functions the generator put there",
  GEN + "DWARF 2-5, both byte orders, four address sizes, nesting, several units, all usual forms, seven containers. Linked files with UTF-8 names.")
c("C18", "property-based testing: generated containers under generated modes, names and extensions, compared with the parser the rule selects",
  GEN + "wasm, ELF, Mach-O, PE, COFF and other content under all modes and many file names; extension spelling in any case, several dots, none.")
c("C19", "property-based testing of the program: generated command lines, inputs and destinations against the library's result",
  GEN + "exit status, standard output, standard error and the destination file of the real program; missing, unreadable, malformed, full and unwritable inputs and destinations. The recorded crash inside clap is identified by its message.")
c("C20", "stateful property-based testing: generated sequences of analyses on shared items against fresh copies",
  GEN + "sequences of up to 7 (thorough 12) analyses on two shared inputs, results emitted immediately, later, and again at the end.")
c("C21", "metamorphic property-based testing: command line in many spellings, setters and defaults compared",
  GEN + "every option of every command in generated spellings (long, short, joined, `=`, any order), setters of the library, and defaults as documented.")
c("C22", "stateful property-based testing of the wasm32 build: generated call histories run by node, compared with the command line",
  GEN + "histories over several modules and option objects; the calls are those wasm-bindgen would generate, made by hand (no wasm-bindgen tool is installed). Item arguments of dominators, monos and diff cannot be set through the web API.")
c("C23", "property-based testing: generated names and patterns with meanings stated in the harness",
  GEN + "literal names, and patterns of eleven forms (anchored, substring, prefix, suffix, alternatives, wildcard, length, class); invalid patterns with and without --regex.")
c("C24", "model-based property testing: generated range registrations and lookups against a list of ranges",
  GEN + "the recorded finding (first range starting at or after the address) is modelled exactly, so any other deviation is still reported.")
c("C25", "model-based property testing: generated sequences of additions to the graph builder against a plain model",
  GEN + "up to 12 items, ids over the whole range, repeated edges, self edges, equal and odd names.")
c("C26", "fault injection under property-based testing: generated reports on destinations that fail or dawdle at generated points",
  GEN + "every kind of report in every format; short writes, interruptions, failures at any byte (permanent, once, by error or by taking nothing). What a failed destination has received is not specified.")
c("C27", "metamorphic property-based testing: the same command repeated on fresh copies, in other threads, processes and places",
  GEN + "graphs, modules and object files with many equal sizes and nearly equal names; every command and option; three runs in the process, sometimes one in another thread, sometimes two new processes with generated environments.")
