#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

FIX = "The existing tests run the CLI on about twenty fixed binaries and compare the whole output with stored text; "

p("C01", "Every byte of a wasm file is attributed to exactly one item",
  "For every well-formed core WebAssembly module that has functions, the sizes of the items add up to exactly the length of the file. Each function, type, import, table, memory, global, export, element segment, data segment and custom section has the size of its own encoding (a function: its body, length prefix included, plus its type-index entry), and the remaining bytes of every section belong to that section's \"headers\" item. This does not depend on how integers are padded, on section order of custom sections, or on which optional sections exist.",
  ["inputs"], "all well-formed modules: any mix of sections, entry counts, LEB128 paddings, custom sections anywhere",
  FIX + "none checks that the sizes add up, and no fixture has padded integers, passive segments, multi-value types, or zero-length entries.",
  ["parser/wasm_parse/mod.rs", "ir/ir.rs"],
  [("size of each entry measured as consumed bytes", "parser/wasm_parse/mod.rs iterate_with_size"), ("header item gets section size minus entries", "parser/wasm_parse/mod.rs ModuleReader::parse_items"), ("function and code sections merged", "parser/wasm_parse/mod.rs (FunctionSection, CodeSection)::parse_items")],
  ["twiggy_parser::parse", "twiggy top -f json"],
  [("size_added", "bytes attributed so far", "ir/ir.rs ItemsBuilder")])

p("C02", "Wasm items carry the right names and kinds",
  "For every well-formed module each item is reported under the name that identifies it: functions by their (demangled) entry in the name section or else `code[i]`, data segments by their name-section entry or else `data[i]`, imports by module and field, exports by field, types by their signature, and the other entries and sections by their index or section name. A function or data name is attached to exactly the entry its index denotes, imported functions counted first. Only functions are treated as code and only data segments and globals as data.",
  ["inputs"], "all well-formed modules with any number of imports, any (partial) name section anywhere in the file",
  FIX + "name attachment is only seen on toolchain-produced modules with complete function names and few imports.",
  ["parser/wasm_parse/mod.rs", "ir/ir.rs"],
  [("name section lookup offset by imported functions", "parser/wasm_parse/mod.rs parse_names_section, count_imported_functions"), ("signature rendering", "parser/wasm_parse/mod.rs TypeSectionReader::parse_items")],
  ["twiggy_parser::parse", "twiggy top"])

p("C03", "The item graph contains exactly the references in the module",
  "For every well-formed module the item graph has an edge from A to B exactly when A refers to B: a function to its type, to every function it calls (also in tail position) or takes a reference to, to every global it reads or writes, to the data or element segment a bulk instruction initialises from, and to the data segment that holds a constant address a scalar load reads; an export to the exported entity; the start section to its function; a table to its active element segments; an element segment to the functions it lists; a global, data or element initialiser to the globals and functions it uses. The entry points from which liveness starts are exactly the exports, the tables, the start section and the section-level bookkeeping items. References are resolved in the module's index spaces, imports first.",
  ["inputs"], "all well-formed modules: any call graph (cycles, self calls, duplicate calls), any import mix, nested blocks, any element and data segment forms",
  FIX + "edges are only observed indirectly through a few reports on small modules; index-space shifts by imports of tables, globals and memories never occur.",
  ["parser/wasm_parse/mod.rs", "ir/ir.rs"],
  [("index spaces", "parser/wasm_parse/mod.rs SectionIndices, ModuleReader::parse_edges"), ("operator scan", "parser/wasm_parse/mod.rs (FunctionSection, CodeSection)::parse_edges"), ("data lookup", "ir/ir.rs ItemsBuilder::get_data")],
  ["twiggy_parser::parse then Items::neighbors", "twiggy paths", "twiggy garbage"])

p("C04", "garbage reports exactly what is unreachable from the entry points",
  "For every binary, the garbage report covers exactly the items that no chain of references from the entry points reaches: none that is reachable and all that are not. Data segments and globals among them are summarised in one line unless asked for, the others are listed largest first up to the limit with the rest in a `... and N more` line, and the listed lines, the remainder and the totals agree with each other and with the item sizes.",
  ["inputs", "configurations"], "all item graphs and all limits, formats and --show-data-segments settings",
  FIX + "one module is used for garbage, with at most a handful of unreachable items; cycles of dead code and limits at the boundary are not covered.",
  ["analyze/analyses/garbage.rs", "ir/ir.rs"],
  [("depth-first search from the meta root", "analyze/analyses/garbage.rs get_unreachable_items"), ("split into data and other items, sort, limit", "analyze/analyses/garbage.rs garbage")],
  ["twiggy garbage in text, json and csv"])

p("C05", "The dominator tree is the true dominator tree",
  "For every item graph, item A is the parent of item B in the dominator tree exactly when A is B's immediate dominator: every chain of references from the entry points to B passes through A, and A is the closest such item. Every reachable item except the root occurs exactly once, and unreachable items do not occur.",
  ["inputs"], "all directed graphs of items with any set of entry points, including cycles, irreducible loops, unreachable parts and entry points that are referenced from inside",
  FIX + "five modules with shallow call graphs; correctness over arbitrary (irreducible, cyclic) graphs is not sampled.",
  ["ir/ir.rs", "ir/graph_impl.rs"],
  [("dominator computation over the graph view", "ir/ir.rs Items::compute_dominators, compute_dominator_tree"), ("graph view", "ir/graph_impl.rs")],
  ["Items::dominator_tree, Items::immediate_dominators", "twiggy dominators"])

p("C06", "Retained size is what removing the item would free",
  "For every item reachable from the entry points, its retained size equals its own size plus the sizes of all items that become unreachable when it is removed. The root's retained size is the total size of everything reachable, and the retained size of an unreachable item is its own size.",
  ["inputs"], "all item graphs, including shared, cyclic and unreachable parts",
  FIX + "expected outputs were recorded from the program itself, so they pin numbers but do not show that they mean what the documentation says.",
  ["ir/ir.rs"],
  [("sum over the dominator subtree", "ir/ir.rs Items::compute_retained_sizes")],
  ["Items::retained_size", "twiggy top --retained", "twiggy dominators"],
  [("retained_sizes", "cached per-item retained size", "ir/ir.rs Items")])

p("C07", "The dominators report shows the right part of the tree, in order",
  "Without arguments the report shows the whole dominator tree under the root, each item once, below its parent, siblings ordered by decreasing retained size, plus one summary of the unreachable items if they take up any bytes; with item names or patterns it shows exactly the subtrees of the selected items (those matching a pattern ordered by decreasing retained size as well), in every output format. The depth limit hides exactly the items deeper than it, and the row limit keeps exactly the first so many of the remaining rows, again in every format. The CSV column for the immediate dominator names that item, and no other item if there is none.",
  ["inputs", "configurations"], "all item graphs, all depth and row limits including 0, all selections and formats",
  FIX + "limits are tested at one or two values in text only; selections in CSV or JSON and limits combined with selections are not.",
  ["analyze/analyses/dominators/mod.rs", "analyze/analyses/dominators/emit.rs"],
  [("recursive emitters with depth and row budget", "analyze/analyses/dominators/emit.rs"), ("selection and unreachable summary", "analyze/analyses/dominators/mod.rs")],
  ["twiggy dominators in text, json and csv"])

p("C08", "top lists every item once, largest first, with consistent totals",
  "For every binary, top lists the items by decreasing size (retained size with --retained), up to the limit; the list together with the `... and N more` line covers every item exactly once, and the remainder and total lines give the exact counts and sums. Each percentage is the item's share of the file size.",
  ["inputs", "configurations"], "all item sets (equal sizes included), all limits from 0 to beyond the item count, with and without --retained, all formats",
  FIX + "two or three limits on one module; ties, limit 0 and limit = item count are not exercised.",
  ["analyze/analyses/top.rs"],
  [("sort and truncate", "analyze/analyses/top.rs top"), ("summary rows", "analyze/analyses/top.rs emit_text")],
  ["twiggy top in text, json and csv"])

p("C09", "paths lists exactly the real reference chains",
  "Below each selected item, the paths report lists exactly the items that refer to it (with --descending: that it refers to), recursively, never repeating an item within one chain and never inventing or dropping a step; a self-reference adds nothing. The depth limit cuts every chain at exactly that many steps and the path limit keeps at most that many branches below each entry. Without arguments every item is a starting point, largest first (descending: every entry point), and this holds alike in every format.",
  ["inputs", "configurations"], "all item graphs including cycles, self-references and shared callees; all depth and path limits including 0, both directions, all formats",
  FIX + "the path fixtures are almost acyclic; direct recursion, mutual recursion and limits combined with branching are not covered.",
  ["analyze/analyses/paths/mod.rs", "analyze/analyses/paths/paths_emit.rs"],
  [("recursive enumeration with a set of items on the current chain", "analyze/analyses/paths/mod.rs create_entry"), ("limits in the emitters", "analyze/analyses/paths/paths_emit.rs")],
  ["twiggy paths in text, json and csv"])

p("C10", "monos groups every instantiation once and computes bloat correctly",
  "For every binary, each function that is an instantiation of a generic appears under that generic exactly once (also when two instantiations have the same name and size), the generic's total is the sum of its instantiations, and its bloat is the smaller of (total minus largest) and (average times count minus one). Generics are ordered by bloat and instantiations by size, and under every limit the shown rows, the `... and N more.` rows and the total row account for all of them exactly.",
  ["inputs", "configurations"], "all sets of named functions, all values of -m, -n, -g, -a, --all-generics, --all-monos, all formats",
  FIX + "two modules; limits are checked at one or two values and duplicate instantiation names do not occur.",
  ["analyze/analyses/monos/mod.rs", "analyze/analyses/monos/entry.rs", "analyze/analyses/monos/emit.rs"],
  [("grouping", "analyze/analyses/monos/mod.rs collect_monomorphizations"), ("bloat formula", "analyze/analyses/monos/mod.rs calculate_total_and_bloat"), ("remainder and totals", "analyze/analyses/monos/mod.rs add_stats")],
  ["twiggy monos in text, json and csv"])

p("C11", "Function names are demangled and split into generic and instance",
  "A function with a Rust-mangled or C++-mangled symbol is shown demangled, and any other name is shown unchanged. A demangled Rust symbol ending in its hash is an instantiation of the path without the hash; any other name `X<...>...` with non-empty X is an instantiation of X; and all other names, including those that begin with `<`, are of no generic. No name of any form makes the program fail.",
  ["inputs"], "all function names: mangled Rust (legacy and v0) and C++ symbols, plain names, and arbitrary Unicode",
  FIX + "only names produced by two compilers are seen; malformed or adversarial symbols and bracket orders are not.",
  ["ir/ir.rs"],
  [("demangling", "ir/ir.rs Code::demangle"), ("generic extraction", "ir/ir.rs Code::extract_generic_function")],
  ["twiggy_ir::Code::new, Item::name, Item::monomorphization_of", "twiggy monos"])

p("C12", "diff reports every change once and the changes add up",
  "For any two binaries the diff lists, for each item name whose total size differs between them (absent counts as 0), exactly that difference, largest absolute change first; unchanged names are not listed. The total row is, without item arguments, the difference of the two file sizes, and otherwise the sum of the selected changes; the listed rows and the `... and N more.` row add up to it (for WebAssembly files, whose items cover the file). Diffing a file with itself reports nothing, and swapping the two files negates every number.",
  ["inputs", "configurations"], "all pairs of binaries (shared, renamed, added, removed and same-named items), all limits, all selections and formats",
  FIX + "one pair of modules; same-named items, ties and conservation of the total are not checked.",
  ["analyze/analyses/diff.rs"],
  [("per-name sizes and deltas", "analyze/analyses/diff.rs diff"), ("remainder and total", "analyze/analyses/diff.rs diff")],
  ["twiggy diff in text, json and csv"])

p("C13", "Reports are well-formed and names survive them intact",
  "Whatever characters the item names contain, every JSON report is one valid JSON document, every CSV report is a rectangular CSV table under the documented header, and reading the names back gives exactly the item names. The text report is (for names without line breaks) a table in which every row has the header's columns, with numeric columns right-aligned to a common width.",
  ["inputs", "configurations"], "all item names (quotes, backslashes, control characters, separators, any Unicode), all commands and formats",
  FIX + "fixture names are plain ASCII; JSON escapes and CSV quoting are never exercised.",
  ["analyze/formats/json.rs", "analyze/formats/table.rs", "analyze/analyses/top.rs", "analyze/analyses/paths/paths_emit.rs", "analyze/analyses/monos/emit.rs", "analyze/analyses/diff.rs", "analyze/analyses/garbage.rs", "analyze/analyses/dominators/emit.rs"],
  [("JSON writer", "analyze/formats/json.rs"), ("text table", "analyze/formats/table.rs"), ("CSV via csv/serde", "the emit_csv functions")],
  ["every command's output"])

p("C14", "Text, JSON and CSV tell the same story",
  "For the same input and options, the text, JSON and CSV forms of a report list the same items in the same order with the same byte counts, and the percentages agree up to the rounding of the text form and equal bytes divided by file size.",
  ["inputs", "configurations"], "all binaries and option combinations of every command",
  FIX + "each test looks at one format only, never at the agreement of two.",
  ["analyze/analyses", "traits/traits.rs"],
  [("three emitters per analysis", "analyze/analyses/*/emit*.rs, top.rs, diff.rs, garbage.rs"), ("format dispatch", "traits/traits.rs Emit::emit")],
  ["every command with -f text|json|csv"])

p("C15", "No byte sequence makes the wasm path crash",
  "For every byte sequence, parsing it as WebAssembly either yields items or returns an error, and if it yields items every report on them completes or returns an error. It never panics, aborts, reads out of bounds or overflows.",
  ["inputs"], "all byte strings: random, truncated, bit-flipped, spliced and structurally corrupted modules (indices out of range, wrong counts, overlapping lengths)",
  FIX + "all are valid modules apart from one that lacks a code section.",
  ["parser/wasm_parse/mod.rs", "parser/parser.rs", "ir/ir.rs", "analyze/analyses"],
  [("errors returned from readers", "parser/wasm_parse/mod.rs"), ("index checks", "parser/wasm_parse/mod.rs parse_edges")],
  ["twiggy_parser::parse, exit status of the CLI"])

p("C16", "No byte sequence makes the object-file path crash",
  "For every byte sequence, parsing it as an ELF/Mach-O/PE object with DWARF either yields items or returns an error, and the reports on the result complete or return an error. It never panics, aborts or overflows.",
  ["inputs"], "all byte strings, in particular mutated and truncated ELF files and DWARF sections with inconsistent offsets, lengths and attribute forms",
  FIX + "the object path is exercised on two or three well-formed binaries.",
  ["parser/object_parse/mod.rs", "parser/object_parse/compilation_unit_parse/mod.rs", "parser/object_parse/die_parse/mod.rs", "parser/object_parse/die_parse/location_attrs.rs"],
  [("fallible readers", "parser/object_parse"), ("size arithmetic", "parser/object_parse/die_parse/location_attrs.rs")],
  ["twiggy_parser::read_and_parse in dwarf mode"])

p("C17", "DWARF functions are listed once each with their true name and size",
  "For every linked object file (its debug sections need no relocation) with DWARF debug information and UTF-8 names, every function definition described by it becomes exactly one item, whose size is its end address minus start address, or the sum of its address ranges, and whose name is its (demangled) linkage name (before DWARF 4: the vendor attribute for it), else its plain name. Declarations, inlined-only functions, entries without an extent and other debug entries produce no item, and this does not depend on nesting depth, number of compilation units, byte order, address size or how the attributes are encoded.",
  ["inputs"], "all DWARF 2-5 descriptions using the standard attribute forms: nested scopes, several units, both byte orders, absolute and relative end addresses, contiguous and split functions",
  FIX + "a couple of compiler-produced files, little-endian 64-bit only.",
  ["parser/object_parse/mod.rs", "parser/object_parse/compilation_unit_parse/mod.rs", "parser/object_parse/die_parse/item_name.rs", "parser/object_parse/die_parse/location_attrs.rs"],
  [("walk over the debug entries of each unit", "parser/object_parse/compilation_unit_parse/mod.rs"), ("size from low/high pc or ranges", "parser/object_parse/die_parse/location_attrs.rs"), ("name choice", "parser/object_parse/die_parse/item_name.rs")],
  ["twiggy_parser::read_and_parse", "twiggy top"])

p("C18", "The input format is chosen from mode, extension and content",
  "In auto mode a file is read as WebAssembly exactly when its extension is `.wasm` or its content starts with the wasm magic bytes, and as an object file otherwise; an explicit mode overrides this. For a given content, every way of selecting the same format gives the same items, whatever the file is called, and whether it is a regular file, a symbolic link or a pipe.",
  ["inputs", "configurations"], "all combinations of file name, extension, content kind and mode, for all commands",
  FIX + "the mode is passed explicitly in one test; misnamed files and conflicting extension and content are not tried.",
  ["parser/parser.rs", "traits/traits.rs"],
  [("sniffing", "parser/parser.rs sniff_wasm, parse_auto"), ("mode dispatch", "parser/parser.rs read_and_parse")],
  ["twiggy <command> --mode", "twiggy_parser::read_and_parse"])

p("C19", "The command line reports success and failure faithfully",
  "Every invocation with valid input and arguments exits 0 and writes exactly its report to standard output, or byte for byte the same report to the file given with -o (replacing old content) and nothing to standard output. Every failure (missing or malformed input, invalid pattern, unknown option, unwritable destination) exits non-zero with a message on standard error and no report. Running the same command twice gives identical bytes.",
  ["inputs", "configurations", "fault_sequences"], "all commands, option combinations, inputs and output destinations, including failing ones",
  FIX + "exit status is checked for success only, and -o is used once to a fresh file.",
  ["twiggy/twiggy.rs", "opt/opt.rs", "opt/definitions.rs"],
  [("error reporting and exit status", "twiggy/twiggy.rs main"), ("output destination", "opt/opt.rs OutputDestination::open")],
  ["the twiggy binary"])

p("C20", "Analyses do not disturb each other",
  "Any sequence of analyses on one loaded binary gives, for each of them, exactly the report that the same analysis gives on a freshly loaded copy; a result obtained earlier still emits the same bytes after later analyses, and emitting twice gives the same bytes.",
  ["histories"], "all sequences of top, dominators, paths, monos, garbage and diff with any options, on all binaries",
  FIX + "each loads a binary and runs a single analysis in its own process; the library and web API keep one loaded binary for many.",
  ["ir/ir.rs", "analyze/analyses", "wasm-api/wasm-api.rs"],
  [("cached dominators, predecessors and retained sizes", "ir/ir.rs Items::compute_*")],
  ["twiggy_analyze functions on a shared Items", "web API Items"],
  [("dominator_tree, retained_sizes, predecessors, immediate_dominators", "lazily computed caches", "ir/ir.rs Items")])

p("C21", "Options mean what the help says, however they are set",
  "Each option takes its documented default, the value given on the command line, or the value last set through the programmatic interface, and the overriding flags (-a, --all-generics, --all-monos) take effect over the limits they override. Setting a limit through the programmatic interface after an overriding flag makes exactly that limit effective and leaves the other options as they were.",
  ["configurations", "histories"], "all option combinations and orders on the command line and all sequences of setter calls",
  FIX + "a few option values; setters are never called by any test.",
  ["opt/definitions.rs", "opt/opt.rs", "opt/build.rs"],
  [("getters with overrides", "opt/definitions.rs"), ("setters", "opt/definitions.rs")],
  ["twiggy_opt option types", "the twiggy binary"])

p("C22", "The web API gives the same results as the command line",
  "For every module, parsing it through the WebAssembly build of the API and running top, dominators, paths, monos and diff with any option values produces exactly the JSON document that the command line produces for the same file and options.",
  ["inputs", "histories", "configurations"], "all modules, option values set through the API, and sequences of API calls",
  FIX + "the web API is only compiled, never run, by the test suite; it runs on 32-bit memory with different size types.",
  ["wasm-api/wasm-api.rs", "opt/definitions.rs", "opt/build.rs"],
  [("bindings", "wasm-api/wasm-api.rs"), ("option setters for wasm", "opt/definitions.rs (wasm.rs)")],
  ["twiggy_wasm_api.wasm exports", "twiggy -f json"])

p("C23", "Item arguments select exactly the named or matching items",
  "Given item arguments, paths, dominators, monos and diff consider exactly the items (for monos: generics) whose full name equals one of the arguments, or with --regex those in which one of the patterns matches; unknown names select nothing and are not an error, invalid patterns are an error only with --regex. A literal name selects the same as the anchored, escaped pattern for it.",
  ["inputs", "configurations"], "all item names and argument lists: several arguments, overlapping, unknown, names with pattern metacharacters, with and without --regex",
  FIX + "one or two selections per command with plain names.",
  ["analyze/analyses/paths/mod.rs", "analyze/analyses/dominators/mod.rs", "analyze/analyses/monos/mod.rs", "analyze/analyses/diff.rs"],
  [("exact and regex matching in each analysis", "get_starting_positions, dominators, collect_monomorphizations, diff"), ("lookup by name", "ir/ir.rs Items::get_item_by_name")],
  ["twiggy paths|dominators|monos|diff with item arguments"])

p("C24", "A constant address resolves to the segment that contains it",
  "For any set of non-overlapping static data ranges registered while building the graph, looking up an address yields the item of the range that contains it, and nothing if no range does. Every address from the first to the last byte of a range resolves to it, addresses just outside do not, and zero-length or out-of-range registrations never capture an address.",
  ["inputs", "histories"], "all sets of disjoint ranges within 32 bits in any registration order, all addresses",
  FIX + "only segments whose start address is loaded from directly have any effect on a fixture.",
  ["ir/ir.rs"],
  [("ordered map of ranges", "ir/ir.rs ItemsBuilder::link_data, get_data")],
  ["ItemsBuilder::link_data, get_data", "twiggy paths on data segments"],
  [("data", "start address to (item, length)", "ir/ir.rs ItemsBuilder")])

p("C25", "The item graph gives back exactly what was put into it",
  "For any items, roots and edges added to an ItemsBuilder in any order, the finished graph lists every added item exactly once, under its own id with its name, size and kind, next to the meta root; an item's neighbors are exactly the items it got an edge to (each once, however often the edge was added) and its predecessors exactly the items with an edge to it, the meta root counting as predecessor of every root; the size is the one given and size_added the sum so far; looking up a name finds an item of exactly that name, and nothing for unknown names. Different sections and entries have different ids, also in serialized form, and none has the meta root's.",
  ["inputs", "histories"], "all sets of items with ids up to the largest possible, all edge relations, all orders of adding them",
  FIX + "the graph interface is only exercised through whole reports on ten fixtures.",
  ["ir/ir.rs"],
  [("graph builder", "ir/ir.rs ItemsBuilder"), ("graph access", "ir/ir.rs Items::iter, neighbors, predecessors, get_item_by_name, Index"), ("ids", "ir/ir.rs Id::section, entry, serializable")],
  ["twiggy_ir::ItemsBuilder, Items, Item, Id"])

p("C26", "A report arrives completely or its failure is reported",
  "For every report in every format and every destination: if the destination takes the report in pieces of any size, with interruptions, it receives exactly the report; and if the destination fails at any byte of the report, permanently or once, emitting the report returns an error instead of success (it never panics).",
  ["inputs", "fault_sequences"], "all reports and formats, every byte at which the destination can fail, all sequences of short and interrupted writes",
  FIX + "no test writes to a destination that fails or takes less than it is offered.",
  ["traits/traits.rs", "analyze/formats/json.rs", "analyze/formats/table.rs", "analyze/analyses"],
  [("dispatch to the formats", "traits/traits.rs Emit::emit"), ("JSON writer", "analyze/formats/json.rs"), ("CSV and text writers", "emit_csv, emit_text in analyze/analyses")],
  ["twiggy_traits::Emit::emit"])

p("C27", "The same input and options always give the same report",
  "For every readable input and every command with any options and format, the report is determined by the content of the input files and the options alone. Reading the same content again and running the same command gives the same bytes: in the same process however often and after whatever other inputs, in another thread, in a new process with other environment variables or another current directory, and from a copy of the file under another path with the same extension. This includes the order of rows of equal size and of changes of equal amount.",
  ["inputs", "histories"], "all inputs and command lines; repeated runs in one process, in several threads and in several processes",
  FIX + "each test runs a command once on small files, and the order of a hash table differs from run to run.",
  ["analyze/analyses", "ir/ir.rs", "parser", "twiggy/twiggy.rs"],
  [("sets and maps of names", "analyze/analyses/diff.rs"), ("sorting by size", "analyze/analyses/top.rs, garbage.rs, dominators/emit.rs, paths, monos"), ("numbering of items", "parser/wasm_parse/mod.rs, parser/object_parse")],
  ["twiggy top", "twiggy dominators", "twiggy paths", "twiggy monos", "twiggy diff", "twiggy garbage"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
