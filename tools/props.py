"""The properties, their anchors and how each is decided."""


def P(id, title, statement, over, q, why, files, mech, technique=None, note=None, na=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": q},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}}
    if na:
        d["na"] = na
    else:
        d["technique"], d["level_note"] = technique, note
    return d


TRUST = " Trusted: clang's lowering to IR, the IR reader and the contracts listed under assumptions in the evidence file."

PROPS = [
    P("C01", "Running out of memory is always reported, never a crash",
      "Whenever any single allocation made by the library fails, the failure is noticed before the missing memory is used "
      "and the caller is told that memory ran out through the library's error mechanism. The failed allocation's result is "
      "never dereferenced, stored where later code will use it, or handed to code that needs it.",
      ["fault_sequences", "inputs"], "every allocation site on every input and call sequence",
      "the random allocation failure test samples a few sites in a few calls; each site must be safe for every caller",
      ["src/handlebars_memory.c", "src/handlebars_string.c", "src/handlebars_map.c", "src/handlebars_stack.c",
       "src/handlebars_closure.c", "src/handlebars_opcode_serializer.c", "src/handlebars_vm.c"],
      [("check after each allocation", "src/handlebars_memory.h HANDLEBARS_MEMCHECK"),
       ("allocation hooks", "src/handlebars_memory.c")],
      "interprocedural null-flow analysis over LLVM IR",
      "Sound for the null-flow abstraction over every path of every function; allocation inside json-c, libyaml, LMDB and talloc "
      "itself is outside." + TRUST),
    P("C02", "Absent or mistyped data never dereferences a missing value",
      "Rendering any template against any data never dereferences something that was not there: a missing map key, an array "
      "index out of range, an unset variable, a missing helper or partial, a value of an unexpected type, or an argument the "
      "template did not pass. Absence is tested on every path before the result is used.",
      ["inputs", "programs"], "all templates and data documents",
      "the spec suites exercise the combinations their authors thought of; absence can occur at any lookup",
      ["src/handlebars_vm.c", "src/handlebars_helpers.c", "src/handlebars_value.c", "src/handlebars_json.c",
       "src/handlebars_yaml.c", "src/handlebars_partial_loader.c"],
      [("lookups returning null", "src/handlebars_value.c handlebars_value_map_find, handlebars_value_array_find"),
       ("argument count checks", "src/handlebars_helpers.c")],
      "interprocedural null-flow with linear reasoning over container bounds",
      "Every library function is analysed path-insensitively with path facts; kinds of AST nodes are trusted to match their "
      "dispatch." + TRUST),
    P("C03", "Interpolated values are HTML-escaped unless asked otherwise",
      "When a template is rendered with escaping in effect, every string interpolated by a plain mustache - including strings "
      "inside arrays and strings returned by helpers - has each of & < > \" ' and ` replaced by its HTML entity. Only a raw "
      "mustache, the no-escape flag, or a value explicitly marked safe by the application bypasses this, and the library never "
      "marks a value safe on its own.",
      ["inputs", "programs", "configurations"], "all templates, data values and compiler flags",
      "the spec suites check a handful of strings; an unescaped path for one character, value kind or flag combination is a "
      "security hole whatever the samples say",
      ["src/handlebars_string.c", "src/handlebars_value.c", "src/handlebars_compiler.c", "src/handlebars_vm.c",
       "src/handlebars_ast_helpers.c"],
      [("entity table", "src/handlebars_string.c handlebars_string_htmlspecialchars_append"),
       ("escape decision", "src/handlebars_value.c handlebars_value_expression_append"),
       ("opcode selection", "src/handlebars_compiler.c handlebars_compiler_accept_mustache")],
      "path-sensitive dataflow, constant propagation per character",
      "Decides every path of the functions the escape setting reaches; copying functions are trusted to copy their content "
      "argument." + TRUST),
    P("C04", "A value's kind always matches what it holds",
      "A handlebars_value's kind and its content never disagree: every assignment sets both the kind and the matching member "
      "together and clears flags left from the previous content, and content is only read as the kind it is after that kind "
      "has been established. This holds for every accessor, conversion, comparison, iteration and copy.",
      ["inputs", "histories"], "every value, every sequence of assignments and reads",
      "a mismatched read only misbehaves for the kinds a test did not combine, and often silently",
      ["src/handlebars_value.c", "src/handlebars_value_handlers.h", "src/handlebars_json.c", "src/handlebars_yaml.c",
       "src/handlebars_vm.c", "src/handlebars_helpers.c"],
      [("tagged union", "src/handlebars_value.c struct handlebars_value"),
       ("kind checks before reading", "src/handlebars_value.c")],
      "abstract interpretation of tag and payload per path (typestate)",
      "Every path of every function that reads or writes a value's members; callers of accessors with a required kind are "
      "checked interprocedurally." + TRUST),
    P("C26", "Shared objects are referenced and released exactly once",
      "Strings, maps, stacks, pointers, closures and user objects are reference counted and the counts stay exact: assigning to "
      "a value takes exactly one reference on the new content and releases the previous content exactly once, in that order; "
      "the counters count up by one, down by one, destroy at zero and never wrap; a temporary value or reference taken inside "
      "a function is released on every normal exit.",
      ["inputs", "histories"], "every path of every assignment, counter and temporary",
      "a lost or extra reference is a leak or use after free that surfaces only much later, in another owner",
      ["src/handlebars_value.c", "src/handlebars_rc.h", "src/handlebars_string.c", "src/handlebars_map.c",
       "src/handlebars_stack.c", "src/handlebars_closure.c", "src/handlebars_ptr.c", "src/handlebars_vm.c",
       "src/handlebars_helpers.c"],
      [("counters", "src/handlebars_rc.h"), ("assignment", "src/handlebars_value.c handlebars_value_str, handlebars_value_value"),
       ("temporaries", "src/handlebars_value.h HANDLEBARS_VALUE_DECL / UNDECL")],
      "ownership typestate over LLVM IR, counters checked per class of count",
      "References held by values and temporaries are exact; references kept in long-lived structures belong to C27." + TRUST),
    P("C05", "Map and string lookup is decided by content",
      "Two strings compare equal exactly when they have the same length and the same bytes. Map lookup, insertion, update and "
      "removal find an entry exactly when its key equals the one asked for, whatever the hashes and collisions: a search is not "
      "cut short by removed entries and does not run past a full table. A string's hash is computed from its whole content.",
      ["inputs", "histories"], "all keys, all collision patterns, all insert/remove histories",
      "collisions and tombstones need particular hashes and histories that tests do not construct",
      ["src/handlebars_string.c", "src/handlebars_map.c"],
      [("string equality", "src/handlebars_string.c handlebars_string_eq, hbs_str_eq_strl"),
       ("hash table probing", "src/handlebars_map.c")],
      "path-sensitive dataflow over the comparison and probe loops",
      "Every path of the comparison functions and every exit of every probe loop. The hash function itself is trusted to depend "
      "on its byte range only." + TRUST),
    P("C06", "A string's cached hash always belongs to its current content",
      "A string caches its hash. Every operation that changes a string's bytes or length resets the cached hash, so that a later "
      "lookup is made with the hash of the new content; a hash stored in a string is zero, or was computed from exactly the "
      "bytes it accompanies.",
      ["inputs", "histories"], "every operation changing a string, every history of hashing and changing",
      "the stale hash only shows when the same string was hashed before the change and is used as a key after it",
      ["src/handlebars_string.c", "src/handlebars_compiler.c", "src/handlebars_helpers.c", "src/handlebars_map.c"],
      [("cached hash", "src/handlebars_string.c hbs_str_hash"), ("string edits", "src/handlebars_string.c")],
      "typestate (dirty/reset) over LLVM IR",
      "Every path of every function writing to a string, in any module. A string changed through a pointer kept elsewhere is not "
      "seen." + TRUST),
    P("C07", "A shared string, array or map is never changed in place",
      "An operation that changes a string, array or map that has more than one owner first makes a separate copy and changes "
      "that, so the other owners never observe the change; the caller receives the copy. This covers appending, trimming, "
      "truncating, replacing, setting, pushing, popping, adding, removing and sorting.",
      ["inputs", "histories"], "every mutating operation with its argument shared",
      "aliasing bugs need a second owner that looks again afterwards; unit tests mostly hold one reference",
      ["src/handlebars_string.c", "src/handlebars_map.c", "src/handlebars_stack.c", "src/handlebars_value.c"],
      [("separation", "src/handlebars_rc.h, src/handlebars_map.c, src/handlebars_stack.c, src/handlebars_string.c")],
      "path-sensitive write-effect analysis with the reference count fixed",
      "Every path of every public operation with the count pinned at two. Operations documented as unsafe, map compaction and "
      "maps under iteration are excluded." + TRUST),
    P("C27", "Containers own exactly what they hold",
      "Maps, arrays and closures own their elements: adding takes exactly one reference to the key and the value, removing or "
      "replacing releases the old one exactly once and the element count follows, destroying releases every element. A grown or "
      "separated copy holds every element; the copy gains a reference and the original loses exactly one, and callers continue "
      "with the container they were given back. A wrapped pointer frees its memory unless told not to; a user object's "
      "destructor runs once.",
      ["inputs", "histories"], "every container operation, every history",
      "a lost or doubled reference surfaces much later, in another owner, and only for particular histories of sharing",
      ["src/handlebars_map.c", "src/handlebars_stack.c", "src/handlebars_closure.c", "src/handlebars_ptr.c",
       "src/handlebars_value_handlers.c", "src/handlebars_value.c"],
      [("map entries", "src/handlebars_map.c"), ("array slots", "src/handlebars_stack.c"),
       ("callers adopting the result", "src/handlebars_value.c, src/handlebars_vm.c")],
      "ownership typestate and loop-coverage analysis over LLVM IR",
      "Every function of the container modules and every caller of an operation that may replace its argument. Loops of an "
      "unrecognised form are accepted." + TRUST),
    P("C08", "Errors reach the handler in effect and handlers are put back",
      "An error raised anywhere is recorded with its number, message and source location and jumps to the error handler in "
      "effect; functions that raise never return, and every object with a context of its own shares its creator's error state. "
      "An entry point that installs a handler puts the caller's handler back on every way out, passes a caught error on with the "
      "same number, location and message if the caller has a handler, and otherwise reports it by an empty result. A local variable "
      "changed before an error and read after it was caught keeps its value.",
      ["inputs", "fault_sequences", "histories"], "every entry point, every point at which an error can be raised",
      "tests raise few errors, from few places, and rarely use the library again afterwards",
      ["src/handlebars.c", "src/handlebars_vm.c", "src/handlebars_compiler.c", "src/handlebars_parser.c", "src/handlebars_cache.c"],
      [("raising", "src/handlebars.c handlebars_throw, handlebars_throw_ex"),
       ("handlers", "src/handlebars_vm.c handlebars_vm_execute_ex; src/handlebars_compiler.c handlebars_compiler_compile_ex")],
      "typestate of the jump target over paths and caught errors",
      "Every path of every function that catches errors, including the paths entered by a caught error with each state an earlier "
      "call may have left." + TRUST),
    P("C09", "Rendering leaves the virtual machine as it found it",
      "However a render ends - normally, or by an error in any nested partial or block - the virtual machine is left with the "
      "module, flags, recursion depth, output buffer, data variables, last context, delimiters and value stacks it had when the "
      "render started. A nested program writes to an output buffer of its own, which is exactly what its caller receives, and "
      "starts and ends with the value stacks at the same height; partial blocks are pushed and popped equally often.",
      ["inputs", "programs", "histories"], "all templates, all nesting, all points of failure",
      "leaked state only matters for what is rendered afterwards, and most tests render once with a fresh machine",
      ["src/handlebars_vm.c"],
      [("entry points", "src/handlebars_vm.c handlebars_vm_execute_ex, handlebars_vm_execute_program_ex, execute_template")],
      "typestate of each machine member over paths and caught errors",
      "Every path of the functions running programs, including those entered by a caught error. State changed by helpers of the "
      "application is theirs." + TRUST),
    P("C34", "JSON and YAML documents are imported faithfully",
      "Every node of a JSON or YAML document becomes a value of the matching kind - null, boolean, integer, float, string, array or "
      "map - holding the node's own content without truncation, at every depth. Arrays and maps hold every element under its own "
      "index or key; iterating visits each element once, in document order, with its key, and visits nothing in an empty container. "
      "Looking up a key or index gives exactly the element asked for, or nothing.",
      ["inputs"], "all JSON and YAML documents",
      "test documents are small, with keys and numbers in ordinary ranges",
      ["src/handlebars_json.c", "src/handlebars_yaml.c", "src/handlebars_value.c"],
      [("JSON", "src/handlebars_json.c handlebars_value_init_json_object"), ("YAML", "src/handlebars_yaml.c handlebars_value_init_yaml_node"),
       ("iteration", "src/handlebars_json.c, src/handlebars_value.c")],
      "path analysis with the node kind pinned, loop-coverage analysis",
      "All paths of the import and iteration functions. json-c's and libyaml's own parsing is trusted, and map order rests on the "
      "map module." + TRUST),
    P("C10", "Opcode numbers, names, operands and handlers agree",
      "Every opcode a compiled template contains is executed by the handler that acts as specified for it, or refused with an error. "
      "Opcode names are unique and lead back to the same opcode. Each operand is used as the kind of value it was compiled with, and "
      "printing an opcode shows every operand it has.",
      ["programs"], "all opcodes, all templates that compile to them",
      "a test sees the opcodes its templates compile to with the operand kinds they happen to have",
      ["src/handlebars_opcodes.c", "src/handlebars_opcodes.h", "src/handlebars_vm.c", "src/handlebars_compiler.c",
       "src/handlebars_opcode_printer.c"],
      [("names", "src/handlebars_opcodes.c handlebars_opcode_readable_type"), ("dispatch", "src/handlebars_vm.c handlebars_vm_execute_program_ex"),
       ("printing", "src/handlebars_opcode_printer.c")],
      "finite table enumeration by constant-pinned dataflow",
      "Every opcode, every emitted combination of operand kinds and every handler path; the compiler's emitting paths are found by "
      "dataflow over all its functions." + TRUST),
    P("C11", "Compiled code and its execution keep the stacks balanced",
      "Each opcode takes from and leaves on the value stack and the hash stack a fixed number of values on every path of its "
      "execution, counting parameters as its operand says, and leaves the other stacks as they were. Compiled code is balanced: an "
      "expression leaves exactly one value, a statement or a whole program none, whatever its flags, parameters, hash, blocks or "
      "partials.",
      ["programs", "configurations"], "all templates under all compiler flags",
      "imbalance only shows when values left behind are picked up by something later in the same render",
      ["src/handlebars_vm.c", "src/handlebars_compiler.c"],
      [("handlers", "src/handlebars_vm.c ACCEPT_FUNCTION"), ("emission", "src/handlebars_compiler.c handlebars_compiler_accept and its callees")],
      "effect analysis: net stack effect per path against a table",
      "All paths of all opcode handlers and of all compiler functions, with loops counted symbolically by the parameter count." + TRUST),
    P("C21", "Text is never a format, and formats get the arguments they call for",
      "Text coming from templates, data, partials or files is never interpreted as a formatting directive. Every formatting call "
      "uses a fixed format and passes exactly the arguments, of the types, that it calls for, and formatted text never exceeds the "
      "buffer it is written to. Numbers scanned out of text are used only when the scan set them.",
      ["inputs"], "every formatting and scanning call on every input",
      "tests rarely put a percent sign into names, data or error texts, and rarely format the widest number",
      ["src/handlebars_memory.c", "src/handlebars.c", "src/handlebars_string.c", "src/handlebars_value.c", "src/handlebars_compiler.c",
       "src/handlebars_vm.c", "src/handlebars_helpers.c"],
      [("errors", "src/handlebars.c handlebars_throw_ex"), ("formatted strings", "src/handlebars_string.c handlebars_string_asprintf_append")],
      "call-graph fixpoint over format parameters, format parsing",
      "Every call in the library and the command line tool that reaches a formatting function, directly or through wrappers." + TRUST),
    P("C22", "Rendering depends only on its inputs; there is no hidden global state",
      "The library keeps no mutable state outside the objects its caller owns, except the allocation test hooks, a hand-over local "
      "to the thread and constants of the machine. Parsing, compiling and rendering read no environment, clock, random source, "
      "working directory or other ambient state, apart from the clock for the age of cache entries, the files partials are loaded "
      "from and the texts of errors. No memory address is ever part of rendered output.",
      ["histories", "configurations", "schedules"], "every call sequence of any number of contexts",
      "tests run one context at a time in one environment; leakage shows only across contexts, threads or machines",
      ["src/handlebars.c", "src/handlebars_memory.c", "src/handlebars_vm.c", "src/handlebars_helpers.c", "src/handlebars_map.c"],
      [("static data", "all of src"), ("hooks", "src/handlebars_memory.c")],
      "effect analysis: static data and ambient calls over the call graph",
      "Every static variable and every function reachable from parsing, compiling and rendering; the locale used by number formatting "
      "is not covered." + TRUST),
    P("C24", "The library never ends the process nor writes to its streams",
      "No input, template or data makes the library end the process: failures are reported to the caller through the error "
      "mechanism, and the process ends only when the caller installed no error handler or misused an interface. The library writes "
      "nothing to the standard streams except through the logging helper without a configured logger, debugging output that was "
      "asked for, and a message just before such an end.",
      ["inputs", "histories"], "every template, data document and call sequence",
      "an abort on a rare path is invisible until that path runs, and then takes the host application with it",
      ["src/handlebars.c", "src/handlebars_memory.c", "src/handlebars_value.c", "src/handlebars_map.c", "src/handlebars_helpers.c",
       "src/handlebars_partial_loader.c"],
      [("errors", "src/handlebars.c handlebars_throw"), ("aborts", "src/handlebars_memory.c, src/handlebars_map.c")],
      "call-site classification with guard dataflow over the call graph",
      "Every call that ends the process or writes to a stream in every unit of the library, with the conditions guarding it." + TRUST),
    P("C17", "Database cache transactions are always ended exactly once",
      "Every transaction on the cache database is ended exactly once on every path, whatever fails: changes are committed, or rolled "
      "back with an error reported, and readers never leave one open. No failure of the database is silently dropped. Nothing read "
      "from the database is used after the transaction it was read in ended.",
      ["fault_sequences", "histories"], "every path of every cache operation, with any database call failing",
      "tests do not make the database fail; a transaction left open blocks every other process using the cache",
      ["src/handlebars_cache_lmdb.c"],
      [("transactions", "src/handlebars_cache_lmdb.c cache_find, cache_add, cache_gc, cache_reset, cache_stat")],
      "typestate analysis of transactions with path-sensitive dataflow",
      "Every path of every function of the database cache; LMDB is assumed to behave as documented." + TRUST),
    P("C15", "The shared memory cache is only written under its lock",
      "The memory shared between processes by the shared memory cache is changed only by a process holding its lock, which lifts the "
      "write protection for that long and no longer; every path, errors included, gives the lock back with the protection restored. "
      "Counters are changed atomically. Everything written stays inside the segment in room of its own, and an entry is complete "
      "before others can find it, so that looking one up or running it never needs to write.",
      ["schedules", "fault_sequences", "inputs"], "every path of every cache operation in any number of processes",
      "tests use one process and small templates; a race, a lock left held or an overrun corrupts or hangs all processes at once",
      ["src/handlebars_cache_mmap.c", "src/handlebars_string.c", "src/handlebars_opcode_serializer.c"],
      [("lock and protection", "src/handlebars_cache_mmap.c lock, unlock, protect"), ("room", "src/handlebars_cache_mmap.c append"),
       ("slots", "src/handlebars_cache_mmap.c table_set, table_find")],
      "lock and protection typestate, linear bounds reasoning",
      "Every path of every function of the shared memory cache; the order in which other processors see the stores of an entry is not "
      "covered." + TRUST),
    P("C16", "A cached template is never freed or recycled while it is in use",
      "A compiled template found in a cache stays valid until it is released, whatever collection, reset or other process intervenes, and "
      "the renderer releases every template it found exactly once, also when rendering fails, and never touches it afterwards. The "
      "bookkeeping is exact, so that a cache nobody uses can always be collected or reset. What is put into a cache "
      "does not depend on the memory of whoever put it there.",
      ["schedules", "histories", "fault_sequences"], "every interleaving of lookups, releases, collections and resets; every error while rendering",
      "tests render one template at a time without errors or memory pressure, so no entry is ever recycled while in use",
      ["src/handlebars_vm.c", "src/handlebars_cache_mmap.c", "src/handlebars_cache_simple.c", "src/handlebars_cache_lmdb.c"],
      [("use", "src/handlebars_vm.c execute_template"), ("pins", "src/handlebars_cache_mmap.c cache_find, cache_release, cache_reset"),
       ("collection", "src/handlebars_cache_simple.c cache_gc")],
      "typestate analysis with error paths, pin counting dataflow",
      "Every path of the renderer's use of a cache and of every cache operation, including the paths of caught errors; templates an "
      "application finds itself are its own business." + TRUST),
    P("C13", "Only intact templates come out of a cache",
      "A template kept in the database cache is used again only if its record is complete, its checksum covers and matches everything in "
      "it, and it was stored by the same version of the library. A record that is short, damaged or foreign is a miss, never a crash. "
      "Templates are stored independent of memory addresses and sealed last, and relocated to where they are found.",
      ["inputs", "histories", "crash_points"], "every record that may be in the database, of any length and content; every lookup",
      "tests read back only what the same process has just written",
      ["src/handlebars_cache_lmdb.c", "src/handlebars_opcode_serializer.c", "src/handlebars_cache_mmap.c"],
      [("lookup", "src/handlebars_cache_lmdb.c cache_find"), ("storing", "src/handlebars_cache_lmdb.c cache_add"),
       ("checksum", "src/handlebars_opcode_serializer.c handlebars_module_generate_hash, handlebars_module_verify")],
      "path-sensitive must-precede analysis with linear bounds",
      "Every path of lookups, additions and checksum functions. That the checksum function itself detects damage is the trusted hash's "
      "business." + TRUST),
    P("C14", "Expired templates are not served",
      "With a maximum age set, a lookup of the database or the shared memory cache returns a template only if, by the clock read in the "
      "same call, its age is less. Collecting passes over no expired template, and the in-process cache goes through its templates "
      "oldest first. The time of a template is the one at which it was compiled, or last used for the in-process cache.",
      ["inputs", "histories"], "every age, every maximum age, every state of the caches",
      "tests use a maximum age of zero or wait a second; they cannot sample all orders of lookup, collection and clock",
      ["src/handlebars_cache_lmdb.c", "src/handlebars_cache_mmap.c", "src/handlebars_cache_simple.c", "src/handlebars_opcode_serializer.c"],
      [("lookups", "src/handlebars_cache_lmdb.c, src/handlebars_cache_mmap.c cache_find"), ("collection", "cache_gc of the back ends")],
      "path-sensitive dataflow",
      "Every path of the lookups and collections; the clock is assumed not to go backwards." + TRUST),
    P("C18", "A cached template is used only for its own text and options",
      "Whatever cache is used, a partial or lambda result is rendered from a cached template only if that template was compiled from exactly "
      "the text to be rendered, after preprocessing, and under the renderer's own options. Templates whose keys or hashes coincide are "
      "told apart by comparing the whole text. A template is stored only under the text it was compiled from.",
      ["inputs", "histories"], "every sequence of renderings with any texts and options sharing a cache, including texts with equal hashes",
      "tests use a few short templates under one set of options; they never meet a collision or a shared cache",
      ["src/handlebars_vm.c", "src/handlebars_cache_lmdb.c", "src/handlebars_cache_mmap.c", "src/handlebars_cache_simple.c",
       "src/handlebars_opcode_serializer.c", "src/handlebars_compiler.c"],
      [("renderer", "src/handlebars_vm.c execute_template"), ("keys", "cache_find and cache_add of the back ends"),
       ("options", "src/handlebars_opcode_serializer.c handlebars_program_serialize")],
      "path-sensitive value tracking",
      "Every path of the renderer's use of a cache and of lookups and additions. Templates an application puts into a cache itself are "
      "its own business." + TRUST),
    P("C12", "A serialized template is complete and can be moved",
      "The block that holds a serialized template holds everything counted for it and nothing beyond, each program with all its operations "
      "and a final return, and each sub-program under the number that operations refer to it by. Every pointer inside the block points "
      "into the block, and moving the block to another address adjusts each of them exactly once, whatever the kind of operand.",
      ["inputs"], "every program that can be compiled, whatever its operations, operands and nesting, and every pair of addresses",
      "tests serialize a few templates and seldom move one; an operand kind or position they lack stays behind",
      ["src/handlebars_opcode_serializer.c"],
      [("write", "src/handlebars_opcode_serializer.c handlebars_program_serialize"),
       ("move", "handlebars_module_normalize_pointers, handlebars_module_patch_pointers")],
      "interprocedural effect summaries compared symbolically",
      "Sizes, loops and conditions are compared as expressions over the program being serialized, for all programs at once. Blocks over "
      "4 GB are out of reach of the allocator in use." + TRUST),
    P("C19", "Fixed-size tables and buffers are never overrun",
      "Every access to a table, local buffer or array of fixed size lies inside it, whatever the depth of nesting, the length of names and "
      "strings, or the values met: what would not fit is refused with an error or cut off. A block copied into or cleared in such a buffer is "
      "never longer than the buffer, and a program or operand is taken by a number only if there are that many. Memory taken from the machine stack within one function call has a size that does not depend on the input.",
      ["inputs"], "every template nesting, every escape sequence, every path name length and every dumped or printed structure",
      "tests nest a few levels and use short names; the limits of 16, 64 or 128 elements are not reached",
      ["src/handlebars_compiler.c", "src/handlebars_string.c", "src/handlebars_value.c", "src/handlebars_ast_printer.c", "src/handlebars_helpers.c", "src/handlebars_vm.c"],
      [("stack limits", "src/handlebars_compiler.c handlebars_compiler_accept, handlebars_compiler_block_param_index"),
       ("escapes", "src/handlebars_string.c handlebars_string_stripcslashes"), ("padding", "src/handlebars_ast_printer.c __PAD_HEAD")],
      "range analysis with member invariants and linear arithmetic on LLVM IR",
      "The range of each index or length is derived from how it is made, the comparisons that hold there, constant tables and invariants of "
      "members proved over all stores. Sums are taken not to wrap, and the generated lexer and parser tables are left out. Depth of recursion is "
      "not bounded." + TRUST),
    P("C23", "A path leads to the value it names, or to nothing",
      "A path with a part that is not there yields nothing, never the value found for the parts before it. A path that goes up levels "
      "starts at exactly the level it names, and nowhere when there are not that many; the outermost context is the one rendering started with; "
      "a search through the contexts goes from the innermost outwards. A part of a path is taken as a position in an array only if all of it is a number.",
      ["inputs"], "every path of any length and depth, over every data structure, inside every nesting of blocks",
      "tests follow paths that exist or whose last part is missing; a missing part in the middle, or one level too many, is not among them",
      ["src/handlebars_vm.c"],
      [("paths", "src/handlebars_vm.c lookup_on_context, lookup_data, lookup_block_param"),
       ("levels", "src/handlebars_vm.c push_context, lookup_data"), ("search", "src/handlebars_vm.c depthed_lookup")],
      "path-sensitive value tracking of walks",
      "Every path of execution through each walk. That the look-up of one part finds the right entry is the concern of another property." + TRUST),
    P("C40", "Rendering gives what the Handlebars language says",
      "For every template and data the text rendered, and the error raised where there is one, is what the reference implementation of the "
      "language gives, in the chosen mode.",
      ["inputs"], "every template and data", "the specification suites hold a few hundred templates",
      ["src/handlebars_vm.c", "src/handlebars_compiler.c"], [("renderer", "src/handlebars_vm.c")],
      na="Equality of output with a reference is a relation between runtime texts; no static argument in reach derives what a template renders "
         "to. The parts of it that are about the code's structure are claimed apart: C03, C10, C11, C18, C23, C29."),
    P("C41", "Whitespace control removes exactly the whitespace it should",
      "For every template the whitespace left around standalone tags and tags written with a tilde is what the language says, at every depth "
      "of nesting.",
      ["inputs"], "every template", "tests have a few layouts of tags",
      ["src/handlebars_whitespace.c"], [("stripping", "src/handlebars_whitespace.c")],
      na="What has to be removed depends on the characters around each tag, and the oracle is the reference implementation; only a comparison "
         "of outputs could settle it."),
    P("C42", "Numbers are printed so that they read back the same",
      "Every number of the data appears in the output as the shortest text that reads back as that number.",
      ["inputs"], "every integer and floating-point value", "tests print a few numbers",
      ["src/handlebars_value.c"], [("printing", "src/handlebars_value.c handlebars_value_expression")],
      na="The correctness of decimal conversion is arithmetic over all doubles inside libc's printf; static analysis of this code can only say "
         "that the format fits the argument, which C21 does."),
    P("C43", "A map keeps what was put in, in order",
      "After any sequence of additions, updates and removals a map holds for each key the value last stored and gives its entries in the order "
      "of their first insertion.",
      ["histories"], "every sequence of operations on a map", "tests run a few fixed and random sequences",
      ["src/handlebars_map.c"], [("table", "src/handlebars_map.c")],
      na="A relation between a history of calls and the content of a heap structure; it needs an inductive invariant on an open addressing table with back "
         "shifting, which no static analysis in reach infers. Its local obligations (keys compared, slots owned, sharing respected, bounds) "
         "are claimed in C05, C07, C27 and C35."),
    P("C44", "Readers of the shared memory cache see no half-made update on any machine",
      "On every memory model and schedule a process reading the shared cache without the lock sees either a complete entry or none.",
      ["schedules"], "every interleaving of any number of processes under weak memory", "tests run one process",
      ["src/handlebars_cache_mmap.c"], [("lock-free reading", "src/handlebars_cache_mmap.c cache_find")],
      na="Needs a weak-memory exploration of interleavings (model checking), a different family. The order within one thread, the locking of writers "
         "and the pinning by readers are decided by C15 and C16."),
    P("C45", "Every rendering ends",
      "Parsing, compiling and rendering end for every template and data, also with templates that include each other.",
      ["inputs", "histories"], "every template, data and set of partials", "a test that does not end tells nothing",
      ["src/handlebars_vm.c", "src/handlebars_compiler.c"], [("recursion", "src/handlebars_vm.c handlebars_vm_execute_ex")],
      na="Recursion is driven by template text known only at run time, and the depth of the C stack is not bounded by the code; there is no static "
         "measure to decide it with."),
    P("C46", "Printing a parsed template and parsing it again changes nothing",
      "For every template the printed syntax tree or its opcodes determine it, and parsing what was printed gives the same tree.",
      ["inputs"], "every template", "tests compare a few printed trees",
      ["src/handlebars_ast_printer.c"], [("printing", "src/handlebars_ast_printer.c")],
      na="A round trip between the generated parser and the printer is a relation over texts; the parser is a table the analyses do not interpret."),
    P("C30", "Files are read whole, and the command line tool reports every failure",
      "A template, partial or data file is used only as a whole: when it cannot be opened, measured or read in full an error is reported, the text "
      "made from it has exactly the bytes that were read, and it is closed on every way out. The command line tool ends with status zero only if "
      "nothing failed, no option was refused and all of its output was written; otherwise it prints a message and ends with another "
      "status, and each mode and compiler flag does what its name says.",
      ["inputs", "fault_sequences"], "every file, directory, pipe or device named, every failure while reading or writing, every command line",
      "tests name ordinary files and write to a pipe that takes everything; directories, short reads and full disks are not among them",
      ["bin/handlebarsc.c", "src/handlebars_partial_loader.c"],
      [("reading", "bin/handlebarsc.c file_get_contents"), ("partials", "src/handlebars_partial_loader.c hbs_partial_loader_map_find"),
       ("status", "bin/handlebarsc.c main")],
      "interprocedural typestate on LLVM IR",
      "Every path of every function that reads files and of the whole command line tool. What the library does with the text is the concern of the "
      "other properties." + TRUST),
    P("C35", "Strings, stacks and maps stay within the memory they have",
      "Whatever is appended to, inserted in, cut from or copied between strings, value stacks and maps, every byte written lies in memory "
      "allocated for that object. A string's length is always less than its room and its text ends in a terminating zero at that length; a stack "
      "or map never counts more elements than it has room for, nor fewer than none. When room is short the object is enlarged first, or "
      "the operation is refused.",
      ["inputs", "histories"], "all texts, lengths and sequences of operations",
      "an overrun by one byte mostly lands in padding, and the lengths at which room runs out are few among all lengths",
      ["src/handlebars_string.c", "src/handlebars_stack.c", "src/handlebars_map.c"],
      [("strings", "src/handlebars_string.c handlebars_string_extend, handlebars_string_append_unsafe"),
       ("maps", "src/handlebars_map.c handlebars_map_add, map_rehash"), ("stacks", "src/handlebars_stack.c handlebars_stack_push")],
      "abstract interpretation over linear constraints with inductive loop invariants",
      "Every function of the three modules, for all lengths and capacities; loops that measure and then write are compared element by element. "
      "Functions whose invariants are not found within the limits are listed in the evidence as undecided and not reported." + TRUST),
]
