#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the list is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Linked programs run exactly as the same program linked by a reference linker",
  "An executable that the linker produces from valid x86-64 relocatable objects, archives and shared libraries, compiled from C or assembly without thread-local storage and indirect functions of their own, prints the same output and returns the same exit status as the same inputs linked by an established linker. This holds for any number and order of input objects, for position-dependent and position-independent code, for any optimisation level and with or without debug information, and under lazy and eager dynamic binding alike.",
  ["programs", "configurations"],
  "all C and assembly programs (one or many translation units, with static/global/common/const/function-pointer data, weak symbols, constructors, libc and user shared libraries and archives), all compilers flags of the supported feature set, all object orders",
  "The suite links two single-file programs and looks at the exit code only; nothing with two objects, a static variable, a .bss section, data pointers, weak symbols, archives or stdout-observable data is ever run.",
  ["src/lib.rs", "src/elf.rs", "src/elf/chunk.rs", "src/elf/section.rs", "src/elf/symbol_table.rs", "src/main.rs"],
  [("link driver: sections, symbols, relocations, undefined-symbol loop, layout, write", "src/lib.rs Linker::link"),
   ("address assignment and relocation", "src/elf.rs compute_sections"), ("relocation arithmetic", "src/elf/chunk.rs apply_relocation")],
  observe=["exit status of the linker", "stdout and exit status of the linked program run under ld.so", "the same for GNU ld's output"])

p("C02", "Every relocated field holds the value the x86-64 psABI prescribes, or no output",
  "In a produced executable every field covered by an input relocation contains the value the x86-64 psABI formula gives for the final addresses of the symbol, the place, the GOT slot or the PLT entry and the addend, where a GOT slot for a symbol defined in the program holds that symbol's final address. Instruction relaxations may replace GOT loads only by an equivalent instruction. A value that does not fit the field, or a relocation type the linker does not implement, makes the link fail instead of producing an executable.",
  ["inputs"],
  "all relocation types, addends, offsets within a section, section positions, symbol kinds (named, local, section, absolute, weak undefined, imported) and relaxable instruction encodings",
  "The two test programs contain a dozen relocations of four types with small addends in one object; the result is only checked by the program's exit code.",
  ["src/elf/chunk.rs", "src/lib.rs", "src/elf.rs"],
  [("per-type relocation formulas and relaxation", "src/elf/chunk.rs apply_relocation"), ("relocation collection and mapping to the target section", "src/lib.rs process_relocations"),
   ("GOT/PLT demand scan", "src/elf.rs scan_relocations")],
  state=[("Chunk.relocations", "relocations still to be applied to an input section's bytes", "src/elf/chunk.rs")],
  observe=["bytes of the output at the relocated place", ".got/.plt/.got.plt contents and dynamic relocations of the output"])

p("C03", "Input section contents are laid out once, intact, aligned and without overlap",
  "Every allocatable section of every linked object occupies exactly one place in the memory image of the executable: its bytes (outside relocated fields) are unchanged (but the last record of `.eh_frame` may grow over the padding after it), zero-initialised sections are backed by zeroed memory of their full size, and its address is a multiple of its alignment. No two input sections and no linker-generated table share a byte, and input sections of the same name are gathered in link order in one output section of that name whose permissions allow what each of them asked for.",
  ["inputs"],
  "all combinations of section names, sizes (including 0), alignments, flags and contents over any number of objects",
  "The tests link one user object whose sections are all tiny; no second section of the same name with content is ever placed except crt files, and no address or byte is inspected.",
  ["src/elf.rs", "src/elf/section.rs", "src/elf/chunk.rs", "src/lib.rs"],
  [("appending input sections to output sections", "src/elf.rs add_section"), ("section ordering and address/offset assignment", "src/elf.rs sort_sections, generate_program_headers, get_load_program_header"),
   ("chunk addresses", "src/elf/section.rs set_address, patch_symbol_values"), ("padding and chunk output", "src/elf.rs write_to_disk")],
  state=[("Section.chunks", "input sections of one output section in link order", "src/elf/section.rs")],
  observe=["unique content tags of each input section located in the output's PT_LOAD image", ".symtab addresses of zero-initialised data"])

p("C04", "Each symbol reference binds to the definition the ELF rules select",
  "A reference to a name uses the object's own local symbol when it has one; otherwise it binds to the strong definition if any linked object has one, else to a common block of the largest size and alignment requested, else to the first weak definition in link order, else to the first shared library that defines it, and an undefined weak reference with no definition anywhere evaluates to zero. Of the COMDAT groups of one name, only the first linked one's global definitions count. The choice does not depend on whether references or definitions come first on the command line, and local symbols of different objects with the same name never affect each other or a global symbol.",
  ["inputs", "histories"],
  "all assignments of binding (local, weak, strong, common, undefined, weak undefined) to the same set of names over any number of objects, in every link order",
  "The suite has a single table test with two undefined functions; no test has two objects mentioning the same name with different bindings.",
  ["src/elf/symbol_table.rs", "src/lib.rs", "src/elf.rs", "src/symbol.rs"],
  [("merging a new symbol into the table", "src/elf/symbol_table.rs SymbolTable::add_symbol"), ("binding precedence", "src/symbol.rs higher_bind_than"), ("object-local symbol map", "src/lib.rs ElfObject::process_symbols")],
  state=[("SymbolTable.symbols", "the chosen definition of every name", "src/elf/symbol_table.rs")],
  observe=["the address stored by a relocation against the name, compared with the addresses of all candidate definitions"])

p("C05", "Undefined or multiply defined symbols refuse the link; complete programs link",
  "A link in which some object has a strong reference that no linked object, archive member or shared library defines, or in which two linked objects strongly define the same global name (other than in COMDAT groups of one name), ends with a non-zero exit status and a diagnostic naming the symbol, and leaves no executable at the output path, not even an older one. A link in which every strong reference is defined exactly once is never refused for its symbols.",
  ["inputs"],
  "all sets of objects, archives and shared libraries with at least one missing or duplicate definition, wherever it is (objects, archive members pulled in later, libraries that only reference the name), and all complete sets",
  "No test expects a link to fail.",
  ["src/lib.rs", "src/elf.rs", "src/elf/symbol_table.rs", "src/main.rs"],
  [("undefined symbol collection after layout", "src/lib.rs Linker::link, src/elf.rs undefined_symbols"), ("duplicate definition error", "src/elf/symbol_table.rs Error::AlreadyDefined"),
   ("shared library lookup", "src/lib.rs find_undefined_symbols_in_libs")],
  observe=["exit status and stderr of the linker", "existence and mode of the output file"])

p("C06", "The output is a well-formed ELF executable that the system can load and start",
  "Every produced file is an x86-64 ET_EXEC whose header, program headers, section headers, sections and string tables lie within the file without overlapping, whose loadable segments are page-congruent, ascending and disjoint and cover every allocated section at the matching file offset and address with exactly the read, write and execute permissions its flags ask for. The interpreter and dynamic segments describe the requested dynamic linker and the dynamic section, the program header segment is mapped, and the entry point is the address of the start symbol.",
  ["inputs", "configurations"],
  "all inputs that link successfully, all option combinations (hash style, dynamic linker path)",
  "Tests run two outputs of nearly identical layout; most fields are never interpreted by the kernel in those runs, and sections of unusual size, flag or alignment mixes never occur.",
  ["src/elf.rs", "src/serialize.rs", "src/elf/section.rs"],
  [("program header generation", "src/elf.rs generate_program_headers, get_load_program_header, count_program_headers"), ("header patching and serialisation", "src/elf.rs compute_sections, write_to_disk; src/serialize.rs")],
  observe=["the bytes of the output file, parsed by an independent reader", "start-up under the kernel and ld.so"])

p("C07", "The output symbol table names every linked symbol at its true address",
  "The output symbol table has exactly one entry for each global or weak name defined by the linked objects, and an entry for each of their named local symbols, with the symbol's own binding, type and size, the section index of the output section that holds it and the final address of the byte it labels (absolute symbols keep their value). Local entries precede all others, the section header records where they end, and each entry's name is byte-for-byte the input name.",
  ["inputs"],
  "all symbol populations: any number of names, lengths, shared prefixes and suffixes, bindings, types, sizes, offsets, over any number of objects",
  "No test reads the output's symbol table.",
  ["src/elf/symbol_table.rs", "src/elf/string_table.rs", "src/elf/section.rs", "src/elf.rs"],
  [("symbol values patched with section addresses", "src/elf/section.rs patch_symbol_values"), ("sorting and serialisation", "src/elf/symbol_table.rs sorted, chunk, expand"), ("name interning", "src/elf/string_table.rs get_or_create")],
  state=[("StringTable.names", "name to offset map", "src/elf/string_table.rs")],
  observe=[".symtab/.strtab of the output"])

p("C08", "Lookups through the emitted hash tables find exactly the dynamic symbols",
  "For every dynamic symbol of an output, the standard lookup algorithm of the dynamic linker reaches that symbol's own entry through each hash table the output carries (including the GNU table's Bloom filter and chain terminators), and a lookup of any absent name terminates without a match. The output carries exactly the tables that the requested hash style asks for, and each covers the whole dynamic symbol table.",
  ["inputs", "configurations"],
  "all sets of dynamic symbol names and counts (bucket and Bloom sizes), all hash styles",
  "The unit test compares one two-symbol GNU table with one bucket against values computed with the code's own formula; with one bucket neither bucket ordering nor the Bloom size can go wrong. The SysV table is never exercised.",
  ["src/elf/symbol_table.rs", "src/name.rs", "src/elf.rs", "src/elf/options.rs"],
  [("GNU hash construction", "src/elf/symbol_table.rs GnuHashTable::add_symbols"), ("SysV hash construction", "src/elf/symbol_table.rs HashTable::add_symbols"), ("hash functions", "src/name.rs elf_hash, elf_gnu_hash"), ("dynamic symbol order", "src/elf/symbol_table.rs sort_symbols_func")],
  observe=[".hash/.gnu.hash/.dynsym/.dynstr of the output, walked with the ABI's lookup procedure"])

p("C09", "The dynamic section is truthful and names exactly the needed libraries",
  "Every address, size and entry size in the dynamic section equals that of the table it announces, each table that the dynamic linker needs is announced exactly once, and the list is terminated within the section's size. The needed-library entries name, by their SONAME (or file name when they have none), each shared library that defines an imported symbol and each library given while --no-as-needed was in force, exactly once each, and no library given under --as-needed that defines no imported symbol.",
  ["inputs", "configurations"],
  "all inputs and all interleavings of --as-needed/--no-as-needed with libraries that are used, unused, or have a SONAME different from their file name",
  "Tests only show that ld.so finds libc for a printf program; wrong sizes, missing or duplicate tags and as-needed handling are not observed.",
  ["src/elf.rs", "src/lib.rs", "src/main.rs", "src/elf/options.rs"],
  [("dynamic entries", "src/elf.rs dyn_entries, try_add_dyn_entries, add_dyn_entries, add_needed"), ("dynamic section size prediction", "src/elf.rs assign_section_addresses"), ("as-needed state", "src/main.rs handle_linker_args")],
  observe=[".dynamic, section headers and PT_DYNAMIC of the output"])

p("C10", "Imported functions and variables resolve to the shared library at run time",
  "Every use of a symbol that only a shared library defines reaches that library's definition when the program runs: calls go through a linkage entry whose own slot carries the jump-slot relocation for that symbol, loads through the GOT see its address, and a data object is copied into suitably sized, aligned and disjoint space that the library itself also uses. The address of an imported function or variable is the same wherever the program or the library takes it and by whichever of its names, with lazy and with eager binding, and a name that the program defines and a needed library mentions is exported at the program's address, with its type and size, unless an object that is linked says it is hidden.",
  ["inputs", "programs"],
  "all numbers and mixes of imported functions and objects, all access styles (direct call, GOT call, GOT load, absolute or pc-relative address, pointer in initialised data), binding modes",
  "The only import any test uses is printf called directly; no imported variable, function pointer or second import is exercised.",
  ["src/elf.rs", "src/elf/plt.rs", "src/elf/copy_rel.rs", "src/elf/chunk.rs", "src/symbol.rs"],
  [("PLT and .got.plt patching", "src/elf.rs patch_plt_and_got_plt"), ("PLT slots", "src/elf/plt.rs"), ("copy relocation slots", "src/elf/copy_rel.rs CopyRel::insert"), ("dynamic relocation emission", "src/elf.rs assign_section_addresses, compute_tables")],
  state=[("Writer.got_plt", "import to .got.plt slot", "src/elf.rs"), ("CopyRel.slots", "import to copy slot", "src/elf/copy_rel.rs")],
  observe=["decoded PLT entries, .got/.got.plt and .rela.dyn/.rela.plt of the output", "values observed by the running program and by the library"])

p("C11", "Archive members are linked exactly when they are needed, once each",
  "Given archives, the linker links exactly the members reachable from the undefined strong references of the objects, and those of the shared libraries that they need: a member is linked if and only if it is the first in its archive to define a name that is undefined at that point, directly or through members linked earlier, and it is linked only once however many names it provides. Dependencies between archives are followed in both directions regardless of the order the archives are given in, until nothing more can be resolved.",
  ["inputs", "histories"],
  "all archive contents (member names, counts, dependency graphs with chains and cycles within and across archives) and all orders of archives on the command line",
  "The tests' only archives are libgcc and libc_nonshared, from which nothing is pulled in.",
  ["src/lib.rs", "src/main.rs"],
  [("member selection by archive index", "src/lib.rs process_archives_containing"), ("fixpoint loop", "src/lib.rs Linker::link")],
  observe=["presence of each member's unique content tag in the output"])

p("C12", "Linker scripts stand for exactly the inputs they list",
  "A text input that consists of comments, OUTPUT_FORMAT and GROUP commands (with optional AS_NEEDED parts) in any layout of white space has the same effect as giving the listed files and -l options, in order, on the command line; libraries inside AS_NEEDED are recorded as needed only if used. Any other text input, including one that lists itself, makes the linker stop with an error rather than loop or silently ignore part of it.",
  ["inputs"],
  "all scripts over the supported commands, all placements of comments and white space, nested script inclusion, and arbitrary non-script text",
  "Unit tests parse five fixed well-formed strings; no malformed text, no script cycle and no effect on the link is tested.",
  ["src/linker_script.rs", "src/main.rs"],
  [("script grammar", "src/linker_script.rs parse"), ("script work list", "src/main.rs main"), ("argument handling", "src/main.rs handle_linker_args")],
  observe=["exit status, DT_NEEDED list and linked content of the output versus the equivalent command line"])

p("C13", "Options and library search select the requested inputs and settings",
  "-L directories are searched in command-line order for -l names, each directory's shared library being preferred over its archive; options may be mixed with inputs in any order and -L and -l may be joined with or separate from their argument; -o, -dynamic-linker and --hash-style take effect as documented. A missing option argument, an invalid option value or an input or library that cannot be found makes the linker exit non-zero with a diagnostic and without producing an executable.",
  ["inputs", "configurations"],
  "all argument vectors built from the documented options and files, all placements of same-named libraries over search directories",
  "Tests use the one command line that clang generates.",
  ["src/main.rs", "src/elf/options.rs"],
  [("argument parsing", "src/main.rs handle_linker_args"), ("library search", "src/main.rs search_for_inputs"), ("value parsing", "src/elf/options.rs FromStr impls")],
  observe=["exit status, stderr, and which library's content or name ends up in the output"])

p("C14", "Malformed or foreign inputs are refused without hanging or crashing",
  "For every input file, however corrupt, the linker terminates within bounded time and memory and is not killed by a signal. An input that is truncated, that is not an x86-64 little-endian ELF64 relocatable object, shared library, archive or linker script, or whose headers, relocations or archive index refer outside the file, section or table they belong to ends in a non-zero exit status with a diagnostic and without an executable at the output path.",
  ["inputs"],
  "all byte strings offered as object, archive, shared library or script; in particular all truncations and field corruptions of valid ones",
  "No test offers an invalid file.",
  ["src/lib.rs", "src/main.rs", "src/elf.rs", "src/elf/chunk.rs", "src/linker_script.rs"],
  [("object parsing and type check", "src/lib.rs to_elf_object"), ("file type detection", "src/main.rs file_type"), ("member loading", "src/lib.rs process_archives_containing"), ("errors", "src/error.rs")],
  observe=["exit status or signal, CPU time, memory and stderr of the linker; output path"])

p("C15", "Linking is deterministic",
  "Linking the same inputs with the same options always gives the same result: the same success or failure, and byte-for-byte the same output file, whatever the process, its environment, its working directory or the location of the output.",
  ["inputs", "schedules"],
  "all inputs, all repetitions (each process draws fresh hash-map seeds, which decide every iteration order in the linker)",
  "Each test links each input once; the iteration orders that a process draws at random are never compared between runs.",
  ["src/lib.rs", "src/elf.rs", "src/main.rs", "src/elf/symbol_table.rs"],
  [("undefined symbol iteration", "src/lib.rs find_undefined_symbols_in_libs, process_archives_containing"), ("symbol ordering", "src/elf/symbol_table.rs sorted"), ("import ordering", "src/elf.rs assign_section_addresses"), ("archive and search path sets", "src/main.rs AppArgs")],
  observe=["output files of repeated runs in separate processes, compared byte by byte"])

p("C16", "A failed link reports failure and never leaves a usable or partial executable",
  "The linker exits with status zero only if the complete executable, readable and executable, is in place at the output path. Whenever linking fails (bad input, unresolved symbol, or an I/O error at any point such as a full file system, a file-size limit or an unwritable or missing directory), it exits non-zero with a diagnostic and leaves no executable file produced by that run at the output path, and in no case are its input files or any other file changed.",
  ["fault_sequences", "inputs", "crash_points"],
  "all failure causes and every point at which a read or write can fail or come up short",
  "No test makes a link fail or injects an I/O fault.",
  ["src/elf.rs", "src/lib.rs", "src/main.rs"],
  [("output creation and permission setting", "src/elf.rs Writer::new, write_to_disk"), ("error propagation to the exit status", "src/lib.rs link, src/main.rs main")],
  observe=["exit status, stderr, content and mode of the output path, checksums of inputs, directory listing before and after, under injected faults (system-call failure injection, RLIMIT_FSIZE)"])

p("C17", "Constructors and destructors of all inputs run once each, in order",
  "Every function that the linked objects register in their initialisation and finalisation sections runs exactly once: constructors before the program's main function in link order (members of an archive where the archive is among the inputs, functions with a priority first) and destructors after it in reverse link order, and the fragments of the old-style init and fini functions execute as one function in link order. The array boundary symbols delimit exactly all the registered entries.",
  ["programs", "inputs"],
  "all numbers and distributions of constructors and destructors over objects and archive members, with and without libc start-up",
  "No test program has a constructor or destructor of its own.",
  ["src/elf.rs", "src/elf/section.rs"],
  [("init/fini array tags", "src/elf.rs try_add_dyn_entries"), ("boundary symbols", "src/elf.rs handle_special_symbols"), ("section concatenation", "src/elf.rs add_section")],
  observe=["trace printed by the running program", "DT_INIT/DT_FINI/DT_*_ARRAY* values and boundary symbol values in the output"])

p("C18", "Debugging information and other unloaded sections arrive complete",
  "Every non-empty section of a linked object that is not loaded (debugging information, comments, notes; other than symbol, string, relocation tables and section groups) is in the output section of its name exactly once, aligned, in link order, with its bytes unaltered outside of relocated fields, and its references give the final address of what is loaded and the offset in the output section of what is not. So debuggers find for each function, variable, type, source line and stack frame of the executable what they find after a link by a reference linker. Compressed sections are either carried correctly or refused.",
  ["programs", "inputs"],
  "all contents, names, alignments and relocations of unloaded sections over all numbers of objects, and all programs with debugging information of any format and version",
  "No test looks at a section that is not loaded.",
  ["src/lib.rs", "src/elf.rs", "src/elf/section.rs", "src/elf/chunk.rs"],
  [("section concatenation", "src/elf.rs add_section"), ("relocation of chunks", "src/elf/chunk.rs, src/elf.rs"), ("compressed sections", "src/lib.rs parse_elf")],
  observe=["bytes of unloaded sections in the output", "what llvm-symbolizer, llvm-dwarfdump and readelf say about the executable, compared with GNU ld's"])

p("C19", "Exceptions, cleanups and backtraces cross all the code that has been linked",
  "In a program linked with --eh-frame-hdr, exceptions propagate through all linked code, whatever object, archive member, shared library, section or language it comes from: the handlers, destructors and cleanups that run (also those of exiting and cancelled threads), the values they see and the functions a backtrace names are those that the program has after a link by a reference linker. The unwinder finds through the program header for it the records of every linked function, exactly one for each address.",
  ["programs", "inputs", "configurations"],
  "all C++, C and assembly programs that throw, catch and clean up over any number of objects, archive members, libraries and threads",
  "No test program throws, or has more than one object with functions to unwind.",
  ["src/elf.rs", "src/elf/section.rs", "src/elf/chunk.rs", "src/lib.rs"],
  [("header of .eh_frame", "src/elf.rs add_eh_frame_hdr, generate_program_headers"), ("concatenation of records", "src/elf/section.rs arrange_chunks"), ("COMDAT groups", "src/lib.rs process_groups"), ("relocation", "src/elf.rs, src/elf/chunk.rs")],
  observe=["trace that the running program writes, with backtraces", "records of .eh_frame and their header in the output"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
