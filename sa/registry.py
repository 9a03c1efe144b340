"""property -> (module, function)"""
CHECKS = {
    "G14": ("chk_gen_text", "g14"),
    "O01": ("chk_go_bits", "o01"),
    "O02": ("chk_go_bindings", "o02"),
    "O03": ("chk_go_bindings", "o03"),
    "R01": ("chk_rust_bits", "r01"),
    "G09": ("chk_gen_py", "g09"),
    "G15": ("chk_gen_app", "g15"),
    "C01": ("chk_cpp_bits", "c01"),
    "C02": ("chk_cpp_bits", "c02"),
    "G10": ("chk_gen_cpp", "g10"),
    "G11": ("chk_cpp_archive", "g11"),
    "G12": ("chk_gen_rust", "g12"),
    "G16": ("chk_rust_archive", "g16"),
    "R02": ("chk_rust_store", "r02"),
    "R03": ("chk_rust_write", "r03"),
    "R04": ("chk_rust_locks", "r04"),
    "R05": ("chk_rust_views", "r05"),
    "C03": ("chk_cpp_store", "c03"),
    "C04": ("chk_cpp_store", "c04"),
    "C05": ("chk_cpp_archive", "c05"),
    "C06": ("chk_cpp_tar", "c06"),
    "C07": ("chk_cpp_locks", "c07"),
    "C08": ("chk_cpp_store", "c08"),
    "C09": ("chk_cpp_store", "c09"),
    "C10": ("chk_cpp_store", "c10"),
    "C11": ("chk_cpp_archive", "c11"),
    "C12": ("chk_cpp_describe", "c12"),
    "P01": ("chk_bits_py", "p01"),
    "P02": ("chk_bits_py", "p02"),
    "P03": ("chk_py_archive", "p03"),
    "P04": ("chk_py_containers", "p04"),
    "P05": ("chk_py_containers", "p05"),
    "P06": ("chk_py_writer", "p06"),
    "P07": ("chk_py_writer", "p07"),
    "P08": ("chk_py_storage", "p08"),
    "G01": ("chk_gen_tree", "g01"),
    "G02": ("chk_gen_tree", "g02"),
    "G03": ("chk_gen_tree", "g03"),
    "G04": ("chk_gen_tree", "g04"),
    "G05": ("chk_gen_tree", "g05"),
    "G06": ("chk_gen_tree", "g06"),
    "G07": ("chk_gen_tree", "g07"),
    "G08": ("chk_gen_schema", "g08"),
}

AI = "abstract interpretation of the Python AST "
NOTES = {
    "R01": ("abstract interpretation of LLVM IR (bit-provenance domain)",
            "Basic types x bit offsets x widths, content and value symbolic, with and without debug assertions; rustc lowers the macro expansions (-O2). One known "
            "finding (one-bit signed fields). Trusts rustc and the IR interpreter."),
    "R02": ("abstract interpretation of LLVM IR (path partitions, symbolic storage)",
            "The reading functions of flatdata-rs over a storage whose entries are absent, failing or of unknown size and content, and the checks of an opened resource; "
            "release and debug code. The storages' own file access (memory map, tar) is not covered; declared functions of std are modelled."),
    "R03": ("abstract interpretation of LLVM IR (path partitions, symbolic payloads, recorded streams)",
            "One-shot writes, external vectors, multivectors and archive creation over a storage that keeps what is written; every stream operation failing. A failed operation of "
            "the environment writes nothing (partial writes are then found by the size check on closing). The storages' own streams (files, memory) are not covered."),
    "R04": ("lockset, lock-order and typestate analysis of MIR",
            "Every function of flatdata-rs that takes a lock, on all paths; locks are identified by the type they protect, keys are not told apart. The compiler's Send and Sync "
            "checks are relied on; the tar storage (a feature) is not compiled."),
    "C12": ("abstract interpretation of LLVM IR (abstract storage, concrete schema texts, text of string streams followed)",
            "Three archive shapes; every entry missing or differently described, sizes unknown; stored schema texts of 0 to 300 lines. Numbers and the padding of columns are not looked at; "
            "context lines only have to be lines of both schemas."),
    "R05": ("abstract interpretation of LLVM IR (path partitions, symbolic sizes and contents)",
            "Slices of any size; vectors, raw data and multivector views of the given sizes and shapes, in release and debug code. Debug output and the allocator of Rust are not covered."),
    "G12": ("abstract interpretation of the generator, and of the LLVM IR of the Rust code it renders (bit-provenance domain)",
            "Shapes of sa/corpus.py with the numbers at their bounds and in between; every memory bit symbolic. One known finding (one-bit signed fields)."),
    "G16": ("abstract interpretation of the generator, and of the LLVM IR of the Rust code it renders (path partitions, symbolic storage)",
            "Shapes of sa/corpus.py whose names stay distinct in Rust; archives of unknown resource sizes over a storage in which single entries, both halves of multivectors or all "
            "optional resources fail; buckets of up to two elements. One known finding (truncated instances panic)."),
    "O01": ("abstract interpretation of Go SSA form (bit-provenance and affine domains)",
            "Unknown byte position x 8 bit offsets x 64 widths x both signs, content symbolic; up to 8 bytes behind the field may be read (padding)."),
    "O02": ("abstract interpretation of the generator, its templates and of the Go SSA form of the rendered code (bit-provenance and affine domains)",
            "Schemas the Go back end supports (one namespace, integer and boolean fields, at least one vector, no sub-archives): structs with all widths, archives with every kind of "
            "resource, each missing, failing or with another schema; elements at any position, buckets of up to two elements. One known finding (two elements of one type in a bucket)."),
    "O03": ("abstract interpretation of Go SSA form (affine domain)",
            "File and in-memory storage with data present or not and of any length, schema present, empty or missing; mmap.Open and ReadFile are models."),
    "G14": ("abstract interpretation of the generator and its templates; lexical analysis of the rendered sources",
            "Shapes of sa/corpus.py with symbolic numbers and documentation with delimiters of all languages, four back ends; Go embeds no archive schemas."),
    "P01": (AI + "(bit-provenance and affine domains)",
            "Decides the reader for all bit offsets, widths and signedness with symbolic position and content. Trusts the "
            "interpreter's model of Python integers and byte sequences."),
    "P02": (AI + "(bit-provenance and affine domains)",
            "Decides write_value for all bit offsets, widths and signedness with symbolic position, previous content and value. "
            "Trusts the interpreter's model of Python integers and byte sequences."),
    "P03": (AI + "(path partitions, uninterpreted schema texts)",
            "All resource kinds and optionalities over a storage of unknown content. Schema texts are assumed non-empty; difflib and "
            "pandas are opaque."),
    "P04": (AI + "(affine and bit-provenance domains)",
            "Index access for every index and payload size; iteration for up to 3 elements, slices for sizes 0, 1 and 4."),
    "P05": (AI + "(affine and bit-provenance domains)",
            "All buckets of at most 3 elements, index widths 1, 2, 4, 5, 8 bytes, up to two element types, well-formed index."),
    "P06": (AI + "(bit-provenance domain, file system model)",
            "Symbolic values and schema texts; vectors of up to 3 elements, buckets of up to 2 elements. Trusts the model of open/os."),
    "P07": (AI + "(path partitions, file system model)",
            "Bad element first, in the middle or last. Trusts the model of open/os."),
    "G01": (AI + "(affine domain)",
            "Structs of up to 6 fields of all field kinds with symbolic widths, through the parser model and the whole tree builder. "
            "The pyparsing grammar is interpreted as built by grammar.py; pyparsing itself is modelled."),
    "G02": (AI + "(affine domain, path partitions)",
            "Every basic type with a symbolic width in fields, enumerations and multivector indexes; acceptance and rejection regions compared as affine sets."),
    "G03": (AI + "(affine domain, path partitions)",
            "Every type with all widths up to 8 bits and representative larger ones, symbolic explicit values, up to 4 named values."),
    "G04": (AI + "(affine domain, path partitions)",
            "Constants of every type with symbolic value; const and optional decorations with symbolic value and width."),
    "G05": (AI + "(path partitions)",
            "All resource kinds and placements of ranged structs, all combinations of range/optional/field names up to three fields."),
    "G06": (AI + "(path partitions)",
            "Reference kind x target kind x scope x spelling, redefinitions, cycles and explicit references over schemas enumerated by the check."),
    "G07": (AI + "(affine domain, path partitions)",
            "Up to three explicit references with symbolic widths in all orders; width-limit relation compared as affine facts; limits of the C++ builders decided on the LLVM IR of the rendered header."),
    "G08": ("abstract interpretation of the Python AST and of the Jinja template AST",
            "Shapes of sa/corpus.py with symbolic numbers, rendered and parsed back by an independent schema reader."),
    "G09": ("abstract interpretation of the generator, of its templates and of the Python module it renders",
            "Shapes of sa/corpus.py with symbolic numbers; the rendered module is loaded by the abstract interpreter and its tables compared with the schema."),
    "G15": (AI + "(path partitions, process and file system model)",
            "Command line, missing, invalid and mutated schemas for all back ends; argparse, logging and the file system are modelled."),
    "C01": ("abstract interpretation of LLVM IR (bit-provenance domain)",
            "All types x bit offsets x widths, memory content symbolic; clang lowers the template instantiations (-O1). Trusts clang and the IR interpreter."),
    "C02": ("abstract interpretation of LLVM IR (bit-provenance domain)",
            "All types x bit offsets x widths, memory content and value symbolic; clang lowers the template instantiations (-O1). Trusts clang and the IR interpreter."),
    "G10": ("abstract interpretation of the generator, and of the LLVM IR of the header it renders (bit-provenance domain)",
            "Shapes of sa/corpus.py with the numbers at their bounds and in between; every memory bit symbolic."),
    "G11": ("abstract interpretation of the generator, and of the LLVM IR of the header it renders (path partitions, symbolic file system)",
            "Shapes of sa/corpus.py; archive classes interpreted over a storage whose resources, sizes and texts are symbolic."),
    "C05": ("abstract interpretation of LLVM IR (path partitions, symbolic storage)",
            "Opening of rendered archives and of C++ resource storages over absent, present and damaged resources."),
    "C11": ("abstract interpretation of LLVM IR (path partitions, typestate of archives, builders and resource handles)",
            "Unopened, moved-from and closed objects, copies, null storages and failing storages of rendered archives."),
    "C03": ("abstract interpretation of LLVM IR (path partitions, symbolic storage)",
            "Every resource kind read through the generic storage code from data and schema of unknown size and content."),
    "C04": ("abstract interpretation of LLVM IR (path partitions, symbolic storage, failing streams)",
            "All writes of a resource by the memory and file back ends, each stream operation succeeding or failing. Trusts the stream model."),
    "C06": ("abstract interpretation of LLVM IR (affine domain, path partitions, symbolic file)",
            "Archives of up to 3 entries with unknown sizes (octal of 11 digits, binary of 48 bits) over files of unknown length; all types; boundary "
            "numbers. Trusts the models of open/mmap and of the libstdc++ tree functions."),
    "C07": ("lockset analysis over abstract interpretation of LLVM IR",
            "All pairs of operations from 10 shared states of memory, file and tar storages, allocations failing anywhere. Pairs of operations suffice for data "
            "races; contents of standard streams are not followed. Construction and destruction are excluded."),
    "C08": ("abstract interpretation of LLVM IR (typestate histories, symbolic storage)",
            "Histories of up to 4 operations on external vectors and multivectors, flushing before any of them; symbolic positions near the index limits."),
    "C09": ("abstract interpretation of LLVM IR (path partitions)",
            "Buckets of up to 3 elements, every undeclared tag, all visitor forms; index widths 9 and 33."),
    "C10": ("abstract interpretation of LLVM IR (affine domain)",
            "Every view operation for symbolic sizes and positions up to 2^40; vectors over histories of up to 3 operations."),
    "P08": (AI + "(path partitions, file system model)",
            "Unknown file system and paths; tar members of every type with symbolic positions. Trusts the models of mmap and tarfile."),
}

NOT_APPLICABLE = {
    "G13": "The Go back end does not have the property for most schemas (no enumeration-typed fields, one declaration per struct name whatever the namespace, sub-archives "
           "declared under the resource's name, missing resources tolerated, bucket counts including the sentinel), and repairing it is a redesign, not a small fix; the Go bit "
           "reader is claimed as O01 and the embedded schema text as part of G14.",
    "X01": "Quantifies over the run-time behaviour of four language run-times on the same bytes; its structural parts (layout, schema "
           "text, framing, bit access per language) are claimed separately, the composition is not decidable from the source of one component.",
    "X02": "Time and copying costs are run-time quantities that no static argument here bounds.",
    "X03": "Depends on which writes reach the disk before a crash (operating system and file system behaviour), not on the shape of the code.",
}
