#!/usr/bin/env python3
"""Authoring source of /verif/properties.jsonl (run to regenerate)."""
import json, os
P = []
GEN = "flatdata-generator/flatdata/generator/"
PYL = "flatdata-py/flatdata/lib/"
CPP = "flatdata-cpp/"

def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})

# ---------------------------------------------------------------- generator
p("G01", "Struct layout is the packed, declaration-order bit layout",
  "For every accepted schema each field's bit offset equals the sum of the bit widths of the fields declared before it in the same struct (no gaps, no overlap, no reordering). The struct's size in bits is the sum of all its field widths and its size in bytes is that sum rounded up to whole bytes. Enum-typed fields occupy exactly the width of their enumeration.",
  ["inputs"], "all struct declarations, all field widths",
  "Tests compare a handful of literal structs; the guarantee is over every sequence of widths.",
  [GEN + "tree/builder.py", GEN + "tree/nodes/trivial/structure.py", GEN + "tree/nodes/trivial/field.py"],
  [("size/offset computation", GEN + "tree/builder.py:_compute_structure_sizes"), ("size in bytes", GEN + "tree/nodes/trivial/structure.py:size_in_bytes")])

p("G02", "Field types: widths are defaulted and bounded, signedness follows the type",
  "A field or enumeration without an explicit bit width gets the native width of its basic type (bool 1, i8/u8 8, ... i64/u64 64), and one with an explicit width keeps exactly that width. A width of zero or larger than the native width of the type is rejected with a syntax error (multivector index widths, at most 64, included), as is a width on an enum-typed field that differs from the width of the enumeration. Exactly the i8/i16/i32/i64 types (and enumerations over them) are signed.",
  ["inputs"], "every basic type, every width, field and enum declarations",
  "Nine types times all widths plus enum-typed fields; tests try a few.",
  [GEN + "tree/helpers/basictype.py", GEN + "tree/helpers/enumtype.py", GEN + "tree/nodes/trivial/field.py", GEN + "grammar.py"],
  [("type table and width check", GEN + "tree/helpers/basictype.py:BasicType"), ("enum width check", GEN + "tree/builder.py:_update_field_type_references")])

p("G03", "Enumerations are numbered, unique, in range and complete",
  "An enumeration value takes its explicit constant, or the previous value plus one (the first one 0); duplicates, values that do not fit the declared width and signedness, and enumerations with far more possible than declared values (2 x declared + 256 < 2^width) are rejected with a syntax error. Every value of the declared bit range that the schema does not name is present as exactly one auto-generated placeholder, so every bit pattern of the field maps to exactly one enumerator. Auto-generated placeholders never appear in the stored schema.",
  ["inputs"], "all enumeration declarations (type, width, value list)",
  "Widths, signedness and explicit/implicit value mixes are unbounded; tests cover a few shapes.",
  [GEN + "tree/nodes/trivial/enumeration.py", GEN + "tree/nodes/trivial/enumeration_value.py", GEN + "tree/helpers/basictype.py"],
  [("value assignment, uniqueness, completion, range check", GEN + "tree/nodes/trivial/enumeration.py:Enumeration.create")])

p("G04", "Constants fit their type and decorate only fields that can hold them",
  "A constant whose value cannot be represented in its basic type (too many bits, or negative for an unsigned type) is rejected. A @const or @optional decoration of a field is accepted only if the referenced constant exists, has exactly the field's type, and its value fits the field's bit width and sign; a field has at most one @optional decoration. Every violation surfaces as a syntax error from schema loading, before any code is generated.",
  ["inputs"], "all constants, field widths and decorations",
  "The accept/reject boundary runs over all values and widths; tests sample a few literals.",
  [GEN + "tree/nodes/trivial/constant.py", GEN + "tree/helpers/basictype.py", GEN + "tree/builder.py"],
  [("value check", GEN + "tree/nodes/trivial/constant.py"), ("bits_required", GEN + "tree/helpers/basictype.py"), ("reference checks", GEN + "tree/builder.py:_check_const_refs")])

p("G05", "@range is accepted only where a following element is guaranteed",
  "A struct with a @range field can be used as the element of a vector (which stores a sentinel successor) and is rejected with a syntax error as an instance or as a multivector element. A range name that equals the name of a field or of another range of the same struct, a second @range on the same field, and a field carrying both @range and @optional, are rejected.",
  ["inputs"], "all schemas with @range fields, all resource kinds",
  "Tests cover one schema per rule; the guarantee is over every resource kind and placement.",
  [GEN + "tree/builder.py", GEN + "tree/nodes/trivial/structure.py", GEN + "tree/nodes/trivial/field.py"],
  [("range checks", GEN + "tree/builder.py:_check_ranges")])

p("G06", "Names resolve to the innermost declaration of the right kind, or fail",
  "An unqualified reference resolves in the enclosing declaration (archive or struct) if that declares the name, otherwise in the declaration's own namespace (enclosing namespaces are not searched), a reference starting with a dot resolves from the root, and nothing else is ever picked. A reference to an undeclared name, to a declaration of the wrong kind, a duplicate declaration in one scope, a cyclic archive or struct reference, and an explicit reference whose source struct is not used by the resource are each rejected with a syntax error.",
  ["inputs"], "all schemas: reference kind x target kind x nesting",
  "Combinations of reference kinds, target kinds and scopes; tests try some of them.",
  [GEN + "tree/resolver.py", GEN + "tree/nodes/node.py", GEN + "tree/nodes/references.py", GEN + "tree/traversal.py", GEN + "tree/builder.py"],
  [("resolution", GEN + "tree/resolver.py:resolve_references"), ("target kind table", GEN + "tree/resolver.py:_validate_target_type"), ("redefinition", GEN + "tree/nodes/node.py:insert"), ("cycle detection", GEN + "tree/traversal.py:DfsTraversal"), ("explicit references", GEN + "tree/builder.py:_check_explicit_references")])

p("G07", "Explicit references bound the size of the resource they index",
  "If fields with fewer than 64 bits are explicit references into a resource, the generator assigns that resource a maximum size of 2^w where w is the smallest such field width, whatever the order of the references. A resource that is referenced only by 64-bit fields or not at all has no limit. The C++ and Rust bindings refuse to open exactly those archives whose resource holds more elements than its limit, for optional and mandatory resources alike.",
  ["inputs"], "all sets of explicit references, widths and orders",
  "Needs archives with more than 2^w elements and multiple references; tests do one case.",
  [GEN + "tree/builder.py", GEN + "templates/cpp/archive.jinja2", GEN + "templates/rust/archive.jinja2"],
  [("limit computation", GEN + "tree/builder.py:_compute_max_resource_size"), ("limit check", GEN + "templates/cpp/archive.jinja2:load_contents")])

p("G08", "The stored schema text captures everything that affects decoding",
  "The schema text stored with a resource or archive contains the declaration of every struct, enumeration, constant and archive it depends on (transitively, each once, dependencies before dependents, inside their namespaces), an archive's text also the constants no field refers to, and nothing unrelated; a resource's text shows its archive restricted to that resource. It spells out every attribute that affects decoding: field order, names, types, effective bit widths, ranges, const and optional annotations, enum values, constant values, resource kinds with element types and multivector index width, optionality, explicit references and (in the archive's text) implicit bindings. Two schemas that differ in any of these therefore never have equal schema text.",
  ["inputs"], "all schemas; every attribute of every declaration kind",
  "Compatibility checking relies on text inequality for every possible difference; tests compare fixed files.",
  [GEN + "templates/flatdata/", GEN + "generators/flatdata.py", GEN + "tree/syntax_tree.py", GEN + "tree/nodes/node.py"],
  [("canonical schema rendering", GEN + "templates/flatdata/"), ("per-resource subtree", GEN + "tree/nodes/node.py:extract_subtree"), ("dependency order", GEN + "tree/traversal.py")])

p("G09", "Python bindings mirror the schema",
  "The generated Python module defines for every struct a class whose field table has the fields in declaration order with the schema's bit offset, bit width, signedness and a numpy dtype able to hold every value of the field, and the struct's size in bits and bytes. For every archive it defines a reader and a builder class whose resource table has, for every resource, the container matching its kind, the element types in declaration order (index type first for multivectors), the resource's schema text and its optionality, plus the mandatory archive signature.",
  ["inputs"], "all schemas: every field type and width, every resource kind, optional or not",
  "Expectation tests compare substrings for fixed schemas.",
  [GEN + "templates/py/python.jinja2", GEN + "generators/python.py"],
  [("template", GEN + "templates/py/python.jinja2"), ("type and container maps", GEN + "generators/python.py")])

p("G10", "C++ struct bindings read and write exactly the declared bits",
  "For every struct the generated C++ accessor reads the field's value from exactly its bits [offset, offset+width) with the field's signedness, and the mutable accessor writes exactly these bits, leaving all other bits unchanged. A @range accessor yields the field of this element and the same field one struct size further; an @optional field is empty exactly when the stored value equals the invalid constant. Size, name and schema reported by the type are those of the schema, and generated constants and enumerators have the schema's values. The header compiles for every accepted schema whose identifiers remain distinct and legal in C++.",
  ["inputs"], "all structs and field kinds (plain, enum, const, range, optional), all stored bit patterns",
  "Bit patterns times layouts cannot be enumerated by tests.",
  [GEN + "templates/cpp/structure.jinja2", GEN + "generators/cpp.py", CPP + "include/flatdata/internal/Reader.h", CPP + "include/flatdata/internal/Writer.h"],
  [("template", GEN + "templates/cpp/structure.jinja2"), ("bit access", CPP + "include/flatdata/internal/Reader.h")])

p("G11", "C++ archive bindings open and build every declared resource",
  "The generated C++ archive loads every declared resource under its own name with its own schema text, as a view type matching its kind and element types, optional if and only if the schema says so, and is open only if every load succeeded. The generated builder writes each resource under the same name and schema text as the reader expects, refuses to be used before it is created, and places sub-archives in a directory named like the resource.",
  ["inputs"], "all archives: every resource kind, optional or not",
  "Expectation tests check text fragments for fixed schemas.",
  [GEN + "templates/cpp/archive.jinja2", GEN + "templates/cpp/resource.jinja2", GEN + "generators/cpp.py"],
  [("template", GEN + "templates/cpp/archive.jinja2")])

p("G12", "Rust struct bindings read and write exactly the declared bits",
  "For every struct the generated Rust getter reads the field's value from exactly its bits [offset, offset+width) with the field's type and signedness, and the setter writes exactly these bits, leaving all other bits unchanged; fill_from copies the value of every field. A @range accessor yields the field of this element and the same field of the next element; an @optional field is None exactly when the stored value equals the invalid constant, and setting None stores it. Sizes, the overlap flag, new(), as_bytes() and views of byte slices are those of the struct; generated constants and enumerators have the schema's values. The generated code, archives included, compiles with flatdata-rs for every accepted schema whose names remain distinct and legal in Rust.",
  ["inputs"], "all structs and field kinds (plain, enum, const, range, optional), all stored bit patterns",
  "Bit patterns times layouts cannot be enumerated by tests; Rust code is not compiled by the test suite.",
  [GEN + "templates/rust/", GEN + "generators/rust.py", "flatdata-rs/lib/src/bytereader.rs", "flatdata-rs/lib/src/bytewriter.rs"],
  [("template", GEN + "templates/rust/structure.jinja2"), ("bit access", "flatdata-rs/lib/src/bytereader.rs")])

p("G13", "Go bindings mirror the schema",
  "The generated Go code reads every field with the schema's bit offset, bit width, signedness and an integer type of the field's basic type, strides vectors by the struct's size in bytes after the 8-byte size header, maps multivector type tags to the element types numbered from 0 in declaration order, and opens every declared resource under its name, checking its schema, optional exactly as declared.",
  ["inputs"], "all schemas supported by the Go backend",
  "Expectation tests compare fixed fragments; generated Go code is never compiled by the tests.",
  [GEN + "templates/go/", GEN + "generators/go.py"],
  [("template", GEN + "templates/go/")])

p("G14", "Every backend embeds the same schema text, character for character",
  "The schema string literal that the Python, C++ and Rust bindings embed for an archive or resource (the Go bindings: for a resource other than a sub-archive) denotes exactly the canonical schema text of that archive or resource, for every character that can occur in a schema. Readers generated for one language therefore accept archives written through bindings generated for another language from the same schema.",
  ["inputs"], "all schemas and all languages",
  "Escaping must be right for all strings; tests check short fixed ones.",
  [GEN + "generators/python.py", GEN + "generators/cpp.py", GEN + "templates/"],
  [("escaping filters", GEN + "generators/python.py:_safe_py_string_line"), ("C++ literals", GEN + "templates/cpp/archive.jinja2")])

p("G15", "The generator either writes complete output or fails cleanly",
  "When the schema file is missing, does not parse, violates a rule or the requested language is unknown, the command exits with a non-zero status and leaves the output file untouched. When it succeeds the output file contains exactly the text rendered for the requested language. All schema errors raised while building the tree are of the documented syntax-error family, so that no invalid schema escapes as an unrelated exception.",
  ["inputs", "fault_sequences"], "all command lines and schemas",
  "The CLI is not tested for failures.",
  [GEN + "app.py", GEN + "engine.py", GEN + "tree/errors.py"],
  [("CLI driver", GEN + "app.py:_run"), ("error family", GEN + "tree/errors.py")])

p("G16", "Rust archive bindings open and build every declared resource",
  "The generated Rust archive reads its signature and every declared resource under its own name with its own schema text (a multivector's index with the index schema, a sub-archive in the directory named like the resource), as a view of the payload with the declared element types and as many elements as are stored, without the sentinel where elements have ranges. A missing optional resource is None, a missing mandatory one, a multivector of which only one half is there and every other failure make opening fail with the corresponding error, as do payloads that are no multiple of the element and resources above their limit. Buckets of a multivector dispatch the type tags 0, 1, ... to the element types in declaration order and refuse others. The builder creates the signature once (an existing archive is an error and nothing is written), writes every resource under the name and schema text the reader asks for, and numbers type tags the same way.",
  ["inputs"], "all archives: every resource kind, optional or not; all sizes; all failing entries",
  "Rust code is not compiled by the test suite, and expectation tests compare fixed fragments.",
  [GEN + "templates/rust/archive.jinja2", GEN + "templates/rust/variadic.jinja2", GEN + "generators/rust.py", "flatdata-rs/lib/src/"],
  [("archives", GEN + "templates/rust/archive.jinja2"), ("buckets", GEN + "templates/rust/variadic.jinja2"), ("views", "flatdata-rs/lib/src/arrayview.rs"), ("errors", "flatdata-rs/lib/src/storage.rs:check_resource")])

# ---------------------------------------------------------------- python runtime
p("C12", "Describing a C++ archive is safe in every state and shows the difference there is",
  "The description of an archive can be made in every state and reads nothing beyond the stored entries: without storage, with missing or damaged resources, with any stored schema text of any length, with or without sub-archives. It contains FATAL if and only if the archive is not open, names the archive and every declared resource where the schema matches, saying of each whether it is optional, loaded and larger than its references can denote, and for another schema shows, in order, exactly as many missing (-) and superfluous (+) lines as it takes to turn one text into the other.",
  ["inputs"], "all states of the entries of an archive and all stored schema texts",
  "The tests describe three mismatches of a few lines; the reads and writes beyond the ends only show for particular numbers of lines and file sizes.",
  ["flatdata-cpp/src/Archive.cpp", "flatdata-cpp/include/flatdata/Archive.h"],
  [("describe", "flatdata-cpp/src/Archive.cpp:describe"), ("difference", "flatdata-cpp/src/Archive.cpp:compute_diff"), ("context", "flatdata-cpp/src/Archive.cpp:create_context")])
p("P01", "Python decodes every bit field exactly",
  "Reading a field at any bit offset with any width from 1 to 64 bits yields exactly the unsigned or two's-complement value of the bits [offset, offset+width) in little-endian bit order, independent of all surrounding bits. Reading never touches bytes beyond the last byte of the struct plus the 8 bytes of padding that follow it.",
  ["inputs"], "all offsets, widths 1..64, both signs, all memory contents",
  "64 widths x 8 alignments x 2^64 contents; tests use one bit pattern per case.",
  [PYL + "data_access.py", PYL + "structure.py"],
  [("bit reader", PYL + "data_access.py:read_value")])

p("P02", "Python encodes every bit field exactly and preserves its neighbours",
  "Writing a value that fits the field makes the bits [offset, offset+width) equal to the value's (two's-complement) bits and leaves every other bit of the buffer unchanged, whatever the buffer contained before and in whatever order fields are written. No byte outside the bytes that contain these bits is written.",
  ["inputs"], "all offsets, widths 1..64, both signs, all values, all previous contents",
  "Tests write into zero-filled buffers only.",
  [PYL + "data_access.py"],
  [("bit writer", PYL + "data_access.py:write_value")])

p("P03", "Python archives expose only resources whose stored schema matches",
  "Opening an archive validates every declared resource, including the archive signature: a stored schema that differs from the expected text raises a schema mismatch error and a missing mandatory resource or schema raises a missing resource error, so that no archive object is handed out. A missing optional resource reads as None. A resource's data is never exposed through the archive before its schema compared equal, and sub-archives are validated by the same rules.",
  ["inputs", "configurations"], "all archives, every subset of missing or altered files",
  "Subsets of damaged files are exponential; tests try single ones.",
  [PYL + "archive.py", PYL + "errors.py"],
  [("validation", PYL + "archive.py:Archive._schema_validated_resource_signature"), ("eager open", PYL + "archive.py:Archive.__init__")])

p("P04", "Python containers address exactly the stored elements",
  "Element i of a vector is decoded at 8 + i x element size for 0 <= i < n, with n the size header divided by the element size; negative indexes count from the end and any other index raises IndexError instead of returning data. Slices and iteration deliver the same elements as indexing, and the arrays and data frames made of a vector or slice (also when limited to the first records) have one row per element, with the values of its fields in order. An instance has exactly one element, raw data exposes exactly the payload bytes between size header and padding, and a resource file too short to hold header and padding is rejected as corrupt.",
  ["inputs"], "all indexes, slices, sizes and contents",
  "Indexes and sizes are unbounded; tests use tiny fixtures.",
  [PYL + "resources.py", PYL + "structure.py"],
  [("bounds check", PYL + "resources.py:Vector.__getitem__"), ("element offset", PYL + "resources.py:ResourceBase._item_offset")])

p("P05", "Python multivectors decode each bucket from the index range and type tags",
  "Bucket i of a multivector consists exactly of the elements stored between the i-th and (i+1)-th index entries: starting at the first, a one-byte type tag selects the element type by its position in the declared type list (starting at 0), the element follows it, and the next tag follows the element. The number of buckets is the number of index entries minus the sentinel, and an index outside of it raises IndexError.",
  ["inputs"], "all bucket counts, types, contents",
  "Tests use one fixture with three buckets.",
  [PYL + "resources.py"],
  [("bucket decoding", PYL + "resources.py:Multivector.__getitem__")])

p("P06", "Every file the Python builder writes has the flatdata on-disk framing",
  "Each resource file written by the Python builder consists of the 8-byte little-endian payload size, the payload, and 8 zero bytes; it is accompanied by a file with the suffix .schema holding exactly the resource's schema text. Creating a builder writes the archive signature (16 zero bytes, i.e. an empty payload) and the archive schema. A multivector additionally has an index resource with one entry per bucket plus a sentinel equal to the payload size and the schema index(<schema>), each bucket's elements stored as type tag byte plus struct.",
  ["inputs", "histories"], "all resources and values",
  "The framing must hold for all payloads; tests compare a few files.",
  [PYL + "archive_builder.py", PYL + "resource_storage.py", PYL + "file_resource_writer.py"],
  [("set", PYL + "archive_builder.py:ArchiveBuilder.set"), ("framing", PYL + "resource_storage.py:_Resource"), ("index", PYL + "archive_builder.py:IndexWriter")])

p("P07", "The Python builder rejects bad input before writing the resource",
  "Setting a resource that is not in the schema, setting a resource twice, and passing an element with a missing field, an unknown field or (for multivectors) an unknown struct name each raise the documented error. In the validation failures no data file of that resource receives any element, and a resource that was written successfully is never overwritten by a later call. A resource kind or value the builder cannot write is reported by an error and never silently dropped.",
  ["inputs", "histories"], "all sequences of set calls and values",
  "Call histories and value shapes are unbounded.",
  [PYL + "archive_builder.py", PYL + "errors.py", PYL + "resource_storage.py"],
  [("guards", PYL + "archive_builder.py:ArchiveBuilder.set"), ("field validation", PYL + "archive_builder.py:ArchiveBuilder.__validate_structure_fields")])

p("P08", "Python storages return exactly the requested entry, read-only",
  "Looking up a key in the file or tar storage yields exactly the bytes of the entry with that path (for tar archives the slice given by the entry's data offset and size), a sub-storage for a directory, None for a missing optional entry, and a missing-resource error for a missing mandatory one. Files are mapped read-only and sparse tar entries are rejected as corrupt. Leading ./ in tar entry names does not matter.",
  ["inputs", "configurations"], "all keys, directory trees and tar layouts",
  "Tests use one fixture per storage.",
  [PYL + "file_resource_storage.py", PYL + "tar_archive_resource_storage.py"],
  [("lookup", PYL + "file_resource_storage.py:FileResourceStorage.get"), ("tar lookup", PYL + "tar_archive_resource_storage.py:TarArchiveResourceStorage.get")])

# ---------------------------------------------------------------- C++ runtime
p("C01", "C++ decodes every bit field exactly",
  "The C++ field reader returns, for any integer, bool or enum type, any bit offset and any width from 1 up to the width of the type, exactly the value of the bits [offset, offset+width) with the type's signedness, independent of the surrounding bits. It reads no byte beyond the field's struct plus the 8 bytes of padding that follow the data.",
  ["inputs"], "all types, offsets modulo 8, widths, and memory contents",
  "Tests sample values; the guarantee is over all bit contents of all layouts.",
  [CPP + "include/flatdata/internal/Reader.h", CPP + "include/flatdata/internal/BitHelpers.h"],
  [("reader", CPP + "include/flatdata/internal/Reader.h:Reader::operator T"), ("sign extension", CPP + "include/flatdata/internal/BitHelpers.h:extend_sign")])

p("C02", "C++ encodes every bit field exactly and preserves its neighbours",
  "Writing a value that fits the field (negative ones included, enum types included) makes the bits [offset, offset+width) the value's bits and leaves all other bits of the buffer unchanged.",
  ["inputs"], "all types, offsets modulo 8, widths, values and previous contents",
  "Tests sample values and layouts.",
  [CPP + "include/flatdata/internal/Writer.h", CPP + "include/flatdata/internal/BitHelpers.h"],
  [("writer", CPP + "include/flatdata/internal/Writer.h:Writer::operator=")])

p("C03", "C++ storage hands out data only after size and schema checks",
  "Reading a resource returns data only if both the data and the schema file exist, the data holds at least size header and padding, the size header plus header and padding equals the file size, and the stored schema text equals the expected one; otherwise it returns nothing. What is returned is exactly the payload. A multivector is returned only if both its index, under the index schema, and its data pass these checks.",
  ["inputs", "configurations"], "all file contents and sizes, all expected schemas",
  "File contents are unbounded; tests use a few corruptions.",
  [CPP + "include/flatdata/internal/ResourceStorage.inl", CPP + "include/flatdata/ResourceStorage.h"],
  [("checks", CPP + "include/flatdata/internal/ResourceStorage.inl:read_and_check_schema"), ("typed read", CPP + "include/flatdata/internal/ResourceStorage.inl:ValueCreator")])

p("C04", "C++ writers produce the flatdata framing and report failed writes",
  "Every resource written through the C++ library, at once or incrementally, consists of the 8-byte size of the payload, the payload and 8 bytes of padding, with the size header equal to the number of payload bytes written and the schema stored alongside. A failure of the underlying stream at any point before completion is reported: the one-shot write returns false and closing an incremental writer yields no data.",
  ["inputs", "fault_sequences"], "all payload sequences, all stream failures",
  "Tests never inject stream failures and use small payloads.",
  [CPP + "include/flatdata/internal/ResourceHandle.h", CPP + "src/ResourceStorage.cpp", CPP + "include/flatdata/internal/ResourceStorageCommon.h", CPP + "include/flatdata/internal/ResourceStorage.inl"],
  [("incremental", CPP + "include/flatdata/internal/ResourceHandle.h"), ("one shot", CPP + "src/ResourceStorage.cpp:write_to_stream")])

p("C05", "C++ archives open only when signature and all mandatory resources load",
  "A C++ archive reports open only if its signature resource was present with the archive's schema and every mandatory resource and sub-archive loaded; a missing optional resource does not prevent opening and is absent. An archive without storage is never open.",
  ["inputs", "configurations"], "all subsets of missing or broken resources",
  "Subsets of failures are exponential.",
  [CPP + "src/Archive.cpp", CPP + "include/flatdata/Archive.h"],
  [("initialize", CPP + "src/Archive.cpp:Archive::initialize"), ("resource loading", CPP + "include/flatdata/Archive.h:read_resource/load_archive")])

p("C06", "The tar reader stays within the file and reports damaged archives",
  "Reading a tar archive from C++ lists every regular file up to the end block with its name (including GNU long names), offset and size, and looks files up under that name without a leading './'. Directories are skipped, sizes in octal and in binary (base-256) encoding are understood. For any input it either completes or fails with an error (bad checksum, bad number or one beyond 64 bits, unknown entry type, length that is no multiple of 512, long name cut off): it never reads a header beyond the end of the file and never loops forever, and a file cut off by the end of the archive is handed out only up to that end.",
  ["inputs"], "all byte contents of tar files",
  "Arbitrary damaged inputs; tests use well-formed archives.",
  [CPP + "src/TarReader.cpp", CPP + "include/flatdata/internal/TarReader.h", CPP + "include/flatdata/MemoryMappedTarFileStorage.h"],
  [("header walk", CPP + "src/TarReader.cpp")])

p("C07", "C++ storages access their shared maps only under their lock",
  "What C++ storages keep behind their operations (caches of mapped files; streams, resources and directories of memory storages, which all storages obtained from directory() share; entries of a tar archive) may be used from several threads: any two operations that touch the same state, one of them changing it, are excluded by a common lock, no operation takes a lock it holds already, and every lock is released on every exit, exceptions included.",
  ["schedules"], "all interleavings of concurrent calls",
  "Data races need specific interleavings that tests do not provoke.",
  [CPP + "include/flatdata/FileResourceStorage.h", CPP + "include/flatdata/MemoryResourceStorage.h", CPP + "include/flatdata/TarArchiveResourceStorage.h"],
  [("mutex", CPP + "include/flatdata/FileResourceStorage.h")])

p("C08", "C++ incremental vectors and multivectors keep data, index and size in step",
  "Growing a bucket appends one index entry holding the byte position at which the bucket's data starts, items added append a type tag byte equal to the type's position in the declared list followed by the struct, and closing appends the sentinel entry equal to the total payload size. Flushing at any point moves exactly the not yet written payload to storage without losing, duplicating or reordering bytes, and the padding is never written as payload. Newly added elements start out zeroed.",
  ["histories"], "all sequences of grow, add and flush points",
  "Flush points depend on 32 MB buffers; tests use one size.",
  [CPP + "include/flatdata/MultiVector.h", CPP + "include/flatdata/ExternalVector.h"],
  [("multivector", CPP + "include/flatdata/MultiVector.h"), ("external vector", CPP + "include/flatdata/ExternalVector.h")])

p("C09", "C++ multivector views dispatch every stored element to its declared type",
  "Iterating bucket i of a C++ multivector view visits exactly the elements between the i-th and (i+1)-th index entries in order, each decoded as the type given by its tag (position in the declared list), advancing by one tag byte plus that type's size.",
  ["inputs"], "all contents and declared type lists",
  "Type lists and contents are unbounded.",
  [CPP + "include/flatdata/MultiArrayView.h", CPP + "include/flatdata/internal/MultiArrayViewImpl.h"],
  [("for_each", CPP + "include/flatdata/internal/MultiArrayViewImpl.h")])

p("C10", "C++ array views and vectors index, slice and size exactly the payload",
  "An array view over a payload has payload size / element size elements, its i-th element starts at i x element size, and slices, skips and iterators denote exactly the corresponding subrange. Vectors always keep 8 bytes of padding behind their elements, which are not part of the payload they report.",
  ["inputs"], "all sizes, indexes and slice bounds",
  "Index arithmetic over all sizes.",
  [CPP + "include/flatdata/ArrayView.h", CPP + "include/flatdata/internal/ArrayView.inl", CPP + "include/flatdata/internal/ArrayViewIterator.inl", CPP + "include/flatdata/Vector.h"],
  [("views", CPP + "include/flatdata/internal/ArrayView.inl"), ("vector", CPP + "include/flatdata/Vector.h")])

p("C11", "A C++ builder never overwrites or half-creates an archive silently",
  "Opening a builder on a storage that does not hold the archive succeeds only if the signature with the archive's schema was written. On a storage that already holds it, opening succeeds only if the stored signature matches the schema, and then only sub-archives can be added: setting a resource or starting an incremental one throws std::runtime_error and writes nothing. A builder without storage, or whose opening failed, is not open, and using it throws std::runtime_error and writes nothing.",
  ["inputs", "fault_sequences"], "all storage states and write failures",
  "Tests cover the simple success and exists cases.",
  [CPP + "src/ArchiveBuilder.cpp", CPP + "include/flatdata/ArchiveBuilder.h"],
  [("initialize", CPP + "src/ArchiveBuilder.cpp")])

# ---------------------------------------------------------------- go runtime
p("O01", "Go decodes every bit field exactly",
  "The Go field reader returns for any bit offset and width exactly the unsigned or two's-complement value of the bits [offset, offset+width), independent of the surrounding bits.",
  ["inputs"], "all offsets, widths 1..64, both signs, all contents",
  "Tests sample patterns and are not part of the regular test run.",
  ["flatdata-go/flatdata/reader.go"],
  [("Read", "flatdata-go/flatdata/reader.go:Read")])
p("O02", "Go bindings read the declared bits of the declared elements",
  "For schemas of one namespace with integer and boolean fields, archives with at least one vector and no sub-archives, the generated Go code compiles; constants have their values; opening an archive asks for every declared resource under its own name, fails if a resource that is there is damaged or carries another schema text, and marks absent resources as not open and each as optional exactly as declared. Element i of a vector (also of an inclusive slice), the instance, and the elements of a bucket of a multivector with their type tags 0, 1, ... in declaration order read every field with exactly the value of its declared bits in the Go type of its basic type; a vector has as many elements as its size header says; raw data is the payload.",
  ["inputs"], "all field widths, types and offsets; all positions, sizes and contents; all states of the resources",
  "Go code is neither compiled nor run by the test suite; expectation tests compare fixed fragments and skip constants.",
  [GEN + "templates/go/", GEN + "generators/go.py", "flatdata-go/flatdata/"],
  [("accessors", GEN + "templates/go/structure.jinja2"), ("opening", GEN + "templates/go/archive.jinja2"), ("vectors", GEN + "templates/go/vector.jinja2"), ("buckets", GEN + "templates/go/multivector.jinja2")])
p("O03", "Go storages hand out a resource only if it is complete and described",
  "The file and the in-memory storage of flatdata-go hand out exactly the data and the schema text stored under the asked name, and only if the data has room for the size header and the padding (16 bytes) and the schema is there and not empty. Otherwise they report an error, and the error of an absent resource if and only if the data is absent. The file storage looks in the directory of the archive it was given.",
  ["inputs", "faults"], "all names, lengths of the data and states of data and schema",
  "The Go tests are not part of the regular test run and cover two cases.",
  ["flatdata-go/flatdata/resource.go"],
  [("file storage", "flatdata-go/flatdata/resource.go:FileResourceStorage.GetMemoryDescriptor"), ("memory storage", "flatdata-go/flatdata/resource.go:InMemoryResourceStorage.GetMemoryDescriptor")])

# ---------------------------------------------------------------- rust runtime
p("R01", "Rust decodes and encodes every bit field exactly",
  "The Rust field macros read exactly the bits [offset, offset+width) with the type's signedness, and writing a fitting value changes exactly these bits and no others.",
  ["inputs"], "all types, offsets, widths, values and contents",
  "Rust tests sample values and are not part of the regular test run.",
  ["flatdata-rs/lib/src/bytereader.rs", "flatdata-rs/lib/src/bytewriter.rs"],
  [("reader macro", "flatdata-rs/lib/src/bytereader.rs"), ("writer macro", "flatdata-rs/lib/src/bytewriter.rs")])
p("R02", "Rust storages hand out data only after size and schema checks",
  "Reading a resource in Rust returns data only if data and schema exist, size header, payload and padding match the file size and the stored schema equals the expected one; every other case is reported as the specific error, and never as data. When an archive is opened, an optional resource reads as absent only if its data is missing, a mandatory one is then an error, every other error is passed on, and a resource with more elements than its limit is refused as too big.",
  ["inputs", "configurations"], "all file contents, all subsets of missing files, all sizes and limits",
  "File contents are unbounded and Rust tests are not part of the regular run.",
  ["flatdata-rs/lib/src/storage.rs"],
  [("checks", "flatdata-rs/lib/src/storage.rs:read_and_check_schema")])

p("R03", "Rust storages write complete, framed and described files",
  "Writing a resource in Rust, at once or element by element through an external vector or multivector of any length, leaves a file that is the size of the payload in 8 bytes, the payload in order and 8 zero bytes, and beside it the schema text exactly; the index of a multivector holds where each item begins and the total size, and is described by index(schema). What closing returns is a view of what was written. Creating an archive over an existing one is refused and writes nothing. Any failing operation of a stream makes an operation of the writer report that error: an incomplete file is never reported as written, and an element whose adding failed may be added again.",
  ["inputs", "faults", "histories"], "all payloads, element counts including those that are written in pieces, and all points at which a stream can fail",
  "Which operation of a stream fails, and the sizes at which growing vectors write what they have, are out of reach of the tests; Rust tests are not part of the regular run.",
  ["flatdata-rs/lib/src/storage.rs", "flatdata-rs/lib/src/vector.rs", "flatdata-rs/lib/src/multivector.rs"],
  [("framing", "flatdata-rs/lib/src/storage.rs:write_to_stream"), ("closing", "flatdata-rs/lib/src/storage.rs:ResourceHandle"), ("growing", "flatdata-rs/lib/src/vector.rs:ExternalVector"),
   ("items", "flatdata-rs/lib/src/multivector.rs:MultiVector")])
p("R04", "Rust storages can be read by several threads",
  "Any number of threads can open, check and read the resources of one file or memory storage of Rust, and of its directories, at the same time: no two operations wait for each other forever, and bytes that were handed out stay valid for as long as the storage lives, whatever other threads read or write.",
  ["schedules"], "all interleavings of operations on a storage",
  "No test uses a storage from two threads, and the bytes are handed out beyond what the compiler's lifetimes can check.",
  ["flatdata-rs/lib/src/filestorage.rs", "flatdata-rs/lib/src/memstorage.rs"],
  [("mapping files", "flatdata-rs/lib/src/filestorage.rs:read"), ("copying streams", "flatdata-rs/lib/src/memstorage.rs:read_resource")])
p("R05", "Rust vectors, slices, raw data and multivector views address exactly their elements",
  "A slice made from the bytes of a resource has as many elements as whole ones fit (one less for structs with a range, whose last is the sentinel), covers exactly these bytes, and odd sizes are refused. A vector holds the elements added since it was made or cleared, in order; new ones are zero, whatever was cleared or reserved before; its view leaves out the sentinel of ranged structs. A multivector view has the length of its index, its i-th bucket are the elements between the i-th and the following offset with their type tags, and slicing and iterating from either end, in any mix, visit exactly the buckets chosen, empty ones included. A substring of raw data are the bytes from the position up to the next zero byte or the end. Positions beyond these bounds and damaged indexes panic; no memory outside the resource is read.",
  ["inputs", "histories"], "all sizes, positions, ranges, element values and sequences of operations on a container",
  "The tests of the Rust crate use a few sizes and are not part of the regular run; they read in order, and never a damaged index.",
  ["flatdata-rs/lib/src/vector.rs", "flatdata-rs/lib/src/arrayview.rs", "flatdata-rs/lib/src/multiarrayview.rs", "flatdata-rs/lib/src/rawdata.rs"],
  [("slices", "flatdata-rs/lib/src/arrayview.rs:from_bytes"), ("vectors", "flatdata-rs/lib/src/vector.rs:Vector"), ("buckets", "flatdata-rs/lib/src/multiarrayview.rs:MultiArrayView"),
   ("text", "flatdata-rs/lib/src/rawdata.rs:substring_with")])

# ---------------------------------------------------------------- whole-system behaviour declined for static analysis
p("X01", "Archives written by one language read back identically in every other",
  "Any archive written through the bindings of one language is opened by the bindings of every other language and delivers identical values for every field of every element.",
  ["programs", "inputs"], "all schemas, all data, all pairs of languages",
  "Pairs of languages times data; no test crosses languages.",
  ["flatdata-cpp/", "flatdata-py/", "flatdata-rs/", "flatdata-go/"], [("common format", "docs/")])
p("X02", "Opening an archive and accessing elements is constant-time and copy-free",
  "Opening an archive costs time independent of the payload sizes, element access is O(1), and payload bytes are never copied.",
  ["inputs"], "all archive sizes", "Cost is a run-time quantity.",
  ["flatdata-cpp/", "flatdata-rs/"], [("memory mapping", "flatdata-cpp/include/flatdata/MemoryMappedFileStorage.h")])
p("X03", "A crash while writing never leaves an archive that opens with wrong data",
  "If the process or machine stops at any point while an archive is written, opening the result later either fails or delivers only completely written resources.",
  ["crash_points"], "all crash points of all write histories", "Tests never crash a writer.",
  ["flatdata-cpp/include/flatdata/internal/ResourceHandle.h", "flatdata-py/flatdata/lib/resource_storage.py"], [("size header written last", "flatdata-cpp/include/flatdata/internal/ResourceHandle.h:close")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
