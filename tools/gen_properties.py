#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code because one-line JSON is unreadable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=observe, hook_needed=None)))

prop('C01', 'Every valid encoding of a message reads back as the values it encodes',
 "Whatever valid physical layout a Cap'n Proto message has (order of objects, gaps, pointers going backwards, several segments, far and double-far pointers), every accessor of every field, list item, group, union member and untyped pointer returns exactly the value the message encodes. The answer does not depend on the layout, on which load function produced the object, or on whether the compiled or the pure-Python implementation is running.",
 ['inputs', 'configurations'],
 "every valid layout of every message of every schema x every read path x every implementation mode",
 "The tests read a few hand-written buffers: single segment for most field kinds, and far pointers for three of them. The read path branches independently per field kind, per pointer kind and per implementation, so the product is never reached.",
 ['capnpy/struct_.py', 'capnpy/list.py', 'capnpy/anypointer.py', 'capnpy/segment/segment.py', 'capnpy/segment/base.pyx', 'capnpy/ptr.h', 'capnpy/compiler/field.py'],
 [('pointer dereferencing and far-pointer resolution', 'capnpy/segment/segment.py: read_far_ptr, read_str; capnpy/struct_.py: _read_struct, _read_list, _read_data; capnpy/list.py: read_item'),
  ('generated accessors', 'capnpy/compiler/field.py: _emit_*')],
 ['field properties', 'get_*/has_*', 'list items', 'AnyPointer.as_*'])

prop('C02', 'A constructed object reads back its arguments and is valid wire data',
 "For every struct and every set of legal constructor arguments, each field of the new object reads back equal to the argument passed (or to the schema default when omitted), and no argument influences any other field. The serialized object is a well-formed message that an independent Cap'n Proto implementation decodes to the same values.",
 ['inputs', 'programs', 'configurations'],
 "every schema (field kinds, widths, offsets, defaults, groups, unions, nesting) x every tuple of legal argument values x every implementation mode",
 "The tests construct each field kind once or twice with a small value. Interactions between neighbouring fields, defaults, list lengths, buffer growth and boundary values are unbounded.",
 ['capnpy/compiler/structor.py', 'capnpy/compiler/fieldtree.py', 'capnpy/segment/builder.pyx', 'capnpy/segment/builder.py', 'capnpy/segment/_copy_list.py', 'capnpy/list.py'],
 [('generated constructors', 'capnpy/compiler/structor.py'), ('writers', 'capnpy/segment/builder.pyx / builder.py, capnpy/segment/_copy_list.py, write_item in capnpy/list.py')],
 ['constructor', 'field properties', 'dumps()'])

prop('C03', 'Copying an object out of its message preserves its whole content',
 "Serializing (with or without the fast path), dumping to a file, compacting, or passing an object or list as an argument to another object's constructor yields a valid single-segment message with exactly the same content, whatever the layout of the source message was. Content unknown to the schema in use is preserved too, and the source is not affected.",
 ['inputs', 'histories'],
 "every source layout x every copy operation x every chain of copy operations",
 "The tests copy a dozen hand-written buffers once. The copier recurses through every combination of pointer kind, list kind and section sizes, and the fast path is taken or not depending on the layout.",
 ['capnpy/message.py', 'capnpy/struct_.py', 'capnpy/segment/_copy_pointer.py', 'capnpy/segment/_copy_list.py', 'capnpy/segment/endof.py', 'capnpy/segment/base.pyx'],
 [('deep copy', 'capnpy/segment/_copy_pointer.py'), ('fast-path dump', 'capnpy/message.py: dumps; capnpy/segment/base.*: dump_message'), ('compact()', 'capnpy/struct_.py')],
 ['dumps', 'dump', 'compact', 'constructor arguments'])

prop('C04', 'The compactness verdict is exact, and what capnpy creates is compact',
 "An object is reported compact exactly when its bytes form one contiguous pre-order block with no gaps, no far pointers and no reordering, so that the bytes of the block alone reproduce the object. Every object created by a constructor, by loading a serialized object, or by compacting is reported compact, and compacting uses no more space than the content requires.",
 ['inputs'],
 "every layout of every message shape, valid padding bits included",
 "The tests assert the verdict on about fifteen buffers; a wrong verdict silently truncates or corrupts what the fast path writes, and the verdict depends on every pointer of the object.",
 ['capnpy/segment/endof.py', 'capnpy/struct_.py', 'capnpy/message.py'],
 [('contiguity traversal', 'capnpy/segment/endof.py'), ('compact()', 'capnpy/struct_.py')],
 ['_is_compact()', 'compact()', 'dumps()'])

prop('C05', 'Stream framing: exactly one whole message per load, truncation never passes',
 "Loading from a stream consumes exactly the bytes of one message, so a stream of concatenated messages yields exactly those messages in order; loading from a string rejects any trailing bytes. A stream that ends anywhere inside a message is always reported as an error and never yields an object, and a stream that ends cleanly is reported as end-of-stream.",
 ['crash_points', 'inputs', 'histories'],
 "every sequence of messages (with any number of segments and any segment sizes) x every truncation point x every trailing-byte string x every file-like source",
 "The tests check a handful of truncations of one message; truncation points, header paddings, segment counts, size extremes and message sequences multiply.",
 ['capnpy/message.py', 'capnpy/message.pxd', 'capnpy/buffered.py', 'capnpy/filelike.py'],
 [('message header parsing', 'capnpy/message.py: _load_message, _load_buffer_*'), ('iteration', 'capnpy/message.py: load_all')],
 ['load', 'loads', 'load_all'])

prop('C06', 'Malformed messages are contained: errors, never crashes or foreign memory',
 "Loading, traversing, printing, hashing, comparing, serializing, compacting or re-embedding an arbitrary byte string as a message either returns values computed only from the bytes of that message or raises an ordinary Python exception. It never crashes the interpreter, reads or writes memory outside the message and the output buffer, or recurses without bound.",
 ['inputs', 'fault_sequences'],
 "every corruption of every message (each word replaced by each adversarial pointer or size, each truncation), followed by every operation",
 "The tests cover about a dozen malformed buffers, and a memory error in the compiled code is invisible to them unless it happens to crash.",
 ['capnpy/segment/base.pyx', 'capnpy/segment/_copy_pointer.py', 'capnpy/segment/_copy_pointer.h', 'capnpy/segment/segment.py', 'capnpy/_hash.pyx', 'capnpy/segment/builder.pyx', 'capnpy/segment/endof.py', 'capnpy/list.py'],
 [('bounds checks', 'capnpy/segment/base.pyx: check_bounds; capnpy/segment/_copy_pointer.h: CHECK_BOUNDS; capnpy/_hash.pyx: strhash'), ('copier allocation sizes', 'capnpy/segment/_copy_pointer.py')],
 ['loads', 'field access', 'dumps', 'compact', 'hash', 'repr'])

prop('C07', 'Schema evolution: old and new versions of a struct interoperate',
 "A struct written with any shorter or longer version of its schema is readable with any other version: common fields keep their values and fields absent from the message read as their defaults, whether the struct is a root, a field or a list element. Re-serializing or compacting an object through an older schema keeps the data of the newer one.",
 ['inputs', 'configurations', 'histories'],
 "every pair (size on the wire, size in the schema) x every placement of the struct x every accessor and copy operation",
 "The tests read three size combinations of a root struct; list elements, nested structs, pointer sections and copying across versions are not covered.",
 ['capnpy/struct_.py', 'capnpy/list.py', 'capnpy/segment/_copy_pointer.py', 'capnpy/segment/_copy_list.py'],
 [('short-section reads', 'capnpy/struct_.py: _read_primitive, _read_fast_ptr'), ('tag-driven item sizes', 'capnpy/list.py: _set_list_tag'), ('inline struct copy', 'capnpy/segment/_copy_pointer.py: _copy_struct_inline')],
 ['field properties', 'list items', 'dumps', 'compact', 'constructor list arguments'])

prop('C08', 'Exactly one union member is active, and every query agrees on which',
 "For every object with a union (anonymous, named, or nested in groups), the tag value, the tag query and the per-member predicates agree with the member that was set, and reading any other member raises an error instead of returning data. Constructors set exactly the member requested, refuse conflicting members, and write the tag and value where an independent implementation finds them.",
 ['inputs', 'programs'],
 "every schema with unions (kinds of member, nesting, tag positions) x every subset of members passed x every constructor x every tag value on the wire",
 "The tests set a few members of three small unions; member kinds, nested unions, several unions in one struct, unknown tags and reordered ordinals multiply.",
 ['capnpy/struct_.py', 'capnpy/compiler/struct_.py', 'capnpy/compiler/structor.py', 'capnpy/compiler/fieldtree.py'],
 [('tag checks', 'capnpy/struct_.py: check_tag, _ensure_union, which'), ('generated tag and constructors', 'capnpy/compiler/struct_.py: _emit_union_tag, _emit_ctors_union; capnpy/compiler/structor.py: handle_node')],
 ['which()', '__which__()', 'is_*()', 'new_*()', 'member properties'])

prop('C09', 'Keyed structs compare and hash like the tuple of their key fields',
 "A struct with a key compares equal to another keyed struct or to a plain tuple exactly when the tuples of key values are equal, and its hash equals the hash of that tuple, whatever layout the message has and whichever fields are not part of the key. Structs without a key are neither comparable nor hashable, and no struct is ordered.",
 ['inputs', 'configurations'],
 "every key declaration (kinds and numbers of fields, groups, nested keys, 'all fields') x every pair of values x every layout x every implementation mode",
 "The tests compare a few small ints and strings; the compiled mode reimplements Python's hashing per width and sign, where wrong values appear only at specific boundaries, lengths and layouts.",
 ['capnpy/_hash.pyx', 'capnpy/_hash.h', 'capnpy/_hash_cpython.c', 'capnpy/struct_.py', 'capnpy/segment/segment.py', 'capnpy/compiler/struct_.py'],
 [('fast hashes', 'capnpy/_hash.pyx; capnpy/segment/segment.py: hash_str'), ('generated key', 'capnpy/compiler/struct_.py: _emit_key_maybe, _emit_fash_hash'), ('comparison protocol', 'capnpy/blob.py, capnpy/struct_.py: _equals')],
 ['==', '!=', 'hash()', 'dict lookup'])

prop('C10', 'Buffered readers return the same bytes however the input is chunked',
 "For any byte stream, any way the source splits it into chunks, and any sequence of sized reads, unlimited reads and line reads, a buffered reader returns the same results as an ordinary in-memory file over the whole stream. No byte is lost, duplicated or reordered, and reads return short only at the end of the stream; the position reported by an in-memory reader is always the number of bytes returned.",
 ['schedules', 'histories', 'inputs'],
 "every byte stream x every partition into chunks x every sequence of operations",
 "The tests use two or three fixed chunkings and operation sequences; buffer-refill bugs need a specific coincidence of chunk boundary, buffered remainder and requested size.",
 ['capnpy/buffered.py', 'capnpy/filelike.py', 'capnpy/buffered.pxd'],
 [('buffer refill', 'capnpy/buffered.py: _fillbuf, read, readline, _readall'), ('adapter', 'capnpy/filelike.py: FileLikeAdapter')],
 ['BufferedStream.read/readline', 'BufferedSocket', 'StringBuffer.read/readline/tell'],
 [('buf, i', 'bytes received and not yet returned', 'capnpy/buffered.py')])

prop('C11', 'Lists behave as immutable Python sequences of the encoded items',
 "For every element type and length, the length, indexing (negative included), slicing with any start/stop/step, iteration, membership and out-of-range errors of a list are those of the Python list of its decoded items. Two lists of comparable elements are equal exactly when their item sequences are, regardless of layout, and a list equals a plain list exactly when the items do.",
 ['inputs'],
 "every element type x every length x every index and slice x every pair of lists x every layout",
 "The tests index small lists; slices, bit-packed boundaries, nested lists, equality across different layouts and element types form an unbounded product.",
 ['capnpy/list.py', 'capnpy/list.pxd', 'capnpy/segment/endof.py'],
 [('indexing and equality', 'capnpy/list.py: __getitem__, _equals, _get_slice'), ('item decoders', 'capnpy/list.py: *ItemType.read_item')],
 ['len', '[]', 'iteration', '=='])

prop('C12', "The textual form agrees with the official tool and encodes back to the message",
 "For every object, the short textual representation is the one the reference command-line tool prints for the same message, and feeding it back to the reference encoder reproduces the same message. This covers every field kind, escaping of text and data, floats, enums, unions, groups, nested and empty lists, and null pointers.",
 ['inputs', 'configurations'],
 "every message of every schema, characters and float values included",
 "The tests compare two or three dozen fixed values with the official tool; escaping, float formatting and null handling depend on the value.",
 ['capnpy/compiler/struct_.py', 'capnpy/list.py', 'capnpy/util.py', 'capnpy/floatrepr/_float_repr.py', 'capnpy/enum.py'],
 [('generated representation', 'capnpy/compiler/struct_.py: _emit_repr'), ('value formatting', 'capnpy/util.py: text/data repr, capnpy/floatrepr; capnpy/list.py: item_repr')],
 ['shortrepr()', 'repr()'])

prop('C13', 'Compilation options apply to exactly the scope they annotate',
 "For every placement of option annotations on the file, structs, nested structs, groups and fields, and every set of defaults passed to the compiler, each field is named and typed according to the innermost setting that applies to it and nothing else is affected. Field names follow the documented conversion, and names that are Python keywords are made usable in every generated interface.",
 ['configurations', 'programs'],
 "every assignment of {unset, on, off} for each option at each scope x every default x every implementation mode",
 "The tests try a handful of placements; options are inherited through a tree whose depth, mixture and defaults multiply.",
 ['capnpy/compiler/module.py', 'capnpy/compiler/node.py', 'capnpy/compiler/struct_.py', 'capnpy/annotate_extended.py', 'capnpy/convert_case.py', 'capnpy/compiler/misc.py'],
 [('option inheritance', 'capnpy/compiler/module.py: compute_options_generic; capnpy/annotate_extended.py: combine'), ('naming', 'capnpy/compiler/module.py: py_field_name, _mangle_name; capnpy/convert_case.py')],
 ['generated attribute names', 'types of text fields'])

prop('C14', 'Schema loading: one module per schema, imports resolve to the same types',
 "Loading a schema by module name, import name or file name, in any order and any number of times, gives the same module object, and every import of that schema by other schemas refers to that same module, so types are shared and interchangeable. Any import graph the reference compiler accepts (chains, diamonds, files with equal base names in different directories, nested types, unused imports) loads and gives correct types.",
 ['histories', 'programs', 'configurations'],
 "every import graph x every order of load calls x every way of naming the schema",
 "The tests import one file from another in two or three shapes; load order, aliasing and name clashes are never varied.",
 ['capnpy/compiler/compiler.py', 'capnpy/compiler/module.py', 'capnpy/compiler/node.py', 'capnpy/compiler/request.py'],
 [('module cache', 'capnpy/compiler/compiler.py: load_schema, _get_filename, _find_file'), ('import emission', 'capnpy/compiler/request.py: _declare_imports; capnpy/compiler/module.py: register_import')],
 ['load_schema', 'module attributes'],
 [('modules', 'loaded schema modules by file name', 'capnpy/compiler/compiler.py')])

prop('C15', 'Reflection, constants and annotations report what the schema says',
 "For every schema, the reflection data gives for every generated type, field and enumerant the node and the annotations declared in the schema, with the declared values and the Python names actually generated, however often and in whatever order it is queried. Constants evaluate to the declared value, with the same types fields have.",
 ['programs', 'configurations', 'histories'],
 "every schema x every entity x every order and repetition of queries",
 "The tests query a few entities once; annotation lookup, virtual groups and constants vary with the schema and with what was queried before.",
 ['capnpy/reflection.py', 'capnpy/compiler/module.py', 'capnpy/compiler/node.py', 'capnpy/schema.py', 'capnpy/schema_extended.py'],
 [('lookup', 'capnpy/reflection.py: get_node, get_annotation; capnpy/compiler/module.py: has_annotation'), ('constants', 'capnpy/compiler/node.py: Node__Const')],
 ['get_reflection_data', 'module constants'])

prop('C16', 'The message builder keeps every write and never overlaps allocations',
 "Through any sequence of allocations and writes, allocated regions are disjoint, start zeroed, keep what was written to them while the buffer grows, and pointers written for them refer to exactly the allocated region. The resulting string is exactly the allocated bytes, and the compiled and pure-Python builders produce the same string.",
 ['histories', 'configurations'],
 "every sequence of builder operations with every size, across every growth boundary",
 "The tests allocate a few small objects; growth happens at specific totals and bugs need an operation straddling one of them.",
 ['capnpy/segment/builder.pyx', 'capnpy/segment/builder.py', 'capnpy/segment/builder.pxd'],
 [('growth', 'capnpy/segment/builder.pyx: _resize, allocate'), ('writers', 'capnpy/segment/builder.*')],
 ['SegmentBuilder methods', 'as_string()'],
 [('buf, length, end', 'the growing buffer', 'capnpy/segment/builder.pyx')])

prop('C17', 'Pointer words and primitives are encoded and decoded per the specification',
 "For every pointer kind and every combination of its fields, packing and unpacking a pointer word follows the Cap'n Proto specification and round-trips; every primitive read returns the value stored at the offset or raises an index error exactly when the read does not fit in the buffer. The compiled and the pure-Python implementations agree on every input.",
 ['inputs', 'configurations'],
 "every field value of every pointer kind; every width x every buffer x every offset",
 "The tests try one or two values per function; sign extension, masks and boundaries differ per function and per implementation.",
 ['capnpy/ptr.py', 'capnpy/ptr.h', 'capnpy/ptr.pyx', 'capnpy/packing.py', 'capnpy/packing.pyx', 'capnpy/segment/base.py', 'capnpy/segment/base.pyx'],
 [('pointer codec', 'capnpy/ptr.h, capnpy/ptr.py'), ('primitive codec', 'capnpy/segment/base.*, capnpy/packing.*')],
 ['capnpy.ptr functions', 'segment reads', 'capnpy.packing functions'])

prop('C18', 'Absent values: defaults, null pointers and nullable fields',
 "Omitting a field, writing its default explicitly, and reading a message that stores zeros or null all mean the declared default, for every kind of field and every default value. For pointer fields the attribute gives None when null, the getter gives the empty default, and the presence query says which; nullable fields give None exactly when null; virtual groups expose exactly the flat fields they name.",
 ['inputs', 'programs'],
 "every field kind x every default value x every stored value x present or absent x nesting in groups and unions",
 "The tests use one default for a few integer fields; signs, widths, booleans, enums, floats and nesting in groups interact with the XOR encoding of defaults.",
 ['capnpy/compiler/field.py', 'capnpy/compiler/structor.py', 'capnpy/compiler/fieldtree.py', 'capnpy/struct_.py', 'capnpy/schema_extended.py'],
 [('XOR defaults', 'capnpy/compiler/field.py: _emit_primitive, _emit_bool, _emit_enum; capnpy/compiler/structor.py: handle_primitive, handle_bool'), ('null handling', 'capnpy/compiler/field.py: get_*/has_*; annotate_extended.py: nullable')],
 ['field properties', 'get_*', 'has_*', 'constructor'])

prop('C19', 'Pickling and raw dumps restore an equivalent object',
 "Pickling with any protocol, copying, deep-copying or raw-dumping any object (root, nested struct, list element, group, single or multiple segments) and restoring it gives an object of the same type whose every field reads the same. Repeating the cycle any number of times changes nothing.",
 ['inputs', 'histories'],
 "every layout x every way of reaching an object x every sequence of pickle/raw-dump/copy cycles",
 "The tests pickle one single-segment and one multi-segment root object.",
 ['capnpy/struct_.py', 'capnpy/segment/segment.py'],
 [('pickle support', 'capnpy/struct_.py: __reduce__; capnpy/segment/segment.py: __reduce__'), ('raw dumps', 'capnpy/struct_.py: _raw_dumps, _raw_loads')],
 ['pickle', 'copy', '_raw_dumps/_raw_loads'])

prop('C20', 'Untyped pointers classify and cast their target correctly',
 "For every value stored behind an untyped pointer, in any layout, the kind queries say what the target really is, and casting it to the matching struct, list, text or data type gives the stored value; a null pointer reads as absent. Serializing an untyped struct keeps its content.",
 ['inputs'],
 "every target (null, struct, each list kind, text, data) x every layout (near, backward, far, double-far) x every query and cast",
 "The tests check one single-segment struct, list and text.",
 ['capnpy/anypointer.py', 'capnpy/list.py', 'capnpy/struct_.py'],
 [('classification and casts', 'capnpy/anypointer.py'), ('runtime item types', 'capnpy/list.py: ItemType.from_type')],
 ['AnyPointer.is_*', 'AnyPointer.as_*', 'AnyPointer.dumps'])

prop('C21', 'Objects are immutable values: no operation changes what others observe',
 "No sequence of reads, comparisons, hashes, prints, serializations, compactions, copies, pickles or uses as constructor argument changes the value of any object or the result of any later operation, including objects that share the same message. Attributes of an object cannot be assigned, and constructor arguments passed by the caller are left untouched.",
 ['histories', 'schedules'],
 "every sequence of operations on every set of objects sharing a message",
 "The tests perform one operation per object; state leaking between operations or objects needs a history.",
 ['capnpy/struct_.py', 'capnpy/list.py', 'capnpy/anypointer.py', 'capnpy/message.py', 'capnpy/compiler/structor.py'],
 [('read-only views over one buffer', 'capnpy/blob.py, capnpy/struct_.py, capnpy/list.py')],
 ['all accessors', 'dumps', 'compact'])

prop('C22', 'The command line decodes every message and compiles like dynamic loading',
 "The decode command prints the textual form of every message of a stream, one per line and in order, and ends normally exactly when the stream ends at a message boundary. A schema compiled from the command line, with any combination of options, gives a module whose types behave as those of the dynamically loaded schema with the same options.",
 ['inputs', 'configurations'],
 "every stream (number of messages, sizes, truncation points) x every option combination",
 "The tests only parse the arguments and compile one schema; the decode loop is never run.",
 ['capnpy/__main__.py', 'capnpy/compiler/compiler.py', 'capnpy/annotate_extended.py'],
 [('decode loop', 'capnpy/__main__.py: decode'), ('standalone compiler', 'capnpy/compiler/compiler.py: StandaloneCompiler')],
 ['python -m capnpy decode', 'python -m capnpy compile'])

prop('C23', 'Out-of-range or ill-typed arguments are refused, never silently altered',
 "A constructor argument that the field cannot represent (an integer outside the range of its width, a value of the wrong type, a struct of another type, a wrong number of group members) raises an exception. In no case does it produce an object whose fields differ from the arguments.",
 ['inputs'],
 "every field kind and position (direct, list item, group, union, enum, nested list) x every illegal value class x every implementation mode",
 "The tests check two illegal values; the refusal depends on per-width conversions in several separate writers.",
 ['capnpy/compiler/structor.py', 'capnpy/segment/builder.pyx', 'capnpy/segment/builder.py', 'capnpy/list.py'],
 [('typed writers', 'capnpy/segment/builder.*: write_*; capnpy/list.py: write_item')],
 ['constructor'])

prop('C24', 'Enums convert faithfully between numbers, names and members',
 "For every enum, each declared member has the declared number and name, every number that can appear on the wire (declared or not) is represented as an enum value equal to that number, and unknown numbers are shown as unknown rather than as some other member or an error. The value survives reading, writing, listing, printing and copying.",
 ['inputs', 'programs'],
 "every enum x every 16-bit value x every place an enum can appear",
 "The tests use three members and one unknown value; sign handling and tuple indexing only go wrong in other parts of the range.",
 ['capnpy/enum.py', 'capnpy/compiler/enum.py', 'capnpy/compiler/field.py', 'capnpy/list.py', 'capnpy/struct_.py'],
 [('enum class', 'capnpy/enum.py'), ('reads', 'capnpy/compiler/field.py: _emit_enum; capnpy/list.py: EnumItemType')],
 ['enum fields', 'enum lists', 'union tags'])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
