#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the definitions here and in checks.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
P = []


def p(id, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': list(observe), 'hook_needed': None}})


p('C01', 'A value written is the value read back',
  'Whatever value the C creation API accepts (null, booleans, 32-bit integers, floats, byte strings, UCS-4 strings, bit vectors, native vectors of every item type, and value vectors nested within the depth limit of the library), serializing it succeeds, opening the resulting bytes with validation succeeds, and reading it yields exactly that value. Storage the library picks on its own (compressed integer vectors, compact bit vectors, shared strings) never changes a value: integers keep their numeric value, floats their bits, strings their characters and length, vectors their length and order. Native vectors keep their item type.',
  ['inputs'], 'every value of the supported kinds, every payload',
  'Tests round-trip a few sampled documents; storage decisions depend on exact ranges, lengths and bit patterns that samples miss.',
  ['src/pointless_create.c', 'src/pointless_reader.c', 'src/pointless_value.c', 'src/pointless_bitvector.c', 'src/pointless_validate.c'],
  [('serialization with compression and reference remapping', 'src/pointless_create.c: pointless_create_output_and_end_, pointless_serialize_*, pointless_create_vector_type/compression'), ('typed accessors', 'src/pointless_reader.c: pointless_reader_*')],
  ['pointless_create_output_and_end_b', 'pointless_open_b', 'pointless_reader_*'])
p('C02', 'Set and map lookups find exactly the stored entries',
  'In a serialized set or map, looking up any hashable key (by value, by hash and caller-supplied equality, or by hash iteration) finds the entry if and only if an equal key was stored, and a map lookup delivers the value stored under that key. Iteration visits every entry exactly once, the item count is the number of entries, and the container written is accepted by validation. A set or map with two equal keys is refused at serialization with an error.',
  ['inputs', 'histories'], 'every set of keys and every candidate key, all insertion orders, all hash collisions',
  'Lookup correctness depends on hash collisions and probe order; tests look up a few hand-picked keys.',
  ['src/pointless_hash_table.c', 'src/pointless_create.c', 'src/pointless_reader.c', 'src/pointless_validate_hash_table.c'],
  [('open addressing with perturbation', 'src/pointless_hash_table.c: pointless_hash_table_populate, pointless_hash_table_probe'), ('hash-table layout check', 'src/pointless_validate_hash_table.c')],
  ['pointless_reader_set_lookup', 'pointless_reader_map_lookup', 'pointless_reader_*_iter'])
p('C03', 'Opening arbitrary bytes terminates and never touches memory outside them',
  'Opening any byte buffer or file of any content and length with validation returns, with success or with an error message, after bounded work. It never reads outside the given bytes, never writes to them, never divides by zero or recurses without limit, and leaves no memory allocated when it refuses the input.',
  ['inputs'], 'every byte string of every length',
  'Tests open files that the library itself wrote; malformed input is an unbounded space of offsets, counts and type codes.',
  ['src/pointless_reader.c', 'src/pointless_validate.c', 'src/pointless_validate_heap.c', 'src/pointless_validate_heap_ref.c', 'src/pointless_validate_hash_table.c', 'src/pointless_walk.c', 'src/pointless_cycle_marker.c'],
  [('header and offset-vector bounds', 'src/pointless_reader.c: pointless_init'), ('per-value heap bounds', 'src/pointless_validate_heap.c, src/pointless_validate_heap_ref.c'), ('depth-limited walk', 'src/pointless_validate.c, src/pointless_walk.c')],
  ['pointless_open_b', 'pointless_open_f'])
p('C04', 'Whatever validation accepts can be used safely through every read operation',
  'If opening a byte buffer with validation succeeds, then every documented read operation applied to every value reachable from the root (typed and generic element access, string length and content, set/map iteration and lookup, hashing, comparison, counting, bit access) stays inside the buffer, terminates and delivers well-formed values. Each stored set or map entry is found again by looking up its own key.',
  ['inputs'], 'every accepted byte string',
  'Tests use only files the library wrote, which satisfy more than validation demands.',
  ['src/pointless_validate.c', 'src/pointless_validate_heap.c', 'src/pointless_validate_hash_table.c', 'src/pointless_reader.c', 'src/pointless_hash.c', 'src/pointless_cmp.c'],
  [('validation', 'src/pointless_validate.c: pointless_validate'), ('accessors trusting validated structure', 'src/pointless_reader.c')],
  ['pointless_open_b', 'pointless_reader_*', 'pointless_hash_reader_32', 'pointless_cmp_reader'])
p('C05', 'Equal hashable values have equal hashes in every representation',
  'Two hashable values that compare equal have the same hash, whatever representation each uses: integers against floats and booleans of the same numeric value, byte strings against wide strings, the six bit vector encodings, value vectors against native or empty vectors with equal items. The hash of a value during creation is the hash of the same value when read back.',
  ['inputs'], 'every pair of hashable values in every pair of representations',
  'Equality across representations is a relation between all pairs of encodings; tests compare a handful.',
  ['src/pointless_hash.c', 'src/pointless_bitvector.c', 'src/pointless_create.c'],
  [('per-type hash functions', 'src/pointless_hash.c: pointless_hash_reader_32, pointless_hash_create_32')],
  ['pointless_hash_reader_32', 'pointless_hash_create_32'])
p('C06', 'Comparison is a consistent order and the same during creation and reading',
  'Comparing any two values gives a sign that is reversed when the arguments are swapped, is zero for a value and itself, and within numbers (other than NaN), texts, bit vectors and vectors is a total order: numeric for numbers, by code unit then length for texts, bitwise lexicographic for bit vectors, element-wise then length for vectors. The same two values compare the same way while being created and after being read back, whichever storage they use.',
  ['inputs'], 'every pair and triple of values',
  'Order laws quantify over all pairs and triples, and mixed-type pairs each take a different code path.',
  ['src/pointless_cmp.c'],
  [('comparison dispatch by type pair', 'src/pointless_cmp.c: pointless_cmp_reader, pointless_cmp_create')],
  ['pointless_cmp_reader', 'pointless_cmp_create'])
p('C07', 'Every encoding of a bit vector behaves as the same sequence of bits',
  'A bit vector has six stored encodings (explicit, all-zero, all-one, zeros-then-ones, ones-then-zeros, packed); for each, the bit count, every single bit, the any-bit-set test, the hash and the comparison with any other bit vector are those of the plain bit sequence. Creating a bit vector and reading it back preserves all bits whichever encoding the library selects.',
  ['inputs'], 'every bit sequence in every encoding that can express it, and every pair of these',
  'The encodings are chosen by the bit pattern; tests only reach the patterns they happen to contain.',
  ['src/pointless_bitvector.c', 'src/pointless_create.c'],
  [('encoding selection', 'src/pointless_create.c: pointless_create_bitvector'), ('encoding-aware accessors', 'src/pointless_bitvector.c')],
  ['pointless_bitvector_is_set', 'pointless_bitvector_cmp_*', 'pointless_bitvector_hash_32'])
p('C08', 'Integer vectors are stored losslessly and report their items everywhere',
  'A vector of values that is stored in a native integer or float item type on disk delivers the same items, in the same order, through every accessor (typed array, generic element access), and is stored natively only if every item fits the item type. Hash and comparison of such a vector equal those of the uncompressed vector of the same items.',
  ['inputs'], 'every sequence of integers and floats, all payloads',
  'The chosen width depends on the extreme items; boundary combinations are too many to sample.',
  ['src/pointless_create.c', 'src/pointless_reader.c'],
  [('width selection', 'src/pointless_create.c: pointless_create_output_and_end_ (vector compression)')],
  ['pointless_reader_vector_value_case', 'pointless_reader_vector_*'])
p('C09', 'Sorting yields an ordered permutation and reports comparator failures',
  'The generic in-place sort, given any comparison that is a total preorder, ends with the items in non-decreasing order and performs only swaps of valid positions, so the result is a permutation of the input. If the comparison reports a failure, the sort stops and returns failure; otherwise it returns success.',
  ['inputs'], 'every array content and length, every failing comparison',
  'Quicksort variants go wrong for particular orders, duplicates and size thresholds.',
  ['src/custom_sort.c'], [('quicksort with insertion sort and pseudo-median pivots', 'src/custom_sort.c: bentley_sort_')], ['bentley_sort_'])
p('C10', 'The growable array behaves as a list, also when memory runs out',
  'After any sequence of push, bulk push, pop, swap, clear, adopt-buffer and item access, the array holds exactly the items a list would, in the same order, and its reported size and byte count match. When an allocation fails or the size would overflow, the operation reports failure and the array keeps its previous contents.',
  ['histories', 'fault_sequences'], 'every sequence of operations and item sizes, every failing allocation',
  'Growth thresholds and failure points occur at particular sizes that tests do not reach.',
  ['src/pointless_dynarray.c'], [('geometric growth with overflow checks', 'src/pointless_dynarray.c: pointless_dynarray_push, pointless_dynarray_push_bulk')], ['pointless_dynarray_*'])
p('C11', 'Overflow-checked arithmetic is exact or flagged',
  'The checked addition and multiplication on 32-bit, 64-bit and size values set the overflow flag exactly when the mathematical result does not fit or an operand was already flagged, and otherwise deliver the exact result.',
  ['inputs'], 'every pair of operands', 'The operand space is 2^128; tests sample a few values.',
  ['src/pointless_int_ops.c'], [('overflow predicates', 'src/pointless_int_ops.c: intop_*_add, intop_*_mult')], ['intop_u32_add', 'intop_u64_mult', '...'])
p('C12', 'The arithmetic expression evaluator follows ordinary arithmetic',
  'Compiling an expression of numbers, variables, parentheses and the operators + - * / (up to 512 tokens) accepts exactly the well-formed expressions, and evaluating one without variables yields the value of ordinary left-associative arithmetic with the usual precedence over unsigned 64-bit integers. Overflow, negative intermediate results and division by zero are reported as errors, never as a wrong number; evaluating a variable is not supported and reports an error; malformed or over-long input never causes memory errors.',
  ['inputs', 'programs'], 'every expression string',
  'Expression strings form an infinite language; tests use a few.',
  ['src/pointless_int_ops.c'], [('tokenizer, shunting parser and stack evaluation', 'src/pointless_int_ops.c: intop_eval_compile, intop_eval_eval')], ['intop_eval_compile', 'intop_eval_eval'])
p('C13', 'Vectors on a cycle are recognised exactly, when writing and when reading',
  'In any graph of vectors, sets and maps, a container is marked as cyclic exactly if it can reach itself; the marking is the same when computed from the creation state and from the stored file. Values that contain a cycle can be serialized, opened and read, are never treated as hashable, and are refused as set members or map keys.',
  ['inputs'], 'every object graph',
  'Strongly connected components depend on graph shape; tests have a few fixed graphs.',
  ['src/pointless_cycle_marker.c', 'src/pointless_cycle_marker_wrappers.c', 'src/pointless_create.c', 'src/pointless_validate.c'],
  [('strongly connected components', 'src/pointless_cycle_marker.c: pointless_cycle_marker')], ['pointless_cycle_marker_read', 'pointless_cycle_marker_create', 'pointless_open_b'])
p('C14', 'Reusing handles and interned strings never mixes up values',
  'The creation API may hand out the same handle or share storage for repeated scalars and strings, but two requests share only if they denote the same value of the same kind, at every point of the creation history. Repeating a request is always possible and equal strings are stored once in the file.',
  ['histories', 'inputs'], 'every sequence of creation requests',
  'A mix-up needs two particular values at the edge of the cached range or a particular earlier history.',
  ['src/pointless_create_cache.c', 'src/pointless_create.c'], [('small integer cache', 'src/pointless_create_cache.c'), ('string interning tables', 'src/pointless_create.c: pointless_create_unicode_*, pointless_create_string_*')], ['pointless_create_*'])
p('C15', 'Text conversions preserve every character or refuse',
  'Conversions between the 8-, 16- and 32-bit string forms deliver exactly the same sequence of characters with the right terminator whenever the target can represent each of them, and the range checks tell precisely when it can. All text constructors of the creation API (from each width) yield the same stored value for the same characters and refuse characters outside the allowed range.',
  ['inputs'], 'every string content and length', 'Range boundaries and lengths are unlimited; tests use a few words.',
  ['src/pointless_unicode_utils.c', 'src/pointless_create.c'], [('width conversion', 'src/pointless_unicode_utils.c')], ['pointless_ucs4_to_ucs2', 'pointless_create_unicode_*', 'pointless_create_string_*'])
p('C16', 'The convenience lookups agree with plain map and set lookup',
  'Looking up an integer (or a string) through the convenience functions finds an entry exactly if the map or set holds a key of integer type with that value (or a text key with those characters), and delivers that entry converted to the requested type exactly if it has that type and fits. They never report success with an uninitialised or truncated result. Key-set comparison of two containers holds exactly when both hold equal keys.',
  ['inputs'], 'every key and every container content', 'Tests barely touch these helpers.',
  ['src/pointless_reader_helpers.c'], [('hash-and-compare lookup', 'src/pointless_reader_helpers.c: pointless_get_map_*')], ['pointless_get_mapping_*', 'pointless_is_int_in_set', 'pointless_has_same_keys_*'])
p('C17', 'Path expressions deliver the addressed element or fail',
  'Evaluating a path expression of bracketed integers, quoted strings and printf-style parameters against a stored value delivers exactly the value obtained by following those subscripts one at a time, and fails if the expression is malformed, a subscript is out of range, a key is absent the container has the wrong type, or the item is a 64-bit integer that no 32-bit value can hold. The typed variants succeed exactly if the addressed value has the requested type.',
  ['inputs', 'programs'], 'every expression string and stored value', 'The expression language is infinite and has no test.',
  ['src/pointless_eval.c'], [('expression parser and step evaluation', 'src/pointless_eval.c: pointless_eval_get_')], ['pointless_eval_get*'])
p('C18', 'Copying a stored value into a new file preserves it',
  'Recreating any stored value written by the creation API (with sharing and cycles) into a new creation context and serializing it yields a document that is accepted when opened and whose value equals the original: the same shape with the same sharing and cycles, the same scalars, strings and bit vectors, the same entries of sets and maps, and native vectors of the same item type. The original is not changed.',
  ['inputs'], 'every stored value', 'Tests copy one or two documents; each value kind has its own copy path.',
  ['src/pointless_recreate.c'], [('recursive copy with container memo', 'src/pointless_recreate.c: pointless_recreate_value')], ['pointless_recreate_value', 'pointless_recreate_64'])
p('C19', 'Writing a file is all or nothing, opening one leaves nothing behind',
  'Serializing to a file either succeeds, with the target holding the complete new content, equal to the bytes of serializing the same value to memory, or fails with an error message, with the target exactly as before. In both cases no temporary file, open stream or descriptor is left. This holds for every failure of an open, write, flush, sync, mode change, close or rename along the way. At every moment in between (should the process or machine stop there) the target holds either its old or the complete new content, and the new content is synced before it appears under the target name. Opening a file succeeds exactly when opening its bytes in memory does, gives the same value, and fails with a message, without leaving a descriptor or mapping, when any call fails; closing releases everything. Copying a file to another keeps both rules.',
  ['fault_sequences', 'crash_points'], 'every system call failing at every point', 'Tests never inject file system errors.',
  ['src/pointless_create.c', 'src/pointless_reader.c', 'src/pointless_recreate.c'], [('temporary file, sync and rename', 'src/pointless_create.c: pointless_create_output_and_end_f'), ('map and unmap', 'src/pointless_reader.c: _pointless_open_f, pointless_close')], ['pointless_create_output_and_end_f', 'pointless_open_f', 'pointless_close', 'pointless_recreate_64'])
p('C20', 'Running out of memory is reported without a crash, leak or damage',
  'If any memory allocation fails during creation, serialization (to memory or file), opening or copying, the operation in progress either reports failure (serialization, opening and copying with a message) or completes with the right result. No memory outside live blocks is touched, none is freed twice, and after the usual cleanup call nothing remains allocated, no file stays open and no temporary file is left. Values created before the failure remain usable, and the failed creation or copy succeeds when repeated with memory available.',
  ['fault_sequences'], 'every allocation failing, for every small document', 'Tests never make an allocation fail.',
  ['src/pointless_create.c', 'src/pointless_dynarray.c', 'src/pointless_reader.c', 'src/pointless_malloc.c'], [('checked allocations and error unwinding', 'src/pointless_create.c')], ['pointless_create_*', 'pointless_open_b', 'pointless_recreate_value'])
p('C21', 'Every container of a stored document has its own id within range',
  'Each distinct vector, set and map of a stored document has a container id that is smaller than the reported number of containers and that no other container of the document shares, and the id is the same on every query. Values that are not containers are never treated as one.',
  ['inputs'], 'every stored document', 'Ids are computed from per-kind counters; tests never compare them across kinds.',
  ['src/pointless_reader.c'], [('ids from heap references plus per-type offsets', 'src/pointless_reader.c: pointless_container_id')], ['pointless_container_id', 'pointless_n_containers'])

p('C22', 'PointlessBitvector behaves like a list of bits',
  'A PointlessBitvector (Python), whatever sequence of append, pop, append_bulk (of another vector, stored or not, or of itself), extend_true, extend_false, item assignment and copy has been applied to it, has the length, items, iteration order, IsAnySet and Num(Zero|One)(Prefix|Postfix) of the list of bits that the same operations give. Vectors compare like lists of bits, and hash by their bits alone, whether made in Python or read from a document. Indexes may be negative; an index out of range, or an item, size, extension or sequence item that is not allowed, raises an exception of the documented kind and changes nothing; a vector read from a document refuses every change. An exception is raised exactly when an operation fails, and no object or buffer is leaked.',
  ['histories', 'inputs'], 'every history of operations, every index and value',
  'The number of set bits is kept incrementally by each operation, and leftovers beyond the last bit stay in the buffer: what goes wrong depends on the history, of which tests try a few.',
  ['python/pointless_bitvector.c'], [('growth, bulk append and the count of set bits', 'python/pointless_bitvector.c: PyPointlessBitvector_extend_by, _append_bulk, _pop, _ass_subscript'), ('comparison, hashing and counting over both representations', 'python/pointless_bitvector.c: PyPointlessBitvector_richcompare, PyPointlessBitVector_hash')],
  ['pointless.PointlessBitvector'])

p('C23', 'PointlessPrimVector behaves like a list of numbers of its type',
  'A PointlessPrimVector (Python) of any of the nine item types, whatever sequence of append, append_bulk (of a list, another vector, stored or not, or itself), pop, pop_bulk, item assignment, remove, fast_remove, sort, clear and slicing has been applied to it, has the length, items, iteration order (both ways), index, in, min, max and range of the list that the same operations give. A number is accepted exactly when it is of the right kind and within the range of the type; every refused item, index or argument raises an exception and leaves the vector as it was. Negative indexes count from the end for reading and for assignment. A serialized vector is read back equal, and a buffer is accepted exactly when its header matches its length. sort_proj permutes an index vector so that the indexed values are in order and refuses indexes that are out of bounds; FromRemap delivers the indexed items. While its buffer is exported, a vector refuses to change its size. An exception is raised exactly when an operation fails, no memory outside the vector is touched, and no object or buffer is leaked.',
  ['histories', 'inputs'], 'every history of operations, every number and index, every buffer',
  'Nine item types, each with its own limits and code paths, times every value; tests try a few values of a few types.',
  ['python/pointless_prim_vector.c', 'src/pointless_dynarray.c'], [('range checks and typed storage', 'python/pointless_prim_vector.c: pypointless_parse_number, PyPointlessPrimVector_subscript_priv'), ('bulk operations, sorting by projection, remapping', 'python/pointless_prim_vector.c: _append_bulk, _sort_proj, _from_remap, _init')],
  ['pointless.PointlessPrimVector'])

p('C24', 'A Python key finds exactly the entry stored under an equal key',
  'For a set or map read from a document and a Python object as key (number, boolean, None, text, tuple, list, bit vector, primitive vector, or a view of a stored value), membership, subscription and get answer exactly what an equal stored key says: in if and only if an equal key is stored, its value (or KeyError, None, the given default if there is none), whatever other kinds of keys the container holds. A Python object has the 32-bit hash of the stored value equal to it, and cmp and is_eq order and equate any mixture of Python objects and stored values as the stored values themselves are ordered. A key which cannot be stored or hashed is refused with an exception. Iteration over keys, values and items delivers every entry once, in one order. No reference is leaked and no exception left pending.',
  ['inputs'], 'every set or map and every key, in every Python form of it',
  'Each Python type has its own hash and comparison code which must agree with the stored form bit for bit, for every value; tests look up a few keys.',
  ['python/pointless_pyobject_hash.c', 'python/pointless_pyobject_cmp.c', 'python/pointless_set.c', 'python/pointless_map.c'], [('hashes of Python objects', 'python/pointless_pyobject_hash.c: pyobject_hash_32'), ('comparison of Python objects with stored values', 'python/pointless_pyobject_cmp.c: pypointless_cmp_rec'), ('lookup', 'python/pointless_map.c: PyPointlessMap_subscript, _get, _contains_; python/pointless_set.c: PyPointlessSet_contains')],
  ['PointlessMap.__getitem__', 'PointlessMap.get', 'in', 'pyobject_hash_32', 'pointless_cmp', 'pointless_is_eq'])
p('C25', 'A Python object serialized and opened again is the same value',
  'Serializing a Python object (None, booleans, integers of 32 bits, floats as 32-bit floats, text, tuples, lists, dicts, sets, frozensets, bytearrays, primitive vectors, bit vectors, and views of stored vectors, slices, bit vectors, sets and maps, nested in any way) to a bytearray or to a primvector and opening the result delivers an equal value, with every option of the serializer. An object that occurs several times is stored once; cycles of lists are kept. An object that cannot be stored (another type, an integer beyond 32 bits, text with a zero character), anywhere within, makes the serialization raise ValueError. In every case all memory and references are released.',
  ['inputs'], 'every object, every option',
  'Each Python type has its own path through the serializer, text has three widths and two options, and refusals can occur at any depth; tests try some.',
  ['python/pointless_create.c', 'python/pointless_object.c', 'python/pointless_instance_dispatch.c'], [('recursive export', 'python/pointless_create.c: pointless_export_py_rec'), ('values delivered', 'python/pointless_instance_dispatch.c: pypointless_value')],
  ['pointless.serialize', 'pointless.serialize_to_buffer', 'pointless.serialize_to_bytearray', 'pointless.Pointless'])
p('C26', 'Views and slices of stored vectors behave like immutable sequences',
  'A stored vector seen from Python, any slice of it and any slice of such a slice has the length and the items of the sequence that was written, by subscript (also negative; out of range raises IndexError), by iteration and backwards; an iterator that has ended stays ended. Membership is that of an equal item. min, max and range deliver the extreme items, bisect_left the position among sorted items, the buffer exactly the bytes of the items, typecode their type; each is refused where it has no meaning (values, empty vectors, other types). Vectors of numbers are ordered by their first difference, then by length. Subscripts and slices of other kinds are refused. No reference is leaked.',
  ['inputs'], 'every vector, slice bound, subscript and number',
  'Nine item types and two storage forms, each with its own accessor, times the offset of nested slices; tests use few slices and types.',
  ['python/pointless_vector.c'], [('offset and accessor of items', 'python/pointless_vector.c: PyPointlessVector_subscript_priv, pointless_prim_vector_base_ptr'), ('slices', 'python/pointless_vector.c: PyPointlessVector_slice, PyPointlessVector_check_index'), ('extremes, search and order', 'python/pointless_vector.c: PyPointlessVector_min_max, _bisect_left, _richcompare')],
  ['pointless.PointlessVector'])


def main():
    import checks
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for x in P:
            f.write(json.dumps(x) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 tools/vpcheck.py --setup', 'checks': [], 'not_applicable': []}
    for x in P:
        c = checks.CHECKS.get(x['id'])
        if c:
            m['checks'].append({'property': x['id'], 'quick_cmd': f'python3 tools/vpcheck.py {x["id"]} quick', 'thorough_cmd': f'python3 tools/vpcheck.py {x["id"]} thorough',
                                'technique': 'symbolic execution of the LLVM IR compiled from the current sources, decided by Z3 (vpsym), counterexamples replayed natively',
                                'level': c.get('level', 'model_checking'),
                                'level_note': 'Holds for every input within: ' + c['bounds'] + ('. Outside: ' + c['outside'] if c.get('outside') else '') + '. Trusts vpsym, Z3, clang -O0 IR, the listed stubs.'})
        else:
            m['not_applicable'].append({'property': x['id'], 'reason': checks.NOT_CLAIMED.get(x['id'], 'no check built yet')})
    m['notes'] = 'Each check exits 0 with a PARTIAL note if its time limit ended exploration early; see DESIGN.md.'
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)


main()
