# Which harness configurations decide which property, and within which bounds.
COMMON_ASSUMPTIONS = [
    'memory allocation succeeds unless the harness injects a failure; allocations of symbolic size are bounded by the engine option max-alloc',
    'the Judy library is replaced by a list-based model of JudyHSIns/JudyHSGet/JudyHSFreeArray/JudyLIns/... (stubs/judy.c); libc string and memory functions by their C definitions (stubs/libc.c)',
    'assert() is disabled (NDEBUG), as in the shipped build; little-endian 64-bit target; IR of clang -O0 after mem2reg-style cleanup',
    'every reported violation is first reproduced on a native AddressSanitizer build of the same sources; a sample of explored paths is re-run natively and must observe the same values',
]
CHECKS = {}


def prop(pid, bounds, harnesses, outside='', assumptions=(), **kw):
    CHECKS[pid] = dict(bounds=bounds, outside=outside, assumptions=list(assumptions), harnesses=harnesses, **kw)


def h(name, src, args=(), tiers=('quick', 'thorough'), thorough=None, **kw):
    """one harness configuration; thorough: arguments of the thorough tier"""
    opts = {k.replace('_', '-'): kw.pop(k) for k in ('time', 'steps', 'enum', 'smt_ms', 'max_alloc', 'samples', 'uninit', 'split', 'depth') if k in kw}
    d = dict(name=name, src=src, args=dict(enumerate(args)), opts=dict({'time': 150}, **opts), tiers=tiers, **kw)
    if thorough is not None:
        d['thorough'] = {'args': dict(enumerate(thorough)), 'opts': {'time': 400}}
    return d


T = ('thorough',)
prop('C01', 'values: every scalar kind with all payloads, strings and bit vectors up to 2 units (text up to 5), value vectors nested to depth 1 (quick) or 2 (thorough) with up to 2 items, numeric vectors up to 3 items with all payloads, native vectors of all nine types up to 3 items in both ownership modes', [
    h('shapes', 'roundtrip.c', (0, 1, 2), thorough=(0, 2, 2)),
    h('numbers', 'roundtrip.c', (1, 3), thorough=(1, 4)),
    h('native', 'roundtrip.c', (2, 3), thorough=(2, 6)),
    h('text', 'roundtrip.c', (3, 3), thorough=(3, 5)),
    h('bits', 'roundtrip.c', (4, 5), thorough=(4, 7)),
    h('long bits', 'roundtrip.c', (7, 26, 34)),
    h('ints', 'roundtrip.c', (5, 3), thorough=(5, 4)),
], outside='larger containers, deeper nesting, sets and maps (C02)')

def sm(name, a, **kw):
    return h(name, 'setmap.c', a, split=512, **kw)
prop('C02', 'sets and maps of up to 3 symbolic keys (up to 8 with concrete companions), key families: integers, floats of a table, text up to 2 units, bit vectors up to 9 bits, vectors up to 2 items, null and booleans; integer and code-unit payloads below the bit bound of each configuration (hash values of all 32 bits for single-key containers); one absent or present lookup candidate', [
    sm('u32 pair', (0, 2, 5, 1, 8, 0)),
    sm('u32 single with candidate', (1, 1, 5, 1, 32, 1)),
    sm('map u32 pair with candidate', (1, 2, 5, 1, 6, 1), thorough=(1, 2, 5, 1, 10, 1)),
    sm('u32 triple', (0, 3, 5, 1, 5, 0), thorough=(0, 3, 5, 1, 8, 0)),
    sm('numbers single with candidate', (0, 1, 8, 1, 8, 1)),
    sm('numbers pair', (1, 2, 8, 1, 4, 0), thorough=(1, 2, 8, 1, 8, 0)),
    sm('eight keys', (1, 8, 5, 1, 8, 0, 7)),
    sm('six keys with candidate', (0, 6, 5, 1, 6, 1, 6), thorough=(0, 12, 5, 1, 8, 1, 12)),
    sm('text single with candidate', (1, 1, 1, 2, 8, 1)),
    sm('text pair', (0, 2, 1, 1, 3, 0), thorough=(0, 2, 1, 2, 3, 0)),
    sm('vectors with candidate', (0, 1, 3, 1, 4, 1), thorough=(0, 1, 3, 2, 3, 1)),
    sm('bit vectors pair', (0, 2, 4, 3, 8, 0), thorough=(1, 2, 4, 9, 8, 0)),
    sm('any leaf with candidate', (1, 1, 2, 1, 3, 1)),
    sm('any leaf pair', (0, 2, 2, 1, 3, 0), thorough=(0, 2, 2, 1, 8, 0)),
    sm('empty', (0, 0, 8, 1, 8, 1)),
    sm('empty map', (1, 0, 8, 1, 8, 1)),
], outside='larger containers; NaN keys')
def bvh(name, *a, **kw):
    return h(name, 'bitvector.c', a, split=256, **kw)


prop('C07', 'pairs of bit vectors of up to 4 (quick) or 6 (thorough) bits, of 7-9 bits, and of 27-65 bits with the first and last bit free over three backgrounds, in all six representations; single bit vectors of up to 34 bits; write/read of up to 9 bits, of 25-33 bits with free bits at both ends over three backgrounds, and of two runs of lengths around 65535 with every bit index', [
    bvh('pairs', 0, 0, 4, thorough=(0, 0, 6)),
    bvh('pairs across a byte', 0, 7, 9),
    bvh('long pairs', 5, 0, 3, thorough=(5, 0, 6)),
    bvh('single', 1, 0, 20),
    bvh('single around the packed limit', 1, 24, 34),
    bvh('written', 2, 0, 9, thorough=(2, 0, 12)),
    bvh('written around the packed limit', 4, 25, 33, 3, thorough=(4, 24, 41, 6)),
    bvh('two long runs', 3, 3, thorough=(3, 5)),
], outside='pairs of longer bit vectors')

CH = [('numbers', (0, 0, 0, 0, 0), None), ('text', (1, 1, 3, 0), (1, 1, 5, 0)), ('bits', (2, 2, 4, 0), (2, 2, 6, 0)), ('native vectors', (3, 3, 1, 6, 1), (3, 3, 2, 4, 1)), ('compressed against native', (4, 3, 1, 6, 1), (4, 3, 2, 2, 1)),
      ('compressed', (4, 4, 1, 8, 1), (4, 4, 2, 3, 1)), ('mixed', (5, 5, 1, 4, 1), (5, 5, 2, 1, 1)), ('mixed against native', (5, 3, 1, 4, 1), None), ('nested', (6, 6, 1, 4, 1), None), ('leaves', (7, 7, 2, 3, 1), (7, 7, 3, 8, 1)), ('leaf against vector', (7, 5, 1, 4, 1), None), ('leaf against nested', (7, 6, 1, 4, 1), None),
      ('nested against compressed', (6, 4, 1, 4, 1), None), ('64-bit items', (8, 8, 0, 0, 0), None), ('64-bit against numbers', (8, 4, 1, 4, 1), None), ('64-bit against native', (8, 3, 1, 6, 1), None), ('number against vector', (8, 0, 1, 4, 1), None)]


def ch(k):
    r = []
    for n, a, t in CH:
        a = tuple(a) + (0,) * (5 - len(a)) + (k,)
        r.append(h(n, 'cmphash.c', a, thorough=tuple(t) + (0,) * (5 - len(t)) + (k,) if t else None))
    return r


CHB = 'pairs of values: scalars with all 32-bit payloads and all non-NaN floats; texts up to %s units; bit vectors up to %s bits; native, compressed, mixed and nested vectors of up to 1 (quick) or 2 (thorough) items, item payloads of a few bits and floats of a table except for 64-bit items, which are unbounded'
prop('C05', CHB % ('3', '4') + '; raw string hashes up to 7 units of every width', ch(1) + [h('string widths', 'texthash.c', (7,))], outside='longer containers, NaN')
prop('C06', CHB % ('3', '4') + '; raw string comparison of all width pairs up to 3 units', ch(0) + [h('string widths', 'text.c', (3, 9), thorough=(4, 9)), h('string widths, full range', 'text.c', (2, 32))], outside='longer containers, NaN, values of different kinds (only antisymmetry and inequality); sets and maps (comparison reports an error)')
def so(name, *a, **kw):
    return h(name, 'sort.c', a, split=256, **kw)


prop('C09', 'arrays of up to 6 items with unrestricted 32-bit keys, of 7-9 items with binary keys, of 8-12 and 41-42 (thorough: 46) items with several free 6-bit keys among fixed ones (median-of-three and pseudo-median pivots); a comparison failing at any call with any result for up to 4 items (quick), 7-8 with binary keys', [
    so('free keys', 0, 0, 5, 32, thorough=(0, 0, 6, 32)),
    so('six free keys', 0, 6, 6, 32),
    so('binary keys', 0, 7, 9, 1, thorough=(0, 7, 12, 1)),
    so('median of three', 1, 8, 12, 6, 3),
    so('pseudo median', 1, 41, 42, 6, 3, thorough=(1, 41, 46, 6, 3)),
    so('failing comparison', 2, 0, 4, 32, thorough=(2, 0, 5, 32)),
    so('failing comparison, binary keys', 2, 7, 8, 1),
    so('failing comparison, pseudo median', 3, 41, 41, 6, 1, 40, 7),
    so('early failing comparison, pseudo median', 3, 41, 41, 6, 1, 30, 1),
], outside='longer arrays with all keys free; comparisons that are not total preorders')
prop('C10', 'sequences of up to 3 (quick) or 4 operations on arrays of six item sizes; sequences of 2 operations on 14 earlier items with any one allocation failing; bulk pushes of unrestricted 64-bit counts', [
    h('operations', 'dynarray.c', (0, 3, 6, 0, 0), thorough=(0, 4, 6, 0, 0)),
    h('failing allocation', 'dynarray.c', (0, 3, 2, 14, 1)),
    h('large arrays', 'dynarray.c', (0, 2, 2, 45, 0), thorough=(0, 2, 6, 75, 0)),
    h('overflowing sizes', 'dynarray.c', (1, 0, 6)),
], outside='longer sequences, more than about 60 items')
prop('C11', 'none: all operands of the full 32-bit and 64-bit range, either operand flagged', [
    h('addition', 'intops.c', (0,)), h('multiplication', 'intops.c', (1,))], outside='nothing')
prop('C12', 'every string of up to 4 characters over 10 characters and of up to 5 over 7; chains of two and three operations (quick: subset) with parentheses and unrestricted operands near the 64-bit limits; numerals up to 31 digits around the limits', [
    h('strings', 'inteval.c', (0, 4, 10)), h('longer strings', 'inteval.c', (0, 5, 7), thorough=(0, 6, 7)),
    h('two operations', 'inteval.c', (1, 3, 4, 1)), h('two operations, free operands', 'inteval.c', (1, 2, 7, 2)), h('three operations', 'inteval.c', (1, 4, 2, 0)),
    h('numerals', 'inteval.c', (2,)), h('token limit', 'inteval.c', (3,), depth=3000)], outside='longer expressions')
# --- malformed and adversarial files (raw.c): flags, counts of strings/vectors/bit vectors/sets/maps, heap bytes, root type + 1
def raw(name, *a, **kw):
    return h(name, 'raw.c', a, split=64, steps=1000000, **kw)


prop('C03', 'files of any content up to 48 bytes (with free header counts), and of up to 8 offset-table entries with chosen counts and freely placed values over 12-36 heap bytes (one kind at a time and mixed), file length 16-116 bytes; sets and maps with 4 buckets in a fixed layout with free hashes, keys and counts; chains of 3, 40, 512 and 2500 vectors', [
    raw('any bytes', 1, 0, 0, 0, 0, 0, 48, 0),
    raw('string', 0, 1, 0, 0, 0, 0, 16, 0), raw('vector', 0, 0, 1, 0, 0, 0, 16, 0), raw('bit vector', 0, 0, 0, 1, 0, 0, 16, 0),
    raw('set', 0, 0, 0, 0, 1, 0, 28, 0), raw('map', 0, 0, 0, 0, 0, 1, 36, 0),
    raw('set of two vectors', 2, 0, 1, 0, 1, 0, 32, 18),
    raw('string, vector and bit vector', 2, 1, 1, 1, 0, 0, 16, 0),
    raw('nested vectors', 4, 0, 2, 0, 0, 0, 28, 2, thorough=(4, 0, 3, 0, 0, 0, 36, 2)),
    raw('set in a fixed layout', 308, 0, 2, 0, 1, 0, 44, 18),
    raw('map in a fixed layout', 308, 0, 3, 0, 0, 1, 64, 19),
    h('chains of vectors', 'chain.c', (), split=64, steps=300000000, depth=1700, max_alloc=1000000),
], outside='larger files', unreached=['text', 'string', 'vector', 'native vector', 'bit vector', 'set', 'set entry', 'map', 'map entry'])
prop('C04', 'accepted files among: any content up to 44 bytes; up to 8 offset-table entries with chosen counts over 12-36 heap bytes; sets and maps with up to 4 buckets in a fixed layout with free hashes, keys and counts (with 4 buckets hash bits and key kinds restricted); every read operation on every reachable value', [
    raw('any bytes', 9, 0, 0, 0, 0, 0, 44, 0),
    raw('string', 8, 1, 0, 0, 0, 0, 16, 0), raw('vector', 8, 0, 1, 0, 0, 0, 12, 0), raw('bit vector', 8, 0, 0, 1, 0, 0, 12, 0),
    raw('larger vector', 12, 0, 1, 0, 0, 0, 20, 0), raw('hashable vector', 12, 0, 1, 0, 0, 0, 20, 1),
    raw('nested vectors', 12, 0, 2, 0, 0, 0, 24, 2), raw('nested hashable vectors', 12, 0, 2, 0, 0, 0, 24, 1),
    raw('string, vector and bit vector', 10, 1, 1, 1, 0, 0, 16, 2),
    raw('set of two vectors', 10, 0, 1, 0, 1, 0, 36, 18),
    raw('set in a fixed layout', 316, 0, 2, 0, 1, 0, 44, 18), raw('map in a fixed layout', 316, 0, 3, 0, 0, 1, 64, 19),
    raw('set of two', 700, 0, 2, 0, 1, 0, 56, 18), raw('map of two', 764, 0, 3, 0, 0, 1, 84, 19),
    raw('set of four buckets', 1212, 0, 2, 0, 1, 0, 80, 18),
    raw('set with several kinds of keys', 300, 1, 2, 1, 1, 0, 84, 18),
], outside='larger files; offsets into the heap that are not aligned for their type (allowed by the target machine)')
def nv(name, *a, **kw):
    return h(name, 'numvec.c', a, split=64, **kw)


prop('C08', 'vectors of up to 3 integers, floats or mixed numbers with all payloads; hash and comparison for 1-2 items with all payloads and 3 items with payloads of a few bits', [
    nv('integers', 0, 2, 0, 0, 0, thorough=(0, 3, 0, 0, 0)), nv('floats', 1, 2, 0, 0, 0), nv('mixed', 2, 2, 0, 0, 0),
    nv('integers after fixed ones', 0, 1, 0, 0, 2), nv('three mixed', 2, 3, 0, 6, 0),
    nv('hash and order, one integer', 0, 1, 1, 0, 0), nv('hash and order, integers', 0, 2, 1, 7, 0, smt_ms=120000, thorough=(0, 2, 1, 0, 0)),
    nv('hash and order, floats', 1, 2, 1, 0, 0), nv('hash and order, mixed', 2, 2, 1, 6, 0), nv('hash and order, three integers', 0, 3, 1, 4, 0),
], outside='longer vectors with all items free')
def gr(name, *a, **kw):
    return h(name, 'graph.c', a, split=64, **kw)


GR = [gr('writing, vectors', 1, 3, 2, 1, 1, 0), gr('writing, all containers', 1, 2, 2, 15, 1, 0), gr('writing, leaves', 1, 2, 2, 3, 15, 1), gr('writing, leaf root', 1, 2, 1, 15, 15, 1)]
prop('C13', 'the marking algorithm on every graph of up to 4 (quick) or 5 containers with 2 slots each; writing, reading, marking and hashability of every graph of up to 3 vectors with 2 slots, up to 2 containers of every kind with 2 slots, up to 3 with 1 slot, and leaves of four kinds', [
    gr('algorithm', 0, 4, 2, 1, 1, 0, thorough=(0, 5, 2, 1, 1, 0)), gr('writing, one slot', 1, 3, 1, 15, 1, 1)] + GR, outside='larger graphs')
prop('C21', 'two references of any kind and value with free heap counts of all kinds; every graph of up to 3 vectors or 2 containers of every kind with two slots, with leaves of four kinds', [
    h('two references', 'ids.c', ())] + GR, outside='larger graphs', unreached=['partly cyclic'])
def ha(name, *a, **kw):
    return h(name, 'handles.c', a, split=64, **kw)


prop('C14', 'every sequence of 2 creation requests of every kind with all payloads (texts up to 1 unit), of 3 requests around the ends of the cached integer ranges and of texts; text pairs up to 2 units', [
    ha('pairs of scalars', 2, 15, 0, 0), ha('integers around the cached range', 2, 256, 0, 0), ha('three around the cached range', 3, 256, 0, 0), ha('text pairs', 2, 96, 2, 0),
    ha('three texts', 3, 96, 1, 0), ha('bit vectors', 2, 128, 0, 0), ha('any pair', 2, 511, 1, 3)], outside='longer histories, longer texts')
prop('C15', 'conversions of texts of up to 5 units of every value, also with each allocation failing; every text constructor with up to 3 units (in pairs: the same characters by two constructors)', [
    h('conversions', 'widths.c', (0, 3), thorough=(0, 6)), h('longer conversions', 'widths.c', (0, 5)), h('constructors', 'widths.c', (1, 3), thorough=(1, 5)), h('longer constructors', 'widths.c', (1, 4))],
    outside='longer texts; pointless_is_ucs4_ucs2() and pointless_ucs4_to_ucs2(), which are declared but do not exist')
def he(name, *a, **kw):
    return h(name, 'helpers.c', a, split=64, **kw)


prop('C16', 'maps and sets of one key of every kind (with all payloads for integers) or two integer or text keys (payloads of a few bits), every 64-bit integer and every text of up to 2 units looked up; every value type against every requested type with all payloads; pairs of containers of up to 3 keys', [
    he('integers, one key', 0, 1, 0, 0), he('integers, any key', 0, 1, 1, 0), he('integers, two keys', 0, 2, 0, 1, thorough=(0, 2, 0, 3)),
    he('texts', 1, 1, 1, 8), he('wide texts', 1, 1, 1, 9), he('empty texts', 1, 1, 0, 0), he('longer texts', 1, 1, 2, 4), he('two texts', 1, 2, 1, 3),
    he('typed results', 2, 0, 0, 0), he('key sets', 3, 1, 3, 4), he('key sets, nested', 3, 1, 4, 4), he('key sets of two', 3, 2, 5, 1)], outside='larger containers with all payloads free')
def ev(name, *a, **kw):
    return h(name, 'eval.c', a, split=64, **kw)


prop('C17', 'all expressions of up to 8 characters over the 4 characters [ ] 1 -, of up to 7 over 5, 6 over 7 and 5 over 11 characters; 28 longer ones; parameters of all values in 5 forms of expression and 6 malformed ones; every value type against every typed request; one document with nested vectors, maps, a bit vector and 64-bit items', [
    ev('strings of 5', 0, 5, 11, thorough=(0, 6, 11)), ev('strings of 6', 0, 6, 7, thorough=(0, 7, 7)), ev('strings of 7', 0, 7, 5, thorough=(0, 8, 5)), ev('strings of 8', 0, 8, 4, thorough=(0, 10, 4)),
    *[ev('parameters, form %d' % i, 1, i, 1) for i in range(4)], ev('parameters, form 0, positive key', 1, 0, 2), ev('parameters, form 2, positive key', 1, 2, 2), *[ev('parameters, form %d' % i, 1, i, 0) for i in range(4, 7)],
    ev('long numbers and odd spacing', 2), ev('64-bit items', 4), ev('typed results', 3)], outside='longer expressions, other documents')

def cp(name, src, *a, **kw):
    return h('copy: ' + name, src, a, **kw)


prop('C18', 'copies (read, recreated into a new creation context, written, read again) of: values nested to depth 1 with up to 2 items, numeric vectors of up to 3 items with all payloads, text up to 3 units, bit vectors up to 5 bits and of 26-34 bits with any one byte free, sets and maps of one key of any kind and up to 3 symbolic keys; every graph of up to 3 vectors or 2 containers of every kind with two slots', [
    cp('shapes', 'roundtrip.c', 0, 1, 2, 1, split=64), cp('numbers', 'roundtrip.c', 1, 3, 0, 1, split=64), cp('native', 'roundtrip.c', 2, 3, 0, 1, thorough=(2, 6, 0, 1)), cp('text', 'roundtrip.c', 3, 3, 0, 1, thorough=(3, 5, 0, 1)),
    cp('bits', 'roundtrip.c', 4, 5, 0, 1, split=64, thorough=(4, 7, 0, 1)),  cp('long bits', 'roundtrip.c', 7, 26, 34, 1, split=64), cp('keys of any kind', 'roundtrip.c', 6, 1, 3, 1, 0, split=64), cp('values of any kind', 'roundtrip.c', 6, 1, 3, 1, 1, split=64),
    cp('vectors', 'graph.c', 1, 3, 2, 1, 1, 0, 1, split=64), cp('all containers', 'graph.c', 1, 2, 2, 15, 1, 0, 1, split=64), cp('leaves', 'graph.c', 1, 2, 2, 3, 15, 1, 1, split=64), cp('leaf root', 'graph.c', 1, 2, 1, 15, 15, 1, 1, split=64), cp('one slot', 'graph.c', 1, 3, 1, 15, 1, 1, 1, split=64),
    cp('integer keys', 'setmap.c', 1, 2, 2, 1, 3, 0, 0, 1, split=512), cp('mixed keys', 'setmap.c', 0, 2, 8, 1, 4, 0, 0, 1, split=512), cp('six keys', 'setmap.c', 0, 6, 5, 1, 6, 1, 6, 1, split=512)],
    outside='larger documents; documents whose keys contain a NaN, which are refused on opening', unreached=['partly cyclic'])
FILE_CALLS = 'mkstemp fdopen fopen fwrite fputc ftell ferror fflush fclose fileno fsync fdatasync fchmod chmod close unlink remove rename fstat mmap munmap'.split()
def fi(name, *a, **kw):
    return h(name, 'fileio.c', a, split=64, extra=['stubs/files.c'], rename=FILE_CALLS, **kw)


prop('C19', 'writing, opening and recreating documents of 8 forms (texts up to 5 units, bit vectors up to 70 bits, native vectors of all 9 types up to 4 items with all payloads, a set and a map, no root, a key that is not hashable) with any number of the calls failing, each independently, target present or absent; opening of files with one damaged word or cut short', [
    fi('write, small', 0, 7, 99, 0), fi('write, texts', 0, 0, 99, 0), fi('write, bits', 0, 1, 99, 0), fi('write, native vectors', 0, 2, 99, 0), fi('write, containers', 0, 3, 99, 0), fi('write, no root', 0, 4, 99, 0), fi('write, not hashable', 0, 5, 99, 0), fi('write, a number', 0, 6, 99, 0),
    fi('open, small', 1, 7, 99, 0), fi('open, texts', 1, 0, 99, 0), fi('open, native vectors', 1, 2, 99, 0), fi('open, containers', 1, 3, 99, 0), fi('open, damaged', 3, 7, 99, 0), fi('open, damaged texts', 3, 0, 0, 0, tiers=T),
    fi('recreate, small', 2, 7, 99, 0), fi('recreate, texts', 2, 0, 99, 0), fi('recreate, bits', 2, 1, 99, 0), fi('recreate, native vectors', 2, 2, 99, 0), fi('recreate, containers', 2, 3, 99, 0), fi('recreate, a number', 2, 6, 99, 0)],
    outside='the behaviour of the kernel beyond the model of stubs/files.c (in particular whether a rename itself is durable); failing unlink calls; short writes that report success', assumptions=['file system calls are replaced, in both builds, by the model stubs/files.c: inodes, directory entries, buffered streams; each call but unlink may fail; a failed flush or close loses what was buffered'])
OOM_DOCS = ['texts', 'bit vector', 'native vectors', 'set', 'map', 'empty vector', 'leaf', 'compressed vector', 'set of vector and bits', 'long vector']
OOM_N = [64, 64, 60, 80, 100, 80, 40, 60, 90, 80]
OOM_MODES = ['create', 'serialize', 'serialize to a file', 'open', 'copy', 'open a file', 'recreate a file']
def oo(mode, docs):
    return [h(OOM_MODES[mode] + ', ' + OOM_DOCS[d], 'oom.c', (mode, d, OOM_N[d] + (40 if mode == 6 else 0), 2), split=64, extra=['stubs/files.c'], rename=FILE_CALLS, tiers=('quick', 'thorough') if d in docs else T) for d in range(10)]


prop('C20', 'documents of 10 forms (texts, bit vectors, native vectors of all 9 types, sets, maps, empty and compressed vectors, leaves) with the k-th allocation from the start of the operation failing, for every k up to beyond the last one; creation, serialization to memory and file, opening, copying', [
    *oo(0, range(10)), *oo(1, range(10)), *oo(2, range(10)), *oo(3, range(10)), *oo(4, range(10)), *oo(5, (0, 3, 4)), *oo(6, range(10))],
    outside='two failing allocations in one operation; larger documents; the real Judy library (a model that reports failure as it does)')
def pyb(name, *a, **kw):
    return h(name, 'pybitvector.c', a, split=64, python=['pointless_bitvector.c'], extra=['stubs/cpython.c'], **kw)


BV_OPS = ['append', 'pop', 'extend true', 'extend false', 'append bulk', 'set', 'copy']
prop('C22', 'vectors of 2, 3 or 8 bits of any content followed by every pair, and some chains of 3 or 4, of the 7 operations (extensions up to 9 bits, appended vectors up to 3 bits or the vector itself); sequences of up to 3 items of any kind with any integer value; comparisons of all vectors up to 4 bits and 9 bits, stored or not; any integer index, item value, size (up to 70 bits, or beyond 32 bits) and extension', [
    *[pyb('%s, %s' % (BV_OPS[i], BV_OPS[j]), 0, 2, i, j, 99, thorough=(0, 3, i, j, 99)) for i in range(6) for j in range(7)],
    pyb('pop, extend, copy at 8 bits', 0, 8, 1, 2, 6, 99), pyb('append bulk, pop, pop, set', 0, 2, 4, 1, 1, 5), pyb('pops and appends', 0, 8, 1, 1, 0, 0), pyb('pop past the end', 0, 1, 1, 1, 0, 1), pyb('pop, append bulk, pop', 0, 3, 1, 4, 1, 99), pyb('pop, extend false, pop, set', 0, 3, 1, 3, 1, 5),
    pyb('sequence', 1, 2, 99, thorough=(1, 4, 99)), pyb('long sequence', 1, 3, 99), pyb('failing sequence', 1, 3, 2), pyb('failing at once', 1, 2, 0), pyb('failing at the end', 1, 2, 2),
    *[pyb('compare %d %d' % (a, b), 2, a, b, f, 1) for a, b, f in [(3, 3, 0), (4, 3, 0), (3, 4, 1), (3, 4, 2), (4, 4, 3), (0, 2, 3), (0, 0, 3), (4, 3, 4), (9, 8, 4)]], pyb('compare longer', 2, 6, 7, 3, 1, thorough=(2, 9, 9, 3, 1)),
    pyb('index and value', 3, 3), pyb('index into nothing', 3, 0), pyb('index and value of 9', 3, 9, tiers=T), pyb('sizes', 4, 0), pyb('extensions', 4, 1)],
    outside='bit vectors longer than 80 bits; subclasses of the types; printing', assumptions=['CPython is replaced, in both builds, by the runtime stubs/cpython.c behind the real headers of Python 3.12: reference counts, exceptions, argument parsing, iteration; integers have a sign and a 64-bit magnitude or are beyond 64 bits'])
PV_TYPES = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'f', 'i64', 'u64']
PV_OPS = ['append', 'pop', 'set', 'append bulk', 'pop bulk', 'remove', 'fast remove', 'sort', 'clear', 'slice']


def pyv(name, *a, **kw):
    return h(name, 'pyprim.c', a, split=64, python=['pointless_prim_vector.c', 'pointless_vector.c', 'pointless_instance_dispatch.c'], extra=['stubs/cpython.c'], **kw)


prop('C23', 'vectors of all 9 types with 2 or 3 items of any value, followed by each of the 10 operations, and by chains of 2 to 4 of them, with any number as argument, in range, out of range, beyond 64 bits or not a number; sequences of 2 such items; buffers of up to 16 bytes of any content; projections and remappings of 3 items of any value over 3 items, stored or not', [
    *[pyv('%s: %s' % (PV_TYPES[t], PV_OPS[o]), 0, t, 3 if o in (5, 6, 7, 9) and t != 6 else 2, o, 99) for t in range(9) for o in range(10) if o in (0, 2, 3) or (t + o) % 3 == 0 or (t == 6 and o != 9)],
    *[pyv('%s: searching' % PV_TYPES[t], 1, t, 3, 0) for t in range(9)], *[pyv('%s: extremes' % PV_TYPES[t], 1, t, 3, 1) for t in range(9)], *[pyv('%s: iteration' % PV_TYPES[t], 1, t, 3, 2) for t in range(9)], *[pyv('%s: any index' % PV_TYPES[t], 1, t, 2, 3) for t in (0, 4, 6, 8)],
    pyv('no extremes', 1, 3, 0, 1), pyv('searching nothing', 1, 2, 0, 0),
    pyv('slice, then set', 0, 4, 2, 9, 2, 99), pyv('pops to the end', 0, 4, 2, 1, 4, 1, 99), pyv('bulk, pop, bulk', 0, 1, 1, 3, 1, 3, 99), pyv('set, remove', 0, 7, 2, 2, 5, 99), pyv('sort, append, remove', 0, 2, 2, 7, 0, 6, 99), pyv('clear, append, pop', 0, 3, 1, 8, 0, 1, 99), pyv('five appends', 0, 8, 0, 0, 0, 0, 0, 99, tiers=T), pyv('bulk twice', 0, 0, 2, 3, 3, 99, tiers=T),
    *[pyv('%s: sequence' % PV_TYPES[t], 2, t, 2, 99) for t in range(9)], pyv('failing sequence', 2, 5, 2, 1), pyv('failing sequence of floats', 2, 6, 2, 2),
    *[pyv('buffer of %d bytes' % k, 3, k, 0) for k in (0, 4, 7, 8, 9, 10, 12, 16)],
    *[pyv('projection %s over %s%s' % (PV_TYPES[a], PV_TYPES[b], ', stored' if st else ''), 4, a, 3 if b != 6 else 2, b, 99, 3, st) for a, b, st in [(0, 4, 0), (1, 0, 0), (2, 7, 0), (3, 6, 1), (4, 8, 0), (5, 3, 1), (7, 2, 0), (8, 1, 0), (0, 5, 1), (2, 0, 1), (4, 7, 1)]],
    pyv('projection over two', 4, 7, 2, 4, 1, 3, 0), pyv('projection over two, stored', 4, 3, 3, 1, 5, 3, 1), pyv('float projection', 4, 6, 1, 4, 99, 3, 0),
    *[pyv('remap %s by %s%s' % (PV_TYPES[a], PV_TYPES[b], ', stored' if st else ''), 5, a, 3, b, 2, st) for a, b, st in [(0, 1, 0), (1, 0, 0), (2, 3, 0), (3, 2, 1), (4, 5, 0), (5, 4, 1), (6, 8, 0), (7, 7, 0), (8, 6, 0), (4, 7, 1), (8, 8, 1), (0, 0, 1), (3, 1, 1), (1, 3, 1), (2, 5, 1)]],
    *[pyv('exported %s' % PV_TYPES[t], 6, t, 2) for t in (0, 3, 4, 8)], pyv('exported, empty', 6, 1, 0), pyv('exported floats', 6, 6, 1),
    *[pyv('%s extended by stored %s' % (PV_TYPES[t], PV_TYPES[a]), 7, t, 1, a) for t, a in [(0, 0), (1, 1), (2, 2), (3, 3), (4, 4), (5, 5), (6, 6), (7, 7), (8, 8), (4, 0), (1, 4), (8, 7), (2, 5), (6, 3), (5, 6)]]],
    outside='vectors longer than 24 items; NaN items; printing; subclasses of the types', assumptions=['CPython is replaced, in both builds, by the runtime stubs/cpython.c behind the real headers of Python 3.12: reference counts, exceptions, argument parsing, iteration, slices, buffers; integers have a sign and a 64-bit magnitude or are beyond 64 bits'])
NOT_CLAIMED = {}
PY_ALL = ['pointless_prim_vector.c', 'pointless_vector.c', 'pointless_instance_dispatch.c', 'pointless_bitvector.c', 'pointless_set.c', 'pointless_map.c', 'pointless_object.c', 'pointless_pyobject_cmp.c', 'pointless_pyobject_hash.c', 'pointless_create.c']
PY_MODEL = 'CPython is replaced, in both builds, by the runtime stubs/cpython.c behind the real headers of Python 3.12: reference counts, exceptions, argument parsing, iteration, slices, buffers; dicts and sets are association lists of up to 8 entries; integers have a sign and a 64-bit magnitude or are beyond 64 bits'


def py(src):
    return lambda name, *a, **kw: h(name, src, a, split=64, python=PY_ALL, extra=['stubs/cpython.c'], **kw)


pl, ps, pv = py('pylookup.c'), py('pyser.c'), py('pyvec.c')
prop('C24', 'sets and maps of one key (numbers, text up to 1 unit, bit vectors, any leaf, vectors up to 1 item, vectors and primvectors of five types; thorough: vectors of vectors) asked for the key and for any other such key; of two small integers or bit vectors; of 6 and 8 integers with one free; comparison of all pairs of such values, each given as tuple, list and stored view; integers below 2^8 or 2^4 where floats are from a table, all floats and integers for hashing', [
    pl('set of a number', 0, 1, 0, 1, 8), pl('map of a number', 1, 1, 0, 1, 4), pl('hash of any number', 1, 0, 0, 1), pl('hash of a primvector', 1, 0, 11, 1), pl('hash of a primvector of two', 0, 0, 11, 2, tiers=T), pl('text, map', 1, 1, 1, 1), pl('two texts', 0, 2, 1, 1, 2), pl('set of any leaf', 0, 1, 2, 1, 3, tiers=T), pl('map of any leaf', 1, 1, 2, 1, 3), pl('set of a leaf or vector', 0, 1, 9, 1, 3),
    pl('set of a bit vector', 0, 1, 4, 3), pl('map of two bit vectors', 1, 2, 4, 2), pl('set of nested vectors', 0, 1, 6, 1, 1, tiers=T), pl('set of vectors and primvectors', 0, 1, 7, 1, 2), pl('two numbers', 0, 2, 0, 1, 2, tiers=T), pl('two integers', 0, 2, 5, 1, 3), pl('two leaves', 1, 2, 2, 1, 1, tiers=T), pl('empty set', 0, 0, 2, 1, 3), pl('empty map', 1, 0, 9, 1, 3),
    pl('eight keys', 0, 8, 5, 0, 8, 7), pl('six keys, map', 1, 6, 5, 0, 6, 6), pl('four keys', 0, 4, 5, 1, 4, 3), pl('three keys, map', 1, 3, 5, 0, 4, 2),
    pl('compare numbers', 2, 0, 0, 1, 8), pl('compare any numbers', 2, 0, 0, 1, tiers=T), pl('compare texts', 2, 1, 1, 2), pl('compare leaves', 2, 2, 2, 1, 3), pl('compare vectors', 2, 3, 3, 1, 3), pl('compare vectors of two', 2, 3, 3, 2, 3, tiers=T), pl('compare nested vectors', 2, 6, 6, 1, 2, tiers=T), pl('compare a nested vector', 2, 6, 9, 1, 1), pl('compare leaves and vectors', 2, 9, 9, 1, 2),
    pl('compare bit vectors', 2, 4, 4, 3), pl('compare vectors and primvectors', 2, 7, 7, 1, 2), pl('compare numbers and primvectors', 2, 3, 10, 1, 2), pl('compare all primvectors', 2, 10, 10, 1, 3, tiers=T),
    *[pl('foreign key %d, %s' % (w, 'map' if mp else 'set'), 3, mp, w) for mp in (0, 1) for w in range(7)]],
    outside='larger containers and keys; NaN keys; 64-bit items next to floats (the recorded finding of C05); subclasses of Python types; keys whose own comparison runs Python code', assumptions=[PY_MODEL], unreached=['duplicate refused'])
prop('C25', 'objects nested to depth 1 with up to 1 item (leaves of every kind, all payloads, tuples, lists, dicts, sets, frozensets, bytearrays, primvectors of all types), two numbers, two texts of 2 units; sets and dicts of one small hashed item (thorough: two); stored vectors of all types with 2 items, each slice of them, stored bit vectors up to 4 bits, sets and maps; all graphs of 2 lists with two slots; every refused object in each of six places', [
    ps('leaves', 0, 0, 1, 1), ps('nested', 0, 1, 1, 0), ps('nested text', 0, 1, 1, 1, tiers=T), ps('hashed item', 1, 1, 1, 0, 0, 3), ps('two hashed items', 1, 2, 0, 0, 0, 1, tiers=T), ps('hashed item, any payload', 1, 1, 1, tiers=T),
    *[ps('stored %s' % c, 2, 0, 2, 0, t) for t, c in enumerate(['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'f'])], ps('stored values', 2, 1, 2, 0), ps('three stored values', 2, 1, 3, 1, 0, 3, tiers=T), ps('stored container', 2, 2, 1, 0, 0, 3), ps('stored bits', 2, 3, 0, 4),
    *[ps('refused %d in %d' % (w, p), 3, w, p) for w in range(6) for p in range(6)],
    ps('two lists', 4, 2), ps('three lists', 4, 3, tiers=T), ps('numbers', 5, 2), ps('text', 6, 2), ps('short text', 6, 1), ps('no text', 6, 0)],
    outside='larger objects; objects nested beyond the depth limit; failing allocations; serialize() to a file (the file itself: C19); subclasses of Python types; NaN payloads', assumptions=[PY_MODEL])
VT = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'f', 'values', 'numbers']
prop('C26', 'stored vectors of all nine item types with 2 items, of 4 mixed values and of 2 numbers, whole, any slice of them and any slice of a slice, with any bounds, subscripts and numbers asked for; extremes of 3 items, order of two views of 2', [
    *[pv('%s, slice' % VT[t], 0, t, 2, 1) for t in range(9)], pv('values, slice', 0, 9, 3, 1, 5), pv('four values', 0, 9, 4, 0), pv('numbers', 0, 10, 2, 1, 5), pv('any numbers', 0, 10, 2, 0), pv('i16, slice of a slice', 0, 2, 2, 2), pv('u64, slice of a slice', 0, 7, 1, 2), pv('values, slice of a slice', 0, 9, 2, 2, 3, tiers=T), pv('empty', 0, 5, 0, 1),
    *[pv('%s, extremes' % VT[t], 1, t, 3, 0) for t in range(9)], *[pv('%s, extremes of a slice' % VT[t], 1, t, 2, 1) for t in (1, 4, 7, 8)], pv('no extremes', 1, 5, 0, 0),
    *[pv('%s, order' % VT[t], 2, t, 2, 0) for t in range(9)], *[pv('%s, order of slices' % VT[t], 2, t, 1, 1) for t in (0, 5, 6, 8)], pv('u8, order of slices of 2', 2, 1, 2, 1),
    *[pv('%s, refused' % VT[t], 3, t, 2, 0) for t in (0, 3, 6, 8, 9)], pv('refused slice', 3, 7, 2, 1)],
    outside='longer vectors; membership of objects of other kinds (raises ValueError); NaN payloads; order of vectors with items other than numbers; documents opened from files', assumptions=[PY_MODEL])
