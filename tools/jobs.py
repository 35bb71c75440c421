"""The jobs, bounds and limits of every check."""


def enc(*digits):
    """Mixed-radix parameter: (digit, radix) pairs, least significant first."""
    p, m = 0, 1
    for d, r in digits:
        assert 0 <= d < r, digits
        p += d * m
        m *= r
    return p


ASSUMPTIONS = [
    'The code executed is the LLVM IR that rustc produces at opt-level 2 (overflow checks and debug assertions on, panic=abort) from /repo and the harness; rustc and LLVM are trusted, and so is the translation of IR to terms (validated on every run by replaying sampled paths natively).',
    'The operating system is replaced by a model: an in-memory file system (open, read, write, lseek, stat, truncate), malloc, getrandom; every model call is listed under environment_stubs.',
    'z3 is trusted; a sample of its answers is decided again by cvc5 and a newer z3.',
]
PROPS = {}


def prop(pid, jobs, bounds, outside, **kw):
    PROPS[pid] = dict(jobs=jobs, bounds=bounds, outside=outside, **kw)


SH = range(9)  # shapes
TY = range(6)  # types
V = range(2)   # versions


# ------------------------------------------------------------------ large data
def big(tier, what):
    """Large variables and many records."""
    o = []
    for k in range(4):
        for n in range(16):
            for t in TY:
                for v in V:
                    if tier == 'quick' and (t != (k + n + what) % 6 or v != (k + n // 2 + what) % 2):
                        continue
                    if k == 2 and n > 12 and (t > 3 or tier == 'quick' and n == 14):
                        continue
                    o.append(('big', enc((what, 4), (k, 4), (n, 16), (t, 6), (v, 2))))
    return o


def big_lists(tier):
    return [('big_lists', enc((k, 8), (n, 8), (v, 2))) for k in range(8) for n in range(8) for v in V if tier != 'quick' or (k + n + v) % 2]


BIG_B = '; variables of 255..65537 elements or records, or 6 dimensions, with symbolic bytes around every multiple of the usual block sizes and concrete ones elsewhere'
LISTS_B = '; 17..300 dimensions, attributes or variables, attributes of up to 65537 values'


# ------------------------------------------------------------------ C01
def c01(tier):
    d = 0 if tier == 'quick' else 1
    return big(tier, 0) + [('c01_roundtrip', enc((v, 2), (k, 9), (t, 6), (d, 2))) for k in (6, 4, 5, 8, 7, 3, 2, 1, 0) for t in TY for v in V]


prop('C01', c01,
     lambda t: 'both versions; 9 shapes (scalars, 1-3 dimensions, 0-3 record variables mixed with 0-3 fixed-size ones, up to 4 variables); both variable types over all 6 types; fixed dimension x of 1..%d, record count 0..%d; 6 ways and orders of writing; every value byte symbolic' % ((3, 2) if t == 'quick' else (5, 4)) + BIG_B,
     'every byte of large variables symbolic, more than 4 variables, attributes (C02), headers above 1 KiB (C02)', steps=300_000_000)


# ------------------------------------------------------------------ C02, C03
def defs(entry, tier):
    o = []
    for k in (5, 4, 7, 1, 3, 2, 8, 6, 0):
        subs = range(6) if k not in (0, 1) else [0]
        for s in subs:
            for v in V:
                if tier == 'quick' and k in (4, 5) and (s + v) % 2:
                    continue
                o.append((entry, enc((v, 2), (k, 9), (s, 6), (0 if tier == 'quick' else 1, 2))))
    return o


DEF_BOUNDS = 'both versions; 9 families of definitions: 0..3 dimensions (any size and record count, names of 1..5 bytes), one global attribute of any type with 0..9 elements, several attributes, a variable with each of 10 dimension lists, two variables sharing attribute names, names of up to 256 bytes with non-ASCII characters, headers of up to three 1024-byte buffers, up to 13 variables; header_min_size 0, below, at and above the required size; attribute values, sizes and name letters symbolic'
DEF_OUT = 'more than 3 dimensions in one header with all sizes symbolic, symbolic values in attributes of more than 3200 values, symbolic non-letters in names (C13)'
prop('C02', lambda t: defs('c02_definition', t) + big_lists(t), DEF_BOUNDS + LISTS_B, DEF_OUT)


def c03(tier):
    d = 0 if tier == 'quick' else 1
    data = [('c03_data', enc((v, 2), (k, 9), (t, 6), (d, 2))) for k in (6, 4, 5, 8, 7, 3, 2, 1, 0) for t in TY for v in V]
    return defs('c03_definition', tier) + data + big(tier, 1) + big_lists(tier)


prop('C03', c03, DEF_BOUNDS + LISTS_B + '; for data: the shapes, types, sizes of C01 with whole-variable, per-record and no writes' + BIG_B, DEF_OUT, steps=300_000_000)


# ------------------------------------------------------------------ C04
def c04(tier):
    o = []
    for s in range(8):
        for v in V:
            if tier == 'quick':
                o.append(('c04_history', enc((s, 8), (v, 2), (0, 2), (3 if v == s % 2 else 2, 8))))
                if v == s % 2:
                    o.append(('c04_history', enc((s, 8), (v, 2), (1, 2), (2, 8))))
            else:
                o.append(('c04_history', enc((s, 8), (v, 2), (0, 2), (4, 8))))
                o.append(('c04_history', enc((s, 8), (v, 2), (1, 2), (3, 8))))
    return o + big(tier, 3)


prop('C04', c04, lambda t: 'both versions; 8 mixtures of fixed-size and record variables, 0..3 records; every history of up to %s' % ('3 successful writes, and of 2 writes that may be refused ones' if t == 'quick' else '4 successful writes, and of 3 writes that may be refused ones') + '; every value symbolic' + BIG_B.replace('variables of', 'unwritten and written variables of'), 'longer histories; more than 3 variables or records with symbolic histories', steps=300_000_000)


# ------------------------------------------------------------------ C15
def c15(tier):
    return [(e, enc((k, 9), (t, 6), (v, 2))) for k in (6, 5, 4, 8, 7, 3, 2, 1, 0) for t in TY for v in V for e in ('c15_write', 'c15_read')] + [('c15_name', enc((k, 9), (v, 2))) for k in SH for v in V]


prop('C15', c15, 'both versions; 9 shapes; every pair of declared and requested type; lengths 0, one off, exact, one record, two records; record index any 64-bit value; record count 0..2; names of 0..2 ASCII bytes', 'larger variables')


# ------------------------------------------------------------------ the reader on arbitrary files
CRASH = r'(panic@|abort|alloc-error)'


def raw(k, v, reads, ascii, n):
    return ('rd_raw', enc((k, 10), (v, 2), (reads, 2), (ascii, 2), (n, 256)))


def words(t, v, reads, gap, part, parts):
    return ('rd_words', enc((t, 16), (v, 2), (reads, 2), (gap, 8), (part, 64), (parts, 64)))


def raw_jobs(tier, reads):
    """Fully symbolic files, and fully symbolic tails after 9 concrete beginnings."""
    q = tier == 'quick'
    o = []
    n0 = 44 if q else 48
    for n in [n0] + list(range(0, 33, 1 if not q else 4)):
        o.append(raw(0, 0, reads and n < 40, 1, n))
    tails = {1: (36, 44), 2: (32, 40), 3: (28, 36), 4: (32, 40), 5: (28, 36), 6: (28, 36), 7: (28, 36), 8: (24, 32), 9: (24, 32)}
    for k, (a, b) in tails.items():
        for v in V:
            n = a if q else b
            o.append(raw(k, v, 0 if k == 6 else reads, 1, n))
            o.append(raw(k, v, reads, 1, n - 7))
            if not q:
                o += [raw(k, v, reads, 1, n - d) for d in (1, 2, 3, 4, 12, 17)]
    return o


def word_jobs(tier, reads, ts=range(10)):
    q = tier == 'quick'
    o = []
    for t in (3, 5, 0, 8, 9, 1, 6, 7, 2, 4):
        if t not in ts:
            continue
        for v in V:
            parts = 1 if q else 2
            gaps = [0, 1 + (t + v) % 3] if q else range(8)
            for g in gaps:
                for part in range(parts):
                    o.append(words(t, v, reads, g, part, parts))
    return o


def trunc_jobs(tier):
    ts = (0, 1, 3, 5, 6, 9) if tier == 'quick' else range(10)
    o = []
    for t in ts:
        for v in V:
            parts = 2 if tier == 'quick' else 1
            for part in range(1 if tier == 'quick' else parts):
                o.append(('rd_trunc', enc((t, 16), (v, 2), (0, 2), (0, 64), (1, 64))))
                if tier != 'quick' or v == t % 2:
                    o.append(('rd_trunc', enc((t, 16), (v, 2), (1, 2), (0, 64), (1, 64))))
    return o


def shift_jobs(tier, corrupt):
    ts = (0, 5) if tier == 'quick' else (0, 1, 3, 5, 6, 7, 8, 9)
    o = []
    for t in ts:
        for v in V:
            for k in list(range(8)) + [32 + i for i in range(8)]:
                if tier == 'quick' and (corrupt and (k + t + v) % 4 or k >= 32 and v == 0):
                    continue
                o.append(('rd_shift', enc((t, 16), (v, 2), (corrupt, 2), (k, 64))))
    return o


def utf8_jobs(tier):
    return [('rd_utf8', enc((p, 4), (n, 16))) for n in ((4, 3, 2, 1, 0) if tier == 'quick' else (5, 4, 3, 2, 1, 0)) for p in range(4)]


RAW_B = 'files of up to %s fully symbolic bytes, and 9 concrete beginnings (of both versions) followed by up to %s symbolic bytes; names restricted to ASCII there'
WORD_B = '10 template files of both versions (header 32..300 bytes) with every single 4-byte header word symbolic, and every pair of words at distance %s (of two words that are multiplied with each other, the second one takes 8 values)'


def bounds_rd(tier, *parts):
    q = tier == 'quick'
    o = []
    for p in parts:
        o.append({
            'raw': RAW_B % (('44', '36') if q else ('48', '44')),
            'words': WORD_B % ('1, 2 or 3' if q else '1..7'),
            'trunc': 'template files cut at every byte, also with a header beyond the first 1024-byte buffer',
            'shift': 'headers whose every word falls on the 1024- and 2048-byte buffer boundaries at each of 4 alignments',
            'shiftc': 'the same with a symbolic word at every byte position around the boundary',
            'utf8': 'names of up to %d arbitrary bytes (any UTF-8 or not) at each of the 4 places' % (4 if q else 5),
            'limits': 'names of 250..261 bytes, 1023..1025 dimensions of a variable, 40 entries per list',
            'layout': 'foreign files: 8 definitions, 2..6 type sets, 0..3 records, 3 orders of the variables, gaps of 0, 1 or 4 bytes, extra header space, trailing bytes, symbolic vsize, every begin of one variable, all data symbolic',
        }[p])
    return '; '.join(o)


RD_OUT = 'larger headers and files than stated, non-ASCII characters in the fully symbolic files (covered by the name entries), more than two corrupted words'


def c05(tier):
    return raw_jobs(tier, 1) + word_jobs(tier, 1) + [j for j in trunc_jobs(tier)] + shift_jobs(tier, 1)[:: 2 if tier == 'quick' else 1] + layout_jobs(tier, [1]) + [('rd_count', enc((k, 8), (t, 6), (v, 2), (1, 4))) for k in (2, 3, 5) for v in V for t in ((k % 6,) if tier == 'quick' else TY) if tier != 'quick' or k == 5 or k == 3 and v]


def layout_jobs(tier, hows=(0, 1), entry='rd_layout'):
    o = []
    for k in (3, 2, 7, 1, 4, 5, 6, 0):
        for t in TY:
            for v in V:
                for h in hows:
                    if tier == 'quick' and (t + v + k) % 3:
                        continue
                    o.append((entry, enc((k, 8), (t, 6), (v, 2), (h, 2))))
    return o


prop('C05', c05, lambda t: bounds_rd(t, 'raw', 'words', 'trunc', 'shiftc', 'layout') + '; memory requests of at most 256 bytes per file byte + 1 MiB each, and 4 KiB per file byte + 64 MiB together', RD_OUT,
     own=r'(panic@|abort|alloc-error|huge-alloc|hang|c08\.beyond-eof)', steps=5_000_000)
prop('C06', lambda t: word_jobs(t, 0) + raw_jobs(t, 0) + utf8_jobs(t) + [('rd_limits', i) for i in range(6)],
     lambda t: bounds_rd(t, 'raw', 'words', 'utf8', 'limits'), RD_OUT, own=r'c06\.|' + CRASH, steps=60_000_000)
prop('C08', lambda t: shift_jobs(t, 1)[::-1] + raw_jobs(t, 0) + word_jobs(t, 0) + trunc_jobs(t) + utf8_jobs(t),
     lambda t: bounds_rd(t, 'raw', 'words', 'shiftc', 'trunc', 'utf8'), RD_OUT, own=r'c08\.|c07\.(dim|var|gattr|vattr|version)|' + CRASH)
prop('C07', lambda t: layout_jobs(t) + shift_jobs(t, 0) + word_jobs(t, 1) + utf8_jobs(t) + [('rd_limits', i) for i in range(6)] + [('rd_sole', enc((i, 3), (v, 2))) for i in range(3) for v in V] + big(t, 2),
     lambda t: bounds_rd(t, 'layout', 'shift', 'words', 'utf8', 'limits') + BIG_B, RD_OUT, own=r'c07\.|build|read\.|' + CRASH, steps=300_000_000)
prop('C16', lambda t: layout_jobs(t, (0, 1), 'rd_agree') + big(t, 2), lambda t: bounds_rd(t, 'layout') + BIG_B + '; any 64-bit record index beyond the last record', 'more than 4 variables or 3 records with symbolic data', steps=300_000_000)


def c20(tier):
    o = []
    for k in (3, 1, 2, 4, 5, 7, 6, 0):
        for cut in range(4):
            for v in V:
                if tier == 'quick' and (k + cut + v) % 2:
                    continue
                o.append(('rd_seq', enc((k, 8), ((k + cut) % 6, 6), (v, 2), (cut, 4), (3 if k in (0, 5, 6) or tier != 'quick' else 2, 8))))
    return o


prop('C20', c20, lambda t: '8 definitions, 2 records, complete files and files cut in their data at three places; every sequence of %s reads out of: whole variables, records, typed reads, refused types, names and indices, read_all_vars; symbolic data' % ('2 to 3' if t == 'quick' else '3'), 'longer sequences of reads')


def c19(tier):
    o = []
    for how in (1, 3, 0, 2):
        for k in (2, 3, 1, 4, 5, 6, 7, 0):
            for v in V:
                if tier == 'quick' and how == 1 and k in (2, 3) and v == k - 2:
                    continue  # the slow ones: one version each
                for t in (TY if tier != 'quick' else [(k + how + 3 * v) % 6] if how == 1 else [(k + how) % 6, (k + how + 3) % 6]):
                    o.append(('rd_count', enc((k, 8), (t, 6), (v, 2), (how, 4))))
    return o


prop('C19', c19, '8 definitions with 0..3 record variables, 3 orders of the variables, 0..2 records in the file; begin of one variable any value (32 or 64 bits), file sizes from the bare header to 8 bytes more than complete, determinate counts of any value', 'record sizes above 48 bytes, more than 3 record variables')


# ------------------------------------------------------------------ definition operations
def seq(st, *kinds):
    p, m = st + 8 * len(kinds), 64
    for k in kinds:
        p += m * k
        m *= 16
    return ('ops', p)


def op_jobs(tier, firsts, lasts, triples, starts):
    """Every operation alone, every pair, and triples; the last operation has symbolic arguments."""
    o = [seq(s, k) for k in lasts for s in range(5)]
    for s in starts:
        for b in lasts:
            o += [seq(s, a, b) for a in firsts]
    if tier == 'quick':
        o += [seq(4, a, b) for b in lasts for a in firsts if a in (3, 4, 9)]
    if tier == 'quick' and triples:
        return o + [seq(1, *t) for t in triples]
    return o + [seq(s, x, y, b) for s in starts for x in firsts for y in firsts for b in lasts if b < 15 or tier != 'quick']


OPS_B = 'five data sets to start from (empty; 3 dimensions, 2 variables, attributes; unlimited without variables; no unlimited; 5 dimensions and variables of up to 5); every %s, where the last operation has symbolic names of 0..2 ASCII bytes, symbolic sizes, any type, every combination of 0..3 existing dimensions, symbolic values and the earlier ones name existing, absent, valid and invalid things; the whole state compared through every query after each operation'


def ops_b(t, what):
    return OPS_B % ('sequence of up to two operations (and selected ones of three) on ' + what if t == 'quick' and 'attr' in what else 'sequence of up to three operations on ' + what)


OPS_OUT = 'longer sequences, longer or non-ASCII names (C13)'
prop('C10', lambda t: op_jobs(t, range(7), (0, 1, 2, 3, 15), None, (1, 3) if t == 'quick' else range(5)),
     lambda t: ops_b(t, 'dimensions and variables'), OPS_OUT)
prop('C11', lambda t: op_jobs(t, range(7), (4, 5, 6, 15), None, (1, 3) if t == 'quick' else range(5)) + [('many_dims', i) for i in range(4)],
     lambda t: ops_b(t, 'dimensions and variables') + '; variables of 1022..1025 dimensions', OPS_OUT, steps=100_000_000)
prop('C12', lambda t: op_jobs(t, (5, 6, 7, 8, 9, 10, 11, 12, 13, 14), (7, 8, 9, 10, 11, 12, 13, 14, 15), [(7, 9, 7), (8, 8, 9), (11, 11, 12), (12, 10, 11), (6, 4, 10), (5, 10, 12), (13, 14, 11)], (1, 3) if t == 'quick' else range(5)),
     lambda t: ops_b(t, 'attributes (through the data set and through a mutable variable) and variables'), OPS_OUT)


def c14(tier):
    q = tier == 'quick'
    return [('c14_sizes', enc((k, 8), (t, 6), (b, 6))) for b in range(6) for k in range(8) for t in TY if not q or (k + t + b) % 2 == 0]


prop('C14', c14, '8 combinations of three variables of 0..3 dimensions over x, y and the unlimited t at each place, all types, each dimension any size up to 2^31-4 as long as the byte size stays below 2^63 (5 splits of the 60 bits, and 8 bits each); then variables or dimensions removed, added or renamed, or the unlimited dimension replaced by another of any size', 'more than 3 dimensions per variable; byte sizes of 2^63 and more (C18)')


# ------------------------------------------------------------------ C09
def c09(tier):
    q = tier == 'quick'
    o = []
    for v in V:
        for k in range(4):
            for t in TY:
                for stage in range(4):
                    if q and (v + k + t) % 2:
                        continue
                    o.append(('c09_write', enc((v, 2), (k, 4), (t, 6), (stage, 4), (5, 6), (2 if q or k == 3 else 3, 4))))
    for v in V:
        for k in SH:
            for t in TY:
                if q and (v + k + t) % 2:
                    continue
                o.append(('c09_read', enc((v, 2), (k, 9), (t, 6), (0, 3), (1, 2), (4, 5), ((1 if k == 6 else 2) if q else 2, 4))))
        for k in SH:
            for big in range(3):
                for b in ((2,) if q else (2, 3)):
                    o.append(('c09_read', enc((v, 2), (k, 9), (k % 6, 6), (big, 3), (0, 2), (4, 5), (b, 4))))
    return o


prop('C09', c09, lambda t: 'writer: 4 data sets (a fixed-size variable; record variables padded and not; mixed), every type, whole-variable and record writes, also over earlier values, failed writes repeated or left; reader: 9 shapes, headers of one to three buffers, every kind of read, failed reads repeated. Every placement of up to %s faults over the read, write and seek calls of set_def, the writes, close, the whole session, open or the reads; each fault a transfer of 1 byte or of all but one byte, an interruption, an I/O error, a full disk or a write of 0 bytes; all values symbolic' % ('2' if t == 'quick' else '2 or 3'),
     'more faults, other short counts, faults of open, stat and close themselves')


# ------------------------------------------------------------------ C13
def c13(tier):
    q = tier == 'quick'
    o = [('c13_valid', n) for n in range(5 if q else 7)]
    o += [('c13_long', enc((n, 6), (c, 4))) for n in range(6) for c in range(4)]
    for n in (3, 5, 6, 7, 2, 1, 0) if q else (4, 3, 5, 6, 7, 2, 1, 0):
        o += [('c13_entry', enc((k, 32), (n, 8))) for k in range(32) if not q or n != 3 or k < 10 or k % 3 == 0]
    return o


prop('C13', c13, lambda t: 'is_valid_name: every UTF-8 string of 0..%d bytes, and strings of 253..258 bytes with the last character of 1..4 bytes and one symbolic ASCII byte at 4 places; every operation that introduces a name (add_fixed_dim, set_unlimited_dim, add_var and its typed forms, add_*_attr of each type on the data set and on a variable, the four renames): every UTF-8 string of 0..%d bytes, and of 256, 257 and 258 bytes with one symbolic byte' % ((4, 3) if t == 'quick' else (6, 4)), 'longer symbolic strings; combinations of two unusual characters more than 4 bytes apart')


# ------------------------------------------------------------------ C17
def c17(tier):
    q = tier == 'quick'
    o = []
    for k in (2, 5, 7, 4, 3):
        o += [('c17_life', enc((k, 8), (v, 2), (s, 9))) for s in SH for v in V]
    return o + [('c17_life', enc((k, 8), (v, 2), (0, 9))) for k in (0, 1, 6) for v in V]


prop('C17', c17, 'existing files of 0..9 symbolic bytes, absent files; create_new and open; up to two writes (any kind, type, name, length, index) before the definition, then close or drop; a second set_def (same or different definition, version, size) before, between or after the writes; definitions the classic version refuses followed by another; two writers and a reader at a time; partly written files dropped; 9 shapes, both versions, header_min_size 0, 77 or 2000; symbolic data', 'longer histories; failing system calls (C09)')


# ------------------------------------------------------------------ C18
def c18(tier):
    q = tier == 'quick'
    o = []
    for s in range(8):
        for k in range(6):
            for t in TY:
                for v in V:
                    for h in range(2):
                        if q and (h != (s + k + t) % 2 or (k + t + s + v) % 2):
                            continue
                        o.append(('c18_header', enc((v, 2), (k, 6), (t, 6), (s, 8), (h, 2))))
    o += [('c18_refused', enc((v, 2), (k, 4), (t, 6))) for k in range(4) for t in TY for v in V]
    o += [('c18_far', enc((k, 4), (v, 2), (t, 6))) for k in range(4) for t in TY for v in V]
    return o


prop('C18', c18, 'headers: 6 combinations of four variables of 0..3 dimensions over x, t, y; every size of the three dimensions within 8 splits of at most 59 bits (31+2+24, 20+9+30, 8+4+47, 29+29+1, 31+26+2, 2+2+55, 24+6+28, 31+0+27 bits), all types, both versions; refusals: one size of any value (up to 64 bits) times fixed ones, totals on both sides of 2^63; access: four sizes of neighbours between 2^29 and 2^31-4 elements, record indices up to 8, offsets up to 64 GiB in sparse files, record counts recovered from such sizes', 'filling unwritten variables beyond 2 GiB on close (the fill values would have to be written); sizes outside the splits', steps=60_000_000)


# ------------------------------------------------------------------ C21
prop('C21', lambda t: [('c21', enc((k, 7), (n, 8))) for n in range(5 if t == 'quick' else 7) for k in range(1, 7)] + [('c21', 0)],
     lambda t: 'every 32-bit number as a type, every 8-bit number as a version; vectors of 0..%d elements of each type with every value; text of 0..%d arbitrary bytes' % ((4, 4) if t == 'quick' else (6, 6)), 'longer vectors')
