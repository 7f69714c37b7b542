"""C19 - C23: the parquet library and the schema tool."""
import concurrent.futures, json, os, subprocess
from base import *
from props import types_for, small, pipe_values, replay_writes, write_cases
import props
import lib
MAGIC = b'PAR1'
FAULTS = 'AddrInUse AddrNotAvailable AlreadyExists ArgumentListTooLong BrokenPipe ConnectionAborted ConnectionRefused ConnectionReset Deadlock DirectoryNotEmpty ExecutableFileBusy FileTooLarge HostUnreachable InvalidData InvalidInput IsADirectory NetworkDown NetworkUnreachable NotADirectory NotConnected NotFound NotSeekable Other OutOfMemory PermissionDenied QuotaExceeded ReadOnlyFilesystem ResourceBusy StaleNetworkFileHandle StorageFull TimedOut TooManyLinks UnexpectedEof Unsupported WouldBlock WriteZero Uncategorized'.split()


# ---------------------------------------------------------- file functions --
def spec_file(c):
    return {'len': limbs(c.get('len', 0), 4), 'parts': [{'at': limbs(a, 4), 'b': list(bytes.fromhex(h))} for a, h in c.get('parts', [])]}


def chunk_decls(md, ctx):
    """the projection of FileMetaData that ParquetFile speaks of"""
    names = [f['name'] for f in ctx.table['FileMetaData']['fields']]
    rgi = names.index('row_groups')
    cci = [f['name'] for f in ctx.table['RowGroup']['fields']].index('columns')
    cn = [f['name'] for f in ctx.table['ColumnChunk']['fields']]
    pick = {k: cn.index(n) for k, n in (('oo', 'offset_index_offset'), ('ol', 'offset_index_length'), ('co', 'column_index_offset'), ('cl', 'column_index_length'))}
    return [[{k: cc[i] for k, i in pick.items()} for cc in rg[cci][0]] for rg in md[rgi][0]]


def metadata(ctx, groups):
    """FileMetaData whose column chunks declare the given extents: groups of {oo, ol, co, cl}"""
    # everything else that metadata may say has no influence: it is absent, or anything
    r, q = ctx.r, ctx.r.choice([0, 0, .3, 1])
    def other(f):
        if f['name'] == 'schema' or r.random() >= q: return [ctx.default(f['t'])] if f['req'] else []
        return [ctx.gen.value(f['t'], 3)]
    def st(n, own, **kw):
        return [([kw[f['name']]] if kw.get(f['name']) is not None else [ctx.default(f['t'])] if f['req'] else []) if f['name'] in own else other(f) for f in ctx.table[n]['fields']]
    decl = (('oo', 'offset_index_offset'), ('ol', 'offset_index_length'), ('co', 'column_index_offset'), ('cl', 'column_index_length'))
    def cc(d):
        return st('ColumnChunk', [n for _, n in decl], **{n: d[k][0] if d[k] else None for k, n in decl})
    if sum(map(len, groups)) > 60: q = 0
    return st('FileMetaData', ['row_groups'], row_groups=[st('RowGroup', ['columns'], columns=[cc(d) for d in g]) for g in groups])


def file_recs(ctx, cases):
    recs = []
    for c, r in zip(cases, ctx.execute(cases)):
        if isinstance(r, dict) and 'dead' in r:
            if r['dead'] == 'Unexecuted': continue
            r = {'r': 'err', 'e': r['dead'], 'hit': ''}
        res = {k: r[k] for k in ('r', 'v', 'e') if k in r}
        chunks = [d for g in chunk_decls(c['md'], ctx) for d in g] if 'md' in c else []
        recs.append(({'kind': c['kind'], 'file': spec_file(c), 'chunks': chunks, 'hit': r['hit'], 'res': res}, c))
    return recs


def check_files(ctx, what, cases):
    ctx.trace('FileTrace', 'FileTrace', file_recs(ctx, cases), what)


# --------------------------------------------------------------------- C19 --
def footer_case(ctx, data, **kw):
    return dict({'kind': 'footer', 'len': len(data), 'parts': [[0, hx(data)]] if data else []}, **kw)


def disturb(ctx, c, n):
    """the same call with an awkward source"""
    r = ctx.r
    k = r.random()
    if k < .5: c['rng'] = r.randint(1, 10 ** 9)
    elif k < .8: c['sched'] = [r.choice([0, 1, 1, 2, 3, 5, 7, 8]) for _ in range(r.randint(1, 12))]
    if r.random() < .15: c['shrinks'] = [r.choice([0, 8, 8, 9, 20, r.randint(8, max(8, n))]), r.randint(0, n)]
    if r.random() < .4:
        if r.random() < .3: c['sf'] = [r.randint(0, 2), r.choice(FAULTS)]
        else: c['rf'] = [r.randint(0, max(1, n)), r.choice(FAULTS)]
    return c


def c19(ctx):
    r = ctx.r
    terms = {}
    def sink(t): terms[json.dumps(t)] = t
    ctx.model('FooterMC', sink=sink)
    terms = list(terms.values())
    cases = []
    for t in terms:
        c = footer_case(ctx, t['b'], sched=t['sched'])
        if t['hit'] and (not t['sched'] or t['sched'][-1] >= 0): c['sf'] = [t['seeks'], 'BrokenPipe']
        cases.append(c)
    bad = 0
    for t, c, x in zip(terms, cases, ctx.execute(cases)):
        if 'dead' in x: x = {'r': 'err', 'e': x['dead'], 'hit': ''}
        good = x['r'] == 'ok' and t['ok'] and x['v'] == [{'n': len(t['out']), 'nz': [[i, b] for i, b in enumerate(t['out']) if b]}]
        # another order of calls may run into the scheduled failure or not
        fails = x['r'] == 'err' and x['e'] not in CRASH and (not t['ok'] or x['hit'] != '')
        if not t['ok'] and t['hit'] and x['r'] == 'ok' and not x['hit']: good = True
        if not (good or fails):
            bad += 1
            if bad <= 3: ctx.violation('dialogues with the file', c, {'expected': t, 'observed': x})
    ctx.traces += len(terms)
    ctx.stages.append({'replayed': 'dialogues with the file', 'executions': len(cases)})
    ctx.log('replay', len(cases), 'dialogues')
    cases = []
    for i in range(400 * ctx.scale):      # valid and nearly valid files
        m = r.choice([0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 100, 127, 128, 255, 256, 257, 300, 1000, r.randint(0, 3000)])
        pre = r.choice([0, 0, 1, 4, 8, 100, r.randint(0, 500)])
        body = [r.randint(0, 255) for _ in range(pre + m)]
        if r.random() < .3 and pre + m >= 4: body[-4:] = MAGIC        # a magic inside of the metadata
        d = body + list(m.to_bytes(4, 'little')) + list(MAGIC)
        k = r.random()
        if k < .1: d[-r.randint(1, 4)] ^= 1 << r.randint(0, 7)
        elif k < .2: d[-8:-4] = list((pre + m + r.randint(-2, 3) & 0xffffffff).to_bytes(4, 'little'))
        elif k < .25: d[-8:-4] = list(r.choice([0xffffffff, 0x80000000, 0x7fffffff, 0x7ffffff8, 0xfffffff8, 0xfffffff7, 65536, 1 << 24]).to_bytes(4, 'little'))
        elif k < .3: d = d[:r.randint(0, len(d))]
        elif k < .35: d = d[r.randint(0, len(d)):]
        elif k < .4: d = d + [r.randint(0, 255) for _ in range(r.randint(1, 9))]
        cases.append(footer_case(ctx, d))
        for _ in range(2): cases.append(disturb(ctx, footer_case(ctx, d), len(d)))
    for n in range(0, 12):                # files shorter than the tail
        d = (list(b'\0\0\0\0PAR1'))[-n:] if n else []
        d = d if n <= 8 else [0] * (n - 8) + d
        cases.append(footer_case(ctx, d))
        cases.append(footer_case(ctx, list(b'PAR1\0\0\0\0PAR1')[:n]))
    for k in range(0, 40):                # every place a read can fail at
        d = [9] * 12 + [12, 0, 0, 0] + list(MAGIC)
        cases.append(footer_case(ctx, d, rf=[k, r.choice(FAULTS)], rng=k + 1))
        cases.append(footer_case(ctx, d, rf=[k, r.choice(FAULTS)]))
    for k in range(3):
        for f in FAULTS: cases.append(footer_case(ctx, [1, 2, 3, 3, 0, 0, 0] + list(MAGIC), sf=[k, f]))
    # large and huge files: the metadata at the end of a sparse file
    for m in (65535, 65536, 65537, 1 << 20, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, 40000000):
        for base in (0, 5, 1 << 31, 1 << 32, (1 << 33) + 7, (1 << 62) + 1):
            if m > 70000 and base not in (5, (1 << 33) + 7): continue
            n = base + m + 8
            c = {'kind': 'footer', 'len': n, 'parts': [[base - 1, 'aa']] * (base > 0) + [[base, '01'], [base + m // 2, '0203'], [base + m - 1, '07'], [base + m, hx(m.to_bytes(4, 'little')) + hx(MAGIC)]]}
            cases.append(c)
            for after, at in ((8, 0), (8, m // 2), (8, m - 1), (9, r.randint(0, m)), (20000, 30000), (m // 2, m // 2 + 5)): cases.append(dict(c, shrinks=[after, base + at]))
            for at in (0, 8192, m // 2, m - 1): cases.append(dict(c, rf=[base + at, r.choice(FAULTS)]))
    # lengths of the metadata and of the file around every power of two
    for k in range(3, 24):
        near = sorted({0, -1, 1, -8, 8, -4, 4, -12, r.randint(-20, 20)} if k < 18 else {0, -1, 1, -8})
        for d in near:
            m = (1 << k) + d
            if m < 6: continue        # parts must not overlap
            for base in {0, 4, r.randint(0, 40), max(0, (1 << k + 1) - m - r.choice([0, 4, 8, 12])), r.randint(0, m)} if k < 18 else {0, r.choice([4, 100, m])}:
                n = base + m + 8
                c = {'kind': 'footer', 'len': n, 'parts': [[base - 1, 'aa']] * (base > 0) + [[base, '01'], [base + m // 2, '0203']] + [[base + m - 1, '07']] + [[base + m, hx(m.to_bytes(4, 'little')) + hx(MAGIC)]]}
                cases.append(c if r.random() < .7 or m > 100000 else dict(c, rng=r.randint(1, 10 ** 9)))
                if r.random() < .1: cases.append(dict(c, shrinks=[r.choice([8, r.randint(8, m + 8)]), base + r.randint(0, m)]))
    for m in (0xffffffff, 0x80000000, 0x7fffffff, 0x7ffffff7, 1 << 30, 1 << 24):      # lengths beyond the file
        for n in (8, 9, 100, 4096): cases.append({'kind': 'footer', 'len': n, 'parts': [[n - 8, hx(m.to_bytes(4, 'little')) + hx(MAGIC)]]})
    # real files: the metadata of a generated file
    g = ctx.gen.canonical()
    for _ in range(20 * ctx.scale):
        b = small(ctx, ctx.tla('FileMetaData'), 3000)[1]
        d = list(MAGIC) + [r.randint(0, 255) for _ in range(r.randint(0, 300))] + b + list(len(b).to_bytes(4, 'little')) + list(MAGIC)
        cases.append(disturb(ctx, footer_case(ctx, d), len(d)))
    check_files(ctx, 'recorded footer extractions', cases)


# --------------------------------------------------------------------- C20 --
def L4(n): return limbs(n, 4)
def L2(n): return limbs(n, 2)


def some_decl(ctx, size, ok):
    r = ctx.r
    off = lambda: r.choice([0, 1, 4, size, size - 1, r.randint(0, size), r.randint(0, size), r.randint(0, size)]) if ok else \
        r.choice([-1, -(1 << 63), (1 << 63) - 1, (1 << 62), 1 << 32, (1 << 31) - 1, 1 << 31, r.randint(0, size), r.randint(0, size)])
    def ext():
        o = max(0, off()) if ok else off()
        l = r.randint(0, max(0, size - o)) if ok else r.choice([-1, 0, 1, 10, (1 << 31) - 1, -(1 << 31), r.randint(0, size)])
        return o, l
    (a, b), (c, d) = ext(), ext()
    dd = {'oo': [L4(a)], 'ol': [L2(b)], 'co': [L4(c)], 'cl': [L2(d)]}
    if r.random() < .25:
        for k in r.sample(sorted(dd), r.randint(1, 4)): dd[k] = []
    return dd


def c20(ctx):
    r = ctx.r
    full_o = [-1, 0, 5, 100, (1 << 32) + 7, (1 << 63) - 1]
    full_l = [-1, 0, 1, 300, (1 << 31) - 1]
    jobs = [{'o': [[]] + [[L4(x)] for x in full_o], 'l': [[]] + [[L2(x)] for x in full_l], 'n': 1},
            {'o': [[], [L4(10)], [L4(20)]], 'l': [[], [L2(0)], [L2(10)]] if ctx.scale == 1 else [[], [L2(0)], [L2(10)], [L2(30)]], 'n': 2},
            {'o': [[L4(10)], [L4(15)]], 'l': [[L2(0)], [L2(5)]], 'n': 2 + (ctx.scale > 1)}]
    f = ctx.path('jobs.ndjson')
    open(f, 'w').write(''.join(json.dumps(j) + '\n' for j in jobs))
    found = {}
    ctx.model('RangeMC', env={'CT_JOBS': f}, sink=lambda t: found.__setitem__(json.dumps(t), t))
    cases = []
    for t in found.values():
        ch = t['chunks']
        k = r.choice([0, 1, 2])
        md = metadata(ctx, [ch] if k == 0 else [[c] for c in ch] if k == 1 else [[]] + [[c] for c in ch] + [[]])
        cases.append({'kind': 'range', 'md': md})
    check_files(ctx, 'ranges of the enumerated declarations', cases)
    cases = []
    parts = lambda n: [[i, hx([1 + (i + k) % 255 for k in range(min(50, n - i))])] for i in range(0, n, 50)]
    for i in range(500 * ctx.scale):
        n = r.choice([1, 50, 100, 300])
        ok = r.random() < .7
        md = metadata(ctx, [[some_decl(ctx, n, ok) for _ in range(r.choice([0, 1, 2, 3]))] for _ in range(r.choice([1, 1, 2, 3]))])
        cases.append({'kind': 'range', 'md': md})
        c = {'kind': 'chunk', 'md': md, 'len': n, 'parts': parts(n)}
        cases.append(c)
        for _ in range(2): cases.append(disturb(ctx, dict(c), n))
        # the file is shorter than what is declared
        m = r.randint(0, n)
        cases.append({'kind': 'chunk', 'md': md, 'len': m, 'parts': [p for p in parts(m)]})
    def one(o, l, o2, l2): return {'oo': [L4(o)], 'ol': [L2(l)], 'co': [L4(o2)], 'cl': [L2(l2)]}
    for base in (0, 7, 65536, 1 << 31, (1 << 32) - 3, 1 << 32, (1 << 40) + 5, (1 << 62) + 3, (1 << 63) - 2000):     # far into a sparse file
        for a, b in ((one(base + 10, 20, base + 30, 40), 70), (one(base + 30, 40, base + 10, 20), 70), (one(base + 10, 50, base + 20, 10), 60), (one(base + 10, 1, base + 90, 1), 91)):
            c = {'kind': 'chunk', 'md': metadata(ctx, [[a]]), 'len': base + b, 'parts': [[base + 8, hx(range(100, 100 + b - 8))]]}
            cases += [c, dict(c, rng=r.randint(1, 10 ** 6)), dict(c, len=base + b - 1, parts=[[base + 8, hx(range(100, 100 + b - 9))]]), dict(c, len=base + b + 5),
                      dict(c, shrinks=[r.choice([0, 5]), base + r.randint(0, b)]), dict(c, rf=[base + 9, 'TimedOut']), dict(c, rf=[base + b - 1, 'Other']), dict(c, sf=[0, 'PermissionDenied'])]
    for m in (5000, 8193, 65536, 100000, 1 << 20, (1 << 24) + 1):       # large ones from sources that end or fail
        for base in (0, (1 << 33) + 7):
            c = {'kind': 'chunk', 'md': metadata(ctx, [[one(base + 100, m - 50, base + 20 + m, 80)]]), 'len': base + 100 + m, 'parts': [[base + 100, '0102'], [base + m // 2, '0304'], [base + m + 95, '0506']]}
            cases.append(c)
            for after, at in ((0, 150), (0, m // 2), (0, m + 99), (1, r.randint(100, m)), (3000, 4000), (m // 2, m // 2 + 200)): cases.append(dict(c, shrinks=[after, base + at]))
            for at in (100, 4196, m // 2, m + 99): cases.append(dict(c, rf=[base + at, r.choice(FAULTS)]))
            if m < 1 << 20: cases += [dict(c, rng=r.randint(1, 10 ** 6)), dict(c, sched=[0, 1, 0, 4000, 1, 0, 100])]
    for k in range(3, 22):              # lengths of the range around every power of two, and of the file and the offset
        for d in (0, -1, 1, r.choice([-16, -8, -4, 4, 8, 16]), r.randint(-20, 20)):
            m = (1 << k) + d
            if m < 6: continue
            for base in {0, 4, r.randint(0, 40), max(0, (1 << k + 1) - m - r.choice([0, 8])), 1 << r.randint(5, 61)} if k < 18 else {0, r.choice([4, 100, m])}:
                a = r.randint(1, m - 1)
                e = one(base, a, base + a, m - a) if r.random() < .5 else one(base + a, m - a, base, a)
                c = {'kind': 'chunk', 'md': metadata(ctx, [[e]]), 'len': base + m + r.choice([0, 0, 8, 100]), 'parts': [[base, '01'], [base + m // 2, '03'], [base + m - 1, '0708']]}
                cases.append(c if r.random() < .7 or m > 100000 else dict(c, rng=r.randint(1, 10 ** 9)))
                if r.random() < .1: cases.append(dict(c, shrinks=[r.choice([0, r.randint(0, m)]), base + r.randint(0, m)]))
    for a in (one(0, (1 << 31) - 1, 0, 1), one((1 << 63) - 1, (1 << 31) - 1, 0, 1), one((1 << 63) - 1, 1, (1 << 63) - 1, 2), one(0, 1, (1 << 63) - 1, 0), one(1, 1, 1 << 47, 1),
              one(0, 1, (1 << 62), 100), one(5, 0, 5, 0), one((1 << 63) - 1, 0, (1 << 63) - 1, 0), one((1 << 63) - 1, (1 << 31) - 1, (1 << 63) - 1, (1 << 31) - 1)):
        for n in (0, 8, 100): cases.append({'kind': 'chunk', 'md': metadata(ctx, [[a]]), 'len': n, 'parts': [[0, hx([7] * n)]] if n else []})
        cases.append({'kind': 'range', 'md': metadata(ctx, [[a]])})
    # negative numbers in any place, alone and after valid chunks, and in declarations that do not count
    good = one(10, 20, 40, 5)
    for k in ('oo', 'ol', 'co', 'cl'):
        for v in (-1, -5, -(1 << 31), -(1 << 63)):
            if k[1] == 'l' and v < -(1 << 31): continue
            badd = dict(good, **{k: [L4(v) if k[1] == 'o' else L2(v)]})
            for gs in ([[badd]], [[good, badd]], [[good], [badd]], [[badd, good]], [[good, dict(badd, **{('cl' if k != 'cl' else 'co'): []})]], [[dict(badd, **{k2: [] for k2 in ('oo', 'ol', 'co', 'cl') if k2 != k})]]):
                cases.append({'kind': 'range', 'md': metadata(ctx, gs)})
                cases.append({'kind': 'chunk', 'md': metadata(ctx, gs), 'len': 100, 'parts': parts(100)})
    check_files(ctx, 'recorded ranges and fetched chunks', cases)


# --------------------------------------------------------------------- C21 --
def pindex_case(ctx, chunk, off, groups): return {'kind': 'pindex', 'hex': hx(chunk), 'off': off, 'md': metadata(ctx, groups)}


def page_index_cases(ctx, n):
    """layouts of the indexes of some column chunks, intact and with one thing wrong"""
    r, g = ctx.r, ctx.gen.canonical()
    to, tc = ctx.tla('OffsetIndex'), ctx.tla('ColumnIndex')
    def pindex(*a): return pindex_case(ctx, *a)
    def layout(n, off, gaps=True):
        """n column chunks, their indexes somewhere in a chunk at off"""
        items = []
        for i in range(n):
            items.append((i, 'o', small(ctx, to, 120)[1])); items.append((i, 'c', small(ctx, tc, 200)[1]))
        if r.random() < .7: r.shuffle(items)
        chunk, ds = [], [{'oo': [], 'ol': [], 'co': [], 'cl': []} for _ in range(n)]
        for i, k, b in items:
            if gaps and r.random() < .3: chunk += [r.randint(0, 255) for _ in range(r.randint(1, 9))]
            ds[i][k + 'o'] = [L4(off + len(chunk))]; ds[i][k + 'l'] = [L2(len(b))]
            chunk += b
        return chunk, ds
    def groups_of(ds):
        out, k = [], 0
        while k < len(ds):
            n = r.randint(0, 3)
            out.append(ds[k:k + n]); k += n
        return out
    cases = []
    for i in range(n):
        if i % 4 == 1: g.free(.3)
        else: g.canonical()
        off = r.choice([0, 1, 1000, 65536, 1 << 31, 1 << 32, (1 << 40) + 1, (1 << 62)])
        chunk, ds = layout(r.choice([1, 1, 2, 3, 4, 6]), off)
        cases.append(pindex(chunk, off, groups_of(ds)))
        # some chunks declare only a part
        d2 = [dict(d) for d in ds]
        for d in d2:
            if r.random() < .5:
                for k in r.sample(sorted(d), r.randint(1, 4)): d[k] = []
        cases.append(pindex(chunk, off, groups_of(d2)))
        # a partial declaration may be nonsense
        d2 = [dict(d) for d in ds]
        d2.insert(r.randint(0, len(d2)), {'oo': [L4(-5)], 'ol': [L2(-1)], 'co': [L4(0)], 'cl': []})
        cases.append(pindex(chunk, off, groups_of(d2)))
        # one extent is wrong
        d2 = [dict(d) for d in ds]
        d = r.choice(d2)
        k = r.choice(sorted(d))
        v = unlimbs(d[k][0])
        v = r.choice([v + 1, v - 1, v + r.randint(2, 9), -1, 0, v - off if k[1] == 'o' else v, (1 << 63) - 1 if k[1] == 'o' else (1 << 31) - 1, v + (1 << 32) if k[1] == 'o' else -v,
                      off + len(chunk) if k[1] == 'o' else len(chunk) + 1, off - 1 if k[1] == 'o' else -(1 << 31)])
        d[k] = [L4(v) if k[1] == 'o' else L2(v)]
        cases.append(pindex(chunk, off, groups_of(d2)))
        # extents that swallow bytes behind the encoding
        d2 = [dict(d) for d in ds]
        d = r.choice(d2)
        room = off + len(chunk) - unlimbs(d['oo'][0]) - unlimbs(d['ol'][0])
        d['ol'] = [L2(unlimbs(d['ol'][0]) + min(room, r.randint(0, 5)))]
        cases.append(pindex(chunk, off, groups_of(d2)))
        # column chunks that point to the same places, or to some of them
        d2 = [dict(d) for d in ds]
        for _ in range(r.choice([1, 1, 2])):
            k = r.randrange(len(d2))
            twin, other = dict(d2[k]), r.choice(d2)
            for _ in range(r.choice([0, 1, 1, 2])):
                f = r.choice(['ol', 'cl', 'oo', 'co'])
                if f[1] == 'l' and twin[f]: twin[f] = [L2(max(0, unlimbs(twin[f][0]) + r.choice([-1, -1, 1, -2])))]
                elif f[0] == 'o': twin['oo'], twin['ol'] = other['oo'], other['ol']
                else: twin['co'], twin['cl'] = other['co'], other['cl']
            d2.insert(r.choice([k, k + 1, k + 1, r.randint(0, len(d2))]), twin)
        cases.append(pindex(chunk, off, groups_of(d2)))
        # a part of the chunk only, or another offset
        a, b = sorted([r.randint(0, len(chunk)), r.randint(0, len(chunk))])
        cases.append(pindex(chunk[a:b], off + a, groups_of(ds)))
        cases.append(pindex(chunk, off + r.choice([-1, 1, 5]) if off else 1, groups_of(ds)))
        # undecodable bytes
        ch = list(chunk)
        for _ in range(r.randint(1, 3)): ch[r.randrange(len(ch))] = r.choice([0, 0x80, 0xff, r.randint(0, 255)])
        cases.append(pindex(ch, off, groups_of(ds)))
    g.canonical()
    for m in (33, 65, 130, 300):       # very many column chunks, one of them wrong
        off = r.choice([0, 77, 1 << 33])
        ds, chunk = [], []
        for i in range(m):
            o, c = g.enc(to, [[[[[L4(i)], [L2(i)], [L4(0)]]]], []]) if i % 5 == 0 else [0x19, 0x0c, 0], g.enc(tc, [[[]], [[]], [[]], [L2(i % 3)], [], [], []])
            ds.append({'oo': [L4(off + len(chunk))], 'ol': [L2(len(o))], 'co': [L4(off + len(chunk) + len(o))], 'cl': [L2(len(c))]})
            chunk += o + c
        for k in (None, m - 1, m // 2, r.randrange(m)):
            d2 = [dict(d) for d in ds]
            if k is not None:
                f = r.choice(['ol', 'cl', 'oo', 'co'])
                v = unlimbs(d2[k][f][0])
                d2[k][f] = r.choice([[], [L2(v - 1) if f[1] == 'l' else L4(off + len(chunk))], [L2(-1) if f[1] == 'l' else L4(-1)]])
            for groups in ([d2], [[d] for d in d2], [d2[:k or 20], d2[k or 20:]]): cases.append(pindex(chunk, off, groups))
    return cases


def placements(ctx):
    """every placement of extents on a short chunk of a file, run in the code"""
    r, g = ctx.r, ctx.gen
    g.canonical()
    to, tc = ctx.tla('OffsetIndex'), ctx.tla('ColumnIndex')
    o0 = g.enc(to, [[[]], []])
    o1 = g.enc(to, [[[[[L4(4)], [L2(10)], [L4(0)]]]], []])
    c0 = g.enc(tc, [[[]], [[]], [[]], [L2(0)], [], [], []])
    c1 = g.enc(tc, [[[True]], [[[1]]], [[[2]]], [L2(1)], [], [], []])
    def one(v, n): return [[(L4 if n[1] == 'o' else L2)(x)] for x in v]
    def decl(**kw): return {k: [[]] if kw[k] is None else one(kw[k] if isinstance(kw[k], list) else [kw[k]], k) for k in ('oo', 'ol', 'co', 'cl')}
    jobs = []
    for off in (0, 1 << 33):
        chunk = o0 + c0 + o1
        n = len(chunk)
        every, lens = [-1] * (off > 0) + [off - 1 + i for i in range(n + 3)], list(range(-1, n + 2))
        if ctx.scale == 1 and off: lens = lens[::2] + [n]
        jobs.append({'chunk': chunk, 'off': off, 'groups': [1], 'sets': [decl(oo=every, ol=lens, co=off + len(o0), cl=len(c0))]})
        jobs.append({'chunk': chunk, 'off': off, 'groups': [1], 'sets': [decl(oo=off, ol=len(o0), co=every, cl=lens)]})
    # what is declared at all, by two column chunks
    chunk = o0 + c0 + o1 + c1
    a = dict(oo=7, ol=len(o0), co=7 + len(o0), cl=len(c0))
    b = dict(oo=7 + len(o0 + c0), ol=len(o1), co=7 + len(o0 + c0 + o1), cl=len(c1))
    opt = lambda d: {k: v + [[]] for k, v in decl(**d).items()}
    for groups in ([2], [1, 1], [0, 1, 0, 1]): jobs.append({'chunk': chunk, 'off': 7, 'groups': groups, 'sets': [opt(a), opt(b)]})
    # three column chunks, each intact, exchanged with another one, or broken
    mix = lambda d, e: {k: decl(**d)[k] + decl(**e)[k] for k in d}
    bad = dict(a, ol=len(o0) - 1)
    for groups in ([3], [1, 2], [2, 0, 1]): jobs.append({'chunk': chunk, 'off': 7, 'groups': groups, 'sets': [mix(a, b), decl(**b), mix(a, bad)]})
    f = ctx.path('pjobs.ndjson')
    with open(f, 'w') as o:
        for j in jobs: o.write(json.dumps(dict(j, off=L4(j['off']))) + '\n')
    terms = []
    ctx.model('PageIndexMC', env={'CT_JOBS': f}, sink=terms.append)
    cases = [pindex_case(ctx, jobs[t['j'] - 1]['chunk'], jobs[t['j'] - 1]['off'], t['rgs']) for t in terms]
    bad = 0
    for t, c, x in zip(terms, cases, ctx.execute(cases)):
        if x.get('dead') == 'Unexecuted': continue
        if 'dead' in x: x = {'r': 'err', 'e': x['dead']}
        crash = x['r'] != 'ok' and x['e'] in ('Panic', 'Crash', 'Hang')
        good = not crash and (t['st'] == 'unspec' or (x['r'] == 'ok') == (t['st'] == 'ok') and (t['st'] != 'ok' or x['v'] == t['v']))
        if not good:
            bad += 1
            if bad <= 3: ctx.violation('page index extents', c, {'expected': t, 'observed': x})
    ctx.traces += len(terms)
    ctx.stages.append({'replayed': 'all placements of page index extents', 'cases': len(terms), 'accepted': sum(t['st'] == 'ok' for t in terms)})
    ctx.log('placements', len(terms), sum(t['st'] == 'ok' for t in terms))
    if terms: ctx.samples.append({'what': 'a placement of page index extents', 'terminal_state': r.choice(terms)})


def c21(ctx):
    placements(ctx)
    r, g = ctx.r, ctx.gen.canonical()
    to, tc = ctx.tla('OffsetIndex'), ctx.tla('ColumnIndex')
    def pindex(*a): return pindex_case(ctx, *a)
    cases = page_index_cases(ctx, 250 * ctx.scale)
    # every placement of one chunk's extents around the boundaries
    g.canonical()
    oi = g.enc(to, [[[[[L4(4)], [L2(10)], [L4(0)]]]], []])
    ci = g.enc(tc, [[[True]], [[[1]]], [[[2]]], [L2(1)], [], [], []])
    chunk = oi + ci
    off = 100
    os_ = sorted({-1, 0, off - 1, off, off + 1, off + len(oi) - 1, off + len(oi), off + len(oi) + 1, off + len(chunk) - 1, off + len(chunk), off + len(chunk) + 1, (1 << 63) - 1})
    ls = sorted({-1, 0, 1, len(oi) - 1, len(oi), len(oi) + 1, len(ci) - 1, len(ci), len(ci) + 1, len(chunk), len(chunk) + 1, (1 << 31) - 1})
    for o in os_:
        for l in ls:
            cases.append(pindex(chunk, off, [[{'oo': [L4(o)], 'ol': [L2(l)], 'co': [L4(off + len(oi))], 'cl': [L2(len(ci))]}]]))
            cases.append(pindex(chunk, off, [[{'oo': [L4(off)], 'ol': [L2(len(oi))], 'co': [L4(o)], 'cl': [L2(l)]}]]))
    # nothing declared at all
    none = {'oo': [], 'ol': [], 'co': [], 'cl': []}
    for gs in ([], [[]], [[none]], [[none, none], [], [none]]): cases.append(pindex([], 0, gs)); cases.append(pindex(chunk, 5, gs))
    recs = []
    for c, x in zip(cases, ctx.execute(cases)):
        if 'dead' in x:
            if x['dead'] == 'Unexecuted': continue
            x = {'r': 'err', 'e': x['dead']}
        res = {k: x[k] for k in ('r', 'v', 'e') if k in x}
        recs.append(({'chunk': list(bytes.fromhex(c['hex'])), 'off': L4(c['off']), 'rgs': chunk_decls(c['md'], ctx), 'res': res}, c))
    ctx.trace('PageIndexTrace', 'PageIndexTrace', recs, 'recorded page index readings')


# --------------------------------------------------------------------- C22 --
def with_omitted(ctx, on=1.0):
    """conforming writers write what the library does not keep"""
    g = ctx.gen
    def hook(n, items, depth):
        if n in ctx.t.defs and ctx.t.defs[n]['kind'] == 'struct':
            for f in ctx.t.omitted(n):
                if f['req'] or ctx.r.random() < .5 * on:
                    old, g.hook = g.hook, None
                    items.append(g.item(f, g.value(f['t'], 2)))
                    g.hook = old
            items.sort(key=lambda i: i[0])
    return hook


def c22(ctx):
    r, g = ctx.r, ctx.gen.canonical()
    names = ctx.pqtypes
    kinds = {n: ctx.t.defs[n]['kind'] for n in names}
    comp = [n for n in names if kinds[n] != 'enum']
    # the whole table, both directions, from the specification
    vals = pipe_values(ctx, comp, 2 if ctx.scale > 1 else 1)
    replay_writes(ctx, 'bytes of the parquet types', vals)
    cases, exp = [], []
    for n, v, b in vals:
        cases.append(case(ctx, b, [{'op': 'read', 't': n}], some_srcs(ctx)))
        exp.append({'st': 'ok', 'p': len(b), 'v': v})
    compare(ctx, 'values of the parquet types', cases, exp, expected)
    ctx.traces += len(cases)
    # constants
    consts = {(n, a): limbs(b, 2) for n in names if kinds[n] == 'enum' for a, b in ctx.t.defs[n]['consts']}
    # decoding: what any writer may send
    cases = []
    for n in comp:
        t = ctx.tla(n)
        fs = ctx.table[n]['fields']
        for i in range(10 * ctx.scale):
            g.canonical()
            if i % 3 == 1: g.free(.25)
            g.hook = with_omitted(ctx)
            cases.append(case(ctx, small(ctx, t, 600)[1] + ([0x55] * (i % 3)), [{'op': 'read', 't': n}], some_srcs(ctx)))
        g.canonical()
        if kinds[n] == 'struct':
            base = [[ctx.default(f['t'])] if f['req'] else [] for f in fs]
            base = [[g.value(f['t'], 3)] if f['req'] else [] for f in fs]
            for i, f in enumerate(fs):
                for _ in range(3):        # each field alone
                    v = list(base)
                    v[i] = [g.value(f['t'], 2)]
                    g.hook = with_omitted(ctx, 0)
                    cases.append(case(ctx, g.enc(t, v), [{'op': 'read', 't': n}]))
                    g.hook = None
                if f['req']:              # required: not without it
                    v = list(base); v[i] = []
                    cases.append(case(ctx, g.assemble(g.items(n, v)), [{'op': 'read', 't': n}]))
                # every wire type for the field
                for wt in range(1, 13):
                    v = list(base); v[i] = []
                    it = g.items(n, v) + [[f['id'], wt, g.junk(wt)]]
                    it.sort(key=lambda x: x[0])
                    cases.append(case(ctx, g.assemble(it), [{'op': 'read', 't': n}]))
            for f in ctx.t.omitted(n):    # omitted: whatever it is
                for wt in range(1, 13):
                    it = g.items(n, base) + [[f['id'], wt, g.junk(wt)]]
                    it.sort(key=lambda x: x[0])
                    cases.append(case(ctx, g.assemble(it), [{'op': 'read', 't': n}]))
            # ids around and beyond the declared ones are unknown
            ids = {f['id'] for f in fs}
            for id in sorted(set(range(-1, max(ids | {0}) + 8)) - ids):
                wt = r.randint(1, 12)
                it = g.items(n, base) + [[id, wt, g.junk(wt)]]
                it.sort(key=lambda x: x[0])
                cases.append(case(ctx, g.assemble(it), [{'op': 'read', 't': n}]))
        else:
            for f in fs:
                for _ in range(3): cases.append(case(ctx, g.assemble([g.item(f, g.value(f['t'], 1))]), [{'op': 'read', 't': n}]))
                for wt in range(1, 13): cases.append(case(ctx, g.assemble([[f['id'], wt, g.junk(wt)]]), [{'op': 'read', 't': n}]))
            ids = {f['id'] for f in fs}
            for id in range(-1, max(ids) + 6):
                if id not in ids: cases.append(case(ctx, g.assemble([[id, 12, [0]]]), [{'op': 'read', 't': n}]))
    for n in [x for x in names if kinds[x] == 'enum']:
        for k in list(range(-2, 30)) + [1 << 31 - 1, -(1 << 31)]:
            cases.append(case(ctx, g.signed(limbs(k, 2)), [{'op': 'read', 't': n}]))
    g.canonical()
    check_reads(ctx, 'recorded decodings of parquet metadata', cases)
    ws = []
    for n in comp:
        for _ in range(6 * ctx.scale): ws.append({'kind': 'write', 'sinks': sinks(ctx, 1), 'jobs': [{'op': 'write', 't': n, 'v': small(ctx, ctx.tla(n), 600)[0]}]})
    ctx.trace('WriteTrace', 'WriteTrace', write_recs(ctx, ws), 'recorded encodings of parquet metadata')
    got = ctx.execute([{'kind': 'const'}])[0]
    have = {(a, b): v for a, b, v in got['v']} if got.get('r') == 'ok' else {}
    recs = [dict(enum=a, name=b, want=v, have=have.get((a, b), [])) for (a, b), v in consts.items()]
    ctx.trace('Constants', 'Constants', [(x, x) for x in recs], 'constants of the parquet enums')


# --------------------------------------------------------------------- C23 --
def clip(l):
    n = unlimbs(l)
    return max(-(1 << 30), min(1 << 30, n))


def elem_spec(ctx, v):
    """the projection of a SchemaElement that SchemaTree speaks of"""
    f = {x['name']: y for x, y in zip(ctx.table['SchemaElement']['fields'], v)}
    out = {k: [clip(f[n][0])] if f[n] else [] for k, n in (('type', 'type_'), ('len', 'type_length'), ('rep', 'repetition_type'), ('children', 'num_children'),
                                                        ('conv', 'converted_type'), ('scale', 'scale'), ('prec', 'precision'), ('id', 'field_id'))}
    out['name'] = bytes(f['name'][0]).decode()
    out['logical'] = []
    if f['logicalType']:
        i, x = f['logicalType'][0]
        k = ctx.table['LogicalType']['fields'][i - 1]['name']
        l = {'k': k}
        if k == 'DECIMAL': l['s'], l['p'] = clip(x[0][0]), clip(x[1][0])
        if k in ('TIME', 'TIMESTAMP'): l['utc'], l['unit'] = x[0][0], ['Millis', 'Micros', 'Nanos'][x[1][0][0] - 1]
        if k == 'INTEGER': l['w'], l['signed'] = x[0][0] - 256 if x[0][0] > 127 else x[0][0], x[1][0]
        if k == 'VARIANT': l['v'] = [x[0][0] - 256 if x[0][0] > 127 else x[0][0]] if x[0] else []
        out['logical'] = [l]
    return out


def element(ctx, name='x', **kw):
    """a SchemaElement value; attributes by their thrift names"""
    kw['name'] = list(name.encode())
    return [[kw[f['name']]] if f['name'] in kw else [] for f in ctx.table['SchemaElement']['fields']]


def schema_md(ctx, elems, version=1, rows=0, created=None):
    kw = {'schema': elems, 'version': limbs(version, 2), 'num_rows': limbs(rows, 4)}
    if created is not None: kw['created_by'] = list(created.encode())
    return [[kw[f['name']]] if f['name'] in kw else [ctx.default(f['t'])] if f['req'] else [] for f in ctx.table['FileMetaData']['fields']]


def schema_file(ctx, md):
    b = ctx.gen.enc(ctx.tla('FileMetaData'), md)
    return bytes(MAGIC) + bytes(b) + len(b).to_bytes(4, 'little') + MAGIC


def run_schema(ctx, files):
    """the tool on every file content; -> [{'r': 'ok', 'out'} | {'r': 'err', 'e'}]"""
    n = 8
    def work(k):
        d = ctx.path('w%d' % k)
        f = os.path.join(d, 'parquet/data/alltypes_tiny_pages.parquet')
        os.makedirs(os.path.dirname(f), exist_ok=True)
        res = []
        for x in files[k::n]:
            open(f, 'wb').write(x)
            try: p = subprocess.run([ctx.schema_bin], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=30, env={'PATH': os.environ['PATH']})
            except subprocess.TimeoutExpired:
                res.append({'r': 'err', 'e': 'hang'})
                continue
            if p.returncode == 0: res.append({'r': 'ok', 'out': p.stdout.decode('utf-8', 'replace')})
            else:
                e = p.stderr.decode('utf-8', 'replace')
                res.append({'r': 'err', 'e': 'schema' if p.returncode > 0 and ('Schema(' in e or 'UnknownType(' in e) else 'exit %d: %s' % (p.returncode, e[:300])})
        return res
    with concurrent.futures.ThreadPoolExecutor(n) as ex: parts = list(ex.map(work, range(n)))
    out = [None] * len(files)
    for k in range(n): out[k::n] = parts[k]
    ctx.runs += len(files)
    return out


def head(md, ctx):
    f = {x['name']: y for x, y in zip(ctx.table['FileMetaData']['fields'], md)}
    s = 'version: %d\nnum of rows: %d\n' % (unlimbs(f['version'][0]), unlimbs(f['num_rows'][0]))
    if f['created_by']: s += 'created by: %s\n' % bytes(f['created_by'][0]).decode()
    return s


def check_schemas(ctx, what, mds, files=None):
    si = [f['name'] for f in ctx.table['FileMetaData']['fields']].index('schema')
    recs = []
    for md, o in zip(mds, run_schema(ctx, files or [schema_file(ctx, md) for md in mds])):
        recs.append(({'elems': [elem_spec(ctx, e) for e in md[si][0]], 'head': head(md, ctx), 'obs': o}, {'schema': md[si][0]}))
    ctx.trace('SchemaTrace', 'SchemaTrace', recs, what)


def I(n): return limbs(n, 2)


def logical(ctx, k, v=None):
    names = [f['name'] for f in ctx.table['LogicalType']['fields']]
    i = names.index(k)
    return [i + 1, v if v is not None else ctx.default(ctx.table['LogicalType']['fields'][i]['t'])]


def random_logical(ctx):
    r = ctx.r
    k = r.choice([f['name'] for f in ctx.table['LogicalType']['fields']])
    v = None
    if k == 'DECIMAL': v = [[I(r.choice([0, 1, 2, 5, 38, -1, -128, -129, 127, 128, 1 << 30]))], [I(r.choice([1, 5, 9, 38, 127, 128, 0, -1, 256 + 5]))]]
    if k in ('TIME', 'TIMESTAMP'): v = [[r.random() < .5], [[r.randint(1, 3), []]]]
    if k == 'INTEGER': v = [[r.choice([8, 16, 32, 64, 1, 127, 0, 128, 255])], [r.random() < .5]]
    if k == 'VARIANT': v = [r.choice([[], [0], [1], [127], [128], [255]])]
    if k in ('GEOMETRY', 'GEOGRAPHY'): v = ctx.gen.value(ctx.tla('GeometryType' if k == 'GEOMETRY' else 'GeographyType'), 2)
    return logical(ctx, k, v)


NAMES = ['a', 'b', 'list', 'element', 'key_value', 'x y', '', 'caf\u00e9', '\u20ac', '(', '{', '}', ';', 'group', 'REQUIRED', 'very' * 20]


def attributes(ctx, leaf):
    r, kw = ctx.r, {}
    if r.random() < .8: kw['repetition_type'] = I(r.randint(0, 2))
    if r.random() < .4: kw['field_id'] = I(r.randint(-5, 100))
    if r.random() < .35: kw['logicalType'] = random_logical(ctx)
    if r.random() < .4: kw['converted_type'] = I(r.choice(list(range(22)) + [5, 5, 1, 2, 3, 22, -1, 100]))
    if r.random() < .5: kw['precision'] = I(r.choice([1, 5, 38, 127, 128, 0, -1]))
    if r.random() < .5: kw['scale'] = I(r.choice([0, 1, 5, 38, -128, -129, 200]))
    if leaf:
        kw['type_'] = I(r.randint(0, 7))
        if unlimbs(kw['type_']) == 7 or r.random() < .3: kw['type_length'] = I(r.choice([1, 2, 12, 16, 1000000, (1 << 30) - 1]))
        if r.random() < .3: kw['num_children'] = I(0)
    elif r.random() < .2: kw['type_'] = I(r.randint(0, 9))        # of no meaning for groups
    return kw


def random_tree(ctx, size, depth=0):
    """a depth first traversal of a random tree"""
    r = ctx.r
    kw = attributes(ctx, size == 1)
    if depth == 0: kw['repetition_type'] = I(0)
    if depth == 0 and r.random() < .3: del kw['repetition_type']
    if size == 1: return [element(ctx, r.choice(NAMES), **kw)]
    rest = size - 1
    kids = []
    while rest:
        k = r.choice([1, 1, rest, r.randint(1, rest)])
        kids.append(random_tree(ctx, k, depth + 1))
        rest -= k
    kw['num_children'] = I(len(kids))
    return [element(ctx, r.choice(NAMES), **kw)] + [e for k in kids for e in k]


def annotated(ctx):
    """physical types and annotations one by one, on leaves and groups: lists of elements"""
    r = ctx.r
    out = []
    root = element(ctx, 'root', num_children=I(1))
    for t in range(8):
        out.append([root, element(ctx, 'c', type_=I(t), type_length=I(16), repetition_type=I(t % 3))])
    for c in range(-1, 24):
        for kw in ({}, {'precision': I(9), 'scale': I(2)}, {'precision': I(9)}, {'scale': I(2)}):
            if kw and c != 5: continue
            out.append([root, element(ctx, 'c', type_=I(6), converted_type=I(c), **kw)])
            out.append([element(ctx, 'root', num_children=I(1)), element(ctx, 'c', num_children=I(1), converted_type=I(c), **kw), element(ctx, 'd', type_=I(0))])
    for p in (-1, 0, 1, 2, 38, 127, 128, 255, 256, 257, 1 << 20):
        for sc in (-129, -128, -1, 0, 1, p - 1, p, p + 1, 127, 256):
            out.append([root, element(ctx, 'c', type_=I(6), converted_type=I(5), precision=I(p), scale=I(sc))])
            out.append([root, element(ctx, 'c', type_=I(6), logicalType=logical(ctx, 'DECIMAL', [[I(sc)], [I(p)]]), converted_type=I(0))])
    for lf in ctx.table['LogicalType']['fields']:
        for _ in range(4):
            while True:
                l = random_logical(ctx)
                if l[0] == [x['name'] for x in ctx.table['LogicalType']['fields']].index(lf['name']) + 1: break
            conv = I(r.choice([0, 1, 3, 6]))
            out.append([root, element(ctx, 'c', type_=I(2), logicalType=l)])
            out.append([root, element(ctx, 'c', type_=I(2), logicalType=l, converted_type=conv)])
            out.append([root, element(ctx, 'g', num_children=I(1), logicalType=l, converted_type=conv), element(ctx, 'c', type_=I(1))])
    return out


def ragged(ctx):
    """wide groups of which the last members are missing, or followed by too many"""
    el = lambda *a, **k: element(ctx, *a, **k)
    out = []
    for n in (17, 64, 130, 256, 400):
        for kids in (1, 2):
            member = [el('g', num_children=I(kids), repetition_type=I(1))] + [el('c', type_=I(1), repetition_type=I(2))] * kids
            for have in {n - 1, n, n + 1, n * 3 // 4, n // (kids + 1) + 1}:
                out.append([el('r', num_children=I(n))] + member * have)
            out.append([el('r', num_children=I(n))] + member * n + [el('l', type_=I(1))])
            out.append([el('r', num_children=I(n))] + (member * n)[:-1])
            out.append([el('r', num_children=I(1)), el('h', num_children=I(n))] + (member * n)[:-1])
    return out


def c23(ctx):
    r = ctx.r
    ctx.gen.canonical()
    def setf(e, name, v):
        i = [f['name'] for f in ctx.table['SchemaElement']['fields']].index(name)
        return e[:i] + [[v] if v is not None else []] + e[i + 1:]
    # every short list over an alphabet
    alpha = [element(ctx, 'l', type_=I(1), repetition_type=I(0)), element(ctx, 'm', type_=I(6), repetition_type=I(1), num_children=I(0), converted_type=I(0)),
             element(ctx, 'g', num_children=I(1)), element(ctx, 'h', num_children=I(2), repetition_type=I(2), converted_type=I(3)),
             element(ctx, 'bad', repetition_type=I(0)), element(ctx, 'neg', num_children=I(-1), type_=I(1))] + \
            ([element(ctx, 't', num_children=I(3)), element(ctx, 'u', type_=I(8))] if ctx.scale > 1 else [])
    f = ctx.path('alpha.ndjson')
    open(f, 'w').write(''.join(json.dumps(elem_spec(ctx, e)) + '\n' for e in alpha))
    terms = []
    ctx.model('SchemaMC', env={'CT_JOBS': f, 'CT_MAX': '5'}, sink=terms.append)
    f = ctx.path('alpha2.ndjson')      # longer ones over the first four
    open(f, 'w').write(''.join(json.dumps(elem_spec(ctx, e)) + '\n' for e in alpha[:4]))
    ctx.model('SchemaMC', env={'CT_JOBS': f, 'CT_MAX': '7' if ctx.scale == 1 else '8'}, sink=terms.append)
    terms = list({str(t['ids']): t for t in terms}.values())
    acc = [t for t in terms if t['st'] == 'ok']
    rej = [t for t in terms if t['st'] != 'ok']
    r.shuffle(rej)
    terms = acc + rej[:1500 * ctx.scale]
    mds = [schema_md(ctx, [alpha[i - 1] for i in t['ids']]) for t in terms]
    bad = 0
    for t, md, o in zip(terms, mds, run_schema(ctx, [schema_file(ctx, md) for md in mds])):
        want = {'r': 'ok', 'out': head(md, ctx) + t['out']} if t['st'] == 'ok' else {'r': 'err', 'e': 'schema'}
        if o != want:
            bad += 1
            if bad <= 3: ctx.violation('explored schemas', {'elements': [elem_spec(ctx, alpha[i - 1]) for i in t['ids']]}, {'expected': want, 'observed': o})
    ctx.traces += len(terms)
    ctx.stages.append({'replayed': 'explored schemas', 'accepted': len(acc), 'executions': len(terms)})
    ctx.log('replay', len(acc), 'accepted,', len(terms) - len(acc), 'rejected schemas')
    # random trees, and lists that are nearly one
    mds = []
    for i in range(250 * ctx.scale):
        e = random_tree(ctx, r.choice([1, 2, 3, 4, 5, 8, 12, 20]))
        mds.append(schema_md(ctx, e, r.choice([0, 1, 2, -1, (1 << 31) - 1, -(1 << 31)]), r.choice([0, 1, 1 << 40, -1, (1 << 63) - 1]), r.choice([None, '', 'parquet-mr version 1.12.3 (build abc)', 'caf\u00e9'])))
        m = [list(x) for x in e]
        k = r.randrange(len(m))
        c = r.random()
        if c < .15: del m[k]
        elif c < .3: m.insert(k, r.choice(m))
        elif c < .5: m[k] = setf(m[k], 'num_children', r.choice([None, I(0), I(1), I(2), I(-1), I(len(m)), I(len(m) - k - 1), I(len(m) - k), I((1 << 31) - 1), I(-(1 << 31)), I(65537), I(256)]))
        elif c < .6: m[k] = setf(m[k], 'type_', r.choice([None, I(8), I(-1), I(100), I(7)]))
        elif c < .7: m[k] = setf(setf(m[k], 'type_', I(7)), 'type_length', r.choice([None, I(0), I(-1), I(1), I(-(1 << 31))]))
        elif c < .85: m[k] = setf(m[k], 'repetition_type', r.choice([I(3), I(-1), I(1), I(2), I(256), None]))
        else: m = m[:k] + m[k + 1:] + [m[k]]
        mds.append(schema_md(ctx, m))
    # annotations, one by one
    mds += [schema_md(ctx, e) for e in annotated(ctx)]
    # nesting
    for d in (1, 2, 50, 100, 125, 126, 127, 128, 129, 200, 255, 256, 257, 300, 2000):
        mds.append(schema_md(ctx, [element(ctx, 'g', num_children=I(1), repetition_type=I(0 if i == 0 else r.randint(0, 2))) for i in range(d)] + [element(ctx, 'l', type_=I(0))]))
        for rep in (1, 2):
            mds.append(schema_md(ctx, [element(ctx, 'g', num_children=I(1), repetition_type=I(0 if i == 0 else rep)) for i in range(d)] + [element(ctx, 'l', type_=I(0), repetition_type=I(rep))]))
        if d < 200: mds.append(schema_md(ctx, [element(ctx, 'g', num_children=I(2), repetition_type=I(0 if i == 0 else 1)) for i in range(d)] + [element(ctx, 'l', type_=I(0))] * (d + 1)))
    # names of every length and of unusual characters, on columns and groups
    odd = ["it's", '"q"', 'back\\slash', 'a\u0301', '\u00e9', '\u4e2d\u6587', '\U0001f980', '\u00a0', '\u200b', '\u202ex', '{}', '{0}', '%s', '$1', 'a.b', 'a;b', 'x {', '}', ' lead', 'trail ', '  ', 'a,b', '`', '\ufeffx', '\u00ad', '\u0130', 'GROUP', '-', '\\n', '0']
    for k in [1, 2, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1000, 1024, 1025, 5000] + ([20000, 70000] if ctx.scale > 1 else []): odd += ['n' * k, ''.join(r.choice(['a', '\u00e9', '\u20ac']) for _ in range(k))]
    for x in odd:
        y = r.choice(odd) if len(x) < 2000 else 'y'
        mds.append(schema_md(ctx, [element(ctx, r.choice(['root', x]), num_children=I(3)), element(ctx, x, type_=I(r.randint(0, 6)), repetition_type=I(1)), element(ctx, x, num_children=I(1), repetition_type=I(2), converted_type=I(3)), element(ctx, y, type_=I(6), converted_type=I(0)),
                                   element(ctx, y, type_=I(7), type_length=I(r.choice([1, 16, 255, 256, 65535, 65536, 70000, (1 << 30) - 1])), repetition_type=I(0))], created=r.choice([None, x])))
    # wide groups, the empty list
    for n in (1, 100, 255, 256, 257, 1000): mds.append(schema_md(ctx, [element(ctx, 'r', num_children=I(n))] + [element(ctx, 'c%d' % i, type_=I(i % 7)) for i in range(n)]))
    mds.append(schema_md(ctx, []))
    # children counts that do not add up in nested groups
    for a in range(4):
        for b in range(4):
            for n in range(6):
                mds.append(schema_md(ctx, [element(ctx, 'r', num_children=I(a)), element(ctx, 'g', num_children=I(b))] + [element(ctx, 'l', type_=I(1))] * n))
    mds += [schema_md(ctx, l) for l in ragged(ctx)]
    check_schemas(ctx, 'recorded runs of the schema tool', mds)
    # long lists, compared line by line
    recs = []
    lists = long_lists(ctx)
    mds = [schema_md(ctx, l) for l in lists]
    for l, md, o in zip(lists, mds, run_schema(ctx, [schema_file(ctx, md) for md in mds])):
        h = head(md, ctx)
        lines = [x + '\n' for x in o['out'][len(h):].split('\n')[:-1]] if o['r'] == 'ok' and o['out'].startswith(h) else ['nothing']
        recs.append(({'elems': [elem_spec(ctx, e) for e in l], 'nodes': [], 'lines': lines}, {'elements': len(l), 'observed': o if o['r'] != 'ok' else 'other lines'}))
    ctx.trace('SchemaScan', 'SchemaScan', recs, 'long lists')
    # the file of the repository, as decoded by the library
    f = os.path.join(os.environ.get('CT_REPO', '/repo'), 'parquet/data/alltypes_tiny_pages.parquet')
    if os.path.exists(f):
        d = open(f, 'rb').read()
        m = int.from_bytes(d[-8:-4], 'little')
        x = ctx.execute([case(ctx, d[-8 - m:-8], [{'op': 'read', 't': 'FileMetaData'}])])[0]
        if not isinstance(x, dict) and x[0][1][0]['r'] == 'ok': check_schemas(ctx, 'the file of the repository', [x[0][1][0]['v']], [d])


# --------------------------------------------------------------------- C26 --
def node_names(elems, ctx):
    return [bytes(e[[f['name'] for f in ctx.table['SchemaElement']['fields']].index('name')][0]).decode() for e in elems]


def paths_for(ctx, elems, specs):
    """paths of the elements of a list (read as a traversal, as far as it is one), and paths near them"""
    r = ctx.r
    paths, stk = [], []
    for i, e in enumerate(specs):
        while stk and stk[-1][1] == 0: stk.pop()
        if i and not stk: break
        if stk: stk[-1][1] -= 1
        here = stk[-1][0] + [e['name']] if i else []
        paths.append(here)
        if e['children'] and e['children'][0] > 0: stk.append([here, e['children'][0]])
    if len(paths) > 60: paths = paths[:20] + r.sample(paths[20:], 40)
    names = [e['name'] for e in specs] or ['a']
    more = [[]]
    for p in paths[:30]:
        more += [p + [r.choice(names)], p[:-1], p[1:], p[:-1] + [r.choice(names + ['nothing'])]]
        if p: more += [p[:-1] + [p[-1] + 'x'], p[:-1] + [p[-1][:-1]], p[:-1] + [p[-1].upper()], ['.'.join(p)], [specs[0]['name']] + p]
    return paths + r.sample(more, min(len(more), 40))


def check_nodes(ctx, probe, what, lists, paths=None):
    t = ctx.tla('SchemaElement')
    specs = [[elem_spec(ctx, e) for e in l] for l in lists]
    cases = [{'hex': hx(ctx.gen.enc({'k': 'list', 'e': t}, l)), 'paths': p} for l, p in zip(lists, paths or [paths_for(ctx, l, s) for l, s in zip(lists, specs)])]
    recs = []
    for l, sp, c, o in zip(lists, specs, cases, ctx.probe(probe, cases)):
        if o is None: continue
        recs.append(({'elems': sp, 'paths': c['paths'], 'obs': o}, {'elements': sp, 'hex': c['hex'], 'paths': c['paths']}))
    ctx.trace('SchemaNodesTrace', 'SchemaNodesTrace', recs, what)


def long_lists(ctx):
    """lists of more elements than 16 bits count: flat, and in blocks"""
    el = lambda *a, **k: element(ctx, *a, **k)
    flat = [el('r', num_children=I(65540))] + [el('c%d' % (i % 300), type_=I(i % 7), repetition_type=I(i % 3)) for i in range(65540)]
    block = [el('g', num_children=I(3), repetition_type=I(2)), el('a', type_=I(1), repetition_type=I(1)), el('h', num_children=I(1)), el('x', type_=I(6), repetition_type=I(2)), el('b', type_=I(2))]
    n = 14000 * min(ctx.scale, 2)
    return [flat, [el('r', num_children=I(n))] + block * n]


def c26(ctx):
    r = ctx.r
    ctx.gen.canonical()
    el = lambda *a, **k: element(ctx, *a, **k)
    alpha = [el('a', type_=I(1), repetition_type=I(0)), el('b', type_=I(6), repetition_type=I(1), num_children=I(0), field_id=I(7)), el('a', type_=I(1), repetition_type=I(2)),
             el('a', num_children=I(1)), el('b', num_children=I(2), repetition_type=I(2)), el('c', num_children=I(2), repetition_type=I(1))] + ([el('c', num_children=I(3)), el('c', type_=I(0))] if ctx.scale > 1 else [])
    f = ctx.path('alpha.ndjson')
    open(f, 'w').write(''.join(json.dumps(elem_spec(ctx, e)) + '\n' for e in alpha))
    terms = []
    ctx.model('SchemaNodesMC', env={'CT_JOBS': f, 'CT_MAX': '6'}, sink=terms.append)
    probe = ctx.build_probe()
    if probe is None:
        # the tool keeps these to itself: without the probe only what it prints can be judged (C23)
        ctx.assumptions.append('the source of the schema tool does not offer the fields any more: nothing decided')
        return
    # replay of the explored trees
    t = ctx.tla('SchemaElement')
    cases = [{'hex': hx(ctx.gen.enc({'k': 'list', 'e': t}, [alpha[i - 1] for i in x['ids']])), 'paths': [p for p, _ in x['paths']]} for x in terms]
    bad = 0
    for x, c, o in zip(terms, cases, ctx.probe(probe, cases)):
        if o is None: continue
        for n in o.get('nodes', []):
            for k in ('note', 'prec', 'scale', 'unit', 'dec'): n.pop(k, None)
        want = {'r': 'ok', 'nodes': [dict(n, opt=n['rep'] == 1) for n in x['nodes']], 'found': [i for _, i in x['paths']]}
        if o != want:
            bad += 1
            if bad <= 3: ctx.violation('explored trees', {'elements': [elem_spec(ctx, alpha[i - 1]) for i in x['ids']], 'paths': c['paths']}, {'expected': want, 'observed': o})
    ctx.traces += len(cases)
    ctx.stages.append({'replayed': 'explored trees', 'executions': len(cases)})
    ctx.log('replay', len(cases), 'explored trees')
    # random trees, lists that are nearly one
    lists = []
    for i in range(400 * ctx.scale):
        e = random_tree(ctx, r.choice([1, 2, 3, 4, 5, 8, 12, 20, 40]))
        lists.append(e)
        if i % 4 == 0:
            m = list(e); k = r.randrange(len(m))
            if r.random() < .5: del m[k]
            else: m.insert(k, r.choice(m))
            lists.append(m)
    # nesting and levels up to the limit; many columns
    for d in (1, 2, 50, 100, 125, 126, 127, 128, 129, 200, 256, 300):
        for rep in (0, 1, 2, None):
            g = [el('g%d' % (i % 3), num_children=I(1), repetition_type=I(0 if i == 0 else r.randint(0, 2) if rep is None else rep)) for i in range(d)]
            lists.append(g + [el('l', type_=I(0), repetition_type=I(rep if rep is not None else 1))])
        if d < 200: lists.append([el('g', num_children=I(2), repetition_type=I(0 if i == 0 else 1 + i % 2)) for i in range(d)] + [el('l%d' % i, type_=I(0), repetition_type=I(i % 3)) for i in range(d + 1)])
    for n in (1, 100, 255, 256, 257, 1000): lists.append([el('r', num_children=I(n))] + [el('c%d' % (i % 300), type_=I(i % 7), repetition_type=I(i % 3)) for i in range(n)])
    for k in (0, 1, -1, 255, 256, 65536, (1 << 31) - 1, -(1 << 31), 1 << 24): lists.append([el('r', num_children=I(1)), el('c', type_=I(1), field_id=I(k))])
    lists += annotated(ctx) + ragged(ctx)
    check_nodes(ctx, probe, 'recorded conversions', lists)
    if not ctx.notes: ctx.assumptions.append('the source of the schema tool does not offer logical types, precision and scale any more: only levels, numbers and paths decided')
    # long lists
    lists = long_lists(ctx)
    cases = [{'hex': hx(ctx.gen.enc({'k': 'list', 'e': t}, l)), 'paths': []} for l in lists]
    recs = [({'elems': [elem_spec(ctx, e) for e in l], 'nodes': o['nodes'] if o['r'] == 'ok' else [{'name': 'nothing'}], 'lines': []}, {'elements': len(l), 'observed': o if o['r'] != 'ok' else 'other nodes'})
            for l, o in zip(lists, ctx.probe(probe, cases)) if o is not None]
    ctx.trace('SchemaScan', 'SchemaScan', recs, 'conversions of long lists')


# --------------------------------------------------------------------- C28 --
def memory_cases(ctx):
    r = ctx.r
    out = page_index_cases(ctx, 25 * ctx.scale)
    for i in range(120 * ctx.scale):
        m = r.choice([0, 1, 7, 100, 1000])
        d = [r.randint(0, 255) for _ in range(m + r.choice([0, 4, 50]))]
        d += list(r.choice([m, m, m, len(d), len(d) + 1, 0xffffffff, 1 << 20]).to_bytes(4, 'little')) + list(r.choice([MAGIC, MAGIC, b'PAR2']))
        out.append(disturb(ctx, footer_case(ctx, d), len(d)))
        groups = [[{'oo': [L4(r.randint(-2, 300))], 'ol': [L2(r.randint(-1, 50))], 'co': [L4(r.randint(0, 300))], 'cl': [L2(r.randint(0, 50))]} for _ in range(r.randint(0, 2))] for _ in range(r.randint(0, 2))]
        md = metadata(ctx, groups)
        out.append({'kind': 'range', 'md': md})
        out.append(disturb(ctx, {'kind': 'chunk', 'md': md, 'len': 350, 'parts': [[10, 'aabb']]}, 350))
    return [{'kind': 'ledger', 'inner': c} for c in out]
