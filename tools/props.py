"""The checks of the runtime properties: which behaviours are explored and which executions are recorded."""
import json, threading, time
from base import *

CODES = list(range(1, 13))


def types_for(ctx, pq=True, bare=True, refs=True):
    return (ctx.testtypes if refs else []) + (ctx.pqtypes if pq else []) + (ctx.t.bare if bare else [])


def isref(ctx, n):
    t = ctx.tla(n)
    return t['k'] == 'ref'


def structs(ctx, origin=None):
    return [n for n, d in ctx.t.defs.items() if d['kind'] == 'struct' and (origin is None or d['origin'] == origin)]


def unions(ctx):
    return [n for n, d in ctx.t.defs.items() if d['kind'] == 'union']


def small(ctx, t, limit=400, tries=20):
    for _ in range(tries):
        v = ctx.gen.value(t)
        b = ctx.gen.enc(t, v) if not (t['k'] == 'opt' and not v) else []
        if len(b) <= limit: return v, b
    return v, b


# ------------------------------------------------- dialogues and histories --
def dialogue_jobs(ctx, n, limit=40):
    """whole values with their encodings, and damaged ones, for SourceMC"""
    g = ctx.gen
    out = []
    def add(j, b, v=None): out.append({'job': j, 'b': b, 'whole': v is not None, 'v': [] if v is None else v[0]})
    names = ['Inner', 'Mid', 'Bools', 'f64', 'i64', 'i16', 'String', 'Vec<u8>', 'Vec<f64>', 'Vec<String>', 'Vec<bool>', 'LogicalType', 'Statistics', 'EncodingSet'] + ctx.r.sample(types_for(ctx), 6)
    names = [x for x in dict.fromkeys(names) if x in set(types_for(ctx))]
    for i in range(n):
        name = names[i % len(names)]
        t = ctx.tla(name)
        g.canonical()
        if i % 3 == 1: g.free(.3)
        g.need_some = True
        v, b = small(ctx, t, limit, 200)
        b = g.enc(t, v)
        g.need_some = False
        if not b or len(b) > limit + 20: continue
        if t['k'] in ('encset',): v = sorted(set(v))
        q = i // len(names) % 4
        if q == 0: add({'op': 'read', 't': name}, b, [v])
        elif q == 1 and t['k'] not in ('bool', 'opt'): add({'op': 'skip', 'wt': g.code(t)}, b, [[]])
        elif q == 2: add({'op': 'read', 't': name}, b[:ctx.r.randint(0, len(b) - 1)])
        else: add({'op': 'read', 't': name}, g.mutate(b))
    for wt in CODES:
        b = g.junk(wt)
        if len(b) <= limit: add({'op': 'skip', 'wt': wt}, b, [[]])
    for t, b, v in (('double', [1, 2, 3, 4, 5, 6, 7, 8], [1, 2, 3, 4, 5, 6, 7, 8]), ('binary', [4, 9, 8, 7, 6], [9, 8, 7, 6]), ('string', [3, 0xe2, 0x82, 0xac], [0xe2, 0x82, 0xac]),
                    ('skipint', [0x80, 0x81, 0x82, 0x83, 5], []), ('skipbin', [0x85, 0, 1, 2, 3, 4, 5], []), ('i64', [0xff] * 9 + [1], limbs64(-(1 << 63)))):
        add({'op': 'tok', 't': t}, b, [v])
    g.canonical()
    return out


def limbs64(n): return [(n >> 16 * i) & 0xffff for i in range(4)]


def source_dialogues(ctx, n, budget=60000):
    """every behaviour of a stream (short reads, interruptions, one failure) while a value is decoded"""
    jobs = dialogue_jobs(ctx, n)
    for j in jobs: j['ev'] = 2 if len(j['b']) <= 10 + 6 * (ctx.scale > 1) else 1 if len(j['b']) < 30 else 0
    f = ctx.path('src.ndjson')
    with open(f, 'w') as o:
        for j in jobs: o.write(json.dumps(dict(j, job=spec_job(ctx, j['job']))) + '\n')
    terms = []
    ctx.model('SourceMC', env={'CT_JOBS': f}, sink=terms.append)
    calm = {t['j']: t for t in terms if not t['hit']}
    if len(terms) > budget * ctx.scale: terms = ctx.r.sample(terms, budget * ctx.scale)
    cases = []
    for i, t in enumerate(terms):
        k = KINDS[i % len(KINDS)]
        cases.append(case(ctx, jobs[t['j'] - 1]['b'], [jobs[t['j'] - 1]['job']], ['sched'], sched=t['sched']))
        # a fault only matters where it is met; the end of the content stays the end of the file
        if t['hit']: cases[-1]['fault'] = k
    bad = n = 0
    for c, t, r in zip(cases, terms, ctx.execute(cases)):
        if isinstance(r, dict) and r['dead'] == 'Unexecuted': continue
        (s, obs), = normal(r, c)
        o, n = obs[0], n + 1
        # faults are given in all those executions; an execution that asks in other portions than the
        # machine need not meet the fault, and then has to end as it does without
        if s == 'hit': ok = o['r'] == 'err' and o['e'] == 'IO:' + c.get('fault', 'BrokenPipe')
        else:
            want = calm[t['j']]
            if c.get('fault') and want['st'] == 'err' and EOF in want['v']: want = dict(want, v=want['v'] + ['IO:' + c['fault']])
            ok = expected(want, obs)
        if not ok:
            bad += 1
            if bad <= 3: ctx.violation('the stream behaves in a way that changes the outcome', c, {'dialogue': t, 'observed': [s, o]})
    ctx.traces += n
    ctx.stages.append({'replayed': 'dialogues of decoder and stream', 'executions': n})
    ctx.log('dialogues with the source', n)
    if terms: ctx.samples.append({'what': 'dialogue of decoder and stream', 'terminal_state': shorten(ctx.r.choice(terms))})


def sink_dialogues(ctx, n, budget=60000, limit=40):
    """every behaviour of a sink (short writes, interruptions, a failure, accepting nothing) while a value is written"""
    g = ctx.gen
    jobs = []
    names = ['Inner', 'Mid', 'Bools', 'f64', 'i64', 'String', 'Vec<u8>', 'Vec<f64>', 'Vec<String>', 'Vec<bool>', 'LogicalType', 'Statistics', 'EncodingSet'] + ctx.r.sample(types_for(ctx), 8)
    names = [x for x in dict.fromkeys(names) if x in set(types_for(ctx))]
    for i in range(n):
        name = names[i % len(names)]
        t = ctx.tla(name)
        if has_set(ctx, t): continue
        g.canonical()
        g.need_some = True
        v, b = small(ctx, t, limit, 200)
        g.need_some = False
        if not b or len(b) > limit + 20: continue
        q = i // len(names) % 3
        if q < 2: jobs.append({'op': 'write', 't': name, 'v': v, 'b': b})
        elif t['k'] not in ('bool', 'opt'):
            id, last = ctx.r.choice([(1, 0), (16, 0), (3, 2), (2, 3), (-5, 0), (300, 290)])
            jobs.append({'op': 'wfield', 't': name, 'v': v, 'id': id, 'last': last, 'b': g.header(id, g.code(t), last) + b})
    f = ctx.path('snk.ndjson')
    with open(f, 'w') as o:
        for j in jobs:
            k = {'op': 'write', 't': ctx.tla(j['t']), 'v': j['v']} if j['op'] == 'write' else {'op': 'wfield', 't': ctx.tla(j['t']), 'v': j['v'], 'id': j['id'], 'last': j['last']}
            o.write(json.dumps({'job': k, 'b': j['b'], 'ev': 2 if len(j['b']) <= 12 + 6 * (ctx.scale > 1) else 1}) + '\n')
    terms = []
    ctx.model('SinkMC', env={'CT_JOBS': f}, sink=terms.append)
    if len(terms) > budget * ctx.scale: terms = ctx.r.sample(terms, budget * ctx.scale)
    cases, part = [], []
    for t in terms:
        j = jobs[t['j'] - 1]
        cases.append({'kind': 'write', 'sinks': [{'name': 'sched', 'sched': t['sched'], 'err': ctx.r.choice([k for k in KINDS if k != 'WriteZero'])}],
                      'jobs': [{k: x for k, x in j.items() if k != 'b'}]})
    bad = n = 0
    for c, t, r in zip(cases, terms, ctx.execute(cases)):
        n += 1
        b = jobs[t['j'] - 1]['b']
        if isinstance(r, dict):
            if r['dead'] == 'Unexecuted': continue
            ok = False
        else:
            x = r[0][1]
            out, o = list(bytes.fromhex(x['out'])), x['obs'][0]
            if x['hit'] == 'no': ok = o['r'] == 'ok' and out == b
            else: ok = o['r'] == 'err' and o['e'] == 'IO:' + (c['sinks'][0]['err'] if x['hit'] == 'fault' else 'WriteZero') and out == b[:len(out)]
        if not ok:
            bad += 1
            if bad <= 3: ctx.violation('the sink behaves in a way that changes the output', c, {'dialogue': t, 'encoding': b, 'observed': r})
    ctx.traces += n
    ctx.stages.append({'replayed': 'dialogues of encoder and sink', 'executions': n})
    ctx.log('dialogues with the sink', n)
    if terms: ctx.samples.append({'what': 'dialogue of encoder and sink', 'terminal_state': shorten(ctx.r.choice(terms))})


def has_set(ctx, t, seen=()):
    if t['k'] == 'set': return True
    if t['k'] in ('list', 'opt'): return has_set(ctx, t['e'], seen)
    if t['k'] != 'ref' or t['n'] in seen: return False
    return any(has_set(ctx, f['t'], seen + (t['n'],)) for f in ctx.table[t['n']]['fields'])


def sessions(ctx, size=20):
    """every sequence of three operations of a catalogue"""
    g = ctx.gen
    jobs = []
    names = ['Inner', 'Bools', 'Mid', 'Vec<i32>', 'String', 'i64', 'bool', 'Vec<bool>', 'LogicalType', 'EncodingSet', 'Vec<Inner>', 'f64'] + ctx.r.sample(types_for(ctx), 3 + 6 * (ctx.scale > 1))
    names = [x for x in dict.fromkeys(names) if x in set(types_for(ctx))]
    for i, name in enumerate(names):
        t = ctx.tla(name)
        g.canonical()
        if i % 4 == 3: g.free(.3)
        g.need_some = True
        v, b = small(ctx, t, 24, 300)
        b = g.enc(t, v)
        g.need_some = False
        jobs.append(({'op': 'read', 't': name}, b, True, v))
        if i % 3 == 0 and t['k'] not in ('bool', 'opt'): jobs.append(({'op': 'skip', 'wt': g.code(t)}, b, True, []))
    for wt in (9, 11, 12):
        b = g.junk(wt)
        while len(b) > 24: b = g.junk(wt)
        jobs.append(({'op': 'skip', 'wt': wt}, b, True, []))
    jobs.append(({'op': 'tok', 't': 'header', 'last': 20}, [0x35], True, [5, 23]))
    jobs.append(({'op': 'read', 't': 'Inner'}, [0x15, 2, 0x11, 0], False, []))
    jobs.append(({'op': 'read', 't': 'String'}, [2, 0xff, 0xfe], False, []))
    g.canonical()
    # lists are also decoded into populated ones
    f = ctx.path('ses.ndjson')
    with open(f, 'w') as o:
        for j, b, e, v in jobs: o.write(json.dumps({'job': spec_job(ctx, j), 'b': b, 'exact': e, 'v': v}) + '\n')
    terms = []
    ctx.model('SessionMC', env={'CT_JOBS': f}, sink=terms.append)
    cases = []
    for i, t in enumerate(terms):
        cases.append(case(ctx, [x for k in t['s'] for x in jobs[k - 1][1]], [jobs[k - 1][0] for k in t['s']], ['slice', ['read', 'chunk:%d', 'min'][i % 3]]))
    bad = 0
    for c, t, r in zip(cases, terms, ctx.execute(cases)):
        if isinstance(r, dict) and r['dead'] == 'Unexecuted': continue
        for s, obs in normal(r, c):
            good = True
            for i, h in enumerate(t['h']):
                good = good and i < len(obs) and expected(h, obs[i:])
            if not good:
                bad += 1
                if bad <= 3: ctx.violation('a session', dict(c, srcs=[s]), {'expected': t, 'observed': obs})
                break
    ctx.traces += len(terms)
    ctx.stages.append({'replayed': 'all sessions of three operations', 'operations': len(jobs), 'sessions': len(terms)})
    ctx.log('sessions', len(terms))
    if terms: ctx.samples.append({'what': 'a session of three operations', 'terminal_state': shorten(ctx.r.choice(terms))})


def streams(ctx):
    """operations on several streams, some of them failing, in every interleaving and in several threads"""
    g = ctx.gen
    orders = []
    ctx.model('StreamsMC', 'StreamsMCdeep' if ctx.scale > 1 else 'StreamsMC', sink=orders.append)
    names = types_for(ctx)
    def good_write():
        n = ctx.r.choice(names)
        g.canonical(); g.need_some = True
        v, b = small(ctx, ctx.tla(n), 80)
        g.need_some = False
        return {'op': 'write', 't': n, 'v': v}, b
    def stream(n, last):
        """n operations, the last of them failing if last is 'err'"""
        if ctx.r.random() < .45:
            jobs, bs = zip(*[good_write() for _ in range(n)])
            k = {}
            if last == 'err':
                size = sum(map(len, bs))
                k = {'budget': ctx.r.randint(size - len(bs[-1]), max(size - len(bs[-1]), size - 1)), 'err': ctx.r.choice(['BrokenPipe', 'TimedOut', 'WouldBlock'])}
            if ctx.r.random() < .5: k['rng'] = ctx.r.randint(1, 99)
            return {'sink': k, 'jobs': list(jobs)}
        jobs, b = [], []
        for i in range(n):
            name = ctx.r.choice(names)
            t = ctx.tla(name)
            g.canonical()
            if ctx.r.random() < .5: g.free(.3)
            g.need_some = True
            e = g.enc(t, small(ctx, t, 80)[0])
            g.need_some = False
            if i == n - 1 and last == 'err': e = e[:ctx.r.randint(0, max(0, len(e) - 1))] if ctx.r.random() < .6 else g.mutate(e)
            b += e
            q = ctx.r.random()
            if q < .2 and t['k'] not in ('bool', 'opt'): jobs.append({'op': 'skip', 'wt': g.code(t)})
            else: jobs.append({'op': 'read', 't': name})
        s = dict(case(ctx, b, jobs, []), src=ctx.r.choice(['slice', 'slice', 'read', 'chunk:%d' % ctx.r.randint(1, 999), 'min']))
        del s['srcs']
        if last == 'err' and s['src'] != 'slice' and ctx.r.random() < .3: s['fault'] = ctx.r.choice(['ConnectionReset', 'Other'])
        return s
    groups = []
    for i, o in enumerate(orders):
        groups.append((o, [stream(n, last) for n, last in o['kinds']]))
    # crowds: many streams, all doing the same kind of thing at the same time
    pick = lambda ks: [n for n in names if ctx.tla(n)['k'] in ks]
    def member(kind):
        if kind in ('lists', 'maps', 'structs', 'anything'):
            wt = {'lists': 9, 'maps': 11, 'structs': 12}.get(kind) or ctx.r.choice([8, 9, 10, 11, 12])
            jobs = [{'op': 'skip', 'wt': wt} for _ in range(ctx.r.randint(1, 4))]
            b = [x for _ in jobs for x in g.junk(wt)]
        else:
            ks = {'texts': ('string', 'binary'), 'numbers': ('i8', 'i16', 'i32', 'i64', 'double', 'enum'), 'vectors': ('list', 'set', 'encset'), 'values': ('ref',), 'writing': ('ref', 'list', 'string', 'i64')}[kind]
            ns = [ctx.r.choice(pick(ks)) for _ in range(ctx.r.randint(1, 4))]
            g.canonical(); g.need_some = True
            vb = [small(ctx, ctx.tla(n), 200) for n in ns]
            g.need_some = False
            if kind == 'writing': return {'sink': {}, 'jobs': [{'op': 'write', 't': n, 'v': v} for n, (v, _) in zip(ns, vb)]}
            jobs, b = [{'op': 'read', 't': n} for n in ns], [x for _, e in vb for x in e]
        if ctx.r.random() < .15: b = b[:ctx.r.randint(0, len(b))]
        s = dict(case(ctx, b, jobs, []), src=ctx.r.choice(['slice', 'slice', 'read', 'min']))
        del s['srcs']
        return s
    crowds = []
    for i in range(24 * ctx.scale):
        ss = [member(['lists', 'maps', 'structs', 'anything', 'texts', 'numbers', 'vectors', 'values', 'writing'][i % 9]) for _ in range(8)]
        crowds.append(len(groups))
        groups.append(({'order': []}, ss))
    # alone: those that succeed first, so that no failure precedes them
    alone = [(gi in crowds or o['kinds'][k][1] == 'err', gi, k) for gi, (o, ss) in enumerate(groups) for k in range(len(ss))]
    alone.sort()
    solo = {}
    for (e, gi, k), r in zip(alone, ctx.execute([{'kind': 'streams', 'streams': [groups[gi][1][k]], 'order': [0] * len(groups[gi][1][k]['jobs'])} for e, gi, k in alone])):
        solo[gi, k] = [{'r': 'err', 'e': r['dead']}] if isinstance(r, dict) else r[0]
    cases, plan = [], []
    for gi, (o, ss) in enumerate(groups):
        if gi in crowds:
            cases.append({'kind': 'streams', 'streams': ss, 'threads': 1, 'rounds': 10 ** 6, 'ms': 250})
            plan.append((gi, cases[-1]))
            continue
        cases.append({'kind': 'streams', 'streams': ss, 'order': [k - 1 for k in o['order']]})
        if gi % 3 == 0: cases[-1].update(rounds=300, ms=150)
        plan.append((gi, cases[-1]))
        if gi % 4 == 0:
            cases.append({'kind': 'streams', 'streams': ss, 'threads': 1, 'rounds': 300, 'ms': 20})
            plan.append((gi, cases[-1]))
    recs = []
    for (gi, c), r in zip(plan, ctx.execute(cases)):
        o, ss = groups[gi]
        al = [[json.dumps(x, sort_keys=True) for x in solo[gi, k]] for k in range(len(ss))]
        if isinstance(r, dict):
            if r['dead'] != 'Unexecuted': ctx.violation('streams side by side', c, {'observed': r})
            continue
        got = [[json.dumps(x, sort_keys=True) for x in q] for q in r]
        if 'order' in c:
            seen, ev = [0] * len(ss), []
            for k in c['order']:
                if seen[k] < len(got[k]): ev.append({'s': k + 1, 'r': got[k][seen[k]]})
                seen[k] += 1
        else: ev = [{'s': k + 1, 'r': x} for k in range(len(ss)) for x in got[k]]
        recs.append(({'alone': al, 'ev': ev}, c))
    ctx.trace('StreamsTrace', 'StreamsTrace', recs, 'operations on several streams', size=4000)
    ctx.log('streams', len(recs))


def holders(ctx):
    """histories of clones, weak references and decodings into reference-counted values"""
    g = ctx.gen
    hist = []
    ctx.model('HolderMC', 'HolderMCdeep' if ctx.scale > 1 else 'HolderMC', sink=hist.append)
    if len(hist) > 40000: hist = ctx.r.sample(hist, 40000)
    names = ['Inner', 'Mid', 'Bools', 'i32', 'String', 'Vec<i32>', 'LogicalType', 'Statistics', 'bool', 'Vec<u8>', 'EncodingSet', 'Vec<Inner>']
    names = [x for x in names if x in set(types_for(ctx))]
    cases, specs = [], []
    for i, h in enumerate(hist):
        n = names[i % len(names)]
        t = ctx.tla(n)
        g.canonical()
        prior = g.value(t, 3)
        ops, sops = [], []
        for o in h:
            if o[0] in ('good', 'bad'):
                if t['k'] == 'ref': g.p_opt = ctx.r.choice([0, .3, .65])
                b = g.enc(t, g.value(t, 3))
                g.p_opt = .65
                field = ctx.r.random() < .4 and n != 'bool'
                wt = g.code(t)
                if o[0] == 'bad':
                    if ctx.r.random() < .3 and field: wt = ctx.r.choice([x for x in (3, 5, 9, 12, 7) if x != wt])
                    else: b = b[:ctx.r.randint(0, max(0, len(b) - 1))] if ctx.r.random() < .7 else g.mutate(b)
                job = {'op': 'ffield', 'wt': wt, 't': n, 'prior': prior} if field else {'op': 'fill', 't': n, 'prior': prior}
                ops.append(['ffield', o[1] - 1, hx(b), wt] if field else ['fill', o[1] - 1, hx(b)])
                sops.append({'o': ops[-1][0], 'a': o[1], 'b': 0, 'job': spec_job(ctx, job), 'in': b})
            else:
                ops.append([o[0]] + [x - 1 for x in o[1:]] if o[0] != 'unweak' else ['unweak', 0])
                sops.append({'o': o[0], 'a': o[1], 'b': o[2] if len(o) > 2 else 0, 'job': {'prior': 0}, 'in': []})
        cases.append({'kind': 'holders', 't': n, 'rc': i % 2, 'prior': prior, 'ops': ops})
        specs.append({'prior': prior, 'ops': sops})
    recs = []
    for c, s, r in zip(cases, specs, ctx.execute(cases)):
        if isinstance(r, dict):
            if r['dead'] == 'Unexecuted': continue
            r = []
        recs.append((dict(s, obs=r), c))
    ctx.trace('HolderTrace', 'HolderTrace', recs, 'histories of reference-counted values', size=8000)


# --------------------------------------------------------------------- C01 --
def c01(ctx):
    """write, read back"""
    g = ctx.gen.canonical()
    names = ctx.testtypes + ctx.t.bare + ['FileMetaData', 'PageHeader', 'ColumnIndex', 'LogicalType', 'ColumnMetaData', 'SchemaElement', 'Statistics']
    jobs = [{'t': ctx.tla(n), 'rich': 2} for n in names]
    pipe = []
    f = ctx.path('pipe.ndjson')
    write(f, ''.join(json.dumps(j) + '\n' for j in jobs))
    ctx.model('PipeMC', env={'CT_JOBS': f}, sink=pipe.append)
    vals = [(names[p['j'] - 1], p['v']) for p in pipe]
    n1 = len(vals)
    for n in types_for(ctx):
        t = ctx.tla(n)
        for _ in range(12 * ctx.scale):
            g.need_some = t['k'] == 'opt' or 'Option' in n
            vals.append((n, g.value(t)))
        g.need_some = False
    for n, k in [('Vec<i32>', 300), ('Vec<bool>', 129), ('Vec<String>', 200), ('Vec<Inner>', 1000), ('Vec<i32>', 20000), ('Vec<bool>', 70000), ('Vec<Empty>', 16385), ('Vec<Vec<u8>>', 130)]:
        e = ctx.tla(n)['e']
        vals.append((n, [g.value(e, 4) for _ in range(k)]))
    for k in (127, 128, 129, 1000, 16383, 16384, 65535, 65536, 70000):
        vals.append(('Vec<u8>', [i % 251 for i in range(k)]))
        vals.append(('String', [97 + i % 26 for i in range(k)]))
    def chain(n):
        v = [[], [], [[1, 0]]]
        for i in range(n): v = [[v], [], [[i, 0]]]
        return v
    for d in (5, 40, 100): vals.append(('Node', chain(d)))
    cases = [{'kind': 'write', 'sinks': sinks(ctx, 2), 'jobs': [{'op': 'write', 't': n, 'v': v}]} for n, v in vals]
    wres = ctx.execute(cases)
    rcases, idx = [], []
    dead = 0
    for i, ((n, v), r) in enumerate(zip(vals, wres)):
        if isinstance(r, dict): continue
        for name, o in r:
            tail = [g.r.randint(0, 255) for _ in range(g.r.choice([0, 1, 3, 20, 40]))]
            rcases.append(case(ctx, list(bytes.fromhex(o['out'])) + tail, [{'op': 'read', 't': n}], some_srcs(ctx)))
            idx.append((i, name))
    rres = ctx.execute(rcases)
    back = {}
    for k, c, r in zip(idx, rcases, rres): back[k] = normal(r, c)
    recs = []
    for i, ((n, v), r) in enumerate(zip(vals, wres)):
        if isinstance(r, dict): r = [['all', {'out': '', 'obs': [{'r': 'err', 'e': r['dead']}]}]]
        seen = set()
        for name, o in r:
            wo = o['obs'][0]
            ev = [{'op': 'w', 'v': json.dumps(v), 'n': len(o['out']) // 2}]
            if wo['r'] != 'ok':
                recs.append(({'ev': ev + [{'op': 'r', 'ok': False, 'v': 'not written: ' + wo['e'], 'p': 0}]}, {'t': n, 'v': v, 'sink': name, 'obs': wo}))
                continue
            for s, obs in back.get((i, name), []):
                ob = obs[0]
                e = {'op': 'r', 'ok': ob['r'] == 'ok', 'v': json.dumps(ob['v']) if ob['r'] == 'ok' else ob['e'], 'p': ob.get('p', 0)}
                key = json.dumps([e, ev[0]['n']])
                if key in seen: continue
                seen.add(key)
                recs.append(({'ev': ev + [e]}, {'t': n, 'v': v, 'sink': name, 'source': s, 'bytes': o['out'], 'obs': ob}))
    ctx.trace('ChannelTrace', 'ChannelTrace', recs, 'write and read back', size=20000)
    # field headers under every kind of id context
    ids = sorted({-32768, -32767, -1000, -129, -128, -65, -64, -63, -17, -16, -15, -2, -1, 0, 1, 2, 14, 15, 16, 17, 31, 62, 63, 64, 65, 127, 128, 300, 8191, 8192, 32752, 32766, 32767} | {ctx.r.randint(-32768, 32767) for _ in range(8 * ctx.scale)})
    cases, meta = [], []
    for last in ids:
        for id in ids:
            j = {'op': 'wfield', 't': ctx.r.choice(['bool', 'i32']), 'v': None, 'id': id, 'last': last}
            j['v'] = g.value(ctx.tla(j['t']))
            cases.append({'kind': 'write', 'sinks': [{'name': 'vec', 'vec': True}], 'jobs': [j]})
            meta.append(j)
    wres = ctx.execute(cases)
    rc = []
    for j, r in zip(meta, wres):
        rc.append(case(ctx, [] if isinstance(r, dict) else list(bytes.fromhex(r[0][1]['out'])), [{'op': 'tok', 't': 'header', 'last': j['last']}, {'op': 'read', 't': 'i32'}]))
    recs = []
    for j, w, c, r in zip(meta, wres, rc, ctx.execute(rc)):
        obs = normal(r, c)[0][1]
        code = 5 if j['t'] == 'i32' else 1 if j['v'] else 2
        n = len(c['hex']) // 2
        p = obs[0].get('p', 0)
        want = [json.dumps([code, j['id'] % 65536])] + ([json.dumps(j['v'])] if j['t'] == 'i32' else [])
        got = [json.dumps(o['v']) if o['r'] == 'ok' else o['e'] for o in obs][:len(want)]
        end = obs[len(want) - 1]['p'] if len(obs) >= len(want) and obs[len(want) - 1]['r'] == 'ok' else -1
        recs.append(({'ev': [{'op': 'w', 'v': str(want), 'n': n}, {'op': 'r', 'ok': True, 'v': str(got), 'p': end}]}, {'job': j, 'bytes': c['hex'], 'obs': obs}))
    ctx.trace('ChannelTrace', 'ChannelTrace', recs, 'field headers for all kinds of id contexts', size=20000)


# --------------------------------------------------------------------- C02 --
def pipe_values(ctx, names, rich=2):
    f = ctx.path('pipe.ndjson')
    write(f, ''.join(json.dumps({'t': ctx.tla(n), 'rich': rich}) + '\n' for n in names))
    pipe = []
    ctx.model('PipeMC', env={'CT_JOBS': f}, sink=pipe.append)
    return [(names[p['j'] - 1], p['v'], p['b']) for p in pipe]


def replay_writes(ctx, what, vals):
    """(type, value, bytes) printed by PipeMC: the code has to write those bytes"""
    cases = [{'kind': 'write', 'sinks': sinks(ctx, 2), 'jobs': [{'op': 'write', 't': n, 'v': v}]} for n, v, _ in vals]
    bad = 0
    for (n, v, b), c, r in zip(vals, cases, ctx.execute(cases)):
        rs = r if not isinstance(r, dict) else [['all', {'out': '', 'obs': [{'r': 'err', 'e': r['dead']}]}]]
        for name, o in rs:
            if o['obs'][0]['r'] != 'ok' or o['out'] != hx(b):
                bad += 1
                if bad <= 3: ctx.violation(what, {'t': n, 'v': v, 'sink': name}, {'expected': hx(b), 'observed': o})
                break
    ctx.traces += len(vals)
    ctx.stages.append({'replayed': what, 'executions': len(cases)})


def write_cases(ctx, names, n, nsinks=2):
    g = ctx.gen.canonical()
    out = []
    for name in names:
        t = ctx.tla(name)
        for _ in range(n):
            out.append({'kind': 'write', 'sinks': sinks(ctx, nsinks), 'jobs': [{'op': 'write', 't': name, 'v': g.value(t)}]})
    return out


def noset(ctx):
    return [n for n in types_for(ctx)]


def c02(ctx):
    names = ctx.testtypes + ctx.t.bare
    vals = pipe_values(ctx, names)
    replay_writes(ctx, 'bytes of every value of the explored domain', vals)
    g = ctx.gen
    cases = write_cases(ctx, types_for(ctx), 12 * ctx.scale)
    for n, k in [('Vec<i32>', 300), ('Vec<bool>', 129), ('Vec<String>', 200), ('Vec<Inner>', 150), ('Vec<bool>', 16385), ('Vec<i8>', 16384)]:
        cases.append({'kind': 'write', 'sinks': sinks(ctx), 'jobs': [{'op': 'write', 't': n, 'v': [g.value(ctx.tla(n)['e'], 4) for _ in range(k)]}]})
    for n in ctx.t.bare:
        t = ctx.tla(n)
        if t['k'] in ('list',):
            for k in (14, 15, 16, 127, 128):
                g.need_some = True
                cases.append({'kind': 'write', 'sinks': sinks(ctx), 'jobs': [{'op': 'write', 't': n, 'v': [g.value(t['e'], 4) for _ in range(k)]}]})
                g.need_some = False
    for t, w in (('i16', 1), ('i32', 2), ('i64', 4), ('len', 4)):
        for k in range(16 * w):
            for d in (-1, 0, 1):
                for s in (1, -1):
                    cases.append({'kind': 'write', 'sinks': sinks(ctx, 1), 'jobs': [{'op': 'wtok', 't': t, 'v': limbs(s * (1 << k) + d, w)}]})
    if True:
        for n in range(256): cases.append({'kind': 'write', 'sinks': sinks(ctx, 1), 'jobs': [{'op': 'wtok', 't': 'byte', 'v': n}, {'op': 'wtok', 't': 'i16', 'v': [n * 257]}]})
        for t in ('double', 'binary', 'string'):
            for _ in range(10): cases.append({'kind': 'write', 'sinks': sinks(ctx, 2), 'jobs': [{'op': 'wtok', 't': t, 'v': g.value({'k': t})}]})
    ids = sorted({-32768, -1000, -65, -64, -63, -16, -15, -2, -1, 0, 1, 2, 14, 15, 16, 17, 63, 64, 65, 300, 8191, 8192, 32752, 32766, 32767} | {ctx.r.randint(-32768, 32767) for _ in range(8 * ctx.scale)})
    wft = ['bool', 'i8', 'i16', 'i32', 'i64', 'f64', 'String', 'Vec<u8>', 'Vec<i32>', 'Vec<bool>', 'Inner', 'Choice', 'Option<i32>', 'Option<bool>', 'Box<bool>', 'EncodingSet', 'Color', 'Rc<Inner>', 'Arc<str>', 'Option<Box<bool>>']
    i = 0
    for last in ids:
        for id in ids:
            i += 1
            n = wft[i % len(wft)]
            cases.append({'kind': 'write', 'sinks': sinks(ctx, 1), 'jobs': [{'op': 'wfield', 't': n, 'v': g.value(ctx.tla(n), 4), 'id': id, 'last': last}]})
    # sequences of fields sharing one sink
    for _ in range(100 * ctx.scale):
        jobs = []
        last = 0
        for _ in range(ctx.r.randint(2, 5)):
            n = ctx.r.choice(wft)
            id = ctx.r.choice([last + ctx.r.randint(1, 16), ctx.r.randint(-40, 40), ctx.r.choice(ids)])
            if not -32768 <= id <= 32767: id = 3
            jobs.append({'op': 'wfield', 't': n, 'v': g.value(ctx.tla(n), 4), 'id': id, 'last': last})
            v = jobs[-1]['v']
            if not (n.startswith('Option') and not v): last = id
        cases.append({'kind': 'write', 'sinks': sinks(ctx, 2), 'jobs': jobs})
    ctx.trace('WriteTrace', 'WriteTrace', write_recs(ctx, cases), 'recorded encodings')
    def lengths(limit):
        ns = {(1 << k) + d for k in range(24) for d in (-1, 0, 1)} | {k << 16 for k in range(1, 40)} | {(k << 7) + ctx.r.randint(-1, 1) for k in range(1, 40)} | {ctx.r.randint(0, 1 << ctx.r.randint(8, 23)) for _ in range(30 * ctx.scale)}
        return sorted(n for n in ns if 0 <= n <= limit)
    ctx.trace('Limits', 'Limits', big_writes(ctx, lengths), 'lengths of long texts and lists')
    # set codes: recorded finding
    kf_sets_write(ctx)


def kf_sets_write(ctx):
    g = ctx.gen
    cases = [{'kind': 'write', 'sinks': sinks(ctx, 1), 'jobs': [{'op': 'write', 't': 'Sets', 'v': v}]}
             for v in ([[[[1, 0]]], []], [[[]], [[[97]]]], [[[[1, 0], [5, 0]]], [[]]])]
    if not ctx.known('sets-written-as-lists'): raise ToolError('known finding file')
    for c, r in zip(cases, ctx.execute(cases)):
        recs = write_recs(ctx, [c], [r])
        if recs[0][0]['out'] == list(ctx_sets(c['jobs'][0]['v'], 10)): continue     # as the protocol has it
        if recs[0][0]['out'] == list(ctx_sets(c['jobs'][0]['v'], 9)): ctx.finding('sets-written-as-lists')
        else: ctx.violation('set fields', c, recs[0][0])


def ctx_sets(v, code):
    out = []
    last = 0
    for i, f in enumerate(v):
        if not f: continue
        out.append((i + 1 - last) << 4 | code)
        last = i + 1
        xs = f[0]
        out.append(len(xs) << 4 | (5 if i == 0 else 8))
        for x in xs:
            if i == 0:
                assert x[1] == 0 and x[0] < 64
                out.append(x[0] * 2)
            else: out += [len(x)] + x
    return out + [0]


PLACES = {      # where long lists of each kind of element stand: (element code, good elements, [(type, before, after)])
    'Inner': (12, [[0x15, 2, 0], [0x15, 4, 0x18, 1, 65, 0]], [('Vec<Inner>', [], []), ('Vec<Rc<Inner>>', [], []), ('Vec<Option<Inner>>', [], []), ('Box<Vec<Inner>>', [], []), ('OptLists', [0xa9], [0]), ('Mid', [0x1c, 0x15, 2, 0, 0x29], [0])]),
    'Choice': (12, [[0x15, 2, 0], [0x31, 0], [0x32, 0]], [('Vec<Choice>', [], []), ('OptLists', [0xb9], [0])]),
    'String': (8, [[1, 65], [0], [2, 0xc3, 0xa9]], [('Vec<String>', [], []), ('Vec<Arc<str>>', [], []), ('Vec<Rc<str>>', [], []), ('Vec<Box<str>>', [], []), ('OptLists', [0x79], [0])]),
    'Node': (12, [[0], [0x35, 2, 0]], [('Vec<Node>', [], []), ('Node', [0x29], [0])]),
    'i32': (5, [[2], [0x84, 1]], [('Vec<i32>', [], []), ('Rc<Vec<i32>>', [], []), ('Option<Vec<i32>>', [], []), ('OptLists', [0x49], [0])]),
    'i64': (6, [[2], [0x84, 1]], [('Vec<i64>', [], []), ('Vec<Box<i64>>', [], []), ('OptLists', [0x59], [0])]),
    'list': (9, [[5], [0x15, 2]], [('Vec<Vec<i32>>', [], []), ('OptLists', [0xc9], [0])]),
    'set': (9, [[5], [0x15, 2]], [('Vec<EncodingSet>', [], [])]),
}


def buried(ctx, kind, bads, k, ops=('read',), cut=False):
    """one element of its own kind among very many, somewhere deep inside of a long list"""
    g = ctx.gen
    code, goods, places = PLACES[kind]
    for i in range(k * ctx.scale):
        n = ctx.r.choice([16, 17, 32, 33, 64, 65, 66, 100, 129, 200, 256, 257, 300])
        at = ctx.r.choice([n - 1, n - 1, n // 2] + [x for x in (15, 16, 32, 64, 128, 255, 256) if x < n])
        es = [ctx.r.choice(goods[:1] if i % 2 else goods) for _ in range(n)]
        es[at] = bad = ctx.r.choice(bads)
        t, a, z = ctx.r.choice(places)
        op = ctx.r.choice(ops)
        b = g.listheader(code, n) + [x for e in es[:at + 1] for x in e]
        if cut: yield {'op': 'read', 't': t} if op == 'read' else {'op': 'skip', 'wt': 9}, a + b if op == 'read' else b
        else:
            b += [x for e in es[at + 1:] for x in e]
            yield ({'op': 'read', 't': t}, a + b + z) if op == 'read' else ({'op': 'skip', 'wt': 9}, b)


def chain(ctx, bad, k):
    """the same at the end of a chain of structs, one inside of the other"""
    for _ in range(k * ctx.scale):
        d = ctx.r.choice([2, 7, 8, 15, 16, 17, 31, 32, 33, 60, 63])
        how = ctx.r.choice([0, 1, 2])
        a = [[0x1c], [0x29, 0x1c], [0x35, 2, 12, 2]][how]
        yield a * d + ctx.r.choice(bad) + [0] * d


ODD_ELEMENTS = (('Inner', [[0], [0x28, 0, 0], [0x15, 2, 5, 2, 8, 0], [0x15, 2, 0x18, 0, 8, 4, 1, 65, 0], [0x16, 2, 0], [0x15, 2, 0x1e, 0], [0x15, 2, 0x18, 1, 0xff, 0], [0x15, 0xff, 0xff, 0xff, 0xff, 0xff, 0], [0x15, 2, 0x8c, 0, 0]]),
                ('Choice', [[0], [0x15, 2, 0x15, 2, 0], [0xe5, 2, 0], [0x16, 2, 0], [0x28, 1, 0xff, 0], [0x5c, 0, 0]]), ('String', [[1, 0xff], [2, 0xc3, 65], [0xff, 0xff, 0xff, 0xff, 0xff, 1]]),
                ('Node', [[0x36, 2, 0], [0x35, 2, 5, 6, 4, 0], [0x29, 0x1b, 0, 0]]), ('i32', [[0xff, 0xff, 0xff, 0xff, 0x7f], [0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0]]), ('i64', [[0x80] * 9 + [1], [0xff] * 12 + [1]]), ('list', [[0x16, 2], [0xf5, 0], [0x1e, 1]]), ('set', [[0x15, 62], [0x16, 2], [0x35, 6, 6, 6]]))


# --------------------------------------------------------------------- C03 --
def chunks_for(ctx, n, wrong=False, dup=False):
    """an alphabet of byte strings for the struct or union n: headers (both forms) and small payloads"""
    a = [[0]]
    fs = ctx.table[n]['fields']
    g = ctx.gen
    for f in fs:
        c = g.code(f['t'])
        cs = [1, 2] if f['t']['k'] == 'bool' else [c]
        for c in cs:
            pay = [[]]
            k = f['t']['k']
            if k in ('i16', 'i32', 'i64', 'enum'): pay = [[4], [0x84, 0]]
            elif k == 'i8': pay = [[200]]
            elif k in ('string', 'binary'): pay = [[0], [1, 65]]
            elif k in ('list', 'set'): pay = [[g.code(f['t']['e'])], [0xf0 | g.code(f['t']['e']), 0]]
            elif k == 'encset': pay = [[5], [0x25, 6, 0]]
            elif k == 'double': pay = [[1] * 8]
            for p in pay: a.append([c] + g.signed(limbs(f['id'], 1)) + p)
    return a


def blocks(ctx):
    """the steps of several elements that Reader and Writer take are nothing but single steps"""
    jobs = []
    for n, code, a in (('Vec<bool>', 1, [[0], [1], [2], [3]]), ('Vec<i8>', 3, [[0], [255]]), ('Vec<i16>', 4, [[1], [0x80, 0], [0x80]]), ('Vec<i32>', 5, [[1], [0x80, 0], [0xff] * 4 + [0x10]]),
                       ('Vec<i64>', 6, [[2], [0x81, 1]]), ('Vec<f64>', 7, [[0, 1, 2, 3, 4, 5, 6, 7], [9]]), ('Vec<String>', 8, [[0], [1, 65], [1, 0x80], [2, 65], [6]]), ('Vec<Vec<u8>>', 8, [[0], [1, 200], [6], [7, 7]])):
        for k in (4, 5, 6):
            jobs.append({'job': spec_job(ctx, {'op': 'read', 't': n}), 'a': a, 'pre': [k << 4 | code], 'n': k + 1 if len(a) < 4 else k})
            jobs.append({'job': {'op': 'skip', 'wt': 9}, 'a': a, 'pre': [k << 4 | code], 'n': k + 1 if len(a) < 4 else k})
    f = ctx.path('jobs.ndjson')
    write(f, ''.join(json.dumps(j) + '\n' for j in jobs))
    ctx.model('BlockMC', env={'CT_JOBS': f})


def c03(ctx):
    blocks(ctx)
    # exhaustive: all orders and header forms of small structs, byte by byte varints
    jobs = [
        {'job': {'op': 'read', 't': 'Inner'}, 'a': [[0], [0x15, 2], [0x15, 0x82, 0], [5, 2, 3], [0x18], [0x28, 1, 65], [8, 4, 0x81, 0, 66], [1, 67]], 'max': 13},
        {'job': {'op': 'read', 't': 'Bools'}, 'a': [[0], [0x11], [0x12], [0x21], [0x22], [1, 2], [2, 6], [0xf2], [1, 5], [2, 40]], 'max': 7 if ctx.scale == 1 else 9},
        {'job': {'op': 'read', 't': 'Vec<bool>'}, 'a': [[1], [2], [0], [0x11], [0x12], [0x21], [0x32], [0xf1], [0xf2], [0x82, 0]], 'max': 5},
        {'job': {'op': 'read', 't': 'i16'}, 'a': [[0], [1], [0x7f], [0x80], [0x81], [0xff], [3]], 'max': 6},
        {'job': {'op': 'read', 't': 'i32'}, 'a': [[0], [1], [0x7f], [0x80], [0xff], [0xf]], 'max': 7},
        {'job': {'op': 'read', 't': 'i64'}, 'a': [[0], [1], [0x7f], [0x80] * 3, [0xff], [0xff] * 5], 'max': 15},
        {'job': {'op': 'read', 't': 'Gaps'}, 'a': [[0], [0x15, 4], [5, 2, 6], [0xf5, 8], [0x12], [1, 66], [0x14, 2], [4, 0xd8, 4, 7], [5, 0x20, 5], [8, 98, 0]], 'max': 13 if ctx.scale == 1 else 17},
        {'job': {'op': 'read', 't': 'Mid'}, 'a': [[0], [0x1c, 0x15, 2, 0], [0x1c, 5, 2, 2, 0], [12, 4, 0x15, 4, 0], [0x29, 0x1c, 0x15, 2, 0], [9, 6, 0xfc, 0x81, 0], [12, 8, 0x31, 0], [0x15, 8, 0]], 'max': 24},
        {'job': {'op': 'read', 't': 'Choice'}, 'a': [[0], [0x15, 2], [0x31], [0x32], [5, 2, 3], [0x18, 1, 65], [0x28, 1, 65], [1, 6], [6, 40, 9], [8, 1, 2, 65, 66], [0x5c], [12, 16, 0x1c, 0], [0x21], [0x45, 2]], 'max': 9},
    ]
    if ctx.scale > 1:
        jobs[0]['max'] = 20
        jobs.append({'job': {'op': 'read', 't': 'Desc'}, 'a': chunks_for(ctx, 'Desc'), 'max': 22})
    terms = explore(ctx, 'decoder over valid and nearly valid encodings', jobs)
    oks = [t for t in terms if t['st'] == 'ok']
    replay(ctx, 'accepted encodings of the explored space', jobs, oks)
    g = ctx.gen
    cases = []
    for n in types_for(ctx):
        t = ctx.tla(n)
        for i in range(16 * ctx.scale):
            g.free([.1, .5, .9][i % 3])
            g.need_some = True
            v = g.value(t)
            g.need_some = False
            b = g.enc(t, v) + [ctx.r.randint(0, 255) for _ in range(ctx.r.choice([0, 0, 1, 5, 20]))]
            cases.append(case(ctx, b, [{'op': 'read', 't': n}], some_srcs(ctx)))
    # maximally padded numbers in every position, i.e. all ten bytes and beyond
    g.canonical()
    g.p_pad, g.maxpad = .7, 14
    for n in ['Scalars', 'OptScalars', 'Lists', 'Nested', 'Gaps', 'Desc', 'Odd', 'Choice', 'FileMetaData', 'PageHeader']:
        for _ in range(15 * ctx.scale):
            cases.append(case(ctx, g.enc(ctx.tla(n), g.value(ctx.tla(n))), [{'op': 'read', 't': n}], some_srcs(ctx)))
    for n in ['i16', 'i32', 'i64', 'String', 'Vec<u8>', 'Vec<i32>', 'Gaps', 'Desc', 'Choice', 'Scalars']:     # any amount of padding
        for g.maxpad in (40, 130, 300, 1000):
            g.p_pad = 1 if n[0] in 'iSV' else .4
            for _ in range(6 * ctx.scale):
                cases.append(case(ctx, g.enc(ctx.tla(n), small(ctx, ctx.tla(n), 300)[0])[:6000] + [1] * ctx.r.choice([0, 0, 20]), [{'op': 'read', 't': n}], some_srcs(ctx)))
    g.maxpad = 6
    g.canonical()
    for n in ctx.t.bare:         # long lists
        t = ctx.tla(n)
        if t['k'] != 'list': continue
        plain = t['e']['k'] not in ('ref', 'list', 'set', 'opt', 'encset')
        for k in (129, 255, 256, 257, 1000, 1024, 1025) + ((2048, 4095, 4096, 4097, 5000) + ((8193, 20000) if t['e']['k'] in ('i8', 'bool', 'i32') else ()) if plain else ()):
            g.need_some = True
            b = g.enc(t, [g.value(t['e'], 4) for _ in range(k)])
            g.need_some = False
            cases.append(case(ctx, b + [7], [{'op': 'read', 't': n}], [ctx.r.choice(ALL)]))
    check_reads(ctx, 'recorded decodings of valid encodings', cases)
    # sets coded as sets: recorded finding
    if not ctx.known('set-code-rejected'): raise ToolError('known finding file')
    for v in ([[[[1, 0]]], []], [[[]], [[[97]]]]):
        c = case(ctx, ctx_sets(v, 10), [{'op': 'read', 't': 'Sets'}])
        o = normal(ctx.execute([c])[0], c)[0][1][0]
        if o['r'] == 'ok' and o['v'] == v: continue
        if o['r'] == 'err' and o['e'] == 'InvalidType': ctx.finding('set-code-rejected')
        else: ctx.violation('set fields', c, o)


# --------------------------------------------------------------------- C04 --
def c04(ctx):
    g = ctx.gen
    # the machine: inserting unknown fields anywhere leaves the value unchanged (explored), and replayed
    unk = [[0x75, 9], [0x71], [0x78, 1, 9], [5, 0x2a, 0x81, 0], [0x7c, 0x11, 0], [0x7b, 1, 0x51, 2, 1], [0x79, 0x21, 1, 2], [0x7b, 0], [0x77] + [9] * 8]
    jobs = [{'job': {'op': 'read', 't': 'Inner'}, 'a': [[0], [5, 2, 3], [8, 4, 1, 66], [0x15, 2], [0x18, 0]] + unk, 'max': 12 if ctx.scale == 1 else 15},
            {'job': {'op': 'read', 't': 'Vec<Inner>'}, 'pre': [0x2c], 'a': [[0], [5, 2, 3]] + unk, 'max': 13 if ctx.scale == 1 else 15}]
    terms = explore(ctx, 'structs with unknown fields', jobs)
    replay(ctx, 'explored encodings with unknown fields', jobs, [t for t in terms if t['st'] == 'ok'])
    # the code: with and without
    cases, base = [], []
    names = structs(ctx) + ['Choice', 'Vec<Inner>', 'Vec<Node>', 'Option<Inner>', 'Vec<Choice>', 'LogicalType', 'ColumnCryptoMetaData']
    count = [0]

    def insert(n, items, depth):
        if n not in ctx.table or ctx.table[n]['kind'] != 'struct': return
        k = ctx.r.choice([0, 1, 1, 2, 3]) if depth else ctx.r.choice([1, 1, 2, 4])
        for _ in range(k):
            items.insert(ctx.r.randint(0, len(items)), g.unknown(n))
            count[0] += 1
    omitted = {n: {f['id'] for f in ctx.t.omitted(n)} for n in ctx.table}
    for n in names:
        t = ctx.tla(n)
        for i in range(24 * ctx.scale):
            g.canonical()
            if i % 3: g.free(.4)
            state = ctx.r.getstate()
            g.need_some = True
            v, _ = small(ctx, t, 600)
            g.need_some = False
            b0 = g.enc(t, v)
            g.hook = insert
            count[0] = 0
            for _ in range(20):
                b1 = g.enc(t, v)
                if count[0]: break
            g.hook = None
            if not count[0]: continue
            tail = [ctx.r.randint(0, 255) for _ in range(ctx.r.choice([0, 1, 30]))]
            srcs = some_srcs(ctx)
            base.append((len(b0), len(b1)))
            cases.append(case(ctx, b0 + tail, [{'op': 'read', 't': n}], srcs))
            cases.append(case(ctx, b1 + tail, [{'op': 'read', 't': n}], srcs))
    # deep unknown values; every header form next to known fields; extreme ids
    for depth in (2, 10, 40, 60):
        for wt, op, cl in ((9, [0x19], [0x13, 5]), (12, [0x1c], None), (11, None, None), (10, [0x1a], [0x13, 7])):
            if wt in (9, 10): p = op * (depth - 1) + cl
            elif wt == 12: p = op * (depth - 1) + [0] * depth
            else: p = [1, 0x3b, 7] * (depth - 1) + [0]
            for k in range(4):
                v = g.value(ctx.tla('Mid'))
                items = g.items('Mid', v)
                b0 = g.assemble(items)
                items.insert(min(k, len(items)), [ctx.r.choice([9, -5, 300, 32767, -32768]), wt, p])
                b1 = g.assemble(items)
                base.append((len(b0), len(b1)))
                for b in (b0, b1): cases.append(case(ctx, b, [{'op': 'read', 't': 'Mid'}], ['slice', 'read']))
    for n in ('Gaps', 'Odd', 'Desc', 'Bools', 'Scalars', 'OptScalars'):
        ids = {f['id'] for f in ctx.table[n]['fields']}
        for wt in CODES:
            for _ in range(6 * ctx.scale):
                items = g.items(n, g.value(ctx.tla(n)))
                g.p_long = 0
                b0 = g.assemble(items)
                pos = ctx.r.randint(0, len(items))
                prev = items[pos - 1][0] if pos else 0
                id = prev + ctx.r.randint(1, 17)
                if id in ids or id > 32767: id = ctx.r.choice([x for x in (-32768, 32767, 0, 77, -77) if x not in ids])
                items.insert(pos, [id, wt, g.junk(wt)])
                g.p_long = ctx.r.choice([0, .5])
                b1 = g.assemble(items)
                g.p_long = 0
                base.append((len(b0), len(b1)))
                srcs = some_srcs(ctx)
                for b in (b0, b1): cases.append(case(ctx, b, [{'op': 'read', 't': n}], srcs))
    # many unknown fields
    for n in ('Gaps', 'Odd', 'Mid', 'OptScalars', 'Scalars', 'Lists', 'FileMetaData'):
        ids = {f['id'] for f in ctx.table[n]['fields']}
        for k in (16, 31, 32, 33, 64, 100, 101, 127, 128, 200, 256, 300, 1000):
            for _ in range(2):
                v, b0 = small(ctx, ctx.tla(n), 400)
                items = g.items(n, v)
                at = ctx.r.choice([0, len(items), ctx.r.randint(0, len(items))])
                wts = ctx.r.choice([[3], [1, 2], CODES])
                for j in range(k):
                    while True:
                        id = ctx.r.choice([ctx.r.randint(-32768, 32767), ctx.r.randint(20, 60)])
                        if id not in ids: break
                    w = ctx.r.choice(wts)
                    items.insert(at if ctx.r.random() < .9 else ctx.r.randint(0, len(items)), [id, w, g.junk(w, False, 3)])
                b0, b1 = g.enc(ctx.tla(n), v), g.assemble(items)
                base.append((len(b0), len(b1)))
                srcs = some_srcs(ctx)
                for b in (b0, b1): cases.append(case(ctx, b, [{'op': 'read', 't': n}], srcs))
    for kind, plain in (('Inner', [0x15, 2, 0]), ('Node', [0x35, 2, 0]), ('Choice', [0x4c, 0x15, 2, 0, 0])):      # in one element of very many
        for wt in CODES:
            for _ in range(3 * ctx.scale):
                p = g.junk(wt, False, 3)
                if len(p) > 300: continue
                x = [0xa0 | wt] + p
                bad = plain[:-2] + x + plain[-2:] if kind == 'Choice' else plain[:-1] + x + plain[-1:] if ctx.r.random() < .5 else x + [plain[0] & 15] + g.signed(limbs(plain[0] >> 4, 1)) + plain[1:]
                state = ctx.r.getstate()
                (j, b1), = list(buried(ctx, kind, [bad], 1))[:1]
                ctx.r.setstate(state)
                (_, b0), = list(buried(ctx, kind, [plain], 1))[:1]
                base.append((len(b0), len(b1)))
                srcs = some_srcs(ctx)
                for b in (b0, b1): cases.append(case(ctx, b, [j], srcs))
    res = ctx.execute(cases)
    cols = []
    for i, (n0, n1) in enumerate(base):
        a, b = normal(res[2 * i], cases[2 * i]), normal(res[2 * i + 1], cases[2 * i + 1])
        for (s, x), (_, y) in zip(a, b):
            if x[0]['r'] != 'ok' or x[0]['p'] != n0: continue     # the plain encoding itself is not read: not this property
            if y[0]['r'] == 'ok': y = [dict(y[0], p=y[0]['p'] - (n1 - n0))]
            cols.append(([x, y], dict(cases[2 * i + 1], srcs=[s], plain=cases[2 * i]['hex'])))
    agree(ctx, 'with and without unknown fields', cols)


# --------------------------------------------------------------------- C05 --
def bulky(ctx):
    """encoded texts of lengths around those of buffers, with content that shows where it came from"""
    for n in (255, 256, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10000, 12288, 16384, 16385, 20480, 32767, 32768, 32769, 65535, 65536, 65537, 70000) + \
            ((131072, 131073, 200000) if ctx.scale > 1 else ()):
        yield n, ctx.gen.varint(n) + [ctx.r.choice([0, 1, 0x15, 0x18, 0x41, 0x7f]) for _ in range(n)]


def c05(ctx):
    g = ctx.gen
    byts = [[0], [1], [2], [0x80], [0x13], [0x15], [0x1c], [0x19]]
    jobs = []
    for wt in range(0, 16):
        a = byts
        mx = 4
        if wt in (4, 5, 6): a, mx = [[0], [0x7f], [0x80], [0xff] * 5], 11 if wt == 5 else 6
        if wt == 8: a, mx = [[0], [1], [2], [3], [0x80], [0xff], [0x82]], 5
        if wt == 7: a, mx = [[0], [255] * 3, [1, 2]], 9
        if wt in (9, 10): a, mx = [[b] for b in (0x11, 0x12, 0x23, 0x15, 0x18, 0x19, 0x1a, 0x1b, 0x1c, 0x10, 0x1d, 0xf3, 0xf5, 0x80, 1, 0)], 4
        if wt == 11: a, mx = [[b] for b in (0, 1, 2, 0x11, 0x35, 0x58, 0x9c, 0xbb, 0xd5, 0x5e, 0x80, 0x13)], 4
        if wt == 12: a, mx = [[b] for b in (0, 0x11, 0x22, 0x13, 0x15, 0x18, 0x19, 0x1a, 0x1b, 0x1c, 0x1d, 0x05, 0x80, 1)], 4
        if ctx.scale > 1: mx += 1
        jobs.append({'job': {'op': 'skip', 'wt': wt}, 'a': a, 'max': mx})
    jobs.append({'job': {'op': 'tok', 't': 'skipint'}, 'a': [[0], [0x80], [0xff] * 7], 'max': 24})
    jobs.append({'job': {'op': 'tok', 't': 'skipbin'}, 'a': [[0], [1], [5], [0x80], [0x81], [9, 9]], 'max': 7})
    terms = explore(ctx, 'skipping', jobs)
    replay(ctx, 'explored skips', jobs, terms, ok=expected_extent)
    cases = []
    # every length of a number with every amount of input after it, alone and in containers
    for n in list(range(1, 25)) + [40]:
        for tail in list(range(0, 21)) + [33]:
            v = [ctx.r.choice([0x80, 0xff]) for _ in range(n - 1)] + [ctx.r.choice([0, 1])]
            if n > 9: v = v[:9] + [0x80] * (n - 10) + [0]
            rest = [ctx.r.choice([0, 0xff, 0x80, 0x7f]) for _ in range(tail)]
            cases.append(case(ctx, v + rest, [{'op': 'tok', 't': 'skipint'}], some_srcs(ctx)))
            cases.append(case(ctx, v + rest, [{'op': 'skip', 'wt': ctx.r.choice([4, 5, 6])}], ['slice']))
            if tail % 3 == 0: cases.append(case(ctx, [0x25] + v + v + rest, [{'op': 'skip', 'wt': 9}], ['slice']))
            cases.append(case(ctx, v[:-1] + [0x80] * 0, [{'op': 'tok', 't': 'skipint'}], ['slice']))
    for n in list(range(25, 35)) + [47, 48, 49, 63, 64, 65, 79, 80, 81, 95, 96, 97, 112] + list(range(126, 132)) + [192, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1024, 4095, 4096, 4097]:
        for tail in [0, 1, 15, 16, 17, 100, 400]:
            v = [ctx.r.choice([0x80, 0xff]) for _ in range(9)] + [0x80] * (n - 10) + [0]
            rest = [ctx.r.choice([0, 0xff, 0x80, 0x7f]) for _ in range(tail)]
            cases.append(case(ctx, v + rest, [{'op': 'skip', 'wt': ctx.r.choice([4, 5, 6])}], ['slice', ALL[1 + (n + tail) % 4]]))
            k = ctx.r.randrange(4)
            if k == 0: cases.append(case(ctx, v[:-1], [{'op': 'skip', 'wt': ctx.r.choice([4, 5, 6])}], ['slice']))
            elif k == 1: cases.append(case(ctx, [0x35] + v + [1] + v + rest, [{'op': 'skip', 'wt': 9}], ['slice']))
            elif k == 2: cases.append(case(ctx, [0x15] + v + [0x16] + v + [0] + rest, [{'op': 'skip', 'wt': 12}], ['slice']))
            else: cases.append(case(ctx, [1, 0x45] + v + v + rest, [{'op': 'skip', 'wt': 11}], ['slice']))
    for n in (0, 1, 2, 15, 16, 17, 127, 128, 300):
        for tail in (0, 1, 15, 16, 17):
            for pad in (0, 1, 5, 70, 300):
                lb = g.varint(n)
                if pad: lb = lb[:-1] + [lb[-1] | 0x80] + [0x80] * (pad - 1) + [0]
                b = lb + [0xff] * n + [0] * tail
                cases.append(case(ctx, b, [{'op': 'skip', 'wt': 8}], some_srcs(ctx)))
                cases.append(case(ctx, b, [{'op': 'tok', 't': 'skipbin'}], ['slice']))
    for wt in range(0, 16):
        for i in range(60 * ctx.scale):
            g.canonical()
            if i % 2: g.free(.3)
            b = g.junk(wt) if wt in CODES else []
            cases.append(case(ctx, b + [ctx.r.randint(0, 255) for _ in range(ctx.r.choice([0, 1, 4, 15, 16, 17, 40]))], [{'op': 'skip', 'wt': wt}], some_srcs(ctx)))
            if b and i % 2: cases.append(case(ctx, b[:ctx.r.randrange(len(b))], [{'op': 'skip', 'wt': wt}], some_srcs(ctx)))
            if b and i % 3 == 0: cases.append(case(ctx, g.mutate(b), [{'op': 'skip', 'wt': wt}], some_srcs(ctx)))
    # nesting
    for depth in (1, 2, 30, 63):
        for p in ([0x19] * (depth - 1) + [0x13, 5], ):
            cases.append(case(ctx, p + [0] * 5, [{'op': 'skip', 'wt': 9}], ALL))
        cases.append(case(ctx, [0x1c] * (depth - 1) + [0] * depth + [7], [{'op': 'skip', 'wt': 12}], ALL))
        cases.append(case(ctx, [1, 0x3b, 7] * (depth - 1) + [0, 7], [{'op': 'skip', 'wt': 11}], ALL))
    for n in (14, 15, 16, 100, 300):
        for e in CODES:
            for _ in range(2):
                body = [x for _ in range(n) for x in g.junk(e, True, 3)]
                cases.append(case(ctx, g.listheader(e, n) + body + [1, 2], [{'op': 'skip', 'wt': ctx.r.choice([9, 10])}], some_srcs(ctx)))
    for n in (1, 2, 15, 16, 200):
        for _ in range(24):
            k, v = ctx.r.randint(1, 12), ctx.r.randint(1, 12)
            body = [x for _ in range(n) for x in g.junk(k, True, 3) + g.junk(v, True, 3)]
            cases.append(case(ctx, g.varint(n) + [k << 4 | v] + body + [1, 2], [{'op': 'skip', 'wt': 11}], some_srcs(ctx)))
    for n in (129, 256, 999, 1000, 1001, 1024, 2000, 4096, 4097, 5000) + ((20000, 65536) if ctx.scale > 1 else ()):      # long containers
        for e in CODES:
            if e > 8 and n > 2000: continue
            body = [x for _ in range(n) for x in ([1] if e < 4 else g.junk(e, True, 3))]
            cases.append(case(ctx, g.listheader(e, n) + body + [1, 2], [{'op': 'skip', 'wt': ctx.r.choice([9, 10])}], [ctx.r.choice(ALL)]))
            cases.append(case(ctx, g.listheader(e, n) + body[:-1], [{'op': 'skip', 'wt': 9}], [ctx.r.choice(ALL)]))
        for _ in range(4):
            k, v = ctx.r.randint(1, 9), ctx.r.randint(1, 12)
            body = [x for _ in range(n) for x in g.junk(k, True, 3) + g.junk(v, True, 3)]
            if n <= 2000: cases.append(case(ctx, g.varint(n) + [k << 4 | v] + body + [1, 2], [{'op': 'skip', 'wt': 11}], [ctx.r.choice(ALL)]))
        cases.append(case(ctx, [0x13, 7] * n + [0, 9, 9], [{'op': 'skip', 'wt': 12}], [ctx.r.choice(ALL)]))
    for n, b in bulky(ctx):      # payloads around the sizes of buffers, alone and between other values
        for src in ALL:
            wt, before, after = ctx.r.choice([(8, [], []), (9, g.listheader(8, 2) + [1, 7], []), (12, [0x18], [0]), (12, [0x18], [0x15, 2, 0]), (11, [1, 0x83], [5]),
                                              (11, [2, 0x38, 1], [2, 0]), (12, [0x19, 0x18], [0]), (10, g.listheader(12, 1) + [0x18], [0])])
            cases.append(case(ctx, before + b + after + [9, 0x15, 1], [{'op': 'skip', 'wt': wt}], [src]))
    for kind, bads in ODD_ELEMENTS:
        for j, b in buried(ctx, kind, bads, 12, ('skip',)): cases.append(case(ctx, b + [0] * ctx.r.choice([0, 1, 20]), [j], [ctx.r.choice(ALL)]))
    check_reads(ctx, 'recorded skips', cases, 'ReadTraceExtents')
    # skipping consumes what decoding consumes
    cases, lens = [], []
    wts = {'struct': 12, 'union': 12}
    for n in types_for(ctx):
        t = ctx.tla(n)
        if t['k'] in ('bool', 'opt'): continue
        for i in range(6 * ctx.scale):
            g.canonical()
            if i % 2: g.free(.3)
            g.need_some = True
            b = g.enc(t, g.value(t)) + [ctx.r.randint(0, 255) for _ in range(ctx.r.choice([0, 3, 16, 20]))]
            g.need_some = False
            s = ctx.r.choice(['slice', 'read', 'min'])
            cases.append(case(ctx, b, [{'op': 'read', 't': n}], [s]))
            cases.append(case(ctx, b, [{'op': 'skip', 'wt': g.code(t)}], [s]))
    res = ctx.execute(cases)
    cols = []
    for i in range(0, len(cases), 2):
        x, y = normal(res[i], cases[i])[0][1], normal(res[i + 1], cases[i + 1])[0][1]
        if x[0]['r'] != 'ok': continue
        cols.append(([[dict(x[0], v=0)], [dict(y[0], v=0) if y[0]['r'] == 'ok' else y[0]]], cases[i + 1]))
    g.canonical()
    agree(ctx, 'skipping and decoding the same bytes', cols)


# --------------------------------------------------------------------- C06 --
def anything(ctx, n):
    """inputs of all qualities"""
    g = ctx.gen
    names = types_for(ctx)
    for i in range(n):
        name = names[i % len(names)]
        t = ctx.tla(name)
        g.canonical()
        if ctx.r.random() < .6: g.free(.3)
        g.need_some = True
        b = g.enc(t, small(ctx, t, 1500)[0])
        g.need_some = False
        q = ctx.r.random()
        if q < .25: b = b + [ctx.r.randint(0, 255) for _ in range(ctx.r.randint(0, 20))]
        elif q < .5: b = b[:ctx.r.randint(0, len(b))]
        elif q < .85: b = g.mutate(b)
        elif q < .95: b = g.hostile()
        yield name, b
    g.canonical()


def c06(ctx):
    cases = []
    n = 4500 * ctx.scale
    for i, (name, b) in enumerate(anything(ctx, n)):
        jobs = [{'op': 'read', 't': name}]
        q = i % 7
        if q == 3: jobs = [{'op': 'skip', 'wt': ctx.gen.code(ctx.tla(name))}]
        elif q == 5: jobs = [{'op': 'tok', 't': ctx.r.choice(['i16', 'i32', 'i64', 'double', 'binary', 'string', 'byte', 'len', 'skipint', 'skipbin', 'list', 'map', 'header'])}]
        elif q == 6: jobs = [{'op': 'read', 't': name}, {'op': 'skip', 'wt': ctx.r.randint(1, 12)}, {'op': 'tok', 't': 'byte'}]
        cases.append(case(ctx, b, jobs, ALL + ['chunk:%d']))
    for b in ([0xff] * 9 + [1], [0x80] * 12, [0x80] * 18 + [0], [0xff] * 9 + [2], [0xff] * 12 + [0]):
        for tail in range(0, 20, 3):
            for j in ({'op': 'tok', 't': 'len'}, {'op': 'tok', 't': 'i64'}, {'op': 'tok', 't': 'i16'}, {'op': 'skip', 'wt': 6}, {'op': 'skip', 'wt': 8}, {'op': 'read', 't': 'Vec<u8>'}, {'op': 'read', 't': 'Vec<i32>'}, {'op': 'skip', 'wt': 11}):
                cases.append(case(ctx, b + [0] * tail, [j], ALL))
    for n in (100, 4096, 8191, 8192, 8193, 65536, 70000, 200000):   # sizes around buffers
        for wt, h in ((8, []),):
            b = ctx.gen.varint(n)
            for d in (0, -1, 1, 20):
                for j in ({'op': 'digest', 't': 'binary'}, {'op': 'digest', 't': 'string'}, {'op': 'skip', 'wt': 8}, {'op': 'tok', 't': 'skipbin'}):
                    cases.append({'hex': hx(b), 'fill': 97, 'rep': n + d, 'jobs': [j], 'srcs': ['slice', 'read', 'chunk:%d' % ctx.r.randint(1, 10 ** 9), 'min', 'slicer']})
    for n in (300, 1025, 4097, 8193, 16400, 33000, 70000, 150000):      # the same with content that shows where it came from
        for b in (bytes(ctx.r.randrange(256) for _ in range(n)), ''.join(chr(ctx.r.choice([0x41, 0x7f, 0xe9, 0x20ac, 0x1f600]) + ctx.r.randrange(20)) for _ in range(n // 2)).encode()):
            for d in (0, -1):
                t = bytes(ctx.gen.varint(len(b) - d)) + b
                for j in ({'op': 'digest', 't': 'binary'}, {'op': 'digest', 't': 'string'}, {'op': 'skip', 'wt': 8}):
                    cases.append(case(ctx, t + b'\x55', [j, {'op': 'tok', 't': 'byte'}] if d == 0 else [j], ALL + ['chunk:%d']))
    for kind, bads in ODD_ELEMENTS:
        for j, b in buried(ctx, kind, bads, 16, ('read', 'read', 'skip')): cases.append(case(ctx, b + [0] * ctx.r.choice([0, 1, 20]), [j, {'op': 'tok', 't': 'byte'}], ALL + ['chunk:%d']))
        for j, b in buried(ctx, kind, bads, 10, ('read', 'read', 'skip'), True): cases.append(case(ctx, b[:len(b) - ctx.r.choice([0, 0, 1])], [j], ALL + ['chunk:%d']))
    ctx.count_unspec = 0
    res = ctx.execute(cases)
    cols = []
    for c, r in zip(cases, res):
        if isinstance(r, dict) and r['dead'] == 'Unexecuted': continue
        cols.append(([o for _, o in normal(r, c)], c))
    agree(ctx, 'the same input from every kind of source', cols)
    # exhaustively over small inputs
    jobs = [{'job': {'op': 'read', 't': 'Mid'}, 'a': [[b] for b in (0, 0x15, 2, 0x1c, 0x19, 0x80, 0x18)], 'max': 5},
            {'job': {'op': 'skip', 'wt': 12}, 'a': [[b] for b in (0, 0x18, 2, 0x1b, 0x19, 0x80, 0x15, 0x11)], 'max': 5},
            {'job': {'op': 'read', 't': 'String'}, 'a': [[b] for b in (0, 1, 2, 0x80, 0xc3, 0xa9)], 'max': 5}]
    terms = explore(ctx, 'inputs for all sources', jobs)
    replay_agree(ctx, jobs, terms)
    source_dialogues(ctx, 120 * ctx.scale)


def replay_agree(ctx, jobs, terms):
    cases = [case(ctx, t['b'] + ([] if t['closed'] else [9] * ctx.r.choice([0, 1, 20])), [jobs[t['j'] - 1]['job']], ['slice', 'read', 'chunk:%d', 'min']) for t in terms]
    bad = 0
    for c, r in zip(cases, ctx.execute(cases)):
        if isinstance(r, dict) and r['dead'] == 'Unexecuted': continue
        obs = [[view(o) for o in x] for _, x in normal(r, c)]
        if any(o != obs[0] for o in obs):
            bad += 1
            if bad <= 3: ctx.violation('sources disagree', c, {'observed': obs})
    ctx.traces += len(terms)
    ctx.stages.append({'replayed': 'explored inputs from every source', 'executions': len(cases)})


# --------------------------------------------------------------------- C07 --
def c07(ctx):
    g = ctx.gen
    # an integer of so many continuation bytes that the count of their bits leaves 32 bits; takes long, so aside
    endless = [{'hex': '', 'fill': 0x80, 'rep': 613570000, 'tail': '00', 'jobs': [j], 'srcs': [s]} for j, s in (({'op': 'tok', 't': 'len'}, 'slice'), ({'op': 'skip', 'wt': 6}, 'read'))]
    aside = [None] * len(endless)
    def run(k): aside[k] = ctx.execute([endless[k]], timeout=600)[0]
    threads = [threading.Thread(target=run, args=(k,)) for k in range(len(endless))]
    for t in threads: t.start(); time.sleep(.3)
    jobs = [{'job': {'op': 'skip', 'wt': wt}, 'a': [[b] for b in (0, 1, 0x0f, 0x10, 0x19, 0x1b, 0x1c, 0x7f, 0x80, 0xf5, 0xf8, 0xff)], 'max': 3 + (ctx.scale > 1)} for wt in (4, 8, 9, 10, 11, 12)]
    for n in ('Scalars', 'Nested', 'Choice', 'Vec<Vec<Vec<bool>>>', 'EncodingSet', 'FileMetaData', 'LogicalType', 'i64', 'String', 'Ptrs', 'OptPtrs', 'Odd'):
        jobs.append({'job': {'op': 'read', 't': n}, 'a': [[b] for b in (0, 1, 5, 0x0f, 0x11, 0x15, 0x19, 0x1c, 0x80, 0xf5, 0xfc, 0xff)], 'max': 3 + (ctx.scale > 1)})
    terms = explore(ctx, 'arbitrary bytes', jobs)
    replay(ctx, 'explored arbitrary bytes', jobs, terms, ok=survives, srcs=['slice', 'read', 'min'], tails=1)
    cases = []
    for i, (name, b) in enumerate(anything(ctx, 6000 * ctx.scale)):
        cases.append(case(ctx, b, [{'op': 'read', 't': name}], ['slice', ALL[1 + i % 4]]))
        if i % 3 == 0: cases.append(case(ctx, b, [{'op': 'skip', 'wt': ctx.r.randint(0, 15)}, {'op': 'tok', 't': 'byte'}], ['slice', ALL[1 + i % 4]]))
    for i in range(5000 * ctx.scale):
        b = g.hostile()
        name = ctx.r.choice(types_for(ctx))
        pre = []
        if isref(ctx, name) and ctx.table[ctx.tla(name)['n']]['fields']:
            f = ctx.r.choice(ctx.table[ctx.tla(name)['n']]['fields'])
            pre = g.header(f['id'], ctx.r.choice([g.code(f['t']), ctx.r.randint(0, 15)]), 0)
        cases.append(case(ctx, pre + b, [{'op': 'read', 't': name}], ['slice', ALL[1 + i % 4]]))
        cases.append(case(ctx, b, [ctx.r.choice([{'op': 'skip', 'wt': ctx.r.choice([0, 4, 5, 6, 8, 9, 10, 11, 12, 13, 255])},
                                                 {'op': 'tok', 't': ctx.r.choice(['len', 'skipint', 'skipbin', 'list', 'map', 'i16', 'i32', 'i64', 'binary', 'string'])},
                                                 {'op': 'tok', 't': 'header', 'last': ctx.r.choice([0, 32767, -32768, 32760])}])], ['slice', ALL[1 + i % 4]]))
    # lengths that the input cannot back
    big = [(1 << 24), (1 << 24) + 1, 10 ** 7, 10 ** 7 + 1, 9999999, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, 1 << 60, 65536, 10 ** 6]
    for n in big:
        vb = g.varint(n)
        for tail in ([], [0], [1] * 20):
            for j in ({'op': 'skip', 'wt': 8}, {'op': 'tok', 't': 'binary'}, {'op': 'tok', 't': 'string'}, {'op': 'skip', 'wt': 11}, {'op': 'tok', 't': 'map'}, {'op': 'tok', 't': 'len'}):
                cases.append(case(ctx, vb + tail, [j], ['slice', 'read', 'min']))
                cases.append(case(ctx, vb + [0x33] + tail, [j], ['slice', 'read', 'min']))
            for e in CODES:
                cases.append(case(ctx, [0xf0 | e] + vb + tail, [{'op': 'skip', 'wt': 9}], ['slice', 'read']))
            for name in [b for b in ctx.t.bare if ctx.tla(b)['k'] in ('list', 'encset')]:
                cases.append(case(ctx, [0xf0 | (5 if name == 'EncodingSet' else g.code(ctx.tla(name)['e']))] + vb + tail, [{'op': 'read', 't': name}], ['slice', 'read']))
    # adversarial nesting
    deep = [100, 127, 128, 129, 200, 5000, 100000, 1000000]
    for d in deep:
        for u in ('19', '1a', '1c', '013b07', '01bb0101', 'fa81001c'):
            for wt in (9, 10, 11, 12):
                cases.append({'hex': u * d, 'jobs': [{'op': 'skip', 'wt': wt}], 'srcs': ['slice', 'read', 'min']} if d <= 200 else
                             {'hex': u * d, 'jobs': [{'op': 'skip', 'wt': wt}], 'srcs': ['slice', 'read'], 'nospec': 1})
        for name in ('Node', 'Choice', 'Nested', 'Vec<Vec<Vec<bool>>>', 'FileMetaData', 'Inner'):
            for u in ('79', '7a', '7c', '7b01bb'):
                if name == 'Node' and u == '7c': continue
                cases.append({'hex': u + ('19' if u in ('79', '7a') else u) * d, 'jobs': [{'op': 'read', 't': name}], 'srcs': ['slice', 'read'], 'nospec': 1})
    plain = [c for c in cases if 'nospec' not in c]
    recs = read_recs(ctx, plain)
    ctx.trace('ReadTrace', 'ReadTraceSurvives', recs, 'recorded decodings of hostile input')
    rest = [c for c in cases if 'nospec' in c]
    for c, r in zip(rest, ctx.execute(rest)):
        for s, o in normal(r, c):
            if o[0]['r'] == 'err' and o[0]['e'] in CRASH:
                ctx.violation('deep nesting', dict(c, hex=c['hex'][:60] + '...', units=len(c['hex']) // 2), {'observed': o})
                break
        if len(ctx.violations) > 3: break
    # recorded finding: typed recursion has no depth limit
    if not ctx.known('recursive-type-stack-exhaustion'): raise ToolError('known finding file')
    for c in ({'hex': '1c' * 200000, 'jobs': [{'op': 'read', 't': 'Node'}], 'srcs': ['slice']},):
        o = normal(ctx.execute([c])[0], c)[0][1][0]
        if o['r'] == 'err' and o['e'] == 'Crash': ctx.finding('recursive-type-stack-exhaustion')
        elif o['r'] == 'err' and o['e'] in CRASH: ctx.violation('typed recursion', dict(c, hex='1c..'), o)
    for d in (10, 64):     # moderate nesting has to work
        c = case(ctx, [0x1c] * d + [0] * (d + 1), [{'op': 'read', 't': 'Node'}], ['slice', 'read'])
        check_reads(ctx, 'moderately nested recursive values', [c], 'ReadTraceSurvives')
    for t in threads: t.join()
    for c, r in zip(endless, aside):
        o = normal(r, c)[0][1][0]
        if o['r'] == 'err' and o['e'] in ('Panic', 'Crash'): ctx.violation('endless integer', c, o)
    ctx.stages.append({'executed': 'integers of 613 570 000 bytes', 'executions': len(endless)})


# --------------------------------------------------------------------- C08 --
def c08(ctx):
    g = ctx.gen
    jobs = [{'job': {'op': 'read', 't': 'Inner'}, 'a': [[0], [0x15, 2], [5, 2], [0x15], [0x28, 2], [66], [0x73], [0x28], [0x80]], 'max': 6 + (ctx.scale > 1)},
            {'job': {'op': 'read', 't': 'Choice'}, 'a': [[0x15], [2], [0x31], [0], [0x49], [0x25], [0x5c], [0x18, 1]], 'max': 4 + (ctx.scale > 1)},
            {'job': {'op': 'skip', 'wt': 12}, 'a': [[b] for b in (0, 0x11, 0x13, 0x15, 0x18, 0x19, 0x1a, 0x1b, 0x1c, 0x25, 0x81)], 'max': 4 + (ctx.scale > 1)},
            {'job': {'op': 'read', 't': 'Vec<Vec<i32>>'}, 'a': [[b] for b in (0x29, 0x25, 0xf9, 2, 0x80, 0x15)], 'max': 4 + (ctx.scale > 1)}]
    terms = explore(ctx, 'cut points', jobs)
    replay(ctx, 'explored cut points', jobs, [t for t in terms if t['closed']], srcs=['slice', 'read', 'min'])
    cases = []
    total = 0
    names = types_for(ctx)
    per = 4 if ctx.scale == 1 else 16
    for n in names:
        t = ctx.tla(n)
        for i in range(per):
            g.canonical()
            if i % 2: g.free(.3)
            g.need_some = True
            v, _ = small(ctx, t, 90 if ctx.scale == 1 else 300)
            b = g.enc(t, v)
            g.need_some = False
            cuts = range(len(b)) if len(b) <= 60 * ctx.scale else sorted(ctx.r.sample(range(len(b)), 60 * ctx.scale))
            for k in cuts:
                total += 1
                cases.append(case(ctx, b[:k], [{'op': 'read', 't': n}], some_srcs(ctx)))
                if t['k'] not in ('bool', 'opt') and i % 2 == 0:
                    cases.append(case(ctx, b[:k], [{'op': 'skip', 'wt': g.code(t)}], some_srcs(ctx)))
    # unknown fields cut short
    for n in ('Inner', 'Empty', 'Node', 'OptScalars'):
        for wt in CODES:
            for _ in range(4 * ctx.scale):
                p = g.junk(wt)
                if len(p) > 80: continue
                b = g.assemble([[100, wt, p]], False)
                for k in range(len(b) + 1): cases.append(case(ctx, b[:k], [{'op': 'read', 't': n}], some_srcs(ctx)))
                for k in range(len(p)): cases.append(case(ctx, p[:k], [{'op': 'skip', 'wt': wt}], some_srcs(ctx)))
    for t in ('i16', 'i32', 'i64', 'len', 'skipint', 'double', 'binary', 'string', 'byte', 'skipbin'):
        for k in range(0, 14):
            cases.append(case(ctx, [0x8f] * k if t not in ('binary', 'string', 'skipbin', 'double', 'byte') else ([13] + [65] * (k - 1) if k else []) if t not in ('double', 'byte') else [7] * (k if t == 'double' and k < 8 else 0),
                              [{'op': 'tok', 't': t}], ['slice', 'read', 'chunk:%d', 'min']))
    for n in (1000, 65535, 65536, 70000):    # cut payloads longer than any buffer
        for j in ({'op': 'tok', 't': 'binary'}, {'op': 'tok', 't': 'string'}, {'op': 'skip', 'wt': 8}):
            for d in (1, 2, n // 2, n):
                cases.append({'hex': hx(g.varint(n)), 'fill': 65, 'rep': n - d, 'jobs': [j], 'srcs': ['slice', 'read', 'chunk:%d' % ctx.r.randint(1, 10 ** 6), 'min']})
    for kind, bads in (('Inner', [[0x15, 2], [0x15], [0x15, 0x82], [0x18, 3, 65], []]), ('Choice', [[0x15, 2], [0x28, 2, 65], []]), ('String', [[2, 65], [0x80], []]), ('Node', [[0x35, 0x80], []]), ('i32', [[0x80], []]), ('i64', [[0xff, 0xff], []]), ('list', [[0x25, 2], [0xf5], []]), ('set', [[0x25, 2], []])):
        for j, b in buried(ctx, kind, bads, 5, ('read', 'read', 'skip'), True): cases.append(case(ctx, b, [j], some_srcs(ctx)))
    g.canonical()
    check_reads(ctx, 'recorded decodings of truncated encodings', cases, 'ReadTraceCuts')


# --------------------------------------------------------------------- C09 --
MAXB, MAXC = 16 << 20, 10 ** 7


def big_writes(ctx, lengths):
    """values of many equal elements: what was written is known by its first bytes and its length"""
    cases, meta = [], []
    texts = ['string', 'boxstr', 'rcstr', 'arcstr', 'cowstr']
    units = ['a', '\u00e9', '\u20ac', '\U0001f600', 'a\u00e9']
    k = ctx.r.randint(0, 4)
    for t, kind, per, fill, code, byte in [('binary', 'binary', 1, 7, 0, [7]), ('cowbytes', 'binary', 1, 9, 0, [9]),
                                           ('Vec<i8>', 'list', 1, 3, 3, [3]), ('Vec<bool>', 'list', 1, 1, 2, [1]), ('Vec<Empty>', 'list', 1, 0, 12, [0])] + \
            [('string', 'binary', 1, 0, 0, list(u.encode())) for u in units] + [(t, 'binary', 1, 0, 0, list(units[(i + k) % 5].encode())) for i, t in enumerate(texts[1:])]:
        limit = MAXB if kind == 'binary' else MAXC
        for n in lengths(limit):
            for sink in ([{'name': 'w', 'keep': 12}] if n < limit - 2 or ctx.r.random() < .7 else [{'name': 'vec', 'vec': True, 'keep': 0}]):
                cases.append({'kind': 'write', 'sinks': [sink], 'jobs': [{'op': 'wbig', 't': t, 'n': n, 'fill': fill, 'unit': hx(byte)}]})
                meta.append({'op': 'write', 'kind': kind, 'hdr': [], 'per': per, 'avail': 0, 'len': n, 'eof': EOF, 'code': code, 'fill': byte, 'lead': n % len(byte)})
    recs = []
    for c, m, r in zip(cases, meta, ctx.execute(cases, timeout=120, workers=6)):
        dead = isinstance(r, dict)
        o = {'r': 'err', 'e': r['dead'], 'u': 0, 'pk': 0} if dead else dict(r[0][1]['obs'][0], pk=0)
        o.pop('v', None)
        recs.append((dict(m, obs=o, head=[] if dead else list(bytes.fromhex(r[0][1]['out'])[:12])), c))
    return recs


def c09(ctx):
    g = ctx.gen.canonical()
    recs = []
    cases, meta = [], []
    huge = [1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 100, (1 << 33) + 7, (1 << 40) + 3, (1 << 48) + 15, 1 << 62, (1 << 63) - 1, 1 << 63, (1 << 63) + 2, (1 << 64) - 1, (1 << 64) - 16, (1 << 31) - 1, 1 << 30]
    huge += [(1 << k) + ctx.r.randint(0, 20) for k in range(32, 64)]

    def lens(limit):
        return [0, 1, 14, 15, 16, 127, 128, 1000, limit - 1, limit, limit + 1, limit + 2, 2 * limit, (1 << 24) - 1, (1 << 24) + 1, 1 << 25] + [limit + ctx.r.randint(1, 10 ** 6)] + huge

    def add(op, kind, hdr, per, avail, fill, job, srcs):
        cases.append({'hex': hx(hdr), 'fill': fill, 'rep': avail, 'jobs': [job], 'srcs': srcs})
        meta.append({'op': op, 'kind': kind, 'hdr': list(hdr), 'per': per, 'avail': avail, 'eof': EOF})
    slow = 2 if ctx.scale == 1 else 4
    for kind, limit in (('binary', MAXB), ('list', MAXC), ('map', MAXC)):
        for n in lens(limit):
            inside = n <= limit
            large = inside and n > 10 ** 6
            pad = ctx.r.choice([0, 0, 2]) if n < 1 << 57 else 0
            nb = g.varint(n)
            if pad: nb = nb[:-1] + [nb[-1] | 128, 128, 0]
            if kind == 'binary':
                todo = [(op, nb, 1, 97, j) for op, j in (('read', {'op': 'digest', 't': 'binary'}), ('read', {'op': 'digest', 't': 'string'}), ('skip', {'op': 'skip', 'wt': 8}), ('skip', {'op': 'tok', 't': 'skipbin'}), ('read', {'op': 'cow', 't': 'str'} if not large else {'op': 'digest', 't': 'binary'}))]
                if not inside: todo += [('read', nb, 1, 97, {'op': 'read', 't': t}) for t in ('String', 'Vec<u8>', 'Box<str>', 'Rc<str>', 'Arc<str>', 'Arc<Vec<u8>>', 'Option<Arc<str>>')] + [('read', nb, 1, 97, {'op': 'tok', 't': t}) for t in ('binary', 'string')] + [('read', nb, 1, 97, {'op': 'cow', 't': 'bytes'})]
            elif kind == 'list':
                def lh(e): return [e | n << 4] if n < 15 and ctx.r.random() < .5 else [0xf0 | e] + nb
                todo = [('read', lh(e), 1, f, {'op': 'digest', 't': t}) for t, e, f in (('Vec<bool>', 1, 1), ('Vec<i8>', 3, 7), ('Vec<i32>', 5, 0), ('Vec<Empty>', 12, 0), ('EncodingSet', 5, 6)) if not (t == 'EncodingSet')]
                if inside and n: todo.append(('read', lh(5), 1, 6, {'op': 'digest', 't': 'EncodingSet'}))
                if not inside: todo.append(('read', lh(5), 1, 6, {'op': 'read', 't': 'EncodingSet'}))
                if not inside: todo += [('read', lh(g.code(ctx.tla(t)['e'])), 1, 0, {'op': 'read', 't': t}) for t in ctx.t.bare if ctx.tla(t)['k'] == 'list'] + [('read', lh(5), 1, 0, {'op': 'tok', 't': 'list'})]
                es = (1, 3, 5, 8, 12) if large else CODES
                todo += [('skip', lh(e), {7: 8, 11: 1}.get(e, 1), 0, {'op': 'skip', 'wt': w}) for e in es for w in (9, 10)]
            else:
                todo = []
                for k, v in ((1, 1), (3, 5)) if large else [(ctx.r.randint(1, 12), ctx.r.randint(1, 12)) for _ in range(6)]:
                    h = nb + ([k << 4 | v] if n else [])
                    todo.append(('skip', h, {7: 8}.get(k, 1) + {7: 8}.get(v, 1), 0, {'op': 'skip', 'wt': 11}))
                if not inside: todo.append(('read', nb + [0x55], 2, 0, {'op': 'tok', 't': 'map'}))
            for op, hdr, per, fill, job in todo:
                # a fill of 0 is an empty list or a stop marker as well; skipping lists of lists wants a valid code
                if op == 'skip' and job.get('wt') in (9, 10) and hdr[0] & 15 in (9, 10): fill = 3
                if op == 'skip' and job.get('wt') == 11 and len(hdr) and n and ({hdr[-1] >> 4, hdr[-1] & 15} & {9, 10}):
                    if {hdr[-1] >> 4, hdr[-1] & 15} - {9, 10, 3, 1, 2, 4, 5, 6}: continue
                    fill = 3
                need = n * per if inside else 0
                srcs = ['slice', 'read', 'min'] if need < 10 ** 5 else [ctx.r.choice(['slice', 'read', 'chunk:7'])]
                if 'cow' == job['op']: srcs = ['slice', 'read']
                avails = {need, need + 1, max(0, need - 1), 0, need + 20}
                if large: avails = {need, need - 1} if ctx.r.random() < .5 or n >= limit else {need + 20}
                for a in sorted(avails): add(op, kind, hdr, per, a, fill, job, srcs)
    res = ctx.execute(cases, timeout=120, workers=6)
    # nested positions: fields, elements, unknown fields
    for c, m, r in zip(cases, meta, res):
        if isinstance(r, dict) and r.get('dead') == 'Unexecuted': continue
        for s, obs in normal(r, c):
            o = {k: v for k, v in obs[0].items() if k != 'v'}
            recs.append((dict(m, obs=o, len=0), dict(c, srcs=[s])))
    # writing
    recs += big_writes(ctx, lambda limit: (0, 1, 14, 15, 16, 127, 128, 16383, 16384, limit - 1, limit, limit + 1, limit + 2, limit + 1000 + ctx.r.randint(0, 10 ** 6), 2 * limit, 1 << 25))
    ctx.trace('Limits', 'Limits', recs, 'declared lengths around the limits')
    # the limits apply in every position
    cases = []
    for n in (MAXC + 1, MAXB + 1, 1 << 32, (1 << 32) + 2, (1 << 64) - 1):
        vb = g.varint(n)
        for name in ('Lists', 'OptLists', 'Scalars', 'OptScalars', 'Nested', 'Choice', 'Node', 'Ptrs', 'OptPtrs', 'FileMetaData', 'ColumnIndex'):
            for f in ctx.table[name]['fields']:
                k = f['t']['k']
                if k in ('list', 'set', 'encset'): p = [0xf0 | (5 if k == 'encset' else g.code(f['t']['e']))] + vb
                elif k in ('binary', 'string'): p = vb
                else: continue
                cases.append(case(ctx, g.header(f['id'], g.code(f['t']), 0) + p + [1] * ctx.r.choice([0, 5, 30]), [{'op': 'read', 't': name}], some_srcs(ctx)))
            for wt, p in ((8, vb), (9, [0xf3] + vb), (10, [0xfc] + vb), (11, vb + [0x33]), (12, [0x18] + vb), (12, [0x19, 0xf5] + vb), (9, [0x1b] + vb + [0x11]), (9, [0x19, 0xf1] + vb)):
                if ctx.table[name]['kind'] == 'struct':
                    cases.append(case(ctx, g.header(1000, wt, 0) + p + [1] * ctx.r.choice([0, 5, 30]), [{'op': 'read', 't': name}], some_srcs(ctx)))
                cases.append(case(ctx, p + [1] * ctx.r.choice([1, 5, 30]), [{'op': 'skip', 'wt': wt}], some_srcs(ctx)))
        for name, p in (('Vec<String>', [0x28, 0] + vb), ('Vec<Vec<u8>>', [0x18] + vb), ('Vec<Vec<i32>>', [0x29, 0x05, 0xf5] + vb), ('Vec<Inner>', [0x1c, 0x28] + vb), ('Vec<Arc<str>>', [0x18] + vb)):
            cases.append(case(ctx, p + [1] * 5, [{'op': 'read', 't': name}], some_srcs(ctx)))
    check_reads(ctx, 'limits in nested positions', cases)


# --------------------------------------------------------------------- C10 --
def c10(ctx):
    g = ctx.gen
    jobs = [{'job': {'op': 'read', 't': 'Bools'}, 'a': [[0], [0x11], [0x22], [1, 2], [2, 6], [0x31], [1, 5], [0x73]][:7], 'max': 6 + (ctx.scale > 1)},
            {'job': {'op': 'read', 't': 'Mid'}, 'a': [[0], [0x1c], [0x2c], [0x15, 2], [0x19, 0x1c], [12, 2]], 'max': 8},
            {'job': {'op': 'read', 't': 'Vec<Inner>'}, 'pre': [0x3c], 'a': [[0], [0x15, 2], [5, 2, 4], [0x28, 0], [0x33, 1]], 'max': 11}]
    terms = explore(ctx, 'presence of fields', jobs)
    replay(ctx, 'explored presence', jobs, [t for t in terms if not t['closed']])
    cases = []

    def drop(n, items, depth):
        if n in ctx.table and ctx.table[n]['kind'] == 'union': return
        for _ in range(ctx.r.choice([0, 0, 1, 1, 2, 5]) if depth == 0 or ctx.r.random() < .3 else 0):
            if items: items.pop(ctx.r.randrange(len(items)))
    for n in structs(ctx):
        t = ctx.tla(n)
        fs = ctx.table[n]['fields']
        for i, f in enumerate(fs):      # each field alone missing, each alone present
            for mode in range(2):
                g.canonical()
                v = g.value(t, 3)
                v = [[g.value(x['t'], 3)] for x in fs]
                if mode == 0: v[i] = []
                else: v = [y if k == i else [] for k, y in enumerate(v)]
                cases.append(case(ctx, g.enc(t, v) + [0] * 3, [{'op': 'read', 't': n}], some_srcs(ctx)))
        for _ in range(15 * ctx.scale):
            g.free(.2)
            g.hook = drop
            b = g.enc(t, small(ctx, t, 500)[0])
            g.canonical()
            cases.append(case(ctx, b + [0] * 3, [{'op': 'read', 't': n}], some_srcs(ctx)))
        cases.append(case(ctx, [0, 0, 0], [{'op': 'read', 't': n}], ['slice', 'read']))
    for n in ('Vec<Inner>', 'Vec<Scalars>', 'Vec<Rc<Inner>>', 'Box<Vec<Inner>>', 'Option<Inner>', 'Vec<Option<Inner>>', 'Choice', 'Vec<Choice>', 'LogicalType', 'TimeUnit'):
        for _ in range(30 * ctx.scale):
            g.free(.2)
            g.hook = drop
            g.need_some = True
            b = g.enc(ctx.tla(n), g.value(ctx.tla(n)))
            g.need_some = False
            g.canonical()
            cases.append(case(ctx, b, [{'op': 'read', 't': n}], some_srcs(ctx)))
    for j, b in buried(ctx, 'Inner', [[0], [0x28, 1, 65, 0], [0x28, 0, 0], [0x35, 2, 0], [0x55, 2, 0x18, 1, 66, 0]], 60): cases.append(case(ctx, b + [0] * ctx.r.choice([0, 3]), [j], some_srcs(ctx)))
    for j, b in buried(ctx, 'Choice', [[0x4c, 0, 0], [0x4c, 0x28, 1, 65, 0, 0]], 8): cases.append(case(ctx, b, [j], some_srcs(ctx)))
    # what one struct had never counts for another
    full, half = [0x15, 2, 0], [0x18, 1, 65, 0]
    for first in (full, half):
        for second in (full, half):
            for third in (full, half):
                cases.append(case(ctx, [0x3c] + first + second + third, [{'op': 'read', 't': 'Vec<Inner>'}], ['slice', 'read']))
                cases.append(case(ctx, [0x1c] + first + [0x1c] + second + [12, 2] + third + [0], [{'op': 'read', 't': 'Mid'}], ['slice', 'read']))
                cases.append(case(ctx, [0x1c] + first + [12, 4] + second + [0x19, 0x1c] + third + [0], [{'op': 'read', 't': 'Mid'}], ['slice', 'read']))
    # decoding on top of an existing value: the value does not stand in for required fields
    for n in structs(ctx, 'test'):
        fs = ctx.table[n]['fields']
        for _ in range(6 * ctx.scale):
            v = [[g.value(f['t'], 3)] if f['req'] else [] for f in fs]
            b = g.assemble([x for x in g.items(n, g.value(ctx.tla(n), 2)) if ctx.r.random() < .8])
            cases.append(case(ctx, b, [{'op': 'fill', 't': n, 'prior': v}], some_srcs(ctx)))
    check_reads(ctx, 'recorded decodings with missing fields', cases)


# --------------------------------------------------------------------- C11 --
def c11(ctx):
    g = ctx.gen
    jobs = [{'job': {'op': 'read', 't': 'Inner'}, 'a': [[0], [5, 2, 2], [5, 2, 3], [8, 4, 0], [8, 4, 1, 66], [0x15, 8]], 'max': 13},
            {'job': {'op': 'read', 't': 'Bools'}, 'a': [[0], [1, 2], [2, 2], [1, 4], [2, 4], [1, 6], [2, 40]], 'max': 9 + 2 * (ctx.scale > 1)},
            {'job': {'op': 'read', 't': 'Mid'}, 'a': [[0], [12, 2, 0x15, 2, 0], [12, 2, 0x15, 4, 0x18, 0, 0], [12, 2, 0x15, 6, 0x18, 1, 65, 0], [9, 6, 12], [12, 4, 0x15, 2, 0], [12, 8, 0x31, 0]], 'max': 22}]
    terms = explore(ctx, 'repetition', jobs)
    replay(ctx, 'explored repetition', jobs, [t for t in terms if not t['closed']])
    cases = []

    def dup(n, items, depth):
        if n not in ctx.table or ctx.table[n]['kind'] != 'struct' or not items: return
        for _ in range(ctx.r.choice([1, 1, 2]) if depth == 0 else ctx.r.choice([0, 0, 0, 1])):
            fs = {f['id']: f for f in ctx.table[n]['fields']}
            f = fs[ctx.r.choice(items)[0]]
            h, g.hook = g.hook, None
            items.insert(ctx.r.randint(0, len(items)), g.item(f, g.value(f['t'], depth + 3)))
            g.hook = h
    for n in structs(ctx):
        t = ctx.tla(n)
        if not ctx.table[n]['fields']: continue
        for i in range(30 * ctx.scale):
            g.canonical()
            if i % 2: g.free(.3)
            g.hook = dup
            b = g.enc(t, small(ctx, t, 300)[0])
            g.canonical()
            cases.append(case(ctx, b, [{'op': 'read', 't': n}], some_srcs(ctx)))
        for f in ctx.table[n]['fields']:     # every field twice in a row, short then long and the same
            for _ in range(2):
                items = g.items(n, [[g.value(x['t'], 3)] if x['req'] else [] for x in ctx.table[n]['fields']])
                two = [g.item(f, g.value(f['t'], 3)), g.item(f, g.value(f['t'], 3))]
                items = two + [x for x in items if x[0] != f['id']] if ctx.r.random() < .5 else [x for x in items if x[0] != f['id']] + two
                cases.append(case(ctx, g.assemble(items), [{'op': 'read', 't': n}], some_srcs(ctx)))
    for n in structs(ctx):          # lists, texts and sets that get shorter or longer
        for f in ctx.table[n]['fields']:
            k = f['t']['k']
            if k not in ('list', 'binary', 'string') or n in ctx.pqtypes and ctx.r.random() < .7: continue
            deep = k == 'list' and f['t']['e']['k'] in ('ref', 'list')
            for _ in range(3):
                a, b = ctx.r.choice([0, 1, 15, 33, 64, 100, 300]), ctx.r.choice([0, 1, 14, 32, 40, 65, 128, 290])
                if deep: a, b = a // 6, b // 6
                val = lambda m: [g.value(f['t']['e'], 5) for _ in range(m)] if k == 'list' else [ctx.r.randint(32, 126) for _ in range(m)]
                g.need_some = True
                items = g.items(n, [[g.value(x['t'], 3)] if x['req'] and x['id'] != f['id'] else [] for x in ctx.table[n]['fields']])
                two = [g.item(f, val(a)), g.item(f, val(b))]
                g.need_some = False
                cases.append(case(ctx, g.assemble([two[0]] + items + [two[1]]), [{'op': 'read', 't': n}], some_srcs(ctx)))
    for j, b in buried(ctx, 'Inner', [[0x15, 2, 5, 2, 8, 0], [0x15, 2, 0x18, 1, 65, 8, 4, 1, 66, 0], [0x15, 2, 0x18, 0, 8, 4, 0, 0], [0x28, 2, 66, 67, 5, 2, 2, 8, 4, 1, 65, 0], [0x15, 2, 5, 2, 4, 0]], 30): cases.append(case(ctx, b + [0] * ctx.r.choice([0, 3]), [j], some_srcs(ctx)))
    for j, b in buried(ctx, 'Node', [[0x35, 2, 5, 6, 2, 0], [0x35, 2, 5, 6, 4, 0], [0x29, 0x0c, 9, 4, 0x0c, 0]], 10): cases.append(case(ctx, b + [0] * ctx.r.choice([0, 3]), [j], some_srcs(ctx)))
    for b in chain(ctx, [[0x35, 2, 5, 6, 2], [0x1c, 0, 12, 2, 0], [0x29, 0x0c, 9, 4, 0x1c, 0]], 20): cases.append(case(ctx, b, [{'op': 'read', 't': 'Node'}], some_srcs(ctx)))
    # on top of populated values
    for n in [x for x in types_for(ctx) if x not in ctx.pqtypes] + ['FileMetaData', 'ColumnMetaData', 'Statistics', 'LogicalType', 'PageHeader', 'RowGroup']:
        t = ctx.tla(n)
        for i in range(10 * ctx.scale):
            g.canonical()
            g.need_some = True
            v, b = small(ctx, t, 400)
            if i % 2: g.p_opt = .2
            b = g.enc(t, small(ctx, t, 400)[0])
            g.p_opt = .65
            prior = v
            g.need_some = False
            if i % 3 == 0: prior = g.value(t)
            if i % 3 == 1 and t['k'] == 'ref' and ctx.table[t['n']]['kind'] == 'struct':
                prior = [x if f['req'] else ([] if ctx.r.random() < .8 else x) for f, x in zip(ctx.table[t['n']]['fields'], v)]
            cases.append(case(ctx, b + [0] * 3, [{'op': 'fill', 't': n, 'prior': prior}], some_srcs(ctx)))
            if t['k'] != 'bool' and not (t['k'] == 'opt' and t['e']['k'] == 'bool'):
                cases.append(case(ctx, b + [0] * 3, [{'op': 'ffield', 't': n, 'wt': g.code(t), 'prior': prior}], some_srcs(ctx)))
            else:
                cases.append(case(ctx, [0, 2, 1], [{'op': 'ffield', 't': n, 'wt': ctx.r.choice([1, 2]), 'prior': prior}], some_srcs(ctx)))
            for op in ('fillrc', 'fillarc', 'fillweak'):
                cases.append(case(ctx, b + [0] * 3, [{'op': op, 't': n, 'prior': prior}], ['slice']))
            if t['k'] != 'opt':
                for op in ('fillrc', 'fillarc'):
                    cases.append(case(ctx, b + [0] * 3, [{'op': op, 't': n, 'prior': prior, 'wt': g.code(t)}], ['slice']))
    check_reads(ctx, 'recorded decodings with repeated fields or into populated values', cases)
    holders(ctx)


# --------------------------------------------------------------------- C12 --
def plausible(ctx, t, wt):
    """a payload for wire type wt"""
    return ctx.gen.junk(wt) if wt in CODES else [ctx.r.randint(0, 255) for _ in range(ctx.r.randint(0, 4))]


def c12(ctx):
    g = ctx.gen.canonical()
    jobs = []
    for n in ('Scalars', 'OptScalars', 'Choice', 'OptPtrs', 'OptLists'):
        jobs.append({'job': {'op': 'read', 't': n}, 'a': [[c, 2 * i % 256] for c in range(16) for i in range(1, 20)] + [[0], [1]], 'max': 3})
    for n in [b for b in ctx.t.bare if ctx.tla(b)['k'] in ('list', 'encset')]:
        jobs.append({'job': {'op': 'read', 't': n}, 'a': [[k << 4 | c] for c in range(16) for k in (0, 1, 2)] + [[0xf0 | c, k] for c in range(16) for k in (0, 1)], 'max': 2})
    for wt in (9, 10, 11):
        jobs.append({'job': {'op': 'skip', 'wt': wt}, 'a': [[k << 4 | c] for c in range(16) for k in (0, 1, 2)] + [[0xd1], [0x1d], [0xe2], [0x3f]], 'max': 2})
    jobs.append({'job': {'op': 'skip', 'wt': 12}, 'a': [[k << 4 | c] for c in range(16) for k in (0, 1, 3)], 'max': 2})
    terms = explore(ctx, 'type codes', jobs)
    replay(ctx, 'explored type codes', jobs, terms)
    cases = []
    for n in structs(ctx) + unions(ctx):
        fs = ctx.table[n]['fields']
        union = ctx.table[n]['kind'] == 'union'
        codes = list(range(16))
        for f in fs:
            for wt in codes if n not in ctx.pqtypes or ctx.scale > 1 else ctx.r.sample(codes, 6):
                p = plausible(ctx, f['t'], wt)
                if union: items = [[f['id'], wt, p]]
                else:
                    items = g.items(n, [[g.value(x['t'], 4)] if x['req'] or ctx.r.random() < .3 else [] for x in fs])
                    items = [x for x in items if x[0] != f['id']]
                    items.insert(ctx.r.randint(0, len(items)), [f['id'], wt, p])
                b = g.assemble(items)
                cases.append(case(ctx, b + [0] * ctx.r.choice([0, 2, 20]), [{'op': 'read', 't': n}], some_srcs(ctx)))
                if f['t']['k'] in ('list', 'set', 'encset') and wt < 16:     # element code
                    e = plausible(ctx, f['t'], wt)
                    k = ctx.r.choice([0, 1, 1, 2, 16])
                    body = (g.listheader(wt, k)) + [x for _ in range(k) for x in (g.junk(wt, True, 3) if wt in CODES else [7])]
                    items[[x[0] for x in items].index(f['id'])] = [f['id'], g.code(f['t']), body]
                    cases.append(case(ctx, g.assemble(items), [{'op': 'read', 't': n}], some_srcs(ctx)))
                if union: continue
                # codes of skipped fields and of what they contain
                if wt > 12:
                    items = [x for x in items if x[0] != f['id']] + [[2000, wt, [1, 2]]]
                    cases.append(case(ctx, g.assemble(items), [{'op': 'read', 't': n}], some_srcs(ctx)))
    for n in types_for(ctx, pq=False):
        t = ctx.tla(n)
        for wt in list(range(16)) + [17, 18, 24, 128, 255]:
            for _ in range(1 + (ctx.scale > 1)):
                g.need_some = True
                v, b = small(ctx, t, 300)
                prior = ctx.default(t) if t['k'] == 'opt' else v
                g.need_some = False
                cases.append(case(ctx, (b if wt > 2 else []) + [1, 0, 0], [{'op': 'ffield', 't': n, 'wt': wt, 'prior': prior}], some_srcs(ctx)))
                cases.append(case(ctx, plausible(ctx, t, wt) + [1, 0, 0], [{'op': 'ffield', 't': n, 'wt': wt, 'prior': prior}], some_srcs(ctx)))
    for wt in [0, 13, 14, 15, 16, 17, 19, 25, 28, 128, 129, 140, 255]:
        for n in (0, 1, 20):
            cases.append(case(ctx, [ctx.r.randint(0, 3) for _ in range(n)], [{'op': 'skip', 'wt': wt}], ALL))
    for bad in (0, 13, 14, 15):
        for n in (0, 1, 2, 15, 16):
            h = g.listheader(bad, n)
            for wt, p in ((9, h), (10, h), (9, [0x19] + h), (9, [0x1a] + h), (12, [0x19] + h), (12, [0x10 | bad] if bad else [0x19] + h), (11, [n, bad << 4 | 1] if n else [0]), (11, [n, 0x10 | bad] if n else [0]), (11, [1, 0x1b, 1] + ([n, bad << 4 | 3] if n else [0]))):
                cases.append(case(ctx, p + [0] * 40, [{'op': 'skip', 'wt': wt}], some_srcs(ctx)))
                cases.append(case(ctx, g.header(77, wt, 0) + p + [0] * 40, [{'op': 'read', 't': 'Empty'}], some_srcs(ctx)))
    # long lists whose element code is another one
    one = {1: [1], 2: [2], 3: [7], 4: [2], 5: [0x84, 1], 6: [1], 7: [0] * 8, 8: [1, 65], 9: [0x13, 1], 10: [0], 11: [0], 12: [0]}
    for n in [b for b in ctx.t.bare if ctx.tla(b)['k'] in ('list', 'encset')]:
        for wt in range(16):
            for k in ctx.r.sample([3, 14, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200], 3 * ctx.scale if ctx.scale < 5 else 16) + ctx.r.sample([255, 256, 257, 300, 511, 513, 1000, 1025, 4097], 2):
                cases.append(case(ctx, g.listheader(wt, k) + one.get(wt, [1]) * k, [ctx.r.choice([{'op': 'read', 't': n}, {'op': 'ffield', 't': n, 'wt': 9, 'prior': ctx.default(ctx.tla(n))}])], some_srcs(ctx)))
    for n in ('Lists', 'OptLists', 'Nested', 'ColumnMetaData', 'ColumnIndex', 'FileMetaData', 'SizeStatistics'):
        for f in ctx.table[n]['fields']:
            if f['t']['k'] not in ('list', 'set', 'encset'): continue
            for wt in range(16):
                k = ctx.r.choice([15, 33, 65, 129, 257, 300, 1000])
                items = [x for x in g.items(n, [[g.value(x['t'], 4)] if x['req'] else [] for x in ctx.table[n]['fields']]) if x[0] != f['id']]
                items.insert(ctx.r.randint(0, len(items)), [f['id'], g.code(f['t']), g.listheader(wt, k) + one.get(wt, [1]) * k])
                cases.append(case(ctx, g.assemble(items), [{'op': 'read', 't': n}], some_srcs(ctx)))
    for kind, bads in (('Inner', [[0x16, 2, 0], [0x11, 0], [0x15, 2, 0x19, 5, 0], [0x15, 2, 0x11, 0], [0x15, 2, 0x3e, 0], [0x15, 2, 0x3d, 0, 0]]), ('Choice', [[0x16, 2, 0], [0x35, 2, 0], [0x1f, 0, 0], [0x5b, 0, 0]]), ('Node', [[0x36, 2, 0], [0x19, 0x0c, 0], [0x29, 0x1b, 0, 0], [0x2a, 0x0c, 0]]), ('list', [[0x16, 2], [0x10, 2], [6], [0], [0x1e, 2]]), ('set', [[0x16, 2], [6], [0x11, 1]])):
        for j, b in buried(ctx, kind, bads, 10): cases.append(case(ctx, b + [0] * ctx.r.choice([0, 3]), [j], some_srcs(ctx)))
    for kind, bads in (('Inner', [[0x1e, 0], [0x2d, 0, 0], [0x29, 0x1e, 0, 0], [0x10, 0]]), ('list', [[0x1e, 2], [0x10, 2], [0x0d]])):
        for j, b in buried(ctx, kind, bads, 10, ('skip',)): cases.append(case(ctx, b + [0] * ctx.r.choice([0, 3]), [j], some_srcs(ctx)))
    for b in chain(ctx, [[0x36, 2], [0x25, 2], [0x29, 5], [0x1d, 0], [0x5e]], 20): cases.append(case(ctx, b, [{'op': 'read', 't': 'Node'}], some_srcs(ctx)))
    check_reads(ctx, 'recorded decodings with other type codes', cases)


# --------------------------------------------------------------------- C13 --
def c13(ctx):
    g = ctx.gen.canonical()
    un = [n for n in unions(ctx)]
    jobs = [{'job': {'op': 'read', 't': 'Choice'}, 'a': chunks_for(ctx, 'Choice') + [[0x15, 2], [0x31], [0x7c, 0x15, 2, 0], [5, 200, 1, 3], [0xf5, 2], [0x1c, 0]], 'max': 8},
            {'job': {'op': 'read', 't': 'One'}, 'a': [[b] for b in (0, 0x11, 0x12, 1, 2, 4, 0x21, 0x13, 0x15, 0x10)], 'max': 4},
            {'job': {'op': 'read', 't': 'Sub'}, 'a': [[b] for b in (0, 0x1c, 0x21, 0x22, 4, 32, 0x14, 0x31, 12, 2)], 'max': 5},
            {'job': {'op': 'read', 't': 'Vec<Choice>'}, 'pre': [0x2c], 'a': [[0], [0x15, 2], [0x31], [0x5c, 0], [0x28, 0], [0xe5, 3]], 'max': 8}]
    terms = explore(ctx, 'union encodings', jobs)
    replay(ctx, 'explored union encodings', jobs, terms)
    vals = pipe_values(ctx, un)
    replay_writes(ctx, 'bytes of every union value of the explored domain', vals)
    cases = []
    for n in un + ['Vec<Choice>', 'Arc<Choice>', 'Nested', 'Mid', 'SchemaElement', 'ColumnOrder', 'BloomFilterHeader']:
        if n not in ctx.table and n in ctx.t.defs: continue
        t = ctx.tla(n)

        def vary(name, items, depth):
            q = ctx.r.random()
            if q < .3 or (depth and q < .8): return
            u = g.unknown(name)
            f = ctx.r.choice(ctx.table[name]['fields'])
            other = g.item(f, g.value(f['t'], 4))
            if q < .4: items.insert(ctx.r.randint(0, 1), u)
            elif q < .5: items.insert(ctx.r.randint(0, 1), other)
            elif q < .6: items[:] = []
            elif q < .7: items[:] = [u]
            elif q < .8: items.append(list(items[0]))
            elif q < .9: items[0] = [items[0][0], ctx.r.randint(1, 15), items[0][2]]
        for i in range(40 * ctx.scale):
            g.canonical()
            if i % 2: g.free(.3)
            g.uhook = vary
            v = g.value(t)
            b = g.enc(t, v)
            g.uhook = None
            cases.append(case(ctx, b + [0] * ctx.r.choice([0, 3, 20]), [{'op': 'read', 't': n}], some_srcs(ctx)))
            if i % 4 == 0: cases.append(case(ctx, b + [0] * 3, [{'op': 'fill', 't': n, 'prior': g.value(t)}], some_srcs(ctx)))
    for n in un:      # each variant, short and long form, with and without stop, with stop forms
        for f in ctx.table[n]['fields']:
            for _ in range(3):
                g.canonical()
                v = g.value(f['t'], 3)
                it = g.item(f, v)
                for hdr in (g.header(f['id'], it[1], 0), [it[1]] + g.signed(limbs(f['id'], 1))):
                    for end in [[0], [], [0x10], [0x15, 2, 0], [0x11, 0], hdr + it[2] + [0], [0, 0], [it[1]], [it[1] | 0x10], [ctx.r.randint(1, 12)], [ctx.r.randint(13, 255), 0], [ctx.r.choice([1, 2])]]:
                        cases.append(case(ctx, hdr + it[2] + end, [{'op': 'read', 't': n}], some_srcs(ctx)))
        ids = {f['id'] for f in ctx.table[n]['fields']}
        for id in [x for x in list(range(-3, 35)) + [-32768, 32767, 255, 256, 257] if x not in ids]:
            for wt in (1, 2, 5, 8, 12):
                cases.append(case(ctx, g.assemble([[id, wt, g.junk(wt)]]), [{'op': 'read', 't': n}], some_srcs(ctx)))
    for j, b in buried(ctx, 'Choice', [[0], [0x15, 2, 0x15, 2, 0], [0xe5, 2, 0], [0x15, 2, 0x18, 0, 0], [0x31, 0x11, 0], [0x5c, 0, 0], [0x8c, 0, 0], [0x8c, 0x1c, 0, 0, 0], [0x31, 0x21, 0], [0x15, 2, 0xe5, 2, 0], [0x5c, 0x15, 2, 0, 0]], 60): cases.append(case(ctx, b + [0] * ctx.r.choice([0, 3]), [j], some_srcs(ctx)))
    for j, b in buried(ctx, 'Choice', [[0x15, 2, 0], [0x48, 0, 0], [0x31, 0], [0x8c, 0x21, 0, 0]], 6): cases.append(case(ctx, b, [j], some_srcs(ctx)))
    check_reads(ctx, 'recorded decodings of unions', cases)
    ctx.trace('WriteTrace', 'WriteTrace', write_recs(ctx, write_cases(ctx, un + ['Vec<Choice>', 'Arc<Choice>', 'Nested'], 25 * ctx.scale)), 'recorded encodings of unions')


# --------------------------------------------------------------------- C14 --
def c14(ctx):
    g = ctx.gen.canonical()
    f = ctx.path('const.ndjson')
    r = ctx.execute([{'kind': 'const'}])[0]
    seen = {(a, b): v for a, b, v in r['v']} if r.get('r') == 'ok' else {}
    with open(f, 'w') as o:
        for n in ctx.t.order:
            d = ctx.t.defs[n]
            if d['kind'] != 'enum': continue
            for cn, val in d['consts']:
                o.write(json.dumps({'enum': n, 'name': cn, 'want': limbs(val, 2), 'have': seen.get((n, cn), [])}) + '\n')
    recs = [(json.loads(l), json.loads(l)) for l in open(f)]
    ctx.trace('Constants', 'Constants', recs, 'declared constants', size=100000)
    vals = sorted({0, 1, 2, -1, -2, 5, -5, 30, 31, 32, 63, 64, 65, 127, 128, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, (1 << 31) - 1, -(1 << 31), -(1 << 31) + 1, (1 << 30), -(1 << 30)}
                  | {s * (1 << k) + d for k in range(31) for s in (1, -1) for d in (-1, 0, 1)} | {ctx.r.randint(-(1 << 31), (1 << 31) - 1) for _ in range(100 * ctx.scale)})
    vals = [limbs(x, 2) for x in vals]
    enums = [n for n in ctx.t.order if ctx.t.defs[n]['kind'] == 'enum']
    holders = []       # structs with enum fields
    for n in structs(ctx) + unions(ctx):
        for i, fd in enumerate(ctx.table[n]['fields']):
            if fd['t']['k'] == 'enum' or (fd['t']['k'] == 'list' and fd['t']['e']['k'] == 'enum'): holders.append((n, i))
    wc, rc = [], []
    for k, v in enumerate(vals):
        for n in enums:
            wc.append({'kind': 'write', 'sinks': sinks(ctx, 1), 'jobs': [{'op': 'write', 't': n, 'v': v}]})
            rc.append(case(ctx, g.signed(v), [{'op': 'read', 't': n}], some_srcs(ctx)))
        n, i = holders[k % len(holders)]
        for n, i in [holders[(k + d) % len(holders)] for d in range(3)]:
            d = ctx.table[n]
            t = d['fields'][i]['t']
            x = v if t['k'] == 'enum' else [v, v]
            val = [i + 1, x] if d['kind'] == 'union' else [[x] if j == i else [g.value(fd['t'], 4)] if fd['req'] else [] for j, fd in enumerate(d['fields'])]
            wc.append({'kind': 'write', 'sinks': sinks(ctx, 1), 'jobs': [{'op': 'write', 't': n, 'v': val}]})
            rc.append(case(ctx, g.enc({'k': 'ref', 'n': n}, val), [{'op': 'read', 't': n}], some_srcs(ctx)))
        wc.append({'kind': 'write', 'sinks': sinks(ctx, 1), 'jobs': [{'op': 'write', 't': 'Vec<Color>', 'v': [v, vals[k - 1]]}]})
        rc.append(case(ctx, [0x25] + g.signed(v) + g.signed(vals[k - 1]), [{'op': 'read', 't': 'Vec<Color>'}], some_srcs(ctx)))
    check_reads(ctx, 'recorded reads of enum values', rc)
    ctx.trace('WriteTrace', 'WriteTrace', write_recs(ctx, wc), 'recorded writes of enum values')


# --------------------------------------------------------------------- C15 --
TEXTS = ['String', 'Box<str>', 'Rc<str>', 'Arc<str>', 'Rc<String>']


def c15(ctx):
    g = ctx.gen.canonical()
    edge = [0, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xff]
    jobs = [{'job': {'op': 'read', 't': 'String'}, 'pre': [n], 'a': [[b] for b in (edge if n < 3 else [0x41, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc2, 0xe0, 0xed, 0xef, 0xf0, 0xf4])], 'max': 1 + n} for n in (1, 2, 3) + ((4,) if ctx.scale > 1 else ())]
    terms = explore(ctx, 'byte strings', jobs)
    oks = [t for t in terms if not t['closed']]
    ctx.model('TextLaws')
    for n in TEXTS: replay(ctx, 'explored byte strings as ' + n, [dict(j, job={'op': 'read', 't': n}) for j in jobs], oks, tails=1)
    cases = []

    def add(b):
        p = g.varint(len(b)) + list(b)
        n = TEXTS[len(cases) % len(TEXTS)]
        cases.append(case(ctx, p + [0x80], [{'op': 'read', 't': n}], some_srcs(ctx)))
        return p
    for a in range(256): add([a])
    for a in range(0x7f, 256):
        for b in range(256):
            if ctx.scale > 1 or b in edge or (a * 7 + b * 13) % 23 == ctx.seed % 23: add([a, b])
    for a in edge:
        for b in edge:
            for c in edge:
                if ctx.scale > 1 or a >= 0xe0: add([a, b, c])
    cont = [0x7f, 0x80, 0x8f, 0x90, 0xbf, 0xc0]
    for a in (0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5):
        for b in cont + [0x9f, 0xa0]:
            for c in cont:
                for d in cont: add([a, b, c, d])
    for i in range(400 * ctx.scale):       # longer texts, damaged at some place
        s = ''.join(chr(ctx.r.choice([ctx.r.randint(0, 127), ctx.r.randint(0x80, 0x7ff), ctx.r.randint(0x800, 0xd7ff), ctx.r.randint(0xe000, 0xffff), ctx.r.randint(0x10000, 0x10ffff)])) for _ in range(ctx.r.choice([1, 3, 8, 20, 40])))
        b = list(s.encode())
        if i % 3 == 0: b = [65] * ctx.r.choice([7, 8, 15, 16, 31]) + b
        q = ctx.r.random()
        if q < .6: b[ctx.r.randrange(len(b))] = ctx.r.choice(edge)
        elif q < .7: b = b[:-1]
        elif q < .75: b = b[1:]
        add(b)
    # long texts: characters across every place where a reader may cut its input into pieces
    for B in [1 << k for k in range(4, 17)] + [24, 100, 1000, 5000, 10000]:
        for ch in ('\u00e9', '\u20ac', '\U0001f600'):
            for back in range(1, len(ch.encode())):
                if B > 20000 and (back > 1 or ctx.scale == 1 and ch != '\u20ac'): continue
                s = ('x' * (B - back) + ch + 'yz' + ch).encode()
                add(s)
                if B > 20000: continue
                bad = bytearray(s)
                if back % 2: bad[B - back] = 0x41
                else: bad = bad[:B]
                if B < 6000: add(bytes(bad))
    for ch in ('\u07ff', '\u0800', '\U00010000', 'a\u00e9', '\u20acb'):
        for n in (1400, 4097) if ctx.scale == 1 else (1400, 4097, 9000, 22000):
            s = (ch * n).encode()
            add(s)
            add(s[:-1])
            if n == 1400: add(s[:len(s) // 2] + b'\xff' + s[len(s) // 2:])
    for i in range(120 * ctx.scale):       # in fields, elements, variants, and skipped
        bad = ctx.r.choice([[0xff], [0xc3], [0xed, 0xa0, 0x80], [0xc0, 0x80], [0xf4, 0x90, 0x80, 0x80], [65, 0xe2, 0x82], [0x80], [0xc3, 0xa9], [65]])
        p = g.varint(len(bad)) + bad
        for n, b in (('Inner', [0x15, 2, 0x18] + p + [0]), ('Vec<String>', [0x28, 0] + p), ('Choice', [0x28] + p + [0]), ('Vec<Vec<u8>>', [0x28, 0] + p), ('Scalars', None), ('OptPtrs', g.header(ctx.r.choice([5, 6, 7, 8, 9, 17, 18]), 8, 0) + p + [0]),
                     ('OptScalars', [0x78] + p + [0]), ('OptScalars', [0x88] + p + [0]), ('Empty', [0x58] + p + [0]), ('Vec<Arc<str>>', [0x18] + p), ('Vec<Box<str>>', [0x18] + p), ('Option<String>', p), ('Choice', [8, 1] + p + [0]), ('Vec<u8>', p), ('Arc<Vec<u8>>', p)):
            if b is None: continue
            if i < 9 * len(bad) or i % 3 == 0: cases.append(case(ctx, b, [{'op': 'read', 't': n}], some_srcs(ctx)))
        cases.append(case(ctx, p, [{'op': 'skip', 'wt': 8}], some_srcs(ctx)))
        cases.append(case(ctx, [0x18] + p, [{'op': 'skip', 'wt': 9}], some_srcs(ctx)))
        cases.append(case(ctx, p, [{'op': 'tok', 't': ctx.r.choice(['string', 'binary'])}], some_srcs(ctx)))
    for j, b in buried(ctx, 'String', [[1, 0xff], [1, 0x80], [2, 0xc3, 65], [3, 0xed, 0xa0, 0x80], [2, 0xc0, 0x80], [4, 0xf4, 0x90, 0x80, 0x80], [2, 65, 0xc3], [1, 0xc3]], 40): cases.append(case(ctx, b, [j], some_srcs(ctx)))
    for j, b in buried(ctx, 'Inner', [[0x15, 2, 0x18, 1, 0xff, 0], [0x15, 2, 0x18, 2, 0xe2, 0x82, 0], [0x15, 2, 0x48, 1, 0xff, 0]], 12): cases.append(case(ctx, b, [j], some_srcs(ctx)))
    for j, b in buried(ctx, 'Choice', [[0x28, 1, 0xff, 0], [0xc8, 1, 0xff, 0], [0x28, 2, 65, 0x80, 0], [8, 1, 1, 0xff, 0]], 12): cases.append(case(ctx, b, [j], some_srcs(ctx)))
    for b in range(256): cases.append(case(ctx, [3, b, 255 - b, b], [{'op': 'read', 't': 'Vec<u8>'}], some_srcs(ctx)))
    check_reads(ctx, 'recorded reads of text and binary', cases)
    # borrowed text: same verdicts
    pairs, cc = [], []
    for c in cases[::3]:
        if c['jobs'][0].get('t') not in TEXTS: continue
        for s in ('slice', 'read'):
            cc.append(dict(c, srcs=[s], jobs=[{'op': 'cow', 't': 'str'}])); cc.append(dict(c, srcs=[s], jobs=[{'op': 'read', 't': 'String'}]))
    res = ctx.execute(cc)
    cols = []
    for i in range(0, len(cc), 2):
        a, b = normal(res[i], cc[i])[0][1], normal(res[i + 1], cc[i + 1])[0][1]
        if a[0]['r'] == 'ok': a = [dict(a[0], v=a[0]['v'][0])]
        cols.append(([b, a], cc[i]))
    agree(ctx, 'borrowed and owned text', cols)


# --------------------------------------------------------------------- C16 --
WRAPS = [('i32', 'Box<i32>'), ('bool', 'Box<bool>'), ('bool', 'Rc<bool>'), ('bool', 'Arc<bool>'), ('Inner', 'Rc<Inner>'), ('Inner', 'Arc<Inner>'), ('Inner', 'Box<Inner>'), ('Choice', 'Arc<Choice>'),
         ('Vec<Inner>', 'Vec<Rc<Inner>>'), ('Vec<bool>', 'Vec<Box<bool>>'), ('Vec<String>', 'Vec<Arc<str>>'), ('Vec<String>', 'Vec<Rc<str>>'), ('Vec<String>', 'Vec<Box<str>>'), ('Vec<i64>', 'Vec<Box<i64>>'),
         ('Option<bool>', 'Option<Box<bool>>'), ('Option<Inner>', 'Option<Rc<Inner>>'), ('Option<String>', 'Option<Arc<str>>'), ('Vec<i32>', 'Rc<Vec<i32>>'), ('Vec<u8>', 'Arc<Vec<u8>>'), ('Option<i32>', 'Box<Option<i32>>'),
         ('String', 'Rc<String>'), ('i64', 'Arc<i64>'), ('f64', 'Box<f64>'), ('i8', 'Rc<i8>'), ('i16', 'Box<i16>'), ('Vec<Inner>', 'Box<Vec<Inner>>'), ('Node', 'Box<Node>'), ('String', 'Box<str>'), ('String', 'Rc<str>'), ('String', 'Arc<str>'),
         ('Plain', 'Ptrs'), ('OptPlain', 'OptPtrs'), ('PlainUnion', 'PtrUnion')]


TEXT_ENDS = ['', '\0', ' ', '\n', '\r\n', '"', '\ufeff', '\u00a0', '\u00e9', '\u4e2d', '\U0001f980', '\x7f', 'A']


def c16(ctx):
    g = ctx.gen
    wc, wmeta, rc = [], [], []
    ren = lambda o: dict(o, e=o['e'].replace('OptPtrs', 'OptPlain').replace('PtrUnion', 'PlainUnion').replace('Ptrs', 'Plain')) if o['r'] == 'err' else o
    for plain, wrapped in WRAPS:
        t = ctx.tla(plain)
        n = (40 if plain in ('Plain', 'OptPlain', 'PlainUnion') else 14) * ctx.scale
        for i in range(n):
            g.canonical()
            v = g.value(t)
            if i % 4 == 3:
                id, last = ctx.r.randint(-40, 40), ctx.r.choice([0, 0, 5, -3])
                js = [{'op': 'wfield', 't': x, 'v': v, 'id': id, 'last': last} for x in (plain, wrapped)]
            else: js = [{'op': 'write', 't': x, 'v': v} for x in (plain, wrapped)]
            for j in js: wc.append({'kind': 'write', 'sinks': sinks(ctx, 2), 'jobs': [j]})
            if i % 2: g.free(.3)
            g.need_some = True
            b = g.enc(t, small(ctx, t, 600)[0])
            g.need_some = False
            q = i % 5
            if q == 2: b = g.mutate(b)
            elif q == 3: b = b[:ctx.r.randint(0, len(b))]
            elif q == 4: b = b + [ctx.r.randint(0, 255) for _ in range(20)]
            srcs = ['slice', ALL[1 + i % 4]]
            prior = g.value(t, 3)
            jl = [{'op': 'read'}]
            if i % 3 == 0: jl.append({'op': 'fill', 'prior': prior})
            for wt in ([g.code(t), ctx.r.choice([1, 2, ctx.r.randint(0, 15)])] if i % 2 else [1, 2]): jl.append({'op': 'ffield', 'wt': wt, 'prior': prior})
            for j in jl:
                for x in (plain, wrapped): rc.append(case(ctx, b, [dict(j, t=x)], srcs))
    g.canonical()
    # texts, binaries and lists of many lengths, with the ends that a copy may treat specially
    for plain, wrapped in WRAPS:
        if plain not in ('String', 'Vec<String>', 'Option<String>', 'Vec<u8>', 'Vec<i32>'): continue
        t = ctx.tla(plain)
        for n in [0, 1, 2, 15, 16, 17, 22, 23, 24, 31, 32, 33, 63, 64, 65, 70, 127, 128, 129, 255, 256, 300, 1023, 1025, 4095, 4097]:
            ends = [(a, z) for a in TEXT_ENDS for z in TEXT_ENDS]
            for a, z in ctx.r.sample(ends, 3 * ctx.scale) + [('', '\0')]:
                x = (a + 'm' * max(0, n - len(a.encode()) - len(z.encode())) + z).encode()
                if plain == 'String': v = list(x)
                elif plain == 'Vec<String>': v = [list(x), []]
                elif plain == 'Option<String>': v = [list(x)]
                else: v = (list(x) if plain == 'Vec<u8>' else [limbs(ctx.r.choice([0, 0, 1, -1, 64]), 2) for _ in range(min(n, 300))] + [limbs(0, 2)])
                b = g.enc(t, v) + [0] * ctx.r.choice([0, 3])
                s = ['slice', ALL[1 + len(rc) // 2 % 4], 'read']
                for x in (plain, wrapped):
                    rc.append(case(ctx, b, [dict(ctx_job, t=x) for ctx_job in ([{'op': 'read'}] if n % 2 else [{'op': 'fill', 'prior': ctx.default(t)}])], s))
                    wc.append({'kind': 'write', 'sinks': sinks(ctx, 2), 'jobs': [{'op': 'write', 't': x, 'v': v}]})
    for wt in range(16):      # every announced type, every wrapper
        for plain, wrapped in WRAPS:
            t = ctx.tla(plain)
            v = ctx.default(t)
            for x in (plain, wrapped): rc.append(case(ctx, [2, 2, 0, 0, 0, 0, 0, 0, 0, 0], [{'op': 'ffield', 't': x, 'wt': wt, 'prior': v}], ['slice']))
    res = ctx.execute(rc)
    cols = []
    for i in range(0, len(rc), 2):
        x, y = normal(res[i], rc[i]), normal(res[i + 1], rc[i + 1])
        for (s, a), (_, b) in zip(x, y):
            cols.append(([[ren(o) for o in a], [ren(o) for o in b]], dict(rc[i + 1], srcs=[s])))
    agree(ctx, 'decoding wrapped and plain types', cols)
    res = ctx.execute(wc)
    cols = []
    for i in range(0, len(wc), 2):
        for x, y in zip(*[r if not isinstance(r, dict) else [['dead', {'out': '', 'obs': [{'r': 'err', 'e': r['dead']}]}]] for r in (res[i], res[i + 1])]):
            cols.append(([[dict(o, v=[x[1]['out'], o['v']]) if o['r'] == 'ok' else dict(o) for o in x[1]['obs']],
                          [dict(o, v=[y[1]['out'], o['v']]) if o['r'] == 'ok' else dict(o) for o in y[1]['obs']]], wc[i + 1]))
    agree(ctx, 'encoding wrapped and plain types', cols)
    # the wrapped types against the machines (fields and elements of structs)
    cases = []
    for n in ('Ptrs', 'OptPtrs', 'PtrUnion'):
        for i in range(60 * ctx.scale):
            g.canonical()
            if i % 2: g.free(.3)
            cases.append(case(ctx, g.enc(ctx.tla(n), g.value(ctx.tla(n))), [{'op': 'read', 't': n}], some_srcs(ctx)))
    g.canonical()
    check_reads(ctx, 'recorded decodings of pointer fields', cases)
    ctx.trace('WriteTrace', 'WriteTrace', write_recs(ctx, write_cases(ctx, ['Ptrs', 'OptPtrs', 'PtrUnion'], 60 * ctx.scale)), 'recorded encodings of pointer fields')
    # borrowing
    cc, meta = [], []
    for i in range(250 * ctx.scale):
        kind, n = ctx.r.choice([('str', 'String'), ('bytes', 'Vec<u8>'), ('liststr', 'Vec<String>'), ('listbytes', 'Vec<Vec<u8>>')])
        t = ctx.tla(n)
        b = g.enc(t, g.value(t))
        if i % 5 == 0: b = g.mutate(b)
        if i % 7 == 0: b = b[:ctx.r.randint(0, len(b))]
        for s in ('slice', 'read', 'chunk:%d' % i, 'min'):
            cc.append(case(ctx, b + [9] * ctx.r.choice([0, 20]), [{'op': 'cow', 't': kind}], [s])); meta.append((kind, s))
            cc.append(dict(cc[-1], jobs=[{'op': 'read', 't': n}])); meta.append(None)
    res = ctx.execute(cc)
    cols = []
    for i in range(0, len(cc), 2):
        a, b = normal(res[i], cc[i])[0][1], normal(res[i + 1], cc[i + 1])[0][1]
        kind, s = meta[i]
        flag = 1 if s == 'slice' else 0      # 1: borrowed from within the input, 0: owned
        if b[0]['r'] == 'ok':
            b = [dict(b[0], v=[[x, flag] for x in b[0]['v']] if kind.startswith('list') else [b[0]['v'], flag])]
        cols.append(([b, a], cc[i]))
    agree(ctx, 'borrowed data refers to the input, data from streams is owned', cols)
    wc = []
    for i in range(60 * ctx.scale):
        k = ctx.r.choice(['str', 'bytes'])
        v = g.value({'k': 'string'})
        wc.append({'kind': 'write', 'sinks': sinks(ctx, 2), 'jobs': [{'op': 'wcow', 't': k, 'v': v}]})
    recs = write_recs_cow(ctx, wc)
    ctx.trace('WriteTrace', 'WriteTrace', recs, 'recorded encodings of borrowed data')


def write_recs_cow(ctx, wc):
    res = ctx.execute(wc)
    plain = [dict(c, jobs=[{'op': 'write', 't': 'String', 'v': c['jobs'][0]['v']}]) for c in wc]
    return write_recs(ctx, plain, res)


# --------------------------------------------------------------------- C17 --
KINDS = 'AddrInUse AddrNotAvailable AlreadyExists ArgumentListTooLong BrokenPipe ConnectionAborted ConnectionRefused ConnectionReset Deadlock DirectoryNotEmpty ExecutableFileBusy FileTooLarge HostUnreachable InvalidData InvalidInput IsADirectory NetworkDown NetworkUnreachable NotADirectory NotConnected NotFound NotSeekable Other OutOfMemory PermissionDenied QuotaExceeded ReadOnlyFilesystem ResourceBusy StaleNetworkFileHandle StorageFull TimedOut TooManyLinks UnexpectedEof Unsupported WouldBlock WriteZero Uncategorized'.split()


def c17(ctx):
    g = ctx.gen
    names = types_for(ctx)
    cases = []
    jobs = [{'job': {'op': 'read', 't': 'Inner'}, 'a': [[0], [0x15, 2], [5], [2], [0x18], [1], [66], [0x80], [0x7c]], 'max': 5 + (ctx.scale > 1)},
            {'job': {'op': 'skip', 'wt': 12}, 'a': [[b] for b in (0, 0x13, 0x15, 0x17, 0x18, 0x19, 0x1b, 0x1c, 0x83)], 'max': 4 + (ctx.scale > 1)}]
    terms = explore(ctx, 'the source failing at any moment', jobs)
    fcases, exp = [], []
    for i, t in enumerate(t for t in terms if t['closed']):
        k = KINDS[i % len(KINDS)]
        fcases.append(case(ctx, t['b'], [jobs[t['j'] - 1]['job']], ['read', 'chunk:%d', 'min'], fault=k))
        exp.append(dict(t, v=[x if x != EOF else 'IO:' + k for x in t['v']]))
    compare(ctx, 'source failures at every explored moment', fcases, exp, expected)
    ctx.traces += len(fcases)
    for n in names:
        t = ctx.tla(n)
        for i in range(2 * ctx.scale):
            g.canonical()
            if i % 2: g.free(.3)
            g.need_some = True
            b = g.enc(t, small(ctx, t, 80)[0])
            g.need_some = False
            cuts = list(range(len(b) + 1)) if len(b) < 30 * ctx.scale else sorted(ctx.r.sample(range(len(b)), 30 * ctx.scale))
            for k in cuts:
                cases.append(case(ctx, b[:k], [{'op': 'read', 't': n}], [ctx.r.choice(['read', 'chunk:%d', 'min'])], fault=ctx.r.choice(KINDS)))
                if k % 3 == 0 and t['k'] not in ('bool', 'opt'): cases.append(case(ctx, b[:k], [{'op': 'skip', 'wt': g.code(t)}], [ctx.r.choice(['read', 'chunk:%d', 'min'])], fault=ctx.r.choice(KINDS)))
    for wt in CODES:
        for i in range(10 * ctx.scale):
            b = g.junk(wt)
            for k in sorted({ctx.r.randint(0, len(b)) for _ in range(8)}):
                cases.append(case(ctx, b[:k], [{'op': 'skip', 'wt': wt}], ['read', 'chunk:%d'], fault=ctx.r.choice(KINDS)))
    for t in ('byte', 'len', 'i16', 'i32', 'i64', 'double', 'binary', 'string', 'skipint', 'skipbin', 'list', 'map', 'header'):
        for k in KINDS:
            cases.append(case(ctx, [], [{'op': 'tok', 't': t, 'last': 0}], ['read', 'chunk:%d'], fault=k))
            if t != 'byte': cases.append(case(ctx, [0xf5 if t == 'list' else 5 if t in ('header', 'map', 'binary', 'string', 'skipbin') else 0x85], [{'op': 'tok', 't': t, 'last': 0}], ['read', 'chunk:%d'], fault=k))
    for kind, bads in (('Inner', [[0x15, 2], [0x15], [0x15, 0x82], [0x18, 3, 65], []]), ('Choice', [[0x15, 2], [0x28, 2, 65], []]), ('String', [[2, 65], [0x80], []]), ('i64', [[0xff, 0xff], []]), ('list', [[0x25, 2], []])):
        for j, b in buried(ctx, kind, bads, 4, ('read', 'read', 'skip'), True): cases.append(case(ctx, b, [j], [ctx.r.choice(['read', 'chunk:%d', 'min'])], fault=ctx.r.choice(KINDS)))
    for n in (1000, 20000):      # failing inside of large payloads
        for at in (0, 1, n // 2, n - 1):
            for j in ({'op': 'tok', 't': 'binary'}, {'op': 'tok', 't': 'string'}, {'op': 'skip', 'wt': 8}):
                c = case(ctx, g.varint(n) + [65] * at, [j], ['read', 'chunk:%d'], fault=ctx.r.choice(KINDS))
                cases.append(c)
    g.canonical()
    check_reads(ctx, 'recorded decodings from failing sources', cases)
    source_dialogues(ctx, 60 * ctx.scale)
    sink_dialogues(ctx, 80 * ctx.scale)
    cases = []
    for n in names:
        t = ctx.tla(n)
        for i in range(2 * ctx.scale):
            g.need_some = True
            v, b = small(ctx, t, 80)
            g.need_some = False
            cuts = list(range(len(b) + 1)) if len(b) < 30 * ctx.scale else sorted(ctx.r.sample(range(len(b)), 30 * ctx.scale))
            ss = [{'name': 's%d' % k, 'budget': k, 'err': ctx.r.choice(KINDS)} for k in cuts]
            for s in ss:
                if ctx.r.random() < .5: s['rng'] = ctx.r.randint(1, 10 ** 9)
                if ctx.r.random() < .1: del s['err']     # accepts nothing more: WriteZero
            ss.append({'name': 'short', 'rng': ctx.r.randint(1, 10 ** 9)})
            ss.append({'name': 'all'})
            cases.append({'kind': 'write', 'sinks': ss, 'jobs': [{'op': 'write', 't': n, 'v': v}] if i % 2 == 0 else [{'op': 'wfield', 't': n, 'v': v, 'id': ctx.r.choice([1, 15, 16, -1, 300]), 'last': 0}]})
    for n in (300, 5000):
        ss = [{'name': 's%d' % k, 'budget': k, 'err': ctx.r.choice(KINDS), 'rng': 5 + k} for k in (0, 1, 2, 3, 100, n - 1, n, n + 1, n + 2)]
        cases.append({'kind': 'write', 'sinks': ss, 'jobs': [{'op': 'write', 't': 'Vec<u8>', 'v': [i % 256 for i in range(n)]}]})
    # several values in a row: nothing is written after the failure
    for i in range(40 * ctx.scale):
        jobs = []
        for _ in range(3):
            n = ctx.r.choice(names)
            g.need_some = True
            jobs.append({'op': 'write', 't': n, 'v': small(ctx, ctx.tla(n), 40)[0]})
            g.need_some = False
        cases.append({'kind': 'write', 'sinks': [{'name': 's%d' % k, 'budget': k, 'err': ctx.r.choice(KINDS)} for k in sorted({ctx.r.randint(0, 100) for _ in range(10)})] + [{'name': 'short', 'rng': i + 1}], 'jobs': jobs})
    ctx.trace('WriteTrace', 'WriteTrace', write_recs(ctx, cases), 'recorded encodings into failing sinks')


# --------------------------------------------------------------------- C18 --
def c18(ctx):
    g = ctx.gen.canonical()
    jobs = [{'job': {'op': 'read', 't': 'EncodingSet'}, 'a': [[0x05]] + [[0x10 * n + 5] for n in (1, 2, 3)] + [[b] for b in (0, 6, 1, 60, 61, 62, 64, 0x80, 2)], 'max': 4 + (ctx.scale > 1)},
            {'job': {'op': 'read', 't': 'Vec<EncodingSet>'}, 'pre': [0x29], 'a': [[5], [0x15, 4], [0x25, 60, 4], [0x15, 62], [0x35, 6, 6, 6], [0x15, 1], [0x13, 1]], 'max': 9}]
    terms = explore(ctx, 'lists of encodings', jobs)
    replay(ctx, 'explored lists of encodings', jobs, terms)
    vals = pipe_values(ctx, ['EncodingSet', 'Option<EncodingSet>', 'Vec<EncodingSet>'])
    replay_writes(ctx, 'bytes of every explored set', vals)
    rc, wc = [], []

    def lst(xs): return [0x10 * len(xs) + 5] + [b for x in xs for b in g.signed(limbs(x, 2))] if len(xs) < 15 else [0xf5] + g.varint(len(xs)) + [b for x in xs for b in g.signed(limbs(x, 2))]
    sets = [list(range(a, b)) for a in range(0, 31) for b in range(a, 32) if (a + b) % 3 == ctx.seed % 3 or b - a > 28]
    sets += [[i] for i in range(31)] + [sorted(ctx.r.sample(range(31), ctx.r.randint(0, 31))) for _ in range(300 * ctx.scale)]
    for s in sets:
        xs = list(s)
        ctx.r.shuffle(xs)
        if xs and ctx.r.random() < .5: xs += [ctx.r.choice(xs) for _ in range(ctx.r.choice([1, 3, 20]))]
        rc.append(case(ctx, lst(xs) + [9], [{'op': 'read', 't': 'EncodingSet'}], some_srcs(ctx)))
        rc.append(case(ctx, lst(s), [{'op': 'read', 't': 'EncodingSet'}], ['slice']))
        wc.append({'kind': 'write', 'sinks': sinks(ctx, 1), 'jobs': [{'op': 'write', 't': 'EncodingSet', 'v': s}]})
        for bad in [ctx.r.choice([31, 32, 33, 63, 64, 65, 96, -1, -2, -31, -32, -33, 255, 256, 1 << 16, 1 << 30, (1 << 31) - 1, -(1 << 31), (1 << 31) - 32, 32 + 3])]:
            ys = list(xs)
            ys.insert(ctx.r.randint(0, len(ys)), bad)
            rc.append(case(ctx, lst(ys), [{'op': 'read', 't': 'EncodingSet'}], some_srcs(ctx)))
        rc.append(case(ctx, lst(xs), [{'op': 'fill', 't': 'EncodingSet', 'prior': ctx.r.choice(sets)}], ['slice']))
    for n in (15, 16, 31, 32, 33, 64, 100, 127, 128, 129, 200, 255, 256, 257, 500, 1000):     # long lists of few
        for k in (1, 2, 5, 16):
            some = ctx.r.sample(range(31), k)
            xs = [some[0]] * n if k == 1 else [ctx.r.choice(some[1:]) for _ in range(n)]
            for last in ([xs[-1]], [some[0]], [31], [-1]):
                rc.append(case(ctx, lst(xs[:-1] + last), [{'op': 'read', 't': 'EncodingSet'}], some_srcs(ctx)))
    for e in list(range(-40, 70)) + [x * 32 + y for x in (2, 3, 4, 8, 1 << 20, -1, -2) for y in (0, 1, 30, 31)]:
        rc.append(case(ctx, lst([e]), [{'op': 'read', 't': 'EncodingSet'}], some_srcs(ctx)))
        rc.append(case(ctx, lst([3, e, 8]), [{'op': 'read', 't': 'EncodingSet'}], some_srcs(ctx)))
    for wt in range(16):
        rc.append(case(ctx, [0x20 | wt, 0, 6], [{'op': 'read', 't': 'EncodingSet'}], some_srcs(ctx)))
        rc.append(case(ctx, [wt], [{'op': 'read', 't': 'EncodingSet'}], some_srcs(ctx)))
        rc.append(case(ctx, [0x25, 0, 6], [{'op': 'ffield', 't': 'EncodingSet', 'wt': wt, 'prior': [1]}], some_srcs(ctx)))
    for n in ('ColumnMetaData',):      # in its field
        for _ in range(60 * ctx.scale):
            g.free(.3)
            v = g.value(ctx.tla(n))
            rc.append(case(ctx, g.enc(ctx.tla(n), v), [{'op': 'read', 't': n}], some_srcs(ctx)))
            g.canonical()
            wc.append({'kind': 'write', 'sinks': sinks(ctx, 1), 'jobs': [{'op': 'write', 't': n, 'v': v}]})
    for j, b in buried(ctx, 'set', [[0x15, 62], [0x15, 1], [0x25, 6, 64], [0x15, 0x80, 1], [0xf5, 0], [0x15, 60], [0x35, 6, 6, 6], [0xf5, 3, 8, 10, 60]], 40): rc.append(case(ctx, b, [j], some_srcs(ctx)))
    for cut in range(0, 20):
        rc.append(case(ctx, lst(list(range(18)))[:cut], [{'op': 'read', 't': 'EncodingSet'}], some_srcs(ctx)))
    g.canonical()
    check_reads(ctx, 'recorded reads of encoding sets', rc)
    ctx.trace('WriteTrace', 'WriteTrace', write_recs(ctx, wc), 'recorded writes of encoding sets')


# --------------------------------------------------------------------- C24 --
def c24(ctx):
    g = ctx.gen
    names = types_for(ctx)
    sessions(ctx)
    streams(ctx)
    # written one after another, received in the same order by reads and skips
    wcases, plan = [], []
    for i in range(350 * ctx.scale):
        jobs = []
        for _ in range(ctx.r.randint(2, 6)):
            n = ctx.r.choice(names)
            g.canonical()
            g.need_some = True
            jobs.append({'op': 'write', 't': n, 'v': small(ctx, ctx.tla(n), 200)[0]})
            g.need_some = False
        wcases.append({'kind': 'write', 'sinks': [ctx.r.choice([{'name': 'write'}, {'name': 'short', 'rng': i + 1}, {'name': 'vec', 'vec': True}])], 'jobs': jobs})
    rcases = []
    wres = ctx.execute(wcases)
    for c, r in zip(wcases, wres):
        jobs = []
        for j in c['jobs']:
            t = ctx.tla(j['t'])
            q = ctx.r.random()
            if q < .3 and t['k'] not in ('bool', 'opt'): jobs.append({'op': 'skip', 'wt': g.code(t)})
            elif q < .45 and t['k'] in ('list', 'encset'): jobs.append({'op': 'fill', 't': j['t'], 'prior': g.value(t)})
            else: jobs.append({'op': 'read', 't': j['t']})
        b = [] if isinstance(r, dict) else list(bytes.fromhex(r[0][1]['out']))
        rcases.append(case(ctx, b + [ctx.r.randint(0, 255) for _ in range(ctx.r.choice([0, 20]))], jobs, ['slice', 'read', 'chunk:%d', 'min']))
    # each operation alone, to know what it gives alone
    alone = []
    for c in wcases:
        for j in c['jobs']: alone.append({'kind': 'write', 'sinks': [{'name': 'vec', 'vec': True}], 'jobs': [j]})
    ares = iter(ctx.execute(alone))
    rres = ctx.execute(rcases)
    recs = []
    for c, r, rc, rr in zip(wcases, wres, rcases, rres):
        ev = []
        pos = 0
        obs = r[0][1]['obs'] if not isinstance(r, dict) else []
        good = True
        for k, j in enumerate(c['jobs']):
            a = next(ares)
            n = len(a[0][1]['out']) // 2 if not isinstance(a, dict) else 0
            if isinstance(a, dict) or a[0][1]['obs'][0]['r'] != 'ok': good = False      # not written even alone
            ev.append({'op': 'w', 'v': json.dumps(j['v']), 'n': n})
            if good and not (k < len(obs) and obs[k]['r'] == 'ok' and obs[k]['p'] == pos + n):
                ev.append({'op': 'r', 'ok': False, 'v': 'written differently after other values', 'p': 0})
            pos += n
        if not good: continue
        seen = set()
        for s, ob in normal(rr, rc):
            e2 = []
            for k, j in enumerate(rc['jobs']):
                o = ob[k] if k < len(ob) else {'r': 'err', 'e': 'missing'}
                e2.append({'op': 's' if j['op'] == 'skip' else 'r', 'ok': o['r'] == 'ok', 'v': json.dumps(o['v']) if o['r'] == 'ok' else o['e'], 'p': o.get('p', 0)})
            if json.dumps(e2) in seen: continue
            seen.add(json.dumps(e2))
            recs.append(({'ev': ev + e2}, dict(rc, srcs=[s], writes=c['jobs'])))
    # a value that cannot be read back even alone is another property's concern
    recs = drop_unreadable(ctx, recs)
    ctx.trace('ChannelTrace', 'ChannelTrace', recs, 'sessions of writes, reads and skips', size=20000)
    # arbitrary inputs: a session is its operations alone, one after the other
    sess = []
    for i in range(500 * ctx.scale):
        parts, jobs = [], []
        for _ in range(ctx.r.randint(2, 6)):
            g.canonical()
            if ctx.r.random() < .6: g.free(.3)
            if ctx.r.random() < .25:
                wt = ctx.r.choice(CODES)
                parts.append(g.junk(wt)); jobs.append({'op': 'skip', 'wt': wt})
            elif ctx.r.random() < .2:
                t = ctx.r.choice(['i16', 'i32', 'i64', 'string', 'binary', 'double'])
                parts.append(g.enc({'k': t}, g.value({'k': t}))); jobs.append({'op': 'tok', 't': t})
            else:
                n = ctx.r.choice(names)
                g.need_some = True
                b = g.enc(ctx.tla(n), small(ctx, ctx.tla(n), 200)[0])
                g.need_some = False
                if ctx.r.random() < .08: b = g.mutate(b)
                parts.append(b); jobs.append({'op': 'read', 't': n})
        sess.append((parts, jobs))
    g.canonical()
    cases = [case(ctx, [x for p in parts for x in p], jobs, ['slice', 'read', 'chunk:%d']) for parts, jobs in sess]
    res = ctx.execute(cases)
    ac, where = [], []
    for i, (c, r) in enumerate(zip(cases, res)):
        b = list(bytes.fromhex(c['hex']))
        for s, obs in normal(r, c):
            pos = 0
            for k, o in enumerate(obs):
                ac.append(case(ctx, b[pos:], [c['jobs'][k]], [s]))
                where.append((i, s, k, pos))
                if o['r'] != 'ok': break
                pos = o['p']
    got = {}
    for (i, s, k, pos), c, r in zip(where, ac, ctx.execute(ac)):
        o = normal(r, c)[0][1][0]
        got.setdefault((i, s), []).append(dict(o, p=o['p'] + pos) if o['r'] == 'ok' else o)
    cols = []
    for i, (c, r) in enumerate(zip(cases, res)):
        for s, obs in normal(r, c): cols.append(([got[i, s], obs], dict(c, srcs=[s])))
    agree(ctx, 'operations in a session and alone', cols)
    # and the machine on such sessions
    ctx.stages.append({'note': 'sessions are also validated against Reader by C03/C05/C11'})
    # nothing beyond the value is consumed: a source that fails right behind it is not noticed
    cases = []
    for n in names:
        t = ctx.tla(n)
        for _ in range(4 * ctx.scale):
            g.need_some = True
            b = g.enc(t, small(ctx, t, 300)[0])
            g.need_some = False
            j = {'op': 'read', 't': n} if t['k'] in ('bool', 'opt') or ctx.r.random() < .7 else {'op': 'skip', 'wt': g.code(t)}
            cases.append(case(ctx, b, [j], ['read', 'chunk:%d'], fault='BrokenPipe'))
    res = ctx.execute(cases)
    plain = [dict(c, srcs=['slice', 'slice']) for c in cases]
    for c in plain: c.pop('fault', None)
    pres = ctx.execute(plain)
    agree(ctx, 'nothing behind the value is requested', [([o for _, o in normal(pr, pc)] + [o for _, o in normal(r, c)], c) for c, r, pc, pr in zip(cases, res, plain, pres)])


def drop_unreadable(ctx, recs):
    cache = {}
    out, ask = [], {}
    for s, o in recs:
        for j in o['writes']: ask.setdefault(json.dumps([j['t'], j['v']]), j)
    keys = list(ask)
    w = ctx.execute([{'kind': 'write', 'sinks': [{'name': 'vec', 'vec': True}], 'jobs': [ask[k]]} for k in keys])
    rc = [case(ctx, bytes.fromhex(x[0][1]['out']) if not isinstance(x, dict) else b'', [{'op': 'read', 't': ask[k]['t']}], ['slice', 'read']) for k, x in zip(keys, w)]
    for k, c, r in zip(keys, rc, ctx.execute(rc)):
        cache[k] = all(o[0]['r'] == 'ok' and o[0]['v'] == ask[k]['v'] and o[0]['p'] == len(c['hex']) // 2 for _, o in normal(r, c))
    for s, o in recs:
        if all(cache[json.dumps([j['t'], j['v']])] for j in o['writes']): out.append((s, o))
    return out


# --------------------------------------------------------------------- C27 --
def c27(ctx):
    """construction, defaults, comparison, copies"""
    g, r = ctx.gen, ctx.r
    names = ctx.testtypes + ctx.t.bare + ctx.pqtypes
    names = [n for n in names if not (n in ctx.t.defs and ctx.t.defs[n]['kind'] == 'enum')] + ['Color', 'Type', 'Encoding']
    # pairs of the explored domain
    small = [n for n in ctx.testtypes + ctx.t.bare if not (n in ctx.t.defs and ctx.t.defs[n]['kind'] == 'enum')]
    f = ctx.path('values.ndjson')
    write(f, ''.join(json.dumps({'t': ctx.tla(n), 'rich': 1 if n in ctx.t.defs and ctx.scale == 1 else 2}) + '\n' for n in small))
    pairs = []
    ctx.model('ValuesMC', env={'CT_JOBS': f}, sink=pairs.append)
    r.shuffle(pairs)
    cases = [{'kind': 'values', 'op': 'equal', 't': small[p['j'] - 1], 'x': p['x'], 'y': p['y']} for p in pairs[:20000 * ctx.scale]]
    bad = 0
    for c, p, o in zip(cases, pairs, ctx.execute(cases)):
        if o.get('dead') == 'Unexecuted': continue
        if o.get('eq') != p['eq'] or o.get('copy') != p['x']:
            bad += 1
            if bad <= 3: ctx.violation('comparison of explored values', c, {'expected': p['eq'], 'observed': o})
    ctx.traces += len(cases)
    ctx.stages.append({'replayed': 'comparisons of explored values', 'executions': len(cases)})
    ctx.log('replay', len(cases), 'comparisons')
    cases = []
    for n in names:
        t = ctx.tla(n)
        cases.append({'kind': 'values', 'op': 'default', 't': n})
        struct = t['k'] == 'ref' and ctx.table[t['n']]['kind'] == 'struct'
        for i in range(6 * ctx.scale):
            x = g.value(t, i % 3)
            if struct: cases.append({'kind': 'values', 'op': 'new', 't': n, 'args': x})
            cases.append({'kind': 'values', 'op': 'equal', 't': n, 'x': x, 'y': x if i % 2 else g.value(t, i % 3)})
            if struct and x:       # differing in one place
                fs = ctx.table[t['n']]['fields']
                for k in range(len(x)) if i < 2 else [r.randrange(len(x))]:
                    y = list(x)
                    y[k] = ([] if x[k] and r.random() < .4 else [g.value(fs[k]['t'], 2)]) if not fs[k]['req'] else [g.value(fs[k]['t'], 2)]
                    cases.append({'kind': 'values', 'op': 'equal', 't': n, 'x': x, 'y': y})
    # members of the same type and distinct values: every argument has its place
    for n in names:
        t = ctx.tla(n)
        if not (t['k'] == 'ref' and ctx.table[t['n']]['kind'] == 'struct'): continue
        fs = ctx.table[t['n']]['fields']
        args = []
        for i, fd in enumerate(fs):
            k = fd['t']['k']
            v = limbs(100 + i, {'i16': 1, 'i32': 2, 'enum': 2, 'i64': 4}[k]) if k in ('i16', 'i32', 'enum', 'i64') else 100 + i if k == 'i8' else [97 + i % 26] * (i + 1) if k in ('string', 'binary') else g.value(fd['t'], 2)
            args.append([v])
        cases.append({'kind': 'values', 'op': 'new', 't': n, 'args': args})
        cases.append({'kind': 'values', 'op': 'new', 't': n, 'args': [a if fd['req'] else [] for a, fd in zip(args, fs)]})
    # enums as numbers
    marks = sorted({x for k in range(32) for b in (1 << k,) for x in (b - 1, b, b + 1, -b, -b - 1, -b + 1) if -(1 << 31) <= x < 1 << 31})
    for n in [n for n in ctx.t.order if ctx.t.defs[n]['kind'] == 'enum']:
        for i in range(60 * ctx.scale):
            x = r.choice(marks) if i % 3 else r.randint(-(1 << 31), (1 << 31) - 1)
            y = x if i % 7 == 0 else r.choice(marks)
            cases.append({'kind': 'values', 'op': 'number', 't': n, 'x': limbs(x, 2), 'y': limbs(y, 2)})
    recs = []
    for c, o in zip(cases, ctx.execute(cases)):
        if o.get('dead') == 'Unexecuted' or o.get('v') == 'no constructor' : continue
        rec = dict({k: v for k, v in c.items() if k != 'kind'}, **o)
        rec['t'] = ctx.tla(c['t'])
        if 'dead' in o: rec.update({'of': o['dead'], 'into': [], 'cmp': 9, 'part': 9, 'hash': False, 'v': o['dead'], 'eq': False, 'ne': False, 'same': False, 'own': False, 'copy': o['dead']})
        recs.append((rec, c))
    ctx.trace('ValuesTrace', 'ValuesTrace', recs, 'constructed, default and compared values')


def c28(ctx):
    """memory: taken once, released once"""
    g, r = ctx.gen, ctx.r
    ctx.model('OwnerMC')
    cases = []
    srcs = ['slice', 'read', 'min', 'chunk:%d']
    n = 0
    def add(t, job, b=[], src=None, **kw):
        nonlocal n
        n += 1
        s = src or srcs[n % 4]
        cases.append(dict({'kind': 'ledger', 'job': dict({'t': t}, **job), 'src': s % n if '%' in s else s, 'hex': hx(b)}, **kw))
    for i, (name, b) in enumerate(anything(ctx, 4500 * ctx.scale)):
        add(name, {'op': 'read'}, b)
        if i % 4 == 0: add(name, {'op': 'again'}, b + b)
        if i % 5 == 0: add(name, {'op': 'skip', 'wt': r.choice([8, 9, 10, 11, 12])}, b)
    # errors at every point, faults at every point, over what was there before
    for i in range(60 * ctx.scale):
        name = r.choice(types_for(ctx))
        t = ctx.tla(name)
        g.canonical(); g.need_some = True
        v, b = small(ctx, t, 120)
        g.need_some = False
        for k in range(len(b) + 1):
            add(name, {'op': 'read'}, b[:k])
            if k % 2: add(name, {'op': 'read'}, b[:k], src=['read', 'min'][k // 2 % 2], fault=r.choice(['TimedOut', 'Other']))
            if k % 3 == 0: add(name, {'op': 'again'}, b + b[:k])
            m = list(b)
            if k < len(m):
                m[k] = r.choice([0, 0xff, 0x80, 0x11, 0x12, m[k] ^ 0x10, m[k] ^ 1, r.randint(0, 255)])
                add(name, {'op': 'read'}, m)
                if k % 4 == 0: add(name, {'op': 'fill', 'prior': g.value(t, 2)}, m)
    for kind, bads in ODD_ELEMENTS:
        for j, b in list(buried(ctx, kind, bads, 16)) + list(buried(ctx, kind, bads, 10, cut=True)):
            add(j['t'], {'op': 'read'}, b)
            if n % 4 == 0: add(j['t'], {'op': 'again'}, b + b)
            if n % 3 == 0: add(j['t'], {'op': 'read'}, b[:r.randint(0, len(b))], src=r.choice(['read', 'min']), fault=r.choice(['TimedOut', 'Other']))
    # the same field again
    for name in types_for(ctx, bare=False):
        t = ctx.tla(name)
        if t['k'] != 'ref' or not ctx.table[t['n']]['fields']: continue
        for i in range(2 * ctx.scale):
            g.canonical(); g.need_some = True
            (v, b), (_, w) = small(ctx, t, 400), small(ctx, t, 400)
            g.need_some = False
            if ctx.table[t['n']]['kind'] == 'struct':
                for f in ctx.table[t['n']]['fields']:
                    items = g.items(t['n'], [[g.value(x['t'], 3)] if x['req'] else [] for x in ctx.table[t['n']]['fields']])
                    items = [x for x in items if x[0] != f['id']] + [g.item(f, g.value(f['t'], 3)), g.item(f, g.value(f['t'], 3))]
                    add(name, {'op': 'read'}, g.assemble(items))
            add(name, {'op': 'fill', 'prior': g.value(t, 2)}, b)
            add(name, {'op': 'again'}, b + w)
            add(name, {'op': 'write', 'v': v}, budget=0)
            size = len(b)
            add(name, {'op': 'append', 'v': v})
            for k in {1, size // 2, size - 1, size}: add(name, {'op': 'write', 'v': v, 'budget': max(k, 0)})
    import pqprops
    cases += pqprops.memory_cases(ctx)
    recs = []
    for c, o in zip(cases, ctx.execute(cases)):
        if o.get('dead') == 'Unexecuted' or o.get('dead') == 'Setup' or o.get('r') in ('too much', 'Panic'): continue
        if 'dead' in o:
            recs.append(({'ev': [['release', 0, 0]]}, dict(c, died=o['dead'])))
        else: recs.append(({'ev': o['ev']}, dict(c, outcome=o['r'])))
    ctx.log(len(recs), 'of', len(cases), 'cases', sum(len(x['ev']) for x, _ in recs), 'events')
    ctx.trace('HeapTrace', 'HeapTrace', recs, 'use of memory')
