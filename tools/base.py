"""Case construction and the two directions of the binding."""
import json
from lib import Ctx, ToolError, EOF, write, shorten
from gen import limbs, unlimbs
ALL = ['slice', 'read', 'chunk:%d', 'min', 'slicer']


def hx(b): return bytes(b).hex()


def case(ctx, b, jobs, srcs=('slice',), fault=None, **kw):
    c = {'hex': hx(b), 'jobs': jobs, 'srcs': [s % ctx.r.randint(1, 10 ** 9) if '%' in s else s for s in srcs]}
    if fault: c['fault'] = fault
    c.update(kw)
    return c


def some_srcs(ctx):
    """the slice always, one of the others in turn"""
    ctx.turn = getattr(ctx, 'turn', 0) + 1
    return ('slice', ALL[1 + ctx.turn % 4])


def spec_job(ctx, j):
    o = j['op']
    if o == 'read': return {'op': 'read', 't': ctx.tla(j['t'])}
    if o in ('fill', 'fillrc', 'fillarc', 'fillweak') and 'wt' not in j:
        return {'op': 'fill', 't': ctx.tla(j['t']), 'prior': j['prior'], 'shared': o != 'fill'}
    if o in ('ffield', 'fillrc', 'fillarc'):
        t = ctx.tla(j['t'])
        return {'op': 'ffield', 't': t, 'wt': j['wt'], 'prior': j['prior'] if 'prior' in j else ctx.default(t), 'shared': o != 'ffield'}
    if o == 'skip': return {'op': 'skip', 'wt': j['wt']}
    if o == 'tok':
        t = j['t']
        if t in ('i16', 'i32', 'i64', 'double', 'binary', 'string'): return {'op': 'read', 't': {'k': t}}
        return {'op': 'tok', 'tok': t, 'last': j.get('last', 0)}
    raise ValueError(o)


def dead_obs(c, r):
    return [[s, [{'r': 'err', 'e': r['dead'], 'u': 0, 'pk': 0}]] for s in c['srcs']]


def normal(r, c):
    return dead_obs(c, r) if isinstance(r, dict) and 'dead' in r else r


def view(o):
    """an observation without what is not compared"""
    return {k: v for k, v in o.items() if k not in ('u', 'pk')}


def read_recs(ctx, cases, results=None, expand=None):
    """spec cases (with origin) for executed read cases; equal observations of several sources are merged"""
    if results is None: results = ctx.execute(cases)
    recs = []
    for c, r in zip(cases, results):
        if isinstance(r, dict) and r.get('dead') == 'Unexecuted': continue
        groups = {}
        for s, obs in normal(r, c):
            obs = [view(o) for o in obs]
            groups.setdefault(json.dumps(obs), (obs, []))[1].append(s)
        b = list(bytes.fromhex(c.get('hex', ''))) + [c.get('fill', 0)] * c.get('rep', 0) + list(bytes.fromhex(c.get('tail', '')))
        for obs, ss in groups.values():
            recs.append(({'b': b, 'eof': 'IO:' + c['fault'] if c.get('fault') else EOF,
                          'jobs': [spec_job(ctx, j) for j in c['jobs']], 'obs': obs}, dict(c, srcs=ss)))
    return recs


def check_reads(ctx, what, cases, cfg='ReadTrace'):
    recs = read_recs(ctx, cases)
    ctx.trace('ReadTrace', cfg, recs, what)
    return recs


def write_recs(ctx, cases, results=None):
    """cases: {'kind': 'write', 'jobs', 'sinks'}"""
    if results is None: results = ctx.execute(cases)
    recs = []
    for c, r in zip(cases, results):
        if isinstance(r, dict):
            if r['dead'] == 'Unexecuted': continue
            r = [[s['name'], {'out': '', 'obs': [{'r': 'err', 'e': r['dead']}]}] for s in c['sinks']]
        groups = {}
        for s, (name, o) in zip(c['sinks'], r):
            key = json.dumps([o, s.get('budget'), s.get('err')])
            if key in groups: continue
            groups[key] = 1
            jobs = []
            for j in c['jobs']:
                if j['op'] == 'wtok':
                    t = j['t']
                    jobs.append({'op': 'wtok', 'tok': t, 'v': j['v']})
                elif j['op'] == 'wfield': jobs.append({'op': 'wfield', 't': ctx.tla(j['t']), 'v': j['v'], 'id': j['id'], 'last': j['last']})
                else: jobs.append({'op': 'write', 't': ctx.tla(j['t']), 'v': j['v']})
            recs.append(({'budget': s.get('budget', 1 << 30), 'serr': 'IO:' + s['err'] if s.get('err') else 'IO:WriteZero', 'jobs': jobs,
                          'out': list(bytes.fromhex(o['out'])), 'obs': [view(x) for x in o['obs']]}, dict(c, sinks=[s])))
    return recs


def sinks(ctx, n=2):
    s = [{'name': 'vec', 'vec': True}, {'name': 'short', 'rng': ctx.r.randint(1, 10 ** 9)}, {'name': 'write'}]
    ctx.sink_turn = getattr(ctx, 'sink_turn', 0) + 1
    if n > 1 and ctx.sink_turn % 3 == 0: s.insert(1, {'name': 'min', 'min': True})      # an output of the user's own
    return s[:n]


def agree(ctx, what, cols):
    """cols: list of (list of columns, origin); every column a list of observations"""
    recs = []
    for cs, origin in cols:
        cs = [[dict(view(o), v=json.dumps(o['v'])) if 'v' in o else view(o) for o in col] for col in cs]
        recs.append(({'cols': cs}, origin))
    ctx.trace('Agree', 'Agree', recs, what, size=20000)


# -------------------------------------------------- specification -> code --
def explore(ctx, name, jobs, cfg='ReadMC'):
    """Explores ReadMC for the jobs ({'job': harness job, 'a': alphabet, 'max': n}); returns the terminal states"""
    f = ctx.path('jobs.ndjson')
    with open(f, 'w') as o:
        for j in jobs: o.write(json.dumps({'job': spec_job(ctx, j['job']), 'a': j['a'], 'max': j['max'], 'pre': j.get('pre', [])}) + '\n')
    terms = []
    ctx.model('ReadMC', cfg, env={'CT_JOBS': f}, sink=terms.append)
    import collections
    ctx.log(name, len(terms), 'terminal states', sorted(collections.Counter(t['j'] for t in terms).items()))
    return terms


def expected(term, obs):
    o = obs[0]
    if term['st'] == 'unspec': return not (o['r'] == 'err' and o['e'] in CRASH)
    if term['st'] == 'err': return o['r'] == 'err' and o['e'] in term['v']
    return o['r'] == 'ok' and o['p'] == term['p'] and o['v'] == term['v']


def expected_extent(term, obs):
    o = obs[0]
    if term['st'] == 'unspec': return not (o['r'] == 'err' and o['e'] in CRASH)
    if term['st'] == 'err': return o['r'] == 'err' and o['e'] not in CRASH
    return o['r'] == 'ok' and o['p'] == term['p']


def survives(term, obs):
    return not (obs[0]['r'] == 'err' and obs[0]['e'] in CRASH)


CRASH = ('Panic', 'Crash', 'Hang', 'BadRest')


def replay(ctx, what, jobs, terms, ok=expected, srcs=None, tails=2):
    """every terminal state of the machine is run in the code, followed by various amounts of other input"""
    cases, exp = [], []
    for t in terms:
        j = jobs[t['j'] - 1]['job']
        ends = [[]]
        if not t['closed']:
            ends += [[ctx.r.randint(0, 255) for _ in range(n)] for n in ([ctx.r.choice([1, 7, 15]), 24][-tails:] if tails else [])]
        for e in ends:
            cases.append(case(ctx, t['b'] + e, [j], srcs or some_srcs(ctx)))
            exp.append(t)
    bad = compare(ctx, what, cases, exp, ok)
    ctx.stages.append({'replayed': what, 'terminal_states': len(terms), 'executions': len(cases)})
    ctx.log('replay', what, len(cases), 'executions')
    ctx.traces += len(terms)
    if terms: ctx.samples.append({'what': what, 'terminal_state': shorten(ctx.r.choice(terms))})
    return bad


def compare(ctx, what, cases, exp, ok):
    n = 0
    for lo in range(0, len(cases), 50000):
        part = cases[lo:lo + 50000]
        for c, t, r in zip(part, exp[lo:], ctx.execute(part)):
            if isinstance(r, dict) and r.get('dead') == 'Unexecuted': continue
            for s, obs in normal(r, c):
                if not ok(t, obs):
                    n += 1
                    if n <= 3: ctx.violation(what, dict(c, srcs=[s]), {'expected': t, 'observed': obs})
                    break
        if n: break
    return n
