"""Building, executing, model checking, reporting."""
import collections, concurrent.futures, json, os, random, re, resource, shutil, subprocess, sys, threading, time
import typesdef
from gen import Gen
ROOT = typesdef.ROOT
# 6 GB of address space and no core files
LIMITED = ['sh', '-c', 'ulimit -c 0 && ulimit -v 6291456 && exec "$@"', 'sh']
WORK = os.path.join(ROOT, 'work')
EOF = 'IO:UnexpectedEof'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never',
           RUSTC_WRAPPER='', CARGO_INCREMENTAL='0', CARGO_TARGET_DIR=os.path.join(WORK, 'target'))
ENV.pop('RUSTFLAGS', None)


class ToolError(Exception):
    pass


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text: return
    open(path, 'w').write(text)


# properties whose random values now and then carry long texts and lists (the others try every cut or fault of a value)
BULKY = {'C01', 'C02', 'C03', 'C04', 'C06', 'C10', 'C11', 'C12', 'C13', 'C16', 'C24', 'C27'}


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.scale = 8 if tier == 'thorough' else 1
        self.t0 = time.time()
        self.dir = os.path.join(WORK, prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.states = self.generated = self.traces = self.runs = 0
        self.stages = []
        self.samples = []
        self.violations = []
        self.known_seen = []
        self.assumptions = []
        self.exhaustive = []
        self.nfile = 0
        self.lock = threading.Lock()
        self.t = typesdef.load(seed)
        self.table = self.t.table()
        self.gen = Gen(self.t, seed * 1000003 + int(re.sub(r'\D', '', prop) or 0))
        if prop in BULKY: self.gen.p_bulk, self.gen.bulk_left = .01, 100 * self.scale
        if prop == 'C02': self.gen.bulk_top = 4097      # what was written so far is in every state of the writer
        self.r = self.gen.r
        write(os.path.join(WORK, 'types.json'), json.dumps(self.table))
        self.tla = self.t.tla
        self.testtypes = [n for n in self.t.order if self.t.defs[n]['origin'] == 'test']
        self.pqtypes = [n for n in self.t.order if self.t.defs[n]['origin'] == 'parquet']

    def path(self, name):
        return os.path.join(self.dir, name)

    def log(self, *a):
        print('[%6.1f]' % (time.time() - self.t0), *a, flush=True)

    # -------------------------------------------------------------- build --
    def build(self):
        h = os.path.join(WORK, 'harness')
        for f in ['Cargo.toml'] + ['src/' + x for x in os.listdir(os.path.join(ROOT, 'harness/src'))]:
            write(os.path.join(h, f), open(os.path.join(ROOT, 'harness', f)).read())
        missing = set()
        for attempt in range(6):
            write(os.path.join(h, 'src/gen.rs'), typesdef.rust_defs(self.t, missing))
            p = subprocess.run(['cargo', 'build', '--offline', '--manifest-path', os.path.join(h, 'Cargo.toml'), '--message-format=json'],
                               env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            if p.returncode == 0:
                self.bin = os.path.join(WORK, 'target/debug/ct-harness')
                self.schema_bin = os.path.join(WORK, 'target/debug/schema')
                if missing: self.log('members the code does not have:', sorted(missing))
                self.missing = missing
                return
            new = set()
            texts = []
            for l in p.stdout.splitlines():
                try: m = json.loads(l)
                except ValueError: continue
                if m.get('reason') != 'compiler-message' or m['message']['level'] != 'error': continue
                msg = m['message']['message']
                texts.append(m['message']['rendered'])
                # a declared member that the real type lacks: leave it out of the projection, the comparison will tell
                x = (re.search(r'no field `(\w+)` on type `&?(?:\w+::)*(\w+)`', msg) or re.search(r'`(?:\w+::)*(\w+)` has no field named `(\w+)`', msg)
                     or re.search(r'no (?:variant|associated item|variant or associated item|variant, associated function, or constant|associated function or constant)\w*(?: or associated item)? named `(\w+)` found for (?:struct|enum) `(?:\w+::)*(\w+)`', msg)
                     or re.search(r'no .*named `(\w+)` found for \w+ `(?:\w+::)*(\w+)`', msg))
                if x:
                    a, b = x[1], x[2]
                    new |= {(a, b), (b, a)}
            if not new - missing:
                raise ToolError('build failed:\n' + '\n'.join(texts)[:4000] + p.stderr[-2000:])
            missing |= new
        raise ToolError('build failed repeatedly')

    def build_probe(self):
        """the probe includes the source of the schema tool; without it when that no longer has what is asked of it"""
        h = os.path.join(WORK, 'probe')
        for f in ('Cargo.toml', 'src/main.rs'): write(os.path.join(h, f), open(os.path.join(ROOT, 'harness/probe', f)).read())
        write(os.path.join(h, 'src/json.rs'), open(os.path.join(ROOT, 'harness/src/json.rs')).read())
        for notes in (True, False):
            p = subprocess.run(['cargo', 'build', '--offline', '--manifest-path', os.path.join(h, 'Cargo.toml')] + ['--features', 'notes'] * notes, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            self.notes = notes
            if p.returncode == 0: break
            self.log('no probe:', p.stdout[-3000:])
        if p.returncode: return None
        return os.path.join(WORK, 'target/debug/ct-probe')

    def probe(self, binary, cases, timeout=120):
        self.nfile += 1
        cf, of = self.path('cases%d.ndjson' % self.nfile), self.path('out%d.txt' % self.nfile)
        results = []
        while len(results) < len(cases):
            with open(cf, 'w', encoding='utf-8') as f:
                for c in cases[len(results):]: f.write(json.dumps(c, separators=(',', ':'), ensure_ascii=False) + '\n')
            end = 'crash'
            try: p = subprocess.run([binary, cf, of], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=timeout,
                                    preexec_fn=lambda: (resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30)), resource.setrlimit(resource.RLIMIT_CORE, (0, 0))))
            except subprocess.TimeoutExpired: end = 'hang'
            results += [json.loads(l) for l in open(of, encoding='utf-8') if l.endswith('\n')]
            if len(results) < len(cases): results.append({'r': 'err', 'e': end})
            if sum(r.get('e') in ('crash', 'hang') for r in results) > 4: results += [None] * (len(cases) - len(results))
        self.runs += len(cases)
        return results

    # ------------------------------------------------------------ execute --
    def execute(self, cases, timeout=30, workers=1):
        """Runs the cases in the real code; returns one result per case. A case that kills the process
        or does not come back gets the result {'dead': 'Crash' | 'Hang'}."""
        if workers > 1:
            with concurrent.futures.ThreadPoolExecutor(workers) as pool:
                parts = list(pool.map(lambda i: self.execute(cases[i::workers], timeout), range(workers)))
            results = [None] * len(cases)
            for i, p in enumerate(parts): results[i::workers] = p
            return results
        with self.lock: self.nfile += 1; nfile = self.nfile
        cf, of = self.path('cases%d.ndjson' % nfile), self.path('out%d.txt' % nfile)
        with open(cf, 'w') as f:
            for c in cases: f.write(json.dumps(c, separators=(',', ':')) + '\n')
        results = [None] * len(cases)
        first = 0
        deaths = 0
        while first < len(cases):
            if os.path.exists(of): os.remove(of)
            p = subprocess.Popen(LIMITED + [self.bin, cf, of, str(first)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            size, since, hung = -1, time.time(), False
            while True:
                try:
                    p.wait(timeout=.05 if time.time() - since < 1 else .5)
                    break
                except subprocess.TimeoutExpired:
                    s = os.path.getsize(of) if os.path.exists(of) else 0
                    if s != size: size, since = s, time.time()
                    elif time.time() - since > timeout:
                        p.kill(); p.wait(); hung = True
                        break
            started, ended = None, False
            if os.path.exists(of):
                with open(of) as f:
                    for l in f:
                        if l[0] == 'S' and l.endswith('\n'): started = int(l[2:])
                        elif l[0] == 'R' and l.endswith('\n'):
                            a, b = l[2:].split(' ', 1)
                            results[int(a)] = json.loads(b)
                        elif l[0] == 'E': ended = True
            if ended: break
            if started is None: raise ToolError('harness did not start')
            if results[started] is not None:   # died between cases
                raise ToolError('harness died outside of a case')
            results[started] = {'dead': 'Hang' if hung else 'Crash'}
            deaths += 1
            first = started + 1
            hangs = (0 if deaths == 1 else hangs) + hung
            if deaths > 25 or hangs > 3:     # enough evidence
                for i in range(first, len(cases)): results[i] = {'dead': 'Unexecuted'}
                break
        self.runs += len(cases)
        for f in (cf, of):
            if os.path.exists(f) and os.path.getsize(f) > 50 << 20: os.remove(f)
        return results

    # ---------------------------------------------------------------- TLC --
    def tlc(self, module, cfg, env=None, extra=(), workers=8, timeout=800, expect_deadlock_free=True, sink=None, heap='12g'):
        self.nfile += 1
        meta = self.path('tlc%d' % self.nfile)
        e = dict(os.environ, CT_TYPES=os.path.join(WORK, 'types.json'), **(env or {}))
        e['JAVA_TOOL_OPTIONS'] = '-Xmx%s -Xss64m -Djava.io.tmpdir=%s' % (heap, self.dir)
        e.pop('_JAVA_OPTIONS', None)
        cmd = ['tlc', '-workers', str(workers), '-noGenerateSpecTE', '-metadir', meta, '-config', cfg + '.cfg'] + list(extra) + [module + '.tla']
        p = subprocess.Popen(['timeout', str(timeout)] + cmd, cwd=os.path.join(ROOT, 'spec'), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        lines = collections.deque(maxlen=4000)
        last_c = failed = None
        for l in p.stdout:
            x = re.match(r'(?:/\\ )?c = (\d+)', l)
            if x: last_c = int(x[1])
            x = re.match(r'Error: (?:Invariant (\w+) is violated|Deadlock reached)|.*is violated by the initial state|.*Action property (\w+) is violated|.*Temporal properties were violated', l)
            if x and not failed: failed = x[0]
            if sink is not None and l.startswith('"@'):
                sink(json.loads(json.loads(l)[1:]))
            else: lines.append(l)
        p.wait()
        shutil.rmtree(meta, ignore_errors=True)
        out = ''.join(lines)
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        res = {'out': out, 'rc': p.returncode}
        if m:
            res['generated'], res['distinct'] = int(m[-1][0]), int(m[-1][1])
            self.states += res['distinct']; self.generated += res['generated']
        if 'Model checking completed. No error has been found' in out:
            res['ok'] = True
        elif failed:
            res['ok'] = False
            x = re.search(r'Invariant (\w+) is violated', failed)
            res['inv'] = x[1] if x else 'Deadlock'
            res['c'] = last_c
        else:
            open(self.path('tlc-error.txt'), 'w').write(out)
            raise ToolError('TLC %s/%s failed (rc %s):\n%s' % (module, cfg, p.returncode, out[-3000:]))
        return res

    def model(self, module, cfg=None, env=None, sink=None, timeout=800, workers=8, **kw):
        """an exhaustive check of the specification itself; has to pass"""
        r = self.tlc(module, cfg or module, env, sink=sink, timeout=timeout, workers=workers, **kw)
        if not r['ok']: raise ToolError('specification %s violates %s:\n%s' % (cfg or module, r['inv'], r['out'][-3000:]))
        self.stages.append({'model': cfg or module, 'states': r['distinct'], 'transitions': r['generated']})
        self.log('model', cfg or module, r['distinct'], 'states')
        return r

    def trace(self, module, cfg, recs, what, env=None, size=4000):
        """checks recorded executions (list of (spec case, origin)) against a trace specification"""
        n = 0
        for lo in range(0, len(recs), size):
            part = recs[lo:lo + size]
            f = self.path('trace.ndjson')
            with open(f, 'w') as o:
                for s, _ in part: o.write(json.dumps(s, separators=(',', ':')) + '\n')
            todo = part
            r = self.tlc(module, cfg, dict(env or {}, CT_CASES=f))
            n += r.get('distinct', 0)
            if not r['ok']:
                if r['c'] is None: raise ToolError('no case in counterexample:\n' + r['out'][-3000:])
                self.violation(what, part[r['c'] - 1][1], part[r['c'] - 1][0], r)
                break
            self.traces += len(part)
        self.stages.append({'traces': what, 'checked_by': cfg, 'cases': len(recs), 'states': n})
        self.log('trace', what, len(recs), 'cases', n, 'states')
        if recs: self.samples.append({'what': what, 'case': shorten(self.r.choice(recs)[0])})

    def known(self, key):
        self.findings = {}
        for l in open(os.path.join(ROOT, 'known-findings.txt')):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
            if m: self.findings[m[1], m[2]] = m[3]
        return (self.prop, key) in self.findings

    def finding(self, key):
        t = self.findings[self.prop, key]
        if t not in self.known_seen: self.known_seen.append(t)

    def default(self, t):
        k = t['k']
        if k == 'bool': return False
        if k == 'i8': return 0
        if k in typesdef.WIDTH: return [0] * typesdef.WIDTH[k]
        if k == 'double': return [0] * 8
        if k == 'ref':
            d = self.table[t['n']]
            if d['kind'] == 'union': return [1, self.default(d['fields'][0]['t'])]
            return [[self.default(f['t'])] if f['req'] else [] for f in d['fields']]
        return []

    # ---------------------------------------------------------- reporting --
    def violation(self, what, origin, spec=None, tlc=None, note=''):
        d = os.path.join(ROOT, 'replays', self.prop)
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, '%d-%d.json' % (self.seed, len(self.violations)))
        json.dump({'property': self.prop, 'what': what, 'note': note, 'case': origin, 'recorded': spec, 'seed': self.seed,
                   'invariant': tlc and tlc.get('inv'), 'tlc': tlc and tlc['out'][-6000:]}, open(f, 'w'), indent=1)
        self.violations.append(f)
        self.log('violation in', what, note, json.dumps(shorten(origin))[:1500], json.dumps(shorten(spec))[:1500] if spec else '')

    def finish(self):
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking', 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(self.violations), 'assumptions': self.assumptions,
              'coverage': {'states': self.states, 'transitions': self.generated, 'traces_validated_against_impl': self.traces,
                           'executions': self.runs, 'stages': self.stages, 'samples': self.samples[:12], 'known_findings': self.known_seen}}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w'), indent=1)
        for k in self.known_seen: print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        for f in self.violations[:5]: print('VIOLATION property=%s replay=%s' % (self.prop, f))
        self.log('done: %d states, %d traces, %d violations' % (self.states, self.traces, len(self.violations)))
        sys.stdout.flush()
        return 1 if self.violations else 0


def shorten(x, n=200):
    if isinstance(x, list):
        return [shorten(y, n) for y in x] if len(x) <= n else [shorten(y, n) for y in x[:n]] + ['... %d' % len(x)]
    if isinstance(x, dict): return {k: shorten(v, n) for k, v in x.items()}
    if isinstance(x, str) and len(x) > 4 * n: return x[:4 * n] + '...'
    return x
