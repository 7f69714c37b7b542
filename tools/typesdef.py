"""Type tables: parses /verif/types/*.thrift and produces
  - the TLA+ type table (JSON, read by the specifications),
  - the Rust side (thrift! definitions, projections to/from JSON, dispatch)."""
import json, os, random, re
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SCALARS = {'bool': 'bool', 'byte': 'i8', 'i8': 'i8', 'i16': 'i16', 'i32': 'i32', 'i64': 'i64', 'double': 'double',
           'f64': 'double', 'binary': 'binary', 'string': 'string', 'String': 'string', 'str': 'string'}
WIDTH = {'i16': 1, 'i32': 2, 'enum': 2, 'i64': 4}


class Types:
    def __init__(self):
        self.defs = {}      # name -> dict(kind, fields|consts, origin)
        self.aliases = {}
        self.order = []
        self.bare = []      # bare type expressions (rust), dispatchable by name

    def load(self, text, origin):
        text = re.sub(r'#.*', '', text)
        for m in re.finditer(r'alias\s+(\w+)\s*=\s*([^;]+);', text):
            self.aliases[m[1]] = m[2].strip()
        for m in re.finditer(r'(struct|union|enum)\s+(\w+)\s*\{([^}]*)\}', text):
            kind, name, body = m[1], m[2], m[3]
            d = {'kind': kind, 'origin': origin, 'name': name}
            if kind == 'enum':
                d['consts'] = [(a, int(b)) for a, b in re.findall(r'(\w+)\s*=\s*(-?\d+)', body)]
            else:
                fs = []
                for f in re.finditer(r'(-?\d+)\s*:\s*(?:(required|optional)\s+)?(\w+(?:\s*<\s*\w+\s*>)?)\s+(\w+)(?:\s*=\s*("\w*"|-?[\w.]+))?((?:\s*@\w+)*)', body):
                    fs.append(dict(id=int(f[1]), req=(f[2] == 'required') if kind == 'struct' else True,
                                   rt=re.sub(r'\s', '', f[3]), name=f[4], dflt=f[5], notes=f[6].split()))
                d['fields'] = fs
            self.defs[name] = d
            self.order.append(name)

    # type expression -> TLA+ descriptor
    def tla(self, rt, notes=()):
        if '@encset' in notes:
            return {'k': 'encset'}
        rt = rt.strip()
        if rt in SCALARS:
            return {'k': SCALARS[rt]}
        if rt == 'EncodingSet':
            return {'k': 'encset'}
        if rt in self.aliases:
            return self.tla(self.aliases[rt])
        if rt == 'Vec<u8>':
            return {'k': 'binary'}
        m = re.match(r'(\w+)<(.*)>$', rt)
        if m:
            e = self.tla(m[2])
            if m[1] in ('Box', 'Rc', 'Arc'):
                return e
            if m[1] in ('Vec', 'list'):
                return {'k': 'list', 'e': e}
            if m[1] == 'set':
                return {'k': 'set', 'e': e}
            if m[1] == 'Option':
                return {'k': 'opt', 'e': e}
            raise ValueError(rt)
        d = self.defs[rt]
        return {'k': 'enum'} if d['kind'] == 'enum' else {'k': 'ref', 'n': rt}

    def fields(self, name):
        """declared (kept) fields of a struct or union, as the specification sees them"""
        return [dict(id=f['id'], req=f['req'], t=self.tla(f['rt'], f['notes']), name=f['name'])
                for f in self.defs[name]['fields'] if '@omit' not in f['notes']]

    def omitted(self, name):
        return [dict(id=f['id'], req=f['req'], t=self.tla(f['rt'], f['notes']), name=f['name'])
                for f in self.defs[name]['fields'] if '@omit' in f['notes']]

    def table(self):
        # the error of a missing field carries the Rust name
        return {n: {'kind': self.defs[n]['kind'],
                    'fields': [dict(f, name=rust_name(self.defs[n]['origin'], f['name'])) for f in self.fields(n)]}
                for n in self.order if self.defs[n]['kind'] != 'enum'}


def rust_name(origin, n):
    return 'type_' if n == 'type' else n


BARE = ['bool', 'i8', 'i16', 'i32', 'i64', 'f64', 'String', 'Vec<u8>', 'Box<str>', 'Rc<str>', 'Arc<str>',
        'Vec<bool>', 'Vec<i8>', 'Vec<i16>', 'Vec<i32>', 'Vec<i64>', 'Vec<f64>', 'Vec<String>', 'Vec<Vec<u8>>', 'Vec<Color>',
        'Vec<Inner>', 'Vec<Choice>', 'Vec<Empty>', 'Vec<Vec<i32>>', 'Vec<Vec<Vec<bool>>>', 'Vec<Node>', 'Vec<Scalars>',
        'Option<i32>', 'Option<bool>', 'Option<Inner>', 'Option<String>', 'Option<Vec<i32>>', 'Vec<Option<i32>>', 'Vec<Option<Inner>>',
        'Box<i32>', 'Box<bool>', 'Rc<bool>', 'Arc<bool>', 'Rc<Inner>', 'Arc<Inner>', 'Box<Inner>', 'Arc<Choice>', 'Vec<Rc<Inner>>',
        'Vec<Box<bool>>', 'Vec<Arc<str>>', 'Vec<Rc<str>>', 'Vec<Box<str>>', 'Vec<Box<i64>>', 'Option<Box<bool>>', 'Option<Rc<Inner>>',
        'Option<Arc<str>>', 'Rc<Vec<i32>>', 'Arc<Vec<u8>>', 'Box<Option<i32>>', 'Rc<String>', 'Arc<i64>', 'Box<f64>', 'Rc<i8>', 'Box<i16>',
        'Box<Vec<Inner>>', 'Box<Node>', 'EncodingSet', 'Vec<EncodingSet>', 'Option<EncodingSet>']


def random_defs(seed, n=10):
    """Additional struct and union declarations that depend on the seed."""
    r = random.Random(seed * 7919 + 13)
    out, names, structs = [], [], ['Inner', 'Empty', 'Choice', 'Sub', 'Mid', 'One']
    def ty():
        c = r.random()
        sc = r.choice(['bool', 'bool', 'byte', 'i16', 'i32', 'i64', 'double', 'string', 'binary', 'Color'])
        if c < .45: return sc
        if c < .6: return r.choice(structs)
        if c < .8: return 'list<%s>' % r.choice([sc] + structs)
        w = r.choice(['Box', 'Rc', 'Arc'])
        return '%s<%s>' % (w, r.choice([sc, r.choice(structs), 'String', 'str']))
    for i in range(n):
        name = 'Rnd%d' % i
        union = r.random() < .3
        ids, k = [], 0
        for _ in range(r.randint(1, 8)):
            k = r.choice([k + 1, k + 1, k + 1, k + r.randint(2, 20), r.randint(-32768, 32767), k - r.randint(1, 20)])
            if -32768 <= k <= 32767 and k not in ids: ids.append(k)
        fs = []
        for j, d in enumerate(ids):
            fs.append('%d: %s%s f%d;' % (d, '' if union else r.choice(['required ', 'optional ']), ty(), j))
        out.append('%s %s { %s }' % ('union' if union else 'struct', name, ' '.join(fs)))
        structs.append(name)
    return '\n'.join(out)


def load(seed=1, extra=10):
    t = Types()
    t.load(open(os.path.join(ROOT, 'types', 'test.thrift')).read(), 'test')
    t.load(random_defs(seed, extra), 'test')
    t.load(open(os.path.join(ROOT, 'types', 'parquet.thrift')).read(), 'parquet')
    t.bare = list(BARE)
    return t


# ------------------------------------------------------------------ Rust side
def rust_defs(t, missing=frozenset()):
    o = ['// generated by tools/typesdef.py',
         'use std::rc::Rc; use std::sync::Arc;', 'use compact_thrift_runtime::thrift;', 'use crate::val::*; use crate::json::J;',
         'use compact_thrift_parquet::EncodingSet;',
         'use compact_thrift_parquet::format as pq;']
    for a, b in t.aliases.items():
        o.append('type %s = %s;' % (a, b))
    o.append('pub mod tt { use super::*;')
    o.append('thrift! {')
    for n in t.order:
        d = t.defs[n]
        if d['origin'] != 'test': continue
        if d['kind'] == 'enum':
            o.append('enum %s { %s }' % (n, ' '.join('%s = %d;' % c for c in d['consts'])))
        else:
            o.append('%s %s { %s }' % (d['kind'], n, ' '.join(
                '%d: %s%s %s%s;' % (f['id'], '' if d['kind'] == 'union' else ('required ' if f['req'] else 'optional '), f['rt'], f['name'], ' = ' + f['dflt'] if f['dflt'] else '')
                for f in d['fields'])))
    o.append('} }')
    o.append('use tt::*;')
    for n in t.order:
        d = t.defs[n]
        path = ('tt::' if d['origin'] == 'test' else 'pq::') + n
        if d['kind'] == 'enum':
            o.append('impl Val for %s { fn put(&self, o: &mut String) { self.0.put(o) } fn get(j: &J) -> Self { %s::from(i32::get(j)) } }' % (path, path))
            continue
        fs = [f for f in d['fields'] if '@omit' not in f['notes']]
        if d['kind'] == 'struct':
            put = ["o.push('[');"]
            get = []
            for i, f in enumerate(fs):
                rn = rust_name(d['origin'], f['name'])
                if i: put.append("o.push(',');")
                if (n, rn) in missing:      # a member the code does not have
                    put.append('o.push_str("[]");')
                    continue
                put.append('self.%s.put_field(o);' % rn)
                get.append('%s: Val::get_field(j.at(%d)),' % (rn, i))
            put.append("o.push(']');")
            o.append('impl Val for %s { #[allow(unused_variables)] fn put(&self, o: &mut String) { %s } #[allow(unused_variables, clippy::needless_update)] fn get(j: &J) -> Self { %s { %s ..Default::default() } } }' % (path, ' '.join(put), path, ' '.join(get)))
        else:
            arms = ' '.join("%s::%s(x) => { o.push_str(\"[%d,\"); x.put(o); o.push(']'); }" % (path, f['name'], i + 1) for i, f in enumerate(fs) if (n, f['name']) not in missing)
            gets = ' '.join('%d => %s::%s(Val::get(j.at(1))),' % (i + 1, path, f['name']) for i, f in enumerate(fs) if (n, f['name']) not in missing)
            o.append('impl Val for %s { fn put(&self, o: &mut String) { match self { %s #[allow(unreachable_patterns)] _ => o.push_str("[0,[]]"), } } fn get(j: &J) -> Self { match j.at(0).int() { %s _ => panic!("variant") } } }' % (path, arms, gets))
    o.append('#[macro_export] macro_rules! dispatch { ($name:expr, $go:ident, $($arg:expr),*) => { match $name {')
    for n in t.order:
        d = t.defs[n]
        p = 'compact_thrift_parquet::format::' if d['origin'] == 'parquet' else '$crate::gen::tt::'
        o.append('"%s" => $go::<%s%s, _>($($arg),*),' % (n, p, n))
    for b in t.bare:
        o.append('"%s" => $go::<$crate::gen::B%d, _>($($arg),*),' % (b, t.bare.index(b)))
    o.append('x => panic!("no type {x}") } } }')
    for i, b in enumerate(t.bare):
        o.append('pub type B%d = %s;' % (i, b))
    # constructors
    o.append('fn arg<S, T: Val>(_: fn(&S) -> &T, j: &J) -> T { T::get_field(j) }')
    o.append('pub fn construct(name: &str, j: &J) -> Option<String> { let mut o = String::new(); match name {')
    for n in t.order:
        d = t.defs[n]
        if d['kind'] != 'struct': continue
        p = ('tt::' if d['origin'] == 'test' else 'pq::') + n
        fs = [rust_name(d['origin'], f['name']) for f in d['fields'] if '@omit' not in f['notes']]
        if any((n, f) in missing for f in fs): continue
        o.append('"%s" => %s::new(%s).put(&mut o),' % (n, p, ', '.join('arg(|s: &%s| &s.%s, j.at(%d))' % (p, f, i) for i, f in enumerate(fs))))
    o.append('_ => return None } Some(o) }')
    # enums as numbers
    o.append('''macro_rules! number { ($t:path, $x:expr, $y:expr) => {{ use std::hash::{Hash, Hasher}; type E = $t;
        let (a, b): (E, E) = (E::from($x), $y.into());
        let h = |e: E| { let mut s = std::collections::hash_map::DefaultHasher::new(); e.hash(&mut s); s.finish() };
        let sign = |o: std::cmp::Ordering| o as i8;
        let (mut p, mut q) = (String::new(), String::new()); a.0.put(&mut p); b.0.put(&mut q);
        format!("{{\\"of\\":{p},\\"into\\":{q},\\"cmp\\":{},\\"part\\":{},\\"eq\\":{},\\"hash\\":{}}}", sign(a.cmp(&b)), a.partial_cmp(&b).map(sign).unwrap_or(9), a == b, h(a) == h(b)) }} }''')
    o.append('pub fn numbers(name: &str, x: i32, y: i32) -> Option<String> { Some(match name {')
    for n in t.order:
        if t.defs[n]['kind'] == 'enum': o.append('"%s" => number!(%s, x, y),' % (n, ('tt::' if t.defs[n]['origin'] == 'test' else 'pq::') + n))
    o.append('_ => return None }) }')
    # enum constants as the code has them
    o.append('pub fn constants() -> Vec<(&\'static str, &\'static str, i32)> { vec![')
    for n in t.order:
        d = t.defs[n]
        if d['kind'] == 'enum':
            p = ('tt::' if d['origin'] == 'test' else 'pq::') + n
            for c, _ in d['consts']:
                if (n, c) in missing: continue
                o.append('("%s","%s",%s::%s.0),' % (n, c, p, c))
    o.append('] }')
    return '\n'.join(o) + '\n'


if __name__ == '__main__':
    import sys
    t = load(int(os.environ.get('VERIF_SEED', '1')))
    os.makedirs(sys.argv[1], exist_ok=True)
    open(os.path.join(sys.argv[1], 'types.json'), 'w').write(json.dumps(t.table()))
    open(os.path.join(sys.argv[1], 'gen.rs'), 'w').write(rust_defs(t))
