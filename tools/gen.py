"""Generates values and encodings. Nothing in here is an oracle: what an encoding means is decided
by the specification; this file only makes sure that the interesting inputs occur."""
import random


def limbs(n, w):
    n &= (1 << 16 * w) - 1
    return [(n >> 16 * i) & 0xffff for i in range(w)]


def unlimbs(l, signed=True):
    n = sum(x << 16 * i for i, x in enumerate(l))
    return n - (1 << 16 * len(l)) if signed and l[-1] >= 32768 else n


WIDTH = {'i16': 1, 'i32': 2, 'enum': 2, 'i64': 4}
STRINGS = ['', 'a', 'abc', '\u00e9', '\u20ac', '\U0001F600', 'x' * 127, 'y' * 128, 'z' * 15, 'caf\u00e9', '\0', '\u0800\uffff', '\U0010ffff', '\u07ff\ud7ff\ue000']


BULK = [127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 12288, 16383, 16384, 16385]


SPECIAL = ['\0', '\n', '\r', ' ', '\t', '\x7f', '"', '\\', '=', '\ufeff', '\ufffd', '\u0301', '\u20ac', '\U0001F600']


class Gen:
    def __init__(self, types, seed):
        self.t = types
        self.table = types.table()
        self.r = random.Random(seed)
        # probabilities of non-canonical forms
        self.p_shuffle = self.p_long = self.p_longlist = self.p_pad = self.p_bool = 0.0
        self.hook = None        # called with (struct name, items, depth): may change the items
        self.uhook = None       # same for unions
        self.depth = 0
        self.maxpad = 6
        self.p_bulk, self.bulk_left, self.bulk_top = 0.0, 0, 16385    # now and then something long, at most bulk_left times

    # ------------------------------------------------------------ values --
    def integer(self, w):
        r = self.r
        b = 16 * w
        c = r.random()
        if c < .35: n = r.randint(-3, 3)
        elif c < .5: n = r.choice([-(1 << b - 1), (1 << b - 1) - 1, -(1 << b - 1) + 1])
        elif c < .85:   # around the boundaries of the varint groups
            k = r.randint(1, b - 1)
            n = r.choice([1, -1]) * ((1 << k) + r.randint(-2, 2))
        else: n = r.randint(-(1 << b - 1), (1 << b - 1) - 1)
        return limbs(n, w)

    def bulk(self, top=16385):
        if self.bulk_left <= 0 or self.r.random() >= self.p_bulk: return 0
        self.bulk_left -= 1
        return self.r.choice([n for n in BULK if n <= min(top, self.bulk_top)])

    def count(self, depth):
        r = self.r
        c = r.random()
        if depth >= 4: return r.choice([0, 0, 1])
        if c < .25: return 0
        if c < .7: return r.randint(1, 3)
        if depth <= 1 and c > .97: return r.choice([31, 32, 33, 40, 63, 64, 65])
        if depth <= 1 and c > .85: return r.choice([14, 15, 16, 17, 30])
        return r.randint(1, 5)

    def value(self, t, depth=0):
        r, k = self.r, t['k']
        if k == 'bool': return r.random() < .5
        if k == 'i8': return r.choice([0, 1, 2, 127, 128, 255, r.randint(0, 255)])
        if k in WIDTH:
            if k == 'enum' and r.random() < .5: return limbs(r.randint(-2, 12), 2)
            return self.integer(WIDTH[k])
        if k == 'double': return r.choice([[0] * 8, [0] * 7 + [128], [0] * 6 + [240, 63], [0, 0, 0, 0, 0, 0, 248, 127],
                                           [1, 0, 0, 0, 0, 0, 240, 127], [r.randint(0, 255) for _ in range(8)]])
        if k in ('binary', 'string'):
            n = self.bulk()
            if n: return [r.randint(0, 127) for _ in range(n)]
        if k == 'binary':
            x = [r.randint(0, 255) for _ in range(r.choice([0, 1, 2, 3, 7, 14, 15, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128] if depth < 3 else [0, 1, 2, 3]))]
            for at in (0, -1):
                if x and r.random() < .3: x[at] = r.choice([0, 255, 10, 32])
            return x
        if k == 'string':
            if depth < 4 and r.random() < .25:      # any length, with something special at its ends
                n = r.choice([1, 2, 3, 8, 14, 15, 16, 17, 31, 32, 33, 63, 64, 65, 70, 100, 127, 128, 129])
                x = [r.choice('aZ \u00e9')] * n
                for at in (0, -1, r.randrange(n)):
                    if r.random() < .5: x[at] = r.choice(SPECIAL)
                return list(''.join(x).encode())
            return list(r.choice(STRINGS if depth < 3 else STRINGS[:6]).encode('utf-8', 'surrogatepass') if r.random() < .7
                        else ''.join(chr(r.choice([65, 0x7f, 0x80, 0x7ff, 0x800, 0xfffd, 0x10000, 0x10ffff])) for _ in range(r.randint(0, 4))).encode())
        if k in ('list', 'set'):
            n = self.bulk(513) if t['e']['k'] not in ('ref', 'list', 'set') else 0
            return [self.value(t['e'], depth + 1) for _ in range(n or self.count(depth))]
        if k == 'opt': return [self.value(t['e'], depth)] if r.random() < .8 or self.need_some else []
        if k == 'encset': return sorted(set(r.choice([0, 1, 2, 3, 8, 14, 15, 16, 29, 30, r.randint(0, 30)]) for _ in range(r.choice([0, 1, 2, 3, 14, 15, 20, 60]))))
        d = self.table[t['n']]
        fs = d['fields']
        if d['kind'] == 'union':
            ok = [i for i, f in enumerate(fs) if depth < 5 or f['t']['k'] != 'ref'] or list(range(len(fs)))
            i = r.choice(ok)
            return [i + 1, self.value(fs[i]['t'], depth + 1)]
        p = self.p_opt if depth < 2 else .35 if depth < 4 else .15 if depth < 6 else 0
        return [[self.value(f['t'], depth + 1)] if f['req'] or r.random() < p else [] for f in fs]
    need_some = False
    p_opt = .65

    # --------------------------------------------------------- encodings --
    def varint(self, n):
        out = []
        while n > 127:
            out.append(n & 127 | 128)
            n >>= 7
        out.append(n)
        if self.r.random() < self.p_pad:
            k = self.r.randint(1, self.maxpad)
            out[-1] |= 128
            out += [128] * (k - 1) + [0]
        return out

    def signed(self, l):
        n = unlimbs(l)
        return self.varint(n << 1 if n >= 0 else (-n << 1) - 1)

    def boolbyte(self, v):
        if v: return [1]
        return [self.r.choice([0, 2]) if self.r.random() < self.p_bool else 2]

    def code(self, t, v=None):
        k = t['k']
        return {'bool': 2 if v is None else 1 if v else 2, 'i8': 3, 'i16': 4, 'i32': 5, 'enum': 5, 'i64': 6, 'double': 7,
                'binary': 8, 'string': 8, 'list': 9, 'encset': 9, 'set': 9, 'ref': 12}.get(k) or self.code(t['e'])

    def listheader(self, code, n):
        if n < 15 and self.r.random() >= self.p_longlist: return [code | n << 4]
        return [code | 0xf0] + self.varint(n)

    def enc(self, t, v):
        k = t['k']
        if k == 'bool': return self.boolbyte(v)
        if k == 'i8': return [v]
        if k in WIDTH: return self.signed(v)
        if k == 'double': return list(v)
        if k in ('binary', 'string'): return self.varint(len(v)) + list(v)
        if k == 'encset':
            v = [limbs(x, 2) for x in v]
            t = {'k': 'list', 'e': {'k': 'i32'}}
            k = 'list'
        if k in ('list', 'set'):
            code = self.code(t['e'])
            if code == 2 and self.r.random() < self.p_bool: code = 1
            return self.listheader(code, len(v)) + [b for x in v for b in self.enc(t['e'], x)]
        if k == 'opt': return self.enc(t['e'], v[0])
        n = t['n']
        d = self.table[n]
        if d['kind'] == 'union':
            f = d['fields'][v[0] - 1]
            items = [self.item(f, v[1])]
            if self.uhook: self.uhook(n, items, self.depth)
            return self.assemble(items)
        self.depth += 1
        items = self.items(n, v)
        self.depth -= 1
        if self.r.random() < self.p_shuffle: self.r.shuffle(items)
        if self.hook: self.hook(n, items, self.depth)
        return self.assemble(items)

    def item(self, f, v):
        if f['t']['k'] == 'bool': return [f['id'], 1 if v else 2, []]
        return [f['id'], self.code(f['t']), self.enc(f['t'], v)]

    def items(self, n, v):
        return [self.item(f, x[0]) for f, x in zip(self.table[n]['fields'], v) if x]

    def header(self, id, code, last):
        d = id - last
        if 1 <= d <= 15 and self.r.random() >= self.p_long: return [code | d << 4]
        return [code] + self.signed(limbs(id, 1))

    def assemble(self, items, stop=True):
        out, last = [], 0
        for id, code, payload in items:
            out += self.header(id, code, last) + payload
            last = id
        return out + [0] if stop else out

    # junk of a given wire type, as an unknown field or element would carry it
    def junk(self, wt, elem=False, depth=0):
        r = self.r
        if wt in (1, 2): return [r.choice([0, 1, 2])] if elem else []
        if wt == 3: return [r.randint(0, 255)]
        if wt in (4, 5, 6): return self.signed(self.integer({4: 1, 5: 2, 6: 4}[wt]))
        if wt == 7: return [r.randint(0, 255) for _ in range(8)]
        if wt == 8:
            n = self.bulk() or r.choice([0, 1, 2, 5, 15, 16, 17, 40, 127, 128, 130] if depth < 2 else [0, 1, 2])
            return self.varint(n) + [r.randint(0, 255) for _ in range(n)]
        if depth >= 4 and wt >= 9: return [0x13, 7] if wt in (9, 10) else [0]
        if wt in (9, 10):
            e = r.randint(1, 12)
            n = r.choice([0, 1, 2, 3, 14, 15, 16, 20]) if depth < 2 else r.choice([0, 1, 2])
            if e >= 9 and n > 3: n = 2
            return self.listheader(e, n) + [b for _ in range(n) for b in self.junk(e, True, depth + 1)]
        if wt == 11:
            n = r.choice([0, 1, 2, 3, 16]) if depth < 2 else r.choice([0, 1])
            k, v = r.randint(1, 12), r.randint(1, 12)
            if (k >= 9 or v >= 9) and n > 3: n = 2
            if n == 0: return self.varint(0)
            return self.varint(n) + [k << 4 | v] + [b for _ in range(n) for b in self.junk(k, True, depth + 1) + self.junk(v, True, depth + 1)]
        items = []
        id = 0
        for _ in range(r.choice([0, 1, 2, 3])):
            id = r.choice([id + r.randint(1, 15), id + r.randint(1, 15), r.randint(-32768, 32767)])
            if not -32768 <= id <= 32767: id = 5
            w = r.randint(1, 12)
            items.append([id, w, self.junk(w, False, depth + 1)])
        return self.assemble(items)

    def unknown(self, n, used=()):
        """an unknown field for struct n"""
        ids = {f['id'] for f in self.table[n]['fields']} if n in self.table else set()
        while True:
            near = list(ids) or [0]
            id = self.r.choice([self.r.choice(near) + self.r.randint(-17, 17), self.r.randint(1, 40), self.r.randint(-32768, 32767)])
            if -32768 <= id <= 32767 and id not in ids: break
        w = self.r.randint(1, 12)
        return [id, w, self.junk(w)]

    def canonical(self):
        self.p_shuffle = self.p_long = self.p_longlist = self.p_pad = self.p_bool = 0.0
        self.hook = self.uhook = None
        return self

    def free(self, p=.3):
        self.p_shuffle, self.p_long, self.p_longlist, self.p_pad, self.p_bool = .5, p, p, p / 2, .5
        return self

    # ------------------------------------------------------------- other --
    def mutate(self, b):
        r = self.r
        b = list(b)
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            c = r.random()
            if not b or c < .2: b.insert(r.randint(0, len(b)), r.choice([0, 0x80, 0xff, 0x15, 0x1c, 0x19, 0xf5, r.randint(0, 255)]))
            elif c < .5: b[r.randrange(len(b))] = r.choice([0, 1, 0x7f, 0x80, 0xff, r.randint(0, 255)])
            elif c < .65: b[r.randrange(len(b))] ^= 1 << r.randint(0, 7)
            elif c < .8: del b[r.randrange(len(b))]
            elif c < .9: del b[r.randint(0, len(b)):]
            else:
                i, j = r.randint(0, len(b)), r.randint(0, len(b))
                b[i:i] = b[j:j + r.randint(1, 8)]
        return b

    def hostile(self):
        r = self.r
        big = [[0xff] * 9 + [1], [0xff] * 4 + [0xf], [0xff] * 3 + [7], [0x80, 0x80, 0x80, 8], [0x81, 0x80, 0x80, 8], [0xff, 0xac, 0xe2, 4],
               [0x80, 0xad, 0xe2, 4], [0x81, 0xad, 0xe2, 4], [0x80] * 20, [0x80] * 17 + [0], [0xff] * 40, [0x80] * 9 + [1], [0xff] * 9 + [0x7f]]
        out = []
        for _ in range(r.randint(1, 6)):
            out += r.choice([r.choice(big), [r.randint(0, 255)], [r.choice([0x15, 0x18, 0x19, 0x1a, 0x1b, 0x1c, 0xf5, 0xfc, 0xf8, 0xf9, 0xfb, 0, 5, 8, 9, 12])],
                             [r.randint(0, 255) for _ in range(r.randint(0, 12))]])
        return out
