"""Value-set analysis of small parts of the program.

Functions of the IR are evaluated over an abstract store: every cell of a tracked object (object, offset) holds a set of values.
A value read from a cell with several values splits the evaluation (trace partitioning); a branch on an unknown value is followed
both ways.  Writes only ever add to the cells, and every evaluation that read a cell is extended when the cell gains a value, so the
store at the end over-approximates every reachable state, whatever the order and number of calls.

values: int (unsigned, modulo the width) | ('p', object, offset) | ('f', function) | ('iv', lo, hi) | None (unknown)
"""
from collections import defaultdict
from effects import ALLOC, FREE, is_ostream_op, PURE, STOP, string_op
from ir import AnalysisError

WIDEN = 4200


class Undecided(Exception):
    pass


class Stop(Exception):
    """the evaluated path ends (exit, throw, contradiction)"""


def width(ty):
    if ty and ty[0] == 'i' and ty[1:].isdigit():
        return int(ty[1:])
    return 64


def signed(v, w):
    return v - (1 << w) if v >> (w - 1) else v


class Interp:
    def __init__(self, m, steps=4000000, lenient=False, hook=None):
        self.m = m
        self.lenient = lenient        # unknown effects are ignored: only for questions about what is certainly stored
        self.hook = hook              # hook(interp, inst, function, args) -> None or (value,)
        self.cells = {}               # (obj, off) -> dict value -> None   (base store)
        self.csize = {}               # (obj, off) -> access size
        self.size = {}                # obj -> size
        self.smash = set()
        self.wide = set()
        self.readers = defaultdict(list)
        self.work = []
        self.events = {}
        self.done = set()
        self.budget = steps
        self.runs = 0
        self.steps = 0
        self.leaf = None
        self._gcache = {}

    # -- driver ---------------------------------------------------------------
    def add_op(self, op):
        """op: (name, function, args)"""
        self.work.append((op, ()))

    def solve(self):
        while self.work:
            op, prefix = self.work.pop()
            if (op, prefix) in self.done:
                continue
            self.done.add((op, prefix))
            self._run(op, prefix)

    def _run(self, op, prefix):
        self.runs += 1
        self.choices, self.pos, self.trace = prefix, 0, []
        self.over, self.fill = {}, []
        self.nheap = 0
        self.op = op
        self.depth = 0
        try:
            r = self.call(op[1], list(op[2]))
        except Stop:
            return
        if self.leaf:
            self.leaf(op, r, self)
        for (o, off), (sz, v) in self.over.items():
            self.join(self.cell(o, off), sz, v)
        for lo, hi, b, o in self.fill:
            for c in [c for c in self.cells if c[0] == o and lo <= c[1] < hi]:
                self.join(c, self.csize[c], b * int('01' * self.csize[c], 16))

    def join(self, c, sz, v):
        if isinstance(c[0], tuple) and c[0][0] == 'stack':
            return
        d = self.cells.setdefault(c, {})
        self.csize.setdefault(c, sz)
        if self.csize[c] != sz:
            v = None
        if v in d or None in d:
            return
        if c in self.wide and isinstance(v, int):
            return
        if isinstance(v, tuple) and v[0] == 'iv' or len(d) >= WIDEN and isinstance(v, int):
            old = [k for k in d if isinstance(k, tuple) and k[0] == 'iv']
            lo = min([v if isinstance(v, int) else v[1]] + [k if isinstance(k, int) else k[1] for k in d if isinstance(k, int) or k in old])
            hi = max([v if isinstance(v, int) else v[2]] + [k if isinstance(k, int) else k[2] for k in d if isinstance(k, int) or k in old])
            if old and old[0][1] <= lo and hi <= old[0][2]:
                return
            if old or len(d) >= WIDEN:
                lo, hi = 0, (1 << 8 * sz) - 1
                self.wide.add(c)
            for k in list(d):
                if isinstance(k, int) or k in old:
                    del d[k]
            v = ('iv', lo, hi)
        d[v] = None
        for op, prefix in self.readers.get(c, ()):
            self.work.append((op, prefix + (v,)))

    def used(self, v):
        """a meaningless value takes effect"""
        if isinstance(v, tuple) and v[0] == 'poison':
            self.event(v[1], v[2], v[3])
            raise Stop
        return v

    def event(self, kind, inst, text):
        self.events.setdefault((kind, inst.fn.name, inst.bb.id, inst.idx), (inst, text))

    # -- choices ----------------------------------------------------------------
    def choose(self, options, cell=None):
        options = list(options)
        if self.pos < len(self.choices):
            v = self.choices[self.pos]
        else:
            if cell is not None:
                self.readers[cell].append((self.op, self.choices))
            elif len(options) == 1:
                return options[0]
            if not options:
                raise Stop
            for o in options[1:]:
                self.work.append((self.op, self.choices + (o,)))
            v = options[0]
            self.choices = self.choices + (v,)
            self.done.add((self.op, self.choices))
        self.pos += 1
        return v

    # -- memory -----------------------------------------------------------------
    def cell(self, obj, off):
        return (obj, 0) if obj in self.smash else (obj, off)

    def alloc(self, kind, key, size):
        o = (kind, key)
        self.size[o] = size
        if size is not None and size > 1024 and kind != 'stack':
            self.smash.add(o)
        return o

    def bounds(self, i, obj, off, sz):
        n = self.size.get(obj)
        lo, hi = (off, off) if isinstance(off, int) else (off[1], off[2])
        if n is None:
            return
        if lo < 0 or hi + sz > n:
            if isinstance(off, int):
                self.event('oob', i, 'accesses offset %d of an object of %d bytes' % (off, n))
                raise Stop
            raise Undecided('offset range at %s' % i.where())

    def load(self, i, p, sz, ty):
        if p is None or p[0] == 'iv':
            return None
        if p[0] != 'p':
            return None
        obj, off = p[1], p[2]
        if isinstance(obj, str):
            return self.gload(obj, off, sz)
        if off is None:
            return None
        self.bounds(i, obj, off, sz)
        if not isinstance(off, int) and obj not in self.smash:
            return None
        k = (obj, off)
        if k in self.over:
            # (of a summarised array: an element is taken to be unchanged between two uses through the same index)
            z, v = self.over[k]
            return v if z == sz else None
        c = self.cell(obj, off)
        if obj not in self.smash:
            for lo, hi, b, o in reversed(self.fill):
                if o == obj and lo <= off and off + sz <= hi:
                    return b * int('01' * sz, 16)
        if obj[0] == 'stack' or obj[0] == 'heap' and obj[1][0] == self.op[0] and c not in self.cells:
            return None
        if self.csize.get(c, sz) != sz:
            return None
        v = self.choose(list(self.cells.get(c, ())), c)
        self.over[k] = (sz, v)
        return v

    def store(self, i, p, v, sz):
        if p is None or p[0] != 'p':
            if self.lenient:
                return
            raise Undecided('store through an unknown pointer at %s' % i.where())
        obj, off = p[1], p[2]
        if isinstance(obj, str):
            return
        if off is None:
            if self.lenient:
                return
            raise Undecided('store at an unknown offset at %s' % i.where())
        self.bounds(i, obj, off, sz)
        if not isinstance(off, int) and obj not in self.smash:
            raise Undecided('store at an unknown offset at %s' % i.where())
        self.over[(obj, off)] = (sz, v)

    def gload(self, g, off, sz):
        k = (g, off if isinstance(off, int) else None, sz)
        if k not in self._gcache:
            self._gcache[k] = self._gload(g, off, sz)
        return self._gcache[k]

    def _gload(self, g, off, sz):
        G = self.m.globals.get(g)
        if G is None or not isinstance(off, int):
            return None
        if 'vt' in G:
            s = G['vt'][off // 8] if 0 <= off // 8 < len(G['vt']) else None
            return ('f', s) if s else None
        if not G.get('const') and self.written(g):
            return None
        flat = self.flatten(G.get('init'), G['ty'], G['size'])
        return flat.get((off, sz)) if flat else None

    def written(self, g):
        if not hasattr(self, '_written'):
            self._written = set()
            for f in self.m.functions.values():
                if f.decl:
                    continue
                for i in f.insts():
                    if i.op == 'load':
                        continue
                    for o in i.operands():
                        if isinstance(o, dict) and 'g' in o and not (i.op == 'getelementptr' and all(
                                u.op == 'load' or u.op == 'getelementptr' and all(x.op == 'load' for x in f.users[u.id]) for u in f.users[i.id])):
                            self._written.add(o['g'])
        return g in self._written

    def flatten(self, init, ty, size):
        if not init:
            return None
        if 'c' in init:
            return {(0, size): cint(init)}
        if 'data' in init and init['data']:
            n = size // len(init['data'])
            return {(k * n, n): v % (1 << 8 * n) for k, v in enumerate(init['data'])}
        if init.get('zero'):
            return {(o, s): 0 for s in (1, 2, 4, 8) for o in range(0, size, s)}
        return None

    # -- evaluation -------------------------------------------------------------
    def val(self, f, env, o):
        if isinstance(o, int):
            return env.get(o)
        if 'c' in o:
            return cint(o)
        if 'null' in o:
            return 0
        if 'g' in o:
            if o['g'] in self.m.functions:
                return ('f', o['g'])
            return ('p', o['g'], o.get('off', 0))
        if 'zero' in o:
            return 0
        return None

    def ty(self, f, o):
        if isinstance(o, int):
            d = f.defs.get(o)
            return d.get('ty') if d is not None else f.args[o]['ty']
        if 'c' in o:
            return 'i%d' % o.get('w', 64)
        return 'ptr'

    def call(self, f, args):
        self.depth += 1
        if self.depth > 60:
            raise Undecided('call depth')
        env = dict(enumerate(args))
        b, prev = f.entry, None
        while True:
            phis = {}
            nxt = None
            for i in b.insts:
                self.steps += 1
                if self.steps > self.budget:
                    raise Undecided('budget')
                op = i.op
                if op == 'phi':
                    for v, pb in i['in']:
                        if pb == prev:
                            phis[i.id] = self.val(f, env, v)
                    continue
                if phis:
                    env.update(phis)
                    phis = {}
                if op == 'ret':
                    self.depth -= 1
                    return self.used(self.val(f, env, i.operands()[0])) if i.operands() else None
                if op == 'br':
                    if 'cond' in i.d:
                        c = self.used(self.val(f, env, i['cond']))
                        if not isinstance(c, int):
                            c = self.choose((1, 0))
                            if isinstance(i['cond'], int):
                                env[i['cond']] = c
                        nxt = i['succ'][0 if c & 1 else 1]
                    else:
                        nxt = i['succ'][0]
                elif op == 'switch':
                    c = self.used(self.val(f, env, i['cond']))
                    if isinstance(c, int):
                        nxt = i['def']
                        for v, t in i['cases']:
                            if cint(v) == c:
                                nxt = t
                    else:
                        nxt = self.choose(sorted({t for _, t in i['cases']} | {i['def']}))
                elif op == 'invoke':
                    env[i.id] = self.invoke(f, i, env)
                    nxt = i['succ'][0]
                elif op == 'unreachable':
                    raise Stop
                elif op == 'call':
                    r = self.invoke(f, i, env)
                    if i.id is not None:
                        env[i.id] = r
                elif op == 'store':
                    self.store(i, self.val(f, env, i['ptr']), self.used(self.val(f, env, i['val'])), i['size'])
                elif op == 'load':
                    env[i.id] = self.load(i, self.val(f, env, i['ptr']), i['size'], i.get('ty'))
                else:
                    env[i.id] = self.pure(f, i, env)
            prev, b = b.id, f.block(nxt)

    def invoke(self, f, i, env):
        args = [self.val(f, env, a) for a in i['args']]
        c = i.callee
        if c is None:
            t = self.val(f, env, i['fptr']) if 'fptr' in i.d else None
            if not (isinstance(t, tuple) and t[0] == 'f'):
                if self.lenient:
                    return None
                raise Undecided('unresolved call at %s' % i.where())
            c = t[1]
        c = self.m.aliases.get(c, c)
        if c.startswith('llvm.'):
            return self.intrinsic(i, c, args, f)
        if is_ostream_op(c):
            return args[0] if args else None
        if self.lenient and ('basic_string' in c and string_op(c) is not None or c.startswith(('_ZSteq', '_ZStne', '_ZSaI', '_ZNSaI'))):
            return args[0] if args and not c.startswith('_ZSt') else None
        if c in ALLOC:
            n = args[0] if c != 'calloc' else (args[0] * args[1] if isinstance(args[0], int) and isinstance(args[1], int) else None)
            self.nheap += 1
            o = self.alloc('heap', (self.op[0], self.nheap), n if isinstance(n, int) else None)
            return ('p', o, 0)
        if c in FREE or c in PURE:
            return None
        if c in STOP or i.get('noret'):
            raise Stop
        g = self.m.functions.get(c)
        if self.hook is not None and g is not None:
            r = self.hook(self, i, g, args)
            if r is not None:
                return r[0]
        if g is not None and not g.decl:
            return self.call(g, args)
        if not self.lenient and any(isinstance(a, tuple) and a[0] == 'p' and not isinstance(a[1], str) for a in args):
            raise Undecided('call of %s at %s' % (c, i.where()))
        return None

    def intrinsic(self, i, c, a, f):
        n = c.split('.')[1]
        w = width(i.get('ty'))
        if n in ('memset',):
            if isinstance(a[0], tuple) and a[0][0] == 'p' and isinstance(a[2], int) and isinstance(a[1], int):
                obj, off = a[0][1], a[0][2]
                if isinstance(obj, str):
                    return None
                if a[2]:
                    self.bounds(i, obj, off, a[2])
                if obj in self.smash:
                    for k in [k for k in self.over if k[0] == obj]:
                        del self.over[k]
                    self.join((obj, 0), self.csize.get((obj, 0), 1), a[1] & 255)
                else:
                    for k in [k for k in self.over if k[0] == obj and off <= k[1] < off + a[2]]:
                        del self.over[k]
                    self.fill.append((off, off + a[2], a[1] & 255, obj))
                return None
            if self.lenient:
                return None
            raise Undecided('memset at %s' % i.where())
        if n in ('memcpy', 'memmove'):
            if all(isinstance(x, tuple) and x[0] == 'p' for x in a[:2]) and isinstance(a[2], int):
                (d, do), (s, so) = (a[0][1], a[0][2]), (a[1][1], a[1][2])
                if isinstance(d, str) or d in self.smash or s in self.smash or not isinstance(do, int) or not isinstance(so, int):
                    if self.lenient:
                        return None
                    raise Undecided('memcpy at %s' % i.where())
                if isinstance(s, str):
                    for k in range(0, a[2]):
                        self.over.pop((d, do + k), None)
                        for z in (1, 2, 4, 8):
                            v = self.gload(s, so + k, z)
                            if v is not None:
                                self.over[(d, do + k)] = (z, v)
                    return None
                src = {k: v for k, v in self.over.items() if k[0] == s and so <= k[1] < so + a[2]}
                for k, dd in self.cells.items():
                    if k[0] == s and so <= k[1] < so + a[2] and k not in src:
                        src[k] = (self.csize[k], self.load(i, ('p', s, k[1]), self.csize[k], None))
                for (_, o), v in src.items():
                    self.over[(d, o - so + do)] = v
                return None
            if self.lenient:
                return None
            raise Undecided('memcpy at %s' % i.where())
        if n in ('umin', 'umax', 'smin', 'smax') and all(isinstance(x, int) for x in a[:2]):
            return {'umin': min(a[0], a[1]), 'umax': max(a[0], a[1]),
                    'smin': min(a[:2], key=lambda x: signed(x, w)), 'smax': max(a[:2], key=lambda x: signed(x, w))}[n]
        if n == 'abs' and isinstance(a[0], int):
            return abs(signed(a[0], w)) % (1 << w)
        if n == 'expect':
            return a[0]
        return None

    def pure(self, f, i, env):
        op = i.op
        if op == 'alloca':
            n = self.val(f, env, i['n'])
            o = self.alloc('stack', (self.depth, f.name, i.id), i['size'] * n if isinstance(n, int) and i['size'] >= 0 else None)
            for k in [k for k in self.over if k[0] == o]:
                del self.over[k]
            return ('p', o, 0)
        if op == 'getelementptr':
            p = self.val(f, env, i['ptr'])
            if not isinstance(p, tuple) or p[0] != 'p' or i.get('opaque') or p[2] is None:
                return None
            off = p[2]
            lo, hi = (off, off) if isinstance(off, int) else (off[1], off[2])
            lo += i['off']
            hi += i['off']
            for v, s in i.get('var', []):
                x = self.val(f, env, v)
                w = width(self.ty(f, v))
                if isinstance(x, int):
                    lo += signed(x, w) * s
                    hi += signed(x, w) * s
                elif isinstance(x, tuple) and x[0] == 'iv' and s > 0 and x[2] < 1 << (w - 1):
                    lo += x[1] * s
                    hi += x[2] * s
                else:
                    return ('p', p[1], None)
            return ('p', p[1], lo if lo == hi else ('iv', lo, hi))
        if op in ('landingpad', 'resume'):
            raise Stop
        vs = [self.val(f, env, o) for o in i.operands()]
        ty = i.get('ty')
        w = width(ty)
        if op == 'icmp':
            return icmp(i['pred'], vs[0], vs[1], width(self.ty(f, i.operands()[0])))
        if op == 'select':
            if isinstance(vs[0], int):
                return vs[1] if vs[0] & 1 else vs[2]
            if vs[1] == vs[2]:
                return vs[1]
            c = self.choose((1, 0))
            return vs[1] if c else vs[2]
        if op == 'extractvalue' and isinstance(vs[0], tuple) and vs[0][0] == 'agg':
            return vs[0][1].get(tuple(i['idx']))
        if op == 'insertvalue':
            d = dict(vs[0][1]) if isinstance(vs[0], tuple) and vs[0][0] == 'agg' else {}
            d[tuple(i['idx'])] = vs[1]
            return ('agg', d)
        if op in ('bitcast', 'freeze', 'inttoptr', 'ptrtoint', 'addrspacecast'):
            return vs[0]
        if op in ('zext', 'sext', 'trunc'):
            v = vs[0]
            sw = width(self.ty(f, i.operands()[0]))
            if isinstance(v, tuple) and v[0] == 'poison':
                return v
            if isinstance(v, int):
                if op == 'sext':
                    return signed(v, sw) % (1 << w)
                return v % (1 << w)
            if isinstance(v, tuple) and v[0] == 'iv':
                if op == 'zext' or op == 'sext' and v[2] < 1 << (sw - 1):
                    return v
                if op == 'trunc':
                    return v if v[2] < 1 << w else ('iv', 0, (1 << w) - 1)
            if op == 'zext' and v is None and sw <= 16:
                return ('iv', 0, (1 << sw) - 1)
            return None
        if len(vs) == 2:
            return self.binop(i, op, vs[0], vs[1], w)
        return None

    def binop(self, i, op, a, b, w):
        M = (1 << w) - 1
        for x in (a, b):
            if isinstance(x, tuple) and x[0] == 'poison':
                return x
        if isinstance(a, int) and isinstance(b, int):
            if op == 'add': return (a + b) & M
            if op == 'sub': return (a - b) & M
            if op == 'mul': return (a * b) & M
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op in ('shl', 'lshr', 'ashr'):
                if b >= w:
                    return ('poison', 'shift', i, 'shifts a %d-bit value by %d' % (w, signed(b, w)))
                if op == 'shl': return (a << b) & M
                if op == 'lshr': return a >> b
                return (signed(a, w) >> b) & M
            if op in ('udiv', 'urem', 'sdiv', 'srem'):
                if b == 0:
                    self.event('div', i, 'divides by zero')
                    raise Stop
                if op == 'udiv': return a // b
                if op == 'urem': return a % b
                x, y = signed(a, w), signed(b, w)
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return (q if op == 'sdiv' else x - q * y) & M
            return None
        if op == 'sub' and all(isinstance(x, tuple) and x[0] == 'p' for x in (a, b)) and a[1] == b[1] and isinstance(a[2], int) and isinstance(b[2], int):
            return (a[2] - b[2]) & M
        if op in ('add', 'sub') and isinstance(a, tuple) and a[0] == 'p' and isinstance(b, int) and isinstance(a[2], int):
            return ('p', a[1], a[2] + signed(b, w) * (1 if op == 'add' else -1))

        def iv(x):
            return (x, x) if isinstance(x, int) else (x[1], x[2]) if isinstance(x, tuple) and x[0] == 'iv' else None
        x, y = iv(a), iv(b)
        if op == 'and':
            for k in (x, y):
                if k is not None and k[0] == k[1] and (k[0] & (k[0] + 1)) == 0:
                    return ('iv', 0, k[0])
            for k in (y, x):
                if k is not None:
                    return ('iv', 0, k[1])
            return None
        if x is None or y is None:
            return None
        if op == 'add' and x[1] + y[1] <= M: return ('iv', x[0] + y[0], x[1] + y[1])
        if op == 'sub' and x[0] >= y[1]: return ('iv', x[0] - y[1], x[1] - y[0])
        if op == 'mul' and x[1] * y[1] <= M: return ('iv', x[0] * y[0], x[1] * y[1])
        if op == 'shl' and y[0] == y[1] < w and x[1] << y[1] <= M: return ('iv', x[0] << y[0], x[1] << y[0])
        if op == 'lshr' and y[0] == y[1] < w: return ('iv', x[0] >> y[0], x[1] >> y[0])
        if op in ('or', 'xor', 'shl', 'add', 'sub', 'mul') and w <= 32:
            k = max(x[1], y[1]).bit_length()
            return ('iv', 0, (1 << k) - 1 if op in ('or', 'xor') else M)
        return None


def cint(o):
    return o['c'] % (1 << o.get('w', 64)) if isinstance(o['c'], int) else int(o['c']) % (1 << o.get('w', 64))


def icmp(p, a, b, w):
    for x in (a, b):
        if isinstance(x, tuple) and x[0] == 'poison':
            return x
    if isinstance(a, tuple) and a[0] == 'p' or isinstance(b, tuple) and b[0] == 'p':
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'p':
            if a[1] == b[1] and isinstance(a[2], int) and isinstance(b[2], int):
                a, b, w = a[2] + (1 << 40), b[2] + (1 << 40), 64
            elif a[1] != b[1] and p in ('eq', 'ne'):
                return int(p == 'ne')
            else:
                return None
        elif 0 in (a, b) and p in ('eq', 'ne'):
            return int(p == 'ne')
        else:
            return None
    if isinstance(a, int) and isinstance(b, int):
        if p[0] == 's':
            a, b = signed(a, w), signed(b, w)
        return int({'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[p if len(p) == 2 and p in ('eq', 'ne') else p[1:]])

    def iv(x):
        return (x, x) if isinstance(x, int) else (x[1], x[2]) if isinstance(x, tuple) and x[0] == 'iv' else None
    x, y = iv(a), iv(b)
    if x and y and p[0] == 'u':
        q = p[1:]
        if q in ('lt', 'le'):
            if x[1] < y[0]: return 1
            if x[0] > y[1] or q == 'lt' and x[0] >= y[1]: return 0
        if q in ('gt', 'ge'):
            if x[0] > y[1]: return 1
            if x[1] < y[0] or q == 'gt' and x[1] <= y[0]: return 0
    return None
