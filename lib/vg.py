"""Value graphs: what a function computes, as hash-consed expressions over its inputs.

A function is evaluated over values whose every bit is 0, 1 or a literal of an expression (bit k of an input, of a linear form, of a
product, a comparison ...).  Equal values get equal representations (global value numbering with bit-level and linear normal forms),
so two computations are compared by comparing what they leave behind.  A branch on a condition that is not determined splits the
evaluation; each part carries the condition as a fact.  Nothing is sampled: a literal stands for both values of a bit.

values:  tuple of literals, least significant first | Ptr(object, offset value) | Fn(name) | Agg(dict)
literal: 0 | 1 | 2+2*atom (atom is true) | 3+2*atom (atom is false)
"""
from effects import ALLOC, FREE, PURE, STOP, is_ostream_op
from ir import AnalysisError


class Undecided(Exception):
    pass


class Stop(Exception):
    """the evaluated path ends: exit, throw, contradiction"""
    def __init__(self, why=''):
        self.why = why


class Ptr(tuple):
    __slots__ = ()

    def __new__(cls, obj, off):
        return tuple.__new__(cls, ('ptr', obj, off))
    obj = property(lambda s: s[1])
    off = property(lambda s: s[2])


class Fn(tuple):
    __slots__ = ()

    def __new__(cls, name):
        return tuple.__new__(cls, ('fn', name))


class Agg(tuple):
    __slots__ = ()

    def __new__(cls, d):
        return tuple.__new__(cls, ('agg', tuple(sorted(d.items(), key=repr))))

    def get(self, k):
        return dict(self[1]).get(k)


def isint(v):
    return type(v) is tuple


def width(ty):
    if ty and ty[0] == 'i' and ty[1:].isdigit():
        return int(ty[1:])
    return {'float': 32, 'double': 64, 'x86_fp80': 80}.get(ty, 64)


class Graph:
    """hash-consed atoms and terms; shared by the evaluations that are compared"""
    def __init__(self):
        self.atoms, self.akey = {}, []
        self.terms, self.tkey = {}, []
        self._c = {}
        self.nfresh = 0

    # -- construction ----------------------------------------------------------
    def atom(self, key):
        a = self.atoms.get(key)
        if a is None:
            a = self.atoms[key] = len(self.akey)
            self.akey.append(key)
        return 2 + 2 * a

    def term(self, key, w):
        key = (w,) + key
        t = self.terms.get(key)
        if t is None:
            t = self.terms[key] = len(self.tkey)
            self.tkey.append(key)
        return tuple(self.atom(('t', t, k)) for k in range(w))

    def const(self, v, w):
        v &= (1 << w) - 1
        c = self._c.get((v, w))
        if c is None:
            c = self._c[(v, w)] = tuple((v >> k) & 1 for k in range(w))
        return c

    def inp(self, name, w):
        return self.term(('in', name), w)

    def fresh(self, w):
        self.nfresh += 1
        return self.term(('in', ('?', self.nfresh)), w)

    def num(self, v):
        """the constant, or None"""
        if not isint(v):
            return None
        r = 0
        for k, b in enumerate(v):
            if b > 1:
                return None
            r |= b << k
        return r

    def lo(self, v):
        return sum(1 << k for k, b in enumerate(v) if b == 1)

    def hi(self, v):
        return sum(1 << k for k, b in enumerate(v) if b != 0)

    # -- literals --------------------------------------------------------------
    def land(self, a, b):
        if a == 0 or b == 0 or a == b ^ 1: return 0
        if a == 1: return b
        if b == 1 or a == b: return a
        return self.atom(('and', min(a, b), max(a, b)))

    def lor(self, a, b):
        return self.land(a ^ 1, b ^ 1) ^ 1

    def lxor(self, a, b):
        if a < 2: return b ^ a
        if b < 2: return a ^ b
        if a == b: return 0
        if a == b ^ 1: return 1
        n = (a & 1) ^ (b & 1)
        a, b = a & ~1, b & ~1
        return self.atom(('xor', min(a, b), max(a, b))) ^ n

    def allz(self, lits):
        s = set()
        for l in lits:
            if l == 1: return 0
            if l > 1:
                if l ^ 1 in s: return 0
                s.add(l)
        if not s: return 1
        if len(s) == 1: return s.pop() ^ 1
        if len(s) == 2:
            a, b = sorted(s)
            return self.land(a ^ 1, b ^ 1)
        return self.atom(('allz', frozenset(s)))

    # -- linear forms ------------------------------------------------------------
    def whole(self, v):
        """the term all of whose (low) bits v is -> (term id, width of the term) or None"""
        if v[0] < 2 or v[0] & 1:
            return None
        k = self.akey[(v[0] - 2) >> 1]
        if k[0] != 't' or k[2] != 0:
            return None
        t = k[1]
        W = self.tkey[t][0]
        if W < len(v):
            return None
        for j, b in enumerate(v):
            if b < 2 or b & 1 or self.akey[(b - 2) >> 1] != ('t', t, j):
                return None
        return t, W

    def lin(self, v):
        w = len(v)
        c = self.num(v)
        if c is not None:
            return c, {}
        t = self.whole(v)
        if t is not None:
            k = self.tkey[t[0]]
            if k[1] == 'lin':
                const, d = k[2], {}
                for b, co in k[3]:
                    for bb, cc in self.lin(b[:w])[1].items() if t[1] > w else [(b, 1)]:
                        d[bb] = d.get(bb, 0) + co * cc
                    if t[1] > w:
                        const += co * self.lin(b[:w])[0]
                return const & ((1 << w) - 1), d
        elif v[0] & 1 and v[0] > 1:
            u = tuple(b ^ 1 for b in v)
            if self.whole(u) is not None:       # ~u is -1 - u
                c, d = self.lin(u)
                return (-1 - c) & ((1 << w) - 1), {k: -x for k, x in d.items()}
        return 0, {v: 1}

    def mklin(self, w, const, d):
        M = (1 << w) - 1
        d = {b: c & M for b, c in d.items() if c & M}
        const &= M
        if not d:
            return self.const(const, w)
        ones = [b for b, c in d.items() if c == 1]
        for n, a in enumerate(ones):            # two parts of one term
            for b in ones[n + 1:]:
                if all(x == 0 or y == 0 for x, y in zip(a, b)):
                    u = tuple(x | y for x, y in zip(a, b))
                    if self.whole(u) is not None:
                        del d[a], d[b]
                        c, e = self.lin(u)
                        for k, x in e.items():
                            d[k] = d.get(k, 0) + x
                        return self.mklin(w, const + c, d)
        if len(d) == 1 and const == 0:
            (b, c), = d.items()
            if c & (c - 1) == 0:
                return self.shl(b, c.bit_length() - 1)
        return self.term(('lin', const, tuple(sorted(d.items()))), w)

    def diff(self, a, b):
        """a - b when that is a constant, else None (signed)"""
        if not isint(a) or not isint(b) or len(a) != len(b):
            return None
        (ca, da), (cb, db) = self.lin(a), self.lin(b)
        if da != db:
            return None
        x = (ca - cb) & ((1 << len(a)) - 1)
        return x - (1 << len(a)) if x >> (len(a) - 1) else x

    # -- operations --------------------------------------------------------------
    def shl(self, v, n):
        return (0,) * min(n, len(v)) + v[:max(0, len(v) - n)]

    def lshr(self, v, n):
        return v[n:] + (0,) * min(n, len(v))

    def add(self, a, b, sign=1):
        w = len(a)
        x, y = self.num(a), self.num(b)
        if x is not None and y is not None:
            return self.const(x + sign * y, w)
        if y == 0:
            return a
        if sign == 1:
            if x == 0:
                return b
            if all(p == 0 or q == 0 for p, q in zip(a, b)):
                return tuple(p | q for p, q in zip(a, b))
        elif a == b:
            return self.const(0, w)
        (ca, da), (cb, db) = self.lin(a), self.lin(b)
        d = dict(da)
        for k, c in db.items():
            d[k] = d.get(k, 0) + sign * c
        return self.mklin(w, ca + sign * cb, d)

    def mul(self, a, b):
        w = len(a)
        x, y = self.num(a), self.num(b)
        if x is not None and y is not None:
            return self.const(x * y, w)
        if x is not None:
            a, b, x, y = b, a, y, x
        if y is not None:
            if y == 0:
                return self.const(0, w)
            if y & (y - 1) == 0:
                return self.shl(a, y.bit_length() - 1)
            c, d = self.lin(a)
            return self.mklin(w, c * y, {k: v * y for k, v in d.items()})
        r = self.term(('mul',) + tuple(sorted((a, b))), w)
        top = (self.hi(a) * self.hi(b)).bit_length()
        return r[:top] + (0,) * (w - len(r[:top])) if top < w else r

    def binop(self, op, a, b):
        w = len(a)
        if op == 'add': return self.add(a, b)
        if op == 'sub': return self.add(a, b, -1)
        if op == 'mul': return self.mul(a, b)
        if op == 'and': return tuple(self.land(p, q) for p, q in zip(a, b))
        if op == 'or': return tuple(self.lor(p, q) for p, q in zip(a, b))
        if op == 'xor': return tuple(self.lxor(p, q) for p, q in zip(a, b))
        x, y = self.num(a), self.num(b)
        if op in ('shl', 'lshr', 'ashr'):
            if y is None:
                return self.term((op, a, b), w)
            if y >= w:
                raise Undecided('shift of %d bits by %d' % (w, y))
            if op == 'shl': return self.shl(a, y)
            if op == 'lshr': return self.lshr(a, y)
            return a[y:] + (a[-1],) * y
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if y == 0:
                raise Stop('division by zero')
            if op[0] == 's' and a[-1] == 0 and b[-1] == 0:
                op = 'u' + op[1:]
            if y is not None and op[0] == 'u':
                if x is not None:
                    return self.const(x // y if op == 'udiv' else x % y, w)
                if y & (y - 1) == 0:
                    n = y.bit_length() - 1
                    return self.lshr(a, n) if op == 'udiv' else a[:n] + (0,) * (w - n)
            if x is not None and y is not None:
                p, q = (x - (1 << w) if x >> (w - 1) else x), (y - (1 << w) if y >> (w - 1) else y)
                d = abs(p) // abs(q) * (1 if (p < 0) == (q < 0) else -1)
                return self.const(d if op == 'sdiv' else p - d * q, w)
            return self.term((op, a, b), w)
        return self.term((op, a, b), w)

    def eq(self, a, b):
        d = self.diff(a, b)
        if d is not None:
            return int(d == 0)
        xs = [self.lxor(p, q) for p, q in zip(a, b)]
        # x + c == y  is  x == y - c
        (ca, da), (cb, db) = self.lin(a), self.lin(b)
        if self.whole(a) and self.tkey[self.whole(a)[0]][1] == 'lin' or self.whole(b) and self.tkey[self.whole(b)[0]][1] == 'lin':
            dd = dict(da)
            for k, c in db.items():
                dd[k] = dd.get(k, 0) - c
            dd = {k: c for k, c in dd.items() if c & ((1 << len(a)) - 1)}
            if len(dd) == 1:
                (k, c), = dd.items()
                if c in (1, -1, (1 << len(a)) - 1):
                    n = (cb - ca) * (1 if c == 1 else -1)
                    return self.allz([self.lxor(p, q) for p, q in zip(k, self.const(n, len(a)))])
        return self.allz(xs)

    def ult(self, a, b):
        if a == b:
            return 0
        if self.hi(a) < self.lo(b):
            return 1
        if self.lo(a) >= self.hi(b):
            return 0
        y = self.num(b)
        if y is not None and y & (y - 1) == 0:
            return self.allz(a[y.bit_length() - 1:])
        x = self.num(a)
        if x is not None and (x + 1) & x == 0:
            return self.allz(b[x.bit_length():]) ^ 1
        return self.atom(('ult', a, b))

    def icmp(self, p, a, b):
        if p == 'eq': return self.eq(a, b)
        if p == 'ne': return self.eq(a, b) ^ 1
        if p[0] == 's':
            if a[-1] == b[-1]:
                a, b = a[:-1] + (0,), b[:-1] + (0,)
            else:
                a, b = a[:-1] + (a[-1] ^ 1,), b[:-1] + (b[-1] ^ 1,)
        q = p[1:]
        if q == 'lt': return self.ult(a, b)
        if q == 'gt': return self.ult(b, a)
        if q == 'ge': return self.ult(a, b) ^ 1
        return self.ult(b, a) ^ 1

    # -- rewriting under facts / substitutions --------------------------------------
    def rewrite(self, v, facts, memo=None, sub=None):
        """v with every atom that facts decides replaced, and inputs replaced through sub (name -> value)"""
        if memo is None:
            memo = {}
        if isinstance(v, Ptr):
            return Ptr(v.obj, self.rewrite(v.off, facts, memo, sub))
        if isinstance(v, Agg):
            return Agg({k: self.rewrite(x, facts, memo, sub) for k, x in v[1]})
        if not isint(v):
            return v
        return tuple(b if b < 2 else self._rl(b, facts, memo, sub) for b in v)

    def _rl(self, l, facts, memo, sub):
        n, a = l & 1, (l - 2) >> 1
        r = memo.get(a)
        if r is None:
            r = memo[a] = self._ra(a, facts, memo, sub)
        return r ^ n

    def _ra(self, a, facts, memo, sub):
        if a in facts:
            return facts[a]
        k = self.akey[a]
        f = lambda l: l if l < 2 else self._rl(l, facts, memo, sub)
        if k[0] == 'and': return self.land(f(k[1]), f(k[2]))
        if k[0] == 'xor': return self.lxor(f(k[1]), f(k[2]))
        if k[0] == 'allz': return self.allz([f(l) for l in k[1]])
        if k[0] == 'ult':
            return self.ult(self.rewrite(k[1], facts, memo, sub), self.rewrite(k[2], facts, memo, sub))
        if k[0] == 't':
            v = memo.get(('t', k[1]))
            if v is None:
                v = memo[('t', k[1])] = self._rt(k[1], facts, memo, sub)
            b = v[k[2]]
            if v == 'same' or b == 2 + 2 * a:
                return 2 + 2 * a
            return b
        return 2 + 2 * a

    def _rt(self, t, facts, memo, sub):
        k = self.tkey[t]
        w = k[0]
        same = tuple(2 + 2 * self.atoms[('t', t, j)] for j in range(w))
        if k[1] == 'in':
            return sub[k[2]] if sub and k[2] in sub else same
        if k[1] == 'lin':
            r = self.const(k[2], w)
            for b, c in k[3]:
                r = self.add(r, self.mul(self.rewrite(b, facts, memo, sub), self.const(c, w)))
            return r
        if k[1] in ('mul', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            a, b = (self.rewrite(x, facts, memo, sub) for x in k[2:4])
            if (a, b) == k[2:4]:
                return same
            return self.binop(k[1], a, b)
        return same

    def bits_of(self, v, out=None, seen=None):
        """the input bits that v depends on (atoms)"""
        out, seen = set() if out is None else out, set() if seen is None else seen
        st = [v]
        while st:
            x = st.pop()
            if isinstance(x, frozenset) or isinstance(x, tuple) and not isinstance(x, (Ptr, Fn, Agg)):
                st += [y for y in x if not isinstance(y, str)]
            elif isinstance(x, Ptr):
                st.append(x.off)
            elif isinstance(x, int) and x > 1 and x >> 1 not in seen:
                seen.add(x >> 1)
                a = (x - 2) >> 1
                k = self.akey[a]
                if k[0] == 't':
                    t = self.tkey[k[1]]
                    if t[1] == 'in':
                        out.add(a)
                    elif t[1] == 'lin':
                        st += [b for b, c in t[3]]
                    else:
                        st += [y for y in t[2:] if isinstance(y, tuple)]
                elif k[0] in ('and', 'xor'):
                    st += [k[1], k[2]]
                elif k[0] == 'allz':
                    st += list(k[1])
                elif k[0] == 'ult':
                    st += [k[1], k[2]]
                else:
                    out.add(a)
        return out

    def witness(self, conds, facts=None):
        """an assignment of the input bits under which every (literal, value) of conds holds, or None: constant propagation of a few candidates"""
        base = {}
        for l, v in list(conds) + [(2 + 2 * a, v) for a, v in (facts or {}).items()]:
            k = self.akey[(l - 2) >> 1] if l > 1 else None
            if k and k[0] == 't' and self.tkey[k[1]][1] == 'in':
                a = (l - 2) >> 1
                if base.setdefault(a, v ^ (l & 1)) != v ^ (l & 1):
                    return None
        rest = [(l, v) for l, v in conds if l < 2 or (l - 2) >> 1 not in base]
        bits = set()
        for l, v in rest:
            self.bits_of((l,), bits)
        bits = sorted(bits - set(base))
        for pat in (lambda n: 0, lambda n: 1, lambda n: n & 1, lambda n: (n >> 1) & 1, lambda n: n == 0, lambda n: n == len(bits) - 1, lambda n: n != 0, lambda n: (n * n // 3) & 1):
            w = dict(base)
            for n, a in enumerate(bits):
                w[a] = int(pat(n))
            memo = {}
            if all((l if l < 2 else self._rl(l, w, memo, None)) == v for l, v in rest):
                return w
        return None

    # -- text ----------------------------------------------------------------------
    def show(self, v, depth=3):
        if isinstance(v, Ptr):
            return '%s+%s' % (v.obj, self.show(v.off, depth))
        if not isint(v):
            return str(v)
        c = self.num(v)
        if c is not None:
            return str(c) if c < 4096 else hex(c)
        t = self.whole(v)
        if t is not None:
            return self.showt(t[0], depth) + ('' if t[1] == len(v) else '[%d]' % len(v))
        out, k = [], len(v) - 1
        while k >= 0:
            b = v[k]
            j = k
            if b < 2:
                while j >= 0 and v[j] < 2:
                    j -= 1
                out.append(''.join(str(x) for x in v[j + 1:k + 1][::-1]) if k - j < 9 else '%s*%d' % (b, k - j))
            else:
                key = self.akey[(b - 2) >> 1]
                if key[0] == 't' and not b & 1:
                    n = key[2]
                    while j >= 0 and v[j] > 1 and self.akey[(v[j] - 2) >> 1] == ('t', key[1], n - (k - j)) and not v[j] & 1:
                        j -= 1
                    out.append('%s[%d..%d]' % (self.showt(key[1], depth - 1), n - (k - j) + 1, n))
                else:
                    j -= 1
                    out.append(self.showl(b, depth - 1))
            k = j
        return '{' + ' '.join(out) + '}'

    def showt(self, t, depth):
        k = self.tkey[t]
        if k[1] == 'in':
            return str(k[2]) if not isinstance(k[2], tuple) else '.'.join(str(x) for x in k[2])
        if depth <= 0:
            return '..'
        if k[1] == 'lin':
            w = k[0]
            s = lambda c: c - (1 << w) if c >> (w - 1) else c
            return '(' + ' + '.join(['%s%s' % ('' if c == 1 else '%d*' % s(c), self.show(b, depth - 1)) for b, c in k[3]] + ([str(s(k[2]))] if k[2] else [])) + ')'
        return '%s(%s)' % (k[1], ', '.join(self.show(x, depth - 1) if isinstance(x, tuple) else str(x) for x in k[2:]))

    def showl(self, l, depth=3):
        if l < 2:
            return str(l)
        k = self.akey[(l - 2) >> 1]
        n = 'not ' if l & 1 else ''
        if k[0] == 't':
            return '%s%s.%d' % (n, self.showt(k[1], depth), k[2])
        if depth <= 0:
            return n + '..'
        if k[0] == 'ult':
            return '%s%s < %s' % (n, self.show(k[1], depth - 1), self.show(k[2], depth - 1))
        if k[0] == 'allz':
            return '%sall zero{%s}' % (n, ', '.join(sorted(self.showl(x, depth - 1) for x in k[1])[:3]) + (',..' if len(k[1]) > 3 else ''))
        return '%s(%s %s %s)' % (n, self.showl(k[1], depth - 1), k[0], self.showl(k[2], depth - 1))


class Path:
    __slots__ = ('facts', 'conds', 'events', 'ret', 'mem', 'end', 'init', 'st', 'policy')

    def __init__(self, **k):
        for a, b in k.items():
            setattr(self, a, b)


class Eval:
    """evaluates functions of module m over graph g"""
    def __init__(self, m, g, hook=None, steps=400000, paths=400):
        self.m, self.g, self.hook = m, g, hook
        self.max_steps, self.max_paths = steps, paths
        self.policy = {}            # object -> 'sym' (unknown contents, named by the object) | 'undef'
        self.steps = 0
        self.sizes = {}             # heap object -> bytes
        self.opaque = False         # copies of known length leave an event and unknown contents
        self.tag = ''               # distinguishes the objects of successive evaluations
        self.partial = self.cut = False     # give back the first paths instead of giving up when there are too many
        self.state = None           # free for the hook: copied for every path

    # -- driver -----------------------------------------------------------------
    def paths(self, f, args, mem=None, facts=None):
        """all paths through f -> list of Path; mem: initial memory {(obj, off): (value, byte)}"""
        out, work = [], [()]
        self.cut = False
        while work:
            pre = work.pop()
            if len(out) >= self.max_paths:
                if self.partial:
                    self.cut = True
                    break
                raise Undecided('too many paths through %s' % f.short)
            self.choices, self.pos, self.pending = pre, 0, []
            self.facts = dict(facts or {})
            self.memo = {}
            self.mem = dict(mem or {})
            self.sym = {}
            self.cnt = {}
            self.conds, self.events = [], []
            self.nobj = 0
            self.st = dict(self.state or {})
            self.depth = 0
            self.left = self.max_steps
            end, ret = 'return', None
            try:
                ret = self.call(f, list(args))
            except Stop as e:
                end = e.why or 'stop'
            work += self.pending
            if end == 'infeasible':
                continue
            out.append(Path(facts=self.facts, conds=self.conds, events=self.events, ret=self.nrm(ret) if ret is not None else None,
                            mem=self.mem, end=end, init=self.sym, st=self.st))
        return out

    def nrm(self, v):
        return self.g.rewrite(v, self.facts, self.memo) if self.facts else v

    def assume(self, l, val):
        """literal l has value val on this path"""
        if l < 2:
            if l != val:
                raise Stop('infeasible')
            return
        a, v = (l - 2) >> 1, val ^ (l & 1)
        if a in self.facts:
            if self.facts[a] != v:
                raise Stop('infeasible')
            return
        self.facts[a] = v
        self.memo = {}
        k = self.g.akey[a]
        if k[0] == 'allz' and v == 1:
            for x in k[1]:
                self.assume(x, 0)
        elif k[0] == 'and' and v == 1:
            self.assume(k[1], 1)
            self.assume(k[2], 1)

    def choose(self, l):
        """value of literal l: decided, or split"""
        l = self.nrm((l,))[0]
        if l < 2:
            return l
        if self.pos < len(self.choices):
            v = self.choices[self.pos]
        else:
            v = 1
            self.pending.append(self.choices + (0,))
            self.choices = self.choices + (1,)
        self.pos += 1
        self.conds.append((l, v))
        self.assume(l, v)
        return v

    # -- memory -----------------------------------------------------------------
    def obj(self, kind, size=None):
        self.nobj += 1
        return '%s%s%d' % (self.tag, kind, self.nobj)

    def load(self, p, n, w, ty='i'):
        g = self.g
        if not isinstance(p, Ptr):
            if g.num(p) == 0:
                raise Stop('null')
            raise Undecided('load through an unknown pointer')
        off = g.num(self.nrm(p.off))
        if p.obj in self.m.globals:
            v = self.gload(p.obj, off, n, w)
            if v is not None:
                return v
        if off is None:
            k = (p.obj, self.nrm(p.off), n)
            if k in self.sym:
                return self.sym[k]
            v = self.sym[k] = g.term(('in', ('ld', p.obj, k[1], self.cnt.get(p.obj, 0))), w) if ty != 'ptr' else Ptr('*%s' % p.obj, g.const(0, 64))
            return v
        bs = [self.mem.get((p.obj, off + j)) for j in range(n)]
        if all(b is None for b in bs):
            v = self.initial(p.obj, off, n, w, ty)
            self.put(p.obj, off, v, n)
            return v
        if bs[0] is not None and all(b is not None and (b[0] is bs[0][0] or b[0] == bs[0][0]) and b[1] == j for j, b in enumerate(bs)) and (not isint(bs[0][0]) or (len(bs[0][0]) + 7) // 8 >= n):
            v = bs[0][0]
            if not isint(v):
                return v
            return v[:w] + (0,) * (w - len(v[:w]))
        r = ()
        for j, b in enumerate(bs):
            if b is None:
                v = self.initial(p.obj, off + j, 1, 8, 'i')
                self.put(p.obj, off + j, v, 1)
                b = (v, 0)
            if not isint(b[0]):
                raise Undecided('part of a pointer')
            x = b[0][8 * b[1]:8 * b[1] + 8]
            r += x + (0,) * (8 - len(x))
        return r[:w]

    def initial(self, obj, off, n, w, ty):
        if self.policy.get(obj) == 'zero':
            return self.g.const(0, w)
        if self.policy.get(obj) == 'sym':
            if ty == 'ptr':
                return Ptr('%s.%d' % (obj, off), self.g.const(0, 64))
            return self.g.inp((obj, off, n), w)
        if ty == 'ptr':
            return Ptr('?%s.%d' % (obj, off), self.g.const(0, 64))
        return self.g.fresh(w)

    def put(self, obj, off, v, n):
        for j in range(n):
            self.mem[(obj, off + j)] = (v, j)

    def store(self, i, p, v, n):
        if not isinstance(p, Ptr):
            if self.g.num(p) == 0:
                raise Stop('null')
            raise Undecided('store through an unknown pointer')
        off = self.g.num(self.nrm(p.off))
        if off is None:
            o = self.nrm(p.off)
            self.event('store', i, p.obj, o, v, n)
            self.havoc(p.obj)
            self.sym[(p.obj, o, n)] = v
            return
        self.put(p.obj, off, v, n)
        for k in [k for k in self.sym if k[0] == p.obj]:
            del self.sym[k]
        if self.watch(p.obj):
            self.event('store', i, p.obj, p.off, v, n)

    def watch(self, obj):
        return False

    def havoc(self, obj):
        for k in [k for k in self.mem if k[0] == obj]:
            del self.mem[k]
        for k in [k for k in self.sym if k[0] == obj]:
            del self.sym[k]
        self.cnt[obj] = self.cnt.get(obj, 0) + 1
        if self.policy.get(obj):
            self.policy = dict(self.policy)
            self.policy[obj] = None

    def event(self, kind, inst, *a):
        self.events.append((kind, inst) + tuple(self.nrm(x) if isinstance(x, tuple) else x for x in a))

    def gload(self, name, off, n, w):
        G = self.m.globals[name]
        if off is None:
            return None
        if 'vt' in G:
            s = G['vt'][off // 8] if 0 <= off // 8 < len(G['vt']) else None
            return Fn(self.m.aliases.get(s, s)) if s else None
        if not G.get('const') and (name, off) in self.mem:
            return None
        init = G.get('init')
        if not G.get('const') and name not in getattr(self, 'fixed', ()):
            if name in self.policy:
                return None
            self.policy = dict(self.policy)
            self.policy[name] = 'sym'
            return None
        if not init:
            return None
        if 'c' in init:
            return self.g.const(int(init['c']), 8 * G['size'])[8 * off:8 * off + w]
        if init.get('data'):
            sz = G['size'] // len(init['data'])
            if off % sz == 0 and n == sz and off // sz < len(init['data']):
                return self.g.const(int(init['data'][off // sz]), w)
        if init.get('zero'):
            return self.g.const(0, w)
        return None

    # -- evaluation ----------------------------------------------------------------
    def val(self, f, env, o):
        if isinstance(o, int):
            v = env.get(o)
            if v is None:
                raise Undecided('value in %s' % f.short)
            return v
        if 'c' in o:
            return self.g.const(int(o['c']), o.get('w', 64))
        if 'null' in o:
            return self.g.const(0, 64)
        if 'g' in o:
            if o['g'] in self.m.functions:
                return Fn(o['g'])
            return Ptr(o['g'], self.g.const(o.get('off', 0), 64))
        if 'zero' in o:
            return self.g.const(0, o.get('w', 64))
        if 'undef' in o:
            return self.g.const(0, o.get('w', 64)) if o.get('w') else Agg({})
        raise Undecided('constant %s' % o)

    def call(self, f, args):
        self.depth += 1
        if self.depth > 80:
            raise Undecided('call depth in %s' % f.short)
        env = dict(enumerate(args))
        b, prev = f.entry, None
        while True:
            phis, nxt = {}, None
            for i in b.insts:
                self.left -= 1
                self.steps += 1
                if self.left < 0:
                    raise Undecided('evaluation of %s does not end' % f.short)
                op = i.op
                if op == 'phi':
                    for v, pb in i['in']:
                        if pb == prev:
                            try:
                                phis[i.id] = self.fit(self.val(f, env, v), i.get('ty'))
                            except Undecided:
                                pass
                    continue
                if phis:
                    env.update(phis)
                    phis = {}
                if op == 'ret':
                    self.depth -= 1
                    o = i.operands()
                    return self.val(f, env, o[0]) if o else None
                if op == 'br':
                    if 'cond' in i.d:
                        c = self.choose(self.val(f, env, i['cond'])[0])
                        nxt = i['succ'][0 if c else 1]
                    else:
                        nxt = i['succ'][0]
                elif op == 'switch':
                    c = self.nrm(self.val(f, env, i['cond']))
                    nxt = i['def']
                    for v, t in i['cases']:
                        if self.choose(self.g.eq(self.nrm(c), self.g.const(int(v['c']), len(c)))):
                            nxt = t
                            break
                elif op in ('call', 'invoke'):
                    r = self.invoke(f, i, env)
                    if i.id is not None and r is not None:
                        env[i.id] = r
                    if op == 'invoke':
                        nxt = i['succ'][0]
                elif op == 'unreachable':
                    raise Stop('unreachable')
                elif op == 'store':
                    v = self.val(f, env, i['val'])
                    self.store(i, self.val(f, env, i['ptr']), v, i['size'])
                elif op == 'load':
                    ty = i.get('ty')
                    env[i.id] = self.load(self.val(f, env, i['ptr']), i['size'], width(ty), ty)
                else:
                    env[i.id] = self.pure(f, i, env)
            prev, b = b.id, f.block(nxt)

    def fit(self, v, ty):
        if isint(v) and ty and ty[0] == 'i' and ty[1:].isdigit() and len(v) != int(ty[1:]):
            w = int(ty[1:])
            return v[:w] + (0,) * (w - len(v[:w]))
        return v

    def invoke(self, f, i, env):
        c = i.callee
        if c is None:
            t = self.val(f, env, i['fptr'])
            if not isinstance(t, Fn):
                raise Undecided('unresolved call at %s' % i.where())
            c = t[1]
        c = self.m.aliases.get(c, c)
        if c.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.assume', 'llvm.experimental', 'llvm.invariant')):
            return None
        if c.startswith(('llvm.type.test', 'llvm.public.type.test')):
            return (1,)
        args = [self.val(f, env, a) for a in i['args']]
        g = self.m.functions.get(c)
        if self.hook is not None:
            r = self.hook(self, i, c, g, args)
            if r is not None:
                return r[0]
        if c.startswith('llvm.'):
            return self.intrinsic(i, c, args)
        if is_ostream_op(c):
            return args[0] if args else None
        if c in ALLOC:
            o = self.obj('heap')
            n = self.g.num(args[0])
            if c == 'calloc':
                n = n * (self.g.num(args[1]) or 0) if n else None
            self.sizes[o] = n
            if c == 'calloc':
                self.policy = dict(self.policy)
                self.policy[o] = 'zero'
            return Ptr(o, self.g.const(0, 64))
        if c in FREE or c in PURE:
            return self.g.fresh(width(i.get('ty'))) if i.id is not None and i.get('ty', 'void') != 'void' else None
        if c in STOP or i.get('noret'):
            raise Stop(c)
        if g is not None and not g.decl:
            return self.call(g, args)
        raise Undecided('call of %s at %s' % (c, i.where()))

    def intrinsic(self, i, c, a):
        n = c.split('.')[1]
        g = self.g
        if n in ('memset', 'memcpy', 'memmove'):
            sz = g.num(self.nrm(a[2]))
            if sz == 0:
                return None
            if not isinstance(a[0], Ptr):
                raise Undecided('%s at %s' % (n, i.where()))
            do = g.num(self.nrm(a[0].off))
            self.event(n, i, a[0], a[1], a[2])
            if sz is None or do is None or sz > 1 << 16 or self.opaque:
                self.havoc(a[0].obj)
                return None
            for k in [k for k in self.sym if k[0] == a[0].obj]:
                del self.sym[k]
            if n == 'memset':
                for k in range(sz):
                    self.put(a[0].obj, do + k, a[1][:8], 1)
                return None
            if not isinstance(a[1], Ptr):
                raise Undecided('%s at %s' % (n, i.where()))
            so = g.num(self.nrm(a[1].off))
            if so is None:
                self.havoc(a[0].obj)
                return None
            s = a[1].obj
            if s in self.m.globals:
                G = self.m.globals[s]
                src = [(self.gload(s, so + k, 1, 8), 0) for k in range(sz)]
                if any(x[0] is None for x in src):
                    self.havoc(a[0].obj)
                    return None
            else:
                for k in range(sz):
                    if (s, so + k) not in self.mem:
                        w = 8 if sz % 8 == 0 and k % 8 == 0 and all((s, so + k + j) not in self.mem for j in range(8)) else 1
                        self.put(s, so + k, self.initial(s, so + k, w, 8 * w, 'i'), w)
                src = [self.mem[(s, so + k)] for k in range(sz)]
            for k in range(sz):
                self.mem[(a[0].obj, do + k)] = src[k]
            return None
        if n in ('umin', 'umax', 'smin', 'smax'):
            lt = g.icmp(n[0] + 'lt', a[0], a[1])
            return a[0] if self.choose(lt) == (1 if n.endswith('min') else 0) else a[1]
        if n in ('expect', 'launder', 'strip'):
            return a[0]
        if n == 'usub' and 'sat' in c:
            return g.const(0, len(a[0])) if self.choose(g.ult(a[0], a[1])) else g.add(a[0], a[1], -1)
        if n in ('fshl', 'fshr') and g.num(a[2]) is not None:
            w = len(a[0])
            k = g.num(a[2]) % w
            both = a[1] + a[0]
            return both[w - k:2 * w - k] if n == 'fshl' else both[k:k + w]
        if n == 'bswap':
            v = a[0]
            return tuple(b for k in range(len(v) - 8, -1, -8) for b in v[k:k + 8])
        if n == 'bitreverse':
            return a[0][::-1]
        if n in ('ctlz', 'cttz'):
            v = self.nrm(a[0])
            k = 0
            for b in (v[::-1] if n == 'ctlz' else v):
                if b == 1:
                    return g.const(k, len(v))
                if b != 0:
                    break
                k += 1
            else:
                return g.const(len(v), len(v))
            return g.term((n, v), len(v))
        if n == 'abs':
            return g.add(g.const(0, len(a[0])), a[0], -1) if self.choose(a[0][-1]) else a[0]
        if n in ('umul', 'uadd', 'usub', 'smul', 'sadd', 'ssub') and 'overflow' in c:
            r = g.binop(n[1:], a[0], a[1])
            ov = 0 if g.num(a[0]) is not None and g.num(a[1]) is not None and n == 'umul' and g.num(a[0]) * g.num(a[1]) < 1 << len(a[0]) else g.fresh(1)[0]
            return Agg({(0,): r, (1,): (ov,)})
        if i.id is None or i.get('ty', 'void') == 'void':
            return None
        return g.term(('call', c) + tuple(a), width(i.get('ty')))

    def pure(self, f, i, env):
        op, g = i.op, self.g
        if op == 'alloca':
            return Ptr(self.obj('stack'), g.const(0, 64))
        if op == 'getelementptr':
            p = self.val(f, env, i['ptr'])
            if not isinstance(p, Ptr) or i.get('opaque'):
                if isint(p) and g.num(p) is not None:
                    p = Ptr('null', p)
                else:
                    raise Undecided('address at %s' % i.where())
            off = g.add(p.off, g.const(i['off'], 64))
            for v, s in i.get('var', []):
                x = self.val(f, env, v)
                if not isint(x):
                    raise Undecided('index at %s' % i.where())
                x = self.ext(x, 64, True)
                off = g.add(off, g.mul(x, g.const(s, 64)))
            return g.num(off) is not None and p.obj == 'null' and off or Ptr(p.obj, off)
        if op == 'landingpad':
            raise Stop('exception')
        vs = [self.val(f, env, o) for o in i.operands()]
        w = width(i.get('ty'))
        if op == 'icmp':
            return (self.icmp(i['pred'], vs[0], vs[1]),)
        if op == 'select':
            if vs[1] == vs[2]:
                return vs[1]
            c = self.nrm(vs[0])[0]
            if c > 1 and isint(vs[1]) and isint(vs[2]) and len(vs[1]) == 1:
                return (g.lor(g.land(c, vs[1][0]), g.land(c ^ 1, vs[2][0])),)
            if c > 1 and isint(vs[1]) and isint(vs[2]) and all(x == y or x < 2 and y < 2 for x, y in zip(vs[1], vs[2])):
                return tuple(x if x == y else c if x else c ^ 1 for x, y in zip(vs[1], vs[2]))
            return vs[1] if self.choose(c) else vs[2]
        if op == 'extractvalue':
            r = vs[0].get(tuple(i['idx'])) if isinstance(vs[0], Agg) else None
            if r is None:
                raise Undecided('aggregate at %s' % i.where())
            return r
        if op == 'insertvalue':
            d = dict(vs[0][1]) if isinstance(vs[0], Agg) else {}
            d[tuple(i['idx'])] = vs[1]
            return Agg(d)
        if op in ('bitcast', 'freeze', 'inttoptr', 'ptrtoint', 'addrspacecast'):
            return vs[0]
        if op == 'zext': return self.ext(vs[0], w, False)
        if op == 'sext': return self.ext(vs[0], w, True)
        if op == 'trunc':
            if not isint(vs[0]):
                raise Undecided('pointer bits at %s' % i.where())
            t = g.lin(vs[0])
            if len(t[1]) == 1 and list(t[1].items()) == [(vs[0], 1)]:
                return vs[0][:w]
            d = {}
            c = t[0]
            for b, co in t[1].items():
                cc, dd = g.lin(b[:w])
                c += cc * co
                for k, x in dd.items():
                    d[k] = d.get(k, 0) + x * co
            return g.mklin(w, c, d)
        if len(vs) == 2 and op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            a, b = vs
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                    return g.add(a.off, b.off, -1)
                if op == 'add' and isinstance(b, Ptr):
                    a, b = b, a
                if op in ('add', 'sub') and isinstance(a, Ptr) and isint(b):
                    return Ptr(a.obj, g.add(a.off, b, 1 if op == 'add' else -1))
                if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
                    return g.fresh(64)
                raise Undecided('arithmetic on a pointer at %s' % i.where())
            return g.binop(op, self.nrm(a), self.nrm(b))
        if all(isinstance(v, tuple) for v in vs):
            return g.term((op, i.get('pred')) + tuple(self.nrm(v) for v in vs), 1 if op == 'fcmp' else w)
        raise Undecided('%s at %s' % (op, i.where()))

    def ext(self, v, w, signed):
        if not isint(v):
            return v
        if len(v) >= w:
            return v[:w]
        v = self.nrm(v)
        return v + ((v[-1] if signed else 0),) * (w - len(v))

    def icmp(self, p, a, b):
        g = self.g
        if isinstance(a, Fn) or isinstance(b, Fn):
            return int((a == b) == (p == 'eq')) if p in ('eq', 'ne') else g.fresh(1)[0]
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj == b.obj:
                return g.icmp(p, self.nrm(a.off), self.nrm(b.off))
            if p in ('eq', 'ne'):
                if a.obj[0] in '?*' or b.obj[0] in '?*':
                    return g.fresh(1)[0]
                return int(p == 'ne')
            return g.fresh(1)[0]
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            x = a if isinstance(a, Ptr) else b
            if g.num(b if x is a else a) == 0 and p in ('eq', 'ne'):
                if x.obj[0] in '?*':
                    return g.atom(('null', x)) ^ (p == 'ne')
                return int(p == 'ne')
            return g.fresh(1)[0]
        return g.icmp(p, self.nrm(a), self.nrm(b))
