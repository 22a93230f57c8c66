"""Affine-equality analysis (Karr) over the IR, interprocedural by summaries.

A state is an affine subspace of Q^n given by a point and two sets of direction vectors: N (what differs between paths
made of affine assignments only) and O (what comes from values the domain knows nothing about).  A linear form that is
to be zero holds when it vanishes on the point and on every vector; it is refuted when it vanishes on all of O but not
on the rest; otherwise it is undecided."""
from fractions import Fraction as Q
from ir import cval, width, icmp


def vadd(a, b, k):
    """a + k*b"""
    r = dict(a)
    for d, x in b.items():
        y = r.get(d, 0) + k * x
        if y:
            r[d] = y
        else:
            r.pop(d, None)
    return r


def dot(form, v):
    return sum((c * v[d] for d, c in form.items() if d in v), 0)


RANK = {'pre': 0, 'nbpre': 0, 'arg': 0, 'nbarg': 0, 'ret': 2, 'nbret': 2, 'cell': 4, 'nbcell': 4}
_rank = {}


def rank(d):
    """order of the pivots: what a function is given first, the ghost count of what is written last, so that a vector that stands for
    'started at another position' stays free of what else happens to vary"""
    r = _rank.get(d)
    if r is None:
        e = d[1:] if d[0] == 's' else d
        n = RANK.get(e[0], 3)
        if e[0] == 'cell' and e[1][0] in 'ER':
            n = 1
        elif e[0] == 'cell' and e[1][0] == 'W':
            n = 5
        r = _rank[d] = (n, str(d))
    return r


class Basis:
    """reduced echelon basis (pivot dim -> vector with coefficient 1 there) and the vectors it was made of, as they came: these stand for
    differences between paths and are not mixed with each other"""
    def __init__(self, b=None):
        self.b = dict(b) if b else {}
        self.raw = []

    def reduce(self, v):
        for d in [d for d in v if d in self.b]:
            if d in v:
                v = vadd(v, self.b[d], -v[d])
        return v

    def add(self, v):
        o = v
        v = self.reduce(v)
        if not v:
            return False
        self.raw.append(o)
        p = min(v, key=rank)
        v = {d: Q(x) / v[p] for d, x in v.items()}
        for d, w in list(self.b.items()):
            if p in w:
                self.b[d] = vadd(w, v, -w[p])
        self.b[p] = v
        return True

    def vecs(self):
        return self.raw


class State:
    __slots__ = ('p', 'N', 'O')

    def __init__(self, p=None, N=None, O=None):
        self.p, self.N, self.O = dict(p or {}), list(N or []), list(O or [])

    def copy(self):
        return State(self.p, self.N, self.O)

    def norm(self):
        bn, bo = Basis(), Basis()
        for v in self.N:
            bn.add(v)
        for v in self.O:
            bo.add(v)
        self.N, self.O = bn.vecs(), bo.vecs()
        return self

    def _map(self, d, form, const):
        """d := form + const"""
        def lin(v):
            x = dot(form, v)
            r = dict(v)
            if x:
                r[d] = x
            else:
                r.pop(d, None)
            return r
        x = dot(form, self.p) + const
        p = dict(self.p)
        if x:
            p[d] = x
        else:
            p.pop(d, None)
        self.p = p
        self.N = [w for w in map(lin, self.N) if w]
        self.O = [w for w in map(lin, self.O) if w]

    def assign(self, d, expr):
        """expr: (form, const) or None (unknown)"""
        if expr is None:
            self._map(d, {}, 0)
            self.O = self.O + [{d: Q(1)}]
        else:
            self._map(d, expr[0], expr[1])

    def guard(self, form, const):
        """keep the points with form + const == 0; False when there are none"""
        s = dot(form, self.p) + const
        pool = [('N', k, v) for k, v in enumerate(self.N)] + [('O', k, v) for k, v in enumerate(self.O)]
        for kind, k, v in pool:
            g = dot(form, v)
            if g:
                self.p = vadd(self.p, v, Q(-s) / g)
                fix = lambda w: vadd(w, v, Q(-dot(form, w)) / g)
                self.N = [w for w in (fix(w) for j, w in enumerate(self.N) if not (kind == 'N' and j == k)) if w]
                self.O = [w for w in (fix(w) for j, w in enumerate(self.O) if not (kind == 'O' and j == k)) if w]
                return True
        return s == 0

    def join(self, o):
        """grow by o; True when something was added"""
        bn, bo, ball = Basis(), Basis(), Basis()
        for v in self.N:
            bn.add(v)
            ball.add(v)
        for v in self.O:
            bo.add(v)
            ball.add(v)
        ch = False
        for v in o.N:
            if bn.add(v):
                ball.add(v)
                ch = True
        for v in o.O:
            if bo.add(v):
                ball.add(v)
                ch = True
        r = ball.reduce(vadd(o.p, self.p, -1))      # the difference of the points counts only when nothing else explains it
        if r and bn.add(vadd(o.p, self.p, -1)):
            ch = True
        if ch:
            self.N, self.O = bn.vecs(), bo.vecs()
        return ch

    def keep(self, dims):
        f = lambda v: {d: x for d, x in v.items() if d in dims}
        return State(f(self.p), [w for w in map(f, self.N) if w], [w for w in map(f, self.O) if w]).norm()

    def rename(self, m):
        f = lambda v: {m[d]: x for d, x in v.items() if d in m}
        return State(f(self.p), [w for w in map(f, self.N) if w], [w for w in map(f, self.O) if w])

    def test(self, form, const=0):
        if any(dot(form, v) for v in self.O):
            return None
        return not any(dot(form, v) for v in self.N) and dot(form, self.p) + const == 0


IDENT = {'zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze'}


def nbytes(c):
    c &= (1 << 64) - 1
    return max(1, (c.bit_length() + 7) // 8)


class Karr:
    """events(inst, target) -> list of operations on the ghost state for a call to target, or None when the call is to be analysed by its body.
    An operation is ('add', cell, [(coef, operand)], const), ('ret', cell), ('zero', cell, [(coef, operand or cell)], const), ('pack', ptr-operand)"""

    def __init__(self, m, seen, events, cells):
        self.m, self.seen, self.events = m, [f for f in seen if not f.decl], events
        self.ghost = list(cells)
        self.sum = {}
        self.evc = {}
        self.steps = 0
        self.report = {}                    # function -> ghost cell to which what it returns minus what it wrote is added
        self.assumed = {}
        self.contexts = False               # summaries for the constants known at the call
        self.balance = None
        self._slice()

    # -- keys ---------------------------------------------------------------
    def key(self, f, ptr):
        c = f.__dict__.setdefault('_karr_key', {})
        if isinstance(ptr, dict):
            return ('G', ptr['g'], ptr.get('off') or 0) if 'g' in ptr else None
        if ptr not in c:
            c[ptr] = None
            c[ptr] = self._key(f, ptr)
        return c[ptr]

    def _key(self, f, ptr):
        """a place in memory: ('F', class, offset) member of a class of the program (of whichever object), ('A', function, id, offset) local,
        ('P', function, argument, offset) what an argument points to, ('G', name, offset) global"""
        d = f.defs.get(ptr)
        if d is None:
            if ptr == 0 and f.klass and self._own(f.klass):
                return ('F', f.klass, 0)
            return ('P', f.name, ptr, 0)
        if d.op == 'alloca':
            return ('A', f.name, ptr, 0)
        if d.op == 'getelementptr' and not d.get('var') and not d.get('opaque'):
            st = d.get('st', '')
            n = st.lstrip('%').strip('"').replace('class.', '', 1).replace('struct.', '', 1)
            if st.startswith('%') and self._own(n):
                return ('F', n, d['off'])
            return self.moved(self.key(f, d['ptr']), d['off'])
        if d.op in ('bitcast', 'freeze'):
            return self.key(f, d['ops'][0])
        return None

    def _own(self, n):
        return not n.startswith(('std::', '__gnu_cxx::', 'boost::', 'anon'))

    @staticmethod
    def moved(k, off):
        return None if k is None else k[:-1] + (k[-1] + off,)

    def mapped(self, k, f, i):
        """place k of the callee as seen by its caller at call i"""
        if k is None or k[0] != 'P':
            return k
        return self.moved(self.key(f, i['args'][k[2]]), k[3]) if k[2] < len(i['args']) else None

    def ops_of(self, i):
        if i not in self.evc:
            self.evc[i] = [(t, self.events(i, t)) for t in self.m.call_targets(i, self.m.live_vt)] if not (i.callee or '').startswith('llvm.') else []
        return self.evc[i]

    # -- what matters --------------------------------------------------------
    def _slice(self):
        self.val = {f: set() for f in self.seen}          # SSA ids tracked per function
        self.cells = set()
        self.retneed = set()
        callers = {}
        stores = {}
        for f in self.seen:
            for i in f.insts():
                if i.is_call:
                    for t in self.m.call_targets(i, self.m.live_vt):
                        callers.setdefault(t, []).append((f, i))
                elif i.op == 'store':
                    k = self.key(f, i['ptr'])
                    if k:
                        stores.setdefault(k, []).append((f, i))
        self.callers = callers
        q = []

        def need(f, o):
            if isinstance(o, int) and o not in self.val[f]:
                self.val[f].add(o)
                q.append(('v', f, o))

        def needcell(k):
            if k and k not in self.cells and (k[0] != 'P' or 0 <= k[3] <= 64):
                self.cells.add(k)
                q.append(('c', k))
        for f in self.seen:
            for i in f.calls():
                for t, ev in self.ops_of(i):
                    for e in ev or ():
                        for x in e[2] if e[0] in ('add', 'zero') else ():
                            if not isinstance(x[1], tuple):
                                need(f, x[1])
                        if e[0] == 'pack':
                            pass
        self._q, self._need, self._needcell, self._stores = q, need, needcell, stores

    def close(self, roots=()):
        """roots: functions whose returned value matters"""
        q, need, needcell, stores = self._q, self._need, self._needcell, self._stores
        handed = {}
        for f in self.seen:
            for i in f.calls():
                if (i.callee or '').startswith('llvm.'):
                    continue
                for n, a in enumerate(i['args']):
                    k = self.key(f, a) if isinstance(a, int) or isinstance(a, dict) and 'g' in a else None
                    for t, ev in self.ops_of(i) if k else ():
                        if ev is None and t is not None and not t.decl:
                            handed.setdefault(k, set()).add((t, n))
        for g in roots:
            self.retneed.add(g)
            q.append(('r', g))
        # the bounds of loops that write matter as well
        wr, work = set(), []
        for f in self.seen:
            if any(ev for i in f.calls() for _, ev in self.ops_of(i)):
                wr.add(f)
                work.append(f)
        while work:
            for g, _ in self.callers.get(work.pop(), ()):
                if g not in wr:
                    wr.add(g)
                    work.append(g)
        for f in wr:
            self.loops(f)
            for body, exits in f._karr_lb:
                if any(i.is_call and any(ev or t in wr for t, ev in self.ops_of(i)) for b in body for i in b.insts):
                    for o in exits:
                        need(f, o)
            for b in f.blocks:
                c = b.term.get('cond') if b.term.op == 'br' else None
                if isinstance(c, int) and sum(1 for u in f.users.get(c, ()) if u.op in ('br', 'select')) > 1:
                    need(f, c)
        while q:
            it = q.pop()
            if it[0] == 'r':
                g = it[1]
                for i in g.insts():
                    if i.op == 'ret' and i.operands():
                        need(g, i.operands()[0])
            elif it[0] == 'c':
                k = it[1]
                for f, i in stores.get(k, ()):
                    need(f, i['val'])
                if k[0] == 'P':
                    for f, i in self.callers.get(self._fn(k[1]), ()):
                        needcell(self.mapped(k, f, i))
                for t, n in handed.get(k, ()):
                    needcell(self.key(t, n))
            else:
                _, f, v = it
                d = f.defs.get(v)
                if d is None:
                    for c, i in self.callers.get(f, ()):
                        if v < len(i['args']):
                            need(c, i['args'][v])
                    continue
                if d.op == 'phi':
                    for x, _ in d['in']:
                        need(f, x)
                elif d.op in ('add', 'sub') or d.op in IDENT:
                    for x in d['ops']:
                        need(f, x)
                elif d.op in ('mul', 'shl'):
                    for x in d['ops']:
                        need(f, x)
                elif d.op == 'select':
                    for x in d['ops']:
                        need(f, x)
                elif d.op == 'getelementptr':
                    if not d.get('opaque'):
                        need(f, d['ptr'])
                        for x, _ in d.get('var') or ():
                            need(f, x)
                elif d.op == 'load':
                    needcell(self.key(f, d['ptr']))
                elif d.is_call:
                    for t, ev in self.ops_of(d):
                        if t is not None and ev is None and not t.decl and t not in self.retneed:
                            self.retneed.add(t)
                            q.append(('r', t))
                        for e in ev or ():
                            if e[0] == 'pack':
                                needcell(self.key(f, d['args'][e[1]]))
        self.cells -= self._escaped()
        # functions that may touch the ghost state or a tracked cell
        touch = {}
        for f in self.seen:
            s = set()
            for i in f.insts():
                if i.op == 'store':
                    k = self.key(f, i['ptr'])
                    if k in self.cells:
                        s.add(k)
                elif i.op == 'load' and i.id in self.val[f]:
                    k = self.key(f, i['ptr'])
                    if k in self.cells:
                        s.add(k)
                elif i.is_call:
                    if (i.callee or '').startswith(('llvm.memset', 'llvm.memcpy', 'llvm.memmove')):
                        k = self.key(f, i['args'][0])
                        s |= {q for q in self.cells if k and q[:-1] == k[:-1] and q[-1] >= k[-1]}
                    for t, ev in self.ops_of(i):
                        if ev is not None:
                            for e in ev:
                                s.add(('*',))
                                if e[0] == 'pack':
                                    k = self.key(f, i['args'][e[1]])
                                    if k in self.cells:
                                        s.add(k)
            touch[f] = s
        ch = True
        while ch:
            ch = False
            for f in self.seen:
                for i in f.calls():
                    for t, ev in self.ops_of(i):
                        if ev is None and t in touch:
                            add = {self.mapped(k, f, i) for k in touch[t] if k[0] in 'FG*P'} - {None}
                            if not add <= touch[f]:
                                touch[f] |= add
                                ch = True
        self.touch = touch

    def _escaped(self):
        """tracked places whose address is kept somewhere: what they hold is not known"""
        esc = set()
        for f in self.seen:
            for i in f.insts():
                ops = []
                if i.op == 'store':
                    ops = [i['val']]
                elif i.op == 'phi':
                    ops = [v for v, _ in i['in']]
                elif i.op in ('select', 'ret', 'ptrtoint', 'insertvalue'):
                    ops = i.operands()
                elif i.is_call and not (i.callee or '').startswith('llvm.'):
                    for t, ev in self.ops_of(i):
                        if t is None or t.decl and ev is None:
                            ops = [a for a in i['args'] if isinstance(a, int)]
                for o in ops:
                    if isinstance(o, int) and (o not in f.defs or f.defs[o].op in ('alloca', 'getelementptr', 'bitcast', 'freeze')):
                        k = self.key(f, o)
                        if k in self.cells and not (i.is_call and k[0] == 'A'):
                            esc.add(k)
        ch = bool(esc)
        while ch:
            ch = False
            for k in [k for k in esc if k[0] == 'P']:
                for f, i in self.callers.get(self._fn(k[1]), ()):
                    q = self.mapped(k, f, i)
                    if q is not None and q not in esc:
                        esc.add(q)
                        ch = True
        return esc

    def _fn(self, name):
        if not hasattr(self, '_byname'):
            self._byname = {f.name: f for f in self.seen}
        return self._byname.get(name)

    # -- expressions ------------------------------------------------------------
    def expr(self, f, o):
        """affine expression over dims of an operand"""
        if isinstance(o, dict):
            if 'c' in o:
                c, w = cval(o), o.get('w', 64)
                if w > 1 and c >= 1 << (w - 1) and w >= 32:
                    c -= 1 << w
                return ({}, Q(c))
            if o.get('null'):
                return ({}, Q(0))
            if 'g' in o:
                return ({('g', o['g']): Q(1)}, Q(o.get('off') or 0))
            return None
        return ({('v', o): Q(1)}, Q(0))

    def nb(self, f, o):
        if isinstance(o, dict):
            return ({}, Q(nbytes(cval(o)))) if 'c' in o else None
        return ({('nb', o): Q(1)}, Q(0))

    def rhs(self, f, d):
        """affine right-hand side of an instruction, or None"""
        if d.op in IDENT:
            return self.expr(f, d['ops'][0])
        if d.op in ('add', 'sub'):
            a, b = self.expr(f, d['ops'][0]), self.expr(f, d['ops'][1])
            if a is None or b is None:
                return None
            k = 1 if d.op == 'add' else -1
            return (vadd(a[0], b[0], k), a[1] + k * b[1])
        if d.op in ('mul', 'shl'):
            x, c = d['ops']
            if d.op == 'mul' and isinstance(x, dict):
                x, c = c, x
            if isinstance(c, dict) and 'c' in c:
                a = self.expr(f, x)
                k = cval(c) if d.op == 'mul' else 1 << cval(c)
                w = width(d.ty) if hasattr(d, 'ty') else c.get('w', 64)
                if d.op == 'mul' and w and k >= 1 << (w - 1):
                    k -= 1 << w
                return None if a is None else ({x: y * k for x, y in a[0].items()}, a[1] * k)
            return None
        if d.op == 'getelementptr' and not d.get('opaque'):
            a = self.expr(f, d['ptr'])
            if a is None:
                return None
            fo, c = dict(a[0]), a[1] + (d.get('off') or 0)
            for x, s in d.get('var') or ():
                b = self.expr(f, x)
                if b is None:
                    return None
                fo = vadd(fo, b[0], Q(s))
                c += s * b[1]
            return (fo, c)
        return None

    # -- loops ---------------------------------------------------------------------
    def loops(self, f):
        """facts at loop exits: (from block, to block) -> list of ('eq', a, b) or ('bytes', p0, extra)"""
        if not hasattr(f, '_karr_loops'):
            facts, ctr, lb = {}, {}, []
            f._karr_ctr = ctr
            for H in f.blocks:
                for ph in H.insts:
                    if ph.op != 'phi':
                        break
                    if len(ph['in']) != 2:
                        continue
                    for (v0, b0), (v1, b1) in (ph['in'], ph['in'][::-1]):
                        nx = f.defs.get(v1) if isinstance(v1, int) else None
                        if nx is None:
                            continue
                        L = f.block(b1)
                        body = self._body(f, H, L)
                        if body is None:
                            continue
                        for B in body:
                            e = self._exit(f, B, body)
                            if e is not None:
                                lb.append((body, e[0]['ops']))
                        if nx.op == 'lshr' and nx['ops'][0] == ph.id and isinstance(nx['ops'][1], dict) and cval(nx['ops'][1]) == 8:
                            for B in body:
                                e = self._exit(f, B, body)
                                if e is None:
                                    continue
                                c, out, taken = e
                                # leaves when the value is zero (or below 256)
                                x, y = c['ops']
                                if not (isinstance(y, dict) and 'c' in y):
                                    continue
                                z, pr = cval(y), c['pred']
                                if not taken:
                                    pr = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'ugt': 'ule', 'uge': 'ult', 'ule': 'ugt'}.get(pr)
                                zero = pr == 'eq' and z == 0 or pr == 'ult' and z == 1 or pr == 'ule' and z == 0
                                small = pr == 'ult' and z == 256 or pr == 'ule' and z == 255
                                if x == nx.id and zero or x == ph.id and small:
                                    ctr[H.id] = True
                                    lb.append((body, [v0]))
                                    facts.setdefault((B.id, out), []).append(('bytes', H.id, v0, 1, B.id in [b.id for b in body] and B.id != L.id))
                        step = nx['ops'][1] if nx.op == 'add' and nx['ops'][0] == ph.id else None
                        for B in body:
                            e = self._exit(f, B, body)
                            if e is not None:
                                self._counted(f, e, ph, nx, v0, facts.setdefault((B.id, e[1]), []))
                        if isinstance(step, dict) and 'c' in step and cval(step) == 1:
                            for B in body:
                                e = self._exit(f, B, body)
                                if e is None:
                                    continue
                                c, out, taken = e
                                x, y = c['ops']
                                pr = c['pred']
                                if not taken:
                                    pr = {'ult': 'uge', 'slt': 'sge', 'ugt': 'ule', 'sgt': 'sle'}.get(pr)
                                else:
                                    pr = {'uge': 'uge', 'sge': 'sge', 'ule': 'ule', 'sle': 'sle'}.get(pr)
                                if pr in ('uge', 'sge') and self._base(f, x) in (ph.id, nx.id):
                                    facts.setdefault((B.id, out), []).append(('eq', x, y, v0, x == nx.id or self._base(f, x) == nx.id))
                                elif pr in ('ule', 'sle') and self._base(f, y) in (ph.id, nx.id):
                                    facts.setdefault((B.id, out), []).append(('eq', y, x, v0, self._base(f, y) == nx.id))
            f._karr_loops = facts
            f._karr_ctr = ctr
            f._karr_lb = lb
            # the counter and bound of a counting loop matter
        return f._karr_loops

    def _value(self, f, o, ph, v, depth=0):
        """value of an operand computed from the counter `ph` (= v) and constants; None: from something else"""
        if isinstance(o, dict):
            return cval(o) if 'c' in o else None
        if o == ph.id:
            return v
        d = f.defs.get(o)
        if d is None or depth > 6 or d.op not in ('zext', 'sext', 'trunc', 'add', 'sub', 'mul', 'shl', 'lshr', 'and', 'or', 'xor', 'udiv'):
            return None
        w = width(d.get('ty'))
        xs = [self._value(f, x, ph, v, depth + 1) for x in d['ops']]
        if None in xs:
            return None
        if d.op == 'sext':
            s = f.defs.get(d['ops'][0]) if isinstance(d['ops'][0], int) else None
            u = width(s.get('ty')) if s is not None else w
            if xs[0] >> (u - 1) & 1:
                xs[0] -= 1 << u
        if len(xs) == 1:
            return xs[0] & ((1 << w) - 1)
        x, y = xs
        if d.op in ('shl', 'lshr') and y >= w or d.op == 'udiv' and y == 0:
            return None
        r = {'add': x + y, 'sub': x - y, 'mul': x * y, 'and': x & y, 'or': x | y, 'xor': x ^ y}.get(d.op)
        if r is None:
            r = x << y if d.op == 'shl' else x >> y if d.op == 'lshr' else x // y
        return r & ((1 << w) - 1)

    def _counted(self, f, e, ph, nx, v0, facts):
        """exit of a loop that counts by a constant: the value of the counter when the comparison is left"""
        c, out, taken = e
        M = (1 << width(ph.get('ty'))) - 1
        one, two = self._value(f, nx.id, ph, 1 << 6), self._value(f, nx.id, ph, 5)
        if one is None or two is None:
            return
        k = (one - (1 << 6)) & M
        k = None if k != (two - 5) & M else k - M - 1 if k > M >> 1 else k
        for n, x in enumerate(c['ops']):
            y = c['ops'][1 - n]
            if not isinstance(x, int) or self._value(f, x, ph, 0) is None:
                continue
            pr = c['pred'] if n == 0 else {'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt',
                                           'sle': 'sge', 'sge': 'sle'}.get(c['pred'], c['pred'])
            if not taken:
                pr = {'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt',
                      'eq': 'ne', 'ne': 'eq'}[pr]
            if isinstance(y, dict) and 'c' in y and isinstance(v0, dict) and 'c' in v0:
                d = f.defs[x]
                w, v = width(d.get('ty')), cval(v0) & M
                for trip in range(1 << 12):
                    r = self._value(f, x, ph, v)
                    if r is None:
                        break
                    if icmp(pr, r, cval(y), w):
                        W = M.bit_length()
                        f._karr_ctr[ph.bb.id] = True
                        facts.append(('trip', ph.bb.id, Q(trip)))
                        facts.append(('val', ph.id, Q(v - M - 1 if W >= 32 and v > M >> 1 else v)))
                        break
                    v = self._value(f, nx.id, ph, v)
                    if v is None:
                        break
                continue
            # counting down by one to a bound that is not a constant, or the other comparisons of one counting up
            off = {(-1, 'sle'): 0, (-1, 'ule'): 0, (-1, 'slt'): -1, (-1, 'ult'): -1, (1, 'sgt'): 1, (1, 'ugt'): 1}.get((k, pr))
            if off is not None and self._base(f, x) in (ph.id, nx.id):
                facts.append(('off', x, y, off, k))

    def _base(self, f, o):
        d = f.defs.get(o) if isinstance(o, int) else None
        while d is not None and d.op in ('zext', 'sext', 'trunc'):
            o = d['ops'][0]
            d = f.defs.get(o) if isinstance(o, int) else None
        return o

    def _preds(self, f):
        if not hasattr(f, '_karr_preds'):
            p = {}
            for b in f.blocks:
                for s in dict.fromkeys(b.term.get('succ') or ()):
                    p.setdefault(s, []).append(b.id)
            f._karr_preds = p
        return f._karr_preds

    def _body(self, f, H, L):
        P = self._preds(f)
        body, q = {H.id, L.id}, [L.id] if L is not H else []
        while q:
            b = q.pop()
            for p in P.get(b, ()):
                if p not in body:
                    body.add(p)
                    q.append(p)
        if f.entry.id in body and f.entry is not H:
            return None
        return [f.block(b) for b in body]

    def _exit(self, f, B, body):
        t = B.term
        if t.op != 'br' or 'cond' not in t.d or not isinstance(t['cond'], int):
            return None
        ids = {b.id for b in body}
        s0, s1 = t['succ']
        if (s0 in ids) == (s1 in ids):
            return None
        c = f.defs.get(t['cond'])
        if c is None or c.op != 'icmp':
            return None
        return c, (s1 if s0 in ids else s0), s0 not in ids

    # -- one function ---------------------------------------------------------------
    def dims_of(self, f):
        return [k for k in self.touch[f] if k != ('*',)] + self.ghost

    def start(self, f):
        """state at the start of the program: ghost state zero, memory unknown"""
        st = State()
        for k in self.dims_of(f):
            if k not in self.ghost:
                st.O += [{('cell', k): Q(1)}, {('nbcell', k): Q(1)}]
        for n in range(len(f.args)):
            st.O += [{('v', n): Q(1)}, {('nb', n): Q(1)}]
        return st

    def analyse(self, f, init=None, ctx=()):
        """abstract state at the normal return of f: dims ('pre',k), ('arg',n), ('nbarg',n), ('cell',k), ('nbcell',k), ('ret',), ('nbret',)"""
        cells = self.dims_of(f)
        st = State()
        if init is not None:
            st = init.copy()
        else:
            pin = dict(ctx)
            for k in cells:
                if k in pin:
                    if pin[k]:
                        st.p[('pre', k)] = st.p[('cell', k)] = pin[k]
                    st.N.append({('nbpre', k): Q(1), ('nbcell', k): Q(1)})
                    continue
                own = k[0] == 'A'
                (st.O if own else st.N).append({('pre', k): Q(1), ('cell', k): Q(1)})
                (st.O if own else st.N).append({('nbpre', k): Q(1), ('nbcell', k): Q(1)})
            for n in range(len(f.args)):
                if n in self.val[f]:
                    st.N.append({('arg', n): Q(1), ('v', n): Q(1)})
                    st.N.append({('nbarg', n): Q(1), ('nb', n): Q(1)})
        loops = self.loops(f)
        at = {f.entry.id: st}
        out = None
        work = [f.entry.id]
        order = {b.id: n for n, b in enumerate(f.blocks)}
        while work:
            work.sort(key=lambda b: -order[b])
            bid = work.pop()
            B = f.block(bid)
            self.steps += 1
            s = at[bid].copy()
            dead = False
            for i in B.insts:
                if i.op == 'phi':
                    continue
                r = self._inst(f, i, s)
                if r is False:
                    dead = True
                    break
                if i.op == 'ret':
                    e = i.operands()
                    if e and f in self.retneed:
                        s.assign(('ret',), self.expr(f, e[0]))
                        s.assign(('nbret',), self.nb(f, e[0]))
                    live = {('cell', k) for k in cells} | {('nbcell', k) for k in cells} | {('pre', k) for k in cells} | {('nbpre', k) for k in cells} \
                        | {('arg', n) for n in range(len(f.args))} | {('nbarg', n) for n in range(len(f.args))} | {('ret',), ('nbret',)}
                    live |= {d for v in [s.p] + s.N + s.O for d in v if d[0] == 'g'}
                    s = s.keep(live)
                    if out is None:
                        out = s
                    else:
                        out.join(s)
                    dead = True
                    break
                if i.op in ('unreachable', 'resume'):
                    dead = True
                    break
            if dead:
                continue
            t = B.term
            succ = f.normal_succs(B)
            succ = [x if isinstance(x, int) else x.id for x in succ]
            for sid in dict.fromkeys(succ):
                e = s.copy()
                if not self._edge(f, B, sid, e, loops):
                    continue
                if sid not in at:
                    at[sid] = e.norm()
                    work.append(sid)
                elif at[sid].join(e):
                    if sid not in work:
                        work.append(sid)
        return out

    def _edge(self, f, B, sid, s, loops):
        t = B.term
        val = self.val[f]
        if t.op == 'br' and 'cond' in t.d and t['succ'][0] != t['succ'][1] and isinstance(t['cond'], int):
            true = sid == t['succ'][0]
            if t['cond'] in val:
                if not s.guard({('v', t['cond']): Q(1)}, Q(-1 if true else 0)):
                    return False
            c = f.defs.get(t['cond'])
            if c is not None and c.op == 'icmp' and c['pred'] in ('eq', 'ne') and true == (c['pred'] == 'eq'):
                a, b = self._g(f, c['ops'][0]), self._g(f, c['ops'][1])
                if a is not None and b is not None and not s.guard(vadd(a[0], b[0], -1), a[1] - b[1]):
                    return False
        for fact in loops.get((B.id, sid), ()):
            if fact[0] == 'eq':
                a, b = self._g(f, fact[1]), self._g(f, fact[2])
                if a is None or b is None or self._alone(f, fact[2]):
                    continue
                fo, c = vadd(a[0], b[0], -1), a[1] - b[1]
                if not s.guard(fo, c) and dot(fo, s.p) + c < 0:
                    return False
            elif fact[0] == 'val':
                a = self._g(f, fact[1])
                if a is not None and not s.guard(a[0], a[1] - fact[2]):
                    return False
            elif fact[0] == 'trip':
                if not s.guard({('loop', fact[1]): Q(1)}, -fact[2]):
                    return False
            elif fact[0] == 'off':
                a, b = self._g(f, fact[1]), self._g(f, fact[2])
                if a is None or b is None or self._alone(f, fact[2]):
                    continue
                fo, c = vadd(a[0], b[0], -1), a[1] - b[1] - fact[3]
                if not s.guard(fo, c) and (dot(fo, s.p) + c) * fact[4] < 0:
                    return False
            else:
                _, h, p0, extra, _ = fact
                n = self.nb(f, p0)
                if n is not None and (isinstance(p0, dict) or p0 in val):
                    if not s.guard(vadd({('loop', h): Q(1)}, n[0], -1), Q(extra) - n[1]):
                        return False
        T = f.block(sid)
        ups = []
        for i in T.insts:
            if i.op != 'phi':
                break
            if i.id in val:
                v = next((v for v, pb in i['in'] if pb == B.id), None)
                ups.append((i.id, self.expr(f, v) if v is not None else None, self.nb(f, v) if v is not None else None))
        # simultaneous
        for n, (d, e, nb) in enumerate(ups):
            s.assign(('t', n), e)
            s.assign(('tn', n), nb)
        for n, (d, e, nb) in enumerate(ups):
            s.assign(('v', d), ({('t', n): Q(1)}, Q(0)))
            s.assign(('nb', d), ({('tn', n): Q(1)}, Q(0)))
        for n in range(len(ups)):
            s.assign(('t', n), ({}, Q(0)))
            s.assign(('tn', n), ({}, Q(0)))
        if sid in f._karr_ctr:
            back = self._is_back(f, B, T)
            s.assign(('loop', sid), ({('loop', sid): Q(1)}, Q(1)) if back else ({}, Q(0)))
        return True

    def _alone(self, f, o):
        """an unknown bound that nothing but the loop condition uses: the loop may run any number of times"""
        while isinstance(o, int) and o in f.defs:
            if len(f.users.get(o, ())) != 1:
                return False
            d = f.defs[o]
            if d.op not in IDENT:
                if d.op == 'load':
                    return self.key(f, d['ptr']) not in self.cells
                return not d.is_call and d.op not in ('phi', 'select') and self.rhs(f, d) is None
            o = d['ops'][0]
        return False

    def _g(self, f, o):
        """expression of an operand of a guard, only when it is tracked"""
        if isinstance(o, int) and o not in self.val[f]:
            return None
        return self.expr(f, o)

    def _is_back(self, f, B, T):
        c = f.__dict__.setdefault('_karr_back', {})
        if (B.id, T.id) not in c:
            c[B.id, T.id] = T is B or f.dominates(T.insts[0], B.term)
        return c[B.id, T.id]

    def _inst(self, f, i, s):
        val = self.val[f]
        if i.op == 'store':
            k = self.key(f, i['ptr'])
            if k in self.cells:
                s.assign(('cell', k), self.expr(f, i['val']))
                s.assign(('nbcell', k), self.nb(f, i['val']))
        elif i.op == 'load':
            if i.id in val:
                k = self.key(f, i['ptr'])
                if k in self.cells:
                    s.assign(('v', i.id), ({('cell', k): Q(1)}, Q(0)))
                    s.assign(('nb', i.id), ({('nbcell', k): Q(1)}, Q(0)))
                else:
                    s.assign(('v', i.id), None)
                    s.assign(('nb', i.id), None)
        elif i.is_call:
            return self._call(f, i, s)
        elif i.id is not None and i.id in val:
            if i.op == 'select':
                a, b = s.copy(), s.copy()
                for st, o, c in ((a, i['ops'][1], 1), (b, i['ops'][2], 0)):
                    if isinstance(i['ops'][0], int):
                        st.guard({('v', i['ops'][0]): Q(1)}, Q(-c))
                    st.assign(('v', i.id), self.expr(f, o))
                    st.assign(('nb', i.id), self.nb(f, o))
                a.norm()
                a.join(b)
                s.p, s.N, s.O = a.p, a.N, a.O
            else:
                s.assign(('v', i.id), self.rhs(f, i))
                s.assign(('nb', i.id), self.nb(f, i['ops'][0]) if i.op in IDENT else None)
        return True

    def _call(self, f, i, s):
        if (i.callee or '').startswith('llvm.'):
            if i.callee.startswith(('llvm.memset', 'llvm.memcpy', 'llvm.memmove')):
                k = self.key(f, i['args'][0])
                n = i['args'][2]
                n = cval(n) if isinstance(n, dict) and 'c' in n else None
                zero = i.callee.startswith('llvm.memset') and isinstance(i['args'][1], dict) and 'c' in i['args'][1] and cval(i['args'][1]) == 0
                for q in self.cells if k else ():
                    if q[:-1] == k[:-1] and q[-1] >= k[-1] and (n is None or q[-1] < k[-1] + n):
                        s.assign(('cell', q), ({}, Q(0)) if zero else None)
                        s.assign(('nbcell', q), ({}, Q(1)) if zero else None)
            if i.id is not None and i.id in self.val[f]:
                s.assign(('v', i.id), None)
                s.assign(('nb', i.id), None)
            return True
        outs = []
        ts = self.ops_of(i)
        for t, ev in ts or [(None, None)]:
            c = s.copy()
            if ev is not None:
                self._events(f, i, c, ev)
                outs.append(c)
            elif t is None or t.decl:
                if t is not None and t.noret:
                    continue
                if i.id is not None and i.id in self.val[f]:
                    c.assign(('v', i.id), None)
                    c.assign(('nb', i.id), None)
                for n, a in enumerate(i['args']):
                    k = self.key(f, a) if isinstance(a, int) else None
                    for q in self.cells if k and k[0] == 'A' else ():
                        if q[:3] == k[:3]:
                            c.assign(('cell', q), None)
                            c.assign(('nbcell', q), None)
                outs.append(c)
            else:
                if self._apply(f, i, t, c):
                    outs.append(c)
        if not outs:
            return False
        a = outs[0]
        if len(outs) > 1:
            a.norm()
            for b in outs[1:]:
                a.join(b)
        s.p, s.N, s.O = a.p, a.N, a.O
        return True

    def _events(self, f, i, s, ev):
        got = False
        for e in ev:
            if e[0] in ('add', 'zero'):
                form, c, bad = {}, Q(e[3]), False
                for k, o in e[2]:
                    x = ({('cell', o): Q(1)}, Q(0)) if isinstance(o, tuple) else self.expr(f, o)
                    if x is None:
                        bad = True
                        break
                    form = vadd(form, x[0], Q(k))
                    c += k * x[1]
                if e[0] == 'add':
                    s.assign(('cell', e[1]), None if bad else (vadd(form, {('cell', e[1]): Q(1)}, 1), c))
                else:
                    s.assign(('cell', e[1]), None if bad else (form, c))
            elif e[0] == 'lose':
                s.assign(('cell', e[1]), None)
            elif e[0] == 'ret':
                if i.id in self.val[f]:
                    s.assign(('v', i.id), ({('cell', e[1]): Q(1)}, Q(0)))
                    s.assign(('nb', i.id), None)
                    got = True
            elif e[0] == 'pack':
                k = self.key(f, i['args'][e[1]])
                if isinstance(i['args'][0], int) and self._plain(f, i):       # its length varies with the input
                    s._map(('nb', i.id), {}, 0)
                    s.N = s.N + [{('nb', i.id): Q(1)}]
                else:
                    s.assign(('nb', i.id), None)
                if i.id in self.val[f]:
                    s.assign(('v', i.id), None)
                got = True
                if k in self.cells:
                    s.assign(('cell', k), ({('nb', i.id): Q(1)}, Q(0)))
                    s.assign(('nbcell', k), None)
        if not got and i.id is not None and i.id in self.val[f]:
            s.assign(('v', i.id), None)
            s.assign(('nb', i.id), None)

    def _plain(self, f, i):
        """every use of a packed integer is understood: its bytes are written one by one, or its length plays no part"""
        c = f.__dict__.setdefault('_karr_plain', {})
        if i not in c:
            c[i] = False
            c[i] = self._plain1(f, i)
        return c[i]

    def _plain1(self, f, i):
        known = {h for (a, b), fs in self.loops(f).items() for x in fs if x[0] == 'bytes' for h in [x[1]]}
        seen, q, used = {i.id}, [i.id], False
        while q:
            v = q.pop()
            for u in f.users.get(v, ()):
                if u.op == 'phi':
                    if any(b.id in known and u in b.insts for b in f.blocks):
                        used = True
                        continue
                if u.op in ('phi', 'lshr', 'and', 'trunc', 'zext', 'select', 'shl', 'or', 'add', 'sub', 'freeze', 'xor'):
                    if u.id not in seen:
                        seen.add(u.id)
                        q.append(u.id)
                elif u.is_call:
                    for t, ev in self.ops_of(u):
                        used = used or not (u.callee or '').startswith('llvm.')
                        if ev is not None or (u.callee or '').startswith('llvm.'):
                            continue
                        if t is None or t.decl or v != i.id or u['args'].count(v) != 1:
                            return False
                        n = u['args'].index(v)
                        S = self.summary(t)
                        g = self.ghost[0]
                        if S is None or S.test({('cell', g): Q(1), ('pre', g): Q(-1), ('nbarg', n): Q(-1)}) is not True:
                            return False
                else:
                    return False
        return used

    def _apply(self, f, i, t, s):
        cells = self.dims_of(t)
        need = ('*',) in self.touch[t] or any(k != ('*',) for k in self.touch[t]) or (t in self.retneed and i.id in self.val[f])
        if not need:
            if i.id is not None and i.id in self.val[f]:
                s.assign(('v', i.id), None)
                s.assign(('nb', i.id), None)
            return True
        mp = {k: self.mapped(k, f, i) for k in cells}
        S = self.summary(t, self._ctx(t, cells, mp, s))
        if S is None:
            return False
        if t in self.report:
            s.assign(('before',), ({('cell', self.ghost[0]): Q(1)}, Q(0)))
        ren = {}
        for v in [S.p] + S.N + S.O:
            for d in v:
                ren[d] = d if d[0] == 'g' else ('s',) + d
        R = S.rename(ren)
        s.p = vadd({d: x for d, x in s.p.items()}, {d: x for d, x in R.p.items()}, 1)
        s.N = R.N + s.N                     # its own vectors first: they are the pivots of the guards below
        s.O = R.O + s.O
        for k in cells:
            ck = mp[k]
            if ck is None:
                continue
            for pre, cur in (('pre', 'cell'), ('nbpre', 'nbcell')):
                s.guard({('s', pre, k): Q(1), (cur, ck): Q(-1)}, Q(0))
        for n, a in enumerate(i['args']):
            if n in self.val[t]:
                e, nb = self.expr(f, a), self.nb(f, a)
                if e is not None and not (isinstance(a, int) and a not in self.val[f]):
                    s.guard(vadd({('s', 'arg', n): Q(1)}, e[0], -1), -e[1])
                if nb is not None and not (isinstance(a, int) and a not in self.val[f]):
                    s.guard(vadd({('s', 'nbarg', n): Q(1)}, nb[0], -1), -nb[1])
        for k in cells:
            ck = mp[k]
            if ck is not None:
                s.assign(('cell', ck), ({('s', 'cell', k): Q(1)}, Q(0)))
                s.assign(('nbcell', ck), ({('s', 'nbcell', k): Q(1)}, Q(0)))
        if i.id is not None and i.id in self.val[f]:
            s.assign(('v', i.id), ({('s', 'ret'): Q(1)}, Q(0)) if t in self.retneed else None)
            s.assign(('nb', i.id), ({('s', 'nbret'): Q(1)}, Q(0)) if t in self.retneed else None)
        if t in self.assumed and i.id is not None and i.id in self.val[f]:
            g = self.assumed[t]
            s.guard(g[0], g[1])
        if t in self.report:
            r = ('cell', self.report[t])
            s.assign(r, ({('s', 'ret'): Q(1), ('cell', self.ghost[0]): Q(-1), ('before',): Q(1), r: Q(1)}, Q(0)))
            s.assign(('before',), ({}, Q(0)))
        drop = lambda v: {d: x for d, x in v.items() if d[0] != 's'}
        s.p = drop(s.p)
        s.N = [w for w in map(drop, s.N) if w]
        s.O = [w for w in map(drop, s.O) if w]
        s.norm()
        return True

    def summary(self, f, ctx=()):
        """ctx: cells that hold a known constant where the function is called"""
        key = (f, ctx) if ctx else f
        if key not in self.sum:
            self._scc(f, key, ctx)
            S = self.sum[key]
            if S is not None and not ctx and self.balance and f in self.retneed and S.test(*self.balance) is None:
                self.assumed[f] = ({('s',) + d: c for d, c in self.balance[0].items()}, self.balance[1])
        return self.sum[key]

    def _scc(self, f, key, ctx):
        """least fixpoint over the functions f needs (recursion starts from 'does not return')"""
        self.sum[key] = None
        for _ in range(12):
            new = self.analyse(f, ctx=ctx)
            old = self.sum[key]
            if new is None or (old is not None and not old.copy().join(new)):
                if old is None:
                    self.sum[key] = new
                return
            self.sum[key] = new if old is None else (old.join(new), old)[1]
            if not self._self_rec(f):
                return

    def _ctx(self, t, cells, mp, s):
        """the cells of t that hold a constant in state s"""
        if not self.contexts or self._self_rec(t):
            return ()
        vary = {d for v in s.N + s.O for d in v}
        r = []
        for k in cells:
            if k not in self.ghost and k[0] != 'A' and mp.get(k) is not None and ('cell', mp[k]) not in vary:
                r.append((k, s.p.get(('cell', mp[k]), Q(0))))
        return tuple(sorted(r, key=str))

    def _self_rec(self, f):
        c = self.__dict__.setdefault('_srec', {})
        if f not in c:
            seen, q = set(), [f]
            c[f] = False
            while q:
                g = q.pop()
                for i in g.calls():
                    for t in self.m.call_targets(i, self.m.live_vt):
                        if t is f:
                            c[f] = True
                        if t is not None and not t.decl and t not in seen:
                            seen.add(t)
                            q.append(t)
        return c[f]
