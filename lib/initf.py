"""Definite-initialisation analysis of the fields of repo classes, of arrays in them, of what their pointers own and of local
arrays.

A cell is (struct type, offset) for a field, ('*', struct type, offset) for the memory a pointer field points to and
('a', function, value) for an alloca or a fresh allocation.  Cells that are reached with a variable index (arrays) are *soft*: any store
that does not itself depend on the old contents, on any path, initialises them.  Scalars need a store on every path.
"""
from collections import defaultdict
from effects import ALLOC, intrinsic, is_ostream_op
from ir import short

TOP = None
ARRAYS = {'_Znam', 'malloc', '_ZnamRKSt9nothrow_t', '_ZnamSt11align_val_t'}


def repo_struct(st):
    s = st.lstrip('%').strip('"')
    return st.startswith('%') and s.startswith(('class.', 'struct.')) and 'std::' not in s and 'boost' not in s and '__gnu' not in s


class Init:
    def __init__(self, m, seen):
        self.m = m
        self.fns = [f for f in seen if not f.decl]
        self.S = {f: (TOP, frozenset(), {}) for f in self.fns}      # must, may, exposed loads
        self._self = {}
        self._alias = {}
        self._own = {}
        self._ret = {}
        self.loads = 0
        # fields that are indexed somewhere: arrays, not subobjects or scalars handed out by reference
        self.arrays = set()
        for f in self.fns:
            for i in f.insts():
                if i.op == 'getelementptr' and (i.get('var') or i.get('st', '').startswith('[')) and not repo_struct(i.get('st', '')):
                    d = f.defs.get(i['ptr']) if isinstance(i['ptr'], int) else None
                    if d is not None and d.op == 'getelementptr' and i.get('var') and i['st'].startswith('['):
                        c = self.cell(f, i['ptr'])
                        if c and c[0][0] not in ('*', 'a', 'p'):
                            self.arrays.add(c[0])
        order = self.fns[::-1]
        for self.rounds in range(15):
            ch = False
            for f in order:
                n = self.solve(f)
                o = self.S[f]
                if n[0] != o[0] or n[1] != o[1] or set(n[2]) != set(o[2]):
                    self.S[f] = n
                    ch = True
            if not ch:
                break

    def cell(self, f, p, var=False, seen=()):
        """-> (cell, soft) or None"""
        if not isinstance(p, int) or p in seen:
            return None
        d = f.defs.get(p)
        if d is None:
            if p == 0 and f.klass and self.own(f):
                return ((self.own(f), 0), False) if not var else None
            return (('p', p), True) if f.args[p].get('ty', 'ptr') == 'ptr' else None
        if d.op == 'getelementptr':
            st = d.get('st', '')
            if repo_struct(st):
                return ((st, d['off']), var or bool(d.get('var')) or self.varbase(f, d['ptr']))
            if d['ptr'] == 0 and not d.get('var') and f.klass and d['off'] and self.own(f):
                # common subexpressions may name a field of *this by the type of its neighbour
                return ((self.own(f), d['off']), var)
            return self.cell(f, d['ptr'], var or bool(d.get('var')) or st.startswith('[') or bool(d.get('off')), seen + (p,))
        if d.op in ('bitcast', 'freeze'):
            return self.cell(f, d.operands()[0], var, seen + (p,))
        if d.op == 'phi':
            got = set()
            for o in d.operands():
                if isinstance(o, int) and (o == p or o in seen):
                    continue
                if self.steps(f, o, p):
                    continue
                got.add(self.cell(f, o, True, seen + (p,)))
            return got.pop() if len(got) == 1 else None
        if d.op == 'load' and d.get('ty') == 'ptr':
            c = self.cell(f, d['ptr'], False, seen + (p,))
            if var and c and not c[1] and c[0][0] not in ('*', 'a', 'p') and c[0][1]:
                return (('*',) + c[0], True)
            return None
        if d.op == 'alloca' and str(d.get('aty', d.get('aty', ''))).startswith('['):
            return (('a', f, d.id), True)
        if d.is_call:
            if d.callee in ARRAYS:
                return (('a', f, d.id), True)
            ts = [t for t in self.m.call_targets(d, self.m.live_vt)]
            if len(ts) == 1 and ts[0] is not None and not ts[0].decl and ts[0].in_repo and len(seen) < 6:
                r = self.returned(ts[0])
                if r is not None:
                    return (r, True)
        return None

    def steps(self, f, o, phi):
        """is o the phi advanced by an element?"""
        for _ in range(4):
            d = f.defs.get(o) if isinstance(o, int) else None
            if d is None or d.op != 'getelementptr':
                return False
            if d['ptr'] == phi:
                return True
            o = d['ptr']
        return False

    def returned(self, f):
        """the field array whose address the function returns, if it always returns that"""
        if f not in self._ret:
            self._ret[f] = None
            got = set()
            for i in f.insts():
                if i.op == 'ret':
                    o = i.operands()
                    c = self.cell(f, o[0]) if o and isinstance(o[0], int) else None
                    got.add(c[0] if c and c[0][0] not in ('*', 'a', 'p') and c[1] is not None and f.defs.get(o[0]) is not None
                            and f.defs[o[0]].op == 'getelementptr' else None)
            if len(got) == 1:
                self._ret[f] = got.pop()
        return self._ret[f]

    def own(self, f):
        if f not in self._own:
            n = defaultdict(int)
            for i in f.insts():
                if i.op == 'getelementptr' and i['ptr'] == 0 and repo_struct(i.get('st', '')):
                    n[i['st']] += 1
            self._own[f] = max(n, key=n.get) if n else None
        return self._own[f]

    def varbase(self, f, p):
        """is the struct an element of an array?"""
        d = f.defs.get(p) if isinstance(p, int) else None
        while d is not None and d.op == 'getelementptr':
            if d.get('var') or d.get('st', '').startswith('['):
                return True
            d = f.defs.get(d['ptr']) if isinstance(d['ptr'], int) else None
        return False

    def aliases(self, f):
        """fresh or local memory whose address is stored in a field: ('a', f, id) -> pointee cells of these fields"""
        if f not in self._alias:
            al = defaultdict(set)
            for i in f.insts():
                if i.op == 'store' and isinstance(i['val'], int):
                    d = f.defs.get(i['val'])
                    c = self.cell(f, i['ptr'])
                    if d is not None and (d.op == 'alloca' or d.is_call) and c and c[0][0] not in ('*', 'a'):
                        al[('a', f, d.id)].add(('*',) + c[0])
            self._alias[f] = al
        return self._alias[f]

    def depends_on(self, f, v, c):
        """does the stored value depend on a load of the same cell?"""
        if not isinstance(v, int):
            return False
        key = (f, v, c)
        if key in self._self:
            return self._self[key]
        seen, q, res = set(), [v], False
        while q and not res:
            o = q.pop()
            if not isinstance(o, int) or o in seen:
                continue
            seen.add(o)
            d = f.defs.get(o)
            if d is None:
                continue
            if d.op == 'load':
                k = self.cell(f, d['ptr'])
                if k and k[0] == c:
                    res = True
                continue
            if d.is_call or d.op in ('phi', 'select'):
                continue
            q += d.operands()
        self._self[key] = res
        return res

    def argcells(self, f, i):
        """cells whose contents a call is handed: [(argument number, cell)]"""
        out = []
        for k, a in enumerate(i['args']):
            if not isinstance(a, int):
                continue
            c = self.cell(f, a, True)
            if c:
                out.append((k, c[0]))
            d = f.defs.get(a)
            while d is not None and d.op in ('getelementptr', 'bitcast', 'freeze'):
                b = d['ptr'] if d.op == 'getelementptr' else d.operands()[0]
                d = f.defs.get(b) if isinstance(b, int) else None
            if d is not None and d.op == 'load':
                c = self.cell(f, d['ptr'])
                if c and c[0][0] not in ('*', 'a', 'p') and c[0][1]:
                    out.append((k, ('*',) + c[0]))
        return out

    def solve(self, f):
        outs, exp = {}, {}
        gen, gmay = TOP, set()
        changed, final = True, False
        order = f.rpo()
        al = self.aliases(f)
        while changed or not final:
            final = not changed         # the last pass, at the fixpoint, records the loads
            changed = False
            for b in order:
                if b is f.entry:
                    s, y = set(), set()
                else:
                    ins = [outs[(p.id, b.id)] for p in b.preds if outs.get((p.id, b.id)) is not None]
                    if not ins:
                        continue
                    s = set(frozenset.intersection(*[x[0] for x in ins]))
                    y = set(frozenset().union(*[x[1] for x in ins]))
                dead = False
                pre = None

                def load(c, tr):
                    if final and c[0] not in s and c[0] not in y:
                        exp.setdefault(c, tr)
                for i in b.insts:
                    if i.op == 'store':
                        c = self.cell(f, i['ptr'])
                        if c:
                            if not c[1]:
                                s.add(c[0])
                            if not self.depends_on(f, i['val'], c[0]):
                                if c[1]:
                                    y |= {c[0]} | al.get(c[0], set())
                        # a pointer to a local array that is stored somewhere may be filled through it
                        v = i['val']
                        d = f.defs.get(v) if isinstance(v, int) else None
                        if d is not None and d.op == 'alloca':
                            y.add(('a', f, d.id))
                    elif i.op == 'load':
                        c = self.cell(f, i['ptr'])
                        if c:
                            load(c, (i,))
                    elif i.is_call:
                        if i.callee and intrinsic(i.callee) and not i.callee.startswith(('llvm.mem',)):
                            continue
                        pre = (frozenset(s), frozenset(y))
                        ts = list(self.m.call_targets(i, self.m.live_vt)) or [None]
                        g, gy = TOP, set()
                        for t in ts:
                            if t is None or t.decl or t not in self.S:
                                if t is not None and t.noret:
                                    dead = len(ts) == 1
                                else:
                                    g = frozenset()
                                continue
                            tg, ty, te = self.S[t]
                            for c, tr in te.items():
                                if c[0][0] not in ('a', 'p'):
                                    load(c, tr + (i,) if len(tr) < 8 else tr)
                            gy |= {c for c in ty if c[0] not in ('a', 'p')}
                            if tg is not TOP:
                                g = tg if g is TOP else g & tg
                            elif len(ts) == 1:
                                dead = True
                        add = set()
                        for k, c in self.argcells(f, i):
                            n = i.callee or ''
                            if n.startswith(('llvm.memcpy', 'llvm.memmove', 'memcpy', 'memmove')) and k == 1:
                                if c in self.arrays or c[0] == 'a':
                                    load((c, True), (i,))
                                continue
                            fills = False
                            for t in ts:
                                if t is None or t.decl or t not in self.S or is_ostream_op(t.name):
                                    fills = True
                                    continue
                                tg, ty, te = self.S[t]
                                if ('p', k) in ty or tg is TOP or k >= len(t.args) or t.args[k].get('ty', 'ptr') != 'ptr' or (k == 0 and t.klass and self.own(t)):
                                    fills = True
                                tr = te.get((('p', k), True))
                                if tr and (c in self.arrays or c[0] in ('a', 'p') or c[0] == '*' and c[-1]):
                                    load((c, True), tr + (i,) if len(tr) < 8 else tr)
                            if fills:
                                add.add(c)
                        s |= add
                        y |= add | gy
                        for c in add:
                            y |= al.get(c, set())
                        if g:
                            s |= g
                        if dead and i is not b.term:
                            break
                    elif i.op == 'ret':
                        if final:
                            g0 = frozenset(s)
                            gen = g0 if gen is TOP else gen & g0
                            gmay |= y
                t = b.term
                for k, x in enumerate(t.get('succ', [])):
                    v = (frozenset(s), frozenset(y))
                    if t.op == 'invoke':
                        v = (None if dead else v) if k == 0 else pre
                    elif dead:
                        v = None
                    if outs.get((b.id, x), 0) != v:
                        outs[(b.id, x)] = v
                        changed = True
        return gen, frozenset(gmay), exp

    def constructors(self):
        """struct type -> constructors in use that name it"""
        out = defaultdict(list)
        for f in self.fns:
            k = f.klass
            if k and k.split('::')[-1].split('<')[0] == f.base and f.args and self.own(f):
                out[self.own(f)].append(f)
        return out
