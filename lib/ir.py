"""Resolved-program model over the irx JSON: functions, CFG, SSA, call graph (CHA)."""
import functools
import os
from collections import defaultdict, deque
import build
from build import AnalysisError, REPO


class Inst:
    __slots__ = ('d', 'fn', 'bb', 'idx', 'op', 'id')

    def __init__(self, d, fn, bb, idx):
        self.d, self.fn, self.bb, self.idx = d, fn, bb, idx
        self.op = d['op']
        self.id = d.get('id')

    def get(self, k, default=None):
        return self.d.get(k, default)

    def __getitem__(self, k):
        return self.d[k]

    @property
    def is_call(self):
        return self.op in ('call', 'invoke')

    @property
    def callee(self):
        return self.d.get('callee')

    def where(self):
        l = self.d.get('loc')
        if not l:
            return '%s:%s' % (rel(self.fn.file), self.fn.line)
        # innermost location in the repo, else innermost
        for i in range(0, len(l), 3):
            if l[i].startswith(REPO):
                return '%s:%s' % (rel(l[i]), l[i + 1])
        return '%s:%s' % (rel(l[0]), l[1])

    def operands(self):
        """all value refs used"""
        d = self.d
        op = self.op
        if op == 'phi':
            return [x[0] for x in d['in']]
        if self.is_call:
            r = list(d['args'])
            if 'fptr' in d:
                r.append(d['fptr'])
            return r
        if op == 'getelementptr':
            return [d['ptr']] + [v[0] for v in d.get('var', [])]
        if op == 'load':
            return [d['ptr']]
        if op == 'store':
            return [d['val'], d['ptr']]
        if op in ('br', 'switch'):
            return [d['cond']] if 'cond' in d else []
        return d.get('ops', [])

    def __repr__(self):
        return '<%s %s in %s>' % (self.op, self.id, self.fn.name)


def rel(p):
    if p and p.startswith(REPO + '/'):
        return p[len(REPO) + 1:]
    return p or '?'


class Block:
    __slots__ = ('id', 'insts', 'fn', 'succs', 'preds')

    def __init__(self, id, fn):
        self.id, self.fn, self.insts, self.succs, self.preds = id, fn, [], [], []

    @property
    def term(self):
        return self.insts[-1]


class Function:
    def __init__(self, name, d, mod):
        self.name, self.d, self.mod = name, d, mod
        self.dem = d['dem']
        self.file = d.get('file') or ''
        self.line = d.get('line', 0)
        self.cls = d.get('cls')
        self.args = d['args']
        self.noret = d.get('noret', False)
        self.decl = d['decl'] or d.get('opaque', False)
        self._built = False

    @property
    def in_repo(self):
        return self.file.startswith(REPO + '/')

    def _build(self):
        if self._built:
            return
        self._built = True
        self._blocks, self._defs, self._users = {}, {}, defaultdict(list)
        self._order = []
        for b in self.d.get('blocks', []):
            B = Block(b['id'], self)
            for i, x in enumerate(b['insts']):
                I = Inst(x, self, B, i)
                B.insts.append(I)
                if I.id is not None:
                    self._defs[I.id] = I
                for o in I.operands():
                    if isinstance(o, int):
                        self._users[o].append(I)
            self._blocks[B.id] = B
            self._order.append(B)
        for B in self._order:
            for s in B.term.get('succ', []) if B.insts else []:
                S = self._blocks[s]
                if S not in B.succs:
                    B.succs.append(S)
                if B not in S.preds:
                    S.preds.append(B)

    @property
    def blocks(self):
        self._build()
        return self._order

    def block(self, i):
        self._build()
        return self._blocks[i]

    @property
    def entry(self):
        return self.blocks[0]

    @property
    def defs(self):
        self._build()
        return self._defs

    @property
    def users(self):
        self._build()
        return self._users

    def insts(self):
        for b in self.blocks:
            for i in b.insts:
                yield i

    def calls(self):
        return (i for i in self.insts() if i.is_call)

    def where(self):
        return '%s:%s' % (rel(self.file), self.line)

    @property
    def short(self):
        return short(self.dem)

    @property
    def klass(self):
        """qualified class (or namespace) part of the demangled name"""
        return split_name(self.dem)[0]

    @property
    def base(self):
        """unqualified function name, without template arguments"""
        return split_name(self.dem)[1]

    # -- dominators -------------------------------------------------------
    def rpo(self):
        if not hasattr(self, '_rpo'):
            seen, out = set(), []
            stack = [(self.entry, iter(self.entry.succs))]
            seen.add(self.entry.id)
            while stack:
                b, it = stack[-1]
                for s in it:
                    if s.id not in seen:
                        seen.add(s.id)
                        stack.append((s, iter(s.succs)))
                        break
                else:
                    out.append(b)
                    stack.pop()
            self._rpo = out[::-1]
        return self._rpo

    def dom(self):
        if not hasattr(self, '_dom'):
            self._dom = _dominators([b.id for b in self.rpo()], {b.id: [p.id for p in b.preds] for b in self.blocks})
        return self._dom

    def pdom(self):
        """post-dominator sets over a virtual exit -1 (all blocks without successors)."""
        if not hasattr(self, '_pdom'):
            succ = {b.id: [s.id for s in b.succs] or [-1] for b in self.blocks}
            pred = defaultdict(list)
            for b, ss in succ.items():
                for s in ss:
                    pred[s].append(b)
            # reverse graph rpo from -1
            seen, out = {-1}, []
            st = [(-1, iter(pred[-1]))]
            while st:
                b, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(pred[s])))
                        break
                else:
                    out.append(b)
                    st.pop()
            self._pdom = _dominators(out[::-1], succ)
        return self._pdom

    def normal_succs(self, b):
        """successor ids without exceptional edges"""
        t = b.term
        if t.op == 'invoke':
            return [t['succ'][0]]
        return [s.id for s in b.succs]

    def normal_region(self, br):
        """(blocks, join): control region of branch `br`, exceptional edges left out.
        join is the block where the branches meet again (-1: only at the function exit)."""
        if not hasattr(self, '_npdom'):
            succ = {b.id: self.normal_succs(b) or [-1] for b in self.blocks}
            pred = defaultdict(list)
            for b, ss in succ.items():
                for x in ss:
                    pred[x].append(b)
            seen, out = {-1}, []
            st = [(-1, iter(pred[-1]))]
            while st:
                b, it = st[-1]
                for x in it:
                    if x not in seen:
                        seen.add(x)
                        st.append((x, iter(pred[x])))
                        break
                else:
                    out.append(b)
                    st.pop()
            self._npdom = _dominators(out[::-1], succ)
        d = self._npdom
        b = br.bb.id
        ip = max((x for x in d.get(b, {-1}) if x != b), key=lambda x: len(d[x]), default=-1)
        reg, q = set(), [s for s in self.normal_succs(br.bb) if s != ip]
        while q:
            x = q.pop()
            if x in reg or x == ip:
                continue
            reg.add(x)
            q.extend(s for s in self.normal_succs(self.block(x)) if s != ip and s not in reg)
        return reg, ip

    def idom(self):
        d = self.dom()
        return {b: max((x for x in ds if x != b), key=lambda x: len(d[x]), default=None) for b, ds in d.items()}

    def ipdom(self):
        d = self.pdom()
        return {b: max((x for x in ds if x != b), key=lambda x: len(d[x]), default=None) for b, ds in d.items()}

    def dominates(self, a, b):
        """instruction a dominates instruction b"""
        if a.bb is b.bb:
            return a.idx < b.idx
        return a.bb.id in self.dom().get(b.bb.id, set())

    def control_region(self, br):
        """blocks control dependent (transitively) on branch instruction `br`:
        reachable from a successor before the immediate post-dominator."""
        ip = self.ipdom().get(br.bb.id)
        reg, q = set(), deque(s.id for s in br.bb.succs if s.id != ip)
        while q:
            b = q.popleft()
            if b in reg or b == ip:
                continue
            reg.add(b)
            for s in self.block(b).succs:
                if s.id != ip and s.id not in reg:
                    q.append(s.id)
        return reg

    def reach(self, start, avoid=()):
        """block ids reachable from block id start"""
        seen, q = set(), [start]
        while q:
            b = q.pop()
            if b in seen or b in avoid:
                continue
            seen.add(b)
            q.extend(s.id for s in self.block(b).succs)
        return seen


    # -- reachability that follows the constants of control phis (cleanup.dest and the like)
    def control_phis(self):
        if hasattr(self, '_cphi'):
            return self._cphi
        want, q = set(), []

        def feed(o):
            if isinstance(o, int):
                d = self.defs.get(o)
                if d is None or o in want:
                    return
                if d.op in ('phi', 'icmp', 'xor', 'and', 'or', 'zext', 'trunc', 'select', 'sext', 'freeze'):
                    want.add(o)
                    q.append(d)
        for b in self.blocks:
            t = b.term
            if t.op in ('br', 'switch') and 'cond' in t.d:
                feed(t['cond'])
        while q:
            d = q.pop()
            for o in d.operands():
                feed(o)
        # keep only those phis that have a constant (or wanted) incoming value
        self._cphi = want
        return want

    def const_eval(self, o, env, depth=0):
        """integer value of operand o under env (value id -> int), or None"""
        if isinstance(o, dict):
            c = o.get('c')
            return int(c) if c is not None else None
        if not isinstance(o, int):
            return None
        if o in env:
            return env[o]
        d = self.defs.get(o)
        if d is None or depth > 12:
            return None
        if d.op == 'icmp':
            a, b = (self.const_eval(x, env, depth + 1) for x in d['ops'])
            if a is None or b is None:
                return None
            return icmp(d['pred'], a, b, d.get('w', 64))
        if d.op in ('zext', 'trunc', 'freeze', 'sext'):
            a = self.const_eval(d['ops'][0], env, depth + 1)
            if a is None:
                return None
            return a if d.op != 'trunc' else a & ((1 << width(d.get('ty', 'i64'))) - 1)
        if d.op in ('xor', 'and', 'or'):
            a, b = (self.const_eval(x, env, depth + 1) for x in d['ops'])
            if d.op == 'and' and (a == 0 or b == 0):
                return 0
            if a is None or b is None:
                return None
            return {'xor': a ^ b, 'and': a & b, 'or': a | b}[d.op]
        if d.op == 'select':
            c = self.const_eval(d['ops'][0], env, depth + 1)
            if c is None:
                return None
            return self.const_eval(d['ops'][1 if c else 2], env, depth + 1)
        return None

    def edges(self, blk, env):
        """feasible (successor block, new env) pairs"""
        t = blk.term
        succ = t.get('succ', [])
        pick = None
        if t.op == 'br' and 'cond' in t.d:
            c = self.const_eval(t['cond'], env)
            if c is not None:
                pick = [succ[0] if c & 1 else succ[1]]
        elif t.op == 'switch':
            c = self.const_eval(t['cond'], env)
            if c is not None:
                dst = None
                for v, b in t['cases']:
                    if cval(v) == c:
                        dst = b
                pick = [dst if dst is not None else t['def']]
        out = []
        cps = self.control_phis()
        for sid in dict.fromkeys(pick or succ):
            S = self.block(sid)
            ne = {}
            for k, v in env.items():
                ne[k] = v
            # branch refinement: the condition itself
            if t.op == 'br' and 'cond' in t.d and isinstance(t['cond'], int) and succ[0] != succ[1]:
                if t['cond'] in cps:
                    ne[t['cond']] = 1 if sid == succ[0] else 0
            upd = {}
            for i in S.insts:
                if i.op != 'phi':
                    break
                if i.id not in cps:
                    continue
                v = None
                for val, pb in i['in']:
                    if pb == blk.id:
                        v = self.const_eval(val, ne)
                upd[i.id] = v
            for k, v in upd.items():
                if v is None:
                    ne.pop(k, None)
                else:
                    ne[k] = v
            # values (re)computed in S are unknown until then
            for i in S.insts:
                if i.op != 'phi' and i.id in ne:
                    ne.pop(i.id)
            out.append((S, ne))
        return out

    def feas_reach(self, start, avoid=()):
        """block ids reachable after instruction `start` along feasible edges"""
        cache = self.__dict__.setdefault('_fr', {})
        key = (start.bb.id, tuple(sorted(avoid)))
        if key in cache:
            return cache[key]
        seen, blocks, q = set(), set(), [(start.bb, {})]
        limit = 20000
        while q:
            b, env = q.pop()
            for S, ne in self.edges(b, env):
                if S.id in avoid:
                    continue
                k = (S.id, frozenset(ne.items()))
                if k in seen:
                    continue
                seen.add(k)
                blocks.add(S.id)
                if len(seen) > limit:
                    blocks |= self.reach(start.bb.id, avoid)
                    cache[key] = blocks
                    return blocks
                q.append((S, ne))
        cache[key] = blocks
        return blocks


def cval(v):
    return int(v['c']) if isinstance(v, dict) else int(v)


def width(ty):
    return int(ty[1:]) if ty and ty[0] == 'i' and ty[1:].isdigit() else 64


def icmp(pred, a, b, w):
    m = (1 << w) - 1
    ua, ub = a & m, b & m
    sa, sb = (x - (1 << w) if x >> (w - 1) else x for x in (ua, ub))
    return int({'eq': ua == ub, 'ne': ua != ub, 'ult': ua < ub, 'ule': ua <= ub, 'ugt': ua > ub, 'uge': ua >= ub,
                'slt': sa < sb, 'sle': sa <= sb, 'sgt': sa > sb, 'sge': sa >= sb}[pred])


def _dominators(order, preds):
    root = order[0]
    index = {b: i for i, b in enumerate(order)}
    idom = {root: root}

    def inter(a, b):
        while a != b:
            while index[a] > index[b]:
                a = idom[a]
            while index[b] > index[a]:
                b = idom[b]
        return a
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            ps = [p for p in preds.get(b, []) if p in idom]
            if not ps:
                continue
            n = ps[0]
            for p in ps[1:]:
                n = inter(n, p)
            if idom.get(b) != n:
                idom[b] = n
                ch = True
    sets = {}
    for b in order:
        if b not in idom:
            continue
        if b == root:
            sets[b] = {b}
        else:
            sets[b] = None
    def get(b):
        if sets[b] is None:
            chain = []
            x = b
            while sets[x] is None:
                chain.append(x)
                x = idom[x]
            acc = set(sets[x])
            for y in reversed(chain):
                acc = acc | {y}
                sets[y] = acc
        return sets[b]
    for b in list(sets):
        get(b)
    return sets


def short(dem):
    """demangled name without template args' noise and parameter list"""
    i = dem.find('(')
    return dem[:i] if i > 0 and not dem.startswith('(') else dem


@functools.lru_cache(maxsize=None)
def split_name(dem):
    """'ret ns::C<T>::f<U>(args) const' -> ('ns::C<T>', 'f')"""
    depth, end = 0, len(dem)
    i = 0
    # find the parameter list: first '(' at template depth 0 that is not '(anonymous namespace)'
    while i < len(dem):
        c = dem[i]
        if dem.startswith('(anonymous namespace)', i):
            i += len('(anonymous namespace)')
            continue
        if dem.startswith('operator', i) and depth == 0:
            j = i + len('operator')
            while j < len(dem) and dem[j] in '<>=!+-*/%&|^~[],' :
                j += 1
            if dem.startswith('()', j):
                j += 2
            i = max(j, i + 1)
            continue
        if c == '<':
            depth += 1
        elif c == '>':
            depth -= 1
        elif c == '(' and depth == 0:
            end = i
            break
        i += 1
    q = dem[:end]
    # split at top level '::' and drop a return type before a top-level space
    parts, depth, cur, i = [], 0, '', 0
    while i < len(q):
        if q.startswith('(anonymous namespace)', i):
            cur += '(anonymous namespace)'
            i += len('(anonymous namespace)')
            continue
        c = q[i]
        if c in '<(':
            depth += 1
        elif c in '>)':
            depth -= 1
        if depth == 0 and q.startswith('::', i):
            parts.append(cur)
            cur = ''
            i += 2
            continue
        if depth == 0 and c == ' ' and not cur.startswith('operator'):
            parts, cur = [], ''
            i += 1
            continue
        cur += c
        i += 1
    name = cur
    if not name.startswith('operator') and '<' in name:
        name = name[:name.index('<')]
    return '::'.join(parts), name


class Module:
    def __init__(self, prog, defs=(), opts=(), keep='main', data=None):
        self.prog = prog
        d = data or build.dump(prog, defs, opts, keep)
        self.globals, self.types, self.aliases = d['globals'], d['types'], d['aliases']
        self.functions = {n: Function(n, f, self) for n, f in d['functions'].items()}
        self._vt = None

    # -- virtual tables ----------------------------------------------------
    def vtables(self):
        """class type id -> list of (vtable global name, offset)"""
        if self._vt is None:
            self._vt = defaultdict(list)
            for g, o in self.globals.items():
                if '__cxa_pure_virtual' in (o.get('vt') or ()):
                    continue            # abstract class: never the dynamic type of an object in use
                for off, tid in o.get('types', []):
                    self._vt[tid].append((g, off))
        return self._vt

    def slot(self, vt, byteoff):
        s = self.globals[vt].get('vt')
        if not s:
            return None
        i, r = divmod(byteoff, 8)
        if r or i < 0 or i >= len(s):
            return None
        n = s[i]
        return self.aliases.get(n, n)

    def vcall(self, inst):
        """(static class id, slot byte offset) of a virtual call, or None"""
        fp = inst.get('fptr')
        if not isinstance(fp, int):
            return None
        fn = inst.fn
        ld = fn.defs.get(fp)
        if ld is None or ld.op != 'load':
            return None
        p, off = ld['ptr'], 0
        if not isinstance(p, int):
            return None
        pd = fn.defs.get(p)
        if pd is not None and pd.op == 'getelementptr' and not pd.get('var') and not pd.get('opaque'):
            off, p = pd['off'], pd['ptr']
        if not isinstance(p, int):
            return None
        for u in fn.users[p]:
            if u.is_call and u.callee in ('llvm.type.test', 'llvm.public.type.test') and u['args'][0] == p:
                t = u['args'][1]
                if isinstance(t, dict) and t.get('md'):
                    return (t['md'], off)
        return None

    def vcall_obj(self, inst):
        """the object pointer value of a virtual call (this)"""
        return inst['args'][0] if not (inst.fn and False) else None

    def call_targets(self, inst, live_vt=None):
        """list of Function (defined or declared); None element = unknown target"""
        if 'callee' in inst.d:
            n = inst.callee
            n = self.aliases.get(n, n)
            f = self.functions.get(n)
            return [f] if f else []      # intrinsics are not in the table
        if inst.get('asm'):
            return []
        v = self.vcall(inst)
        if v:
            tid, off = v
            out = []
            for g, o in self.vtables().get(tid, []):
                if live_vt is not None and g not in live_vt:
                    continue
                n = self.slot(g, o + off)
                if n and n != '__cxa_pure_virtual' and n in self.functions and self.functions[n] not in out:
                    out.append(self.functions[n])
            return out
        return [None]

    def reachable(self, roots):
        """rapid-type-analysis style reachability: functions and live vtables.
        returns dict function -> (caller inst or None)"""
        seen, live, q = {}, set(), deque()
        pending = []          # virtual call sites seen
        addr_taken = []

        def add(f, why):
            if f is not None and f not in seen:
                seen[f] = why
                q.append(f)

        def vt_live(g):
            if g in live:
                return
            live.add(g)
            for inst, tid, off in pending:
                for g2, o in self.vtables().get(tid, []):
                    if g2 == g:
                        n = self.slot(g, o + off)
                        if n in self.functions:
                            add(self.functions[n], inst)

        def refs(o, inst):
            if isinstance(o, dict):
                g = o.get('g')
                if g is not None:
                    if g in self.functions:
                        add(self.functions[g], inst)
                    elif g in self.globals:
                        if 'vt' in self.globals[g]:
                            vt_live(g)
                        elif 'init' in self.globals[g] and g not in gseen:
                            gseen.add(g)
                            refs(self.globals[g]['init'], inst)
                        else:
                            pass
                for k in ('agg', 'ops'):
                    for x in o.get(k, []) if isinstance(o.get(k), list) else []:
                        refs(x, inst)
        gseen = set()
        for r in roots:
            add(r, None)
        # global constructors
        gc = self.globals.get('llvm.global_ctors')
        if gc and 'init' in gc:
            refs(gc['init'], None)
        while q:
            f = q.popleft()
            if f.decl:
                continue
            for i in f.insts():
                for o in i.operands():
                    refs(o, i)
                if i.is_call:
                    if 'callee' in i.d:
                        for t in self.call_targets(i):
                            add(t, i)
                    elif 'fptr' in i.d:
                        v = self.vcall(i)
                        if v:
                            pending.append((i, v[0], v[1]))
                            for t in self.call_targets(i, live):
                                add(t, i)
        self.live_vt = live
        return seen

    def path_to(self, seen, f):
        out = []
        while f is not None and len(out) < 40:
            w = seen.get(f)
            out.append((f, w))
            f = w.fn if w is not None else None
        return out[::-1]

    def describe_path(self, seen, f):
        parts = []
        for fn, w in self.path_to(seen, f):
            parts.append(short(fn.dem) + ('' if w is None else ' [called at %s]' % w.where()))
        return ' -> '.join(parts)

    def find(self, pred):
        return [f for f in self.functions.values() if pred(f)]

    def method(self, cls, name):
        """functions whose demangled qualified name is cls::name (ignores parameters)"""
        want = cls + '::' + name
        return [f for f in self.functions.values() if f.short == want]

    def main(self):
        m = self.functions.get('main')
        if not m or m.decl:
            raise AnalysisError('no main in ' + self.prog)
        return m
