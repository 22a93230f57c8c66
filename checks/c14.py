"""C14: what is allocated is released exactly once, in the way that belongs to it."""
import sys, os, re
from collections import defaultdict
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import report, build
from ir import Module, short, icmp, width, cval
from effects import intrinsic
from initf import repo_struct

PIPE = ['--noassert', '--pass=globaldce,function(sroa,early-cse<memssa>,simplifycfg)']
ALLOC = {'_Znwm': 'new', '_Znam': 'new[]', '_ZnwmRKSt9nothrow_t': 'new', '_ZnamRKSt9nothrow_t': 'new[]', 'malloc': 'malloc', 'calloc': 'malloc',
         'aligned_alloc': 'malloc', 'strdup': 'malloc'}
FREE = {'_ZdlPv': 'new', '_ZdlPvm': 'new', '_ZdaPv': 'new[]', '_ZdaPvm': 'new[]', 'free': 'malloc'}
OP = {'new': 'delete', 'new[]': 'delete[]', 'malloc': 'free'}
# external functions that keep none of the pointers they are given
HARMLESS = re.compile(r'^(llvm\.|mem|str|f(read|write|close|flush|putc|getc|tell|seek|puts|printf)|__cxa_|perror|printf|snprintf|abort|exit|_ZNSo|_ZNSi|_ZNKS?s|'
                      r'_ZSt.*_throw_|_ZNKSt|_ZNSt|_ZStls|_Unwind)')
LIVE, DEAD, NULL = 'live', 'released', 'null'


class Own:
    def __init__(self, m):
        self.m = m
        self.seen = m.reachable([m.main()])
        self.fns = [f for f in self.seen if not f.decl]
        self.rel = {}            # (function, parameter) -> set of end states when the parameter came in live
        self.keep = {}           # (function, parameter) -> set of places it is kept in ('?' = unknown)
        self.fresh = {}          # function -> set of (kind, class) it returns new memory of
        self.und = []
        self.states = 0
        self._own = {}
        self._clo = {}
        self._cond = {}
        self._focus = {}
        self.through = set()     # (function, parameter) whose result points to or into what the parameter points to
        self.solve()

    # ---- small helpers
    def own(self, f):
        if f not in self._own:
            n = defaultdict(int)
            for i in f.insts():
                if i.op == 'getelementptr' and i['ptr'] == 0 and repo_struct(i.get('st', '')):
                    n[i['st']] += 1
            if not n and f.klass:
                for g in self.fns:
                    if g is not f and g.klass == f.klass:
                        for i in g.insts():
                            if i.op == 'getelementptr' and i['ptr'] == 0 and repo_struct(i.get('st', '')):
                                n[i['st']] += 1
            self._own[f] = max(n, key=n.get) if n else None
        return self._own[f]

    def cell(self, f, p):
        """(structure, offset) of a member, or None"""
        if not isinstance(p, int):
            return None
        d = f.defs.get(p)
        if d is None:
            return (self.own(f), 0) if p == 0 and f.klass and self.own(f) else None
        if d.op == 'getelementptr' and not d.get('var') and repo_struct(d.get('st', '')):
            return (d['st'], d['off'])
        if d.op == 'getelementptr' and d['ptr'] == 0 and not d.get('var') and f.klass and self.own(f):
            return (self.own(f), d['off'])
        return None

    def targets(self, i):
        return list(self.m.call_targets(i, self.m.live_vt))

    def release(self, f, i):
        """[(value, kind, what)] this call releases by itself"""
        if i.callee in FREE:
            return [(i['args'][0], FREE[i.callee])]
        if i.callee is None:
            ts = [t for t in self.targets(i) if t is not None]
            if ts and all(re.search(r'D0Ev$', t.name) for t in ts):
                return [(i['args'][0], 'new')]
        return []

    def alloc(self, f, i):
        """set of (kind, class) if the call yields new memory"""
        if i.callee in ALLOC:
            return {(ALLOC[i.callee], None)}
        if i.callee and intrinsic(i.callee):
            return set()
        ts = self.targets(i)
        if ts and all(t is not None and self.fresh.get(t) for t in ts):
            return set().union(*[self.fresh[t] for t in ts])
        return set()

    def closure(self, f, v):
        """values that may be the pointer itself, and those derived from it"""
        if (f, v) in self._clo:
            return self._clo[(f, v)]
        same, der = {v}, set()
        q = [v]
        while q:
            x = q.pop()
            for u in f.users.get(x, ()):
                y = u.id
                if u.op in ('bitcast', 'freeze', 'phi') or (u.op == 'select' and u.operands()[0] != x):
                    if x in same and y not in same:
                        same.add(y)
                        q.append(y)
                    elif x in der and y not in der and y not in same:
                        der.add(y)
                        q.append(y)
                elif u.op == 'getelementptr' and u['ptr'] == x or self.through and u.is_call and any(
                        a == x and (t, n) in self.through for n, a in enumerate(u['args']) for t in self.targets(u)):
                    if y is not None and y not in der and y not in same:
                        der.add(y)
                        q.append(y)
        self._clo[(f, v)] = (same, der)
        return same, der

    # ---- what is known on a path: constants of control phis, conditions that were branched on, null tests
    def nodes(self, f, c, out, depth=0):
        """values a condition is made of"""
        if not isinstance(c, int) or depth > 8 or c in out:
            return
        out.add(c)
        d = f.defs.get(c)
        if d is None:
            return
        if d.op in ('xor', 'and', 'or', 'select', 'zext', 'trunc', 'freeze', 'sext'):
            for o in d.operands():
                self.nodes(f, o, out, depth + 1)
        elif d.op == 'icmp':
            x, y = d.operands()
            if isinstance(y, dict) and 'null' in y:
                out.add(('z', x))
            else:
                for o in (x, y):
                    self.nodes(f, o, out, depth + 1)

    def focus(self, f, blocks):
        """restrict what is remembered along paths to what decides which of these blocks comes next"""
        ids = {b.id for b in blocks}
        nxt = {b.id: set() for b in f.blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(f.blocks):
                n = set()
                for s in f.normal_succs(b):
                    s = s if isinstance(s, int) else s.id
                    n |= {s} if s in ids else nxt[s]
                if n != nxt[b.id]:
                    nxt[b.id] = n
                    ch = True
        want, q = set(), []

        def feed(o):
            if isinstance(o, int) and o not in want:
                d = f.defs.get(o)
                want.add(o)
                if d is not None and d.op in ('phi', 'icmp', 'xor', 'and', 'or', 'zext', 'trunc', 'select', 'sext', 'freeze'):
                    q.append(d)
        for b in f.blocks:
            t = b.term
            if t is None or t.op not in ('br', 'switch') or not isinstance(t.get('cond'), int):
                continue
            ns = []
            for s in f.normal_succs(b):
                s = s if isinstance(s, int) else s.id
                ns.append({s} if s in ids else nxt[s])
            if any(n != ns[0] for n in ns):
                feed(t['cond'])
        while q:
            for o in q.pop().operands():
                feed(o)
        full = self.relevant(f)
        return {x for x in full if (x[1] if isinstance(x, tuple) else x) in want}

    def relevant(self, f):
        if f in self._focus:
            return self._focus[f]
        if f not in self._cond:
            n = defaultdict(int)
            for b in f.blocks:
                t = b.term
                if t is not None and t.op in ('br', 'switch') and isinstance(t.get('cond'), int):
                    out = set()
                    self.nodes(f, t['cond'], out)
                    for x in out:
                        n[x] += 1
            keep = {x for x, k in n.items() if k > 1}
            keep |= {x for x in f.control_phis() if f.defs[x].op == 'phi'}
            keep |= {('z', i.id) for i in f.insts() if i.op == 'phi' and ('z', i.id) in n}
            self._cond[f] = keep
        return self._cond[f]

    def value(self, f, o, env, nonnull, depth=0):
        """integer if all bits are known"""
        k, v, w = self.bits(f, o, env, nonnull)
        return v if k == (1 << w) - 1 else None

    def bits(self, f, o, env, nonnull, depth=0):
        """known bits: (mask of known bits, their values, width)"""
        if isinstance(o, dict):
            if 'c' in o:
                w = o.get('w', 64)
                return (1 << w) - 1, int(o['c']) & ((1 << w) - 1), w
            return 0, 0, 64
        d = f.defs.get(o) if isinstance(o, int) else None
        w = width(d.get('ty', 'i64')) if d is not None and d.op != 'icmp' else 1 if d is not None else 64
        w = w or 64
        M = (1 << w) - 1
        if isinstance(o, int) and o in env:
            k, v = env[o]
            return k & M, v & M, w
        if d is None or depth > 10:
            return 0, 0, w

        def B(x):
            return self.bits(f, x, env, nonnull, depth + 1)

        def truth(t):
            return (0, 0, 1) if t is None else (1, int(bool(t)), 1)
        if d.op == 'icmp':
            x, y = d.operands()
            if isinstance(y, dict) and 'null' in y and d['pred'] in ('eq', 'ne'):
                z = nonnull(x)
                if z is None:
                    z = env.get(('z', x))
                return truth(None if z is None else bool(z) == (d['pred'] == 'eq'))
            (kx, vx, wx), (ky, vy, wy) = B(x), B(y)
            if d['pred'] in ('eq', 'ne'):
                if (vx ^ vy) & kx & ky:
                    return truth(d['pred'] == 'ne')
            full = (1 << wx) - 1
            if kx == full and ky == full:
                return truth(icmp(d['pred'], vx, vy, wx))
            return truth(None)
        if d.op in ('zext', 'freeze'):
            k, v, wi = B(d.operands()[0])
            return (k | (M & ~((1 << wi) - 1))) if d.op == 'zext' else k, v, w
        if d.op == 'sext':
            k, v, wi = B(d.operands()[0])
            if k == (1 << wi) - 1:
                return M, (v | (M & ~((1 << wi) - 1)) if v >> (wi - 1) & 1 else v), w
            return 0, 0, w
        if d.op == 'trunc':
            k, v, _ = B(d.operands()[0])
            return k & M, v & M, w
        if d.op in ('and', 'or', 'xor'):
            (kx, vx, _), (ky, vy, _) = (B(q) for q in d.operands())
            if d.op == 'xor':
                k = kx & ky
                return k, (vx ^ vy) & k, w
            if d.op == 'and':
                k = (kx & ky) | (kx & ~vx) | (ky & ~vy)
                return k & M, vx & vy & k & M, w
            k = (kx & ky) | (kx & vx) | (ky & vy)
            return k & M, ((vx & kx) | (vy & ky)) & k & M, w
        if d.op == 'select':
            kc, vc, _ = B(d.operands()[0])
            if kc & 1:
                return B(d.operands()[1 if vc & 1 else 2])
            (kx, vx, _), (ky, vy, _) = B(d.operands()[1]), B(d.operands()[2])
            k = kx & ky & ~(vx ^ vy)
            return k, vx & k, w
        return 0, 0, w

    def assume(self, f, c, val, env, depth=0):
        if not isinstance(c, int) or depth > 8:
            return
        keep = self.relevant(f)
        if c in keep:
            d = f.defs.get(c)
            env[c] = ((1 << (width(d.get('ty', 'i1')) or 1)) - 1 if d is not None and d.op != 'icmp' else 1, int(val))
        d = f.defs.get(c)
        if d is None:
            return
        ops = d.operands()
        if d.op == 'xor' and isinstance(ops[1], dict) and d.get('ty') == 'i1':
            self.assume(f, ops[0], not val, env, depth + 1)
        elif d.op in ('freeze',) or (d.op in ('zext', 'trunc') and self.boolean(f, c)):
            self.assume(f, ops[0], val, env, depth + 1)
        elif d.op == 'icmp' and d['pred'] in ('eq', 'ne') and isinstance(ops[1], dict):
            t = bool(val) == (d['pred'] == 'eq')
            if 'null' in ops[1]:
                env[('z', ops[0])] = int(t)
            elif ops[1].get('c') in (0, '0') and self.boolean(f, ops[0]):
                self.assume(f, ops[0], not t, env, depth + 1)
            elif ops[1].get('c') in (0, '0') and isinstance(ops[0], int):
                # a test of some bits
                e = f.defs.get(ops[0])
                if e is not None and e.op == 'and' and isinstance(e.operands()[1], dict) and isinstance(e.operands()[0], int) and e.operands()[0] in keep:
                    c1, x = int(e.operands()[1]['c']), e.operands()[0]
                    if t or bin(c1).count('1') == 1:
                        k, v = env.get(x, (0, 0))
                        env[x] = (k | c1, (v & ~c1) | (0 if t else c1))
        elif d.op == 'select' and isinstance(ops[1], dict) and ops[1].get('c') in (1, '1', '-1') and not val:
            self.assume(f, ops[0], False, env, depth + 1)
            self.assume(f, ops[2], False, env, depth + 1)
        elif d.op == 'select' and isinstance(ops[2], dict) and ops[2].get('c') in (0, '0') and val:
            self.assume(f, ops[0], True, env, depth + 1)
            self.assume(f, ops[1], True, env, depth + 1)
        elif d.op == 'and' and val and d.get('ty') == 'i1' or d.op == 'or' and not val and d.get('ty') == 'i1':
            for o in ops:
                self.assume(f, o, val, env, depth + 1)

    def boolean(self, f, v):
        d = f.defs.get(v) if isinstance(v, int) else None
        for _ in range(5):
            if d is None:
                return False
            if d.get('ty') == 'i1' or d.op == 'icmp':
                return True
            if d.op not in ('zext', 'trunc', 'freeze'):
                return False
            o = d.operands()[0]
            d = f.defs.get(o) if isinstance(o, int) else None
        return False

    def at_start(self, f, at):
        """what the branches that lead to an instruction say"""
        env = {}
        b = at.bb
        for t in [x.term for x in f.blocks]:
            if t is not None and t.op == 'br' and isinstance(t.get('cond'), int) and t['succ'][0] != t['succ'][1] and t.bb is not b:
                for n, sid in enumerate(t['succ']):
                    S = self.blk(f, sid)
                    if len(S.preds) == 1 and (S is b or f.dominates(S.insts[0], at)):
                        self.assume(f, t['cond'], n == 0, env)
        return env

    def step(self, f, b, env, given, hold=frozenset(), same=frozenset()):
        """feasible successors -> [(block, env, hold, condition decided: (cond, truth) or None)]"""
        def nonnull(x):
            z = given(x)
            if z is None and isinstance(x, int):
                d = f.defs.get(x)
                if d is not None and d.is_call and d.callee in ('_Znwm', '_Znam'):
                    z = 0
            return z
        t = b.term
        out = []
        pick = None
        succ = [self.blk(f, x) for x in f.normal_succs(b)]
        if t.op == 'br' and isinstance(t.get('cond'), int):
            v = self.value(f, t['cond'], env, nonnull)
            if v is not None:
                pick = [t['succ'][0 if v & 1 else 1]]
        elif t.op == 'switch' and isinstance(t.get('cond'), int):
            v = self.value(f, t['cond'], env, nonnull)
            if v is not None:
                pick = [next((x for cv, x in t['cases'] if cval(cv) == v), t['def'])]
        keep = self.relevant(f)
        for S in succ:
            if pick is not None and S.id not in pick:
                continue
            ne = dict(env)
            if t.op == 'br' and isinstance(t.get('cond'), int) and t['succ'][0] != t['succ'][1]:
                self.assume(f, t['cond'], S.id == t['succ'][0], ne)
            upd, nh = {}, set(hold)
            for i in S.insts:
                if i.op != 'phi':
                    break
                inc = next((val for val, pb in i['in'] if pb == b.id), None)
                if i.id in keep:
                    k, v, _ = self.bits(f, inc, ne, nonnull)
                    upd[i.id] = (k, v) if k else None
                if ('z', i.id) in keep or i.id in same:
                    z = None
                    if isinstance(inc, dict) and 'null' in inc:
                        z = 1
                    elif isinstance(inc, int):
                        z = nonnull(inc)
                        if z is None:
                            z = ne.get(('z', inc))
                    upd[('z', i.id)] = z
                if i.id in same:
                    if isinstance(inc, int) and inc in hold:
                        nh.add(i.id)
                    else:
                        nh.discard(i.id)
            for i in S.insts:
                if i.id is not None:
                    ne.pop(i.id, None)
                    ne.pop(('z', i.id), None)
            for k, v in upd.items():
                if v is not None:
                    ne[k] = v
            # values that hold the pointer and are computed again
            out.append((S, {k: v for k, v in ne.items() if k in keep}, frozenset(nh)))
        return out

    # ---- typestate of one pointer
    def track(self, f, v, at=None, sure=False):
        """follow the pointer v from instruction `at` (or the entry) -> dict(ends={(state, how)}, leaks=[...], twice=[...], after=[...], escapes=bool)"""
        same, der = self.closure(f, v)
        anyv = same | der
        res = dict(ends=set(), leaks=[], twice=[], after=[], escapes=set(), rel=[], wrong=[])
        # escapes first: where the pointer is stored or handed to
        for x in anyv:
            for u in f.users.get(x, ()):
                if u.op == 'store' and u['val'] == x:
                    if self.temporary(f, u['ptr']):
                        continue
                    c = self.cell(f, u['ptr'])
                    p = f.defs.get(self.root(f, u['ptr'])) if isinstance(u['ptr'], int) else None
                    res['escapes'].add((c if c else '?', u) if not (p is not None and p.op == 'alloca') else ('?', u))
                elif u.op in ('insertvalue', 'ptrtoint', 'atomicrmw', 'cmpxchg'):
                    if u.op == 'ptrtoint':
                        continue
                    res['escapes'].add(('?', u))
                elif u.is_call and x in u['args']:
                    if self.release(f, u) or u.callee in ('realloc',):
                        if u.callee == 'realloc':
                            res['escapes'].add(('?', u))
                        continue
                    for k, a in enumerate(u['args']):
                        if a != x:
                            continue
                        for t in self.targets(u) or [None]:
                            if t is None or t.decl:
                                n = t.name if t is not None else (u.callee or '')
                                if not HARMLESS.match(n or '?'):
                                    res['escapes'].add(('?', u))
                            else:
                                for c in self.keep.get((t, k), ()):
                                    res['escapes'].add((c, u))
        if at is None and not self.may_release(f, anyv):
            res['ends'] = {LIVE}
            return res
        def ends(b):
            return at is not None and b is at.bb or any(i.op in ('ret', 'unreachable') or i.is_call and self.may_release_at(f, i, anyv) for i in b.insts)

        def uses(b):
            return any(i.op in ('load', 'store') and i['ptr'] in anyv or i.is_call and any(a in anyv for a in i['args'] if isinstance(a, int)) for i in b.insts)
        # what decides the releases and the ends matters; every use only where one seems to come too late
        r = None
        for hot in (ends, lambda b: ends(b) or uses(b)):
            self._focus.pop(f, None)
            self._focus[f] = self.focus(f, [b for b in f.blocks if hot(b)])
            try:
                r = self._track(f, v, at, sure, same, der, anyv, {k: x.copy() for k, x in res.items()})
            finally:
                self._focus.pop(f, None)
            if not r['after']:
                break
        return r

    def _track(self, f, v, at, sure, same, der, anyv, res):
        env0 = {} if at is None else self.at_start(f, at)
        start = (f.entry, 0) if at is None else (at.bb, at.idx + 1)
        if at is not None and at.op == 'invoke':
            start = (self.blk(f, f.normal_succs(at.bb)[0]), 0)
        done, q = set(), [(start[0], start[1], LIVE, env0, frozenset({v}))]
        if start[1] == 0 and at is not None:
            q = [(S, 0, LIVE, e, h) for S, e, h in self.step(f, at.bb, env0, lambda x: 0 if x == v else None, frozenset({v}), same)]
        while q:
            b, k, st, env, hold = q.pop()
            key = (b.id, k, st, frozenset(env.items()), hold)
            if key in done:
                continue
            done.add(key)
            self.states += 1
            if len(done) > 20000:
                self.und.append('%s: too many states' % short(f.dem))
                res['leaks'], res['twice'], res['after'] = [], [], []
                res['ends'] = {LIVE}
                return res

            def holds(x):
                return isinstance(x, int) and (x in hold or (x in der and self.root(f, x) in hold))

            def nonnull(x):
                if x in hold:
                    if st == NULL:
                        return 1
                    if st in (DEAD, 'maybe') or sure:
                        return 0
                return None
            stop = False
            for i in b.insts[k:]:
                if i is at:
                    if st == LIVE and not res['escapes']:
                        res['leaks'].append((i, 'reached again while the last one is still held'))
                    stop = True
                    break
                if i.op in ('bitcast', 'freeze', 'select') and i.id in same:
                    hold = hold | {i.id} if any(o in hold for o in i.operands() if isinstance(o, int)) else hold - {i.id}
                if i.op in ('load', 'store') and holds(i['ptr']) and st == DEAD:
                    res['after'].append(i)
                elif i.is_call:
                    hit = [a for a in i['args'] if holds(a)]
                    for a, kind in self.release(f, i):
                        if holds(a):
                            res['rel'].append((i, kind))
                            if st == DEAD:
                                res['twice'].append(i)
                            elif st == LIVE:
                                st = DEAD
                            hit = []
                    if hit and not (i.callee and intrinsic(i.callee) and not i.callee.startswith('llvm.mem')):
                        ts = self.targets(i)
                        ends = set()
                        for n, a in enumerate(i['args']):
                            if holds(a):
                                for t in ts or [None]:
                                    ends |= self.rel.get((t, n), {LIVE}) if t is not None and not t.decl else {LIVE}
                        if st == DEAD and not all(t is not None and not t.decl and not self.touches(t, [n for n, a in enumerate(i['args']) if holds(a)]) for t in ts):
                            res['after'].append(i)
                        if DEAD in ends and st == LIVE:
                            if ends <= {DEAD, NULL}:
                                st = DEAD
                                res['rel'].append((i, None))
                            else:
                                st = 'maybe'
                        elif st == DEAD and ends <= {DEAD, NULL} and DEAD in ends:
                            res['twice'].append(i)
                    ts = self.targets(i)
                    if ts and all(t is not None and t.noret for t in ts) and i.op == 'call':
                        stop = True
                        break
                elif i.op == 'ret':
                    o = i.operands()
                    if o and holds(o[0]) and st == LIVE:
                        res['ends'].add('returned')
                    else:
                        res['ends'].add(st)
                        if st == LIVE:
                            res['leaks'].append((i, 'not released when the function returns'))
                    stop = True
            if stop:
                continue
            t = b.term
            # a test of the pointer itself against null splits the state
            if st == LIVE and not sure and t.op == 'br' and isinstance(t.get('cond'), int):
                tested = set()
                self.nodes(f, t['cond'], tested)
                if any(isinstance(x, tuple) and x[1] in hold for x in tested):
                    for st2 in (LIVE, NULL):
                        for S, e, h in self.step(f, b, env, lambda x: (0 if st2 == LIVE else 1) if x in hold else None, hold, same):
                            q.append((S, 0, st2, e, h))
                    continue
            for S, e, h in self.step(f, b, env, nonnull, hold, same):
                q.append((S, 0, st, e, h))
        return res

    def may_release_at(self, f, u, vals):
        if any(isinstance(a, int) and a in vals for a, _ in self.release(f, u)):
            return True
        for n, a in enumerate(u['args']):
            if isinstance(a, int) and a in vals and any(DEAD in self.rel.get((t, n), ()) for t in self.targets(u)):
                return True
        return False

    def may_release(self, f, vals):
        return any(u.is_call and self.may_release_at(f, u, vals) for x in vals for u in f.users.get(x, ()))

    def root(self, f, x):
        for _ in range(10):
            d = f.defs.get(x)
            if d is not None and d.is_call:
                n = [a for n, a in enumerate(d['args']) if isinstance(a, int) and any((t, n) in self.through for t in self.targets(d))]
                if not n:
                    return x
                x = n[0]
                continue
            if d is None or d.op != 'getelementptr':
                return x
            x = d['ptr']
            if not isinstance(x, int):
                return None
        return x

    def touches(self, t, params):
        """does the function look at the memory of one of these parameters?"""
        for p in params:
            if p >= len(t.args):
                return True
            same, der = self.closure(t, p)
            for x in same | der:
                for u in t.users.get(x, ()):
                    if u.op in ('load', 'store') and u['ptr'] == x or u.is_call:
                        return True
        return False

    def blk(self, f, s):
        return s if not isinstance(s, int) else f.block(s)

    def defined_in(self, f, c, b):
        v = c[1] if isinstance(c, tuple) else c
        d = f.defs.get(v) if isinstance(v, int) else None
        return d is not None and d.bb is b

    def temporary(self, f, p):
        """memory of this call only: a local variable whose address stays here"""
        for _ in range(10):
            d = f.defs.get(p) if isinstance(p, int) else None
            if d is None:
                return False
            if d.op in ('getelementptr', 'bitcast', 'freeze'):
                p = d['ptr'] if d.op == 'getelementptr' else d.operands()[0]
                continue
            if d.op == 'alloca':
                same, der = self.closure(f, d.id)
                for x in same | der:
                    for u in f.users.get(x, ()):
                        if u.op in ('load', 'getelementptr', 'phi', 'bitcast', 'icmp', 'freeze', 'select') or u.op == 'store' and u['val'] != x:
                            continue
                        if u.is_call and u.callee and u.callee.startswith('llvm.lifetime'):
                            continue
                        return False
                return True
            return False
        return False

    # ---- summaries
    def solve(self):
        for _ in range(6):
            new = set()
            for f in self.fns:
                rets = [i.operands()[0] for i in f.insts() if i.op == 'ret' and i.operands()]
                for k, a in enumerate(f.args):
                    if a.get('ty', 'ptr') == 'ptr' and rets:
                        same, der = self.closure(f, k)
                        if any(isinstance(r, int) and (r in same or r in der) for r in rets):
                            new.add((f, k))
            if new == self.through:
                break
            self.through = new
            self._clo = {}
        for f in self.fns:
            for k, a in enumerate(f.args):
                if a.get('ty', 'ptr') == 'ptr':
                    self.keep[(f, k)] = frozenset()
        for self.rounds in range(8):
            ch = False
            self._clo_keep = None
            for f in self.fns:
                for k, a in enumerate(f.args):
                    if a.get('ty', 'ptr') != 'ptr' or not f.users.get(k):
                        continue
                    n = frozenset(self.kept(f, k))
                    if n != self.keep[(f, k)]:
                        self.keep[(f, k)] = n
                        ch = True
            if not ch:
                break
        # which functions can release something at all
        can = {f for f in self.fns if any(self.release(f, i) for i in f.calls())}
        for self.rounds2 in range(8):
            ch = False
            for f in self.fns:
                if f not in can and not any(t in can for i in f.calls() for t in self.targets(i) if t is not None):
                    continue
                can.add(f)
                for k, a in enumerate(f.args):
                    if a.get('ty', 'ptr') != 'ptr' or not f.users.get(k):
                        continue
                    same, der = self.closure(f, k)
                    if not any(u.is_call for x in same | der for u in f.users.get(x, ())):
                        continue
                    # the receiver of a destructor is not released by it, its members are
                    e = frozenset(x for x in self.track(f, k)['ends'])
                    if e and e != self.rel.get((f, k)):
                        self.rel[(f, k)] = e
                        ch = True
            if not ch:
                break
        for self.rounds3 in range(6):
            ch = False
            for f in self.fns:
                n = self.returns(f)
                if n != self.fresh.get(f, set()):
                    self.fresh[f] = n
                    ch = True
            if not ch:
                break

    def kept(self, f, k):
        same, der = self.closure(f, k)
        out = set()
        for x in same:
            for u in f.users.get(x, ()):
                if u.op == 'store' and u['val'] == x:
                    if self.temporary(f, u['ptr']):
                        continue
                    c = self.cell(f, u['ptr'])
                    out.add(c if c else '?')
                elif u.op in ('insertvalue', 'atomicrmw', 'cmpxchg'):
                    out.add('?')
                elif u.is_call and x in u['args'] and not self.release(f, u):
                    for n, a in enumerate(u['args']):
                        if a == x:
                            for t in self.targets(u) or [None]:
                                if t is None or t.decl:
                                    nm = t.name if t is not None else (u.callee or '')
                                    if not HARMLESS.match(nm or '?'):
                                        out.add('?')
                                else:
                                    out |= self.keep.get((t, n), set())
        return out

    def returns(self, f):
        if f.name in ALLOC:
            return set()
        got, ok = set(), False
        for i in f.insts():
            if i.op != 'ret' or not i.operands():
                continue
            todo, done = [i.operands()[0]], set()
            while todo:
                v = todo.pop()
                if v in done if isinstance(v, int) else False:
                    continue
                if isinstance(v, dict):
                    if 'null' in v or 'undef' in v:
                        continue
                    return set()
                done.add(v)
                d = f.defs.get(v)
                if d is None:
                    return set()
                if d.op in ('phi', 'bitcast', 'freeze'):
                    todo += d.operands()
                elif d.op == 'select':
                    todo += d.operands()[1:]
                elif d.is_call:
                    a = self.alloc(f, d)
                    if not a:
                        return set()
                    same, der = self.closure(f, d.id)
                    for x in same:
                        for u in f.users.get(x, ()):
                            if u.op == 'store' and u['val'] == x:
                                return set()
                    got |= a
                    ok = True
                else:
                    return set()
        return got if ok else set()


def maynull(O, f, i):
    """can a function that returns new memory also return null?"""
    if i.callee in ALLOC:
        return False
    for t in O.targets(i):
        for j in t.insts():
            if j.op == 'ret' and j.operands():
                todo, done = [j.operands()[0]], set()
                while todo:
                    v = todo.pop()
                    if isinstance(v, dict):
                        if 'null' in v:
                            return True
                        continue
                    if v in done:
                        continue
                    done.add(v)
                    d = t.defs.get(v)
                    if d is not None and d.op in ('phi', 'select', 'freeze'):
                        todo += d.operands()
    return False


def check(chk, prog, m):
    O = Own(m)
    repo = [f for f in O.fns if f.in_repo]
    nal = 0
    fields = {}                # member -> set of (kind, instruction)
    elsewhere = []             # (allocation, function) kept in containers
    for f in repo:
        for i in list(f.calls()):
            a = O.alloc(f, i)
            if not a:
                continue
            nal += 1
            kinds = {k for k, _ in a}
            r = O.track(f, i.id, i, sure=kinds <= {'new', 'new[]'} and i.callee is not None and 'nothrow' not in i.callee and not maynull(O, f, i))
            cells = {c for c, u in r['escapes']}
            name = '%s: what is allocated at %s (%s)' % (prog, i.where(), short(f.dem))
            key = '%s:%s:%s' % (prog, short(f.dem), i.callee or 'virtual')
            bad = False
            for j, why in r['leaks'][:1]:
                if not cells:
                    chk.obligation(False, 'leak:' + key, '%s is %s (%s)' % (name, why, j.where()))
                    bad = True
            for j in r['twice'][:1]:
                chk.obligation(False, 'twice:' + key, '%s is released again at %s after it has been released' % (name, j.where()))
                bad = True
            for j in r['after'][:1]:
                chk.obligation(False, 'after:' + key, '%s is used at %s after it has been released' % (name, j.where()))
                bad = True
            for j, k in r['rel']:
                if k is not None and k not in kinds and direct(O, f, j, i.id):
                    chk.obligation(False, 'kind:' + key, '%s with %s is released at %s with %s instead of %s' % (
                        name, '/'.join(sorted(kinds)), j.where(), OP[k], '/'.join(OP[x] for x in sorted(kinds))))
                    bad = True
                    break
            for c in cells:
                if c != '?':
                    fields.setdefault(c, set()).update((k, i) for k in kinds)
            if not bad:
                where = 'kept in a member' if any(c != '?' for c in cells) else 'kept elsewhere' if cells else 'returned' if 'returned' in r['ends'] else \
                    'released on every path'
                chk.obligation(True, '', '', '%s is %s' % (name, where))
    # what is released for the caller is not touched afterwards
    for f in repo:
        for k, a in enumerate(f.args):
            if a.get('ty', 'ptr') != 'ptr' or DEAD not in O.rel.get((f, k), ()):
                continue
            r = O.track(f, k)
            key = '%s:%s:%d' % (prog, short(f.dem), k)
            name = '%s: %s releases what its argument %d points to' % (prog, short(f.dem), k)
            bad = False
            for j in r['twice'][:1]:
                chk.obligation(False, 'twice:' + key, '%s and again at %s' % (name, j.where()))
                bad = True
            for j in r['after'][:1]:
                chk.obligation(False, 'after:' + key, '%s and uses it afterwards at %s' % (name, j.where()))
                bad = True
            if r['ends'] >= {LIVE, DEAD} and not r['escapes'] and not any(i.op == 'ret' and i.operands() for i in f.insts()) and any(f in O.targets(i) for i in f.calls()):
                chk.obligation(False, 'some:' + key, '%s, node by node, but not on every path (%s)' % (name, r['leaks'][0][0].where() if r['leaks'] else f.where()))
                bad = True
            if not bad:
                chk.obligation(True, '', '', name + ', once')
    nm = members(chk, prog, O, repo, fields)
    return nal, nm, O


def direct(O, f, j, v):
    """does the release take exactly this allocation and no other?"""
    a = j['args'][0]
    todo, done, src = [a], set(), set()
    while todo:
        x = todo.pop()
        if not isinstance(x, int) or x in done:
            continue
        done.add(x)
        d = f.defs.get(x)
        if d is not None and d.op in ('phi', 'bitcast', 'freeze'):
            todo += d.operands()
        elif d is not None and d.op == 'select':
            todo += d.operands()[1:]
        elif d is not None and d.op == 'getelementptr':
            todo.append(d['ptr'])
        else:
            src.add(x)
    return src == {v}


def members(chk, prog, O, repo, fields):
    m = O.m
    # releases of what a member points to: member -> [(function, load, call, kind)]
    rel = defaultdict(list)
    for f in repo:
        for i in f.insts():
            if i.op != 'load' or i.get('ty') != 'ptr':
                continue
            c = O.cell(f, i['ptr'])
            if c not in fields:
                continue
            same, der = O.closure(f, i.id)
            for x in same | der:
                for u in f.users.get(x, ()):
                    if not u.is_call or x not in u['args']:
                        continue
                    for a, k in O.release(f, u):
                        if a == x:
                            rel[c].append((f, i, u, k))
                    for n, a in enumerate(u['args']):
                        if a == x and not O.release(f, u):
                            ts = O.targets(u)
                            if ts and all(t is not None and DEAD in O.rel.get((t, n), ()) for t in ts):
                                rel[c].append((f, i, u, None))
    ends, q = set(), [f for f in repo if f.base.startswith('~')]
    while q:
        f = q.pop()
        if f not in ends:
            ends.add(f)
            q += [t for i in f.calls() for t in O.targets(i) if t is not None and not t.decl and t.in_repo]
    done = 0
    for c, al in sorted(fields.items(), key=str):
        done += 1
        kinds = {k for k, _ in al}
        ex = sorted((i.where() for _, i in al))[0]
        cname = '%s (offset %d)' % (c[0].strip('%"').split('.', 1)[-1], c[1])
        key = '%s:%s:%d' % (prog, c[0], c[1])
        if not rel[c]:
            out = [u for f in ends for u in lost(O, f, c)]
            if out:
                O.und.append('member of %s: handed on at %s, where it is not followed' % (cname, out[0].where()))
                continue
            chk.obligation(False, 'never:' + key, '%s: memory allocated at %s and kept in a member of %s is never released' % (prog, ex, cname))
            continue
        wrong = [(f, u, k) for f, i, u, k in rel[c] if k is not None and k not in kinds]
        for f, u, k in wrong[:1]:
            chk.obligation(False, 'kind:' + key, '%s: the member of %s holds memory from %s (%s), and %s releases it with %s' % (
                prog, cname, '/'.join(sorted(kinds)), ex, u.where(), OP[k]))
        # destructors: every path releases it
        dts = [f for f in repo if f.base.startswith('~') and O.own(f) == c[0] and re.search(r'D[12]Ev$', f.name)]
        inside = [x for x in rel[c] if x[0] in dts]
        if dts and not inside and any(x[0].base.startswith('~') for x in rel[c]) is False and owns(O, c, dts):
            pass
        bad = False
        for d in dts:
            if not any(x[0] is d for x in rel[c]):
                # released by someone else (for example another method)?
                if all(x[0].klass == d.klass for x in rel[c]):
                    if not reach(O, [d]) & {x[0] for x in rel[c]}:
                        chk.obligation(False, 'dtor:' + key, '%s: the destructor at %s does not release the member of %s that was allocated at %s' % (
                            prog, d.where(), cname, ex))
                        bad = True
            else:
                e = paths(O, d, c, {x[2] for x in rel[c] if x[0] is d})
                if e == 'miss':
                    chk.obligation(False, 'dtor:' + key, '%s: a path through the destructor at %s does not release the member of %s that was allocated at %s' % (
                        prog, d.where(), cname, ex))
                    bad = True
        # released twice / released and left behind
        for f in {x[0] for x in rel[c]}:
            us = {x[2] for x in rel[c] if x[0] is f}
            e = paths(O, f, c, us, twice=True)
            if e == 'twice':
                chk.obligation(False, 'twice:' + key, '%s: %s releases the member of %s twice on one path' % (prog, short(f.dem), cname))
                bad = True
            elif e == 'left' and dts and any(x[0] in dts for x in rel[c]):
                chk.obligation(False, 'left:' + key, '%s: %s releases the member of %s and leaves the old pointer in it, which the destructor releases again' % (
                    prog, short(f.dem), cname))
                bad = True
        # written over: a constructor leaves memory in the member, and a method that runs later stores new memory there without releasing it
        owner = [f for f in repo if re.search(r'C[12]E', f.name) and O.own(f) == c[0] and any(stores(O, f, c))]
        for f in repo if owner else ():
            st = list(stores(O, f, c))
            if not st or re.search(r'C[12]E', f.name) or not any(f in O.targets(i) for g in repo if not (re.search(r'C[12]E', g.name) and O.own(g) == c[0]) for i in g.calls()):
                continue
            if all(base_of(f, i) == 0 for i in st):
                others = {x[0] for x in rel[c] if x[0] is not f}
                j = overwrite(O, f, c, {x[2] for x in rel[c] if x[0] is f} | {
                    i for i in f.calls() if i['args'] and i['args'][0] == 0 and reach(O, O.targets(i)) & others}, st)
                if j is not None:
                    chk.obligation(False, 'over:' + key, '%s: %s writes over the member of %s at %s without releasing what it holds (allocated at %s)' % (
                        prog, short(f.dem), cname, j.where(), ex))
                    bad = True
        if not wrong and not bad:
            chk.obligation(True, '', '', '%s: member of %s, allocated at %s: released (%s)' % (prog, cname, ex, rel[c][0][2].where()))
    # objects that own others are not released before what they own
    structs = defaultdict(set)
    for c in fields:
        structs[c[0]].add(c)
    hasd = {O.own(f) for f in repo if f.base.startswith('~') and re.search(r'D[12]Ev$', f.name)
            and any(x[0] is f for c in structs.get(O.own(f), ()) for x in rel[c])}
    for f in repo:
        for k, a in enumerate(f.args):
            if a.get('ty', 'ptr') != 'ptr' or (f.base.startswith('~')):
                continue
            if O.rel.get((f, k)) is None or DEAD not in O.rel[(f, k)]:
                continue
            st = {i['st'] for i in f.insts() if i.op == 'getelementptr' and i['ptr'] == k and repo_struct(i.get('st', ''))}
            for s in st:
                if s in hasd:
                    continue
                for c in structs.get(s, ()):
                    us = {x[2] for x in rel[c] if x[0] is f and base_of(f, x[1]) == k}
                    rels = {i for i in f.calls() for a2, _ in O.release(f, i) if isinstance(a2, int) and a2 in O.closure(f, k)[0]}
                    if not rels:
                        continue
                    e = complete(O, f, k, c, us, rels)
                    nm2 = '%s (offset %d)' % (c[0].strip('%"').split('.', 1)[-1], c[1])
                    if e is not None:
                        chk.obligation(False, 'owned:%s:%s:%d' % (prog, short(f.dem), c[1]), '%s: %s releases an object at %s without what its member %s holds' % (
                            prog, short(f.dem), e.where(), nm2))
                    else:
                        chk.obligation(True, '', '', '%s: %s releases member %s before the object' % (prog, short(f.dem), nm2))
    return done


def owns(O, c, dts):
    return True


def base_of(f, ld):
    d = f.defs.get(ld['ptr']) if isinstance(ld['ptr'], int) else None
    return d['ptr'] if d is not None and d.op == 'getelementptr' else ld['ptr']


def paths(O, f, c, rels, twice=False):
    """paths through f: 'miss' if one releases the member c not at all although it may hold something; with twice: 'twice' if one does so
    twice, 'left' if one returns after the release without writing the member"""
    loads = {i.id for i in f.insts() if i.op == 'load' and O.cell(f, i['ptr']) == c}
    alls = set()
    for l in loads:
        alls |= O.closure(f, l)[0]
    done, q = set(), [(f.entry, 0, {})]
    dtor = f.base.startswith('~')
    found = None
    while q:
        b, n, env = q.pop()
        key = (b.id, n, frozenset(env.items()))
        if key in done or len(done) > 4000:
            continue
        done.add(key)
        stop = False
        for i in b.insts:
            if i in rels:
                if n == 1 and twice:
                    # the same member of the same object
                    return 'twice' if len({base_of(f, f.defs[l]) for l in loads}) == 1 and not in_loop(f, i) else found
                n = 1
            elif i.op == 'store' and O.cell(f, i['ptr']) == c:
                n = 0 if twice else 2
            elif i.op == 'ret':
                if not twice and n == 0:
                    return 'miss'
                if twice and n == 1 and not dtor and f.klass and all(base_of(f, f.defs[l]) == 0 for l in loads):
                    found = 'left'
                stop = True
            elif i.is_call and i.op == 'call':
                ts = O.targets(i)
                if ts and all(t is not None and t.noret for t in ts):
                    stop = True
        if stop:
            continue
        for S, e, n2 in branch(O, f, b, env, n, alls):
            q.append((S, n2, e))
    return found


def branch(O, f, b, env, n, alls):
    """successors; on those where the member turns out to be null there is nothing to release"""
    t = b.term
    tested = set()
    if n == 0 and t.op == 'br' and isinstance(t.get('cond'), int):
        O.nodes(f, t['cond'], tested)
    if any(isinstance(x, tuple) and x[1] in alls for x in tested):
        return [(S, e, 3 if z else n) for z in (0, 1) for S, e, _ in O.step(f, b, env, lambda x: z if x in alls else None)]
    return [(S, e, n) for S, e, _ in O.step(f, b, env, lambda x: (1 if n == 3 else None) if x in alls else None)]


def stores(O, f, c):
    """stores of new memory to the member"""
    for i in f.insts():
        if i.op == 'store' and isinstance(i['val'], int) and O.cell(f, i['ptr']) == c:
            d = f.defs.get(i['val'])
            if d is not None and d.is_call and O.alloc(f, d):
                yield i


def reach(O, ts):
    seen, q = set(), [t for t in ts if t is not None]
    while q:
        t = q.pop()
        if t in seen:
            continue
        seen.add(t)
        if not t.decl:
            q += [u for i in t.calls() for u in O.targets(i) if u is not None]
    return seen


def overwrite(O, f, c, rels, st):
    loads = {i.id for i in f.insts() if i.op == 'load' and O.cell(f, i['ptr']) == c}
    alls = set()
    for l in loads:
        alls |= O.closure(f, l)[0]
    done, q = set(), [(f.entry, 0, {})]
    while q:
        b, n, env = q.pop()
        key = (b.id, n, frozenset(env.items()))
        if key in done or len(done) > 4000:
            continue
        done.add(key)
        for i in b.insts:
            if i in rels:
                n = 1
            elif i in st and n == 0:
                return i
            elif i.op == 'store' and O.cell(f, i['ptr']) == c:
                n = 1
            elif i.op == 'load' and i.id in loads and lost_one(O, f, i.id):
                n = 1
        for S, e, n2 in branch(O, f, b, env, n, alls):
            q.append((S, n2, e))
    return None


def lost_one(O, f, v):
    return bool(handed(O, f, v)) or any(u.op == 'store' and u['val'] in O.closure(f, v)[0] for u in f.users.get(v, ()))


def in_loop(f, i):
    seen, q = set(), [s for s in f.normal_succs(i.bb)]
    while q:
        b = q.pop()
        b = b if not isinstance(b, int) else f.block(b)
        if b is i.bb:
            return True
        if b.id in seen:
            continue
        seen.add(b.id)
        q += f.normal_succs(b)
    return False


def handed(O, f, v):
    """instructions that put the pointer where it is not followed"""
    same, der = O.closure(f, v)
    out = set()
    for x in same:
        for u in f.users.get(x, ()):
            if u.op == 'store' and u['val'] == x:
                # through a local variable whose address is handed on (push_back)
                out.add(u)
            elif u.is_call and x in u['args'] and not O.release(f, u):
                for n, a in enumerate(u['args']):
                    if a == x and any(t is None or (t.decl and not HARMLESS.match(t.name)) or '?' in O.keep.get((t, n), ()) for t in O.targets(u) or [None]):
                        out.add(u)
            elif u.op in ('insertvalue', 'ret'):
                out.add(u)
    return out


def lost(O, f, c, base=None):
    """where f puts the pointer in member c (of the object `base`) or the address of that member where it is not followed"""
    out = []
    for i in f.insts():
        if i.op == 'load' and i.get('ty') == 'ptr' and O.cell(f, i['ptr']) == c and (base is None or base_of(f, i) == base):
            out += handed(O, f, i.id)
        elif i.op == 'getelementptr' and O.cell(f, i.id) == c and (base is None or i['ptr'] == base):
            out += [u for u in f.users.get(i.id, ()) if u.is_call and i.id in u['args'] or u.op == 'store' and u['val'] == i.id]
    return out


def complete(O, f, k, c, us, rels):
    """a release of the object k reached without a release of its member c (unless that is null) -> instruction"""
    loads = {i.id for i in f.insts() if i.op == 'load' and O.cell(f, i['ptr']) == c and base_of(f, i) == k}
    alls = set()
    for l in loads:
        alls |= O.closure(f, l)[0]
    gone = set(lost(O, f, c, k))
    done, q = set(), [(f.entry, 0, None, {('z', k): 0} if ('z', k) in O.relevant(f) else {})]
    while q:
        b, n, hit, env = q.pop()
        key = (b.id, n, hit, frozenset(env.items()))
        if key in done or len(done) > 4000:
            continue
        done.add(key)
        for i in b.insts:
            if i in us or i in gone:
                n = 1
            elif i in rels:
                hit = i
            elif i.op == 'ret' and n == 0 and hit is not None:
                return hit
        for S, e, n2 in branch(O, f, b, env, n, alls):
            q.append((S, n2, hit, e))
    return None


def run(chk):
    na = nm = nf = ns = 0
    und = []
    for prog in build.PROGRAMS:
        m = Module(prog, opts=PIPE)
        a, b, O = check(chk, prog, m)
        na += a
        nm += b
        nf += len(O.fns)
        ns += O.states
        und += ['%s: %s' % (prog, u) for u in O.und]
        chk.need(a, 3, 'allocations in ' + prog)
    chk.cov.update(programs=len(build.PROGRAMS), functions_analysed=nf, allocations=na, owning_members=nm, states=ns, undecided=len(und))


CHK = report.Check('C14', 'typestate of every allocation along all normal paths (held, released, null), with summaries of what functions release, keep and return: '
                   'locals are released on every path exactly once, with the operation that belongs to the allocation, and not used afterwards; members that '
                   'hold allocated memory are released by the destructor (or by whoever releases the object that holds them), once',
                   assumptions=['paths taken by exceptions are not followed', 'pointers kept in containers are not followed'])
if __name__ == '__main__':
    report.main(run, CHK)
