"""Fault propagation: what can happen after a given call has failed.

From a call site whose result is bound to its failure value the analysis follows every feasible continuation, through returns
into all callers (bound to the value returned) and over later calls (by memoised outcome summaries in the error state), until
the program ends.  Outcomes of a function: ('ret', value, facts) ('exit', code) ('throw',) .
"""
from collections import defaultdict
from ir import icmp, width, short, cval
import effects

NORETURN = {'abort': 'abort', '__assert_fail': 'abort', '_ZSt9terminatev': 'abort', '__cxa_pure_virtual': 'abort',
            '__clang_call_terminate': 'abort', 'raise': None}
EXIT = {'exit', '_exit', '_Exit', 'quick_exit'}
THROW = {'__cxa_throw', '__cxa_rethrow', '_Unwind_Resume'}


def strip(f, o):
    """through width changes"""
    while isinstance(o, int):
        d = f.defs.get(o)
        if d is not None and d.op in ('zext', 'sext', 'trunc', 'freeze'):
            o = d['ops'][0]
        else:
            break
    return o


def same(f, a, b):
    a, b = strip(f, a), strip(f, b)
    if isinstance(a, dict) and isinstance(b, dict):
        return a.get('c') is not None and a.get('s') == b.get('s')
    return a == b and isinstance(a, int)


SWAP = {'eq': 'eq', 'ne': 'ne', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}
LT = {'ne': 1, 'eq': 0, 'ult': 1, 'ule': 1, 'ugt': 0, 'uge': 0, 'slt': 1, 'sle': 1, 'sgt': 0, 'sge': 0}


class Fault:
    def __init__(self, m, seen, model, limit=3000, watch=()):
        """model: external name -> int value it returns in the error state"""
        self.m, self.seen, self.model, self.limit = m, seen, model, limit
        self.watch = set(watch)
        self.memo = {}
        self._open = []
        self.record = False
        self.track_args = False
        self.track_locals = False
        self.bind = {}                  # instruction -> value it always yields
        self.callers = defaultdict(list)
        for f in seen:
            if f.decl:
                continue
            for i in f.calls():
                for t in m.call_targets(i, m.live_vt):
                    if t is not None:
                        self.callers[t].append(i)
        self._stores = None
        self.explored = 0
        self.interesting = self._interesting()

    def _interesting(self):
        """functions whose outcome in the error state may differ from a plain return: those that reach an exit, an abort,
        a throw or a modelled call"""
        base = {f for f in self.seen if f.decl and (f.name in EXIT or f.name in THROW or f.name in NORETURN or f.name in self.model or f.name in self.watch)}
        out, q = set(base), list(base)
        while q:
            t = q.pop()
            for i in self.callers[t]:
                if i.fn not in out:
                    out.add(i.fn)
                    q.append(i.fn)
        return out

    # -- field facts -------------------------------------------------------
    def field(self, f, ptr):
        if not isinstance(ptr, int):
            return ('G', ptr['g'], ptr.get('off', 0)) if isinstance(ptr, dict) and 'g' in ptr else None
        d = f.defs.get(ptr)
        if d is None:
            if self.track_locals and not (ptr == 0 and f.klass):
                return ('P', f.name, ptr)
            return ('F', f.klass, 0) if ptr == 0 and f.klass else None
        if d.op == 'alloca' and self.track_locals:
            return ('A', f.name, ptr)
        if d.op == 'getelementptr' and not d.get('var') and not d.get('opaque'):
            st = d.get('st', '')
            if st.startswith('%'):
                n = st.lstrip('%').strip('"').replace('class.', '', 1).replace('struct.', '', 1)
                return ('F', n, d['off'])
        return None

    def stores(self, f):
        """field keys f may store to, transitively"""
        if self._stores is None:
            own = {}
            for g in self.seen:
                own[g] = set() if g.decl else {k for k in (self.field(g, i['ptr']) for i in g.insts() if i.op == 'store') if k}
            ch = True
            while ch:
                ch = False
                for g in self.seen:
                    if g.decl:
                        continue
                    for i in g.calls():
                        for t in self.m.call_targets(i, self.m.live_vt):
                            if t in own and not own[t] <= own[g]:
                                own[g] |= own[t]
                                ch = True
            self._stores = own
        return self._stores.get(f, set())

    # -- evaluation ---------------------------------------------------------
    def ev(self, f, o, env, depth=0):
        if isinstance(o, dict):
            if 'c' in o:
                return int(o['c'])
            return 0 if o.get('null') or o.get('zero') else None
        if not isinstance(o, int):
            return None
        if o in env:
            return env[o]
        d = f.defs.get(o)
        if d is None or depth > 14:
            return None
        op = d.op
        if op == 'icmp':
            a, b = d['ops']
            va, vb = self.ev(f, a, env, depth + 1), self.ev(f, b, env, depth + 1)
            w = d.get('w') or opw(f, a) or opw(f, b) or 64
            if isinstance(va, int) and isinstance(vb, int):
                return icmp(d['pred'], va, vb, w)
            if isinstance(va, tuple) and va[0] == 'short':
                if va[1] is f and same(f, b, va[2]):
                    return LT.get(d['pred'])
                return None
            if isinstance(vb, tuple) and vb[0] == 'short':
                if vb[1] is f and same(f, a, vb[2]):
                    return LT.get(SWAP[d['pred']])
                return None
            if isinstance(va, tuple) and va[0] == 'neg' and isinstance(vb, int):
                return neg(d['pred'], vb, w)
            if isinstance(vb, tuple) and vb[0] == 'neg' and isinstance(va, int):
                return neg(SWAP[d['pred']], va, w)
            if isinstance(va, tuple) and va[0] == 'nz' and vb == 0 and d['pred'] in ('eq', 'ne'):
                return int(d['pred'] == 'ne')
            return None
        if op in ('zext', 'trunc', 'freeze', 'sext', 'bitcast'):
            a = self.ev(f, d['ops'][0], env, depth + 1)
            if isinstance(a, tuple):
                return a
            if a is None:
                return None
            wi, wo = opw(f, d['ops'][0]) or 64, width(d.get('ty', 'i64'))
            if op == 'sext' and a >> (wi - 1) & 1:
                a -= 1 << wi
            return a & ((1 << wo) - 1)
        if op in ('xor', 'and', 'or', 'add', 'sub', 'mul', 'shl', 'lshr'):
            a, b = self.ev(f, d['ops'][0], env, depth + 1), self.ev(f, d['ops'][1], env, depth + 1)
            if op == 'and' and (a == 0 or b == 0):
                return 0
            if op == 'or' and width(d.get('ty', 'i64')) == 1 and (a == 1 or b == 1):
                return 1
            if op == 'or' and ((isinstance(a, tuple) and a[0] in ('nz', 'neg')) or (isinstance(b, tuple) and b[0] in ('nz', 'neg'))):
                return ('nz',)
            if op == 'or' and ((isinstance(a, int) and a) or (isinstance(b, int) and b)) and not (isinstance(a, int) and isinstance(b, int)):
                return ('nz',)
            if not isinstance(a, int) or not isinstance(b, int):
                return None
            mk = (1 << width(d.get('ty', 'i64'))) - 1
            return {'xor': a ^ b, 'and': a & b, 'or': a | b, 'add': a + b, 'sub': a - b, 'mul': a * b,
                    'shl': a << min(b, 64), 'lshr': a >> min(b, 64)}[op] & mk
        if op == 'select':
            c = self.ev(f, d['ops'][0], env, depth + 1)
            if not isinstance(c, int):
                x, y = self.ev(f, d['ops'][1], env, depth + 1), self.ev(f, d['ops'][2], env, depth + 1)
                return x if x is not None and x == y else None
            return self.ev(f, d['ops'][1 if c & 1 else 2], env, depth + 1)
        return None

    # -- exploration -----------------------------------------------------------
    def outcomes(self, f, facts=frozenset(), args=()):
        """outcomes of f entered in the error state"""
        if f.decl:
            n = f.name
            if n in EXIT:
                return {('exit', None, f.name)}
            if n in NORETURN:
                return set()
            if n in THROW or (n.startswith('_ZSt') and '__throw_' in n):
                return {('throw',)}
            return {('ret', self.model.get(n), facts)}
        if f not in self.interesting and not (args and self.track_args):
            keep = frozenset(x for x in facts if x[0] not in self.stores(f))
            vs = self._constret(f)
            return {('ret', v, keep) for v in vs} if vs else {('ret', None, keep)}
        if args and f in self._open:
            args = ()                   # recursion: arguments are not followed further
        key = (f, facts, args)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = set()
        self._open.append(f)
        rec, self.record = self.record, False      # only the failing function and its caller may leave an error mark in a field
        for _ in range(6):
            old = set(self.memo[key])
            new = self._explore(f, [(f.entry, 0, dict(args), facts)])
            self.memo[key] = old | new
            if self.memo[key] == old:
                break
        self.record = rec
        self._open.pop()
        return self.memo[key]

    def _constret(self, f):
        """the constants f can return, or None when some returned value is not a constant"""
        c = self.__dict__.setdefault('_cret', {})
        if f not in c:
            out, ok, seen = set(), True, set()
            q = [i.operands()[0] for b in f.blocks for i in b.insts if i.op == 'ret' and i.operands()]
            ok = bool(q)
            while q and ok:
                o = q.pop()
                if isinstance(o, dict) and 'c' in o:
                    out.add(cval(o))
                elif isinstance(o, int) and o not in seen:
                    seen.add(o)
                    d = f.defs.get(o)
                    if d is not None and d.op == 'phi':
                        q += [v for v, _ in d['in']]
                    elif d is not None and d.op == 'select':
                        q += d['ops'][1:3]
                    else:
                        ok = False
                elif not isinstance(o, int):
                    ok = False
            c[f] = frozenset(out) if ok and len(out) <= 8 else None
        return c[f]

    def after(self, inst, value, facts=frozenset(), throw=False):
        """outcomes of inst.fn when `inst` has just failed with `value`"""
        f = inst.fn
        if throw:
            if inst.op == 'invoke':
                return self._explore(f, self._to(f, inst.bb, inst['succ'][1], {}, facts))
            return {('throw',)}
        env = {inst.id: value} if inst.id is not None and value is not None else {}
        for k, v in self.bind.items():
            if k.op == 'phi' and k.fn is f:
                env[k.id] = v
        if inst.op == 'invoke':
            return self._explore(f, self._to(f, inst.bb, inst['succ'][0], env, facts))
        return self._explore(f, [(inst.bb, inst.idx + 1, env, facts)])

    def _to(self, f, b, sid, env, facts):
        S = f.block(sid)
        ne = dict(env)
        upd = {}
        for i in S.insts:
            if i.op != 'phi':
                break
            v = None
            for val, pb in i['in']:
                if pb == b.id:
                    v = self.ev(f, val, ne)
            if v is not None and isinstance(i.id, int) and self._counter(f, i):
                v = None
            if i in self.bind:
                v = self.bind[i]
            upd[i.id] = v
        for k, v in upd.items():
            if v is None:
                ne.pop(k, None)
            else:
                ne[k] = v
        for i in S.insts:
            if i.op != 'phi' and i.id in ne and i.op != 'icmp':
                ne.pop(i.id)
        return [(S, 0, ne, facts)]

    def _counter(self, f, phi):
        """phi of a loop counter: one incoming value is arithmetic over the phi itself"""
        c = f.__dict__.setdefault('_ctr', {})
        if phi.id not in c:
            def over(o, depth=0):
                if o == phi.id:
                    return True
                d = f.defs.get(o) if isinstance(o, int) else None
                return d is not None and depth < 5 and d.op in ('add', 'sub', 'mul', 'shl', 'lshr', 'or', 'and', 'xor', 'zext', 'trunc', 'sext') \
                    and any(over(x, depth + 1) for x in d['ops'])
            c[phi.id] = any(v != phi.id and over(v) for v, _ in phi['in'])
        return c[phi.id]

    def _explore(self, f, start):
        out, seen, q = set(), set(), list(start)
        while q:
            b, idx, env, facts = q.pop()
            k = (b.id, idx, frozenset((a, repr(v)) for a, v in env.items()), facts)
            if k in seen:
                continue
            seen.add(k)
            self.explored += 1
            if len(seen) > self.limit:
                keep = frozenset.intersection(*[x[3] for x in start])
                out.add(('ret', None, frozenset(x for x in keep if x[0] not in self.stores(f))))
                return out
            q.extend(self._block(f, b, idx, env, facts, out))
        return out

    def _block(self, f, b, idx, env, facts, out):
        for i in b.insts[idx:]:
            op = i.op
            if op == 'store':
                key = self.field(f, i['ptr'])
                if key:
                    v = self.ev(f, i['val'], env)
                    facts = frozenset(x for x in facts if x[0] != key or x[1] == v)
                    if self.record and (isinstance(v, int) or isinstance(v, tuple) and v[0] in ('neg', 'nz')):
                        facts |= {(key, v)}
            elif op == 'load':
                key = self.field(f, i['ptr'])
                env.pop(i.id, None)
                if i in self.bind:
                    env = dict(env)
                    env[i.id] = self.bind[i]
                    continue
                for kk, v in facts:
                    if kk == key:
                        env = dict(env)
                        env[i.id] = v
            elif i.is_call:
                r = self._call(f, i, env, facts, out)
                nxt = []
                for kind, v, fa in r:
                    if kind == 'throw':
                        if op == 'invoke':
                            nxt += self._to(f, b, i['succ'][1], dict(env), facts)
                        else:
                            out.add(('throw',))
                    else:
                        ne = dict(env)
                        ne.pop(i.id, None)
                        if v is not None and i.id is not None:
                            ne[i.id] = v
                        if op == 'invoke':
                            nxt += self._to(f, b, i['succ'][0], ne, fa)
                        else:
                            nxt.append((b, i.idx + 1, ne, fa))
                if op == 'invoke':
                    return nxt
                if len(nxt) == 1 and nxt[0][0] is b:
                    env, facts = nxt[0][2], nxt[0][3]
                    continue
                return nxt
            elif op == 'ret':
                ops = i.operands()
                v = self.ev(f, ops[0], env) if ops else None
                if isinstance(v, tuple) and v[0] == 'short' and not (isinstance(v[2], dict)):
                    v = None
                out.add(('ret', v, facts))
                return []
            elif op == 'resume':
                out.add(('throw',))
                return []
            elif op == 'unreachable':
                return []
        t = b.term
        succ = t.get('succ', [])
        pick = None
        ne = env
        if t.op == 'br' and 'cond' in t.d:
            c = self.ev(f, t['cond'], env)
            if isinstance(c, int):
                pick = [succ[0] if c & 1 else succ[1]]
        elif t.op == 'switch':
            c = self.ev(f, t['cond'], env)
            if isinstance(c, int):
                dst = [x for v, x in t['cases'] if cval(v) == c]
                pick = [dst[0] if dst else t['def']]
        nxt = []
        for sid in dict.fromkeys(pick or succ):
            e2 = env
            if t.op == 'br' and 'cond' in t.d and isinstance(t['cond'], int) and len(succ) > 1 and succ[0] != succ[1]:
                e2 = dict(env)
                if len(f.users[t['cond']]) > 1:
                    e2[t['cond']] = 1 if sid == succ[0] else 0
                # equality refinement
                d = f.defs.get(t['cond'])
                if d is not None and d.op == 'icmp' and d['pred'] in ('eq', 'ne'):
                    if (sid == succ[0]) == (d['pred'] == 'eq'):
                        a, c = d['ops']
                        v = self.ev(f, c, env)
                        if isinstance(a, int) and isinstance(v, int) and a not in env and len(f.users[a]) > 1:
                            e2[a] = v
            nxt += self._to(f, b, sid, e2, facts)
        return nxt

    def _call(self, f, i, env, facts, out):
        c = i.callee
        if c and c.startswith('llvm.'):
            return [('ret', None, facts)]
        if c in EXIT:
            v = self.ev(f, i['args'][0], env)
            out.add(('exit', v if isinstance(v, int) else None, i.where()))
            return []
        if c in self.watch:
            out.add(('event', c, i.where()))
        if c in ('strchr', 'memchr', 'index') and isinstance(i['args'][0], dict):
            g = self.m.globals.get(i['args'][0].get('g'), {}).get('init')
            v = self.ev(f, i['args'][1], env)
            if isinstance(g, dict) and 'data' in g and isinstance(v, int) and not i['args'][0].get('off'):
                return [('ret', ('nz',) if v & 255 in g['data'] else 0, facts)]
        res = []
        ts = self.m.call_targets(i, self.m.live_vt)
        if not ts or ts == [None]:
            return [('ret', None, frozenset())]
        for t in ts:
            for o in self.outcomes(t, facts, self._args(f, i, env, t)) if t is not None else {('ret', None, frozenset())}:
                if o[0] in ('exit', 'event'):
                    out.add(o)
                elif o[0] == 'throw':
                    res.append(('throw', None, None))
                else:
                    res.append(('ret', o[1], o[2]))
        return list(dict.fromkeys(res))

    def _args(self, f, i, env, t):
        if not self.track_args or t is None or t.decl:
            return ()
        out = []
        for k, a in enumerate(i['args']):
            v = self.ev(f, a, env)
            if isinstance(v, int):
                out.append((k, v))
        return tuple(out)

    def fates(self, site, value, stop=lambda f: False, bad=None, throw=False):
        """ends of the program after `site` failed with `value`: list of (kind, code, trail) with kind 'exit' or 'return' (from main)
        or 'stop' (returned normally out of a function for which stop() holds)"""
        ends, seen = [], set()
        q = [(site, value, frozenset(), throw, (site,))]
        while q:
            if bad is not None and any(bad(e) for e in ends):
                break
            inst, val, facts, thr, trail = q.pop()
            k = (inst, repr(val), facts, thr)
            if k in seen:
                continue
            seen.add(k)
            self.record = len(trail) <= 2
            for o in self.after(inst, val, facts, thr):
                if o[0] in ('exit', 'event'):
                    ends.append((o[0], o[1], trail, o[2] if len(o) > 2 else ''))
                    continue
                g = inst.fn
                if o[0] == 'ret' and stop(g):
                    ends.append(('stop', o[1], trail))
                    continue
                if g.name == 'main':
                    ends.append(('uncaught' if o[0] == 'throw' else 'return', o[1] if o[0] == 'ret' else None, trail))
                    continue
                for c in self.callers[g]:
                    if o[0] == 'throw':
                        q.append((c, None, frozenset(), True, trail + (c,)))
                    else:
                        q.append((c, o[1], o[2], False, trail + (c,)))
        return ends


def neg(pred, b, w):
    """value of `x pred b` for some unknown negative x"""
    sb = b - (1 << w) if b >> (w - 1) & 1 else b
    if sb >= 0:
        return {'slt': 1, 'sle': 1, 'sgt': 0, 'sge': 0, 'eq': 0, 'ne': 1}.get(pred)
    return None


def opw(f, o):
    if isinstance(o, dict):
        return o.get('w')
    d = f.defs.get(o)
    if d is not None:
        t = d.get('ty', '')
        return int(t[1:]) if t[:1] == 'i' and t[1:].isdigit() else None
    if isinstance(o, int) and o < len(f.args):
        t = f.args[o]['ty']
        return int(t[1:]) if t[:1] == 'i' and t[1:].isdigit() else None
    return None


def trail_text(trail):
    return ' <- '.join('%s at %s' % (short(i.fn.dem), i.where()) for i in trail)
