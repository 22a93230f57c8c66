"""C13: the probability models of the coder and of the decoder go through the same states."""
import sys, os
from collections import deque
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import report
from ir import Module, short

OPT = ['--noassert', '--setglobal=_ZN4bwtc9verbosityE=0']
PRE = OPT + ['--pass=globaldce,function(sroa,early-cse<memssa>,simplifycfg)']
POST = '--pass=always-inline,globaldce,function(sroa,early-cse<memssa>,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg)'
MODEL = {'probabilityOfOne': 'P', 'update': 'U', 'updateState': 'S', 'resetModel': 'R'}


def coder(m, i):
    """'enc' / 'dec' if the call codes or decodes one bit"""
    for t in m.call_targets(i):
        if t is not None and t.klass:
            k = t.klass.split('::')[-1]
            if (k, t.base) in (('BitEncoder', 'encode'), ('BitDecoder', 'decode')):
                return t.base[:3]
    return None


def model_op(m, i):
    """the operation of a probability model the call stands for"""
    if i.callee and i.callee not in m.functions:
        return None
    ts = [t for t in m.call_targets(i) if t is not None]
    if not ts or len(ts) > 40:
        return None
    bases = {t.base for t in ts}
    if len(bases) == 1:
        b = bases.pop()
        if b in MODEL and m.is_model(ts[0].klass):
            return MODEL[b]
    return None


class M13(Module):
    def __init__(self, prog, **k):
        super().__init__(prog, **k)
        # classes below ProbabilityModel: those whose vtable lists probabilityOfOne
        self.models = {f.klass for f in self.functions.values() if f.base == 'probabilityOfOne' and f.klass}
        self.models |= {f.klass for f in self.functions.values() if f.klass and f.klass.endswith('ProbabilityModel')}

    def is_model(self, k):
        return k in self.models


class Side:
    """one side: the function that drives the models, with everything that touches them inlined"""

    def __init__(self, prog, what):
        self.prog, self.what = prog, what
        m = M13(prog, opts=PRE)
        seen = m.reachable([m.main()])
        direct = {f for f in seen if not f.decl and f.in_repo and not m.is_model(f.klass)
                  and any(coder(m, i) or model_op(m, i) for i in f.calls())}
        callers = {}
        for f in seen:
            if f.decl:
                continue
            for i in f.calls():
                for t in m.call_targets(i, m.live_vt):
                    if t is not None:
                        callers.setdefault(t, set()).add((f, 'callee' in i.d))
        # climb from the functions with events to the virtual method of the entropy coder
        inl, roots, q = set(), set(), deque(direct)
        done = set()
        while q:
            f = q.popleft()
            if f in done:
                continue
            done.add(f)
            cs = callers.get(f, set())
            if any(not d for _, d in cs) or not cs:
                roots.add(f)          # reached through a vtable
                continue
            inl.add(f)
            for c, _ in cs:
                q.append(c)
        self.roots = sorted(f.name for f in roots)
        self.inlined = sorted(f.name for f in inl)
        opts = OPT + (['--inline=' + ','.join(self.inlined)] if inl else []) + [POST]
        self.m = M13(prog, opts=opts)
        self.m.reachable([self.m.main()])
        self.fns = [self.m.functions[n] for n in self.roots if n in self.m.functions and not self.m.functions[n].decl]

    # ---- values
    def model(self, f, v, depth=0):
        """identity of the model object: how the member it is kept in was made"""
        d = f.defs.get(v) if isinstance(v, int) else None
        if d is None or depth > 8:
            return ('?',)
        if d.op == 'load':
            p = f.defs.get(d['ptr']) if isinstance(d['ptr'], int) else None
            if p is not None and p.op == 'getelementptr' and not p.get('var'):
                b = f.defs.get(p['ptr']) if isinstance(p['ptr'], int) else None
                if b is None:
                    return self.member(f.klass, p['off'])
            if p is not None and p.op == 'alloca':
                st = [u for u in f.users[p.id] if u.op == 'store' and u['ptr'] == p.id]
                if len(st) == 1:
                    return self.model(f, st[0]['val'], depth + 1)
        if d.op == 'phi':
            got = {self.model(f, o, depth + 1) for o in d.operands() if o != v}
            if len(got) == 1:
                return got.pop()
        return ('?',)

    def member(self, klass, off):
        """what the constructors of klass put into the member"""
        key = (klass, off)
        if not hasattr(self, '_mem'):
            self._mem = {}
        if key not in self._mem:
            got = set()
            for f in self.m.functions.values():
                if f.decl or f.klass != klass or f.base != klass.split('::')[-1]:
                    continue
                for i in f.insts():
                    if i.op == 'store':
                        p = f.defs.get(i['ptr']) if isinstance(i['ptr'], int) else None
                        if p is not None and p.op == 'getelementptr' and p['ptr'] == 0 and not p.get('var') and p['off'] == off:
                            got.add(self.maker(f, i['val']))
            self._mem[key] = got.pop() if len(got) == 1 else ('?',)
        return self._mem[key]

    def maker(self, f, v):
        d = f.defs.get(v) if isinstance(v, int) else None
        if d is not None and d.is_call and d.callee in self.m.functions:
            a = []
            for x in d['args']:
                if isinstance(x, dict) and 'c' in x:
                    a.append(str(x['c']))
                elif isinstance(x, int) and x in range(len(f.args)):
                    a.append('letter')
                else:
                    return ('?',)
            return (short(self.m.functions[d.callee].dem).split('::')[-1],) + tuple(a)
        return ('?',)

    def expr(self, f, v, depth=0, seen=()):
        """structural form of a value, so that two evaluations of the same expression compare equal"""
        if not isinstance(v, int):
            return repr(sorted(v.items(), key=str)) if isinstance(v, dict) else v
        d = f.defs.get(v)
        if d is None or depth > 12:
            return ('v', v)
        if d.op in ('zext', 'trunc', 'sext', 'freeze', 'bitcast'):
            return self.expr(f, d.operands()[0], depth + 1, seen)
        if d.op == 'icmp' and d.get('pred') == 'ne' and isinstance(d.operands()[1], dict) and d.operands()[1].get('c') == 0:
            return self.expr(f, d.operands()[0], depth + 1, seen)
        if d.is_call and d.get('ty') != 'void' and (d.callee or '') in self.m.functions and not coder(self.m, d) and not model_op(self.m, d):
            return ('call', d.callee) + tuple(self.expr(f, a, depth + 1, seen) for a in d['args'])
        if d.op == 'getelementptr':
            return ('gep', self.expr(f, d['ptr'], depth + 1), d.get('off'), tuple((self.expr(f, x[0], depth + 1), x[1]) for x in d.get('var') or ()))
        if d.op == 'alloca':
            # a temporary: what was put into it
            src = []
            for u in f.users[d.id]:
                if u.op == 'store' and u['ptr'] == d.id:
                    src.append(self.expr(f, u['val'], depth + 1, seen))
                elif u.op == 'getelementptr':
                    for w in f.users[u.id]:
                        if w.op == 'store' and w['ptr'] == u.id:
                            src.append((u.get('off'), self.expr(f, w['val'], depth + 1, seen)))
                elif u.is_call and (u.callee or '') in self.m.functions and u['args'] and u['args'][0] == d.id and u.get('ty') == 'void':
                    src.append(('by', u.callee) + tuple(self.expr(f, a, depth + 1, seen) for a in u['args'][1:]))
            return ('tmp', tuple(sorted(map(repr, src)))) if src and depth else ('v', v)
        if d.op in ('extractvalue', 'load', 'and', 'or', 'xor', 'shl', 'lshr', 'icmp', 'select', 'add', 'sub'):
            return (d.op, d.get('pred'), repr(d.get('idx'))) + tuple(self.expr(f, o, depth + 1, seen) for o in d.operands())
        return ('v', v)

    def bit(self, f, ev, coded):
        """relation of the bit handed to update / updateState to the bits coded last"""
        v = ev['args'][1]
        if isinstance(v, dict) and 'c' in v:
            return 'constant %d' % v['c']
        x = self.expr(f, v)
        out = set()
        for c in coded:
            y = self.expr(f, c)
            if x == y:
                out.add('same')
            elif isinstance(x, tuple) and x[0] == 'xor' and y in x:
                out.add('negated')
            elif isinstance(y, tuple) and y[0] == 'xor' and x in y:
                out.add('negated')
            elif self.phis(f, v, c, ev):
                out.add('same')
            else:
                out.add('another')
        return '/'.join(sorted(out)) or 'another'

    def phis(self, f, v, c, ev, seen=()):
        d = f.defs.get(v) if isinstance(v, int) else None
        if d is None or len(seen) > 12:
            return False
        if v == c:
            return True
        if d.op in ('zext', 'trunc', 'freeze', 'sext') or (d.op == 'icmp' and d.get('pred') == 'ne' and isinstance(d.operands()[1], dict)):
            return self.phis(f, d.operands()[0], c, ev, seen)
        if d.op == 'phi' and v not in seen:
            src = f.defs.get(c) if isinstance(c, int) else None
            if src is None or f.dominates(d, src):
                return False              # the value of an earlier round of the loop
            return any(self.phis(f, o, c, ev, seen + (v,)) for o in d.operands() if isinstance(o, int))
        return False

    # ---- events
    def analyse(self, und):
        self.ev = {}              # instruction -> (kind, model)
        self.nextof = {}
        self.texts = {}
        m = self.m
        raw = []
        for f in self.fns:
            for i in f.insts():
                if not i.is_call:
                    continue
                k = coder(m, i)
                if k:
                    p = i['args'][-1]
                    mod, pd = self.probability(f, p)
                    raw.append((f, i, 'E', mod, pd))
                else:
                    k = model_op(m, i)
                    if k:
                        raw.append((f, i, k, self.model(f, i['args'][0]), None))
        for f, i, k, mod, pd in raw:
            if mod[0] == '?':
                und.append('%s: which model is used at %s' % (self.prog, i.where()))
            self.ev[i] = (k, mod, pd)
        self.succ = {i: self.follow(i) for i in self.ev}
        # bits: the coded bits that can be the last before an update
        self.rel = {}
        for i, (k, mod, _) in self.ev.items():
            if k in 'US':
                coded = self.last_coded(i)
                self.rel[i] = self.bit(i.fn, i, [self.coded_bit(c) for c in coded])
        # stale probabilities
        self.stale = []
        for i, (k, mod, pd) in self.ev.items():
            if k == 'E' and pd is not None:
                for j in self.between(pd, i):
                    if self.ev[j][0] in 'USR' and self.ev[j][1] == mod:
                        self.stale.append((i, j))

    def coded_bit(self, i):
        return i.id if coder(self.m, i) == 'dec' else i['args'][1]

    def probability(self, f, v, depth=0):
        d = f.defs.get(v) if isinstance(v, int) else None
        if d is None:
            return (('constant', v['c']), None) if isinstance(v, dict) and 'c' in v else (('?',), None)
        if d.is_call and model_op(self.m, d) == 'P':
            return self.model(f, d['args'][0]), d
        if d.op in ('zext', 'trunc', 'freeze') and depth < 6:
            return self.probability(f, d.operands()[0], depth + 1)
        if d.op == 'phi' and depth < 6:
            got = {self.probability(f, o, depth + 1)[0] for o in d.operands() if o != v}
            if len(got) == 1:
                return got.pop(), None
            return self.mix(got), None
        if d.op == 'select' and depth < 6:
            return self.mix({self.probability(f, o, depth + 1)[0] for o in d.operands()[1:]}), None
        if d.op in ('add', 'sub', 'xor', 'shl', 'lshr', 'or', 'and', 'mul') and depth < 6:
            x, y = d.operands()
            if isinstance(y, dict) and 'c' in y:
                p, _ = self.probability(f, x, depth + 1)
                if p[0] not in ('?', 'constant'):
                    return ('changed', d.op, y['c']) + p, None
        return ('?',), None

    def mix(self, got):
        """a constant is used instead of the model at times"""
        got = {x for g in got for x in (g[1:] if g[0] == 'one of' else (g,))}
        if ('?',) in got or not any(g[0] == 'constant' for g in got):
            return ('?',)
        return ('one of',) + tuple(sorted(got, key=str))

    def follow(self, i, want=None):
        """events that can come next"""
        f, out = i.fn, set()
        seen, q = set(), [(i.bb, i.idx + 1)]
        while q:
            b, k = q.pop()
            hit = False
            for j in b.insts[k:]:
                if j in self.ev and (want is None or want(j)):
                    out.add(j)
                    hit = True
                    break
            if hit:
                continue
            for s in f.normal_succs(b):
                s = s if not isinstance(s, int) else f.block(s)
                if s.id not in seen:
                    seen.add(s.id)
                    q.append((s, 0))
        return out

    def between(self, a, b):
        """events on paths from a to b that do not pass a again"""
        fwd, q = set(), [a]
        while q:
            x = q.pop()
            for j in self.succ.get(x, ()) if x in self.succ else self.follow(x):
                if j is not b and j is not a and j not in fwd:
                    fwd.add(j)
                    q.append(j)
        return {j for j in fwd if self.reaches(j, b, a)}

    def reaches(self, x, b, avoid):
        seen, q = {x}, [x]
        while q:
            y = q.pop()
            for j in self.succ[y]:
                if j is b:
                    return True
                if j is not avoid and j not in seen:
                    seen.add(j)
                    q.append(j)
        return False

    def last_coded(self, i):
        pred = {}
        for a, bs in self.succ.items():
            for b in bs:
                pred.setdefault(b, set()).add(a)
        out, seen, q = set(), {i}, [i]
        while q:
            x = q.pop()
            for a in pred.get(x, ()):
                if self.ev[a][0] == 'E':
                    out.add(a)
                elif a not in seen:
                    seen.add(a)
                    q.append(a)
        return out

    def label(self, i):
        k, mod, _ = self.ev[i]
        if k == 'E':
            return ('E', mod)
        if k in 'US':
            return (k, mod, self.rel[i])
        return (k, mod)

    def bigrams(self, want):
        """pairs of events that can follow each other when the others are left out -> example"""
        out = {}
        sel = {i for i in self.ev if want(self.ev[i])}
        for i in sel:
            for j in self.follow(i, lambda x: x in sel):
                out.setdefault((self.label(i), self.label(j)), (i, j))
        return out

    def depth(self, mod):
        """how many loops around the coding of a bit are left before the model is reset"""
        best = None
        for f in self.fns:
            L = loops(f)
            R = [i for i in self.ev if i.fn is f and self.ev[i][0] == 'R' and self.ev[i][1] == mod]
            E = [i for i in self.ev if i.fn is f and self.ev[i][0] == 'E' and self.ev[i][1] == mod]
            for r in R:
                around = [l for l in L if r.bb.id in l and any(e.bb.id in l for e in E)]
                if around:
                    inner = min(around, key=len)
                    n = max(len([l for l in L if e.bb.id in l and len(l) < len(inner)]) for e in E if e.bb.id in inner)
                    if best is None or n < best[0]:
                        best = (n, r)
        return best


def loops(f):
    """natural loops, as sets of block ids"""
    heads = {}
    for b in f.rpo():
        for s in f.normal_succs(b):
            s = s if not isinstance(s, int) else f.block(s)
            if s is b or f.dominates(s.insts[0], b.term):
                body = heads.setdefault(s.id, {s.id})
                q = [b]
                while q:
                    x = q.pop()
                    if x.id not in body:
                        body.add(x.id)
                        q += x.preds
    return [frozenset(x) for x in heads.values()]


def name(l):
    k = {'E': 'a bit is coded with', 'U': 'update of', 'S': 'updateState of', 'R': 'reset of'}[l[0]]
    mod = l[1]
    s = '%s %s' % (k, mod[0] if len(mod) == 1 else '%s(%s)' % (mod[0], ', '.join(map(str, mod[1:]))))
    return s + (' with the bit' if len(l) > 2 and l[2] == 'same' else ' with %s bit' % l[2] if len(l) > 2 else '')


def run(chk):
    und = []
    A, B = Side('compress', 'coder'), Side('uncompress', 'decoder')
    for s in (A, B):
        s.analyse(und)
        n = [i for i in s.ev if s.ev[i][0] == 'E']
        if not n or not any(s.ev[i][0] == 'U' for i in s.ev):
            und.append('%s: the bits coded with probability models were not found' % s.prog)
    if und:
        chk.undecided = sorted(set(und))
    models = sorted({s.ev[i][1] for s in (A, B) for i in s.ev if s.ev[i][1][0] not in ('?',)}, key=str)
    if not und:
        chk.need(len(models), 1, 'probability models in use')
        # the same models code bits on both sides
        for mod in models:
            ka, kb = [{s.ev[i][0] for i in s.ev if s.ev[i][1] == mod} for s in (A, B)]
            only = [('coder', x) for x in ka - kb] + [('decoder', x) for x in kb - ka]
            only = [o for o in only if o[1] != 'P']
            for side, k in only:
                s = A if side == 'coder' else B
                i = next(i for i in s.ev if s.ev[i][0] == k and s.ev[i][1] == mod)
                chk.obligation(False, 'alphabet:%s:%s' % (mod, k), 'only the %s has: %s (at %s)' % (side, name(s.label(i)), i.where()))
            if not only:
                chk.obligation(True, '', '', 'model %s: the same operations on both sides' % (mod,))
        for s in (A, B):
            for i in s.ev:
                if s.ev[i][0] == 'E':
                    bad = [j for a, j in s.stale if a is i]
                    other = B if s is A else A
                    if bad and not other.stale:
                        chk.obligation(False, 'stale:%s' % s.prog, 'the %s uses at %s a probability that was asked for before the model was changed at %s' % (
                            s.what, i.where(), bad[0].where()))
                    elif not bad:
                        chk.obligation(True, '', '', '%s %s: the probability is the current one of its model' % (s.what, i.where()))
        for mod in models:
            if mod[0] in ('constant', 'one of', 'changed'):
                continue
            state = any(s.ev[i][0] == 'S' and s.ev[i][1] == mod for s in (A, B) for i in s.ev)

            def want(e):
                return (e[0] in 'USR' and e[1] == mod) or (e[0] == 'E' and (state or e[1] == mod))
            ba, bb = A.bigrams(want), B.bigrams(want)
            for side, x, y, s in (('coder', ba, bb, A), ('decoder', bb, ba, B)):
                for k, (i, j) in x.items():
                    if k in y:
                        chk.obligation(True, '', '', '%s: %s, then %s: on both sides' % (mod[0], name(k[0]), name(k[1])))
                    else:
                        chk.obligation(False, 'order:%s:%s:%s' % (mod[0], side, k), 'model %s: in the %s (%s) %s at %s can be followed by %s at %s, in the %s this '
                                       'never happens' % (mod[0], side, short(i.fn.dem), name(k[0]), i.where(), name(k[1]), j.where(), 'decoder' if s is A else 'coder'))
            da, db = A.depth(mod), B.depth(mod)
            if (da and da[0]) != (db and db[0]):
                i = (da or db)[1]
                chk.obligation(False, 'reset:%s' % mod[0], 'model %s is reset at another level of the loops around the coded bits in the coder (%s) than in the decoder (%s)' % (
                    mod[0], da[1].where() if da else 'never', db[1].where() if db else 'never'))
            else:
                chk.obligation(True, '', '', '%s: reset at the same loop level on both sides' % mod[0])
    chk.cov.update(models=len(models), coder_events=len(A.ev), decoder_events=len(B.ev), functions_merged=len(A.inlined) + len(B.inlined),
                   undecided=len(set(und)))


CHK = report.Check('C13', 'the operations on the probability models (probability asked, bit coded, update, updateState, reset) are collected along the control flow of '
                   'the coder and of the decoder, with helpers merged in; per model, the pairs of operations that can follow each other, the relation of '
                   'the bit fed to the model to the bit coded, and the loop level of the resets must be the same on both sides',
                   assumptions=['which bits are coded with which model under which data conditions is not compared, only the order of the operations',
                                'two evaluations of the same expression yield the same bit'])
if __name__ == '__main__':
    report.main(run, CHK)
