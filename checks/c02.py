"""C02: the verbosity level only adds diagnostics."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import report, build
from ir import Module, short
from effects import Effects, is_ostream_op, STOP, intrinsic, ALLOC, PURE, loaded

SOURCE = '_ZN4bwtc9verbosityE'
DIAG = {'_ZSt4clog', '_ZSt4cerr', 'stderr', '_ZSt5wclog', '_ZSt5wcerr'}
PIPE = ['--noassert'] + build.BASE_PIPE


class Taint:
    WHAT = 'the verbosity level'

    def __init__(self, m, chk):
        self.m, self.chk = m, chk
        self.seen = m.reachable([m.main()])
        self.fns = [f for f in self.seen if not f.decl]
        self.E = Effects(m, self.seen)
        self.val = {}            # (f, id) -> why
        self.cells = {}          # ('field', st, off) | ('local', f, id) | ('g', name) -> why
        self.ret = {}            # f -> why
        self.callers = {}
        for f in self.fns:
            for i in f.calls():
                for t in m.call_targets(i):
                    if t is not None:
                        self.callers.setdefault(t, []).append(i)
        self.bad = {}
        self.regions = {}
        self._dp = {}
        self.solve()

    # a parameter that is a diagnostic stream at every call site
    def diag_param(self, f, k, busy=()):
        if (f, k) in busy:
            return True
        key = (f, k)
        if key in self._dp:
            return self._dp[key]
        cs = self.callers.get(f, [])
        ok = bool(cs)
        for c in cs:
            rs = self.E.roots(c.fn, c['args'][k]) if k < len(c['args']) else ()
            if not rs or not all(self.diag_root(c.fn, r, busy + (key,)) for r in rs):
                ok = False
        self._dp[key] = ok
        return ok

    def diag_root(self, f, r, busy=()):
        if r[0] == 'g':
            return r[1] in DIAG
        if r[0] == 'p':
            return self.diag_param(f, r[1], busy)
        return False

    def cell(self, f, ptr):
        """abstract cells a pointer operand may denote; None: not nameable"""
        if isinstance(ptr, dict):
            return [('g', ptr['g'])] if 'g' in ptr else []
        d = f.defs.get(ptr)
        if d is None:
            if f.klass and ptr == 0:
                return [('field', f.klass.replace('class.', ''), 0)]
            return None
        if d.op == 'alloca':
            return [('local', f, d.id)]
        if d.op == 'getelementptr':
            st = d.get('st', '')
            rs = self.E.roots(f, ptr)
            if rs and all(r[0] == 'local' for r in rs):
                return [('local', f, r[1]) for r in rs]
            if (st.startswith('%class.') or st.startswith('%struct.') or st.startswith('%"')) and not d.get('var') and not d.get('opaque'):
                n = st.lstrip('%').strip('"').replace('class.', '', 1).replace('struct.', '', 1)
                return [('field', n, d['off'])]
            return None
        if d.op in ('phi', 'select', 'freeze', 'bitcast'):
            out = []
            for o in (d.operands() if d.op != 'select' else d.operands()[1:]):
                if isinstance(o, int) and f.defs.get(o) is d:
                    continue
                if isinstance(o, int) and f.defs.get(o) is not None and f.defs[o].op == 'phi' and d.op == 'phi':
                    return None
                c = self.cell(f, o)
                if c is None:
                    return None
                out += c
            return out
        return None

    def t(self, f, o):
        return self.val.get((f, o)) if isinstance(o, int) else None

    def source(self, f, i):
        """why the result of this load or call is a source, or None"""
        if i.op == 'load' and isinstance(i['ptr'], dict) and i['ptr'].get('g') == SOURCE:
            return 'verbosity read at ' + i.where()
        return None

    def call_source(self, f, i):
        pass

    def is_source_store(self, f, i):
        return isinstance(i['ptr'], dict) and i['ptr'].get('g') == SOURCE

    def mark(self, f, o, why):
        if o is not None and (f, o) not in self.val:
            self.val[(f, o)] = why
            self.changed = True

    def markcell(self, c, why):
        if c not in self.cells:
            self.cells[c] = why
            self.changed = True

    def alarm(self, i, text):
        self.bad.setdefault((i.fn, i.where(), text), i)

    def store(self, f, i, ptr, why, busy=()):
        """memory at ptr becomes verbosity dependent"""
        cs = self.cell(f, ptr)
        if cs:
            for c in cs:
                if c[0] == 'g' and c[1] not in DIAG and self.m.globals.get(c[1], {}).get('decl'):
                    self.alarm(i, 'external variable %s is set depending on %s (%s)' % (c[1], self.WHAT, why))
                self.markcell(c, why)
            return
        rs = self.E.roots(f, ptr)
        if rs and all(r[0] == 'local' or (r[0] == 'fresh' and False) for r in rs):
            for r in rs:
                self.markcell(('local', f, r[1]), why)
            return
        if rs and all(r[0] == 'p' and r[2] == 0 for r in rs):
            for r in rs:
                if (f, r[1]) in busy:
                    continue
                for c in self.callers.get(f, []):
                    if r[1] < len(c['args']):
                        self.store(c.fn, c, c['args'][r[1]], why, busy + ((f, r[1]),))
            return
        if rs and all(r[0] == 'const' for r in rs):
            return
        self.alarm(i, 'memory is written depending on %s (%s)' % (self.WHAT, why))

    def solve(self):
        self.changed = True
        self.rounds = 0
        while self.changed and self.rounds < 60:
            self.changed = False
            self.rounds += 1
            for f in self.fns:
                if is_ostream_op(f.name):
                    continue
                self.flow(f)

    def flow(self, f):
        for i in f.insts():
            op = i.op
            if op == 'load':
                p = i['ptr']
                w = self.source(f, i)
                if w:
                    self.mark(f, i.id, w)
                    continue
                if self.t(f, p):
                    self.mark(f, i.id, self.t(f, p))
                if self.cells:
                    for c in self.cell(f, p) or ():
                        if c in self.cells:
                            self.mark(f, i.id, self.cells[c])
            elif op == 'store':
                w = self.t(f, i['val'])
                if w and not self.is_source_store(f, i):
                    self.store(f, i, i['ptr'], w)
                if self.t(f, i['ptr']):
                    self.store_via(f, i)
            elif op in ('br', 'switch'):
                w = self.t(f, i['cond']) if 'cond' in i.d else None
                if w:
                    self.region(f, i, w)
            elif op == 'ret':
                ops = i.operands()
                if ops and self.t(f, ops[0]) and f not in self.ret:
                    self.ret[f] = self.t(f, ops[0])
                    self.changed = True
                if ops and self.t(f, ops[0]) and f.name == 'main':
                    self.alarm(i, 'the exit status depends on %s (%s)' % (self.WHAT, self.t(f, ops[0])))
            elif i.is_call:
                self.call(f, i)
            elif i.id is not None:
                for o in i.operands():
                    if self.t(f, o):
                        self.mark(f, i.id, self.t(f, o))
                        break

    def store_via(self, f, i):
        self.alarm(i, 'the place written to depends on %s (%s)' % (self.WHAT, self.t(f, i['ptr'])))

    def call(self, f, i):
        c = i.callee
        self.call_source(f, i)
        tw = [(k, self.t(f, a)) for k, a in enumerate(i['args']) if self.t(f, a)]
        if 'fptr' in i.d and self.t(f, i['fptr']):
            self.alarm(i, 'the function called depends on %s (%s)' % (self.WHAT, self.t(f, i['fptr'])))
        # arguments that are locals holding tainted contents
        if self.cells:
            for k, a in enumerate(i['args']):
                if isinstance(a, int):
                    for r in self.E.roots(f, a):
                        if r[0] == 'local' and ('local', f, r[1]) in self.cells:
                            tw.append((k, self.cells[('local', f, r[1])]))
        if not tw:
            for t in self.m.call_targets(i):
                if t in self.ret:
                    self.mark(f, i.id, self.ret[t])
            return
        if c and intrinsic(c):
            if c.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
                for k, w in tw:
                    if k == 1:
                        self.store(f, i, i['args'][0], w)
            elif not c.startswith(('llvm.lifetime', 'llvm.assume', 'llvm.dbg')):
                self.mark(f, i.id, tw[0][1])
            return
        for t in self.m.call_targets(i) or [None]:
            if t is None:
                continue
            n = t.name
            if n in STOP:
                self.alarm(i, 'the program ends with a status that depends on %s (%s)' % (self.WHAT, tw[0][1]))
            elif is_ostream_op(n):
                # printing a verbosity dependent value: the stream must be a diagnostic one
                rs = self.E.roots(f, i['args'][0]) if i['args'] else ()
                direct = [x for x in tw if x[0] != 0]
                if direct and not (rs and all(self.diag_root(f, r) or r[0] in ('local',) for r in rs)):
                    self.alarm(i, 'a value that depends on %s (%s) is written to a stream that is not a diagnostic one' % (self.WHAT, direct[0][1]))
                if rs and any(r[0] == 'local' for r in rs):
                    self.store(f, i, i['args'][0], tw[0][1])
            elif t.decl:
                self.mark(f, i.id, tw[0][1])
                eff = self.E.call_effects(f, i)
                for e in eff:
                    if e[0] == 'w' and e[1][0] == 'local':
                        self.markcell(('local', f, e[1][1]), tw[0][1])
                    elif e[0] == 'w' and (self.diag_root(f, e[1]) or e[1][0] in ('const', 'fresh')):
                        pass
                    elif e[0] == 'x' and e[1] == 'stdthrow':
                        pass
                    else:
                        self.alarm(i, 'a value that depends on %s (%s) reaches %s' % (self.WHAT, tw[0][1], short(t.dem)))
            elif not t.in_repo:
                # library template: judged by its effects at this call, not followed inside
                w = tw[0][1]
                self.mark(f, i.id, w)
                for e in self.E.call_effects(f, i):
                    if e[0] == 'w' and e[1][0] == 'local':
                        self.markcell(('local', f, e[1][1]), w)
                    elif e[0] == 'w' and (e[1][0] in ('fresh', 'const') or self.diag_root(f, e[1])):
                        pass
                    elif e[0] == 'w' or e[1].startswith(('io:', 'exit')):
                        self.alarm(i, 'a value that depends on %s (%s) reaches %s' % (self.WHAT, w, describe(self.m, i, e)))
            else:
                for k, w in tw:
                    if k < len(t.args) and self.t(f, i['args'][k]):
                        self.mark(t, k, w)
                    elif k < len(t.args):
                        # pointer to a tainted local: contents visible through the pointer
                        self.mark(f, i.id, w)
                if t in self.ret:
                    self.mark(f, i.id, self.ret[t])

    def region(self, f, br, w):
        key = (f, br.bb.id)
        reg, join = f.normal_region(br)
        self.regions[key] = (reg, w, br)
        for b in reg:
            for i in f.block(b).insts:
                if i.op == 'ret':
                    if i.operands():
                        if f.name == 'main':
                            self.alarm(i, 'main returns depending on %s (%s)' % (self.WHAT, w))
                        elif f not in self.ret:
                            self.ret[f] = w
                            self.changed = True
                    # different ends of a void function without effects in between are the same behaviour
                    continue
                if i.op == 'store':
                    self.store(f, i, i['ptr'], w)
                    continue
                if not i.is_call:
                    continue
                if i.callee and intrinsic(i.callee):
                    if i.callee.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
                        self.store(f, i, i['args'][0], w)
                    continue
                for e in self.E.call_effects(f, i):
                    if e[0] == 'w':
                        r = e[1]
                        if r[0] in ('fresh', 'const') or self.diag_root(f, r):
                            continue
                        if r[0] == 'local':
                            self.markcell(('local', f, r[1]), w)
                            continue
                    elif e[1] == 'stdthrow':
                        continue
                    self.alarm(i, '%s happens depending on %s (%s)' % (describe(self.m, i, e), self.WHAT, w))
        # values merged where the branches meet
        if join != -1:
            for i in f.block(join).insts:
                if i.op != 'phi':
                    break
                vals = {repr(v) for v, pb in i['in']}
                if len(vals) > 1:
                    # only predecessors in the region / the branch itself decide
                    inreg = {repr(v) for v, pb in i['in'] if pb in reg or pb == br.bb.id}
                    if len(inreg) > 1:
                        self.mark(f, i.id, w)


def describe(m, i, e):
    ts = [short(t.dem) for t in m.call_targets(i) if t is not None]
    what = 'call of ' + (', '.join(ts) or 'an unknown function')
    if e[0] == 'x':
        return what + ' (%s)' % e[1]
    r = e[1]
    return what + ' (writes %s)' % (r[1] if r[0] == 'g' else 'memory of the caller' if r[0] == 'p' else 'unknown memory')


def run(chk):
    nf = nb = nv = nr = 0
    for prog in build.PROGRAMS:
        m = Module(prog, opts=PIPE)
        if SOURCE not in m.globals:
            raise build.AnalysisError('no verbosity variable in ' + prog)
        T = Taint(m, chk)
        chk.need(len(T.val), 1, 'values derived from the verbosity level in ' + prog)
        nf += len(T.fns)
        nv += len(T.val)
        nr += len(T.regions)
        badf = {}
        for (f, where, text), i in T.bad.items():
            badf.setdefault(where + text, (f, where, text))
        for f, where, text in badf.values():
            chk.obligation(False, '%s:%s:%s' % (prog, f.short, text.split('(')[0]),
                           '%s: %s at %s: %s' % (prog, short(f.dem), where, text))
        for (f, b), (reg, w, br) in T.regions.items():
            if not any(k[0] is f for k in T.bad):
                chk.obligation(True, '', '', '%s: branch at %s in %s on the verbosity level controls %d blocks: diagnostics only'
                               % (prog, br.where(), short(f.dem), len(reg)))
    chk.need(nr, 20, 'branches on the verbosity level')
    chk.cov.update(programs=len(build.PROGRAMS), functions_analysed=nf, tainted_values=nv, verbosity_branches=nr)


CHK = report.Check('C02', 'information-flow analysis from every read of the verbosity level (through locals, fields, parameters and '
                   'returns): each branch on a derived value may control only writes to std::clog/std::cerr/stderr and to '
                   'local or derived state, and no derived value may reach any other effect',
                   assumptions=['the level is only read from the global the option parser fills',
                                'timing and termination of diagnostic code are not observable behaviour'])
if __name__ == '__main__':
    report.main(run, CHK)
