"""C03: checking builds and release builds do the same.

Both builds are compiled without optimisation, so their code differs only where the source asks for NDEBUG (assert or #ifdef).
Instructions are matched by source position; what exists in one build only must not influence what both share."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from difflib import SequenceMatcher
from collections import Counter, defaultdict
import report, build
from ir import Module, short, AnalysisError, rel
from effects import Effects, ALLOC, PURE

PIPE = ['--iomem', '--pass=globaldce']
CONST_OPS = ('icmp', 'store', 'select', 'ret', 'add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'udiv', 'sdiv', 'urem', 'srem', 'phi')
NEUTRAL = ('llvm.dbg', 'llvm.lifetime', 'llvm.assume', 'llvm.type.test', 'llvm.stack')


def norm(n):
    return re.sub(r'\.\d+$', '', n) if n else n


def key(i):
    l = i.get('loc')
    k = (i.op, l[0] if l else '', l[1] if l else 0, i.get('col', 0), norm(i.callee) or '')
    if i.op in CONST_OPS or i.is_call and not (i.callee or '').startswith(('llvm.', '_Zn')):
        k += tuple(o['c'] for o in i.operands() if isinstance(o, dict) and 'c' in o)
    if i.op == 'icmp':
        k += (i['pred'],)
    return k


def neutral(i):
    """carries no meaning of its own"""
    return i.op in ('alloca', 'landingpad', 'resume', 'unreachable') or i.op == 'br' and 'cond' not in i.d \
        or i.is_call and (i.callee or '').startswith(NEUTRAL) or not i.get('loc') or not i['loc'][1]


def normal(f):
    """instructions that run without an exception in flight"""
    seen, q = set(), [f.entry]
    while q:
        b = q.pop()
        if b.id in seen or b.insts[0].op == 'landingpad' or any(i.op == 'landingpad' for i in b.insts):
            continue
        seen.add(b.id)
        q.extend(b.succs)
    return [i for b in f.blocks if b.id in seen for i in b.insts if not neutral(i)]


def only(f, g):
    """instructions of f without a counterpart in g"""
    ga, gb = defaultdict(list), defaultdict(list)
    for d, h in ((ga, f), (gb, g)):
        for i in normal(h):
            d[key(i)[1:4]].append(i)
    out = set()
    for k, a in ga.items():
        ka, kb = [key(i) for i in a], [key(i) for i in gb.get(k, [])]
        if ka == kb:
            continue
        if not kb:
            out |= set(a)
            continue
        # a macro expansion that contains more than an assertion: align the two sequences
        for t, i1, i2, _, _ in SequenceMatcher(None, ka, kb, False).get_opcodes():
            if t in ('delete', 'replace'):
                out |= set(a[i1:i2])
    return out


def private(f, extra):
    """allocas that only code of this build reads"""
    out = set()
    for i in f.insts():
        if i.op == 'alloca':
            todo, ok, seen = [i.id], True, set()
            while todo and ok:
                v = todo.pop()
                if v in seen:
                    continue
                seen.add(v)
                for u in f.users[v]:
                    if u in extra or neutral(u) and not u.op == 'br':
                        continue
                    if u.op == 'store' and u['ptr'] == v and u['val'] != v:
                        continue
                    if u.op in ('getelementptr', 'bitcast') and u.id is not None:
                        todo.append(u.id)
                        continue
                    if u.is_call and re.search(r'D[012]Ev$', u.callee or ''):
                        continue
                    ok = False
                    break
            if ok:
                out.add(i.id)
    return out


def exits(f, extra, i):
    """shared instructions that can follow `i` through code of this build only"""
    out, seen, q = set(), set(), [(s, 0) for s in i.bb.succs]
    ends = []
    while q:
        b, k = q.pop()
        if (b.id, k) in seen:
            continue
        seen.add((b.id, k))
        for j in b.insts[k:]:
            if j.is_call and (j.callee in ('__assert_fail', 'abort', '_ZSt9terminatev', '__cxa_begin_catch') or j.fn.mod.functions.get(j.callee) is not None
                              and j in extra and j.fn.mod.functions[j.callee].noret):
                break
            if j.op in ('landingpad', 'unreachable', 'resume'):
                break
            if j in extra or neutral(j):
                if j is b.term:
                    q.extend((s, 0) for s in b.succs)
                continue
            out.add(j)
            break
    return out


def judge(m, E, f, extra, g):
    """-> (instruction, why) of an influence of build-only code, or None"""
    priv = private(f, extra)

    def mine(r):
        return r[0] == 'local' and r[1] in priv or r[0] in ('fresh', 'local') and f.defs.get(r[1]) in extra or r[0] == 'const'
    for i in sorted(extra, key=lambda i: (i['loc'][1], i.get('col', 0), i.idx)):
        if i.op == 'store' or i.is_call and not (i.callee or '').startswith(NEUTRAL) or i.op in ('atomicrmw', 'cmpxchg'):
            if i.is_call and (i.callee in ('__assert_fail', 'abort') or i.callee in PURE or i.callee in ALLOC):
                continue
            for e in sorted(E.inst_effects(f, i), key=str):
                if e == ('x', 'stdthrow') or e[0] == 'x' and e[1] in ('abort', 'exit', 'throw') or e[0] == 'w' and mine(e[1]):
                    continue
                if e[0] == 'w' and e[1][0] == 'g' and re.search('cerr|clog|stderr', e[1][1]):
                    continue
                return i, 'assigns to %s' % place(m, f, i) if i.op == 'store' else 'calls %s, which has effects' % name(m, i)
        elif i.op == 'ret':
            return i, 'returns another value'
        elif i.op in ('br', 'switch') and 'cond' in i.d:
            x = exits(f, extra, i)
            if len(x) > 1:
                return i, 'decides whether %s is executed' % sorted(j.where() for j in x)[0]
    partner = defaultdict(set)
    for i in g.insts():
        partner[key(i)] |= {key(g.defs[o]) for o in i.operands() if isinstance(o, int) and o in g.defs}
    for i in normal(f):
        if i in extra:
            continue
        if i.is_call and re.search(r'D[012]Ev$', i.callee or ''):
            continue
        for o in i.operands():
            if isinstance(o, int) and f.defs.get(o) in extra and key(f.defs[o]) not in partner[key(i)]:
                return f.defs[o], 'computes a value that %s uses' % i.where()
    return None


def place(m, f, i):
    p = f.defs.get(i['ptr']) if isinstance(i['ptr'], int) else None
    if p is not None and p.op == 'alloca':
        return 'the variable %s' % (p.get('name') or 'declared in the function')
    return 'storage that outlives the check'


def name(m, i):
    t = m.call_targets(i)
    return short(t[0].dem) if t and t[0] is not None else 'a function'


def run(chk):
    nf = nx = na = ni = 0
    for prog in build.PROGRAMS:
        A, B = Module(prog, opts=PIPE), Module(prog, defs=('NDEBUG',), opts=PIPE)
        sides = []
        for m in (A, B):
            seen = m.reachable([m.main()])
            sides.append((m, seen, Effects(m, seen)))
        ids = [{norm(f.name) + (f.file if f.d.get('internal') and not f.name.startswith('_Z') else ''): f for f in s if not f.decl and f.in_repo} for _, s, _ in sides]
        for n in sorted(set(ids[0]) & set(ids[1])):
            fs = ids[0][n], ids[1][n]
            nf += 1
            bad = None
            for k in (0, 1):
                m, seen, E = sides[k]
                f = fs[k]
                extra = only(f, fs[1 - k])
                nx += len(extra)
                na += sum(1 for i in extra if i.callee == '__assert_fail')
                bad = judge(m, E, f, extra, fs[1 - k]) if extra else None
                if bad:
                    break
            ni += sum(1 for _ in fs[0].insts())
            if bad:
                chk.obligation(False, '%s:%s' % (prog, fs[0].short), '%s: %s at %s is compiled only into builds %s assertions and %s' % (
                    prog, short(fs[0].dem), bad[0].where(), ('with', 'without')[k], bad[1]))
            else:
                chk.obligation(True, '', '', '%s: %s: %d instructions that exist only with assertions, none of consequence' % (prog, short(fs[0].dem), len(extra)) if extra else None)
        # a virtual function that exists in one build only would change what shared calls do
        for k in (0, 1):
            m, seen, E = sides[k]
            for n in sorted(set(ids[k]) - set(ids[1 - k])):
                f = ids[k][n]
                if any(not i.callee and f in m.call_targets(i) for g in seen if not g.decl for i in g.calls()):
                    bad = [e for e in E.sum.get(f, (frozenset(),))[0] if e != ('x', 'stdthrow')]
                    chk.obligation(not bad, '%s:%s:only' % (prog, f.short), '%s: the virtual function %s (%s) exists only in builds %s assertions and has effects' % (
                        prog, short(f.dem), f.where(), ('with', 'without')[k]))
    chk.need(na, 60, 'assertions')
    chk.cov.update(functions=nf, instructions=ni, build_dependent_instructions=nx, assertions=na, programs=len(build.PROGRAMS))


CHK = report.Check('C03', 'each function is compiled with and without assertions; instructions that only one of the builds contains may write only storage that '
                   'only they read, may not decide which shared instructions run and may not feed them values',
                   assumptions=['a build with assertions differs from a release build only by the macro NDEBUG'])
if __name__ == '__main__':
    report.main(run, CHK)
