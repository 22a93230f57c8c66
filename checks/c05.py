"""C05: output that could not be written is never reported as success."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import report, build
from ir import Module, short
from fault import Fault, trail_text

PIPE = ['--noassert', '--iomem', '--pass=globaldce,function(sroa,early-cse<memssa>,simplifycfg,early-cse<memssa>)']
# call -> (index of the FILE argument, failure value)
M1 = (1 << 32) - 1
WRITERS = {'fwrite': 3, 'fwrite_unlocked': 3, 'fputc': 1, 'putc': 1, 'fputs': 1, 'fprintf': 0, 'putchar': None, 'puts': None}
SYNC = {'fflush': 0, 'fclose': 0}
OPEN = {'fopen', 'fopen64', 'freopen', 'freopen64', 'fdopen'}
POSITION = {'fseek': 0, 'fseeko': 0, 'fseeko64': 0, 'ftell': 0, 'ftello': 0, 'ftello64': 0, 'fgetpos': 0, 'fsetpos': 0}


def failure(i):
    c = i.callee
    if c in OPEN:
        return 0
    if c.startswith('fwrite'):
        a = i['args']
        size, n = a[1], a[2]
        if isinstance(n, dict) and n.get('c') == '1':
            return 0
        return ('short', i.fn, n)
    if c.startswith('ftell'):
        return (1 << 64) - 1
    if c == 'fprintf':
        return ('neg',)
    return M1


def diag_file(m, f, o):
    """FILE operand is stderr"""
    d = f.defs.get(o) if isinstance(o, int) else None
    return d is not None and d.op == 'load' and isinstance(d['ptr'], dict) and d['ptr'].get('g') == 'stderr'


def input_class(f):
    k = f.klass or ''
    return 'InStream' in k


def sites(m, seen):
    for f in seen:
        if f.decl:
            continue
        for i in f.calls():
            c = i.callee
            if c in OPEN:
                yield f, i
            elif c in WRITERS or c in SYNC or c in POSITION:
                k = WRITERS.get(c, SYNC.get(c, POSITION.get(c)))
                if k is None or diag_file(m, f, i['args'][k]):
                    continue
                if isinstance(i['args'][k], dict) and i['args'][k].get('null'):
                    pass
                yield f, i


def run(chk):
    total = 0
    for prog in build.PROGRAMS:
        m = Module(prog, opts=PIPE)
        seen = m.reachable([m.main()])
        F = Fault(m, seen, {'ferror': 1})
        n = 0
        for f, i in sites(m, seen):
            if input_stream(m, f, i):
                continue
            n += 1
            isbad = lambda e: e[0] in ('exit', 'return') and not nonzero(e[1])
            bad = [e for e in F.fates(i, failure(i), bad=isbad) if isbad(e)]
            chk.obligation(not bad, '%s:%s:%s' % (prog, f.short, i.callee),
                           '%s: a failing %s at %s in %s can still end with %s (%s)' % (
                               prog, i.callee, i.where(), short(f.dem),
                               'a zero exit status' if bad and bad[0][1] == 0 else 'an exit status that is not known to be nonzero',
                               trail_text(bad[0][2]) if bad else ''),
                           '%s: every continuation of a failing %s at %s ends with a nonzero status' % (prog, i.callee, i.where()))
        chk.need(n, 4, 'output calls in ' + prog)
        total += n
        dirty(chk, m, seen, prog)
        chk.cov['states_explored'] = chk.cov.get('states_explored', 0) + F.explored
    chk.cov.update(output_call_sites=total, programs=len(build.PROGRAMS))


def nonzero(v):
    return isinstance(v, int) and v != 0 or isinstance(v, tuple)


def in_classes(m):
    out = set()
    for t, l in m.vtables().items():
        if t.endswith('8InStreamE'):
            out |= {g for g, _ in l}
    return out


def input_stream(m, f, i):
    """the call is made by an input stream class"""
    if not hasattr(m, '_incls'):
        names = set()
        for g in in_classes(m):
            for s in m.globals[g].get('vt', []):
                if s in m.functions:
                    names.add(m.functions[s].klass)
        m._incls = names
    return f.klass in m._incls


# -- everything written is pushed to the operating system (checked) before a successful end -----------------------
def dirty(chk, m, seen, prog):
    """may main return with bytes handed to fwrite/fputc and no later (checked) fflush/fclose"""
    memo = {}

    def call(i, s):
        c = i.callee
        if c and c.startswith('llvm.'):
            return {s}
        if c in WRITERS:
            k = WRITERS[c]
            if k is None or diag_file(m, i.fn, i['args'][k]):
                return {s}
            return {('d', i)}
        if c in SYNC and not input_stream(m, i.fn, i):
            return {None}
        if c in ('exit', '_exit', 'abort', '__assert_fail'):
            return set()
        out = set()
        ts = m.call_targets(i, m.live_vt)
        if not ts:
            return {s}
        for t in ts:
            if t is None or t.decl:
                out.add(s)
            else:
                out |= summary(t, s)
        return out

    relevant = set()
    inv = {}
    for f in seen:
        if f.decl:
            continue
        for i in f.calls():
            if i.callee in WRITERS or i.callee in SYNC or i.callee in ('exit', 'abort', '__assert_fail'):
                relevant.add(f)
            for t in m.call_targets(i, m.live_vt):
                if t is not None:
                    inv.setdefault(t, set()).add(f)
    q = list(relevant)
    while q:
        for c in inv.get(q.pop(), ()):
            if c not in relevant:
                relevant.add(c)
                q.append(c)

    def summary(f, s):
        if f not in relevant:
            return {s}
        k = (f, s)
        if k not in memo:
            memo[k] = set()
            for _ in range(4):
                r = solve(f, s)
                if r == memo[k]:
                    break
                memo[k] = r
        return memo[k]

    def solve(f, s0):
        inb = {f.entry.id: {s0}}
        work = [f.entry.id]
        rets = set()
        while work:
            b = f.block(work.pop())
            st = set(inb[b.id])
            dead = False
            for i in b.insts:
                if i.is_call:
                    st = set().union(*[call(i, s) for s in st]) if st else set()
                elif i.op == 'ret':
                    rets |= st
            if not st:
                continue
            for sid in f.normal_succs(b):
                if skip_null(f, b, sid):
                    continue
                old = inb.setdefault(sid, set())
                if not st <= old:
                    old |= st
                    work.append(sid)
        return rets

    def skip_null(f, b, sid):
        """`delete p` on a null pointer: the streams exist once a program has written something"""
        t = b.term
        if t.op != 'br' or 'cond' not in t.d:
            return False
        d = f.defs.get(t['cond']) if isinstance(t['cond'], int) else None
        if d is None or d.op != 'icmp' or d['pred'] not in ('eq', 'ne') or not any(isinstance(o, dict) and o.get('null') for o in d['ops']):
            return False
        nul = t['succ'][0] if d['pred'] == 'eq' else t['succ'][1]
        non = t['succ'][1] if d['pred'] == 'eq' else t['succ'][0]
        return sid == nul and any(x.is_call and 'fptr' in x.d for x in f.block(non).insts)

    left = {s for s in summary(m.main(), None) if s is not None}
    for _, i in left:
        chk.obligation(False, '%s:%s:unflushed' % (prog, i.fn.short),
                       '%s: bytes passed to %s at %s (%s) may still be unflushed when main returns: a write error would go unnoticed'
                       % (prog, i.callee, i.where(), short(i.fn.dem)))
    if not left:
        chk.obligation(True, '', '', '%s: every path from an output call to the end of main passes an fflush or fclose' % prog)


CHK = report.Check('C05', 'error-propagation analysis: for every fopen and every stdio call on an output stream the result is bound to its failure value and '
                   'all feasible continuations (through callers, later calls, exceptions) are followed; none may end the program with '
                   'status 0. Typestate: no path returns from main with written but unflushed bytes',
                   assumptions=['stdio reports failures as documented (short fwrite count, EOF, -1, nonzero)',
                                'an uncaught exception or abort ends with a nonzero status'])
if __name__ == '__main__':
    report.main(run, CHK)
