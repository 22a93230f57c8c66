"""C01: only data ever reaches standard output in an execution that produces data."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import report, ir, build
from ir import Module, short

# external functions that write to file descriptor 1 / stdout by definition
STDOUT_FUNCS = {'printf', 'vprintf', 'puts', 'putchar', 'putchar_unlocked', '__printf_chk', '__vprintf_chk', 'wprintf',
                'vwprintf', 'putwchar', 'perror_stdout'}
# external functions whose first argument is a descriptor
FD_FUNCS = {'write', 'pwrite', 'pwrite64', 'writev', 'dprintf', 'vdprintf', 'fdopen', 'dup', 'dup2', 'dup3', 'ftruncate',
            'ftruncate64', 'lseek', 'lseek64', 'sendfile', 'splice', 'close'}
# another process would inherit our standard output
SPAWN = {'system', 'popen', 'fork', 'vfork', 'execv', 'execve', 'execvp', 'execl', 'execlp', 'execle', 'posix_spawn',
         'posix_spawnp', 'clone'}
PATH_FUNCS = {'fopen', 'fopen64', 'freopen', 'freopen64', 'open', 'open64', 'creat'}
STDOUT_GLOBALS = {'_ZSt4cout': 'std::cout', '_ZSt5wcout': 'std::wcout'}
STDOUT_PATHS = (b'/dev/stdout', b'/dev/fd/1', b'/proc/self/fd/1', b'/dev/tty')


def cstr(m, o):
    if isinstance(o, dict) and 'g' in o:
        g = m.globals.get(o['g'])
        if g and isinstance(g.get('init'), dict) and 'str' in g['init']:
            return g['init']['str']
    return None


def globals_of(o, out):
    if isinstance(o, dict):
        if 'g' in o:
            out.add(o['g'])
        for k in ('agg', 'ops'):
            if isinstance(o.get(k), list):
                for x in o[k]:
                    globals_of(x, out)
    return out


def is_out_class(m, f):
    """f is a member function of a class derived from bwtc::OutStream"""
    return f is not None and f.klass in m.out_classes


def stdout_sinks(m, f, depth=0):
    """[(inst, why)]: instructions of f that put bytes on standard output (not through an OutStream object)"""
    res = []
    for i in f.insts():
        gs = set()
        for o in i.operands():
            globals_of(o, gs)
        for g in gs:
            if g in STDOUT_GLOBALS:
                res.append((i, 'uses ' + STDOUT_GLOBALS[g]))
        if 'stdout' in gs:
            if i.op == 'load':
                for u, why in escapes(m, f, i):
                    res.append((u, why))
            elif i.op == 'store' and not (isinstance(i['val'], dict) and i['val'].get('g') == 'stdout'):
                res.append((i, 'reassigns stdout'))
            elif i.is_call:
                res.append((i, 'passes &stdout to ' + str(i.callee)))
        if i.is_call and i.callee:
            c = i.callee
            if c in STDOUT_FUNCS:
                res.append((i, 'calls ' + c))
            elif c in FD_FUNCS:
                a = i['args'][0] if i['args'] else None
                if not (isinstance(a, dict) and 'c' in a and a['c'] not in (1, '1')):
                    res.append((i, 'calls %s on a descriptor that may be 1' % c))
            elif c in SPAWN:
                res.append((i, 'calls %s: a child process shares standard output' % c))
            elif c in PATH_FUNCS and i['args']:
                s = cstr(m, i['args'][0])
                if s is not None and any(p.decode() in str(s) for p in STDOUT_PATHS):
                    res.append((i, 'opens %r' % s))
    return res


def escapes(m, f, load):
    """uses of a loaded FILE* stdout other than comparing it or keeping it in an OutStream"""
    out, seen, q = [], set(), [load]
    while q:
        d = q.pop()
        if d.id in seen:
            continue
        seen.add(d.id)
        for u in f.users[d.id]:
            if u.op == 'icmp':
                continue
            if u.op in ('phi', 'select', 'bitcast', 'freeze'):
                q.append(u)
            elif u.op == 'store' and u['val'] == d.id:
                if not is_out_class(m, f):
                    out.append((u, 'stores stdout outside an OutStream class'))
            elif u.op == 'ret':
                if not is_out_class(m, f):
                    out.append((u, 'hands out stdout'))
            elif u.is_call:
                t = m.call_targets(u)
                if t and all(x is not None and is_out_class(m, x) for x in t):
                    continue
                out.append((u, 'passes stdout to ' + ', '.join(short(x.dem) if x else '?' for x in t)))
            elif u.op == 'load' or u.op == 'getelementptr':
                out.append((u, 'pokes into stdout'))
    return out


def run(chk):
    nf = nsites = 0
    sinks_total = 0
    for prog in build.PROGRAMS:
        m = Module(prog)
        m.out_classes = derived(m, 'OutStream')
        chk.need(len(m.out_classes), 2, 'OutStream classes in ' + prog)
        seen = m.reachable([m.main()])
        nf += len(seen)
        sink = {}
        for f in seen:
            if f.decl:
                continue
            for i, why in stdout_sinks(m, f):
                sink.setdefault(f, []).append((i, why))
            nsites += sum(1 for _ in f.calls())
        sinks_total += sum(map(len, sink.values()))
        chk.need(len(sink), 1, 'standard output sinks (the help text) in ' + prog)
        # functions that may print / may set up a data stream
        data = {f for f in seen if not f.decl and is_ctor(m, f)}
        chk.need(len(data), 1, 'constructors of a concrete OutStream in ' + prog)
        may_s = callers_closure(m, seen, set(sink))
        may_d = callers_closure(m, seen, data)
        # static initialisers / destructors run in every execution
        ctors = global_ctor_funcs(m)
        for f in ctors:
            if f in may_s:
                chk.obligation(False, '%s:static-init:%s' % (prog, f.name),
                               '%s: a static initialiser (%s) may write to standard output' % (prog, f.dem))
        # co-execution: inside one function, a print and a stream set-up on one path
        for f in seen:
            if f.decl or f not in may_s:
                continue
            S = [i for i in f.insts() if any(i is s for s, _ in sink.get(f, [])) or
                 (i.is_call and any(t in may_s for t in m.call_targets(i) if t is not None))]
            D = [i for i in f.insts() if i.is_call and any(t in may_d for t in m.call_targets(i) if t is not None)]
            if f in data and f in sink:
                for s, why in sink[f]:
                    chk.obligation(False, '%s:%s' % (prog, f.name),
                                   '%s: %s (%s) %s while setting up a data stream' % (prog, short(f.dem), s.where(), why))
            for s in S:
                hit = [d for d in D if d is not s and (reaches(f, s, d) or reaches(f, d, s))]
                direct = [w for x, w in sink.get(f, []) if x is s]
                if direct:
                    why = direct[0]
                else:
                    t = [t for t in m.call_targets(s) if t in may_s][0]
                    why = 'calls %s, which may write to standard output (%s)' % (short(t.dem), chain(m, may_s, sink, t))
                chk.obligation(not hit, '%s:%s:%s' % (prog, short(f.dem), why),
                               '%s: %s at %s %s, in the same execution as the data output set up at %s'
                               % (prog, short(f.dem), s.where(), why, ', '.join(d.where() for d in hit[:3])),
                               sample='%s: %s at %s %s: never together with data output' % (prog, short(f.dem), s.where(), why))
    chk.cov.update(programs=len(build.PROGRAMS), functions_reachable=nf, call_sites=nsites, stdout_sinks=sinks_total)


def chain(m, may_s, sink, t):
    out = []
    while t is not None and len(out) < 12:
        out.append(short(t.dem))
        if t in sink:
            out.append('%s at %s' % (sink[t][0][1], sink[t][0][0].where()))
            break
        t = may_s.get(t)
    return ' -> '.join(out)


def reaches(f, a, b):
    """may a execute before b in one activation of f"""
    if a.bb is b.bb and a.idx < b.idx:
        return True
    return b.bb.id in f.feas_reach(a)


def callers_closure(m, seen, targets):
    """functions from which a target is reachable -> next function on the way"""
    inv = {}
    for f in seen:
        if f.decl:
            continue
        for i in f.calls():
            for t in m.call_targets(i):
                if t is not None:
                    inv.setdefault(t, set()).add(f)
    out = {t: None for t in targets}
    q = list(targets)
    while q:
        t = q.pop()
        for f in inv.get(t, ()):
            if f not in out:
                out[f] = t
                q.append(f)
    return out


def derived(m, base):
    """class names (as irx reports them) whose vtable is compatible with namespace::base"""
    tids = [t for t in m.vtables() if t.endswith('%d%sE' % (len(base), base))]
    vts = {g for t in tids for g, _ in m.vtables()[t]}
    out = set()
    for g in vts:
        out.add(vt_class(m, g))
    for t in tids:
        out.add(tid_class(t))
    return out


def vt_class(m, g):
    # _ZTVN4bwtc12RawOutStreamE -> bwtc::RawOutStream
    return tid_class('_ZTS' + g[4:])


def tid_class(t):
    import subprocess
    s = build.run(['c++filt', t]).strip()
    return s.replace('typeinfo name for ', '')


def is_ctor(m, f):
    return f.klass in m.out_classes and f.base == f.klass.split('::')[-1] and f.base != 'OutStream'


def global_ctor_funcs(m):
    gc = m.globals.get('llvm.global_ctors')
    names = globals_of(gc['init'], set()) if gc and 'init' in gc else set()
    return [m.functions[n] for n in names if n in m.functions]


CHK = report.Check('C01', 'who-may-write rule on standard output over the resolved call graph of each program: every '
                   'reachable instruction that puts bytes on standard output other than through an OutStream object '
                   'must be on no path together with the construction of an OutStream (before or after it)',
                   assumptions=['boost::program_options and libstdc++ do not print on their own',
                                'class hierarchy from vtable metadata is complete (whole program)'])
if __name__ == '__main__':
    report.main(run, CHK)
