"""C04: the result is a function of the input and the options."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import report, build
from ir import Module, short, cval
from effects import is_ostream_op, intrinsic, loaded
from initf import Init
from c02 import Taint, DIAG

PIPE = ['--noassert'] + build.BASE_PIPE
VERB = '_ZN4bwtc9verbosityE'
OUTSIDE = {'rand', 'rand_r', 'random', 'random_r', 'drand48', 'erand48', 'lrand48', 'nrand48', 'mrand48', 'jrand48', 'arc4random',
           'arc4random_uniform', 'arc4random_buf', 'getrandom', 'getentropy',
           'time', 'clock', 'gettimeofday', 'clock_gettime', 'times', 'getrusage', 'ftime', 'timespec_get', 'ntp_gettime',
           'getenv', 'secure_getenv', 'getpid', 'getppid', 'gettid', 'getuid', 'geteuid', 'getgid', 'getpgrp', 'pthread_self', 'syscall',
           'sysconf', 'sysinfo', 'get_nprocs', 'get_nprocs_conf', 'get_phys_pages', 'get_avphys_pages', 'getpagesize', 'getloadavg',
           'sched_getcpu', 'uname', 'gethostname', 'getcwd', 'get_current_dir_name', 'getlogin', 'getauxval', 'sbrk', 'mallinfo', 'mallinfo2',
           'malloc_usable_size', 'tmpnam', 'tempnam', 'mkstemp', 'stat', 'fstat', 'lstat', 'llvm.readcyclecounter',
           'llvm.x86.rdtsc', 'llvm.x86.rdtscp', 'llvm.x86.rdrand.32', 'llvm.x86.rdrand.64', 'llvm.frameaddress.p0', 'llvm.returnaddress',
           '_ZNSt6thread20hardware_concurrencyEv'}
OUTSIDE_PREFIX = ('_ZNSt13random_device', '_ZNSt6chrono3_V212system_clock3now', '_ZNSt6chrono3_V212steady_clock3now',
                  '_ZNSt6chrono12system_clock3now', '_ZNSt10filesystem')


def outside(n):
    return n is not None and (n in OUTSIDE or n.startswith(OUTSIDE_PREFIX)) and not re.search(r'random_device(C|D)\d|random_device7_M_(init|fini)', n)


def memory(m, E, seen):
    """globals that code of the program writes while it runs -> (what they hold is a constant function, where)"""
    out = {}
    guarded = {}

    def note(g, pure, i):
        if g not in m.globals or m.globals[g].get('decl') or g == VERB or g in DIAG or g.startswith('_ZGV'):
            return
        if '__ioinit' in g:
            return
        o = out.setdefault(g, [True, i])
        if not pure and o[0]:
            o[0], o[1] = False, i

    def constant(f, v, g, fixed, seen=None, depth=0):
        """is the value a function of constants and loop counters only?"""
        seen = set() if seen is None else seen
        if not isinstance(v, int):
            return True
        if v in seen:
            return True
        seen.add(v)
        d = f.defs.get(v)
        if d is None:
            return False                      # parameter
        if d.op == 'load':
            rs = E.roots(f, d['ptr'])
            return bool(rs) and all(r[0] == 'const' or (r[0] == 'g' and r[1] == g and not fixed) for r in rs) and constant(
                f, d['ptr'], g, fixed, seen)
        if d.is_call:
            c = d.callee
            return bool(c) and intrinsic(c) and all(constant(f, a, g, fixed, seen) for a in d['args'])
        if d.op == 'alloca':
            return True
        return all(constant(f, o, g, fixed, seen) for o in d.operands())

    def in_guard(f, i):
        if f not in guarded:
            guarded[f] = [j for j in f.calls() if j.callee == '__cxa_guard_acquire']
        return any(f.dominates(j, i) for j in guarded[f])
    for f in seen:
        if f.decl:
            continue
        for i in f.insts():
            if i.op == 'store' or i.op in ('atomicrmw', 'cmpxchg'):
                p = i['ptr'] if i.op == 'store' else i['ops'][0]
                for r in E.roots(f, p):
                    if r[0] == 'g':
                        var = isinstance(p, int)
                        pure = i.op == 'store' and constant(f, i['val'], r[1], not var) and constant(f, p, r[1], True)
                        if pure and not var and not in_guard(f, i):
                            pure = False        # a flag: the value says whether this was reached before
                        note(r[1], pure, i)
            elif i.is_call:
                for e in E.call_effects(f, i):
                    if e[0] == 'w' and e[1][0] == 'g':
                        ts = [t for t in m.call_targets(i) if t is not None]
                        if ts and all(not t.decl and t.in_repo for t in ts) and not any(
                                isinstance(a, dict) and a.get('g') == e[1][1] for a in i['args']):
                            continue            # noted inside the callee
                        if is_ostream_op(i.callee or '') or (i.callee or '').startswith('__cxa_guard'):
                            continue
                        args_const = all(constant(f, a, e[1][1], True) for a in i['args'])
                        note(e[1][1], args_const and in_guard(f, i), i)
    return out


class Outside(Taint):
    WHAT = 'something other than the input and the options'

    def __init__(self, m, chk):
        self.mem = None
        super().__init__(m, chk)

    def solve(self):
        self.mem = memory(self.m, self.E, self.seen)
        self.hidden = {g: i for g, (pure, i) in self.mem.items() if not pure}
        self.nsrc = 0
        super().solve()

    def text(self, g):
        i = self.hidden[g]
        n = self.m.globals[g].get('dem') or g
        return 'the variable %s, which keeps what was written at %s' % (n, i.where())

    def t(self, f, o):
        if isinstance(o, dict):
            if o.get('g') in self.hidden:
                return self.text(o['g'])
            return None
        return self.val.get((f, o))

    def source(self, f, i):
        for r in self.E.roots(f, i['ptr']):
            if r[0] == 'g' and r[1] in self.hidden:
                return self.text(r[1])
        return None

    def call_source(self, f, i):
        n = i.callee
        if i.get('asm') and 'rdtsc' in str(i.get('asm')):
            n = 'llvm.x86.rdtsc'
        if outside(n):
            why = '%s called at %s' % (short(self.m.functions[n].dem) if n in self.m.functions else n, i.where())
            self.nsrc += 1
            self.mark(f, i.id, why)
            for a in i['args']:
                if isinstance(a, int):
                    for r in self.E.roots(f, a):
                        if r[0] == 'local':
                            self.markcell(('local', f, r[1]), why)

    def is_source_store(self, f, i):
        rs = self.E.roots(f, i['ptr'])
        return bool(rs) and all(r[0] == 'g' and r[1] in self.mem for r in rs)

    def store(self, f, i, ptr, why, busy=()):
        rs = self.E.roots(f, ptr)
        if rs and all(r[0] == 'g' and r[1] in self.mem for r in rs):
            return
        super().store(f, i, ptr, why, busy)

    def store_via(self, f, i):
        rs = self.E.roots(f, i['ptr'])
        if rs and all(r[0] == 'p' or (r[0] == 'g' and r[1] in self.mem) for r in rs):
            return
        super().store_via(f, i)

    def alarm(self, i, text):
        if outside(i.callee):
            return
        # initialising or changing the hidden variable itself is not yet an effect
        if i.is_call:
            rs = [r for a in i['args'] for r in self.E.roots(i.fn, a)]
            if 'writes' in text and rs and any(r[0] == 'g' and r[1] in self.mem for r in rs) and (i.callee or '').startswith(
                    ('__cxa_guard', '__cxa_atexit')):
                return
        if (i.callee or '').startswith(('__cxa_guard', '__cxa_atexit')):
            return
        super().alarm(i, text)


PTRKEY = (re.compile(r'^bool std::operator<\s*<.*\*(>|, std::)'), re.compile(r'std::less<[^<>]*\*>::operator\(\)'),
          re.compile(r'std::greater<[^<>]*\*>::operator\(\)'))


def last_pointer_pair(dem):
    """std::pair/tuple comparison with a pointer component"""
    m = re.match(r'^(?:bool |constexpr |auto |decltype.*? )*std::operator(<|>|<=>|<=|>=)<(.*)>\(', dem)
    if not m:
        return False
    args, depth, cur = [], 0, ''
    for ch in m.group(2):
        if ch == '<':
            depth += 1
        elif ch == '>':
            depth -= 1
        if ch == ',' and depth == 0:
            args.append(cur.strip())
            cur = ''
        else:
            cur += ch
    args.append(cur.strip())
    return any(a.endswith('*') and a not in ('char*', 'char const*') for a in args) and '__normal_iterator' not in dem and '_Bit_iterator' not in dem


def address_order(m, seen):
    """reachable code that orders things by the address of objects -> [(function, caller)]"""
    bad = []
    names = [f for f in seen if not f.decl]
    # called from outside the containers, whose own insertion looks at the neighbour as well
    outer = {t for f in names if not re.match(r'^(void |bool |.*> )?std::(_Rb_tree|map|set|multimap|multiset)<', f.dem) or '_M_' not in f.dem
             for i in f.calls() for t in m.call_targets(i, m.live_vt) if t is not None}
    for f in names:
        d = f.dem
        lt = re.match(r'^(?:bool )?std::(less|greater)<([^()]*)>::operator\(\)', d)
        key = lt and lt.group(2).strip().endswith('*') and '(' not in lt.group(2)
        if key:
            p = lt.group(2).strip()
            # ordered containers with address keys matter only if somebody walks through them
            tree = [g for g in names if '_Rb_tree' in g.dem and re.search(r'_Rb_tree<%s,' % re.escape(p), g.dem)]
            if tree:
                walk = [g for g in names if re.search(r'_Rb_tree_(const_)?iterator<(std::pair<)?%s' % re.escape(p).replace(r'\ ', ' '), g.dem)
                        and g.base.startswith(('operator++', 'operator--')) and g in outer]
                if not walk:
                    continue
            bad.append(f)
        elif last_pointer_pair(d):
            bad.append(f)
    return bad


ARITH = {'lshr', 'ashr', 'urem', 'srem', 'udiv', 'sdiv', 'mul', 'shl', 'xor', 'trunc', 'uitofp', 'sitofp'}


def address_number(m, seen):
    """arithmetic on the address of an object as a number -> [instruction].  Differences and comparisons of addresses and tests of
    the alignment (at most a cache line) are not meant."""
    bad, n = [], 0
    for f in seen:
        if f.decl or not f.in_repo:
            continue
        for i in f.insts():
            if i.op != 'ptrtoint':
                continue
            n += 1
            q, done = [i.id], set()
            while q:
                x = q.pop()
                if x in done:
                    continue
                done.add(x)
                for u in f.users.get(x, ()):
                    if u.op in ARITH:
                        c = [cval(o) for o in u['ops'] if isinstance(o, dict) and 'c' in o]
                        if u.op in ('urem', 'srem', 'trunc') and (u.op == 'trunc' or c and c[0] <= 64):
                            if u.op == 'trunc':
                                q.append(u.id)
                            continue
                        bad.append(u)
                    elif u.op in ('add', 'or', 'and', 'phi', 'select', 'zext', 'sext', 'freeze') and u.get('ty') != 'ptr':
                        if u.op == 'and' and any(isinstance(o, dict) and 'c' in o and cval(o) < 64 for o in u['ops']):
                            continue
                        q.append(u.id)
                    elif u.op == 'sub' and any(isinstance(o, dict) for o in u['ops']):
                        q.append(u.id)
    return bad, n


def run(chk):
    nf = ns = ng = nl = 0
    for prog in build.PROGRAMS:
        m = Module(prog, opts=PIPE)
        T = Outside(m, chk)
        seen = T.seen
        nf += len(T.fns)
        ext = {t.name for f in T.fns for i in f.calls() for t in m.call_targets(i, m.live_vt) if t is not None and t.decl}
        chk.need(len(ext), 20, 'external functions called by ' + prog)
        chk.obligation(True, '', '', '%s: %d external functions called, %d of them return something from outside' % (
            prog, len(ext), len([n for n in ext if outside(n)])))
        # A, B: time, randomness, environment, variables that outlive the work
        shown = {}
        for (f, where, text), i in T.bad.items():
            shown.setdefault(where + text, (f, where, text))
        for f, where, text in shown.values():
            chk.obligation(False, '%s:%s:%s' % (prog, f.short, text.split('(')[0]), '%s: %s at %s: %s' % (prog, short(f.dem), where, text))
        ng += len(T.mem)
        for g, (pure, i) in T.mem.items():
            if not shown:
                chk.obligation(True, '', '', '%s: variable %s (%s) decides nothing that is written' % (prog, g, 'constant table' if pure else 'kept'))
        # C: order by address
        for f in address_order(m, seen):
            chk.obligation(False, '%s:address order' % prog, '%s: things are ordered by the addresses of objects: %s is used (%s)' % (
                prog, short(f.dem), m.describe_path(seen, f)))
        bad, n = address_number(m, seen)
        chk.cov['addresses_as_numbers'] = chk.cov.get('addresses_as_numbers', 0) + n
        for i in bad:
            chk.obligation(False, '%s:address number' % prog, '%s: a number computed from the address of an object is used at %s (%s)' % (
                prog, i.where(), short(i.fn.dem)))
        if not bad:
            chk.obligation(True, '', '', '%s: %d conversions of addresses to numbers: differences, comparisons and alignment only' % (prog, n))
        # D: memory that was never set
        I = Init(m, seen)
        ctors = I.constructors()
        chk.need(sum(len(c) for c in ctors.values()), 3, 'constructors of repo classes in ' + prog)
        loads = {}
        for (c, soft), tr in I.S[m.main()][2].items():
            if soft:
                loads[c] = tr
            elif c[0] in ctors:
                for k in ctors[c[0]]:
                    must = I.S[k][0]
                    if must is not None and c not in must:
                        loads[c] = tr + (k,)
        for c, tr in loads.items():
            i = tr[0]
            what = 'an element of the array' if c[0] != '*' else 'an element of what is pointed to'
            fld = 'at offset %d of %s' % (c[-1], c[-2].strip('%"').split('.', 1)[-1])
            ct = tr[-1] if not hasattr(tr[-1], 'where') or hasattr(tr[-1], 'entry') else None
            chk.obligation(False, '%s:uninit:%s:%d' % (prog, c[-2], c[-1]),
                           '%s: %s (%s) reads the member %s before anything has set it%s' % (
                               prog, i.where(), short(i.fn.dem), fld,
                               '; the constructor at %s leaves it unset' % ct.where() if ct is not None else ''))
        for f in I.fns:
            if not f.in_repo:
                continue
            for (c, soft), tr in I.S[f][2].items():
                if c[0] == 'a':
                    chk.obligation(False, '%s:uninit local:%s' % (prog, f.short), '%s: %s (%s) reads an array that nothing has filled' % (
                        prog, tr[0].where(), short(f.dem)))
            for i in f.insts():
                if i.op in ('load',):
                    nl += 1
                if i.op in ('insertvalue', 'phi', 'select', 'freeze'):
                    continue
                if any(isinstance(o, dict) and 'undef' in o for o in i.operands()):
                    chk.obligation(False, '%s:undef:%s' % (prog, f.short), '%s: %s at %s uses a variable that was never set' % (
                        prog, short(f.dem), i.where()))
        for st, cs in sorted(ctors.items()):
            chk.obligation(True, '', '', '%s: members of %s are set before they are read (%d constructor(s) in use)' % (
                prog, st.strip('%"').split('.', 1)[-1], len(cs)))
        ns += T.nsrc
    chk.cov.update(programs=len(build.PROGRAMS), functions_analysed=nf, outside_sources=ns, written_globals=ng, loads_checked=nl)


CHK = report.Check('C04', 'four dataflow rules over the live program: nothing derived from time, randomness, process or environment '
                   'calls, and nothing loaded from a variable that outlives a compressor or decompressor and is written while it works, may decide an '
                   'effect other than diagnostics; no container or comparison in use orders by the addresses of objects; every member that is '
                   'read has been set on every path before (constructors included), and arrays are filled before they are read',
                   assumptions=['arrays count as set once any element is stored independently of its old value',
                                'members of aggregates without a constructor are not followed'])
if __name__ == '__main__':
    report.main(run, CHK)
