"""C17: the input file is only read, and it is open before the output is created; --stdin/--stdout use no named file."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import report, build
from ir import Module, short, cval
from fault import Fault, trail_text
from order import unpreceded
from c05 import PIPE, OPEN
from c16 import options, resolve, dem, text

# anything else that can create, change or remove a file
FORBIDDEN = {'remove', 'rename', 'renameat', 'unlink', 'unlinkat', 'truncate', 'truncate64', 'ftruncate', 'ftruncate64', 'open', 'open64',
             'openat', 'creat', 'creat64', 'system', 'popen', 'symlink', 'link', 'chmod', 'fchmod', 'mkstemp', 'mkstemp64', 'tmpfile',
             'execv', 'execve', 'execvp', 'execl', 'execlp', 'fork', 'vfork', 'posix_spawn', 'rmdir', 'mkdir', 'mmap', 'mmap64', 'fdopen', 'freopen', 'freopen64'}
CXXFILE = re.compile(r'^std::basic_(filebuf|ofstream|fstream|ifstream)<.*>::(open|basic_ofstream|basic_fstream|basic_ifstream|basic_filebuf)\(|^std::filesystem::(remove|rename|resize_file|copy)')


def mode(m, i):
    k = 1
    return text(m, i['args'][k])


def run(chk):
    sites = 0
    for prog in build.PROGRAMS:
        m = Module(prog, opts=PIPE)
        seen = m.reachable([m.main()])
        reads, writes = [], []
        for f in seen:
            if f.decl or not f.in_repo:
                continue
            for i in f.calls():
                c, d = i.callee, dem(m, i)
                if c in ('fopen', 'fopen64'):
                    sites += 1
                    md = mode(m, i)
                    if md is None:
                        md = '?'
                    (reads if md[:1] == 'r' else writes).append((f, i, md))
                    if md[:1] == 'r' and '+' in md:
                        chk.obligation(False, '%s:%s:mode' % (prog, f.short), '%s: a file is opened for reading and writing ("%s") at %s (%s)' % (
                            prog, md, i.where(), short(f.dem)))
                elif c in FORBIDDEN or CXXFILE.match(d):
                    chk.obligation(False, '%s:%s:%s' % (prog, f.short, c), '%s: %s at %s (%s) can change files other than the output' % (
                        prog, short(d), i.where(), short(f.dem)))
        chk.need(len(reads), 1, 'read-only opens in ' + prog)
        chk.need(len(writes), 1, 'output opens in ' + prog)
        rset, wset = {i for _, i, _ in reads}, {i for _, i, _ in writes}
        reach_r, reach_w = reaching(m, seen, rset), reaching(m, seen, wset)
        # order: a function that only opens the input has completed before the output is opened
        def first(i):
            if i in rset:
                return True
            ts = [t for t in m.call_targets(i, m.live_vt) if t is not None]
            return bool(ts) and all(t in reach_r and t not in reach_w for t in ts)
        bad = unpreceded(m, seen, m.main(), first, lambda i: i in wset)
        for i, tr in bad:
            chk.obligation(False, '%s:order' % prog, '%s: the output is opened (and truncated) at %s before the input has been opened: %s' % (
                prog, i.where(), trail_text(tr)))
        if not bad:
            chk.obligation(True, '', '', '%s: on every path the input is open before the output file is created' % prog)
        # an input that cannot be opened leaves the output alone
        F = Fault(m, seen, {}, watch={'fopen', 'fopen64'})
        for f, i, md in reads:
            ends = [e for e in F.fates(i, 0) if e[0] == 'event']
            chk.obligation(not ends, '%s:%s:open failure' % (prog, f.short),
                           '%s: when the input cannot be opened at %s the program goes on to open another file at %s' % (
                               prog, i.where(), ends[0][3] if ends else ''),
                           '%s: after a failed open of the input at %s no other file is opened' % (prog, i.where()))
        chk.cov['states_explored'] = chk.cov.get('states_explored', 0) + F.explored
        names(chk, m, seen, prog, reads, writes)
    # positive example for the zero-count rule
    chk.need(sum(bool(CXXFILE.match(x)) for x in ('std::basic_ofstream<char, std::char_traits<char>>::open(char const*)',)), 1, 'the rule for C++ file streams')
    chk.cov.update(open_sites=sites, programs=len(build.PROGRAMS))


def reaching(m, seen, sites):
    out = {i.fn for i in sites}
    callers = {}
    for f in seen:
        if f.decl:
            continue
        for i in f.calls():
            for t in m.call_targets(i, m.live_vt):
                if t is not None:
                    callers.setdefault(t, set()).add(f)
    q = list(out)
    while q:
        for c in callers.get(q.pop(), ()):
            if c not in out:
                out.add(c)
                q.append(c)
    return out


STR = re.compile(r'basic_string<char')


ALTERED = []        # calls that change the string handed to an open
BUILT = []          # (call, origins of its operands): names put together from other names on the way to an open
CHANGES = re.compile(r'::(append|push_back|pop_back|insert|replace|erase|resize|operator\+=|operator=|assign|swap|clear)\(')


def changes(m, seen, f, o, depth=0):
    """(call, kind, operand) for calls that change the string object o: kind 'clear', 'set' (to operand), 'alter'"""
    out = []
    if depth > 3:
        return out
    for u in f.users.get(o, ()):
        if not u.is_call or o not in u['args']:
            continue
        d = dem(m, u)
        c = CHANGES.search(d)
        if STR.search(d) and c and not d.endswith(' const'):
            k = c.group(1)
            if u['args'][0] != o:
                if k == 'swap':
                    out.append((f, u, 'set', u['args'][0]))
                continue
            a = u['args'][1:]
            const = [cval(x) for x in a if isinstance(x, dict) and 'c' in x]
            if k == 'clear' or k in ('erase', 'resize') and const[:1] == [0] and (k == 'resize' or const[1:] in ([], [(1 << 64) - 1])):
                out.append((f, u, 'clear', None))
            elif k in ('operator=', 'assign', 'swap') and len(a) == 1:
                out.append((f, u, 'set', a[0]))
            elif k in ('operator=', 'assign', 'swap'):
                pass
            else:
                out.append((f, u, 'alter', None))
        elif not STR.search(d.split('(')[0]):
            for t in m.call_targets(u, m.live_vt):
                if t is not None and not t.decl and t.in_repo:
                    for n, x in enumerate(u['args']):
                        if x == o and n < len(t.args):
                            out += changes(m, seen, t, n, depth + 1)
    return out


def origins(m, seen, f, o, depth=0, trail=()):
    """(function, operand) roots of a string operand: allocas and globals; None in the set when unknown"""
    if depth > 12 or (f, repr(o)) in trail:
        return set()
    trail = trail + ((f, repr(o)),)
    if isinstance(o, dict):
        return {(f.name if 'g' not in o else '', repr(o))} if 'g' in o else {None}
    d = f.defs.get(o)
    if d is None:                                            # parameter
        out = set()
        for g in seen:
            if g.decl:
                continue
            for i in g.calls():
                if f in m.call_targets(i, m.live_vt) and o < len(i['args']):
                    out |= origins(m, seen, g, i['args'][o], depth + 1, trail)
        return out or {None}
    if d.op == 'alloca':
        # put together from other strings?
        for u in f.users[o]:
            if u.is_call and u['args'] and u['args'][0] == o and re.match(r'std::.*\boperator\+<char|std::.*::substr\(', dem(m, u)):
                src = set()
                for a in u['args'][1:]:
                    if isinstance(a, int):
                        src |= origins(m, seen, f, a, depth + 1, trail)
                BUILT.append((u, src))
                return {None}
        # a local copy of another string?
        for u in f.users[o]:
            if u.is_call and u['args'] and u['args'][0] == o and len(u['args']) == 2 and re.search(r'::basic_string\(std::__cxx11::basic_string<.*(&|&&)\)$', dem(m, u)):
                return origins(m, seen, f, u['args'][1], depth + 1, trail)
        return {(f.name, o)}
    if d.op == 'phi':
        return set().union(*[origins(m, seen, f, v, depth + 1, trail) for v, _ in d['in']])
    if d.op == 'getelementptr' and d['ptr'] == 0 and f.klass and not d.get('var'):
        r = member(m, seen, f, d, depth + 1, trail)
        if r != {None}:
            return r
    if d.op == 'getelementptr' and not d.get('var'):
        r = origins(m, seen, f, d['ptr'], depth + 1, trail)
        return {x if x is None else (x[0], '%s+%s' % (x[1], d['off'])) for x in r}
    if d.op == 'load':
        return {None}
    if d.is_call and re.search(r'::(c_str|data)\(\)', dem(m, d)):
        return origins(m, seen, f, d['args'][0], depth + 1, trail)
    return {None}


def member(m, seen, f, g, depth=0, trail=()):
    """roots of a string member of the object (assigned in the methods of its class)"""
    out = set()
    for h in seen:
        if h.decl or h.klass != f.klass:
            continue
        for e in h.insts():
            if e.op == 'getelementptr' and e['ptr'] == 0 and e['off'] == g['off'] and not e.get('var'):
                ALTERED.extend(x for x in changes(m, seen, h, e.id) if x[2] == 'alter')
        for u in h.calls():
            if u['args'] and STR.search(dem(m, u)) and len(u['args']) >= 2 and isinstance(u['args'][0], int):
                e = h.defs.get(u['args'][0])
                if e is not None and e.op == 'getelementptr' and e['ptr'] == 0 and e['off'] == g['off'] and not e.get('var') \
                        and re.search(r'::(basic_string|operator=|assign)\(', dem(m, u)):
                    out |= origins(m, seen, h, u['args'][1], depth, trail)
    return out or {None}


def open_names(m, seen, f, i):
    """root strings of the file name of an fopen: the argument, or the member the class keeps it in (assigned in its constructors)"""
    o = i['args'][0]
    d = f.defs.get(o) if isinstance(o, int) else None
    if d is None or not d.is_call or not re.search(r'::(c_str|data)\(\)', dem(m, d)):
        return origins(m, seen, f, o)
    s = d['args'][0]
    g = f.defs.get(s) if isinstance(s, int) else None
    if isinstance(s, int) and g is not None and g.op == 'alloca':
        ALTERED.extend(x for x in changes(m, seen, f, s) if x[2] != 'clear')
    if g is not None and g.op == 'getelementptr' and g['ptr'] == 0 and not g.get('var'):
        return member(m, seen, f, g)
    return origins(m, seen, f, s)


def names(chk, m, seen, prog, reads, writes):
    store = {}
    for f, call, name, sem, desc in options(m, seen):
        if name and name.split(',')[0] in ('input-file', 'output-file'):
            st, vals, ok = resolve(m, f, sem)
            if st is not None:
                store[name.split(',')[0]] = (origins(m, seen, *st), st)
    und = []
    for opt, other, sites, flag in (('input-file', 'output-file', reads, 'stdin'), ('output-file', 'input-file', writes, 'stdout')):
        if opt not in store or other not in store:
            und.append(opt)
            continue
        for f, i, md in sites:
            del BUILT[:], ALTERED[:]
            r = open_names(m, seen, f, i)
            names_ = store[opt][0] | store[other][0]
            for u, src in BUILT:
                if src & names_:
                    chk.obligation(False, '%s:%s:built' % (prog, opt), '%s: the name of the file opened with mode "%s" at %s is not the one given: '
                                   'another name is made from it at %s' % (prog, md, i.where(), u.where()))
            for h, u, kind, a in ALTERED:
                if kind == 'alter':
                    chk.obligation(False, '%s:%s:altered' % (prog, opt), '%s: the name of the file opened with mode "%s" at %s is changed at %s (%s)' % (
                        prog, md, i.where(), u.where(), short(h.dem)))
            if not r or None in r:
                und.append('%s at %s' % (opt, i.where()))
                continue
            wrong = r & store[other][0]
            chk.obligation(not wrong, '%s:%s:name' % (prog, opt),
                           '%s: the file opened with mode "%s" at %s (%s) is the one named by --%s' % (prog, md, i.where(), short(f.dem), other),
                           '%s: the file opened with mode "%s" at %s is the one named by --%s' % (prog, md, i.where(), opt))
        # the option's own string
        st = store[opt][1]
        if isinstance(st[1], int):
            for h, u, kind, a in changes(m, seen, *st):
                if kind == 'alter':
                    chk.obligation(False, '%s:%s:altered' % (prog, opt), '%s: the name given with --%s is changed at %s' % (prog, opt, u.where()))
                elif kind == 'set':
                    t = text(m, a) if isinstance(a, dict) else None
                    del BUILT[:]
                    src = origins(m, seen, h, a) if isinstance(a, int) else set()
                    for v, x in BUILT:
                        if x & (store[opt][0] | store[other][0]):
                            chk.obligation(False, '%s:%s:set' % (prog, opt), '%s: at %s the name given with --%s is replaced by one made from another name (%s)' % (
                                prog, u.where(), opt, v.where()))
                    if t or src & store[other][0]:
                        chk.obligation(False, '%s:%s:set' % (prog, opt), '%s: at %s the name given with --%s is replaced by %s' % (
                            prog, u.where(), opt, '"%s"' % t if t else 'the one of --' + other))
        cleared(chk, m, seen, prog, flag, opt, st, und)
    if und:
        chk.cov.setdefault('undecided', []).extend('%s: %s' % (prog, u) for u in und)


def cleared(chk, m, seen, prog, flag, opt, st, und):
    """with the flag given, the name is emptied before it is used"""
    f, o = st
    if not isinstance(o, int) or f.defs.get(o) is None or f.defs[o].op != 'alloca':
        und.append('--' + flag)
        return
    cnt = [i for i in f.calls() if flag_name(m, f, i) == flag]
    if len(cnt) != 1:
        und.append('--' + flag)
        return
    c = cnt[0]

    def empties(i):
        if not i.is_call or not i['args'] or i['args'][0] != o:
            return False
        d = dem(m, i)
        if re.search(r'::clear\(\)', d):
            return True
        if re.search(r'::(operator=|assign)\(char const\*\)', d):
            return text(m, i['args'][1]) == ''
        return False

    def uses(i):
        return i.is_call and o in i['args'][0 if i.callee in m.functions and m.functions[i.callee].in_repo else 1:] and \
            any(t is not None and not t.decl and t.in_repo for t in m.call_targets(i, m.live_vt)) and \
            not empties(i)
    seenk, q, bad, clears = set(), [(c.bb, c.idx + 1, {c.id: 1})], None, False
    while q and len(seenk) < 5000:
        b, idx, env = q.pop()
        stop = False
        for i in b.insts[idx:]:
            if empties(i):
                stop = clears = True
                break
            if uses(i):
                bad = bad or i
                stop = True
                break
        if stop:
            continue
        for S, ne in f.edges(b, env):
            k = (S.id, frozenset(ne.items()))
            if k not in seenk:
                seenk.add(k)
                q.append((S, 0, ne))
    if bad is not None and not clears and copied(f, o):
        und.append('--' + flag)
        return
    chk.obligation(bad is None, '%s:%s' % (prog, flag), '%s: with --%s the named file is still used at %s' % (prog, flag, bad.where() if bad else ''),
                   '%s: with --%s the file name is emptied before it is used' % (prog, flag))


def copied(f, o):
    """the string is handed on by value (another string built from it)"""
    return any(u.op in ('phi', 'select') for u in f.users[o]) or \
        any(u.is_call and len(u['args']) > 1 and o in u['args'][1:] and 'basic_string' in (u.callee or '') for u in f.users[o])


def flag_name(m, f, i):
    """i is count("name") / count(std::string("name")) on the variables map"""
    d = dem(m, i)
    if not re.search(r'::count\(', d):
        return None
    a = i['args'][1]
    t = text(m, a) if isinstance(a, dict) else None
    if t is not None:
        return t
    for u in f.users.get(a, []) if isinstance(a, int) else []:
        if u.is_call and u['args'] and u['args'][0] == a and re.search(r'::basic_string<', dem(m, u)) and len(u['args']) > 1 and isinstance(u['args'][1], dict):
            t = text(m, u['args'][1])
            if t is not None:
                return t
    return None


CHK = report.Check('C17', 'who-may-open/change-files rule over all reachable calls, must-precede analysis (input opened before output), '
                   'error propagation from a failed open of the input, and flow of the two file name options to the opens',
                   assumptions=['fopen with mode r does not change the file'])
if __name__ == '__main__':
    report.main(run, CHK)
