"""Mod/ref effect summaries over the resolved program.

A value's *roots* say where the memory it points into (at any depth) comes from:
  ('local', id)  an alloca of the function      ('fresh', id)  heap allocated in the function
  ('p', i, d)    parameter i                    ('g', name, d) a global
                 d = 0: the object pointed to itself, d = 1: something reached by loading pointers from it
  ('?',)         unknown
The summary of a function is the set of effects visible to its caller:
  ('w', ('p', i, d)) / ('w', ('g', name, d)) / ('w', ('?',))   writes that memory
  ('x', kind)                                            exit, abort, throw, io:<external>
plus the roots its return value may point into.
"""
from collections import defaultdict

PURE = {'strlen', 'memcmp', 'memchr', 'strcmp', 'strncmp', 'strchr', 'sqrt', 'log', 'log2', 'log10', 'exp', 'pow', 'floor', 'ceil',
        'fabs', 'round', 'lround', 'abs', 'labs', 'isatty', 'ferror', 'feof', 'sqrtf', 'logf', 'bcmp',
        '_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base', '_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base',
        '_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base', '_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base',
        '_ZNKSt5ctypeIcE13_M_widen_initEv', '_ZNKSt6locale2id5_M_idEv', '_ZNKSt6localeeqERKS_', '_ZNSt6locale7classicEv',
        '__cxa_begin_catch', '__cxa_end_catch', '__cxa_get_exception_ptr', '__errno_location', '__dynamic_cast', 'strerror'}
ALLOC = {'_Znwm', '_Znam', 'malloc', 'calloc', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t', '__cxa_allocate_exception',
         '_ZnwmSt11align_val_t', '_ZnamSt11align_val_t'}
FREE = {'_ZdlPv', '_ZdaPv', 'free', '_ZdlPvm', '_ZdaPvm', '__cxa_free_exception', '_ZdlPvSt11align_val_t',
        '_ZdlPvmSt11align_val_t'}
STOP = {'exit': 'exit', '_exit': 'exit', 'quick_exit': 'exit', '_Exit': 'exit', 'abort': 'abort', '__assert_fail': 'abort',
        '_ZSt9terminatev': 'abort', '__cxa_pure_virtual': 'abort', '__cxa_throw': 'throw', '__cxa_rethrow': 'throw',
        '_ZSt21__glibcxx_assert_failPKciS0_S0_': 'abort', 'longjmp': 'exit', 'raise': 'abort', 'kill': 'abort'}


def is_ostream_op(name):
    return name.startswith(('_ZNSo', '_ZNKSo', '_ZSt16__ostream_insert', '_ZStlsI', '_ZSt4endl', '_ZSt5flush', '_ZSt4ends',
                            '_ZNSt9basic_iosIcSt11char_traitsIcEE', '_ZNKSt9basic_iosIcSt11char_traitsIcEE', '_ZNSt8ios_base',
                            '_ZNKSt8ios_base', '_ZNSt13basic_ostream'))


def string_op(name):
    """std::string operations own the memory they manage: indexes of the arguments they write, or None"""
    if name.startswith('_ZNKSt7__cxx1112basic_string') or name.startswith(('_ZSteqI', '_ZStneI', '_ZStltI', '_ZStgtI')) and 'basic_string' in name:
        return ()
    if name.startswith('_ZNSt7__cxx1112basic_string'):
        if '4swapERS4_' in name or 'OS4_' in name:
            return (0, 1)
        if 'EEaSE' in name or '6append' in name or '6assign' in name or 'EEpLE' in name or 'C1' in name or 'C2' in name or 'D1' in name \
                or 'D2' in name or '9push_back' in name or '5clear' in name or '6resize' in name or '7reserve' in name \
                or '6insert' in name or '5erase' in name or '7replace' in name or '8pop_back' in name or '_M_' in name:
            return (0,)
        return ()       # operator[], begin, end, at, back, front, data
    if name.startswith('_ZStplI') and 'basic_string' in name:
        return (0,)
    if name.startswith('_ZNSt7__cxx119to_string') or name.startswith('_ZNSt7__cxx1119to_string') or '9to_stringE' in name:
        return (0,)
    return None


def intrinsic(name):
    return name.startswith('llvm.')


def loaded(roots, contents, closure=False):
    """roots of pointers loaded from memory with these roots"""
    out, seen, q = set(), set(), list(roots)
    while q:
        b = q.pop()
        if b in seen:
            continue
        seen.add(b)
        if b[0] in ('local', 'fresh'):
            c = contents.get(b, ())
            out |= set(c)
            if b[0] == 'fresh':
                out.add(b)
            if closure:
                q.extend(c)
        elif b[0] in ('p', 'g'):
            out.add((b[0], b[1], 1))
        elif b == ('?',):
            out.add(b)
    return out


class Effects:
    def __init__(self, m, seen):
        self.m = m
        self.seen = [f for f in seen if not f.decl]
        self.sum = {f: (frozenset(), frozenset()) for f in seen}
        self._roots = {}
        self._contents = {}
        self._solve()

    # -- roots -------------------------------------------------------------
    def roots(self, f, o):
        r = self._rt(f)
        if isinstance(o, int):
            return r.get(o, frozenset())
        return self._const_roots(o)

    def _const_roots(self, o):
        out = set()
        if isinstance(o, dict):
            if 'g' in o:
                g = self.m.globals.get(o['g'])
                if not (g and g.get('const')) and o['g'] not in self.m.functions:
                    out.add(('g', o['g'], 0))
                else:
                    out.add(('const',))
            for k in ('agg', 'ops'):
                if isinstance(o.get(k), list):
                    for x in o[k]:
                        out |= self._const_roots(x)
        return frozenset(out)

    def _rt(self, f):
        if f in self._roots:
            return self._roots[f]
        R = defaultdict(frozenset)
        for k, a in enumerate(f.args):
            R[k] = frozenset([('p', k, 0)])
        contents = defaultdict(set)   # root -> roots of pointers stored there

        def get(o):
            return R[o] if isinstance(o, int) else self._const_roots(o)
        changed = True
        rounds = 0
        while changed and rounds < 12:
            changed = False
            rounds += 1
            for i in f.insts():
                op, n = i.op, None
                if op == 'alloca':
                    n = frozenset([('local', i.id)])
                elif op == 'getelementptr':
                    n = get(i['ptr'])
                elif op in ('phi', 'select', 'bitcast', 'inttoptr', 'ptrtoint', 'freeze', 'addrspacecast', 'extractvalue',
                            'insertvalue', 'add', 'sub', 'or', 'and'):
                    n = frozenset().union(*[get(o) for o in i.operands()]) if i.operands() else frozenset()
                elif op == 'load':
                    base = get(i['ptr'])
                    n = set()
                    if i.get('ty') == 'ptr' or str(i.get('ty', '')).startswith(('{', 'i64')):
                        n = loaded(base, contents)
                    n = frozenset(n)
                elif op == 'store':
                    v = get(i['val'])
                    if v:
                        for b in get(i['ptr']):
                            if not v <= contents[b]:
                                contents[b] |= v
                                changed = True
                elif i.is_call:
                    n = self._call_ret(f, i, get, contents)
                    if n is True:
                        changed = True
                        n = None
                if n is not None and i.id is not None and not n <= R[i.id]:
                    R[i.id] = R[i.id] | n
                    changed = True
        self._roots[f] = R
        self._contents[f] = contents
        return R

    def _call_ret(self, f, i, get, contents):
        c = i.callee
        args = [get(a) for a in i['args']]
        if c and intrinsic(c):
            if c.startswith(('llvm.memcpy', 'llvm.memmove')):
                src = loaded(args[1], contents)
                for b in args[0]:
                    contents[b] |= src
            return frozenset()
        if c in ALLOC:
            return frozenset([('fresh', i.id)])
        if c == 'realloc':
            return frozenset([('fresh', i.id)]) | args[0]
        if c and is_ostream_op(c):
            return args[0] if args else frozenset()      # insertion operators and manipulators return their stream
        if c and string_op(c) is not None:
            return args[0] if args else frozenset()
        out = set()
        ts = self.m.call_targets(i)
        for t in ts or [None]:
            if t is None or t.decl:
                # an external may return or retain any pointer it was given
                for a in args:
                    out |= a
                allv = set().union(*args) if args else set()
                for a in args:
                    for b in a:
                        if b[0] in ('local', 'fresh'):
                            contents[b] |= allv
            else:
                ret = self.sum.get(t, (frozenset(), frozenset()))[1]
                for r in ret:
                    if r[0] == 'p':
                        if r[1] < len(args):
                            out |= args[r[1]] if r[2] == 0 else loaded(args[r[1]], contents, True)
                    elif r[0] == 'fresh':
                        out.add(('fresh', i.id))
                    else:
                        out.add(r)
                # callee may store argument pointers into memory reachable from written arguments
                for e in self.sum.get(t, (frozenset(),))[0]:
                    if e[0] == 'w' and e[1][0] == 'p' and e[1][1] < len(args):
                        allv = set().union(*args)
                        for b in (args[e[1][1]] if e[1][2] == 0 else loaded(args[e[1][1]], contents, True)):
                            if b[0] in ('local', 'fresh'):
                                contents[b] |= allv | {('fresh', i.id)}
        return frozenset(out)

    # -- effects of one instruction, in terms of f's roots ------------------------
    def inst_effects(self, f, i):
        out = set()
        if i.op == 'store':
            for r in self.roots(f, i['ptr']) or {('?',)}:
                out.add(('w', r))
        elif i.op in ('atomicrmw', 'cmpxchg'):
            for r in self.roots(f, i['ops'][0]) or {('?',)}:
                out.add(('w', r))
        elif i.is_call:
            out |= self.call_effects(f, i)
        return out

    def call_effects(self, f, i):
        out = set()
        args = i['args']
        c = i.callee

        def w(k, d=0):
            if k < len(args):
                rs = self.roots(f, args[k])
                if d:
                    rs = loaded(rs, self._contents[f], True)
                elif not rs:
                    rs = {('?',)}
                for r in rs:
                    out.add(('w', r))
        if i.get('asm'):
            return {('x', 'asm')}
        if c and intrinsic(c):
            if c.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
                for r in self.roots(f, args[0]) or {('?',)}:
                    out.add(('w', r))
            return out
        for t in self.m.call_targets(i) or [None]:
            if t is None:
                out.add(('x', 'indirect'))
                continue
            n = t.name
            so = string_op(n)
            if so is not None:
                for k in so:
                    w(k)
                continue
            if not t.decl and not (is_ostream_op(n)):
                for e in self.sum.get(t, (frozenset(), frozenset()))[0]:
                    if e[0] == 'w' and e[1][0] == 'p':
                        w(e[1][1], e[1][2])
                    else:
                        out.add(e)
                continue
            if n in PURE or n in ALLOC:
                continue
            if n in STOP:
                out.add(('x', STOP[n]))
            elif n.startswith('_ZSt') and '__throw_' in n:
                out.add(('x', 'stdthrow'))
            elif n in FREE:
                if args and not (isinstance(args[0], dict)):
                    for r in self.roots(f, args[0]) or {('?',)}:
                        out.add(('w', r))
            elif n == 'realloc':
                w(0)
            elif is_ostream_op(n):
                w(0)
            elif n in ('fprintf', 'vfprintf', 'fputs', 'fputc', 'putc', 'fwrite', 'fflush', 'perror', 'fputs_unlocked', 'fwrite_unlocked'):
                if n == 'perror':
                    out.add(('w', ('g', 'stderr', 1)))
                else:
                    k = {'fprintf': 0, 'vfprintf': 0, 'fflush': 0}.get(n, len(args) - 1)
                    w(k)
            elif n.startswith(('_ZNSt7__cxx1112basic_string', '_ZNSt8__detail15_List_node_base', '_ZNSt6locale',
                               '_ZSt29_Rb_tree_insert', '_ZNSt8bad_cast', '_ZNSt9exception', '_ZNSs')):
                for k in range(1 if n.startswith('_ZNSt7__cxx11') else len(args)):
                    w(k)
                    w(k, 1)
            elif n.startswith(('_ZNKSt7__cxx1112basic_string', '_ZNKSt9exception', '_ZNKSt8bad_cast')):
                pass
            else:
                out.add(('x', 'io:' + n))
                for k in range(len(args)):
                    if not isinstance(args[k], dict) and self.roots(f, args[k]):
                        w(k)
                        w(k, 1)
        return out

    def _solve(self):
        # iterate to a fixpoint over all functions (summaries only grow)
        callers = defaultdict(set)
        for f in self.seen:
            for i in f.calls():
                for t in self.m.call_targets(i):
                    if t is not None:
                        callers[t].add(f)
        work = list(self.seen)
        inq = set(work)
        n = 0
        while work:
            f = work.pop(0)
            inq.discard(f)
            n += 1
            self._roots.pop(f, None)
            self._rt(f)
            eff, ret = set(), set()
            for i in f.insts():
                for e in self.inst_effects(f, i):
                    if e[0] == 'w':
                        if e[1][0] in ('local', 'fresh', 'const'):
                            continue
                    elif e[1] in ('throw', 'abort') and not f.in_repo:
                        e = ('x', 'stdthrow')
                    eff.add(e)
                if i.op == 'ret' and i.operands():
                    for r in self.roots(f, i.operands()[0]):
                        if r[0] == 'local':
                            continue
                        ret.add(('fresh',) if r[0] == 'fresh' else r)
            ns = (frozenset(eff), frozenset(ret))
            if ns != self.sum.get(f):
                self.sum[f] = ns
                for c in callers[f]:
                    if c not in inq:
                        inq.add(c)
                        work.append(c)
        self.rounds = n
