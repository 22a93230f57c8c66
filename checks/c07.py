"""C07: the output is the exact sequence of the bytes handed to the output stream."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import report
from ir import Module
from vg import Graph, Eval, Ptr, Undecided, isint
import stdio
from c09 import PIPE


class Bad(Exception):
    pass


class Out:
    def __init__(self, chk):
        self.chk, self.g = chk, Graph()
        self.m = Module('compress', opts=PIPE)
        self.cls = 'RawOutStream'
        self.zero = self.g.const(0, 64)
        self.n = self.steps = self.paths = 0
        self.sizes = {}

    def fn(self, base):
        c = [f for f in self.m.functions.values() if not f.decl and f.in_repo and f.klass.split('::')[-1] == self.cls and f.base == base]
        if base.startswith('~'):
            c = [f for f in c if 'D0' not in f.name[-6:]] or c
        if not c:
            raise Undecided('no function %s::%s' % (self.cls, base))
        return sorted(c, key=lambda f: f.name)[0]

    def run(self, f, args, mem=None, facts=None):
        ev = Eval(self.m, self.g, hook=stdio.hook, steps=40000, paths=64)
        self.n += 1
        ev.tag = 'e%d.' % self.n
        ev.opaque = True
        ev.watch = lambda o: o == self.buf
        ev.sizes = self.sizes
        ev.policy = {'src': 'sym'}
        r = ev.paths(f, args, mem, facts)
        self.steps += ev.steps
        self.paths += len(r)
        return r

    buf = None

    def learn(self):
        """where the object keeps the number of waiting bytes, and the buffer"""
        g = self.g
        self.obj = Ptr('out', self.zero)
        ps = [p for p in self.run(self.fn(self.cls), [self.obj, Ptr('name', self.zero)]) if p.end == 'return']
        if not ps:
            raise Undecided('constructor of %s' % self.cls)
        mem = ps[0].mem
        f = self.fn('writeByte')
        cands = {v.obj for (o, k), (v, j) in mem.items() if o == 'out' and isinstance(v, Ptr) and self.sizes.get(v.obj)}
        for b in sorted(cands):
            self.buf = b
            q = self.run(f, [self.obj, g.inp('b', 8)], mem)
            if len(q) != 1 or q[0].end != 'return':
                continue
            st = [e for e in q[0].events if e[0] == 'store' and e[2] == b]
            if len(st) != 1:
                continue
            r = self.run(self.fn('flush'), [self.obj], q[0].mem)
            fields = []
            for k, (x, y) in stdio.changed(mem, q[0].mem, 'out').items():
                if x is None:
                    continue
                d = g.diff(x.off, y.off) if isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj == y.obj else g.diff(x, y)
                if d == -1:
                    fields.append((k, x))
            if len(fields) > 1 and len(r) == 1 and r[0].end == 'return':
                fields = [(k, x) for k, x in fields if r[0].mem.get(('out', k), (None,))[0] == x]
            if len(fields) != 1:
                continue
            self.mem, (self.F, self.v0), self.cap = mem, fields[0], self.sizes[b]
            self.P = g.num(st[0][3])
            if self.P is None:
                continue
            return
        raise Undecided('representation of the waiting bytes')

    def state(self, N):
        """memory with N waiting bytes"""
        g, mem = self.g, dict(self.mem)
        v = Ptr(self.v0.obj, g.add(self.v0.off, N)) if isinstance(self.v0, Ptr) else g.add(self.v0, N[:len(self.v0)])
        n = 8 if isinstance(v, Ptr) else len(v) // 8
        for j in range(n):
            mem[('out', self.F + j)] = (v, j)
        return mem

    def waiting(self, p):
        v = p.mem.get(('out', self.F), (None,))[0]
        g = self.g
        if isinstance(self.v0, Ptr):
            if not isinstance(v, Ptr) or v.obj != self.v0.obj:
                raise Undecided('state after the call')
            return g.rewrite(g.add(v.off, self.v0.off, -1), p.facts)
        if not isint(v) or len(v) != len(self.v0):
            raise Undecided('state after the call')
        return self.ext(g.add(v, self.v0, -1))

    def ext(self, v):
        return v + (0,) * (64 - len(v))

    def cmp(self, a, b, p):
        """a - b as a constant, or Undecided"""
        g = self.g
        x, y = g.rewrite(a, p.facts), g.rewrite(b, p.facts)
        d = g.diff(x, y)
        if d is None and self.top(x) >> 32 == 0 and self.top(y) >> 32 == 0:
            # both are below 2^32: the low halves decide
            d = g.diff(self.trunc(a), self.trunc(b))
        if d is None:
            raise Undecided('%s against %s' % (g.show(x), g.show(y)))
        return d

    def top(self, v):
        """an upper bound"""
        g = self.g
        h = g.hi(v)
        c, d = g.lin(v)
        t = c + sum(k * g.hi(b) for b, k in d.items())
        return min(h, t) if t >> len(v) == 0 else h

    def trunc(self, v, w=32):
        if all(x == 0 for x in v[w:]):
            return v[:w]
        c, d = self.g.lin(v)
        r = self.g.const(c, w)
        for b, k in d.items():
            r = self.g.add(r, self.g.mul(b[:w], self.g.const(k, w)))
        return r

    # -- the ledger -----------------------------------------------------------------
    def follow(self, p, N, what):
        """replay the events of a path over the logical contents -> segments appended, patches, ftell list, end, done"""
        g = self.g
        P = g.const(self.P, 64)
        end, w = g.add(P, N), P         # the waiting bytes are [w, end) of the buffer
        out, wait = [], []              # appended and handed on; appended and waiting
        pos, patch, tells = 'end', [], []
        at = lambda e: '%s' % e[1].where()

        def append(e, off, n, seg):
            nonlocal end, wait
            if g.num(g.rewrite(n, p.facts)) == 0:
                return
            d = self.cmp(off, end, p)
            if d:
                raise Bad('%s: stores at byte %s of the buffer, the next free one is %s' % (at(e), g.show(off), g.show(end)))
            end = g.add(end, n)
            x = g.num(g.rewrite(end, p.facts))
            if x is not None and self.cap and x > self.cap:
                raise Bad('%s: stores past the end of the buffer of %d bytes' % (at(e), self.cap))
            wait.append(seg)

        def empty(e):
            d = self.cmp(end, w, p)
            if d:
                raise Bad('%s: %s while %s bytes wait in the buffer: they end up behind' % (at(e), e[0], d))

        def emit(segs):
            nonlocal pos
            if pos == 'end':
                out.extend(segs)
            else:
                patch.extend(segs)

        for e in p.events:
            k = e[0]
            if k == 'store' and e[2] == self.buf:
                if e[5] != 1:
                    raise Undecided('wide store at %s' % at(e))
                append(e, e[3], g.const(1, 64), ('byte', e[4][:8]))
            elif k in ('memmove', 'memcpy', 'memset') and isinstance(e[2], Ptr) and e[2].obj == self.buf:
                if k == 'memset' or not isinstance(e[3], Ptr):
                    raise Undecided('%s at %s' % (k, at(e)))
                append(e, e[2].off, e[4], ('copy', e[3].obj, e[3].off, e[4]))
            elif k == 'fwrite':
                n = g.rewrite(e[3], p.facts)
                if g.num(n) == 0:
                    continue
                if not isinstance(e[2], Ptr):
                    raise Undecided('fwrite at %s' % at(e))
                if e[2].obj == self.buf:
                    if self.cmp(e[2].off, w, p):
                        raise Bad('%s: writes from byte %s of the buffer, the waiting bytes begin at %s' % (at(e), g.show(e[2].off), g.show(w)))
                    d = self.cmp(n, g.add(end, w, -1), p)
                    if d:
                        raise Bad('%s: writes %s bytes of the buffer, %s wait there' % (at(e), g.show(n), g.show(g.rewrite(g.add(end, w, -1), p.facts))))
                    emit(wait)
                    wait, end, w = [], P, P
                else:
                    empty(e)
                    emit([('byte', b) for b in e[4]] or [('copy', e[2].obj, e[2].off, n)])
            elif k == 'fputc':
                empty(e)
                emit([('byte', e[2])])
            elif k == 'ftell':
                tells.append((e[2], g.rewrite(g.add(end, w, -1), p.facts), pos))
            elif k == 'fseek':
                empty(e)
                wh = g.num(g.rewrite(e[3], p.facts))
                if wh == 0 and any(e[2] == t[0] and t[2] == 'end' for t in tells):
                    pos = 'end'
                elif wh == 2 and g.num(e[2]) == 0:
                    pos = 'end'
                elif wh == 0:
                    pos = ('at', e[2])
                    patch.append(('at', e[2]))
                else:
                    raise Undecided('fseek at %s' % at(e))
            elif k in ('setvbuf', 'setbuf', 'clearerr'):
                raise Undecided('%s at %s' % (k, at(e)))
        return dict(out=out + wait, patch=patch, tells=tells, left=g.add(end, w, -1), pos=pos)

    def sequence(self, p, got, want):
        """the appended segments are exactly the data"""
        g = self.g
        m = []
        copies = any(t[0] == 'copy' for t in want)
        for s in got:
            if copies and s[0] == 'byte' and g.whole(s[1]) is not None and g.whole(s[1])[1] == 8:
                k = g.tkey[g.whole(s[1])[0]]        # a byte loaded from the data
                if k[1] == 'in' and isinstance(k[2], tuple) and k[2][0] == 'src':
                    s = ('copy', 'src', g.const(k[2][1], 64), g.const(1, 64))
                elif k[1] == 'in' and isinstance(k[2], tuple) and k[2][:2] == ('ld', 'src'):
                    s = ('copy', 'src', k[2][2], g.const(1, 64))
            if s[0] == 'copy' and m and m[-1][0] == 'copy' and m[-1][1] == s[1] and g.diff(g.rewrite(g.add(m[-1][2], m[-1][3]), p.facts), g.rewrite(s[2], p.facts)) == 0:
                m[-1] = ('copy', s[1], m[-1][2], g.add(m[-1][3], s[3]))
            else:
                m.append(s)
        if [s[0] for s in m] != [s[0] for s in want]:
            raise Bad('appends %s instead of %s' % (self.text(m), self.text(want)))
        for s, t in zip(m, want):
            if s[0] == 'byte':
                a, b = g.rewrite(s[1], p.facts), g.rewrite(t[1], p.facts)
                if a != b:
                    raise Bad('appends the byte %s instead of %s' % (g.show(a), g.show(b)))
            else:
                if s[1] != t[1]:
                    raise Undecided('copy from elsewhere')
                if self.cmp(s[2], t[2], p) or self.cmp(s[3], t[3], p):
                    raise Bad('appends %s instead of %s' % (self.text([s]), self.text([t])))

    def text(self, segs):
        g = self.g
        return ', '.join('byte %s' % g.show(s[1]) if s[0] == 'byte' else '%s bytes from offset %s' % (g.show(s[3]), g.show(s[2])) if s[0] == 'copy' else 'a seek' for s in segs) or 'nothing'

    # -- operations -------------------------------------------------------------------
    def ops(self, N, sizes, B=None):
        g = self.g
        b = g.inp('b', 8)
        yield 'writeByte', [self.obj, b], [('byte', b)], None
        for s in sizes:
            yield 'writeBlock', [self.obj, Ptr('src', self.zero), Ptr('src', s)], [] if g.num(s) == 0 else [('copy', 'src', self.zero, s)], s
        yield 'flush', [self.obj], [], None
        yield 'getPos', [self.obj], [], None
        yield 'write48bits', [self.obj, g.inp('v', 64)[:48] + (0,) * 16, g.inp('where', 64)[:62] + (0, 0)], [], None
        yield '~' + self.cls, [self.obj], [], None

    def judge(self, name, p, N, data, args):
        """one path of one operation -> number of waiting bytes afterwards"""
        g = self.g
        L = self.follow(p, N, name)
        if L['pos'] != 'end':
            raise Bad('the file position is not put back to the end')
        want = [d for d in data if d[0] != 'copy' or g.num(g.rewrite(d[3], p.facts)) != 0]
        self.sequence(p, L['out'], want)
        if name.startswith('~'):
            if self.cmp(L['left'], self.zero, p):
                raise Bad('%s bytes are left in the buffer' % g.show(L['left']))
            return None
        W = self.waiting(p)
        d = self.cmp(W, L['left'], p)
        if d:
            raise Bad('%s bytes wait in the buffer, the object counts %s' % (g.show(L['left']), g.show(W)))
        if name == 'write48bits':
            pat = L['patch']
            if len(pat) < 1 or pat[0][0] != 'at':
                raise Bad('does not go to the position it is given')
            if pat[0][1] != args[2]:
                d = g.diff(pat[0][1], args[2])
                if d is None:
                    raise Undecided('position %s' % g.show(pat[0][1]))
                raise Bad('goes to position %s instead of %s' % (g.show(pat[0][1]), g.show(args[2])))
            by = [s for s in pat[1:]]
            if any(s[0] != 'byte' for s in by):
                raise Undecided('form of the 48 bits')
            want = [args[1][8 * k:8 * k + 8] for k in range(5, -1, -1)]
            if [s[1] for s in by] != want:
                raise Bad('writes %s instead of the 48 bits, most significant byte first' % self.text(by))
        elif L['patch']:
            raise Bad('writes at another place of the file')
        if name == 'getPos':
            r = p.ret
            ok = [t for t in L['tells'] if g.diff(r, t[0]) is not None or g.whole(r) is not None]
            if not L['tells']:
                raise Undecided('position not taken from the file')
            t = L['tells'][-1]
            d = self.cmp(r, g.add(t[0], t[1]), p)
            if d:
                raise Bad('returns a position that is off by %d' % d)
        return W

    def general(self):
        """any number of waiting bytes, any size of a block"""
        g = self.g
        bits = (self.cap - 1).bit_length()
        N = g.inp('N', 64)[:bits] + (0,) * (64 - bits)
        size = g.inp('size', 64)[:40] + (0,) * 24
        done = {}
        for name, args, data, s in self.ops(N, [size]):
            f = self.fn(name)
            n = 0
            try:
                for p in self.run(f, args, self.state(N)):
                    if p.end != 'return':
                        raise Undecided('%s ends with %s' % (f.short, p.end))
                    n += 1
                    try:
                        self.judge(name, p, N, data, args)
                    except Bad as e:
                        raise Undecided('%s (to be confirmed at a boundary state)' % e)
                done[name] = '%d paths' % n
            except Undecided as e:
                self.und.append('%s with any number of waiting bytes: %s' % (f.short, e))
        return done

    def boundary(self):
        """numbers of waiting bytes and block sizes around the limits"""
        g, K = self.g, self.cap
        c = lambda v: g.const(v, 64)
        todo, seen, tooling = [0, 1, 2, K // 2, K - 2, K - 1], set(), set()
        cases = 0
        while todo:
            n = todo.pop(0)
            if n in seen or n < 0:
                continue
            seen.add(n)
            N = c(n)
            sizes = sorted({0, 1, max(0, K - n - 1), max(0, K - n), K - n + 1 if n <= K else 1, K - 1, K, K + 1, 2 * K})
            for name, args, data, s in self.ops(N, [c(x) for x in sizes]):
                if name in tooling:
                    continue
                f = self.fn(name)
                try:
                    ps = self.run(f, args, self.state(N))
                    if len(ps) != 1 or ps[0].end != 'return':
                        raise Undecided('%s: %s' % (f.short, ps[0].end if ps else 'no path'))
                    cases += 1
                    try:
                        W = self.judge(name, ps[0], N, data, args)
                    except Bad as e:
                        self.chk.obligation(False, '%s:%s' % (name, str(e)[:20]), '%s (%s), called with %d of %d bytes waiting%s: %s' % (
                            f.short, f.where(), n, K, '' if s is None else ' and a block of %d bytes' % g.num(s), e))
                        continue
                    W = g.num(W) if W is not None else None
                    if W is not None and W not in seen and W >= K and len(seen) < 12:
                        todo.append(W)
                except Undecided as e:
                    self.und.append('%s with %d bytes waiting: %s' % (f.short, n, e))
                    if 'does not end' in str(e):
                        tooling.add(name)
        return cases, len(seen)


def run(chk):
    C = Out(chk)
    C.und = []
    try:
        C.learn()
        done = C.general()
        for k, v in done.items():
            chk.obligation(True, '', '', '%s::%s: %s, any number of waiting bytes' % (C.cls, k, v))
        n = len(chk.findings)
        cases, states = C.boundary()
        if len(chk.findings) == n:
            chk.obligation(True, '', '', '%d boundary cases from %d numbers of waiting bytes (buffer of %d bytes)' % (cases, states, C.cap))
    except Undecided as e:
        C.und.append(str(e))
    # the file starts empty: what it held before does not stay behind what is written
    from c16 import text
    for f in C.m.functions.values():
        if f.decl or not f.in_repo or f.klass.split('::')[-1] != C.cls:
            continue
        for i in f.calls():
            if i.callee in ('fopen', 'fopen64'):
                md = text(C.m, i['args'][1]) if isinstance(i['args'][1], dict) else None
                if md is None:
                    C.und.append('mode of the open at ' + i.where())
                    continue
                chk.obligation(md[:1] == 'w', 'mode:%s' % f.short, 'the output file is opened with mode "%s" at %s: bytes it held before stay in it' % (md, i.where()),
                               'the output file is opened empty at %s (mode "%s")' % (i.where(), md))
    chk.cov.update(evaluations=C.n, paths=C.paths, instructions_evaluated=C.steps, undecided=C.und)


CHK = report.Check('C07', 'every operation of the output stream is evaluated to its stores, copies and stdio calls for an arbitrary number of waiting bytes; the file followed by the waiting part of the '
                   'buffer has to be the old contents followed by the data of the operation, and the count kept in the object the number of waiting bytes')
if __name__ == '__main__':
    report.main(run, CHK)
