"""C08: the input stream hands out every byte and bit of the input once, in order."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import report
from ir import Module
from vg import Graph, Eval, Ptr, Stop, Undecided, isint
import stdio
from c09 import PIPE


class Reader(Eval):
    """evaluation with an input file: bytes ('file', n), n counted from the beginning"""
    def fread(self, i, a):
        g, st = self.g, self.st
        p, sz, n = a[0], g.num(a[1]), g.num(a[2])
        if sz != 1 or n is None or not isinstance(p, Ptr) or g.num(self.nrm(p.off)) is None:
            raise Undecided('fread at %s' % i.where())
        self.event('fread', i, p, a[2])
        o, off = p.obj, g.num(self.nrm(p.off))
        st['asked'] = max(st.get('asked', 0), n)
        if self.sizes.get(o) is not None and off + n > self.sizes[o]:
            st['over'] = i
        if 'any' in st and st['fpos'] == 0:
            r = st['any']
            got = n
        else:
            got = max(0, min(n, st['flen'] - st['fpos']))
            r = g.const(got, 64)
        for k in [k for k in self.mem if k[0] == o and off <= k[1] < off + got]:
            del self.mem[k]
        for k in [k for k in self.sym if k[0] == o]:
            del self.sym[k]
        st['bufs'] = dict(st.get('bufs', {}), **{o: (off, st['fpos'], got)})
        st['fpos'] += got
        return r

    def fgetc(self, i):
        st = self.st
        if st['fpos'] >= st['flen']:
            return self.g.const(-1, 32)
        st['fpos'] += 1
        return self.file(st['fpos'] - 1) + (0,) * 24

    def feof(self, i):
        raise Undecided('feof at %s' % i.where())

    def file(self, n):
        return self.g.inp(('file', n), 8)

    def load(self, p, n, w, ty='i'):
        if isinstance(p, Ptr) and n == 1 and p.obj in self.st.get('bufs', {}):
            off = self.nrm(p.off)
            o, base, got = self.st['bufs'][p.obj]
            k = self.g.num(off)
            if k is None:
                return self.g.inp(('file', self.g.add(off, self.g.const(base - o, 64))), 8)
            if (p.obj, k) not in self.mem:
                if not o <= k < o + got:
                    return self.g.inp(('stale', self.n(), k), 8)
                return self.file(base + k - o)
        return Eval.load(self, p, n, w, ty)

    def n(self):
        self.st['stale'] = self.st.get('stale', 0) + 1
        return self.st['stale']

    def initial(self, obj, off, n, w, ty):
        b = self.st.get('bufs', {}).get(obj)
        if b is not None and ty != 'ptr':
            v = ()
            for j in range(n):
                k = off + j
                v += self.file(b[1] + k - b[0]) if b[0] <= k < b[0] + b[2] else self.g.inp(('stale', self.n(), k), 8)
            return v[:w]
        return Eval.initial(self, obj, off, n, w, ty)


class In:
    def __init__(self, chk):
        self.chk, self.g = chk, Graph()
        self.m = Module('uncompress', opts=PIPE)
        self.cls = 'RawInStream'
        self.zero = self.g.const(0, 64)
        self.n = self.steps = self.paths = self.cases = 0
        self.sizes, self.und = {}, []
        self.obj = Ptr('in', self.zero)

    def fn(self, base):
        c = [f for f in self.m.functions.values() if not f.decl and f.in_repo and f.klass.split('::')[-1] == self.cls and f.base == base]
        if not c:
            raise Undecided('no function %s::%s' % (self.cls, base))
        return sorted(c, key=lambda f: f.name)[0]

    def run(self, f, args, mem, st, facts=None, steps=60000):
        ev = Reader(self.m, self.g, hook=stdio.hook, steps=steps, paths=64)
        self.n += 1
        ev.tag = 'e%d.' % self.n
        ev.sizes = self.sizes
        ev.state = st
        r = ev.paths(f, args, mem, facts)
        self.steps += ev.steps
        self.paths += len(r)
        return r

    def start(self):
        ps = [p for p in self.run(self.fn(self.cls), [self.obj, Ptr('name', self.zero)], None, {'fpos': 0, 'flen': 0}) if p.end == 'return']
        if not ps:
            raise Undecided('constructor of %s' % self.cls)
        return ps[0].mem

    # -- the position in the buffer ----------------------------------------------------
    def learn(self):
        """how the fields move from byte to byte: state after k bytes of a buffer of r bytes"""
        g = self.g
        f = self.fn('readByte')
        self.mem0 = self.start()
        self.r = g.inp('r', 64)[:17] + (0,) * 47
        ok = lambda ps: [p for p in ps if p.end == 'return']
        one = lambda ps, b: [p for p in ok(ps) if p.st['fpos'] == b]
        p1 = ok(self.run(f, [self.obj], self.mem0, {'fpos': 0, 'flen': 0, 'any': self.r}))
        if len(p1) != 1:
            raise Undecided('first byte')
        p1 = p1[0]
        self.K = p1.st.get('asked')
        if not self.K or p1.st['fpos'] != self.K:
            raise Undecided('the way the file is read')
        p2 = one(self.run(f, [self.obj], p1.mem, p1.st, p1.facts), self.K)
        if len(p2) != 1:
            raise Undecided('second byte')
        p2 = p2[0]
        self.move = {}
        for k, (x, y) in stdio.changed(p1.mem, p2.mem, 'in').items():
            d = g.diff(x.off, y.off) if isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj == y.obj else g.diff(g.rewrite(x, p1.facts), g.rewrite(y, p1.facts)) if isint(x) and isint(y) else None
            if d is None:
                continue                    # the bit buffer: contents of the last bytes
            if d:
                self.move[k] = (x, -d)
        if not self.move:
            raise Undecided('position in the buffer')
        self.base, self.st1, self.facts1 = p1.mem, p1.st, {}
        # the bit buffer after the first byte is arbitrary
        return p1

    def state(self, k, r):
        """memory after k of the r bytes in the buffer have been taken"""
        g = self.g
        sub = {'r': r}
        mem = {}
        done = {}
        for (o, a), (v, j) in self.base.items():
            if id(v) not in done:
                done[id(v)] = g.rewrite(v, {}, {}, sub)
            mem[(o, a)] = (done[id(v)], j)
        for off, (x, d) in self.move.items():
            n = 8 if isinstance(x, Ptr) else len(x) // 8
            if isinstance(x, Ptr):
                v = Ptr(x.obj, g.add(g.rewrite(x.off, {}, {}, sub), g.mul(g.add(k, g.const(1, 64), -1), g.const(d, 64))))
            else:
                w = len(x)
                kk = g.add(k[:w], g.const(1, w), -1)
                v = g.add(g.rewrite(x, {}, {}, sub), g.mul(kk, g.const(d, w)))
            for j in range(n):
                mem[('in', off + j)] = (v, j)
        st = dict(self.st1)
        st.pop('any', None)
        b, = [o for o in st['bufs']]
        n = g.num(r)
        st['bufs'] = {b: (st['bufs'][b][0], 0, n if n is not None else self.K)}
        st['fpos'] = n if n is not None else self.K
        return mem, st

    def general(self):
        """any position in a buffer of any fill"""
        g = self.g
        k = g.inp('k', 64)[:16] + (0,) * 48
        mem, st = self.state(k, self.r)
        st['flen'] = self.K + 3
        f = self.fn('readByte')
        seen = set()
        for p in self.run(f, [self.obj], mem, st):
            if p.end != 'return':
                raise Undecided('%s ends with %s' % (f.short, p.end))
            again = any(e[0] == 'fread' for e in p.events)
            want = g.inp(('file', self.K), 8) if again else g.inp(('file', g.rewrite(k, p.facts)), 8) if g.num(g.rewrite(k, p.facts)) is None else g.inp(('file', g.num(g.rewrite(k, p.facts))), 8)
            seen.add(again)
            if g.rewrite(p.ret, p.facts) != g.rewrite(want, p.facts):
                raise Undecided('byte %s instead of %s' % (g.show(p.ret), g.show(want)))
            if again:
                nx, _ = self.state(g.const(1, 64), g.const(3, 64))
            else:
                nx, _ = self.state(g.add(k, g.const(1, 64)), self.r)
            for off, (x, d) in self.move.items():
                a, b = p.mem[('in', off)][0], nx[('in', off)][0]
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                    a, b = a.off, b.off
                a, b = g.rewrite(a, p.facts), g.rewrite(b, p.facts)
                if not isint(a) or g.diff(a, b) != 0:
                    raise Undecided('position after a byte')
        if len(seen) != 2:
            raise Undecided('two ways to get a byte')
        return 'any number of bytes taken from a buffer of any fill'

    # -- sequences of operations ----------------------------------------------------------
    def rets(self, p, w):
        v = p.ret
        return v[:w] if v is not None else None

    def follow(self, what, mem, st, first, total, ops):
        """apply ops; the logical input is file[first .. total)"""
        g = self.g
        nxt, rest = first, ()
        trail = []
        for op in ops:
            name, arg = op if isinstance(op, tuple) else (op, None)
            f = self.fn(name)
            args = [self.obj]
            if name == 'readBlock':
                args += [Ptr('to', self.zero), g.const(arg, 64)]
            ps = self.run(f, args, mem, st)
            trail.append(name)
            # what the operation has to give
            need = {'readBit': 1, 'readByte': 8, 'read48bits': 48}.get(name, 0)
            have = len(rest) + 8 * (total - nxt)
            if need > have:
                return True             # past the end: not this property
            want = ()
            if need:
                while len(rest) < need:
                    rest += g.inp(('file', nxt), 8)[::-1]
                    nxt += 1
                want, rest = rest[:need][::-1], rest[need:]
            elif name == 'flushBuffer':
                rest = ()
            for p in ps:
                if len(ps) > 1 and g.witness(p.conds) is None:
                    continue
                when = '' if len(ps) == 1 else ' when ' + ' and '.join('%s%s' % ('' if v else 'not ', g.showl(l)) for l, v in p.conds)
                if p.end != 'return':
                    return self.bad(f, what, trail, 'does not return: %s%s' % (p.end, when))
                if p.st.get('over') is not None:
                    return self.bad(f, what, trail, 'asks fread for more than the buffer holds')
                if need:
                    got, w = g.rewrite(p.ret, p.facts), g.rewrite(want, p.facts)
                    if got[:need] != w:
                        return self.bad(f, what, trail, 'returns %s, the input continues with %s%s' % (g.show(got[:need]), g.show(w), when))
                    if name == 'read48bits' and any(x != 0 for x in got[48:]):
                        return self.bad(f, what, trail, 'returns more than 48 bits')
                elif name == 'readBlock':
                    n = min(arg, total - nxt)
                    if g.num(p.ret) is None:
                        raise Undecided('%s: number of bytes' % f.short)
                    if g.num(p.ret) != n:
                        return self.bad(f, what, trail, 'of at most %d bytes returns %s, %d are left%s' % (arg, g.show(p.ret), total - nxt, when))
                    for j in range(n):
                        x = p.mem.get(('to', j))
                        if x is None:
                            return self.bad(f, what, trail, 'leaves byte %d of the block unset' % j)
                        if not isint(x[0]):
                            raise Undecided('%s: contents of the block' % f.short)
                        v, w = g.rewrite(x[0], p.facts)[8 * x[1]:8 * x[1] + 8], g.rewrite(g.inp(('file', nxt + j), 8), p.facts)
                        if v != w:
                            return self.bad(f, what, trail, 'puts %s at byte %d of the block, the input has %s there' % (g.show(v), j, g.show(w)))
            if len(ps) != 1:
                raise Undecided('%s: %d paths' % (f.short, len(ps)))
            p = ps[0]
            if name == 'readBlock':
                nxt += min(arg, total - nxt)
            self.cases += 1
            mem, st = p.mem, p.st
            if p.facts:
                raise Undecided('%s: conditions on the data' % f.short)
        return True

    def bad(self, f, what, trail, text):
        self.chk.obligation(False, '%s:%s' % (f.base, text[:18]), '%s (%s), %s, after %s: %s' % (f.short, f.where(), what, ', '.join(trail[:-1]) or 'nothing', text))
        return False

    def places(self):
        """(text, memory, state, first byte, length of the file)"""
        g, K = self.g, self.K
        c = lambda v: g.const(v, 64)
        for t in (0, 1, 2, 9, 40):
            yield 'at the beginning of a file of %d bytes' % t, dict(self.mem0), {'fpos': 0, 'flen': t}, 0, t
        for k, r, more in ((1, K, 20), (K // 2 + 5, K, 20), (K - 2, K, 20), (K - 1, K, 20), (K, K, 20), (K - 1, K, 1), (K, K, 0), (K - 3, K, 0), (4, 9, 0), (8, 9, 0), (9, 9, 0)):
            mem, st = self.state(c(k), c(r))
            st['flen'] = r + more
            yield 'with %d of %d bytes of the buffer taken and %d bytes behind them' % (k, r, more), mem, st, k, r + more

    def sequences(self):
        bits = 0
        deep = self.chk.tier == 'thorough'
        second = ('readBit', 'readByte', 'flushBuffer')
        stop = set()
        for what, mem, st, first, total in self.places():
            seqs = []
            for b in range(8):
                pre = ['readBit'] * b
                for x in second:
                    for y in second:
                        for z in second if deep or b in (0, 1, 7) else ('readByte',):
                            seqs.append(pre + [x, y, z, 'readBit'])
            seqs.append(['readBit'] * 17)
            seqs.append(['readByte'] * 4 + ['readBit', 'readByte', 'flushBuffer', 'read48bits', 'readByte'])
            seqs.append(['read48bits', 'readBit', 'readByte', 'readBit'])
            for n in (0, 1, 2, 3, 5, 8, 24):
                seqs.append([('readBlock', n), ('readBlock', 2), 'readByte', 'readBit', 'flushBuffer', ('readBlock', 3)])
            if deep and first == 0 and total == 40:
                seqs.append([('readBlock', 40)])
            for s in seqs:
                try:
                    if self.follow(what, dict(mem), dict(st), first, total, s) is False:
                        return
                except Undecided as e:
                    t = '%s: %s' % (what, e)
                    if str(e) not in stop:
                        stop.add(str(e))
                        self.und.append(t)
                    if len(stop) > 5:
                        return


def run(chk):
    C = In(chk)
    try:
        C.learn()
        try:
            chk.obligation(True, '', '', 'readByte: %s' % C.general())
        except Undecided as e:
            C.und.append('any position: %s' % e)
        n = len(chk.findings)
        C.sequences()
        if len(chk.findings) == n:
            chk.obligation(True, '', '', '%d operations in sequences over all bit positions and around the ends of the buffer' % C.cases)
    except Undecided as e:
        C.und.append(str(e))
    chk.cov.update(evaluations=C.n, paths=C.paths, instructions_evaluated=C.steps, operations=C.cases, undecided=C.und)


CHK = report.Check('C08', 'every operation of the input stream is evaluated over an input of unknown bytes, for any position in the buffer (fields extrapolated from one byte to the next and the step '
                   'proved) and all bit positions; it has to give the next bits of the input and to leave the stream behind them')
if __name__ == '__main__':
    report.main(run, CHK)
