"""C09: the headers and the integers in them are read back as they were written."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import report
from ir import Module
from vg import Graph, Eval, Ptr, Undecided, isint
from streams import hook, stream

PIPE = ['--noassert', '--setglobal=_ZN4bwtc9verbosityE=0',
        '--pass=globaldce,function(sroa,early-cse<memssa>,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg)']


class Ctx:
    def __init__(self, chk):
        self.chk = chk
        self.g = Graph()
        self.W, self.R = Module('compress', opts=PIPE), Module('uncompress', opts=PIPE)
        self.und, self.cases, self.steps = [], 0, 0
        self.n = 0
        self.slices = None

    def find(self, m, name, cls=None, args=None, arg=None):
        c = [f for f in m.functions.values() if not f.decl and f.in_repo and f.base == name and (cls is None or f.klass.split('::')[-1] == cls)
             and (args is None or len(f.args) == args) and (arg is None or arg in f.dem)]
        if not c:
            raise Undecided('no function %s' % ((cls + '::' if cls else '') + name))
        return sorted(c, key=lambda f: f.name)[0]

    def run(self, m, f, args, mem=None, state=None, io=None, need=True):
        """the only path through f"""
        g = self.g
        ev = Eval(m, g, hook=hook)
        self.n += 1
        ev.tag = 'r%d.' % self.n
        ev.state = state
        mem = dict(mem or {})
        if io:
            mem.update(stream(m, g, io, 'stream'))
        ps = ev.paths(f, args, mem)
        self.steps += ev.steps
        if len(ps) != 1:
            raise Undecided('%s: %d paths for one case' % (f.short, len(ps)))
        if ps[0].end == 'unreachable':
            raise Undecided('%s ends in unreachable code' % f.short)
        return ps[0]

    def read(self, m, f, args, mem=None, data=()):
        """the paths of a reader that some value of the fields takes"""
        g = self.g
        ev = Eval(m, g, hook=hook, paths=64)
        ev.partial = True
        self.n += 1
        ev.tag = 'r%d.' % self.n
        ev.state = {'in': data}
        mem = dict(mem or {})
        mem.update(stream(m, g, 'RawInStream', 'stream'))
        ps = ev.paths(f, args, mem)
        self.steps += ev.steps
        one = len(ps) == 1 and not ps[0].conds and not ev.cut
        for p in ps:
            if p.end == 'unreachable':
                raise Undecided('%s ends in unreachable code' % f.short)
            if one or g.witness(p.conds) is not None:
                yield p
        if not one:
            raise Undecided('%s: several paths for one case' % f.short)

    def S(self):
        return Ptr('stream', self.g.const(0, 64))

    def under(self, p, v):
        return self.g.rewrite(v, p.facts)

    def val(self, name, bits, w=64):
        """an arbitrary value of exactly this many bits"""
        return (self.g.inp(name, w)[:bits - 1] + (1,) if bits else ()) + (0,) * (w - bits)

    def same(self, what, f, h, got, want, extra=''):
        """got == want, both sides named"""
        g = self.g
        self.cases += 1
        if got == want:
            return True
        d = None
        if isint(got) and isint(want):
            n = min(len(got), len(want))
            got, want = got[:n], want[:n]
            for k, (x, y) in enumerate(zip(got, want)):
                if x < 2 and y < 2 and x != y or x ^ y == 1:
                    d = 'bit %d' % k
            if d is None:
                # both are built from single bits of the inputs: different bits can be told apart
                plain = lambda l: l < 2 or g.akey[(l - 2) >> 1][0] == 't' and g.tkey[g.akey[(l - 2) >> 1][1]][1] == 'in'
                k = [k for k, (x, y) in enumerate(zip(got, want)) if x != y]
                if k and all(plain(got[j]) and plain(want[j]) for j in k):
                    d = 'bit %d' % k[0]
        if d is None:
            raise Undecided('%s: %s against %s' % (what, g.show(got), g.show(want)))
        self.chk.obligation(False, what.split(' (')[0], '%s: %s is written by %s (%s) and comes back as %s from %s (%s): %s differs%s' % (
            what, g.show(want), f.short, f.where(), g.show(got), h.short, h.where(), d, extra))
        return False

    def consumed(self, what, f, h, p, data, extra=''):
        self.cases += 1
        if p.end != 'return':
            self.chk.obligation(False, what.split(' (')[0], '%s: %s (%s) does not get through the %d bytes that %s (%s) writes: %s%s' % (
                what, h.short, h.where(), len(data), f.short, f.where(), p.end, extra))
            return False
        n = p.st.get('pos', 0)
        if n != len(data):
            self.chk.obligation(False, what.split(' (')[0], '%s: %s (%s) reads %d of the %d bytes that %s (%s) writes%s' % (what, h.short, h.where(), n, len(data), f.short, f.where(), extra))
            return False
        return True


def part(C, what, fn):
    n = len(C.chk.findings)
    c = C.cases
    try:
        r = fn()
        if len(C.chk.findings) == n:
            C.chk.obligation(True, '', '', '%s: %s (%d comparisons)' % (what, r, C.cases - c))
    except Undecided as e:
        C.und.append('%s: %s' % (what, e))


def pack(C, m, v):
    """packInteger -> packed value, number of bytes"""
    f = C.find(m, 'packInteger')
    p = C.run(m, f, [v, Ptr('bytes', C.g.const(0, 64))])
    n = C.g.num(p.mem[('bytes', 0)][0]) if ('bytes', 0) in p.mem else None
    if p.ret is None or n is None:
        raise Undecided('result of packInteger')
    return f, p.ret, n


def packing(C):
    h = C.find(C.R, 'unpackInteger')
    for k in range(57):
        x = C.val('x', k)
        f, v, n = pack(C, C.W, x)
        p = C.run(C.R, h, [v])
        if not C.same('packed integer (%d bits)' % k, f, h, p.ret, x):
            break
    return 'all values below 2^56'


def streamed(C, cls):
    def go():
        f = C.find(C.W, 'writePackedInteger', cls + 'Encoder')
        h = C.find(C.R, 'readPackedInteger', cls + 'Decoder')
        u = C.find(C.R, 'unpackInteger')
        for k in range(57):
            x = C.val('x', k)
            pf, v, n = pack(C, C.W, x)
            p = C.run(C.W, f, ([Ptr('coder', C.g.const(0, 64))] if len(f.args) == 3 else []) + [v, C.S()], io='RawOutStream')
            data = p.st.get('out', ())
            what = 'integer in the stream of the %s coder (%d bits)' % (cls, k)
            if len(data) != n:
                C.chk.obligation(False, 'length:' + cls, '%s: %s (%s) counts %d bytes, %s (%s) writes %d' % (what, pf.short, pf.where(), n, f.short, f.where(), len(data)))
                break
            for q in C.read(C.R, h, ([Ptr('coder', C.g.const(0, 64))] if len(h.args) == 2 else []) + [C.S()], data=data):
                if not C.consumed(what, f, h, q, data) or not C.same(what, f, h, C.run(C.R, u, [q.ret]).ret, C.under(q, x)):
                    return
        return 'all values below 2^56'
    return go


def lfpowers(C, m, f, n, name):
    """memory of a BWTBlock with n starting points"""
    g = C.g
    acc = C.find(m, 'LFpowers', 'BWTBlock')
    p = C.run(m, acc, [Ptr('block', g.const(0, 64))])
    if not isinstance(p.ret, Ptr) or p.ret.obj != 'block':
        raise Undecided('BWTBlock::LFpowers')
    off = g.num(p.ret.off)
    mem = {}
    for k, e in enumerate((0, 4 * n, 4 * n)):
        for j in range(8):
            mem[('block', off + 8 * k + j)] = (Ptr('lf', g.const(e, 64)), j)
    vals = []
    for k in range(n):
        v = g.inp((name, k), 32)[:31] + (0,)
        vals.append(v)
        for j in range(4):
            mem[('lf', 4 * k + j)] = (v, j)
    return mem, vals, off


def empty_block(C, m):
    g = C.g
    acc = C.find(m, 'LFpowers', 'BWTBlock')
    p = C.run(m, acc, [Ptr('block', g.const(0, 64))])
    off = g.num(p.ret.off)
    return {('block', off + j): (g.const(0, 64), j % 8) for j in range(24)}, off


def block_values(C, p, off, n, what, f, h):
    """the starting points that were read"""
    g = C.g
    b, e = p.mem.get(('block', off), (None,))[0], p.mem.get(('block', off + 8), (None,))[0]
    if not isinstance(b, Ptr) or not isinstance(e, Ptr) or b.obj != e.obj:
        raise Undecided('starting points that were read')
    cnt = g.num(g.add(e.off, b.off, -1))
    if cnt is None or g.num(b.off) is None:
        raise Undecided('starting points that were read')
    if cnt != 4 * n:
        C.chk.obligation(False, what.split(' (')[0], '%s: %s (%s) makes %d starting points of the %d written by %s (%s)' % (what, h.short, h.where(), cnt // 4, n, f.short, f.where()))
        return None
    out = []
    for k in range(n):
        x = p.mem.get((b.obj, g.num(b.off) + 4 * k))
        if x is None or x[1] != 0:
            raise Undecided('starting point %d' % k)
        out.append(x[0][:32])
    return out


def starting_points(C):
    g = C.g
    f, h = C.find(C.W, 'writeHeader', 'BWTBlock'), C.find(C.R, 'readHeader', 'BWTBlock')
    counts = range(1, 257) if C.chk.tier == 'thorough' else list(range(1, 34)) + [63, 64, 65, 127, 128, 129, 254, 255, 256]
    for n in counts:
        mem, vals, _ = lfpowers(C, C.W, f, n, 'lf')
        p = C.run(C.W, f, [Ptr('block', g.const(0, 64)), C.S()], mem=mem, io='RawOutStream')
        data = p.st.get('out', ())
        what = 'starting points (%d of them)' % n
        if g.num(p.ret) != len(data):
            C.chk.obligation(False, 'starting points:length', '%s: %s (%s) reports %s bytes and writes %d' % (what, f.short, f.where(), g.show(p.ret), len(data)))
            break
        m0, off = empty_block(C, C.R)
        for q in C.read(C.R, h, [Ptr('block', g.const(0, 64)), C.S()], mem=m0, data=data):
            if not C.consumed(what, f, h, q, data):
                return
            got = block_values(C, q, off, n, what, f, h)
            if got is None or not all(C.same(what, f, h, a, C.under(q, b)) for a, b in zip(got, vals)):
                return
    return '%d counts between 1 and 256, all positions below 2^31' % len(list(counts))


def sections(C, cls):
    def go():
        g = C.g
        f = C.find(C.W, 'writeBlockHeader', cls + 'Encoder')
        h = C.find(C.R, 'readBlockHeader', cls + 'Decoder')
        fin = C.find(C.W, 'finishBlock', cls + 'Encoder')
        zero = g.const(0, 64)
        counts = range(1, 257) if C.chk.tier == 'thorough' else [1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 64, 127, 128, 129, 200, 254, 255, 256]
        for n, bits in [(n, 15) for n in counts] + [(1, k) for k in range(16, 33)]:
            mem, lf, _ = lfpowers(C, C.W, f, 1, 'lf')
            # n sections: n frequencies that are large enough for a section of their own
            freq = []
            for k in range(256):
                v = g.inp(('freq', k), 32)[:bits - 1] + (1,) + (0,) * (32 - bits) if k < n else g.const(0, 32)
                freq.append(v)
                for j in range(4):
                    mem[('freqs', 4 * k + j)] = (v, j)
            for k, e in enumerate((0, 1024, 1024)):
                for j in range(8):
                    mem[('stats', 8 * k + j)] = (Ptr('freqs', g.const(e, 64)), j)
            args = [Ptr('coder', zero), Ptr('block', zero), Ptr('stats', zero), C.S()]
            if len(f.args) != 4:
                raise Undecided('arguments of %s' % f.short)
            p = C.run(C.W, f, args, mem=mem, io='RawOutStream')
            what = 'block header of the %s coder (%d sections)' % (cls, n)
            data = p.st.get('out', ())
            b, e = p.mem.get(('stats', 0), (None,))[0], p.mem.get(('stats', 8), (None,))[0]
            if not isinstance(b, Ptr) or not isinstance(e, Ptr) or b.obj != e.obj or g.num(b.off) is None or g.num(e.off) is None:
                raise Undecided('sections chosen by %s' % f.short)
            cnt = (g.num(e.off) - g.num(b.off)) // 4
            want = [p.mem[(b.obj, g.num(b.off) + 4 * k)][0] for k in range(cnt)]
            # the length field: six bytes at the remembered position
            q = C.run(C.W, fin, [Ptr('coder', zero), C.S()], mem={k: v for k, v in p.mem.items() if k[0] == 'coder'}, io='RawOutStream')
            w48 = q.st.get('w48', ())
            if len(w48) != 1:
                raise Undecided('the length field')
            pos = w48[0][1]
            C.cases += 1
            if isint(pos) and g.whole(pos) is not None and g.tkey[g.whole(pos)[0]][1] == 'in' and g.tkey[g.whole(pos)[0]][2] == ('pos', 0):
                pass
            elif g.diff(pos, g.inp(('pos', 0), 64)) is not None or g.whole(pos) is not None and g.tkey[g.whole(pos)[0]][1] == 'in' and g.tkey[g.whole(pos)[0]][2][0] == 'pos':
                C.chk.obligation(False, 'length field:' + cls, '%s: %s (%s) writes the length of the block at %s, the field starts where the header starts' % (what, fin.short, fin.where(), g.show(pos)))
                break
            else:
                raise Undecided('position of the length field: %s' % g.show(pos))
            m0, off = empty_block(C, C.R)
            for j in range(24):
                m0[('out', j)] = (zero, j % 8)
            if len(h.args) != 4:
                raise Undecided('arguments of %s' % h.short)
            for q in C.read(C.R, h, [Ptr('coder', zero), Ptr('block', zero), Ptr('out', zero), C.S()], mem=m0, data=data):
                if not C.consumed(what, f, h, q, data):
                    return
                got = block_values(C, q, off, 1, what, f, h)
                if got is None or not C.same(what + ', starting point', f, h, got[0], C.under(q, lf[0])):
                    return
                b, e = q.mem[('out', 0)][0], q.mem[('out', 8)][0]
                if not isinstance(b, Ptr) or not isinstance(e, Ptr) or b.obj != e.obj or g.num(b.off) is None or g.num(e.off) is None:
                    raise Undecided('sections that were read')
                got = [q.mem[(b.obj, k)][0] for k in range(g.num(b.off), g.num(e.off), 8)]
                if len(got) != cnt:
                    C.chk.obligation(False, 'sections:' + cls, '%s: %s (%s) reads %d sections, %s (%s) wrote %d' % (what, h.short, h.where(), len(got), f.short, f.where(), cnt))
                    return
                if not all(C.same(what, f, h, x[:32], C.under(q, y)[:32]) for x, y in zip(got, want)):
                    return
        return '%d section counts with any frequencies of 15 bits, one section of 16 to 32 bits, any starting point' % len(list(counts))
    return go


def precompressor(C):
    g = C.g
    zero = g.const(0, 64)
    f = C.find(C.W, 'writeBlockHeader', 'PrecompressorBlock')
    h = C.find(C.R, 'readBlockHeader', 'PrecompressorBlock')
    if len(f.args) != 3 or len(h.args) != 2:
        raise Undecided('arguments of the block header functions')
    acc = {m: {n: C.find(m, n, 'PrecompressorBlock') for n in names} for m, names in ((C.W, ('originalSize', 'slices')), (C.R, ('originalSize', 'slices')))}

    def field(m, name, mem=None, obj='pb'):
        return C.run(m, acc[m][name], [Ptr(obj, zero)], mem)
    # where the size and the slices are kept
    ctor = C.find(C.W, 'PrecompressorBlock', 'PrecompressorBlock', args=2, arg='(unsigned long)') if any(
        x.base == 'PrecompressorBlock' and '(unsigned long)' in x.dem and not x.decl for x in C.W.functions.values()) else C.find(C.R, 'PrecompressorBlock', 'PrecompressorBlock', args=2)
    mctor = C.W if ctor in C.W.functions.values() else C.R
    n = 0
    for bits in range(1, 57):
        for blocks in ((1, 2) if 2 < bits < 54 else (1, 2, 127, 128, 129, 300)):
            x = C.val('size', bits)
            p = C.run(mctor, ctor, [Ptr('pb', zero), x])
            mem = {k: v for k, v in p.mem.items() if k[0] == 'pb'}
            o = field(C.W, 'originalSize', mem)
            if o.ret != x:
                raise Undecided('size of a block')
            blk = slices_memory(C, acc[C.W]['slices'], mem, blocks)
            if g.num(field(C.W, 'slices', mem).ret) != blocks:
                raise Undecided('slices of a block')
            what = 'header of a precompressed block (size of %d bits, %d slices)' % (bits, blocks)
            p = C.run(C.W, f, [Ptr('pb', zero), C.S(), g.const(default(C.W, f, 2), int(f.args[2]['ty'][1:]))], mem=mem, io='RawOutStream')
            data = p.st.get('out', ())
            n += 1
            if g.num(p.ret) != len(data):
                C.chk.obligation(False, 'block header:length', '%s: %s (%s) reports %s bytes and writes %d' % (what, f.short, f.where(), g.show(p.ret), len(data)))
                return ''
            for q in C.read(C.R, h, [C.S(), g.const(default(C.R, h, 1), int(h.args[1]['ty'][1:]))], data=data):
                if not C.consumed(what, f, h, q, data):
                    return ''
                if not isinstance(q.ret, Ptr):
                    raise Undecided('block that was read')
                o = C.run(C.R, acc[C.R]['originalSize'], [q.ret], q.mem)
                s = C.run(C.R, acc[C.R]['slices'], [q.ret], q.mem)
                if not C.same(what + ', size', f, h, o.ret, C.under(q, x)) or not C.same(what + ', slices', f, h, s.ret, g.const(blocks, 64)):
                    return ''
    # the end of an archive
    e = C.find(C.W, 'writeEmptyHeader', 'PrecompressorBlock')
    p = C.run(C.W, e, [C.S()], io='RawOutStream')
    data = p.st.get('out', ())
    q = C.run(C.R, h, [C.S(), g.const(default(C.R, h, 1), int(h.args[1]['ty'][1:]))], state={'in': data}, io='RawInStream')
    if C.consumed('end marker', e, h, q, data) and isinstance(q.ret, Ptr):
        o = C.run(C.R, acc[C.R]['originalSize'], [q.ret], q.mem)
        C.same('end marker', e, h, o.ret, zero)
    return '%d combinations of size classes and slice counts, no grammar; end marker' % n


def slices_memory(C, acc, mem, blocks):
    """give the block `blocks` slices: the two pointers that slices() subtracts"""
    g = C.g
    zero = g.const(0, 64)
    # the vector lies where the empty object has equal pointers that slices() reads
    cand = sorted({k[1] for k, v in mem.items() if k[0] == 'pb' and v[1] == 0 and isint(v[0]) and len(v[0]) == 64 and g.num(v[0]) == 0})

    def put(o, sz, n):
        m2 = dict(mem)
        for k, e in enumerate((0, sz * n, sz * n)):
            p = Ptr('slices', g.const(e, 64))
            for j in range(8):
                m2[('pb', o + 8 * k + j)] = (p, j)
        return m2
    if C.slices is None:
        for o in cand:
            for sz in range(8, 129, 8) if o + 8 in cand and o + 16 in cand else ():
                try:
                    r = C.run(C.W, acc, [Ptr('pb', zero)], put(o, sz, 3))
                except Undecided:
                    break
                if g.num(r.ret) == 3:
                    C.slices = o, sz
                    break
            if C.slices is not None:
                break
        else:
            raise Undecided('slices of a block')
    m2 = put(C.slices[0], C.slices[1], blocks)
    mem.clear()
    mem.update(m2)


def default(m, f, k):
    """the constant most callers pass for argument k"""
    seen = {}
    for fn in m.functions.values():
        if fn.decl:
            continue
        for c in fn.calls():
            if m.aliases.get(c.callee, c.callee) == f.name and isinstance(c['args'][k], dict) and 'c' in c['args'][k]:
                v = int(c['args'][k]['c'])
                seen[v] = seen.get(v, 0) + 1
    if len(seen) != 1:
        raise Undecided('kind of header in the calls of %s' % f.short)
    return list(seen)[0]


def run(chk):
    C = Ctx(chk)
    part(C, 'packed integers', lambda: packing(C))
    for cls in ('Wavelet', 'Huffman'):
        part(C, 'integers in the stream of the %s coder' % cls, streamed(C, cls))
    part(C, 'starting points of a BWT block', lambda: starting_points(C))
    for cls in ('Wavelet', 'Huffman'):
        part(C, 'block header of the %s coder' % cls, sections(C, cls))
    part(C, 'header of a precompressed block', lambda: precompressor(C))
    chk.cov.update(comparisons=C.cases, evaluations=C.n, instructions_evaluated=C.steps, undecided=C.und)


CHK = report.Check('C09', 'writer and reader of every header are turned into value graphs over the bits of the fields, case by case (number of significant bits, number of entries): the bytes '
                   'written are fed to the reader, which has to end with the same value in every field and to consume exactly these bytes')
if __name__ == '__main__':
    report.main(run, CHK)
