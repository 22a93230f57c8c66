"""C15: the range decoder takes the decisions the range encoder took."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import report
from ir import Module, short
from vg import Graph, Eval, Ptr, Undecided, isint

PIPE = ['--noassert', '--setglobal=_ZN4bwtc9verbosityE=0',
        '--pass=globaldce,function(sroa,early-cse<memssa>,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg)']
M32 = 0xFFFFFFFF
SCALE = 4096
STATES = [(0, M32), (0x00FFFFFF, 0x01000000), (0x00FFFFFE, 0x01000000), (0x00FFFFFE, 0x01000001), (0x7FFFFFFF, 0x80000000), (0x7FFFF000, 0x80000000), (0, 0x01000000),
          (0x12345678, 0x9ABCDEF0), (0xFE000000, M32), (0xFEFFFFFF, 0xFF000000), (0xFEFFF001, 0xFF000001), (0x00000001, 0xFFFFFFFE), (0x55555555, 0xAAAAAAAA),
          (0x00FFF000, 0x01000FFF), (0x01FFF001, 0x02000002), (0x3FFFFFFF, 0xC0000000), (0x00FF0000, 0x01FF0000), (0x000FFFFF, 0xFF0FFFFF)]
PROBS = [0, 1, 2, 15, 100, 1023, 2047, 2048, 2049, 3000, 4000, 4094, 4095, 4096]


BYTES = None


def hook(ev, i, c, fn, args):
    b = fn.base if fn is not None else ''
    k = fn.klass if fn is not None else ''
    if k.endswith('OutStream') and b == 'writeByte':
        ev.event('out', i, args[1][:8])
        return (None,)
    if k.endswith('OutStream') and b == 'flush':
        return (None,)
    if k.endswith('InStream') and b == 'readByte':
        n = sum(1 for e in ev.events if e[0] == 'in')
        v = ev.g.inp('byte%d' % n, 8) if BYTES is None else ev.g.const(BYTES + n, 8)
        ev.event('in', i, v)
        return (v,)
    return None


class Side:
    """one of the two coder classes: its constructor, stepping and framing functions and the offsets of its range"""
    def __init__(self, prog, cls, step, frame, stream):
        self.m = Module(prog, opts=PIPE)
        self.g = None
        self.cls = cls
        fs = [f for f in self.m.functions.values() if not f.decl and f.klass.endswith(cls)]

        def one(name):
            c = [f for f in fs if f.base == name]
            if not c:
                raise Undecided('no %s::%s' % (cls, name))
            return c[0]
        self.ctor, self.step, self.frame = one(cls), one(step), one(frame)
        vts = [n for n, G in self.m.globals.items() if 'vt' in G and (G.get('dem') or '').endswith(stream)]
        if len(vts) != 1:
            raise Undecided('the stream class %s' % stream)
        self.vt = vts[0]

    def evaluator(self, g):
        ev = Eval(self.m, g, hook=hook)
        return ev

    def memory(self, g, fields, ptroff):
        mem = {}

        def put(o, off, v, n):
            for j in range(n):
                mem[(o, off + j)] = (v, j)
        for off, v in fields.items():
            put('coder', off, v, len(v) // 8)
        for off in ptroff:
            put('coder', off, Ptr('stream', g.const(0, 64)), 8)
        put('stream', 0, Ptr(self.vt, g.const(16, 64)), 8)
        return mem


def fields(side, g):
    """the integer fields as the constructor leaves them, and the pointer fields: {offset: value}, [offsets]"""
    ev = side.evaluator(g)
    ps = [p for p in ev.paths(side.ctor, [Ptr('coder', g.const(0, 64))]) if p.end == 'return']
    if len(ps) != 1:
        raise Undecided('constructor of %s' % side.cls)
    ints, ptrs = {}, []
    for (o, off), (v, k) in ps[0].mem.items():
        if o == 'coder' and k == 0 and isint(v):
            if len(v) == 64 and g.num(v) == 0 and ptr_field(side, off):
                ptrs.append(off)
            else:
                ints[off] = v
    return ints, ptrs


def ptr_field(side, off):
    """is the field loaded as a pointer anywhere in the class?"""
    for f in side.m.functions.values():
        if f.decl or not f.klass.endswith(side.cls):
            continue
        for i in f.insts():
            if i.op == 'load' and i.get('ty') == 'ptr':
                d = f.defs.get(i['ptr']) if isinstance(i['ptr'], int) else None
                if d is not None and d.op == 'getelementptr' and d['ptr'] == 0 and d['off'] == off and not d.get('var') or i['ptr'] == 0 and off == 0:
                    return True
    return False


def after(p, off, w=32):
    v = p.mem.get(('coder', off))
    return v[0] if v is not None and v[1] == 0 else None


def outcome(g, ev, f, args, mem, off, what):
    """a single state propagated through f: (values at off.., bytes emitted or read, return value)"""
    ps = ev.paths(f, args, mem)
    if len(ps) != 1 or ps[0].end != 'return':
        raise Undecided('step not folded')
    p = ps[0]

    def num(v):
        r = g.num(v)
        if r is None:
            raise Undecided('value not folded')
        return r
    return tuple(num(after(p, o)) for o in off) + ([num(e[2]) for e in p.events if e[0] == what], num(p.ret) & 1 if p.ret is not None else None)


def bounds(g, v, pin):
    """interval of v when the probability is at most SCALE"""
    c = g.num(v)
    if c is not None:
        return c, c
    if v == pin:
        return 0, SCALE
    w = len(v)
    t = g.whole(v)
    if t is not None and t[1] == w:
        k = g.tkey[t[0]]
        if k[1] == 'mul':
            a, b = bounds(g, k[2], pin), bounds(g, k[3], pin)
            if a and b and a[1] * b[1] < 1 << w:
                return a[0] * b[0], a[1] * b[1]
            return None
        if k[1] == 'lin':
            lo = hi = k[2]
            for b, c in k[3]:
                x = bounds(g, b, pin)
                if x is None or c >> (w - 1):
                    return None
                lo, hi = lo + c * x[0], hi + c * x[1]
            return (lo, hi) if hi < 1 << w else None
    s = slice_of(g, v)
    if s is not None and s[0] != v:
        x = bounds(g, s[0], pin)
        if x is not None and x[1] < 1 << (s[1] + s[2]):
            return x[0] >> s[1], x[1] >> s[1]
    return g.lo(v), g.hi(v)


def slice_of(g, v):
    """v is bits a.. (n of them) of a whole term, zero-extended -> (term value, a, n)"""
    n = 0
    while n < len(v) and v[n] > 1:
        n += 1
    if n == 0 or any(v[n:]):
        return None
    k = g.akey[(v[0] - 2) >> 1]
    if k[0] != 't':
        return None
    for j in range(n):
        if v[j] & 1 or g.akey[(v[j] - 2) >> 1] != ('t', k[1], k[2] + j):
            return None
    W = g.tkey[k[1]][0]
    return tuple(2 + 2 * g.atoms[('t', k[1], j)] for j in range(W)), k[2], n


def monotone(g, v, pin):
    """v never decreases when the probability grows (0 <= p <= SCALE)"""
    if not depends(g, v, pin):
        return True
    if v == pin:
        return True
    w = len(v)
    t = g.whole(v)
    if t is not None and t[1] == w:
        k = g.tkey[t[0]]
        if bounds(g, v, pin) is None:
            return False
        if k[1] == 'mul':
            return monotone(g, k[2], pin) and monotone(g, k[3], pin)
        if k[1] == 'lin':
            return all(monotone(g, b, pin) for b, c in k[3])
        return False
    s = slice_of(g, v)
    if s is not None and s[0] != v:
        x = bounds(g, s[0], pin)
        return x is not None and x[1] < 1 << (s[1] + s[2]) and monotone(g, s[0], pin)
    return False


def depends(g, v, pin):
    return g.rewrite(v, {}, None, {'p': g.const(5, len(pin))}) != v


def run(chk):
    g = Graph()
    und = []
    try:
        E = Side('compress', 'BitEncoder', 'encode', 'finish', 'RawOutStream')
        D = Side('uncompress', 'BitDecoder', 'decode', 'start', 'RawInStream')
        analyse(chk, g, E, D, und)
    except Undecided as e:
        und.append(str(e))
    chk.cov['undecided'] = und


def analyse(chk, g, E, D, und):
    ei, ep = fields(E, g)
    di, dp = fields(D, g)
    low, high = g.inp('low', 32), g.inp('high', 32)
    p = g.inp('p', 13) + (0,) * 19
    # what start() sets up, and which field holds the input
    sym = {o: g.inp(('dfield', o), len(v)) for o, v in di.items()}
    ev = D.evaluator(g)
    st = [x for x in ev.paths(D.frame, [Ptr('coder', g.const(0, 64))], D.memory(g, sym, dp)) if x.end == 'return']
    if len(st) != 1:
        raise Undecided('start of the decoder')
    st = st[0]
    nread = sum(1 for e in st.events if e[0] == 'in')
    dl = [o for o in di if g.num(after(st, o)) == 0 and len(di[o]) == 32]
    dh = [o for o in di if g.num(after(st, o)) == M32]
    dn = [o for o in di if g.num(after(st, o)) is None and after(st, o) != sym[o]]
    eh = [o for o in ei if g.num(ei[o]) == M32]
    el = [o for o in ei if g.num(ei[o]) == 0 and len(ei[o]) == 32]
    if len(dh) == 0 and len(dn) == 1 and len(dl) == 1:
        kept = [o for o in di if after(st, o) == sym[o] and g.num(di[o]) == M32]
        if kept:
            chk.obligation(False, 'start:high', '%s (%s) leaves the upper end of the range of the previous sequence in place; the encoder starts every sequence with the full range' %
                           (D.frame.short, D.frame.where()))
            return
    if len(dh) == 1 and len(dn) == 1 and len(dl) == 0:
        kept = [o for o in di if after(st, o) == sym[o] and g.num(di[o]) == 0]
        if kept:
            chk.obligation(False, 'start:low', '%s (%s) leaves the lower end of the range of the previous sequence in place; the encoder starts every sequence with the full range' %
                           (D.frame.short, D.frame.where()))
            return
    if not (len(dl) == len(dh) == len(dn) == len(eh) == len(el) == 1) or len(dp) != 1 or len(ep) != 1:
        raise Undecided('the coders do not keep a pair low, high')
    dl, dh, dn, eh, el = dl[0], dh[0], dn[0], eh[0], el[0]
    nxt = g.inp('next', 32)
    others = [o for o in di if o not in (dl, dh, dn)]
    # -- start: the next four bytes, most significant first
    want = ()
    for k in range(nread):
        want = g.inp('byte%d' % k, 8) + want
    v = after(st, dn)
    sub = {'byte%d' % k: g.const(0x11 * (k + 1), 8) for k in range(nread)}
    x = g.num(g.rewrite(v, {}, None, sub))
    where = '%s (%s)' % (D.frame.short, D.frame.where())
    chk.obligation(nread == 4, 'start:bytes', '%s reads %d bytes ahead; the encoder leaves 4 bytes for that at the end of a sequence' % (where, nread), 'start reads 4 bytes')
    if v == want[:32]:
        chk.obligation(True, '', '', 'start forms its window from the first byte on')
    elif nread == 4 and x is not None and x != 0x11223344:
        chk.obligation(False, 'start:next', '%s sets its window to %#x for the bytes 11 22 33 44' % (where, x))
    else:
        und.append('window of the decoder: %s' % g.show(v))

    # -- the steps
    C = {'el': el, 'eh': eh, 'dl': dl, 'dh': dh, 'dn': dn, 'ei': ei, 'ep': ep, 'di': di, 'dp': dp}
    n = refute(chk, g, E, D, C, und)
    edec = {}
    ev = E.evaluator(g)
    ev2 = D.evaluator(g)
    try:
        for b in (0, 1):
            edec[b] = ev.paths(E.step, eargs(g, E, b, p), E.memory(g, efields(g, C, low, high), ep))
        dall = ev2.paths(D.step, [Ptr('coder', g.const(0, 64)), p[:width_of(D.step, 1)]], D.memory(g, dfields(g, C, low, high, nxt), dp))
        proved = prove(chk, g, edec, dall, el, eh, dl, dh, dn, low, high, nxt, p, E, D, und)
        chk.cov.update(encoder_paths=sum(map(len, edec.values())), decoder_paths=len(dall))
    except Undecided as e:
        proved = False
        und.append(str(e))
    chk.cov.update(instructions_evaluated=ev.steps + ev2.steps + n, functions=[E.step.short, E.frame.short, D.step.short, D.frame.short])
    finish(chk, g, E, D, ei, ep, el, eh, di, low, high, und)
    if proved:
        chk.obligation(True, '', '', 'steps of encoder and decoder are the same function of (low, high, probability)')


def efields(g, C, low, high):
    return dict([(o, g.inp(('efield', o), len(v))) for o, v in C['ei'].items()] + [(C['el'], low), (C['eh'], high)])


def dfields(g, C, low, high, nxt):
    return dict([(o, g.inp(('dfield', o), len(v))) for o, v in C['di'].items()] + [(C['dl'], low), (C['dh'], high), (C['dn'], nxt)])


def eargs(g, E, b, p):
    return [Ptr('coder', g.const(0, 64)), (b,) + (0,) * (width_of(E.step, 1) - 1), p[:width_of(E.step, 2)]]


def width_of(f, k):
    t = f.args[k]['ty']
    return int(t[1:])


def prove(chk, g, edec, dall, el, eh, dl, dh, dn, low, high, nxt, p, E, D, und):
    """structural equality of the value graphs; True when proved"""
    mentions = lambda l: g.rewrite((l,), {}, None, {'next': g.const(0x12345, 32)})[0] != l
    ok = True
    base = {}
    for b in (0, 1):
        for q in edec[b]:
            if q.end == 'return' and not [e for e in q.events if e[0] == 'out']:
                base[b] = (after(q, el), after(q, eh))
    if set(base) != {0, 1}:
        und.append('encoder step has no path without output')
        return False
    (l0, h0), (l1, h1) = base[0], base[1]
    if l1 == low and h0 == high:
        bitone, split = g.ult(h1, nxt) ^ 1, h1
        lower = 1
    elif l0 == low and h1 == high:
        bitone, split = g.ult(h0, nxt), h0
        lower = 0
    else:
        und.append('subranges of the encoder: %s' % g.show(h1))
        return False
    gap = g.diff(l0, h1) if lower == 1 else g.diff(l1, h0)
    if gap is not None and gap != 1:
        chk.obligation(False, 'subranges', '%s (%s): the two subranges do not meet: the upper one starts %d after the end of the lower one' % (E.step.short, E.step.where(), gap))
    ok &= gap == 1
    # paths
    for b in (0, 1):
        ek = {}
        for q in edec[b]:
            ek[frozenset(q.conds)] = q
        dk = {}
        for q in dall:
            r = q.ret[0]
            r = g.rewrite((r,), q.facts)[0]
            if r < 2 and r != b:
                continue
            if r > 1:
                und.append('decoded bit is not determined by the path')
                return False
            cs = frozenset((l, v) for l, v in q.conds if not mentions(l))
            ns = [(l, v) for l, v in q.conds if mentions(l)]
            if ns != [(bitone & ~1, b ^ (bitone & 1))] and ns != [(bitone, b)] and ns != [(bitone ^ 1, b ^ 1)]:
                und.append('decision of the decoder: %s' % ', '.join('%s=%d' % (g.showl(l), v) for l, v in ns))
                return False
            dk[cs] = q
        if set(ek) != set(dk):
            und.append('conditions of the renormalisation differ in form for bit %d' % b)
            return False
        for k, q in ek.items():
            r = dk[k]
            outs, ins = [e[2] for e in q.events if e[0] == 'out'], [e[2] for e in r.events if e[0] == 'in']
            f = q.facts
            same = g.rewrite(after(q, el), f) == g.rewrite(after(r, dl), f) and g.rewrite(after(q, eh), f) == g.rewrite(after(r, dh), f)
            wantn = nxt
            for x in ins:
                wantn = x + wantn[:24]
            if not same or len(outs) != len(ins) or after(r, dn) != wantn:
                und.append('after a renormalisation of %d bytes the states differ in form' % len(outs))
                return False
            # emitted bytes: the leading bytes of the lower end
            lb = base[b][0]
            for n, x in enumerate(outs):
                if g.rewrite(x, f) != g.rewrite(lb[24 - 8 * n:32 - 8 * n], f):
                    und.append('emitted byte differs in form')
                    return False
    # no subrange is ever empty
    e = g.add(split, low, -1)
    at = lambda v, x: g.rewrite(v, {}, None, {'p': g.const(x, 13)})
    a, z = g.diff(at(split, 0), low), g.diff(at(split, SCALE), high)
    if os.environ.get('VERBOSE'): print(a, z, monotone(g, e, p), g.show(e, 9), g.show(at(split, SCALE), 9))
    if a == 0 and z == -1 and monotone(g, e, p):
        chk.obligation(True, '', '', 'low <= split < high for every probability 0..4096: monotone, %s at 0 and high-1 at 4096' % 'low')
    elif z is not None and z > -1 or a is not None and a < 0:
        chk.obligation(False, 'empty', '%s (%s): with probability %d a subrange is empty, so a bit cannot be represented' % (E.step.short, E.step.where(), SCALE if z is not None and z > -1 else 0))
    else:
        und.append('bounds of the split point')
    return ok


def refute(chk, g, E, D, C, und):
    """constant propagation of single states through both steps"""
    global BYTES
    BYTES = 0xA0
    n = skipped = 0
    ev, ev2 = E.evaluator(g), D.evaluator(g)
    ev.max_steps = ev2.max_steps = 3000
    c32 = lambda x: g.const(x, 32)
    try:
        for lo, hi in STATES:
            for pr in PROBS:
                for b in (0, 1):
                    st = 'range [%#x, %#x], probability %d, bit %d' % (lo, hi, pr, b)
                    try:
                        nl, nh, outs, _ = outcome(g, ev, E.step, eargs(g, E, b, c32(pr)), E.memory(g, efields(g, C, c32(lo), c32(hi)), C['ep']), (C['el'], C['eh']), 'out')
                        k = len(outs)
                        if k > 4:
                            raise Undecided('more than four bytes emitted')
                        top = 0
                        for x in outs:
                            top = top << 8 | x
                        a, z = (top << (32 - 8 * k) | nl >> 8 * k), (top << (32 - 8 * k) | nh >> 8 * k)
                        n += 1
                        if not (lo <= a <= z <= hi):
                            chk.obligation(False, 'step:range', '%s (%s): %s leads to the subrange [%#x, %#x], which is not a part of the range' % (E.step.short, E.step.where(), st, a, z))
                            return 0
                        for x in sorted({a, z}):
                            ml, mh, mn, ins, r = outcome(g, ev2, D.step, [Ptr('coder', g.const(0, 64)), g.const(pr, width_of(D.step, 1))],
                                                         D.memory(g, dfields(g, C, c32(lo), c32(hi), c32(x)), C['dp']), (C['dl'], C['dh'], C['dn']), 'in')
                            if r != b:
                                chk.obligation(False, 'step:bit', '%s (%s) decodes %d for the value %#x that %s (%s) may leave for %s' % (
                                    D.step.short, D.step.where(), r, x, E.step.short, E.step.where(), st))
                                return 0
                            if (ml, mh) != (nl, nh) or len(ins) != k:
                                chk.obligation(False, 'step:state', 'after %s: %s (%s) continues with [%#x, %#x] and %d bytes out, %s (%s) with [%#x, %#x] and %d bytes in' % (
                                    st, E.step.short, E.step.where(), nl, nh, k, D.step.short, D.step.where(), ml, mh, len(ins)))
                                return 0
                            want = x
                            for y in ins:
                                want = (want << 8 | y) & M32
                            if mn != want:
                                chk.obligation(False, 'step:next', '%s (%s): after %s the window is %#x instead of %#x' % (D.step.short, D.step.where(), st, mn, want))
                                return 0
                    except Undecided:
                        skipped += 1
    finally:
        BYTES = None
        chk.cov.update(constant_states=n, constant_states_skipped=skipped)
    return ev.steps + ev2.steps


def finish(chk, g, E, D, ei, ep, el, eh, di, low, high, und):
    ev = E.evaluator(g)
    mem = E.memory(g, dict([(o, g.inp(('efield', o), len(v))) for o, v in ei.items()] + [(el, low), (eh, high)]), ep)
    ps = [q for q in ev.paths(E.frame, [Ptr('coder', g.const(0, 64))], mem) if q.end == 'return']
    if len(ps) != 1:
        raise Undecided('end of a sequence')
    q = ps[0]
    outs = [e[2] for e in q.events if e[0] == 'out']
    where = '%s (%s)' % (E.frame.short, E.frame.where())
    chk.obligation(len(outs) == 4, 'finish:bytes', '%s writes %d bytes at the end of a sequence; the decoder has read 4 ahead of it' % (where, len(outs)), 'finish writes the 4 bytes the decoder has looked ahead')
    chk.obligation(g.num(after(q, el)) == 0 and g.num(after(q, eh)) == M32, 'finish:reset', '%s leaves the range [%s, %s] for the next sequence; the decoder starts it with the full range' % (
        where, g.show(after(q, el)), g.show(after(q, eh))), 'both sides start every sequence with the full range')
    if len(outs) == 4:
        v = outs[3] + outs[2] + outs[1] + outs[0]
        if v == low or v == high or all(x in (y, 1) for x, y in zip(v, low)) and v[24:] == low[24:]:
            chk.obligation(True, '', '', 'the value written at the end lies in the range (the leading bytes of low and high differ)')
            return
        for lo, hi in STATES:
            sub = {'low': g.const(lo, 32), 'high': g.const(hi, 32)}
            x = g.num(g.rewrite(v, {}, None, sub))
            if x is not None and not lo <= x <= hi:
                chk.obligation(False, 'finish:value', '%s: for the range [%#x, %#x] the bytes written at the end stand for %#x, outside the range: the last bits are decoded wrongly' % (where, lo, hi, x))
                return
        und.append('value written at the end: %s' % g.show(v))


CHK = report.Check('C15', 'the encoding and decoding steps are turned into value graphs over (low, high, probability) and compared path by path: same subranges, same renormalisation, '
                   'decision of the decoder = membership in the subrange of the encoder, subranges never empty, framing of a sequence (4 bytes of look-ahead, full range); '
                   'where the graphs differ in form, constants at boundary states are propagated through both to find a difference',
                   assumptions=['the invariant that the leading bytes of low and high differ between steps (it is the exit condition of the renormalisation loop)'])
if __name__ == '__main__':
    report.main(run, CHK)
