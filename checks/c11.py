"""C11: the decoder builds what the encoder used, for every choice of entropy coder."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import report, build
from ir import Module, short, AnalysisError, rel
from absint import Interp, Undecided, Stop

PIPE = ['--noassert', '--pass=globaldce,function(sroa,early-cse<memssa>,simplifycfg)']
LETTERS = 'HmMubB'


def one(fs, what):
    if len(fs) != 1:
        raise Undecided('%d functions %s' % (len(fs), what))
    return fs[0]


def find(m, klass, base, n=None):
    return [f for f in m.functions.values() if not f.decl and f.in_repo and f.base == base and (klass is None or f.klass == klass) and (n is None or len(f.args) == n)]


def stream(f, base):
    return f.klass.endswith(('InStream', 'OutStream')) and f.base in base


def vt(I, m, p):
    """class of the object p points to (vtable symbol)"""
    c = [v for v in I.cells.get((p[1], p[2]), {}) if isinstance(v, tuple) and v[0] == 'p' and isinstance(v[1], str) and v[1].startswith('_ZTV')]
    return c[-1][1] if c else None


def cname(m, v):
    return m.globals[v]['dem'].replace('vtable for ', '') if v in m.globals else str(v)


def canon(I, m, p, depth=0):
    """structure of an object: comparable between programs"""
    obj = p[1]
    out = {}
    if depth > 6:
        return ('deep',)
    for (o, off), d in sorted(((k, d) for k, d in I.cells.items() if k[0] == obj), key=lambda x: x[0][1]):
        if off < p[2]:
            continue
        vs = []
        for v in d:
            if isinstance(v, tuple) and v[0] == 'p':
                if isinstance(v[1], str):
                    vs.append(('g', v[1], v[2]))
                elif v[1][0] == 'heap':
                    vs.append(('obj', v[2]) + ((canon(I, m, ('p', v[1], 0), depth + 1),) if v[1] != obj else ()))
            elif isinstance(v, int):
                vs.append(v)
            else:
                vs.append(str(v))
        if off == 0:
            vs = [x for x in vs if isinstance(x, tuple) and x[0] == 'g' and str(x[1]).startswith('_ZTV')][-1:] or vs
        out[off - p[2]] = tuple(sorted(vs, key=str))
    return tuple(sorted(out.items()))


def is_model(m, v):
    """does the vtable belong to a probability model"""
    g = m.globals.get(v)
    return bool(g) and any('probabilityOfOne' in (s or '') for s in g.get('vt', []))


def construct(m, ctor, args, cls, hook=None):
    I = Interp(m, steps=20000000, lenient=True, hook=hook)
    o = I.alloc('obj', cls, None)
    I.size.pop(o)
    I.add_op((('ctor', cls), ctor, (('p', o, 0),) + args))
    I.solve()
    return I, ('p', o, 0)


def coder_cells(I, m, p, base):
    """pointer members of the object p whose class has a virtual function `base`"""
    out = set()
    for (o, off), d in I.cells.items():
        if o == p[1]:
            for v in d:
                if isinstance(v, tuple) and v[0] == 'p' and not isinstance(v[1], str):
                    t = vt(I, m, v)
                    if t and any(('%d%s' % (len(base), base)) in (s or '') for s in m.globals.get(t, {}).get('vt', [])):
                        out.add(v)
    return out


def encoder_side(m, c):
    """-> (byte written first, interp, coder object)"""
    ctor = [f for f in find(m, None, 'Compressor') if f.klass.endswith('Compressor') and f.args and f.args[-1]['ty'] == 'i8']
    ctor = sorted(ctor, key=lambda f: f.name)
    if not ctor:
        raise Undecided('no Compressor constructor with a coder letter')
    out = []
    go = one([f for f in find(m, None, 'compress', 2) if f.klass.endswith('Compressor')], 'Compressor::compress')
    res = None
    for k in ctor:
        first = []
        state = {}

        def hook(I, i, g, args):
            if stream(g, ('writeByte', 'writeBit', 'writeBlock', 'write48bits')):
                if I.op[0][0] == 'go':
                    first.append((g.base, args[1] if len(args) > 1 else None, i))
                    raise Stop
                return (None,)
            if g.klass.endswith(('InStream', 'OutStream')) and g.base not in ('InStream', 'OutStream', 'RawInStream', 'RawOutStream') and not g.klass.endswith('::' + g.base):
                return (None,)
            return None
        a = tuple(None for _ in k.args[1:-1]) + (ord(c),)
        I, p = construct(m, k, a, 'Compressor', hook)
        cs = coder_cells(I, m, p, 'transformAndEncode')
        coder = one(sorted(cs, key=str), 'coders built')
        I.add_op((('go', c), go, (p, 1)))
        I.solve()
        if not first:
            raise Undecided('no write found')
        for b, v, i in first:
            if not isinstance(v, int) or b != 'writeByte':
                raise Undecided('first write at %s' % i.where())
        out.append((sorted({v for _, v, _ in first}), first[0][2], I, coder))
    return out


def decoder_side(m, c):
    ctor = [f for f in find(m, None, 'Decompressor') if f.klass.endswith('Decompressor')]
    if not ctor:
        raise Undecided('no Decompressor constructor')
    go = one([f for f in find(m, None, 'decompress', 2) if f.klass.endswith('Decompressor')], 'Decompressor::decompress')
    out = []
    for k in ctor:
        reads = []

        def hook(I, i, g, args):
            if g.klass.endswith('InStream') and I.op[0][0] == 'go':
                if g.base in ('readByte', 'needByte', 'fetchByte'):
                    I.nread = getattr(I, 'nread', {})
                    n = I.nread.get(I.runs, 0)
                    I.nread[I.runs] = n + 1
                    if n == 0:
                        reads.append(i)
                        return (ord(c),)
                # the next read: what has been stored so far counts
                for (o, off), (sz, v) in I.over.items():
                    I.join(I.cell(o, off), sz, v)
                raise Stop
            if g.klass.endswith(('InStream', 'OutStream')) and g.base not in ('InStream', 'OutStream', 'RawInStream', 'RawOutStream') and not g.klass.endswith('::' + g.base):
                return (None,)
            return None
        I, p = construct(m, k, tuple(None for _ in k.args[1:]), 'Decompressor', hook)
        I.add_op((('go', c), go, (p, 1)))
        I.solve()
        if not reads:
            raise Undecided('no read of the header')
        cs = coder_cells(I, m, p, 'decodeBlock')
        out.append((one(sorted(cs, key=str), 'decoders built'), I, reads[0]))
    return out


def roles(m, cls, callee):
    """offsets of the model members in the order in which they are handed to `callee`"""
    out = set()
    for f in m.functions.values():
        if f.decl or f.klass != cls:
            continue
        for i in f.calls():
            g = m.functions.get(i.callee)
            if g is None or g.base != callee:
                continue
            offs = []
            for a in i['args']:
                d = f.defs.get(a) if isinstance(a, int) else None
                if d is not None and d.op == 'load':
                    p = d['ptr']
                    q = f.defs.get(p) if isinstance(p, int) else None
                    if q is not None and q.op == 'getelementptr' and q['ptr'] == 0 and not q.get('var'):
                        offs.append(q['off'])
            out.add((tuple(offs), i.where()))
    return out


def models(I, m, p, offs):
    r = {}
    for (o, off), d in I.cells.items():
        if o == p[1]:
            for v in d:
                if isinstance(v, tuple) and v[0] == 'p' and not isinstance(v[1], str) and is_model(m, vt(I, m, v)):
                    r.setdefault(off, []).append(v)
    if offs:
        return [r.get(o) for o in offs if o in r]
    return [r[o] for o in sorted(r)]


def reset_effect(I, m, p, cls, mods):
    """values that ending a context stores into the models, by role"""
    fs = [f for f in m.functions.values() if not f.decl and f.klass == cls and f.base == 'endContextBlock']
    if len(fs) != 1:
        return None
    got = []

    def hook(I2, i, g, args):
        if g.klass.endswith(('BitEncoder', 'BitDecoder', 'InStream', 'OutStream')):
            return (None,)
        return None
    I.hook = hook
    I.leaf = lambda op, r, I2: got.append(dict(I2.over)) if op[0][0] == 'end' else None
    I.add_op((('end', cls), fs[0], (p,)))
    I.solve()
    out = []
    for k, v in enumerate(mods):
        objs, q = [], [v[1]]
        while q:
            o = q.pop(0)
            if o in objs:
                continue
            objs.append(o)
            for (a, off), d in sorted(I.cells.items(), key=str):
                if a == o:
                    q += [x[1] for x in d if isinstance(x, tuple) and x[0] == 'p' and not isinstance(x[1], str)]
        w = set()
        for over in got:
            for (o, off), (sz, x) in over.items():
                if o in objs and isinstance(x, int):
                    w.add((objs.index(o), off if isinstance(off, int) else str(off), x))
        out.append(frozenset(w))
    return out


def command_line(chk, m, und):
    """the letter given on the command line reaches the Compressor unchanged"""
    import c16
    seen = m.reachable([m.main()])
    n = 0
    for f, call, name, sem, text in c16.options(m, seen):
        if not (name or '').startswith('enc'):
            continue
        st, vals, ok = c16.resolve(m, f, sem)
        if not st or st[0] is not f or not isinstance(st[1], int):
            und.append('storage of the option ' + name)
            continue
        for i in f.calls():
            g = m.functions.get(i.callee)
            if g is None or g.base != 'Compressor' or not g.klass.endswith('Compressor') or not g.args or g.args[-1]['ty'] != 'i8':
                continue
            a = i['args'][-1]
            d = f.defs.get(a) if isinstance(a, int) else None
            if d is not None and d.op == 'load' and d['ptr'] == st[1]:
                stores = [u for u in f.users[st[1]] if u.op == 'store' and u['ptr'] == st[1] and not f.dominates(u, call)]
                n += 1
                chk.obligation(not stores, 'main:enc', 'compress: the entropy coder chosen on the command line is overwritten at %s' % (stores and stores[0].where()),
                               'the option %s reaches the Compressor at %s unchanged' % (name, i.where()))
            elif 'c' in a if isinstance(a, dict) else d is not None and d.op == 'load' and f.defs.get(d['ptr']) is not None and f.defs[d['ptr']].op == 'alloca':
                n += 1
                chk.obligation(False, 'main:enc', 'compress: the Compressor at %s is not given the entropy coder chosen on the command line' % i.where())
            else:
                und.append('coder letter at ' + i.where())
    if not n:
        und.append('use of the option enc')


def run(chk):
    mc, mu = Module('compress', opts=PIPE), Module('uncompress', opts=PIPE)
    und, nm = [], 0
    command_line(chk, mc, und)
    for c in LETTERS:
        try:
            encs = encoder_side(mc, c)
            decs = decoder_side(mu, c)
        except Undecided as e:
            und.append("'%s': %s" % (c, e))
            continue
        for bytes_, i, I, enc in encs:
            chk.obligation(bytes_ == [ord(c)], 'header:' + c, "with -e %s the header written at %s is %s instead of the letter '%s'" % (
                c, i.where(), ', '.join(repr(chr(b)) for b in bytes_), c), "header byte of '%s' is written at %s" % (c, i.where()))
            et = vt(I, mc, enc)
            for dec, J, rd in decs:
                dt = vt(J, mu, dec)
                en, dn = cname(mc, et), cname(mu, dt)
                if en.endswith('Encoder') and dn.endswith('Decoder'):
                    if not chk.obligation(en[:-7] == dn[:-7], 'class:' + c, "the letter '%s' makes compress use %s and uncompress (header read at %s) use %s" % (c, en, rd.where(), dn),
                                          "'%s': %s and %s" % (c, en, dn)):
                        continue
                er, dr = roles(mc, en, 'encodeTreeBF'), roles(mu, dn, 'decodeTreeBF')
                eo, do = (er.pop()[0] if len(er) == 1 else ()), (dr.pop()[0] if len(dr) == 1 else ())
                em, dm = models(I, mc, enc, eo), models(J, mu, dec, do)
                if not em and not dm:
                    continue
                if not chk.obligation(len(em) == len(dm), 'models:' + c, "'%s': %s has %d probability models, %s has %d" % (c, en, len(em), dn, len(dm))):
                    continue
                flat = []
                for k, (a, b) in enumerate(zip(em, dm)):
                    if len(a) != 1 or len(b) != 1:
                        und.append("'%s': model %d is not unique" % (c, k))
                        continue
                    a, b = a[0], b[0]
                    nm += 1
                    ca, cb = vt(I, mc, a), vt(J, mu, b)
                    if chk.obligation(ca == cb, 'model:%s:%d' % (c, k), "with -e %s, %s predicts with %s where %s predicts with %s (model %d of the tree coder)" % (
                            c, en, cname(mc, ca), dn, cname(mu, cb), k + 1), "'%s' model %d: %s on both sides" % (c, k + 1, cname(mc, ca))):
                        flat.append((k, a, b))
                        chk.obligation(canon(I, mc, a) == canon(J, mu, b), 'state:%s:%d' % (c, k),
                                       "with -e %s, model %d (%s) starts in different states in %s and %s" % (c, k + 1, cname(mc, ca), en, dn),
                                       "'%s' model %d: equal initial state" % (c, k + 1))
                try:
                    ra = reset_effect(I, mc, enc, en, [a for _, a, _ in flat])
                    rb = reset_effect(J, mu, dec, dn, [b for _, _, b in flat])
                except Undecided as e:
                    ra = rb = None
                if ra is None or rb is None:
                    und.append("'%s': end of context" % c)
                    continue
                for (k, a, b), x, y in zip(flat, ra, rb):
                    chk.obligation(x == y, 'reset:%s:%d' % (c, k), "with -e %s, ending a context resets model %d (%s) differently in %s and %s" % (c, k + 1, cname(mc, vt(I, mc, a)), en, dn),
                                   "'%s' model %d: reset alike (%d stores)" % (c, k + 1, len(x)))
    chk.cov.update(letters=len(LETTERS), models_compared=nm, undecided=und)


CHK = report.Check('C11', 'for each letter, what the Compressor constructor builds and compress() writes first, and what decompress() builds after reading that byte, '
                   'are evaluated with constant propagation; header byte, coder classes, model classes by role, initial model states and resets must agree',
                   assumptions=['calls whose effect is unknown do not change the coder and model objects'])
if __name__ == '__main__':
    report.main(run, CHK)
