"""Byte-stream semantics for value-graph evaluation.

OutStream: writeByte and writeBlock append, getPos names the position, write48bits is recorded with its position.
InStream: readBit takes bits most significant first, readByte takes the next eight bits, flushBuffer drops the rest of a started byte.
"""
from vg import Ptr, Stop, Undecided


def cls(f):
    return f.klass.split('::')[-1] if f is not None else ''


def vtable(m, name):
    v = [n for n, G in m.globals.items() if 'vt' in G and (G.get('dem') or '').endswith('::' + name)]
    if len(v) != 1:
        raise Undecided('class %s' % name)
    return v[0]


def stream(m, g, kind, obj):
    """memory of a stream object of the program's own stream class"""
    p = Ptr(vtable(m, kind), g.const(16, 64))
    return {(obj, j): (p, j) for j in range(8)}


def hook(ev, i, c, fn, a):
    k = cls(fn)
    b = fn.base if fn is not None else ''
    g = ev.g
    st = ev.st
    if k in ('OutStream', 'RawOutStream'):
        if b == 'writeByte':
            st['out'] = st.get('out', ()) + (a[1][:8],)
            return (None,)
        if b == 'writeBlock':
            p, q = a[1], a[2]
            n = g.num(g.add(q.off, p.off, -1)) if isinstance(p, Ptr) and isinstance(q, Ptr) and p.obj == q.obj else None
            if n is None or n > 1 << 16:
                raise Undecided('block written at %s' % i.where())
            st['out'] = st.get('out', ()) + tuple(ev.load(Ptr(p.obj, g.add(p.off, g.const(j, 64))), 1, 8) for j in range(n))
            return (None,)
        if b == 'getPos':
            v = g.inp(('pos', len(st.get('out', ()))), 64)
            return (v,)
        if b == 'write48bits':
            st['w48'] = st.get('w48', ()) + ((a[1], a[2], len(st.get('out', ()))),)
            return (None,)
        if b == 'flush':
            return (None,)
        raise Undecided('%s at %s' % (fn.short, i.where()))
    if k in ('InStream', 'RawInStream'):
        if b == 'readByte':
            return (take(ev, 8),)
        if b == 'readBit':
            return (take(ev, 1),)
        if b == 'read48bits':
            v = ()
            for _ in range(6):
                v = take(ev, 8) + v
            return (v + (0,) * 16,)
        if b == 'flushBuffer':
            st['rest'] = ()
            return (None,)
        raise Undecided('%s at %s' % (fn.short, i.where()))
    return None


def take(ev, n):
    """the next n bits of the input, as a value"""
    st = ev.st
    rest = st.get('rest', ())          # bits left of a started byte, most significant first
    while len(rest) < n:
        s = st['in']
        if st.get('pos', 0) >= len(s):
            raise Stop('end of input')
        b = s[st.get('pos', 0)]
        st['pos'] = st.get('pos', 0) + 1
        rest = rest + b[::-1]
    st['rest'] = rest[n:]
    return rest[:n][::-1]
