"""C stdio for value-graph evaluation of the stream classes.

Every call succeeds (failures are the business of C05) and leaves an event:
  fwrite ptr bytes | fputc value | fflush | ftell name | fseek off whence | fclose | fread ptr max count
"""
from vg import Ptr, Stop, Undecided, width, isint

STRING = ('basic_string', 'NSt7__cxx11', '_ZStne', '_ZSteq', '_ZStpl', '_ZNSaIc', '_ZNKSaIc', 'allocator')


def hook(ev, i, c, fn, a):
    g = ev.g
    if fn is not None and not fn.decl and fn.in_repo:
        return None
    if any(s in c for s in STRING):
        t = i.get('ty', 'void')
        if i.id is None or t == 'void':
            return (None,)
        return (Ptr('text', g.const(0, 64)) if t == 'ptr' else g.fresh(width(t)),)
    if c in ('fopen', 'fopen64', 'fdopen', 'freopen'):
        return (Ptr('FILE', g.const(0, 64)),)
    if c in ('fwrite', 'fwrite_unlocked'):
        n = g.mul(a[1], a[2])
        by = ()
        if isinstance(a[0], Ptr) and 'stack' in a[0].obj and 0 < (g.num(n) or 0) <= 16:
            by = tuple(ev.load(Ptr(a[0].obj, g.add(a[0].off, g.const(k, 64))), 1, 8) for k in range(g.num(n)))
        ev.event('fwrite', i, a[0], n)
        ev.events[-1] += (by,)
        return (a[2],)
    if c in ('fputc', 'putc', '_IO_putc', 'fputc_unlocked', 'putc_unlocked'):
        ev.event('fputc', i, a[0][:8])
        return (a[0][:8] + (0,) * 24,)
    if c in ('fflush', 'fflush_unlocked'):
        ev.event('fflush', i)
        return (g.const(0, 32),)
    if c in ('ftell', 'ftello', 'ftello64'):
        n = ev.st['ftell'] = ev.st.get('ftell', 0) + 1
        v = g.inp((ev.tag, 'ftell', n), 64)[:62] + (0, 0)
        ev.event('ftell', i, v)
        return (v,)
    if c in ('fseek', 'fseeko', 'fseeko64'):
        ev.event('fseek', i, a[1], a[2])
        return (g.const(0, 32),)
    if c == 'rewind':
        ev.event('fseek', i, g.const(0, 64), g.const(0, 32))
        return (None,)
    if c == 'fclose':
        ev.event('fclose', i)
        return (g.const(0, 32),)
    if c in ('ferror', 'ferror_unlocked'):
        return (g.const(0, 32),)
    if c in ('setvbuf', 'setbuf', 'fileno', 'fsync', 'clearerr'):
        ev.event(c, i)
        return (g.const(0, 32) if i.id is not None and i.get('ty') != 'void' else None,)
    if c in ('fread', 'fread_unlocked'):
        return (ev.fread(i, a),)
    if c in ('fgetc', 'getc', '_IO_getc', 'fgetc_unlocked', 'getc_unlocked'):
        return (ev.fgetc(i),)
    if c in ('feof', 'feof_unlocked'):
        return (ev.feof(i),)
    if c in ('perror', 'fprintf', 'fputs', '__errno_location', 'strerror'):
        t = i.get('ty', 'void')
        return (None if i.id is None or t == 'void' else Ptr('text', g.const(0, 64)) if t == 'ptr' else g.fresh(width(t)),)
    return None


def changed(a, b, obj):
    """fields of obj that differ between two memories -> {offset: (before, after)}"""
    r = {}
    for (o, k), (v, j) in b.items():
        if o == obj and j == 0 and a.get((o, k), (None,))[0] != v:
            r[k] = (a.get((o, k), (None,))[0], v)
    return r
