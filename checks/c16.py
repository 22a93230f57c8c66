"""C16: wrong options are rejected before anything is opened; exactly the documented values are accepted."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import report, build
from ir import Module, short
from fault import Fault, trail_text, opw
from order import unpreceded
from c05 import PIPE, OPEN, nonzero

PO = 'boost::program_options::'


def dem(m, i):
    c = i.callee
    return m.functions[c].dem if c in m.functions else (c or '')


def text(m, o):
    g = o.get('g') if isinstance(o, dict) else None
    d = (m.globals.get(g) or {}).get('init', {}) if g else {}
    if isinstance(d, dict) and (d.get('zero') or d.get('c') == '0'):
        return ''
    return bytes(d['data']).split(b'\0')[0].decode('latin1') if isinstance(d, dict) and 'data' in d else None


def options(m, seen):
    """(function, call, name, semantic operand, description) for every option with a value"""
    for f in seen:
        if f.decl or not f.in_repo:
            continue
        for i in f.calls():
            d = dem(m, i)
            if d.startswith(PO + 'options_description_easy_init::operator()') and len(i['args']) >= 4:
                yield f, i, text(m, i['args'][1]), i['args'][2], text(m, i['args'][3])


def resolve(m, f, o, depth=0):
    """chain of typed_value calls behind a semantic operand -> (storage (f, operand) or None, [validator functions], complete)"""
    store, vals, ok = None, [], True
    while isinstance(o, int) and depth < 20:
        depth += 1
        d = f.defs.get(o)
        if d is None or not d.is_call:
            return store, vals, False
        n = dem(m, d)
        if '::notifier(' in n:
            v = functor(m, f, d['args'][1])
            if v is None:
                ok = False
            else:
                vals.append(v)
            o = d['args'][0]
        elif re.search(r'program_options::value<', n):
            return (f, d['args'][0]), vals, ok
        elif PO + 'typed_value' in n:
            o = d['args'][0]
        else:
            t = m.functions.get(d.callee)
            if t is not None and not t.decl and t.in_repo:
                rets = {repr(i.operands()[0]): i.operands()[0] for i in t.insts() if i.op == 'ret' and i.operands()}
                if len(rets) == 1:
                    st, v, k = resolve(m, t, list(rets.values())[0], depth)
                    if st is not None and st[0] is t and isinstance(st[1], int) and st[1] < len(t.args):
                        st = (f, d['args'][st[1]])
                    return st, vals + v, ok and k
            return store, vals, False
    return store, vals, False


def functor(m, f, o):
    """function wrapped in the boost::function object at operand o"""
    for u in f.users.get(o, []):
        if u.is_call and u['args'] and u['args'][0] == o:
            n = dem(m, u)
            if re.match(r'boost::function1?<.*>::function1?<', n) and len(u['args']) > 1:
                a = u['args'][1]
                if isinstance(a, dict) and a.get('g') in m.functions:
                    return m.functions[a['g']]
                k = re.search(r'::function1?<(.*?\{lambda.*?\}|[^<>]*\$_\d+)>\(', n)
                if k:
                    for g in m.functions.values():
                        if g.dem.startswith(k.group(1) + '::operator()') and not g.decl:
                            return g
    return None


def arg_index(v):
    return 1 if v.base == 'operator()' else 0


def run(chk):
    parsed = letters = 0
    for prog in build.PROGRAMS:
        m = Module(prog, opts=PIPE)
        seen = m.reachable([m.main()])
        # validators are called by the library: keep them (and what they call) in the analysed set
        opts = list(options(m, seen))
        # (A) a rejected command line
        F = Fault(m, seen, {}, watch=OPEN)
        n = 0
        parse = ('store', 'notify', 'run')
        for f in seen:
            if f.decl or not f.in_repo:
                continue
            for i in f.calls():
                d = dem(m, i)
                if not (PO in d.split('(')[0] and any(('::' + p + '(') in d or d.endswith('::' + p) for p in parse)):
                    continue
                n += 1
                ends = F.fates(i, None, throw=True)
                bad = [e for e in ends if e[0] == 'event' or (e[0] in ('exit', 'return') and not nonzero(e[1]))]
                chk.obligation(not bad, '%s:reject:%s' % (prog, d.split('(')[0]),
                               '%s: after the command line was rejected at %s the program can %s: %s' % (
                                   prog, i.where(), 'open a file (%s)' % bad[0][3] if bad and bad[0][0] == 'event' else 'end with a zero status',
                                   trail_text(bad[0][2]) if bad else ''),
                               '%s: a command line rejected at %s leads to a nonzero status and no file is opened' % (prog, i.where()))
        chk.need(n, 2, 'command line parsing calls in ' + prog)
        parsed += n
        # (A2) nothing is opened before the options have been validated
        isn = lambda i: (PO + 'notify(') in dem(m, i)
        for i, tr in unpreceded(m, seen, m.main(), isn, lambda i: i.callee in OPEN):
            chk.obligation(False, '%s:early open' % prog, '%s: a file is opened at %s before the options are validated (%s)' % (prog, i.where(), trail_text(tr)))
        chk.obligation(True, '', '', '%s: every file is opened after the options have been validated' % prog)
        chk.cov['states_explored'] = chk.cov.get('states_explored', 0) + F.explored
        # (A3) unknown options are not let through
        loose = [i for f in seen if not f.decl and f.in_repo for i in f.calls() if PO in dem(m, i) and '::allow_unregistered(' in dem(m, i)]
        gathered = any(PO in f.dem and 'collect_unrecognized' in f.dem for f in seen)
        for i in loose if not gathered else ():
            chk.obligation(False, '%s:unregistered' % prog, '%s: options the program does not know are accepted (%s)' % (prog, i.where()))
        # (B) accepted values
        und = []
        for f, call, name, sem, desc in opts:
            if name is None:
                continue
            doc = set(re.findall(r'^ +(\S) -- ', desc or '', re.M))
            st, vals, ok = resolve(m, f, sem)
            lname = name.split(',')[0]
            if lname == 'starts':
                rng = set(range(1, 257))
                cand = {0, 1, 2, 8, 128, 255, 256, 257, 258, 512, 65535, 65536, 65537, 1 << 31, (1 << 32) - 1, (1 << 32) - 8, 1 << 8, 1000}
                okv = lambda v: 1 <= v <= 256
                w = 32
            elif doc:
                cand, okv, w = set(range(256)), (lambda v: chr(v) in doc), 8
            else:
                continue
            letters += 1
            if not ok or st is None:
                und.append(name)
                continue
            decide(chk, m, seen, prog, f, lname, st, vals, cand, okv, w)
        if und:
            chk.cov.setdefault('undecided_options', []).extend('%s:%s' % (prog, u) for u in und)
    chk.need(letters, 5, 'options with a documented value set')
    chk.cov.update(parsing_calls=parsed, documented_options=letters, programs=len(build.PROGRAMS))


def string_loads(m, v):
    """the loads of a character of the string argument in validator v (direct ones)"""
    return [i for i in v.insts() if i.op == 'load' and i.get('ty') == 'i8']


def decide(chk, m, seen, prog, f, name, st, vals, cand, okv, w):
    allf = set(seen)
    q = list(vals)
    while q:                                   # validators and their callees
        t = q.pop()
        if t in allf and t not in vals:
            continue
        allf.add(t)
        if not t.decl:
            for i in t.calls():
                for x in m.call_targets(i, m.live_vt):
                    if x is not None and x not in allf:
                        q.append(x)
    F = Fault(m, allf, {}, watch=OPEN)
    F.track_args = F.track_locals = True
    consts = set()
    for v in vals:
        for g in [v] + [t for i in v.calls() for t in m.call_targets(i, m.live_vt) if t is not None and not t.decl and t.in_repo]:
            for i in g.insts():
                if i.op == 'icmp':
                    for o in i['ops']:
                        if isinstance(o, dict) and 'c' in o and w > 8:
                            c = int(o['c'])
                            consts |= {c, (c - 1) & 0xffffffff, (c + 1) & 0xffffffff}
    cand = cand | consts
    stringy = bool(vals) and any(is_string(v) for v in vals)
    key = F.field(*st)
    wrong_acc, wrong_rej, at = [], [], {}
    if stringy:
        for v in vals:
            if not is_string(v):
                return
            ld = string_loads(m, v)
            if len(ld) != 1 or not per_char_loop(chk, m, prog, name, v, ld[0]):
                chk.cov.setdefault('undecided_options', []).append('%s:%s' % (prog, name))
                return
    notified = [i for g in allf if not g.decl and g.in_repo for i in g.calls() if (PO + 'notify(') in dem(m, i)]
    for c in sorted(cand):
        rej = acc = False
        for v in vals:
            F.memo.clear()
            F.bind = {}
            if stringy:
                ld = string_loads(m, v)[0]
                F.bind = {ld: c}
                o = F.after(ld, c)
            else:
                k = arg_index(v)
                if k >= len(v.args):
                    return
                if v.args[k]['ty'] == 'ptr':
                    o = F.outcomes(v, frozenset({(('P', v.name, k), c)}))
                else:
                    F.interesting.add(v)
                    o = F.outcomes(v, frozenset(), ((k, c),))
            kinds = {x[0] for x in o}
            if 'ret' not in kinds:
                rej = True
            elif len(kinds) > 1:
                acc = True                     # both possible: the analysis does not know
            F.bind = {}
        if acc and not rej and stringy:
            # does the position of the character decide?
            for v in vals:
                ld = string_loads(m, v)[0]
                idx = v.defs[ld['ptr']]['args'][1]
                ph = v.defs.get(idx)
                ph = v.defs[ph['ops'][0]] if ph is not None and ph.op in ('sext', 'zext') else ph
                for k in (0, 1, 2, 3, 7, 255):
                    F.memo.clear()
                    F.bind = {ld: c, ph: k}
                    if {x[0] for x in F.after(ld, c)} == {'ret'} and not okv(c):
                        at.setdefault(k, []).append(c)
                F.bind = {}
            if at:
                continue
        if acc and not rej:
            chk.cov.setdefault('undecided_options', []).append('%s:%s' % (prog, name))
            return
        if not rej and not okv(c):
            # not rejected by a validator: by main itself?
            ends = []
            if key is not None and not stringy:
                for nt in notified:
                    F.memo.clear()
                    ends += fates_with(F, nt, {(key, c)})
            if not ends or any(e[0] == 'event' or (e[0] in ('exit', 'return') and not nonzero(e[1])) for e in ends):
                wrong_acc.append(c)
        if rej and okv(c):
            wrong_rej.append(c)
    for k, cs in sorted(at.items())[:3]:
        wrong_acc += [c for c in cs if c not in wrong_acc]
    sh = (lambda c: repr(chr(c))) if w == 8 else str
    chk.obligation(not wrong_acc, '%s:%s:accepts' % (prog, name),
                   '%s: option --%s accepts undocumented value(s) %s (validated by %s)' % (
                       prog, name, ', '.join(map(sh, wrong_acc[:8])), ', '.join('%s at %s' % (short(v.dem), v.where()) for v in vals) or 'nothing'),
                   '%s: option --%s: all %d undocumented values are rejected' % (prog, name, sum(not okv(c) for c in cand)))
    chk.obligation(not wrong_rej, '%s:%s:rejects' % (prog, name),
                   '%s: option --%s rejects documented value(s) %s' % (prog, name, ', '.join(map(sh, wrong_rej[:8]))),
                   '%s: option --%s: all documented values (%s) are accepted' % (prog, name, ', '.join(sh(c) for c in sorted(cand) if okv(c))[:80]))
    chk.cov['values_evaluated'] = chk.cov.get('values_evaluated', 0) + len(cand)


def fates_with(F, site, facts):
    """ends of the program after `site` returned normally with the given storage facts"""
    ends, seen, q = [], set(), [(site, None, frozenset(facts), (site,))]
    while q:
        inst, val, fa, tr = q.pop()
        if (inst, repr(val), fa) in seen:
            continue
        seen.add((inst, repr(val), fa))
        for o in F.after(inst, val, fa):
            if o[0] in ('exit', 'event'):
                ends.append((o[0], o[1], tr, ''))
            elif inst.fn.name == 'main':
                ends.append(('uncaught' if o[0] == 'throw' else 'return', o[1] if o[0] == 'ret' else None, tr))
            elif o[0] == 'ret':
                for c in F.callers[inst.fn]:
                    q.append((c, o[1], o[2], tr + (c,)))
    return ends


def is_string(v):
    return 'basic_string' in v.dem or 'std::string' in v.dem


def per_char_loop(chk, m, prog, name, v, ld):
    """the load is p[i] in a loop over i = 0 .. size-1; False: form not recognised.  Reports loops that leave characters out."""
    d = v.defs.get(ld['ptr']) if isinstance(ld['ptr'], int) else None
    if d is None or not d.is_call or len(d['args']) < 2:
        return False
    idx = d['args'][1]
    ph = v.defs.get(idx) if isinstance(idx, int) else None
    if ph is not None and ph.op in ('sext', 'zext'):
        ph = v.defs.get(ph['ops'][0]) if isinstance(ph['ops'][0], int) else None
    bad = None
    if ph is None or ph.op != 'phi':
        if isinstance(idx, dict):
            bad = 'only the character at position %s is looked at' % idx.get('c')
        else:
            return False
    else:
        steps = []
        for val, b in ph['in']:
            if isinstance(val, dict):
                if int(val.get('c', 0)) != 0:
                    bad = 'the loop starts at character %s' % val['c']
            else:
                s = v.defs.get(val)
                if s is None or s.op != 'add' or ph.id not in s['ops']:
                    return False
                k = [o for o in s['ops'] if isinstance(o, dict)]
                if not k:
                    return False
                if int(k[0]['c']) != 1:
                    bad = 'the loop skips characters'
        # the loop test
        def offset(o, depth=0):
            """k when o is the index plus k"""
            if o == ph.id:
                return 0
            e = v.defs.get(o) if isinstance(o, int) else None
            if e is None or depth > 4:
                return None
            if e.op in ('sext', 'zext', 'trunc'):
                return offset(e['ops'][0], depth + 1)
            if e.op == 'add' and isinstance(e['ops'][1], dict) and 's' in e['ops'][1]:
                k = offset(e['ops'][0], depth + 1)
                return None if k is None else k + int(e['ops'][1]['s'])
            return None
        tests = [u for u in v.insts() if u.op == 'icmp' and any(offset(x) is not None for x in u['ops'])]
        if len(tests) > 1:                     # a test of the position that does not end the loop
            tests = [t for t in tests if not any(isinstance(x, dict) for x in t['ops'])]
        if len(tests) != 1:
            return False
        t = tests[0]
        k = [offset(x) for x in t['ops'] if offset(x) is not None][0]
        o = [x for x in t['ops'] if offset(x) is None]
        if not o or t['pred'] not in ('ult', 'ugt', 'ne', 'eq', 'uge', 'ule', 'slt', 'sgt'):
            return False
        if k != 0:
            if not v.dominates(t, ld):
                return False
            bad = bad or 'the last character is left out'
        s = v.defs.get(o[0]) if o and isinstance(o[0], int) else None
        if o and isinstance(o[0], dict):
            bad = bad or 'the loop looks at %s characters at most' % o[0].get('c')
        elif s is None:
            return False
        elif s.is_call and re.search(r'::(size|length)\(', dem(m, s)):
            pass
        elif s.op in ('add', 'sub') and isinstance(s['ops'][1], dict):
            bad = bad or 'the loop ends before the last character'
        else:
            return False
        if bad is None:
            # leaving the function normally only through the loop test
            br = [u for u in v.users[t.id] if u.op == 'br']
            if len(br) != 1:
                return False
            reach = v.reach(ld.bb.id, avoid={br[0].bb.id})
            if br[0].bb.id != ld.bb.id and any(v.block(b).term.op == 'ret' for b in reach):
                bad = 'the loop is left before all characters have been looked at'
    if bad:
        chk.obligation(False, '%s:%s:loop' % (prog, name), '%s: option --%s is not validated completely: %s (%s)' % (prog, name, bad, ld.where()))
    return True


CHK = report.Check('C16', 'error-propagation analysis from a throwing option parser (nonzero status, no file opened), must-precede analysis '
                   '(validation before any open), and constant propagation of every possible option value through the validators compared '
                   'with the values documented in the help text',
                   assumptions=['boost::program_options throws on malformed command lines and calls the notifier of every option that has a value'])
if __name__ == '__main__':
    report.main(run, CHK)
