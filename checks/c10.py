"""C10: probabilities stay in range and models inside their tables, whatever bits are coded."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import report, build
from ir import Module, short, AnalysisError, rel
from absint import Interp, Undecided

PIPE = ['--noassert', '--pass=globaldce,function(sroa,early-cse<memssa>,simplifycfg)']
LETTERS = 'mMubB'
SCALE = 4096


def factories(m):
    """functions that hand out probability models: (description, function, arguments)"""
    out = []
    for f in sorted(m.functions.values(), key=lambda f: f.name):
        if f.decl or not f.in_repo:
            continue
        if f.base == 'giveProbabilityModel' and len(f.args) == 1:
            out += [("model '%s'" % c, f, (ord(c),)) for c in LETTERS]
        elif f.base in ('giveModelForIntegerCodes', 'giveModelForGaps') and not f.args:
            out.append(('model for integer codes' if 'Integer' in f.base else 'model for gaps', f, ()))
    return out


def build_model(m, I, what, f, args):
    """evaluate the factory -> object of the model"""
    res = set()
    I.leaf = lambda op, r, I: res.add(r)
    I.add_op((('new', what), f, args))
    I.solve()
    I.leaf = None
    if len(res) != 1:
        raise Undecided('%s: %d results' % (what, len(res)))
    p = res.pop()
    if not (isinstance(p, tuple) and p[0] == 'p' and p[2] == 0):
        raise Undecided('%s: not an object' % what)
    return p


def methods(m, I, p):
    vt = list(I.cells.get((p[1], p[2]), {}))
    vt = [v for v in vt if isinstance(v, tuple) and v[0] == 'p' and v[1] in m.globals and 'vt' in m.globals[v[1]]]
    if len(vt) != 1:
        raise Undecided('class of the model')
    out = {}
    for s in m.globals[vt[0][1]]['vt'][vt[0][2] // 8:]:
        f = m.functions.get(m.aliases.get(s, s)) if s else None
        if f is not None and not f.decl:
            out.setdefault(f.base, f)
    return out, vt[0][1]


def run(chk):
    m = Module('compress', opts=PIPE)
    facs = factories(m)
    chk.need(len(facs), 7, 'model factories')
    und, states, runs, steps, cells = [], 0, 0, 0, 0
    for what, f, args in facs:
        I = Interp(m, steps=60000000)
        probs, bad, ms, vt = {}, {}, {}, None
        try:
            p = build_model(m, I, what, f, args)
            ms, vt = methods(m, I, p)
            unknown = []

            def leaf(op, r, I):
                if op[0][0] == 'prob':
                    if isinstance(r, int):
                        probs[r] = 1
                        if r > SCALE:
                            bad.setdefault(op[1], r)
                    elif isinstance(r, tuple) and r[0] == 'iv' and r[2] <= SCALE:
                        probs[r] = 1
                    else:
                        unknown.append(r)
            I.leaf = leaf
            for name in ('update', 'updateState', 'resetModel', 'probabilityOfOne'):
                if name not in ms:
                    if name in ('update', 'probabilityOfOne'):
                        raise Undecided('%s has no %s' % (what, name))
                    continue
                g = ms[name]
                for bit in ((0, 1) if len(g.args) == 2 else (None,)):
                    I.add_op((('prob' if name == 'probabilityOfOne' else 'op', what, name, bit), g, (p,) + ((bit,) if bit is not None else ())))
            I.solve()
            if unknown and not bad:
                raise Undecided('unknown probability')
            if not probs and not bad:
                raise Undecided('%s: no probability evaluated' % what)
        except Undecided as e:
            und.append('%s: %s' % (what, e))
            if not I.events and not bad:
                continue
        if os.environ.get('VERBOSE'): print(what, I.runs, I.steps, len(I.cells), __import__('time').time() - chk.t0)
        runs += I.runs
        steps += I.steps
        cells += len(I.cells)
        states += sum(len(v) for v in I.cells.values())
        nm = short(f.dem)
        for k, (i, text) in sorted(I.events.items()):
            chk.obligation(False, '%s:%s' % (what, i.where()), '%s: %s at %s %s after some sequence of bits' % (what, short(i.fn.dem), i.where(), text))
        for g, v in bad.items():
            chk.obligation(False, '%s:range' % what, '%s: %s (%s) returns the probability %d, above %d, after some sequence of bits' % (what, short(g.dem), g.where(), v, SCALE))
        if not bad and not I.events:
            chk.obligation(True, '', '', '%s (%s): %d store values, probabilities %s' % (what, m.globals[vt]['dem'].replace('vtable for ', ''), sum(len(v) for v in I.cells.values()),
                           '%s..%s' % (min(x if isinstance(x, int) else x[1] for x in probs), max(x if isinstance(x, int) else x[2] for x in probs))))
    chk.cov.update(models=len(facs), evaluations=runs, instructions_evaluated=steps, cells=cells, cell_values=states, undecided=und)


CHK = report.Check('C10', 'value-set fixpoint of every model object under update, updateState and resetModel in any order, started from what its factory builds: '
                   'each probability is at most 4096, each access stays inside its object, each shift amount is valid',
                   assumptions=['cells of a model are treated as independent of each other'])
if __name__ == '__main__':
    report.main(run, CHK)
