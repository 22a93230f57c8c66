"""C06: input that ends early or cannot be read is never taken for data."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import report, build
from ir import Module, short
from fault import Fault, trail_text
from c05 import PIPE, nonzero

READ = {'fread', 'fread_unlocked', 'fgetc', 'getc', 'getchar', 'fgets', 'read', 'ungetc'}
EOFV = {'fread': 0, 'fread_unlocked': 0, 'fgetc': (1 << 32) - 1, 'getc': (1 << 32) - 1, 'getchar': (1 << 32) - 1, 'fgets': 0, 'read': 0}
DECODERS = ('uncompress', 'postprocess')


def slot_functions(m, method):
    """functions that override InStream::method in classes in use"""
    out = set()
    for t, l in m.vtables().items():
        if not t.endswith('8InStreamE'):
            continue
        for g, off in l:
            for s in m.globals[g].get('vt', []):
                f = m.functions.get(m.aliases.get(s, s)) if s else None
                if f is not None and f.base == method:
                    out.add(f)
    return out


def run(chk):
    n = 0
    for prog in build.PROGRAMS:
        m = Module(prog, opts=PIPE)
        seen = m.reachable([m.main()])
        sites = [(f, i) for f in seen if not f.decl and f.in_repo for i in f.calls() if i.callee in READ]
        chk.need(len(sites), 1, 'calls that read the input in ' + prog)
        isbad = lambda e: e[0] in ('exit', 'return') and not nonzero(e[1])
        F = Fault(m, seen, {'ferror': 1, 'feof': 0, **EOFV})
        for f, i in sites:
            n += 1
            bad = [e for e in F.fates(i, EOFV.get(i.callee, 0), bad=isbad) if isbad(e)]
            chk.obligation(not bad, '%s:%s:%s:error' % (prog, f.short, i.callee),
                           '%s: a read error in %s at %s (%s) can end with a zero exit status: %s' % (
                               prog, i.callee, i.where(), short(f.dem), trail_text(bad[0][2]) if bad else ''),
                           '%s: a read error in %s at %s always ends with a nonzero status' % (prog, i.callee, i.where()))
        chk.cov['states_explored'] = chk.cov.get('states_explored', 0) + F.explored
        if prog not in DECODERS:
            continue
        blocks = slot_functions(m, 'readBlock')
        chk.need(len(blocks), 1, 'implementations of block reading')
        F = Fault(m, seen, {'ferror': 0, 'feof': 1, **EOFV})
        for f, i in sites:
            n += 1
            ends = F.fates(i, EOFV.get(i.callee, 0), stop=lambda g: g in blocks, bad=isbad)
            bad = [e for e in ends if isbad(e)]
            chk.obligation(not bad, '%s:%s:%s:eof' % (prog, f.short, i.callee),
                           '%s: when the archive ends at the %s at %s (%s) the program can still end with a zero exit status: %s' % (
                               prog, i.callee, i.where(), short(f.dem), trail_text(bad[0][2]) if bad else ''),
                           '%s: the archive ending at the %s at %s is always reported' % (prog, i.callee, i.where()))
        # a short block
        for f in seen:
            if f.decl:
                continue
            for i in f.calls():
                ts = m.call_targets(i, m.live_vt)
                if not any(t in blocks for t in ts):
                    continue
                n += 1
                bad = [e for e in F.fates(i, ('short', f, i['args'][2]), bad=isbad) if isbad(e)]
                chk.obligation(not bad, '%s:%s:short block' % (prog, f.short),
                               '%s: a block read at %s (%s) that comes up short can still end with a zero exit status: %s' % (
                                   prog, i.where(), short(f.dem), trail_text(bad[0][2]) if bad else ''),
                               '%s: a short block read at %s is always reported' % (prog, i.where()))
        chk.cov['states_explored'] += F.explored
    chk.cov.update(fault_sites=n, programs=len(build.PROGRAMS))


CHK = report.Check('C06', 'error-propagation analysis: every call that reads the input is bound to "nothing read" (once with the error flag, once, in '
                   'the two decoders, with the end-of-file flag), and every decoder block read to a short count; no feasible '
                   'continuation through any caller may end the program with status 0',
                   assumptions=['stdio sets ferror/feof as documented', 'an uncaught exception or abort ends with a nonzero status'])
if __name__ == '__main__':
    report.main(run, CHK)
