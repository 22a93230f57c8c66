"""C18: memory that cannot be had, or an exception inside, is never reported as success."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import report, build
from ir import Module, short
from fault import Fault, trail_text
from c05 import nonzero

PIPE = ['--noassert', '--iomem', '--pass=globaldce,function(sroa,early-cse<memssa>,simplifycfg),cgscc(inline),globaldce,'
        'function(sroa,early-cse<memssa>,simplifycfg,early-cse<memssa>)']

ALLOC = {'malloc', 'calloc', 'realloc', 'aligned_alloc', 'strdup', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t'}


def run(chk):
    na = nc = 0
    for prog in build.PROGRAMS:
        m = Module(prog, opts=PIPE)
        seen = m.reachable([m.main()])
        F = Fault(m, seen, {})
        F.track_args = True
        isbad = lambda e: e[0] in ('exit', 'return') and not nonzero(e[1])
        fns = [f for f in seen if not f.decl and f.in_repo]
        for f in fns:
            for i in f.calls():
                if i.callee in ALLOC:
                    na += 1
                    bad = [e for e in F.fates(i, 0, bad=isbad) if isbad(e)]
                    chk.obligation(not bad, '%s:%s:%s' % (prog, f.short, i.callee),
                                   '%s: when the %s at %s (%s) yields nothing the program can still end with a zero exit status: %s' % (
                                       prog, i.callee, i.where(), short(f.dem), trail_text(bad[0][2]) if bad else ''),
                                   '%s: a failed %s at %s always ends with a nonzero status' % (prog, i.callee, i.where()))
            pads = {}
            for i in f.calls():
                if i.op == 'invoke':
                    S = f.block(i['succ'][1])
                    lp = next((j for j in S.insts if j.op == 'landingpad'), None)
                    if lp is not None and lp.get('catches'):
                        pads.setdefault(S.id, i)
            for sid, i in pads.items():
                nc += 1
                bad = [e for e in F.fates(i, None, bad=isbad, throw=True) if isbad(e)]
                chk.obligation(not bad, '%s:%s:catch' % (prog, f.short),
                               '%s: an exception that leaves the call at %s (%s) is caught, and the program can still end with a zero exit status: %s' % (
                                   prog, i.where(), short(f.dem), trail_text(bad[0][2]) if bad else ''),
                               '%s: what is caught around %s always ends with a nonzero status' % (prog, i.where()))
        chk.cov['states_explored'] = chk.cov.get('states_explored', 0) + F.explored
    chk.need(nc, 4, 'places that catch exceptions')
    chk.cov.update(allocation_sites=na, catching_pads=nc, programs=len(build.PROGRAMS))


CHK = report.Check('C18', 'error-propagation analysis: every allocation that reports failure by a null pointer is bound to null, and every place that catches '
                   'exceptions is entered with one; no feasible continuation through any caller may end the program with status 0',
                   assumptions=['an uncaught exception or abort ends with a nonzero status'])
if __name__ == '__main__':
    report.main(run, CHK)
