"""C12: the length stored in front of a block and the reported size are the numbers of bytes written."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import report, build
from ir import Module, short
from karr import Karr
from fractions import Fraction as Q

PIPE = ['--noassert', '--noinline=12RawOutStream,9OutStream,packInteger,10Compressor8compress', '--iomem',
        '--pass=globaldce,function(sroa,early-cse<memssa>,simplifycfg),cgscc(inline),globaldce,'
        'function(sroa,early-cse<memssa>,simplifycfg,early-cse<memssa>)']
W, R = ('W',), ('R',)
STREAM = {'bwtc::OutStream', 'bwtc::RawOutStream'}
LENGTH_BYTES = 6            # a 48-bit field
QUIET = {'flush', 'close', 'RawOutStream', 'OutStream', 'fail', 'getPos', 'isOpen', 'good'}


def setup(prog, root):
    m = Module(prog, opts=PIPE)
    seen = m.reachable([m.main()])
    sites, kinds = {}, {}

    def events(i, t):
        if t is None:
            return None
        if t.klass in STREAM:
            b = t.base
            kinds.setdefault(b, set()).add(i)
            if b == 'writeByte' and len(i['args']) == 2:
                return [('add', W, [], 1)]
            if b == 'writeBlock' and len(i['args']) == 3:
                return [('add', W, [(1, i['args'][2]), (-1, i['args'][1])], 0)]
            if b == 'write48bits' and len(i['args']) == 3:
                k = sites.setdefault(i, ('E', len(sites)))
                return [('add', k, [(1, i['args'][1]), (-1, W), (1, i['args'][2])], LENGTH_BYTES)]
            if b == 'getPos':
                return [('ret', W)]
            if b.startswith('~') or b in QUIET or t.dem.endswith(' const'):
                return []
            return [('lose', W)]
        if t.short.split('::')[-1] == 'packInteger' and len(i['args']) == 2:
            return [('pack', 1)]
        return None
    for f in seen:
        for i in ([] if f.decl else f.calls()):
            if not (i.callee or '').startswith('llvm.'):
                for t in m.call_targets(i, m.live_vt):
                    events(i, t)
    K = Karr(m, seen, events, [W, R] + sorted(sites.values()))
    K.balance = ({('ret',): Q(1), ('cell', W): Q(-1), ('pre', W): Q(1)}, Q(0))
    rs = [f for f in seen if not f.decl and f.short == root and any(i.op == 'ret' and i.operands() for i in f.insts())]
    for f in rs:
        K.report[f] = R
    K.close(rs)
    return m, seen, K, rs, sites, kinds


def run(chk):
    m, seen, K, rs, sites, kinds = setup('compress', 'bwtc::Compressor::compress')
    S = K.analyse(m.main(), K.start(m.main()))
    und = []
    if S is not None and any(S.test({('cell', k): Q(1)}) is False for k in [R] + list(sites.values())):
        K.contexts, K.sum = True, {}          # once more, with what is known where each function is called
        S = K.analyse(m.main(), K.start(m.main()))
    if S is None:
        raise report.AnalysisError('main never returns normally')

    def decide(cell, key, bad, good):
        r = S.test({('cell', cell): Q(1)})
        if r is None:
            und.append(good)
            return
        chk.obligation(r, key, bad, good)
    for i, k in sorted(sites.items(), key=lambda x: x[1]):
        f = i.fn if hasattr(i, 'fn') else None
        decide(k, 'length:%s' % i.where(), 'write48bits at %s: on some path the length it stores is not the number of bytes written between the length field and this call '
               '(the counters that add up to it miss a write, count one twice, or start at the wrong position)' % i.where(), 'length stored at %s = bytes written after the field' % i.where())
    for f in rs:
        decide(R, 'total:%s' % f.short, '%s (%s): on some path the size it returns is not the number of bytes it has written: %s' % (f.short, f.where(), unbalanced(K, f)),
               '%s returns the number of bytes it wrote' % f.short)
    if not rs:
        und.append('no Compressor::compress that returns a size')
    if not sites:
        und.append('no length field')
    for f in K.seen:
        if f in K.sum and K.sum[f] is not None and f in K.retneed and ('*',) in K.touch[f] and f not in K.report:
            r = K.sum[f].test(*K.balance)
            if r:
                chk.obligation(True, '', '', '%s returns the number of bytes it wrote' % f.short)
    chk.cov['functions of compress analysed'] = len({f[0] if isinstance(f, tuple) else f for f in K.sum})
    chk.cov['call sites that write'] = sum(len(v) for b, v in kinds.items() if b.startswith('write'))
    chk.cov['memory cells tracked'] = len(K.cells)
    chk.cov['values tracked'] = sum(len(v) for v in K.val.values())
    chk.cov['transfer steps'] = K.steps
    chk.cov['functions whose own count is beyond the domain (assumed right)'] = sorted(f.short for f in K.assumed)
    chk.cov['undecided'] = und


def unbalanced(K, f):
    bad = [g.short for g in K.seen if g is not f and g in K.sum and K.sum[g] is not None and g in K.retneed and ('*',) in K.touch[g] and K.sum[g].test(*K.balance) is False]
    return 'the same holds of ' + ', '.join(sorted(set(bad))) if bad else 'the sizes returned by what it calls are right by themselves'


CHK = report.Check('C12', 'affine equalities between program variables and a ghost count of the bytes written (Karr), interprocedural by summaries over the whole compress program; '
                   'loops by fixpoint, trip counts of counting loops and of byte-by-byte writers of packed integers as affine facts at the loop exits; '
                   'at each write48bits: value - (bytes written since the saved position - 6) = 0, for Compressor::compress: returned size - bytes written = 0',
                   assumptions=['packInteger reports the number of bytes of the integer it returns (C09)', 'counters do not wrap around',
                                'one output stream is written by a run of compress', 'what writeByte, writeBlock, write48bits and getPos do to the file is C07'])
if __name__ == '__main__':
    report.main(run, CHK)
