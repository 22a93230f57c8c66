"""Must-precede analysis over the resolved call graph."""
from collections import defaultdict


def unpreceded(m, seen, root, first, second, skip_edge=None):
    """Call instructions satisfying `second` that some path from root's entry reaches without a call satisfying `first`
    having completed before.  first/second: predicates on call instructions.  -> list of (inst, trail)"""
    memo = {}

    def summ(f):
        """(second sites reachable before any first {inst: trail}, may return without a first)"""
        if f in memo:
            return memo[f]
        memo[f] = ({}, False)
        for _ in range(5):
            r = solve(f)
            if set(r[0]) == set(memo[f][0]) and r[1] == memo[f][1]:
                break
            memo[f] = r
        return memo[f]

    def solve(f):
        bad, ret = {}, False
        seenb, q = {f.entry.id}, [f.entry]
        while q:
            b = q.pop()
            alive = True
            unwound = True
            for i in b.insts:
                if i.is_call:
                    if second(i):
                        bad.setdefault(i, (i,))
                    if first(i):
                        alive = False
                        break
                    ts = [t for t in m.call_targets(i, m.live_vt) if t is not None and not t.decl]
                    if ts:
                        passes = False
                        for t in ts:
                            s, r = summ(t)
                            for k, tr in s.items():
                                bad.setdefault(k, tr + (i,))
                            passes = passes or r
                        if not passes:
                            alive = False
                            break
                elif i.op == 'ret':
                    ret = True
            t = b.term
            succ = list(t.get('succ', []))
            if not alive:
                # the call that set `first` may still have thrown before
                if t.op == 'invoke' and len(succ) > 1 and b.insts[-1] is t:
                    succ = [succ[1]] if alive is False and last_call(b) is t else []
                else:
                    succ = []
            for s in succ:
                if skip_edge and skip_edge(f, b, s):
                    continue
                if s not in seenb:
                    seenb.add(s)
                    q.append(f.block(s))
        return bad, ret

    def last_call(b):
        for i in b.insts:
            if i.is_call and first(i):
                return i
            if i.is_call:
                ts = [t for t in m.call_targets(i, m.live_vt) if t is not None and not t.decl]
                if ts and not any(memo.get(t, ({}, True))[1] for t in ts):
                    return i
        return None
    return list(summ(root)[0].items())
