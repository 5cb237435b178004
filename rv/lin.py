"""Offline linearizability checker for histories of one key (register with delete)."""


def legal(op, arg, res, state):
    """New state if `op` may take effect in `state` with result `res`, else (False, None)."""
    if op == 'set':
        return True, arg
    if op == 'del':
        return True, None
    if op == 'read':
        return res == state, state
    if op == 'has':
        return bool(res) == (state is not None), state
    raise KeyError(op)


def check(hist, init=None, final=None, pending=()):
    """hist: list of (start, end, op, arg, res), complete operations.  pending: (start, op, arg) that may or may not have
    taken effect.  final: allowed set of final states, or None.  Returns True if some linearization explains it all."""
    ops = sorted([(s, e, o, a, r, False) for s, e, o, a, r in hist] + [(s, float('inf'), o, a, None, True) for s, o, a in pending])
    n = len(ops)
    must = 0
    for i, o in enumerate(ops):
        if not o[5]:
            must |= 1 << i
    seen = set()
    stack = [(0, init)]
    while stack:
        mask, st = stack.pop()
        if (mask, st) in seen:
            continue
        seen.add((mask, st))
        if mask & must == must and (final is None or st in final):
            return True
        # the earliest end among the operations not yet done bounds who may be next
        bound = float('inf')
        for i in range(n):
            if not mask >> i & 1 and ops[i][1] < bound:
                bound = ops[i][1]
        for i in range(n):
            if mask >> i & 1:
                continue
            s, e, o, a, r, p = ops[i]
            if s > bound:
                break
            ok, st2 = legal(o, a, r, st)
            if ok:
                stack.append((mask | 1 << i, st2))
    return False


def culprits(hist, show=lambda x: x):
    """For a history that has no linearization: the operations without which it has one, or else the earliest one that ends the
    shortest prefix without; each with the operations that overlap it or come just before."""
    hist = sorted(hist)
    bad = [i for i in range(len(hist)) if hist[i][2] in ('read', 'has') and check(hist[:i] + hist[i + 1:])]
    if not bad:
        ends = sorted(range(len(hist)), key=lambda i: hist[i][1])
        n = next(n for n in range(1, len(hist) + 1) if not check([hist[i] for i in sorted(ends[:n])]))
        bad = [ends[n - 1]]
    i = bad[0]
    t = hist[i][0]
    near = [o for o in hist if o[1] > t - 10**7 and o[0] < hist[i][1]]
    near += [o for o in hist if o not in near and o[1] <= t and o[2] in ('set', 'del')][-3:]
    return {'culprit': [(hist[j][0] - t, hist[j][1] - t, hist[j][2], show(hist[j][3]), show(hist[j][4])) for j in bad[:3]],
            'near': [(s - t, e - t, o, show(a), show(r)) for s, e, o, a, r in sorted(near)][-16:]}
