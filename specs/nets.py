"""Independent meaning of splitter networks: a network is a list of ((in, in), (out, out)) with None for an absent side."""
import collections


def canon(node):
    key = lambda c: (c is not None, c)
    return tuple(tuple(sorted(s, key=key)) for s in node)


def colours(net):
    i = {c for n in net for c in n[0]} - {None}
    o = {c for n in net for c in n[1]} - {None}
    return i, o


def exterior(net):
    i, o = colours(net)
    return i - o, o - i


def surplus(net):
    """colour -> (number of times used as input) - (number of times used as output)."""
    c = collections.Counter()
    for i, o in net:
        for x in i:
            if x is not None:
                c[x] += 1
        for x in o:
            if x is not None:
                c[x] -= 1
    return c


def isomorphic(a, b, fixed=None):
    """A one-to-one renaming of colours (None kept) that makes the multisets of nodes equal up to the order of sides, or None."""
    if len(a) != len(b):
        return None

    def shape(net):
        occ = collections.defaultdict(list)
        for k, (i, o) in enumerate(net):
            for c in i:
                occ[c].append('i')
            for c in o:
                occ[c].append('o')
        return {c: ''.join(sorted(v)) for c, v in occ.items() if c is not None}
    sa, sb = shape(a), shape(b)
    if sorted(sa.values()) != sorted(sb.values()):
        return None

    def sig(node, s):
        return tuple(tuple(sorted('-' if c is None else s[c] + ('=' if side[0] == side[1] else '') for c in side)) for side in node)
    ga, gb = [sig(n, sa) for n in a], [sig(n, sb) for n in b]
    if sorted(ga) != sorted(gb):
        return None
    order = sorted(range(len(a)), key=lambda k: (ga.count(ga[k]), k))
    fwd, bwd = dict(fixed or {}), {v: k for k, v in (fixed or {}).items()}
    used = [False] * len(b)
    budget = [200000]

    def bind(x, y, added):
        if (x is None) != (y is None):
            return False
        if x is None:
            return True
        if x in fwd or y in bwd:
            return fwd.get(x, ()) == y and bwd.get(y, ()) == x
        if sa[x] != sb[y]:
            return False
        fwd[x] = y
        bwd[y] = x
        added.append((x, y))
        return True

    def go(k):
        if k == len(order):
            return True
        n = order[k]
        # most constrained node next: prefer one that shares a bound colour
        for j in range(k, len(order)):
            if any(c in fwd for s in a[order[j]] for c in s if c is not None):
                order[k], order[j] = order[j], order[k]
                break
        n = order[k]
        tried = set()
        for m in range(len(b)):
            if used[m] or gb[m] != ga[n] or b[m] in tried:
                continue
            tried.add(b[m])
            for si in ((0, 1), (1, 0)):
                for so in ((0, 1), (1, 0)):
                    budget[0] -= 1
                    if budget[0] < 0:
                        raise RuntimeError('isomorphism search too large')
                    added = []
                    ok = all(bind(a[n][0][q], b[m][0][si[q]], added) for q in (0, 1)) and all(bind(a[n][1][q], b[m][1][so[q]], added) for q in (0, 1))
                    if ok:
                        used[m] = True
                        if go(k + 1):
                            return True
                        used[m] = False
                    for x, y in added:
                        del fwd[x], bwd[y]
        return False
    return dict(fwd) if go(0) else None


def random_network(rng, n, ncol, none=0.2):
    pick = lambda: None if rng.random() < none else rng.randrange(ncol)
    return [((pick(), pick()), (pick(), pick())) for _ in range(n)]


def balanced_network(rng, n, extra=1, none=0.15):
    """A network with one input and one output colour: every other colour is produced as often as it is used."""
    ins = [[None, None] for _ in range(n)]
    outs = [[None, None] for _ in range(n)]
    si = [(k, s) for k in range(n) for s in (0, 1)]
    so = [(k, s) for k in range(n) for s in (0, 1)]
    rng.shuffle(si)
    rng.shuffle(so)
    base = rng.randrange(0, 50)
    names = rng.sample(range(base, base + 4 * n + 4), 2 * n + 2)
    cin, cout, mids = names[0], names[1], names[2:]
    a, b = rng.randint(1, max(1, n)), rng.randint(1, max(1, n))
    for k, s in si[:a]:
        ins[k][s] = cin
    for k, s in so[:b]:
        outs[k][s] = cout
    for (k, s), (l, t) in zip(si[a:], so[b:]):
        if rng.random() < none:
            continue
        c = rng.choice(mids)
        ins[k][s] = c
        outs[l][t] = c
    return [(tuple(i), tuple(o)) for i, o in zip(ins, outs)], (cin, a), (cout, b)


def flows(net, cin, cout, rng):
    """Steady-state shares of every input belt on every output belt for a random wiring of equally coloured belts."""
    import numpy as np
    prod, cons = collections.defaultdict(list), collections.defaultdict(list)
    for k, (i, o) in enumerate(net):
        for s, c in enumerate(o):
            if c is not None:
                prod[c].append((k, s))
        for s, c in enumerate(i):
            if c is not None:
                cons[c].append((k, s))
    wire, inputs, outputs = {}, [], []
    for c in set(prod) | set(cons):
        p, q = list(prod[c]), list(cons[c])
        rng.shuffle(p)
        rng.shuffle(q)
        for x, y in zip(p, q):
            wire[y] = x
        inputs += q[len(p):]
        outputs += p[len(q):]
    n = len(net)
    m = np.zeros((n, n))
    e = np.zeros((n, len(inputs)))
    for k, (i, o) in enumerate(net):
        for s in (0, 1):
            if (k, s) in wire:
                src = wire[k, s][0]
                m[k, src] += 1 / sum(c is not None for c in net[src][1])
    for j, (k, s) in enumerate(inputs):
        e[k, j] = 1
    total = np.linalg.solve(np.eye(n) - m, e)      # items through each splitter per input
    return np.array([total[k] / sum(c is not None for c in net[k][1]) for k, s in outputs]), len(inputs), len(outputs)
