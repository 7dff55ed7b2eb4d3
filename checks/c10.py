from .common import *

LEVEL = 'proof'
TECHNIQUE = ('deductive: contracts on setup_balancer_input/output/ends/ends_90/ends_180/ends_with_offsets and the network-free '
             'setup_balancer_ends, for grids of any size and any input/output counts; exactly-one by its contract (C02); obligations discharged by z3')
NOTE = ('Proved: in every model there is a position for each end such that every cell of the side is as specified, aligned if asked; and every such '
        'layout extends to the position literals. Bounded: the same on concrete sides, through the real cardinality encodings.')
RULE = 'sides of up to 4 / 5 cells, all counts and options: z3 decides equivalence of the real clauses (position literals projected) with the specification'
BOUND = 'bounded companion: sides of up to 4 (quick) / 5 (thorough) cells'
ASSUMPTIONS = ['IDPool._next returns a new variable on every call (pysat)', 'quadratic_one meets its contract (C02)',
               'get_input_output_colours returns the two colours and counts (C20); at least one input and one output',
               'network-free ends: no splitter in the end columns (established by the balancer itself, C11)']


class Net:
    """Stands for any network: only its inputs and outputs matter here."""

    def elements(self):
        return self

    def __pyvc_subst__(self, pairs):
        return self


def end_spec(v, end, D, i):
    """What the cell number i of an end shows when the belts start at position D."""
    from pyvc.sym import z3
    x, y = (z3.IntVal(c) if isinstance(c, int) else c for c in end['pos'](i))
    t = v.tile(x, y)
    d = end['dir']
    side = t.inp if end['kind'] == 'in' else t.out
    on = G.And(t.is_belt, side[d])
    if end.get('straight'):
        on = G.And(on, t.inp[d], t.out[d])
    off = t.is_empty if end['rest'] == 'empty' else G.Not(side[d])
    inside = G.And(D <= i, i < D + end['count'])
    return G.And(G.Implies(inside, on), G.Implies(G.Not(inside), off))


def aligned_spec(ends, D):
    """The shorter end lies within the span of the longer."""
    a, b = ends
    return G.Or(G.And(a['count'] >= b['count'], D[0] <= D[1], D[1] + b['count'] <= D[0] + a['count']),
                G.And(a['count'] < b['count'], D[1] <= D[0], D[0] + a['count'] <= D[1] + b['count']))


CONFIGS = {}
for _al in (False, True):
    for _ue in (False, True):
        CONFIGS[f'ends aligned={_al} use_ends={_ue}'] = dict(fn='setup_balancer_ends', args=(_al, _ue), aligned=_al,
                                                            ends=lambda W, H, a, b, ue=_ue: [dict(pos=lambda i: (0, i), len=H, count=a, dir=0, kind='in', rest='free' if ue else 'empty'),
                                                                                             dict(pos=lambda i, W=W: (W - 1, i), len=H, count=b, dir=0, kind='out', rest='free' if ue else 'empty')])
for _ue in (False, True):
    CONFIGS[f'ends_90 use_ends={_ue}'] = dict(fn='setup_balancer_ends_90', args=(_ue,), aligned=False,
                                              ends=lambda W, H, a, b, ue=_ue: [dict(pos=lambda i: (0, i), len=H, count=a, dir=0, kind='in', rest='free' if ue else 'empty'),
                                                                               dict(pos=lambda i, H=H: (i, H - 1), len=W, count=b, dir=3, kind='out', rest='free' if ue else 'empty')])
CONFIGS['ends_180'] = dict(fn='setup_balancer_ends_180', args=(), aligned=False,
                           ends=lambda W, H, a, b: [dict(pos=lambda i: (0, i), len=H, count=a, dir=0, kind='in', rest='free'),
                                                    dict(pos=lambda i: (0, i), len=H, count=b, dir=2, kind='out', rest='free')])
for _al in (False, True):
    CONFIGS[f'network-free ends aligned={_al}'] = dict(net_free=True, args=(_al,), aligned=_al,
                                                       ends=lambda W, H, a, b: [dict(pos=lambda i: (0, i), len=H, count=a, dir=0, kind='in', rest='empty', straight=True),
                                                                                dict(pos=lambda i, W=W: (W - 1, i), len=H, count=b, dir=0, kind='out', rest='empty', straight=True)])


def target(cfg):
    import factorio_sat.belt_balancer as BB
    import factorio_sat.belt_balancer_net_free as NF
    return NF.setup_balancer_ends if cfg.get('net_free') else getattr(BB, cfg['fn'])


def proof(name):
    cfg = CONFIGS[name]

    def fn(ctx):
        from pyvc import cardproof
        from pyvc.gridproof import GridRun, cell_decls, same_prefix
        from pyvc.prove import schemas
        from pyvc.sym import z3, SInt, Lit, Unsupported
        a, b, CI, CO = z3.Ints('IN OUT CI CO')
        W, H = z3.Ints('W H')

        def exactly_one(E, f, args, kw):
            return E.new([[Lit(cardproof.one(args[0]))]])

        def at_most_one(E, f, args, kw):
            return E.new([[Lit(cardproof.amo(args[0]))]])

        def counts(E, f, args, kw):
            return ((SInt(CI), SInt(a)), (SInt(CO), SInt(b)))
        cons = {'network.get_input_output_colours': counts}
        for k in ('quadratic', 'heule', 'logarithmic'):
            cons[f'cardinality.{k}_one'], cons[f'cardinality.{k}_amo'] = exactly_one, at_most_one
        hy = [a >= 1, b >= 1]

        def build(E, W, H, mode, pool, run):
            for h in hy:
                E.assume(h)
            g = sym_grid(E, W, H, mode, pool, colours=None)
            before = list(g.clauses)
            E.call(target(cfg), (g, SInt(a), SInt(b)) + cfg['args'] if cfg.get('net_free') else (g, Net()) + cfg['args'])
            return g, before
        run = GridRun((False, False), build, contracts=cons)
        ctx.functions(run.E)
        p = ctx.prover(name)
        ends = cfg['ends'](W, H, a, b)
        fits = z3.And([e['count'] <= e['len'] for e in ends])
        p.goal(p.solver(run.hyp + hy), 'paths cover', z3.Or([q.cond for q in run.paths]) if run.paths else z3.BoolVal(False))
        for n, path in enumerate(run.paths):
            hyps = run.hyp + hy + path.conds
            if path.outcome != 'normal':
                p.goal(p.solver(hyps), f'path {n}: fails ({type(path.value).__name__}) only when an end does not fit', z3.Not(fits))
                continue
            g, before = path.value
            ctx.obligation(f'{name}: path {n}: existing clauses kept', same_prefix(g.clauses, before, len(before)))
            v = G.SymView(run.E, g, (False, False))
            ss = schemas(g.clauses[len(before):])
            F = [z3.ForAll(s.vars, s.body()) if s.vars else s.body() for s in ss]
            cells = cell_decls(g.tiles)
            offs = {}
            stack, seen = list(F), set()
            while stack:
                e = stack.pop()
                if e.get_id() in seen:
                    continue
                seen.add(e.get_id())
                if z3.is_quantifier(e):
                    stack.append(e.body())
                    continue
                if z3.is_app(e) and e.sort() == z3.BoolSort() and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name() not in cells:
                    offs[e.decl().name()] = e.decl()
                stack.extend(e.children())
            if len(offs) != 2 or any(d.arity() != 1 for d in offs.values()):
                raise Unsupported(f'position literals {sorted(offs)}')
            D = z3.Ints('D0 D1')
            i = z3.Int('cell')
            order = list(offs.values())
            # which family of literals is for which end: by the cells it speaks about
            best = None
            for roles in (order, order[::-1]):
                s = p.solver(hyps + F + [roles[0](D[0]), 0 <= D[0], D[0] <= ends[0]['len'] - a, 0 <= i, i < ends[0]['len']] + base_at(v, [ends[0]['pos'](i)], cfg))
                s.add(z3.Not(end_spec(v, ends[0], D[0], i)))
                if s.check() == z3.unsat:
                    best = roles
                    break
            roles = best or order
            s = p.solver(hyps + F)
            pos = []
            for k, e in enumerate(ends):
                K = z3.Int('k')
                p.goal(s, f'path {n}: some position of the {e["kind"]}puts is taken', z3.Exists([K], z3.And(0 <= K, K <= e['len'] - e['count'], roles[k](K))))
                pos += [roles[k](D[k]), 0 <= D[k], D[k] <= e['len'] - e['count']]
            for k, e in enumerate(ends):
                s = p.solver(hyps + F + pos + [0 <= i, i < e['len']] + base_at(v, [e['pos'](i)], cfg))
                p.goal(s, f'path {n}: every {e["kind"]}put side cell is as its position says', end_spec(v, e, D[k], i))
            if cfg['aligned']:
                p.goal(p.solver(hyps + F + pos), f'path {n}: the ends are aligned', aligned_spec(ends, D))
            p.reachable(hyps + [fits], f'path {n}') if n == 0 else None
            # every such layout can be completed: the position literal of the chosen position is the true one
            q = z3.Var(0, z3.IntSort())
            pairs = [(roles[k], q == D[k]) for k in range(2)]
            lay = [0 <= D[0], D[0] <= ends[0]['len'] - a, 0 <= D[1], D[1] <= ends[1]['len'] - b]
            if cfg['aligned']:
                lay.append(aligned_spec(ends, D))
            gx = z3.Int('gx')
            gens = [z3.Implies(z3.And(0 <= gx, gx < e['len']), z3.And([end_spec(v, e, D[k], gx)] + base_at(v, [e['pos'](gx)], cfg))) for k, e in enumerate(ends)]
            atD = [z3.substitute(gen, (gx, w)) for gen in gens for w in D]
            for m, sc in enumerate(ss):
                fresh = [(w, z3.Int(f'{w}~g')) for w in sc.vars]
                goal = z3.substitute_funs(sc.inst(fresh), *pairs)
                hyp = hyps + lay + atD + [z3.substitute(gen, (gx, w)) for gen in gens for _, w in fresh]
                p.goal(p.solver(hyp), f'path {n}: clause {m} allowed by the specification', goal)
    return Task(f'proof {name}', fn, 'proof', 300)


def base_at(v, pts, cfg):
    from pyvc.sym import z3
    out = []
    for x, y in pts:
        x, y = (z3.IntVal(c) if isinstance(c, int) else c for c in (x, y))
        out += [f for _, f in G.base(v, x, y)]
        if cfg.get('net_free'):
            out.append(G.Not(v.tile(x, y).is_splitter))
    return out


def offsets_proof(wrap=(False, False)):
    """setup_balancer_ends_with_offsets: given positions, belts running right with the network's colours, the rest empty."""
    def fn(ctx):
        from pyvc.gridproof import GridRun, RuleProof, same_prefix
        from pyvc.prove import schemas
        from pyvc.sym import z3, SInt
        import factorio_sat.belt_balancer as BB
        a, b, CI, CO, so, eo, C = z3.Ints('IN OUT CI CO SO EO C')
        W, H = z3.Ints('W H')
        hy = [a >= 1, b >= 1, so >= 0, eo >= 0, C >= 1, 0 <= CI, CI < C, 0 <= CO, CO < C]
        cons = {'network.get_input_output_colours': lambda E, f, args, kw: ((SInt(CI), SInt(a)), (SInt(CO), SInt(b)))}

        def build(E, W, H, mode, pool, run):
            for h in hy:
                E.assume(h)
            g = sym_grid(E, W, H, mode, pool, colours='sym')
            before = list(g.clauses)
            E.call(BB.setup_balancer_ends_with_offsets, (g, Net(), SInt(so), SInt(eo)))
            return g, before
        run = GridRun(wrap, build, contracts=cons)
        ctx.functions(run.E)
        p = ctx.prover('ends_with_offsets')
        p.goal(p.solver(run.hyp + hy), 'paths cover', z3.Or([q.cond for q in run.paths]) if run.paths else z3.BoolVal(False))

        def spec(v, x, y):
            t = v.tile(x, y)
            out = []
            for nm, col, off, cnt, colour in (('input', x == 0, so, a, CI), ('output', x == W - 1, eo, b, CO)):
                inside = G.And(off <= y, y < off + cnt)
                out.append((f'{nm} belts', G.Implies(G.And(col, inside), G.And(t.is_belt, t.inp[0], t.out[0], t.num('colour') == colour))))
                out.append((f'{nm} rest', G.Implies(G.And(col, G.Not(inside)), t.is_empty)))
            return out
        for n, path in enumerate(run.paths):
            hyps = run.hyp + hy + path.conds
            if path.outcome != 'normal':
                p.goal(p.solver(hyps), f'path {n}: fails ({type(path.value).__name__}) only when an end does not fit', z3.Or(so + a > H, eo + b > H))
                continue
            g, before = path.value
            ctx.obligation(f'ends_with_offsets: path {n}: existing clauses kept', same_prefix(g.clauses, before, len(before)))
            v = G.SymView(run.E, g, wrap)
            p.goal(p.solver(hyps), f'path {n}: accepted only when the ends fit', z3.And(so + a <= H, eo + b <= H))
            rp = RuleProof(p, v, schemas(g.clauses[len(before):]), spec, lambda v, x, y: G.base(v, x, y, C), hyps, R=0)
            rp.sound(f'path {n}: ')
            rp.complete(f'path {n}: ')
    return Task('proof ends_with_offsets', fn, 'proof', 300)


def network_with(a, b):
    """A network with a inputs of colour 0 and b outputs of colour 1 (as far as its ends are concerned)."""
    from collections import Counter
    return Counter([((0,) * a, (1,) * b)]) if False else Counter({((0,), ()): a, ((), (1,)): b})


def concrete(ctx, name, w, h, a, b):
    from pyvc.sym import z3
    cfg = CONFIGS[name]
    g = conc_grid(w, h, (False, False))
    n, top = len(g.clauses), g.pool.top
    try:
        target(cfg)(*((g, a, b) + cfg['args'] if cfg.get('net_free') else (g, network_with(a, b)) + cfg['args']))
    except AssertionError:
        e = cfg['ends'](w, h, a, b)
        ctx.require(a > e[0]['len'] or b > e[1]['len'], f'{name}: refused although the ends fit', width=w, height=h, inputs=a, outputs=b)
        return
    v = G.ConcView(g, (False, False))
    ends = cfg['ends'](w, h, a, b)
    alts = []
    iv = z3.IntVal
    for D0 in range(0, ends[0]['len'] - a + 1):
        for D1 in range(0, ends[1]['len'] - b + 1):
            if cfg['aligned']:
                if (a >= b and not (D0 <= D1 and D1 + b <= D0 + a)) or (a < b and not (D1 <= D0 and D0 + a <= D1 + b)):
                    continue
            alts.append(z3.And([conc_end(v, ends[k], D, i) for k, D in ((0, D0), (1, D1)) for i in range(ends[k]['len'])]))
    base = [f for x, y in v.cells() for _, f in G.base(v, x, y)]
    if cfg.get('net_free'):
        base += [G.Not(v.tile(x, y).is_splitter) for x in (0, w - 1) for y in range(h)]
    aux = [k for k in range(top + 1, g.pool.top + 1)]
    B.equivalence(ctx, v, g.clauses[n:], [(f'ends of {a} inputs and {b} outputs', z3.Or(alts) if alts else z3.BoolVal(False))], base=base, label=name,
                  aux=aux or True, params=dict(inputs=a, outputs=b))


def conc_end(v, e, D, i):
    x, y = e['pos'](i)
    t = v.tile(x, y)
    side = t.inp if e['kind'] == 'in' else t.out
    if D <= i < D + e['count']:
        return G.And(t.is_belt, side[e['dir']], *([t.inp[e['dir']], t.out[e['dir']]] if e.get('straight') else []))
    return t.is_empty if e['rest'] == 'empty' else G.Not(side[e['dir']])


def conc_offsets(ctx, w, h, a, b, so, eo):
    import factorio_sat.belt_balancer as BB
    g = conc_grid(w, h, (False, False), 2)
    n = len(g.clauses)
    try:
        BB.setup_balancer_ends_with_offsets(g, network_with(a, b).elements(), so, eo)
    except AssertionError:
        ctx.require(so + a > h or eo + b > h, 'ends_with_offsets: refused although the ends fit', width=w, height=h, inputs=a, outputs=b, start=so, end=eo)
        return
    ctx.require(so + a <= h and eo + b <= h, 'ends_with_offsets: accepted although the ends do not fit', width=w, height=h, inputs=a, outputs=b, start=so, end=eo)

    def spec(v, x, y):
        t = v.tile(x, y)
        out = []
        for col, off, cnt, colour in ((0, so, a, 0), (w - 1, eo, b, 1)):
            if x == col:
                out.append(('end', G.And(t.is_belt, t.inp[0], t.out[0], t.num('colour') == colour) if off <= y < off + cnt else t.is_empty))
        return out
    B.equivalence(ctx, G.ConcView(g, (False, False)), g.clauses[n:], spec, base=lambda v, x, y: G.base(v, x, y, 2), label='ends_with_offsets',
                  params=dict(inputs=a, outputs=b, start=so, end=eo))


def cases(name, tier):
    top = 5 if tier == 'thorough' else 4
    for h in range(1, top + 1):
        w = 2 if 'ends_90' not in name else min(h, 3)
        for a in range(1, h + 2):
            for b in range(1, (w if 'ends_90' in name else h) + 2):
                yield lambda ctx, w=w, h=h, a=a, b=b: concrete(ctx, name, w, h, a, b)


def tasks(tier):
    ts = [proof(n) for n in CONFIGS] + [offsets_proof()]
    for n in CONFIGS:
        ts.append(bound_task(n, list(cases(n, tier))))
    ts.append(bound_task('ends_with_offsets', [lambda ctx, w=w, h=h, a=a, b=b, s=s, e=e: conc_offsets(ctx, w, h, a, b, s, e)
                                               for w in (1, 2) for h in (1, 2, 3) for a in range(1, h + 1) for b in range(1, h + 1)
                                               for s in range(0, h - a + 2) for e in range(0, h - b + 2)]))
    return ts


def directed(ctx, r):
    p = model_params(r[2], ('W', 'H', 'IN', 'OUT', 'SO', 'EO'))
    h = min(p.get('H', 3), 6)
    for n in CONFIGS:
        if r[0].startswith(n):
            concrete(ctx, n, min(p.get('W', 3), 5), h, min(p.get('IN', 1), 6), min(p.get('OUT', 1), 6))
