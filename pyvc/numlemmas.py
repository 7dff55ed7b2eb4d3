"""Lemmas about binary numbers given as bit functions Int -> Bool, proved by induction (base and step discharged by z3).

val(a, k) is the value of the k lowest bits: val(a, 0) = 0, val(a, k + 1) = val(a, k) + (2**k if a(k) else 0).
The bit functions are uninterpreted, so every lemma holds for every family of literals and for the bits of any integer.
"""
from .sym import z3, pow2_f
from . import sym

I, Bo = z3.IntSort(), z3.BoolSort()
k, j, n = z3.Ints('k j n')


def fn(name):
    return z3.Function(name, I, Bo)


def valf(name):
    return z3.Function('val$' + name, I, I)


class Num:
    """A bit function together with its value function."""

    def __init__(self, name, bit=None):
        self.name, self.val = name, valf(name)
        self.bit = bit or fn(name)

    def base(self):
        return self.val(0) == 0

    def unfold(self, t):
        """Definition of the value at t + 1 (t >= 0)."""
        return self.val(t + 1) == self.val(t) + z3.If(self.bit(t), pow2_f(t), 0)

    def range(self, t):
        return z3.And(0 <= self.val(t), self.val(t) < pow2_f(t))


def P(t):
    """Facts about 2**t and 2**(t+1)."""
    return z3.And(pow2_f(0) == 1, pow2_f(t) >= 1, pow2_f(t + 1) == 2 * pow2_f(t))


def b2i(t):
    return z3.If(t, 1, 0)


def maj(a, b, c):
    return z3.Or(z3.And(a, b), z3.And(a, c), z3.And(b, c))


def xor3(a, b, c):
    return z3.Xor(z3.Xor(a, b), c)


def induction(p, name, pred, defs0, defs, hyps=()):
    """pred(t) for all t >= 0; defs: facts usable in the step from k to k + 1."""
    p.goal(p.solver(list(hyps) + list(defs0)), f'lemma {name}: base', pred(z3.IntVal(0)))
    p.goal(p.solver(list(hyps) + [k >= 0, pred(k), P(k)] + list(defs)), f'lemma {name}: step', pred(k + 1))


def prove_all(p):
    a, b, o = Num('la'), Num('lb'), Num('lo')
    induction(p, 'range', a.range, [a.base(), P(z3.IntVal(0))], [a.unfold(k)])
    # equal values have equal bits (bit j arbitrary), and conversely
    J = z3.Int('J')
    ranges = [a.range(k), b.range(k)]
    induction(p, 'unique', lambda t: z3.Implies(z3.And(a.val(t) == b.val(t), 0 <= J, J < t), a.bit(J) == b.bit(J)),
              [a.base(), b.base()], [a.unfold(k), b.unfold(k)] + ranges)
    same = lambda t: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < t), a.bit(j) == b.bit(j)))
    induction(p, 'same bits same value', lambda t: z3.Implies(same(t), a.val(t) == b.val(t)),
              [a.base(), b.base()], [a.unfold(k), b.unfold(k)])
    sup = lambda t: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < t, b.bit(j)), a.bit(j)))
    induction(p, 'superset', lambda t: z3.Implies(sup(t), a.val(t) >= b.val(t)), [a.base(), b.base()], [a.unfold(k), b.unfold(k)])
    # bits of an integer: q(i) = v // 2**i
    v, q = z3.Int('v'), z3.Function('q', I, I)
    bits = Num('lbits')
    prod = z3.Function('pq', I, I)      # 2**i * q(i)
    defs = [q(k) == 2 * q(k + 1) + b2i(bits.bit(k)), prod(k) == pow2_f(k) * q(k), prod(k + 1) == pow2_f(k + 1) * q(k + 1),
            pow2_f(k) * q(k) == 2 * (pow2_f(k) * q(k + 1)) + z3.If(bits.bit(k), pow2_f(k), 0),
            pow2_f(k + 1) * q(k + 1) == 2 * (pow2_f(k) * q(k + 1))]
    # the two product facts above are instances of distributivity: check them on their own
    x, y, e = z3.Ints('x y e')
    p.goal(p.solver([z3.Or(e == 0, e == 1)]), 'lemma bits: distributivity', x * (2 * y + e) == 2 * (x * y) + z3.If(e == 1, x, 0))
    p.goal(p.solver([]), 'lemma bits: associativity', (2 * x) * y == 2 * (x * y))
    induction(p, 'bits', lambda t: v == bits.val(t) + prod(t), [bits.base(), prod(0) == q(0), q(0) == v], [bits.unfold(k)] + defs)
    p.goal(p.solver([v == bits.val(n) + prod(n), prod(n) == pow2_f(n) * q(n), 0 <= v, v < pow2_f(n), bits.range(n), q(n) >= 0]),
           'lemma bits: value', bits.val(n) == v)
    # lowest bit first: val(a, t + 1) = a(0) + 2 * val(a shifted by one, t)
    t1 = Num('lt')
    induction(p, 'shift', lambda t: a.val(t + 1) == b2i(a.bit(0)) + 2 * t1.val(t),
              [a.base(), t1.base(), a.unfold(z3.IntVal(0)), P(z3.IntVal(0))], [a.unfold(k + 1), t1.unfold(k), t1.bit(k) == a.bit(k + 1), P(k)])
    # ripple carry
    C, s, cin = fn('lC'), Num('ls'), z3.Bool('lcin')
    induction(p, 'add', lambda t: a.val(t) + b.val(t) + b2i(cin) == s.val(t) + z3.If(C(t), pow2_f(t), 0),
              [a.base(), b.base(), s.base(), C(0) == cin, P(z3.IntVal(0))],
              [a.unfold(k), b.unfold(k), s.unfold(k), C(k + 1) == maj(a.bit(k), b.bit(k), C(k)), s.bit(k) == xor3(a.bit(k), b.bit(k), C(k))])
    # increment: T(t) says that all lower bits are set
    T = fn('lT')
    induction(p, 'increment', lambda t: o.val(t) == a.val(t) + 1 - z3.If(T(t), pow2_f(t), 0),
              [a.base(), o.base(), T(0), P(z3.IntVal(0))],
              [a.unfold(k), o.unfold(k), T(k + 1) == z3.And(T(k), a.bit(k)), o.bit(k) == z3.Xor(a.bit(k), T(k))])
    # increment is exactly +1 modulo the width
    p.goal(p.solver([a.range(n), o.range(n), n >= 1, P(n)]), 'lemma increment: wraps',
           z3.And([z3.Implies(o.val(n) == a.val(n) + 1 - z3.If(c, pow2_f(n), 0), z3.Or(o.val(n) == a.val(n) + 1, z3.And(o.val(n) == 0, a.val(n) == pow2_f(n) - 1))) for c in (T(n),)]))
    # signed negation without overflow
    h, x, y, mx, my = z3.Int('h'), z3.Int('x'), z3.Int('y'), z3.Bool('mx'), z3.Bool('my')
    hy = [h >= 1, 0 <= x, x < 2 * h, 0 <= y, y < 2 * h, mx == (x >= h), my == (y >= h)]
    sx, sy = x - z3.If(mx, 2 * h, 0), y - z3.If(my, 2 * h, 0)
    p.goal(p.solver(hy), 'lemma signed negation', z3.And(z3.Or(x + y == 0, x + y == 2 * h), x != h) == (sx == -sy))
    # top bit decides the sign: val(a, t + 1) >= 2**t iff a(t)
    p.goal(p.solver([a.unfold(k), a.range(k), P(k), k >= 0]), 'lemma top bit', a.bit(k) == (a.val(k + 1) >= pow2_f(k)))
    # only the top bit: val(a, t + 1) = 2**t iff a(t) and no lower bit
    z = Num('lz')
    p.goal(p.solver([k >= 0, P(k), a.unfold(k), a.range(k), z3.Implies(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), z3.Not(a.bit(j)))), a.val(k) == 0),
                     z3.Implies(a.val(k) == 0, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), z3.Not(a.bit(j)))))]),
           'lemma only top bit', (a.val(k + 1) == pow2_f(k)) == z3.And(a.bit(k), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), z3.Not(a.bit(j))))))
    # value zero: an instance of uniqueness with the constant false function
    induction(p, 'zero', lambda t: z.val(t) == 0, [z.base()], [z.unfold(k), z3.Not(z.bit(k))])
    # first difference: prefix equality E(t)
    D = fn('lD')
    ex = lambda t: z3.Exists([j], z3.And(0 <= j, j < t, z3.Not(a.bit(j)), b.bit(j)))
    less = lambda t: z3.Exists([j], z3.And(0 <= j, j < t, a.bit(j) != b.bit(j)))
    lexle = lambda t: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < t, z3.ForAll([n], z3.Implies(z3.And(0 <= n, n < j), a.bit(n) == b.bit(n)))),
                                                z3.Implies(a.bit(j), b.bit(j))))
    # D(t): a difference was seen among the first t positions; the comparison passes iff lexicographic order holds
    induction(p, 'difference flag', lambda t: D(t) == less(t), [z3.Not(D(0))],
              [D(k + 1) == z3.Or(D(k), a.bit(k) != b.bit(k))])
