"""Documented formulas of the benchmark functions, written in the mathematical notation of their documentation:
x(i) is 1-based, S / P are sums and products with inclusive limits.  The same text is evaluated numerically (oracle for
replays) and symbolically (postcondition of _evaluate)."""
# name: (smallest dimension, parameters, formula)
SPECS = {}
def spec(mind=1, params=(), fixed=None, mult=1):
    def d(f):
        SPECS[f.__name__] = dict(mind=mind, params=tuple(params), fixed=fixed, mult=mult, f=f)
        return f
    return d

@spec(params=('a', 'b', 'c'))
def Ackley(m, x, D, a, b, c):
    return -a * m.exp(-b * m.sqrt(m.S(1, D, lambda i: x(i) ** 2) / D)) - m.exp(m.S(1, D, lambda i: m.cos(c * x(i))) / D) + a + m.exp(1)
@spec()
def Alpine1(m, x, D): return m.S(1, D, lambda i: m.abs(x(i) * m.sin(x(i)) + m.q('0.1') * x(i)))
@spec()
def Alpine2(m, x, D): return m.P(1, D, lambda i: m.sqrt(x(i)) * m.sin(x(i)))
@spec()
def BentCigar(m, x, D): return x(1) ** 2 + 10 ** 6 * m.S(2, D, lambda i: x(i) ** 2)
@spec()
def ChungReynolds(m, x, D): return m.S(1, D, lambda i: x(i) ** 2) ** 2
@spec()
def CosineMixture(m, x, D): return -m.q('0.1') * m.S(1, D, lambda i: m.cos(5 * m.pi * x(i))) - m.S(1, D, lambda i: x(i) ** 2)
@spec()
def Csendes(m, x, D): return m.S(1, D, lambda i: m.ite(x(i) == 0, lambda: 0, lambda: x(i) ** 6 * (2 + m.sin(1 / x(i)))))
@spec()
def Discus(m, x, D): return x(1) ** 2 * 10 ** 6 + m.S(2, D, lambda i: x(i) ** 2)
@spec()
def DixonPrice(m, x, D): return (x(1) - 1) ** 2 + m.S(2, D, lambda i: i * (2 * x(i) ** 2 - x(i - 1)) ** 2)
@spec(mind=2)
def Elliptic(m, x, D): return m.S(1, D, lambda i: m.pow(10 ** 6, m.r(i - 1) / (D - 1)) * x(i) ** 2)
@spec()
def Griewank(m, x, D): return m.S(1, D, lambda i: x(i) ** 2 / 4000) - m.P(1, D, lambda i: m.cos(x(i) / m.sqrt(i))) + 1
@spec(mind=2)
def ExpandedGriewankPlusRosenbrock(m, x, D):
    g = lambda a, b: 100 * (a ** 2 - b) ** 2 + (a - 1) ** 2
    h = lambda z: z ** 2 / 4000 - m.cos(z) + 1
    return h(g(x(D), x(1))) + m.S(2, D, lambda i: h(g(x(i - 1), x(i))))
@spec(params=('alpha',))
def HappyCat(m, x, D, alpha):
    s2 = m.S(1, D, lambda i: x(i) ** 2); s1 = m.S(1, D, lambda i: x(i))
    return m.pow(m.abs(s2 - D), alpha) + (m.q('0.5') * s2 + s1) / D + m.q('0.5')
@spec()
def HGBat(m, x, D):
    s2 = m.S(1, D, lambda i: x(i) ** 2); s1 = m.S(1, D, lambda i: x(i))
    return m.sqrt(m.abs(s2 ** 2 - s1 ** 2)) + (m.q('0.5') * s2 + s1) / D + m.q('0.5')
@spec()
def Katsuura(m, x, D):
    return m.P(1, D, lambda i: 1 + i * m.S(1, 32, lambda j: m.abs(2 ** j * x(i) - m.round(2 ** j * x(i))) / 2 ** j))
@spec()
def Levy(m, x, D):
    w = lambda i: 1 + (x(i) - 1) / 4
    return (m.sin(m.pi * w(1)) ** 2 + m.S(1, D - 1, lambda i: (w(i) - 1) ** 2 * (1 + 10 * m.sin(m.pi * w(i) + 1) ** 2))
            + (w(D) - 1) ** 2 * (1 + m.sin(2 * m.pi * w(D)) ** 2))
@spec(params=('m_',))
def Michalewicz(m, x, D, m_): return -m.S(1, D, lambda i: m.sin(x(i)) * m.pow(m.sin(i * x(i) ** 2 / m.pi), 2 * m_))
@spec(params=('beta',))
def Perm(m, x, D, beta):
    return m.S(1, D, lambda i: m.S(1, D, lambda j: (j + beta) * (m.pow(x(j), i) - m.pow(1 / m.r(j), i))) ** 2)
@spec()
def Pinter(m, x, D):
    p = lambda i: x(m.wrap(i - 1, D)); n = lambda i: x(m.wrap(i + 1, D))
    A = lambda i: p(i) * m.sin(x(i)) + m.sin(n(i))
    Bq = lambda i: p(i) ** 2 - 2 * x(i) + 3 * n(i) - m.cos(x(i)) + 1
    return (m.S(1, D, lambda i: i * x(i) ** 2) + m.S(1, D, lambda i: 20 * i * m.sin(A(i)) ** 2)
            + m.S(1, D, lambda i: i * m.log10(1 + i * Bq(i) ** 2)))
@spec(mult=4)
def Powell(m, x, D):
    return m.S(1, m.idiv(D, 4), lambda i: (x(4 * i - 3) + 10 * x(4 * i - 2)) ** 2 + 5 * (x(4 * i - 1) - x(4 * i)) ** 2
               + (x(4 * i - 2) - 2 * x(4 * i - 1)) ** 4 + 10 * (x(4 * i - 3) - x(4 * i)) ** 4)
@spec()
def Qing(m, x, D): return m.S(1, D, lambda i: (x(i) ** 2 - i) ** 2)
@spec()
def Quintic(m, x, D): return m.S(1, D, lambda i: m.abs(x(i) ** 5 - 3 * x(i) ** 4 + 4 * x(i) ** 3 + 2 * x(i) ** 2 - 10 * x(i) - 4))
@spec()
def Rastrigin(m, x, D): return 10 * D + m.S(1, D, lambda i: x(i) ** 2 - 10 * m.cos(2 * m.pi * x(i)))
@spec()
def Ridge(m, x, D): return m.S(1, D, lambda i: m.S(1, i, lambda j: x(j)) ** 2)
@spec()
def Rosenbrock(m, x, D): return m.S(1, D - 1, lambda i: 100 * (x(i + 1) - x(i) ** 2) ** 2 + (x(i) - 1) ** 2)
@spec()
def Salomon(m, x, D):
    r = m.sqrt(m.S(1, D, lambda i: x(i) ** 2))
    return 1 - m.cos(2 * m.pi * r) + m.q('0.1') * r
@spec(fixed=2)
def SchafferN2(m, x, D): return m.q('0.5') + (m.sin(x(1) ** 2 - x(2) ** 2) ** 2 - m.q('0.5')) / (1 + m.q('0.001') * (x(1) ** 2 + x(2) ** 2)) ** 2
@spec(fixed=2)
def SchafferN4(m, x, D): return m.q('0.5') + (m.cos(m.sin(x(1) ** 2 - x(2) ** 2)) ** 2 - m.q('0.5')) / (1 + m.q('0.001') * (x(1) ** 2 + x(2) ** 2)) ** 2
@spec(mind=2)
def ExpandedSchaffer(m, x, D):
    g = lambda a, b: m.q('0.5') + (m.sin(m.sqrt(a ** 2 + b ** 2)) ** 2 - m.q('0.5')) / (1 + m.q('0.001') * (a ** 2 + b ** 2)) ** 2
    return g(x(D), x(1)) + m.S(2, D, lambda i: g(x(i - 1), x(i)))
@spec()
def SchumerSteiglitz(m, x, D): return m.S(1, D, lambda i: x(i) ** 4)
@spec()
def Schwefel(m, x, D): return m.q('418.9828872724338') * D - m.S(1, D, lambda i: x(i) * m.sin(m.sqrt(m.abs(x(i)))))
@spec()
def Schwefel221(m, x, D): return m.Max(1, D, lambda i: m.abs(x(i)))
@spec()
def Schwefel222(m, x, D): return m.S(1, D, lambda i: m.abs(x(i))) + m.P(1, D, lambda i: m.abs(x(i)))
@spec()
def ModifiedSchwefel(m, x, D):
    def g(z):
        lo = lambda: (m.fmod(m.abs(z), 500) - 500) * m.sin(m.sqrt(m.abs(m.fmod(m.abs(z), 500) - 500))) + (z - 500) ** 2 / (10000 * D)
        hi = lambda: (500 - m.fmod(z, 500)) * m.sin(m.sqrt(m.abs(500 - m.fmod(z, 500)))) - (z - 500) ** 2 / (10000 * D)
        return m.ite(z > 500, hi, lambda: m.ite(z < -500, lo, lambda: z * m.sin(m.sqrt(m.abs(z)))))
    return m.q('418.9829') * D - m.S(1, D, lambda i: g(x(i) + m.q('420.9687462275036')))
@spec()
def Sphere(m, x, D): return m.S(1, D, lambda i: x(i) ** 2)
@spec()
def Sphere2(m, x, D): return m.S(1, D, lambda i: m.pow(m.abs(x(i)), i + 1))
@spec()
def Sphere3(m, x, D): return m.S(1, D, lambda i: m.S(1, i, lambda j: x(j) ** 2))
@spec()
def Step(m, x, D): return m.S(1, D, lambda i: m.floor(m.abs(x(i))))
@spec()
def Step2(m, x, D): return m.S(1, D, lambda i: m.floor(x(i) + m.q('0.5')) ** 2)
@spec()
def Step3(m, x, D): return m.S(1, D, lambda i: m.floor(x(i) ** 2))
@spec()
def Stepint(m, x, D): return 25 + m.S(1, D, lambda i: m.floor(x(i)))
@spec()
def StyblinskiTang(m, x, D): return m.q('0.5') * m.S(1, D, lambda i: x(i) ** 4 - 16 * x(i) ** 2 + 5 * x(i))
@spec()
def SumSquares(m, x, D): return m.S(1, D, lambda i: i * x(i) ** 2)
@spec()
def Trid(m, x, D): return m.S(1, D, lambda i: (x(i) - 1) ** 2) - m.S(2, D, lambda i: x(i) * x(i - 1))
@spec(params=('a', 'b', 'k_max'))
def Weierstrass(m, x, D, a, b, k_max):
    return (m.S(1, D, lambda i: m.S(0, k_max, lambda k: m.pow(a, k) * m.cos(2 * m.pi * m.pow(b, k) * (x(i) + m.q('0.5')))))
            - D * m.S(0, k_max, lambda k: m.pow(a, k) * m.cos(2 * m.pi * m.pow(b, k) * m.q('0.5'))))
@spec()
def Whitley(m, x, D):
    t = lambda i, j: 100 * (x(i) ** 2 - x(j)) ** 2 + (1 - x(j)) ** 2
    return m.S(1, D, lambda i: m.S(1, D, lambda j: t(i, j) ** 2 / 4000 - m.cos(t(i, j)) + 1))
@spec()
def Zakharov(m, x, D):
    s = m.S(1, D, lambda i: m.q('0.5') * i * x(i))
    return m.S(1, D, lambda i: x(i) ** 2) + s ** 2 + s ** 4

class Num:
    """numeric reading"""
    import math as _m
    pi = _m.pi
    def q(self, s): return float(s)
    def r(self, v): return float(v)
    def S(self, a, b, f): return self._m.fsum(f(i) for i in range(a, b + 1))
    def P(self, a, b, f):
        r = 1.0
        for i in range(a, b + 1): r *= f(i)
        return r
    def Max(self, a, b, f): return max(f(i) for i in range(a, b + 1))
    def exp(self, v): return self._m.exp(v)
    def sin(self, v): return self._m.sin(v)
    def cos(self, v): return self._m.cos(v)
    def sqrt(self, v): return self._m.sqrt(v) if v >= 0 else self._m.nan
    def log10(self, v): return self._m.log10(v)
    def abs(self, v): return abs(v)
    def floor(self, v): return float(self._m.floor(v))
    def round(self, v): return float(round(v))
    def fmod(self, a, b): return self._m.fmod(a, b)
    def pow(self, a, b):
        try: r = float(a) ** float(b)
        except OverflowError: return self._m.inf
        except ZeroDivisionError: return self._m.inf
        return r if not isinstance(r, complex) else self._m.nan
    def ite(self, c, a, b): return a() if c else b()
    def wrap(self, i, D): return (i - 1) % D + 1
    def idiv(self, a, b): return a // b
def numeric(name, x, params):
    s = SPECS[name]
    xs = [float(v) for v in x]
    return s['f'](Num(), lambda i: xs[i - 1], len(xs), *[params[p] for p in s['params']])
