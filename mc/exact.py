"exact arithmetic on Gaussian rationals, and least squares"
from fractions import Fraction as F


class G:
    __slots__ = ('r', 'i')

    def __init__(self, r, i=0):
        self.r, self.i = F(r), F(i)

    @staticmethod
    def of(x):
        return x if isinstance(x, G) else G(F(x.real), F(x.imag)) if isinstance(x, complex) else G(x)

    def __add__(self, o):
        o = G.of(o)
        return G(self.r + o.r, self.i + o.i)

    def __sub__(self, o):
        o = G.of(o)
        return G(self.r - o.r, self.i - o.i)

    def __mul__(self, o):
        o = G.of(o)
        return G(self.r * o.r - self.i * o.i, self.r * o.i + self.i * o.r)

    def conj(self):
        return G(self.r, -self.i)

    def abs2(self):
        return self.r * self.r + self.i * self.i

    def __truediv__(self, o):
        o = G.of(o)
        d = o.abs2()
        return G((self.r * o.r + self.i * o.i) / d, (self.i * o.r - self.r * o.i) / d)

    def zero(self):
        return not self.r and not self.i

    def __complex__(self):
        return complex(float(self.r), float(self.i))


def solve(A, b):
    "solution of a square system, None when singular"
    n = len(A)
    A = [list(r) + [e] for r, e in zip(A, b)]
    for c in range(n):
        p = next((r for r in range(c, n) if not A[r][c].zero()), None)
        if p is None:
            return None
        A[c], A[p] = A[p], A[c]
        inv = G(1) / A[c][c]
        A[c] = [e * inv for e in A[c]]
        for r in range(n):
            if r != c and not A[r][c].zero():
                f = A[r][c]
                A[r] = [x - f * y for x, y in zip(A[r], A[c])]
    return [r[-1] for r in A]


def normal(b, w):
    "sum_k w_k conj(b_k) b_k^T; b: list over windows of tuples of G"
    q = len(b[0])
    return [[sum((x[i].conj() * x[j] * v for x, v in zip(b, w)), G(0)) for j in range(q)] for i in range(q)]


def lstsq(e, b, w=None):
    "weighted least squares z such that e ~ b.z"
    w = w or [F(1)] * len(e)
    q = len(b[0])
    rhs = [sum((x[i].conj() * y * v for x, y, v in zip(b, e, w)), G(0)) for i in range(q)]
    return solve(normal(b, w), rhs)


def inverse(A):
    n = len(A)
    cols = [solve(A, [G(int(i == j)) for i in range(n)]) for j in range(n)]
    if any(c is None for c in cols):
        return None
    return [[cols[j][i] for j in range(n)] for i in range(n)]
