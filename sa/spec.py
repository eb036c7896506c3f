"""Small DSL for writing requirements as terms of the analysis domain (operator overloading only)."""
from terms import *


def T(x):
    if isinstance(x, X):
        return x.t
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, tuple):
        return x
    return N(x)


class X:
    __slots__ = ('t',)

    def __init__(self, t):
        object.__setattr__(self, 't', T(t))

    def __add__(a, b): return X(add(a.t, T(b)))
    def __radd__(a, b): return X(add(T(b), a.t))
    def __sub__(a, b): return X(sub(a.t, T(b)))
    def __rsub__(a, b): return X(sub(T(b), a.t))
    def __mul__(a, b): return X(mul(a.t, T(b)))
    def __rmul__(a, b): return X(mul(T(b), a.t))
    def __truediv__(a, b): return X(fdiv(a.t, T(b)))
    def __rtruediv__(a, b): return X(fdiv(T(b), a.t))
    def __floordiv__(a, b): return X(idiv(a.t, T(b)))
    def __mod__(a, b): return X(mod(a.t, T(b)))
    def __eq__(a, b): return X(eq(a.t, T(b)))
    def __ne__(a, b): return X(not_(eq(a.t, T(b))))
    def __lt__(a, b): return X(lt(a.t, T(b)))
    def __gt__(a, b): return X(lt(T(b), a.t))
    def __le__(a, b): return X(not_(lt(T(b), a.t)))
    def __ge__(a, b): return X(not_(lt(a.t, T(b))))
    def __and__(a, b): return X(and_(truth(a.t), truth(T(b))))
    def __or__(a, b): return X(or_(truth(a.t), truth(T(b))))
    def __invert__(a): return X(not_(truth(a.t)))
    def __getitem__(a, i): return X(('i', a.t, T(i)))
    def __hash__(a): return hash(a.t)

    def __getattr__(a, n):
        return X(('f', a.t, n))

    def __repr__(a): return show(a.t)

    def __bool__(a):
        raise TypeError('a term has no truth value: ' + show(a.t)[:200])


def has(x):
    return X(('has', T(x)))


def val(x):
    return X(('f', T(x), '$val'))


def If(c, a, b):
    return X(ite(truth(T(c)), T(a), T(b)))


def S(n):
    return X(('s', n))


this = S('this')
A0, A1, A2, A3, A4 = (S('a%d' % i) for i in range(5))


def conj(xs):
    return X(and_(*[truth(T(x)) for x in xs]))


def rewrite(t, f, memo=None):
    """bottom-up rewriting: f(node) gives a replacement or None"""
    if memo is None:
        memo = {}
    if not isinstance(t, tuple) or not t:
        return t
    if t in memo:
        return memo[t]
    r = t
    if t[0] not in ('n', 'b', 'enum', 'str', 's', 'v', 'null'):
        r = rebuild(t, lambda x: rewrite(x, f, memo))
    y = f(r)
    if y is not None:
        r = T(y)
    memo[t] = r
    return r
