"""Random interpretation of a function's ordered write effects.

The summary of a function with nested loops is an ordered list of write effects, each with the loops and
conditions it stands under.  For a random valuation of all inputs the effects are folded, in order, over the
loop domains, which gives the value of every location written.  Used to compare accumulations (energies)
with their required sums whatever the nesting, order or naming of the loops."""
import ri
from fractions import Fraction
from terms import *


class Opaque(Exception):
    pass


class Fold:
    """effects folded under one valuation"""

    def __init__(self, events, seed, fixed, zero=(), limit=20000):
        self.v = ri.Val(seed, fixed)
        self.v.budget = 10 ** 7
        self.mem = {}
        self.zero = zero      # local objects whose members start at zero
        self.left = limit
        self.cache = {}
        self.run(events, 0, ())

    def run(self, evs, depth, env):
        i = 0
        while i < len(evs):
            e = evs[i]
            d = depth
            ok = True
            while d < len(e.ctx) and e.ctx[d][0] != 'loop':
                if e.ctx[d][0] != 'dead' and not self.cond(e.ctx[d], env):
                    ok = False
                    break
                d += 1
            if not ok:
                i += 1
                continue
            if d == len(e.ctx):
                self.write(e, env)
                i += 1
                continue
            lp = e.ctx[d]
            j = i + 1
            while j < len(evs) and len(evs[j].ctx) > d and evs[j].ctx[:d + 1] == e.ctx[:d + 1]:
                j += 1
            if lp[2][0] != 'rng':
                raise Opaque('loop over ' + show(lp[2])[:80])
            for n in range(int(self.num(lp[2][1], env)), int(self.num(lp[2][2], env))):
                self.run(evs[i:j], d + 1, env + ((lp[1], n),))
            i = j

    def cond(self, c, env):
        return bool(self.num(c, env))

    def term(self, t, env):
        """resolve the values of written locations"""
        def f(x):
            if not isinstance(x, tuple) or not x or x[0] in ('n', 'b', 'enum', 'str', 's', 'v', 'null'):
                return x
            if x[0] == 'lc' or x[0] in ('f', 'i'):
                l = x[1] if x[0] == 'lc' else x
                r = l
                while r[0] in ('f', 'i'):
                    r = r[1]
                if r[0] == 'v':
                    k = self.key(l, env)
                    if k in self.mem:
                        return ('n', Fraction(self.mem[k]))
                    if r in self.zero:
                        return ZERO
                    raise Opaque('value of ' + show(l)[:80])
            if x[0] in ('loopv', 'loopx', 'unk', 'endv', 'undef', 'lcv'):
                raise Opaque(show(x)[:80])
            return rebuild(x, f)
        return f(t)

    def num(self, t, env):
        if mentions(t, lambda x: x[0] in ('lc', 'v', 'loopv', 'loopx', 'unk', 'endv', 'undef', 'lcv')):
            t = self.term(t, env)
        x = self.v.num(t, env)
        return x

    def key(self, l, env):
        if l[0] == 'f':
            return ('f', self.key(l[1], env), l[2])
        if l[0] == 'i':
            return ('i', self.key(l[1], env), int(self.num(l[2], env)))
        return l

    def write(self, e, env):
        self.left -= 1
        if self.left < 0:
            raise Opaque('too many effects')
        k = self.key(e.d['loc'], env)
        v = e.d['val']
        if v[0] in ('agg', 'list', 'fill', 'zero', 'm', 'str', 'some', 'none', 'addr', 'lam', 'it'):
            for x in [x for x in self.mem if pre(k, x)]:
                del self.mem[x]
            if not (v[0] in ('zero', 'fill', 'agg') and e.ctx == ()):
                raise Opaque('assignment of ' + show(v)[:80])
            return
        self.mem[k] = self.num(v, env)


def pre(p, l):
    while l != p:
        if l[0] not in ('f', 'i'):
            return False
        l = l[1]
    return True
