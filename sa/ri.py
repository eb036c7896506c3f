"""Second equality test for terms of the value domain.

`terms.py` gives equal expressions the same normal form in most cases.  Before two different normal forms are
reported as different values they are compared as *functions* of their free symbols: both terms are
interpreted over a family of random valuations (random interpretation, Gulwani & Necula, POPL 2003).  Terms
that agree on every valuation are value-equal with overwhelming probability and are not reported; a
difference comes with the valuation that separates them.  Terms that contain an opaque part (something the
summariser did not understand) are never reported as different: the answer is None (undecided)."""
import hashlib, random
from fractions import Fraction
from terms import *

OPAQUE = {'unk', 'loopv', 'loopx', 'endv', 'lc', 'lcv', 'undef', 'proj'}


def opaque(t):
    return mentions(t, lambda x: x[0] in OPAQUE or (x[0] == 'while'))


AMBIGUOUS = {'insert', 'erase', 'emplace', 'swap', 'assign', 'emplace_front', 'fill', 'flip', 'try_emplace', 'merge', 'splice', 'extract', 'sort', 'unique', 'remove', 'remove_if'}


def unmodelled(t):
    """library operations without a model: their results cannot be told apart from equal expressions"""
    out = set()

    def f(x):
        if x[0] == 'c' and isinstance(x[1], str) and x[1] != 'std::function::operator()' and (x[1].startswith('std::') or '::' not in x[1]):
            out.add(x[1])
        elif (x[0] == 'm' and (x[1] in AMBIGUOUS or x[1].startswith('std::'))) or (x[0] == 'out' and isinstance(x[1], str) and x[1].startswith('std::')):
            out.add(x[1])
        return False
    mentions(t, f)
    return out


class Skip(Exception):
    """valuation not usable"""


class Val:
    """one random valuation"""
    MIX = (0, 0, 1, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 64)

    def __init__(self, seed, fixed=None):
        self.seed = seed
        self.fixed = fixed or {}
        self.memo = {}
        self.over = {}
        self.budget = 60000

    def h(self, *k):
        return int.from_bytes(hashlib.blake2b(repr((self.seed,) + k).encode(), digest_size=8).digest(), 'big')

    def atom(self, k):
        if k in self.over:
            return self.over[k]
        x = self.h('a', k)
        if self.seed % 3 == 0:          # few distinct values: boundary cases become frequent
            return (x >> 8) % 3
        if self.seed % 3 == 1:
            return (x >> 8) % 6
        m = x % 7
        if m < 5:
            return self.MIX[(x >> 8) % len(self.MIX)]
        return (x >> 8) % (1 << 20)

    def scalar(self, v):
        """number behind a handle"""
        if isinstance(v, tuple):
            if v == ('h', 'zero') or v == ('zero',):
                return 0
            return self.atom(v)
        return v

    def ev(self, t, env=()):
        k = (t, env) if env else t
        try:
            return self.memo[k]
        except KeyError:
            pass
        self.budget -= 1
        if self.budget < 0:
            raise OverflowError
        r = self.ev_(t, env)
        self.memo[k] = r
        return r

    def num(self, t, env):
        v = self.scalar(self.ev(t, env))
        return int(v) if isinstance(v, bool) else v

    def tr(self, t, env):
        return bool(self.num(t, env))

    def bits(self, t, env):
        """bit set as a number: single bits set on a base are applied to its value"""
        if t[0] == 'ite':
            return self.bits(t[2] if self.tr(t[1], env) else t[3], env)
        if t[0] == 'agg' and all(len(p) == 1 and p[0][0] == 'i' and p[0][1][0] == 'n' for p, _ in t[2]):
            v = self.bits(t[1], env)
            if isinstance(v, int):
                for p, x in t[2]:
                    k = int(p[0][1][1])
                    v = v | 1 << k if self.tr(x, env) else v & ~(1 << k)
                return v
        return self.num(t, env)

    def dom(self, d, env):
        if d[0] != 'rng':
            raise OverflowError
        lo, hi = self.num(d[1], env), self.num(d[2], env)
        if isinstance(lo, Fraction) or isinstance(hi, Fraction):
            raise OverflowError
        if hi - lo > 72:
            raise Skip
        return range(lo, hi)

    def range(self, env, *vs):
        """inside a recurrence: numbers that do not fit a machine word have wrapped around, the comparison cannot be trusted"""
        if any(k[0] == 'rv' for k, _ in env) and any(not isinstance(v, tuple) and not 0 <= v < 2 ** 64 for v in vs):
            raise Skip

    def part(self, t, env):
        """the term behind a member or element of a known aggregate, or None"""
        b = t[1]
        if not isinstance(b, tuple):
            return None
        while True:
            if b[0] == 'ite':
                b = b[2] if self.tr(b[1], env) else b[3]
            elif b[0] in ('f', 'i') and len(b) == 3:
                r = self.part(b, env)
                if r is None:
                    return (t[0], b) + t[2:] if b is not t[1] else None
                b = r
            else:
                break
        if t[0] == 'i' and b[0] == 'list':
            n = self.num(t[2], env)
            return b[1][int(n)] if 0 <= n < len(b[1]) else None
        if t[0] == 'f' and b[0] == 'agg' and all(len(p) and p[0][0] == 'f' for p, _ in b[2]):
            deep = []
            for p, v in b[2]:
                if p[0] == ('f', t[2]):
                    if len(p) == 1:
                        return v
                    deep.append((p[1:], v))
            base = ('zero',) if b[1] == ('zero',) else ('f', b[1], t[2])
            return ('agg', base, tuple(deep)) if deep else base
        return (t[0], b) + t[2:] if b is not t[1] else None

    def first(self, loops, cond, val, env, outer=True):
        """value of the first iteration (outer loop first) that meets the condition"""
        if not loops:
            return (self.ev(val, env),) if self.tr(cond, env) else None
        ix, d = loops[0]
        for i in self.dom(d, env):
            r = self.first(loops[1:], cond, val, env + ((ix, i),), False)
            if r is not None:
                return r[0] if outer else r
        return ('h', 'no first') if outer else None

    def ev_(self, t, env):
        h = t[0]
        if t in self.fixed:
            return self.fixed[t]
        if h == 'n':
            return t[1]
        if h == 'b':
            return t[1]
        if h == 'enum':
            return t[2]
        if h == 'ix':
            for a, b in env:
                if a == t:
                    return b
            return ('h', repr(t))
        if h == '+':
            acc = 0
            for m, c in t[1]:
                p = c
                for x, e in m:
                    v = self.num(x[1] if x[0] == 'den' else x, env)
                    if e < 0:
                        if v == 0:
                            v = 3
                        p = Fraction(p) / (v ** -e)
                    else:
                        p = p * v ** e
                acc = acc + p
            return Q(acc)
        if h == 'den':
            return self.num(t[1], env)
        if h == 'not':
            return not self.tr(t[1], env)
        if h == 'and':
            return all(self.tr(x, env) for x in t[1])
        if h == 'or':
            return any(self.tr(x, env) for x in t[1])
        if h == 'eq':
            a, b = self.ev(t[1], env), self.ev(t[2], env)
            if isinstance(a, tuple) and isinstance(b, tuple) and (a[0] in ('agg', 'zero') or b[0] in ('agg', 'zero')):
                return a == b
            if isinstance(a, tuple) and isinstance(b, tuple) and a[:2] == b[:2] == ('h', 'str'):
                return a == b
            a, b = self.scalar(a), self.scalar(b)
            self.range(env, a, b)
            return a == b
        if h == 'lt':
            a, b = self.num(t[1], env), self.num(t[2], env)
            self.range(env, a, b)
            return a < b
        if h == 'ite':
            return self.ev(t[2] if self.tr(t[1], env) else t[3], env)
        if h == 'idiv':
            a, b = self.num(t[1], env), self.num(t[2], env)
            self.range(env, a, b)
            if b == 0:
                return ('h', 'div0', a)
            q = abs(a) // abs(b)
            return q if (a < 0) == (b < 0) else -q
        if h == 'mod':
            a, b = self.num(t[1], env), self.num(t[2], env)
            self.range(env, a, b)
            if b == 0:
                return ('h', 'mod0', a)
            q = abs(a) // abs(b)
            q = q if (a < 0) == (b < 0) else -q
            return a - b * q
        if h == 'pow2':
            e = self.num(t[1], env)
            return Q(Fraction(2) ** int(max(-200, min(200, e))))
        if h == 'shr':
            e = self.num(t[2], env)
            self.range(env, e, self.num(t[1], env))
            return int(self.num(t[1], env)) >> int(min(200, max(0, e)))
        if h == 'tb':
            e = self.num(t[2], env)
            return bool((int(self.bits(t[1], env)) >> int(min(200, max(0, e)))) & 1)
        if h in ('bit&', 'bit|', 'bit^'):
            xs = [int(self.bits(x, env)) for x in t[1]]
            r = xs[0]
            for x in xs[1:]:
                r = r & x if h == 'bit&' else (r | x if h == 'bit|' else r ^ x)
            return r
        if h == 'popcount':
            v = self.bits(t[1], env)
            if isinstance(v, int) and v >= 0:
                return bin(v).count('1')
            return ('h', 'popcount', int(v))
        if h == 'bnot':
            return ~int(self.bits(t[1], env))
        if h == 'bits>>':
            v, e = self.bits(t[1], env), self.num(t[2], env)
            if isinstance(v, int) and isinstance(e, int) and v >= 0 and 0 <= e < 400:
                return v >> e
        if h == 'trunc' and isinstance(t[1], int):
            return int(self.num(t[2], env)) % (1 << t[1])
        if h == 'ftoi':
            v = self.num(t[1], env)
            return int(v)
        if h == 'has':
            v = self.ev(t[1], env)
            if isinstance(v, tuple) and v[:1] == ('h',) and len(v) > 1 and v[1] in ('none', 'some'):
                return v[1] == 'some'
            return bool(self.h('has', repr(v)) & 1)
        if h == 'sum':
            return Q(sum((self.num(t[3], env + ((t[1], i),)) for i in self.dom(t[2], env)), 0))
        if h == 'rv':
            for a, b in env:
                if a == t:
                    return b
            return ('h', repr(t))
        if h == 'recur':
            xs = [self.num(x, env) for x in t[4]]
            base = tuple(x for x in env if x[0] != t[1] and not (x[0][0] == 'rv' and x[0][1] == t[1]))
            for i in self.dom(t[2], env):
                e = base + ((t[1], i),) + tuple((('rv', t[1], j), x) for j, x in enumerate(xs))
                xs = [self.num(x, e) for x in t[3]]
            if any(not -2 ** 63 <= x < 2 ** 64 for x in xs):
                raise Skip
            return xs[0]
        if h == 'pred' and t[1] == 'any':
            return any(self.tr(t[4], env + ((t[2], i),)) for i in self.dom(t[3], env))
        if h in ('f', 'i'):
            r = self.part(t, env)
            if r is not None:
                return self.ev(r, env)
        if h == 'first' and isinstance(t[1], tuple):
            return self.first(t[1], t[2], t[3], env)
        if h == 'pred':
            return bool(self.atom(('h', h) + tuple(self.schild(x, env) for x in t[1:])) % 2)
        # everything else: an uninterpreted function of its interpreted children
        if h in ('f', 'i', 'has', 'size', 'bits', 'd'):
            return ('h', h, self.child(t[1], env)) + tuple(self.schild(x, env) for x in t[2:])
        return ('h', h) + tuple(self.schild(x, env) for x in t[1:])

    def schild(self, x, env):
        v = self.child(x, env)
        if isinstance(v, tuple) and v and v[0] == 'h' and v[1] not in ('agg', 'list', 'fill', 'zero', 'allones', 'str', 'null', 'none'):
            return self.atom(v)
        return v

    def child(self, x, env):
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            v = self.ev(x, env)
            if isinstance(v, bool):
                return int(v)
            return v
        if isinstance(x, tuple):
            return tuple(self.child(y, env) for y in x)
        return x


    def linear(self, t):
        """(handle, coefficient) of the symbols that occur linearly in the value t"""
        out = []
        if t[0] == '+':
            for m, c in t[1]:
                if len(m) == 1 and m[0][1] == 1:
                    out += [(k, c * d) for k, d in self.linear(m[0][0])]
        elif t[0] not in ('n', 'b', 'enum'):
            v = self.ev(t)
            if isinstance(v, tuple) and v[:1] == ('h',) and len(v) > 1 and v[1] not in ('agg', 'list', 'fill', 'div0', 'mod0', 'zero'):
                out.append((v, 1))
        return out

    def steer(self, goal, rnd):
        """change one symbol so that the sides of a comparison become equal (or differ by one)"""
        a, b, delta = goal
        cand = [(k, c) for k, c in self.linear(a)] + [(k, -c) for k, c in self.linear(b)]
        if not cand:
            return False
        k, c = cand[rnd.randrange(len(cand))]
        cur = self.num(a, ()) - self.num(b, ())
        new = self.atom(k) + Fraction(delta - cur) / c
        if new.denominator != 1 or new < 0:
            return False
        self.over[k] = int(new)
        self.memo = {}
        return True


def comparisons(t):
    """the comparisons and truncations of a term that do not depend on a bound index"""
    out, seen = [], set()

    def f(x):
        if x in seen:
            return False
        seen.add(x)
        if x[0] in ('eq', 'lt') and not is_bool(x[1]) and not is_bool(x[2]) and not mentions(x, lambda y: y[0] == 'ix'):
            out.append((x[0], x[1], x[2]))
        elif x[0] == 'trunc' and isinstance(x[1], int) and x[1] <= 40 and not mentions(x, lambda y: y[0] in ('ix', 'size')):
            out.append(('trunc', x[2], N(1 << x[1])))
        return False
    mentions(t, f)
    return out


def steered(a, b, seed, assume=()):
    """valuations that make comparisons of the terms hold or just fail to hold"""
    ca, cb = comparisons(a), comparisons(b)
    own = sorted(set(ca) ^ set(cb), key=repr)[:24]
    both = sorted(set(ca) & set(cb), key=repr)[:12]
    if not own and not both:
        return
    pre = sorted({c for x in assume for c in comparisons(x)} - set(own) - set(both), key=repr)[:8]
    rnd = random.Random(seed * 7919 + 17)
    for i in range(min(240, 24 + 16 * len(own) + 12 * len(both))):
        v = Val(rnd.getrandbits(60))
        few = i % 4 == 3
        share = (0.25, 0.25, 0.6, 0.9)[rnd.randrange(4)]
        goals = [c for c in own if rnd.random() < (0.3 if few else 0.85)] + [c for c in both if rnd.random() < share] + [c for c in pre if rnd.random() < 0.3]
        rnd.shuffle(goals)
        for k, x, y in goals:
            delta = 0
            if k == 'lt':
                delta = rnd.choice((-1, 0, 1))
            elif k == 'trunc':
                delta = rnd.choice((0, 3, 100))
            try:
                v.steer((x, y, delta), rnd)
            except (Skip, OverflowError, ValueError, ZeroDivisionError, RecursionError, TypeError):
                pass
        yield v


def equal(a, b, assume=(), seed=1, rounds=90):
    """True / False / None (undecided). assume: terms that hold."""
    a, b = getattr(a, 't', a), getattr(b, 't', b)
    assume = [getattr(c, 't', c) for c in assume]
    m = {}
    for c in assume:
        m[c] = TRUE
        m[not_(c)] = FALSE
    if m:
        a, b = subst(a, m), subst(b, m)
    if a == b:
        return True
    if opaque(a) or opaque(b):
        return None
    if unmodelled(a) != unmodelled(b):
        return None
    rnd = random.Random(seed)
    checked = 0
    steer = list(steered(a, b, seed, assume))
    for i in range(rounds * 20 + len(steer)):
        v = steer[i] if i < len(steer) else Val(rnd.getrandbits(60))
        v.budget = 60000
        try:
            if not all(v.tr(c, ()) for c in assume):
                continue
            x, y = v.ev(a), v.ev(b)
        except Skip:
            continue
        except (OverflowError, ValueError, ZeroDivisionError, RecursionError, TypeError):
            return None
        if isinstance(x, tuple) != isinstance(y, tuple):
            x, y = v.scalar(x), v.scalar(y)
        if x != y:
            if isinstance(x, tuple) and isinstance(y, tuple) and v.scalar(x) == v.scalar(y):
                continue        # two symbols that happen to have the same value here
            return False
        if i < len(steer):
            continue
        checked += 1
        if checked >= rounds:
            return True
    return None if checked == 0 else True
