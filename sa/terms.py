"""Canonical terms (global value numbering domain).

A term is a nested tuple.  Arithmetic is kept in polynomial normal form over atoms, boolean structure is
flattened, comparisons are oriented, conditional values are normalised.  Two expressions that differ only
by re-association, commutation, helper extraction, temporaries or control-flow restructuring therefore
usually receive the identical term; `ri.py` closes the remaining gap."""
from fractions import Fraction
from functools import lru_cache

TRUE, FALSE = ('b', True), ('b', False)


def Q(v):
    """rational in the cheapest exact representation"""
    if isinstance(v, int):
        return int(v)
    v = Fraction(v)
    return v.numerator if v.denominator == 1 else v


def N(v):
    return ('n', Q(v))


ZERO, ONE = N(0), N(1)


@lru_cache(maxsize=None)
def key(t):
    return repr(t)


def is_num(t):
    return t[0] == 'n'


def num(t):
    """constant value of a term or None"""
    if t[0] == 'n':
        return t[1]
    if t[0] == 'b':
        return 1 if t[1] else 0
    if t[0] == 'enum':
        return Q(t[2])
    return None


# ---------------------------------------------------------------- polynomials
def _topoly(t):
    if t[0] == 'n':
        return {(): t[1]} if t[1] else {}
    if t[0] == 'b':
        return {(): 1} if t[1] else {}
    if t[0] == '+':
        return dict(t[1])
    return {((t, 1),): 1}


def _frompoly(p):
    p = {m: Q(c) for m, c in p.items() if c}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if not m:
            return ('n', c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return ('+', tuple(sorted(p.items(), key=lambda x: repr(x[0]))))


@lru_cache(maxsize=200000)
def add(a, b):
    p = _topoly(a)
    for m, c in _topoly(b).items():
        p[m] = p.get(m, 0) + c
    return _frompoly(p)


def _mulmono(a, b):
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda y: (key(y[0]), y[1])))


@lru_cache(maxsize=200000)
def mul(a, b):
    # a product with a conditional distributes only over constant factors
    pa, pb = _topoly(a), _topoly(b)
    r = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mulmono(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    return _frompoly(r)


def neg(a):
    return mul(N(-1), a)


def sub(a, b):
    return add(a, neg(b))


@lru_cache(maxsize=100000)
def fdiv(a, b):
    if b[0] == 'n':
        if b[1] == 0:
            return ('fdiv0', a)
        return mul(a, N(Fraction(1) / b[1]))
    p = _topoly(b)
    if len(p) == 1:
        (m, c), = p.items()
        inv = _frompoly({tuple((x, -e) for x, e in m): Fraction(1) / c})
        return mul(a, inv)
    # normalise the leading coefficient of the denominator
    lead = sorted(p.items(), key=lambda x: repr(x[0]))[0][1]
    d = _frompoly({m: Fraction(c) / lead for m, c in p.items()})
    return mul(a, _frompoly({((('den', d), -1),): Fraction(1) / lead}))


def idiv(a, b):
    if b == ONE:
        return a
    if b[0] == 'pow2':
        return shr(a, b[1])
    if is_num(a) and is_num(b) and b[1] != 0:
        q = abs(a[1]) // abs(b[1])
        return N(q if (a[1] < 0) == (b[1] < 0) else -q)
    if a == ZERO:
        return ZERO
    # (c*x)/c
    if is_num(b) and b[1] != 0:
        p = _topoly(a)
        if p and all((Fraction(c) / b[1]).denominator == 1 for c in p.values()):
            return _frompoly({m: Fraction(c) / b[1] for m, c in p.items()})
    if a[0] == 'idiv' and is_num(b) and is_num(a[2]):
        return idiv(a[1], N(b[1] * a[2][1]))
    return ('idiv', a, b)


def mod(a, b):
    if is_num(a) and is_num(b) and b[1] > 0 and a[1] >= 0:
        return N(a[1] % b[1])
    if b == ONE:
        return ZERO
    if b[0] == 'n' and a[0] == 'mod' and a[2] == b:
        return a
    return ('mod', a, b)


def shl(a, b):
    if is_num(b) and 0 <= b[1] < 64:
        return mul(a, N(2 ** int(b[1])))
    if a == ZERO:
        return ZERO
    return mul(a, ('pow2', b))


def shr(a, b):
    if is_num(b) and 0 <= b[1] < 64:
        return idiv(a, N(2 ** int(b[1])))
    if a == ZERO:
        return ZERO
    if a[0] == 'shr':
        return ('shr', a[1], add(a[2], b))
    return ('shr', a, b)


def bitop(op, a, b):
    ca, cb = num(a), num(b)
    if ca is not None and cb is not None and ca >= 0 and cb >= 0:
        x, y = int(ca), int(cb)
        return N({'&': x & y, '|': x | y, '^': x ^ y}[op])
    for x, y in ((a, b), (b, a)):
        if num(x) == 0:
            return ZERO if op == '&' else y
    if a == b and op in '&|':
        return a
    if a == b and op == '^':
        return ZERO
    args = []
    for x in (a, b):
        if x[0] == 'bit' + op:
            args += x[1]
        else:
            args.append(x)
    return ('bit' + op, tuple(sorted(args, key=key)))


# ---------------------------------------------------------------- booleans
BOOLS = {'b', 'tb', 'lt', 'eq', 'not', 'and', 'or', 'has', 'pred'}


def is_bool(t):
    return t[0] in BOOLS


@lru_cache(maxsize=100000)
def not_(a):
    if a[0] == 'b':
        return ('b', not a[1])
    if a[0] == 'not':
        return a[1]
    if a[0] == 'and':
        return or_(*[not_(x) for x in a[1]])
    if a[0] == 'or':
        return and_(*[not_(x) for x in a[1]])
    return ('not', a)


def _junct(tag, unit, zero, args):
    out, seen = [], set()
    for a in args:
        xs = a[1] if a[0] == tag else (a,)
        for x in xs:
            if x == unit:
                continue
            if x == zero:
                return zero
            if x not in seen:
                seen.add(x)
                out.append(x)
    for x in out:
        if not_(x) in seen:
            return zero
    # absorption / unit propagation one level deep:  a && (b || !a) -> a && b
    dual = 'or' if tag == 'and' else 'and'
    changed = False
    new = []
    for x in out:
        if x[0] == dual:
            if any(y in seen for y in x[1]):
                changed = True
                continue
            ys = tuple(y for y in x[1] if not_(y) not in seen)
            if len(ys) != len(x[1]):
                changed = True
                new.append((or_ if tag == 'and' else and_)(*ys))
                continue
        new.append(x)
    if changed:
        return _junct(tag, unit, zero, new)
    # mutually exclusive / implied equalities with constants
    if tag == 'and':
        eqs = {}
        for x in new:
            if x[0] == 'eq':
                for u, v in ((x[1], x[2]), (x[2], x[1])):
                    if num(u) is not None and num(v) is None:
                        if v in eqs and eqs[v] != num(u):
                            return zero
                        eqs[v] = num(u)
        if eqs:
            n2 = []
            for x in new:
                if x[0] == 'not' and x[1][0] == 'eq':
                    drop = False
                    for u, v in ((x[1][1], x[1][2]), (x[1][2], x[1][1])):
                        if num(u) is not None and v in eqs:
                            if eqs[v] == num(u):
                                return zero
                            drop = True
                    if drop:
                        continue
                n2.append(x)
            new = n2
    if not new:
        return unit
    if len(new) == 1:
        return new[0]
    return (tag, tuple(sorted(new, key=key)))


def and_(*args):
    return _junct('and', TRUE, FALSE, args)


def or_(*args):
    r = _junct('or', FALSE, TRUE, args)
    if r[0] == 'or':
        # (a && b) || (a && !b) -> a
        xs = list(r[1])
        for i in range(len(xs)):
            for j in range(i + 1, len(xs)):
                a = set(xs[i][1]) if xs[i][0] == 'and' else {xs[i]}
                b = set(xs[j][1]) if xs[j][0] == 'and' else {xs[j]}
                d1, d2 = a - b, b - a
                if len(d1) == 1 and len(d2) == 1 and not_(next(iter(d1))) == next(iter(d2)):
                    rest = xs[:i] + xs[i + 1:j] + xs[j + 1:]
                    return or_(and_(*(a & b)), *rest)
    return r


def ispow2(t):
    """k when t is 2**k"""
    if t[0] == 'pow2':
        return t[1]
    c = num(t)
    if c is not None and c > 0 and c.denominator == 1 and (int(c) & (int(c) - 1)) == 0:
        return N(int(c).bit_length() - 1)
    if t[0] == '+' and len(t[1]) == 1:
        m, c = t[1][0]
        if len(m) == 1 and m[0][1] == 1 and m[0][0][0] == 'pow2':
            k = ispow2(('n', c))
            if k is not None:
                return add(k, m[0][0][1])
    return None


def tbit(x):
    """x != 0 as a single test-bit predicate, when x is such a test"""
    if x[0] == 'bit&' and len(x[1]) == 2:
        for u, v in (x[1], x[1][::-1]):
            k = ispow2(u)
            if k is not None:
                return tb(v, k)
    if x[0] == 'mod' and x[2] == N(2):
        return tb(x[1], ZERO)
    return None


def tb(v, k):
    if v[0] == 'shr':
        return tb(v[1], add(v[2], k))
    if v[0] == 'idiv' and num(v[2]) is not None:
        j = ispow2(v[2])
        if j is not None:
            return tb(v[1], add(j, k))
    if num(v) is not None and num(k) is not None:
        return TRUE if (int(num(v)) >> int(num(k))) & 1 else FALSE
    return ('tb', v, k)


def eq(a, b):
    if a == ('null',):
        a = ZERO
    if b == ('null',):
        b = ZERO
    if a == b:
        return TRUE
    ca, cb = num(a), num(b)
    if ca is not None and cb is not None:
        return TRUE if ca == cb else FALSE
    if a[0] == 'str' and b[0] == 'str':
        return FALSE
    for x, y in ((a, b), (b, a)):
        if x[0] == 'fnd' and y[0] == 'it' and y[1] == x[1] and num(y[2]) is None:
            return not_(('has', ('i', x[2], x[3])))   # find(k) == end()
    if a == ('zero',) and cb is not None:
        return TRUE if cb == 0 else FALSE
    if b == ('zero',) and ca is not None:
        return TRUE if ca == 0 else FALSE
    for x, y in ((a, b), (b, a)):
        if is_bool(x) and num(y) is not None:
            return x if num(y) == 1 else (not_(x) if num(y) == 0 else FALSE)
    if is_bool(a) and is_bool(b):
        return ('eq',) + tuple(sorted((a, b), key=key))
    for x, y in ((a, b), (b, a)):
        if y == ZERO:
            k = tbit(x)
            if k is not None:
                return not_(k)
        if y == ONE and x[0] == 'mod' and x[2] == N(2):
            return tbit(x)
        if x[0] == 'bit&' and y in x[1]:
            k = tbit(x)
            if k is not None and ispow2(y) is not None:
                return k
    # move everything to one side, normalise the sign
    if not (a[0] in ('null', 'str', 'enum') or b[0] in ('null', 'str', 'enum')):
        d = sub(a, b)
        c = num(d)
        if c is not None:
            return TRUE if c == 0 else FALSE
        p = sorted(_topoly(d).items(), key=lambda x: repr(x[0]))
        pos = _frompoly({m: c for m, c in p if c > 0})
        ng = _frompoly({m: -c for m, c in p if c < 0})
        # a constant goes to the side that keeps it positive; orientation is canonical by key
        a, b = sorted((pos, ng), key=key)
    else:
        a, b = sorted((a, b), key=key)
    return ('eq', a, b)


def lt(a, b, unsigned=False):
    ca, cb = num(a), num(b)
    if ca is not None and cb is not None:
        return TRUE if ca < cb else FALSE
    if a == b:
        return FALSE
    if unsigned:
        if cb is not None and cb <= 0:
            return FALSE
        if cb == 1:
            return eq(a, ZERO)
        if ca == 0:
            return not_(eq(b, ZERO))
    return ('lt', a, b)


def truth(t):
    """value used as a condition"""
    if is_bool(t):
        return t
    c = num(t)
    if c is not None:
        return TRUE if c else FALSE
    if t[0] == 'ite':
        return or_(and_(t[1], truth(t[2])), and_(not_(t[1]), truth(t[3])))
    if t[0] in ('null', 'zero'):
        return FALSE
    return not_(eq(t, ZERO))


@lru_cache(maxsize=100000)
def ite(c, a, b):
    if c[0] == 'b':
        return a if c[1] else b
    if a == b:
        return a
    if c[0] == 'not':
        return ite(c[1], b, a)
    if is_bool(a) or is_bool(b):
        if (is_bool(a) or num(a) in (0, 1)) and (is_bool(b) or num(b) in (0, 1)):
            if is_bool(a) and is_bool(b) or (a[0] == 'b' or b[0] == 'b'):
                return or_(and_(c, truth(a)), and_(not_(c), truth(b)))
            if num(b) == 0 and is_bool(a):
                return and_(c, a)
    a = assume(a, c, True)
    b = assume(b, c, False)
    if a == b:
        return a
    if a[0] in ('agg', 'it', 'lam', 'str', 'null', 'addr') or b[0] in ('agg', 'it', 'lam', 'str', 'null', 'addr'):
        if a[0] == 'agg' and b[0] == 'agg' and a[1] == b[1]:
            da, db = dict(a[2]), dict(b[2])
            keys = list(da) + [k for k in db if k not in da]
            if all(k in da and k in db for k in keys):
                return ('agg', a[1], tuple((k, ite(c, da[k], db[k])) for k in keys))
        if a[0] == 'it' and b[0] == 'it' and a[1] == b[1]:
            return ('it', a[1], ite(c, a[2], b[2]))
        return ('ite', c, a, b)
    # pull out the common part of a disjunction or exclusive or
    for op in '|^':
        xa = list(a[1]) if a[0] == 'bit' + op else [a]
        xb = list(b[1]) if b[0] == 'bit' + op else [b]
        if len(xa) != len(xb) and num(a) is None and num(b) is None:
            big, small = (xa, xb) if len(xa) > len(xb) else (xb, xa)
            if all(x in big for x in small):
                rest = [x for x in big if x not in small]
                if len(rest) == len(big) - len(small):
                    r = rest[0]
                    for x in rest[1:]:
                        r = bitop(op, r, x)
                    return bitop(op, a if big is xb else b, ite(c, r, ZERO) if big is xa else ite(c, ZERO, r))
    # pull out the common part of a sum
    pa, pb = _topoly(a), _topoly(b)
    common = {m: co for m, co in pa.items() if pb.get(m) == co and m}
    if common:
        cm = _frompoly(common)
        return add(cm, ite(c, sub(a, cm), sub(b, cm)))
    return ('ite', c, a, b)


def assume(t, c, val):
    """simplify nested conditionals of t under the assumption c == val (one level)"""
    if t[0] == 'ite':
        if t[1] == c:
            return t[2] if val else t[3]
        if t[1] == not_(c):
            return t[3] if val else t[2]
        if val and c[0] == 'and' and t[1] in c[1]:
            return t[2]
        if val and c[0] == 'and' and not_(t[1]) in c[1]:
            return t[3]
    return t


def subst(t, m, memo=None):
    """replace sub-terms by the mapping m, renormalising"""
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    if not isinstance(t, tuple) or not t or t[0] in ('n', 'b', 'enum', 'str', 's', 'v', 'null'):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t[0] == 'sum' and t[1] in m:
        # the index is bound here
        r = rebuild(t, lambda x: x if x == t[1] else subst(x, m if x == t[2] else {k: v for k, v in m.items() if k != t[1]}))
    else:
        r = rebuild(t, lambda x: subst(x, m, memo))
    memo[t] = r
    return r


def rebuild(t, f):
    h = t[0]
    if h == '+':
        acc = ZERO
        for mono, c in t[1]:
            term = ('n', c)
            for x, e in mono:
                y = f(x)
                if e > 0:
                    for _ in range(e):
                        term = mul(term, y)
                else:
                    if y[0] == 'den':
                        y = y[1]
                    for _ in range(-e):
                        term = fdiv(term, y)
            acc = add(acc, term)
        return acc
    if h == 'den':
        return ('den', f(t[1]))
    if h == 'ite':
        return ite(f(t[1]), f(t[2]), f(t[3]))
    if h == 'and':
        return and_(*[f(x) for x in t[1]])
    if h == 'or':
        return or_(*[f(x) for x in t[1]])
    if h == 'not':
        return not_(f(t[1]))
    if h == 'eq':
        return eq(f(t[1]), f(t[2]))
    if h == 'lt':
        return lt(f(t[1]), f(t[2]))
    if h == 'idiv':
        return idiv(f(t[1]), f(t[2]))
    if h == 'mod':
        return mod(f(t[1]), f(t[2]))
    if h == 'tb':
        return tb(f(t[1]), f(t[2]))
    if h == 'shr':
        return shr(f(t[1]), f(t[2]))
    if h == 'pow2':
        return shl(ONE, f(t[1]))
    if h in ('bit&', 'bit|', 'bit^'):
        xs = [f(x) for x in t[1]]
        r = xs[0]
        for x in xs[1:]:
            r = bitop(h[3], r, x)
        return r
    return (h,) + tuple(_fx(x, f) for x in t[1:])


def _fx(x, f):
    if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] != '':
        return f(x)
    if isinstance(x, tuple):
        return tuple(_fx(y, f) for y in x)
    return x


def subterms(t, out=None):
    if out is None:
        out = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if not isinstance(x, tuple):
            continue
        if x in out:
            continue
        if x and isinstance(x[0], str):
            out.add(x)
        for y in x:
            if isinstance(y, tuple):
                stack.append(y)
    return out


def mentions(t, pred):
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if not isinstance(x, tuple) or id(x) in seen:
            continue
        seen.add(id(x))
        if x and isinstance(x[0], str) and pred(x):
            return True
        stack.extend(x)
    return False


# ---------------------------------------------------------------- printing
def show(t):
    if not isinstance(t, tuple) or not t:
        return str(t)
    h = t[0]
    if h == 'n':
        f = t[1]
        return str(f.numerator) if f.denominator == 1 else '%g' % float(f)
    if h == 'b':
        return 'true' if t[1] else 'false'
    if h == 'enum':
        return t[1].split('::')[-1]
    if h == 'str':
        return repr(t[1])
    if h == 's':
        return t[1]
    if h in ('f', 'i') and len(t) == 2:
        return str(t[1]) if h == 'f' else '[%s]' % show(t[1])
    if h == 'f':
        b = show(t[1])
        return t[2] if b == 'this' and False else '%s.%s' % (b, t[2])
    if h == 'i':
        return '%s[%s]' % (show(t[1]), show(t[2]))
    if h == 'd':
        return '*%s' % show(t[1])
    if h == 'v':
        return 'local#%s' % (t[1],)
    if h == '+':
        ps = []
        for m, c in t[1]:
            fs = []
            if c != 1 or not m:
                fs.append('-' if c == -1 and m else show(('n', c)))
            for x, e in m:
                s = show(x)
                if x[0] in ('+',):
                    s = '(%s)' % s
                fs.append(s if e == 1 else '%s^%d' % (s, e))
            ps.append('*'.join(fs).replace('-*', '-'))
        return '(' + ' + '.join(ps) + ')'
    if h == 'den':
        return show(t[1])
    if h == 'not':
        return '!' + show(t[1])
    if h in ('and', 'or'):
        return '(' + (' && ' if h == 'and' else ' || ').join(show(x) for x in t[1]) + ')'
    if h == 'eq':
        return '(%s == %s)' % (show(t[1]), show(t[2]))
    if h == 'lt':
        return '(%s < %s)' % (show(t[1]), show(t[2]))
    if h == 'ite':
        return '(%s ? %s : %s)' % (show(t[1]), show(t[2]), show(t[3]))
    if h == 'agg':
        return '%s{%s}' % (show(t[1]) if t[1] else '', ', '.join('%s=%s' % ('.'.join(show(q) if isinstance(q, tuple) else str(q) for q in k), show(v)) for k, v in t[2]))
    if h in ('bit&', 'bit|', 'bit^'):
        return '(' + (' %s ' % h[3]).join(show(x) for x in t[1]) + ')'
    return '%s(%s)' % (h, ', '.join(show(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else
                                    ('[' + ', '.join(show(y) for y in x) + ']' if isinstance(x, tuple) else str(x)) for x in t[1:]))
