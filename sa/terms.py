"""Term algebra: the abstract values of the analysis.

A value is a Python constant (int / Fraction / bool / str / None), a tuple, a reference to an abstract heap object, or a
Term.  Terms are value-graph nodes in a normal form:

  * Poly  -- a Laurent polynomial with rational coefficients over atoms (sums, products, powers, quotients);
  * Atom  -- any other operation applied to values (uninterpreted, or with a few algebraic rewrites).

Two terms are equal iff their digests are equal; distinct Python objects with equal digests stand for distinct run-time
tensors with equal contents (object identity is used only for in-place updates).
"""
from fractions import Fraction
from math import ceil, floor, gcd
import hashlib

MAX_MONOMIALS = 4000


class Slice:
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step=None):
        self.lo, self.hi, self.step = lo, hi, step

    def __repr__(self):
        return f"{'' if self.lo is None else show(self.lo)}:{'' if self.hi is None else show(self.hi)}" + \
               (f":{show(self.step)}" if self.step is not None else '')


class Term:
    __slots__ = ('dig', 'kind', 'loc')

    def __eq__(self, other):
        return isinstance(other, Term) and self.dig == other.dig

    def __ne__(self, other):
        return not self.__eq__(other)

    def __hash__(self):
        return hash(self.dig)

    def __repr__(self):
        return show(self)


class Atom(Term):
    __slots__ = ('op', 'args', 'meta')

    def __init__(self, op, args=(), kind='tensor', meta=None):
        self.op, self.args, self.kind, self.meta = op, tuple(args), kind, meta
        self.dig = _h('A', op, *[dig(a) for a in self.args])
        self.loc = None


class Poly(Term):
    __slots__ = ('terms',)

    def __init__(self, terms, kind='tensor'):
        self.terms = terms
        self.kind = kind
        items = sorted((_monodig(m), c) for m, c in terms.items())
        self.dig = _h('P', *[f"{d}*{c}" for d, c in items])
        self.loc = None


def _h(*parts):
    m = hashlib.blake2b(digest_size=12)
    for p in parts:
        m.update(str(p).encode())
        m.update(b'\x00')
    return m.hexdigest()


def _monodig(m):
    return '|'.join(f"{a.dig}^{e}" for a, e in m)


def dig(v):
    if isinstance(v, Term):
        return v.dig
    if v is None or v is Ellipsis:
        return repr(v)
    if isinstance(v, bool):
        return f"b{v}"
    if isinstance(v, (int, Fraction)):
        return f"n{Fraction(v)}"
    if isinstance(v, str):
        return "s" + v
    if isinstance(v, tuple):
        return _h('T', *[dig(x) for x in v])
    if isinstance(v, Slice):
        return _h('S', dig(v.lo), dig(v.hi), dig(v.step))
    if hasattr(v, 'sadig'):
        return v.sadig()
    return f"o{type(v).__name__}{id(v)}"


def same(a, b):
    return a is b or dig(a) == dig(b)


def isnum(v):
    return isinstance(v, (int, Fraction)) and not isinstance(v, bool)


def norm(n):
    if isinstance(n, Fraction) and n.denominator == 1:
        return int(n)
    return n


def is_arith(v):
    return isnum(v) or isinstance(v, bool) or isinstance(v, Term)


def _kind(*vs):
    ks = [v.kind for v in vs if isinstance(v, Term)]
    if 'tensor' in ks:
        return 'tensor'
    if not ks:
        return 'num'
    if 'unk' in ks:
        return 'unk'
    if all(k in ('num', 'bool') for k in ks):
        return 'num'
    return 'tensor'


def pterms(v):
    """monomial dictionary of an arithmetic value"""
    if isinstance(v, bool):
        v = int(v)
    if isnum(v):
        return {(): Fraction(v)} if v != 0 else {}
    if isinstance(v, Poly):
        return v.terms
    return {((v, Fraction(1)),): Fraction(1)}


def mk(terms, kind):
    terms = {m: c for m, c in terms.items() if c != 0}
    if not terms:
        return 0
    if len(terms) == 1:
        (m, c), = terms.items()
        if m == ():
            return norm(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return Poly(terms, kind)


def add(a, b):
    t = dict(pterms(a))
    for m, c in pterms(b).items():
        t[m] = t.get(m, 0) + c
    return mk(t, _kind(a, b))


def neg(a):
    return mk({m: -c for m, c in pterms(a).items()}, _kind(a))


def sub(a, b):
    return add(a, neg(b))


def _monomul(m1, m2):
    d = {}
    for a, e in m1 + m2:
        if a.dig in d:
            d[a.dig] = (a, d[a.dig][1] + e)
        else:
            d[a.dig] = (a, e)
    return tuple(sorted(((a, e) for a, e in d.values() if e != 0), key=lambda p: p[0].dig))


def _needs_expand(m):
    return [(a, e) for a, e in m if isinstance(a, Atom) and a.op == 'group' and e.denominator == 1 and e > 0]


def mul(a, b):
    ta, tb = pterms(a), pterms(b)
    if len(ta) * len(tb) > MAX_MONOMIALS:
        return Atom('bigmul', tuple(sorted((a, b), key=dig)), _kind(a, b))
    t = {}
    extra = []
    for m1, c1 in ta.items():
        for m2, c2 in tb.items():
            m = _monomul(m1, m2)
            ex = _needs_expand(m)
            if ex:
                v = mk({tuple(p for p in m if p not in ex): c1 * c2}, _kind(a, b))
                for g, e in ex:
                    for _ in range(int(e)):
                        v = mul(v, g.args[0])
                extra.append(v)
            else:
                t[m] = t.get(m, 0) + c1 * c2
    r = mk(t, _kind(a, b))
    for v in extra:
        r = add(r, v)
    return r


def group(p):
    """atom standing for a non-monomial polynomial, and its scalar content"""
    lead = _lead(p)
    q = mk({m: c / lead for m, c in p.terms.items()}, p.kind)
    return Atom('group', (q,), p.kind), lead


def _lead(p):
    m = min(p.terms, key=_monodig)
    return p.terms[m]


def power(a, e):
    """a ** e"""
    if isinstance(e, bool):
        e = int(e)
    if isnum(e):
        e = Fraction(e)
        if e == 0:
            return 1
        if e == 1:
            return a
        ta = pterms(a)
        if not ta:
            return 0 if e > 0 else Atom('div0', ())
        if len(ta) == 1:
            (m, c), = ta.items()
            cc = None
            if e.denominator == 1:
                cc = c ** int(e)
            elif c == 1:
                cc = Fraction(1)
            else:
                r = _rootfrac(c, e)
                cc = r
            if cc is not None:
                # (u^2)^(1/2) = |u|; keep sound by refusing even-root collapse of even powers of non-positive atoms
                mm = []
                ok = True
                for at, ex in m:
                    ne = ex * e
                    if e.denominator % 2 == 0 and ex.denominator == 1 and ex % 2 == 0:
                        ok = False
                    mm.append((at, ne))
                if ok:
                    mm = tuple(sorted(mm, key=lambda p: p[0].dig))
                    if _needs_expand(mm):
                        return mul(mk({mm: Fraction(1)}, _kind(a)), norm(cc))
                    return mk({mm: cc}, _kind(a))
            return Atom('pow', (a, norm(e)), _kind(a))
        if e.denominator == 1 and e > 0 and len(ta) ** int(e) < MAX_MONOMIALS and e <= 8:
            r = a
            for _ in range(int(e) - 1):
                r = mul(r, a)
            return r
        g, lead = group(a)
        lc = None
        if e.denominator == 1:
            lc = lead ** int(e)
        elif lead > 0:
            lc = _rootfrac(lead, e) if lead != 1 else Fraction(1)
        if lc is None:
            if lead == -1 or lead < 0:
                g = Atom('group', (a,), _kind(a))
                return mk({((g, e),): Fraction(1)}, _kind(a))
            g = Atom('group', (a,), _kind(a))
            return mk({((g, e),): Fraction(1)}, _kind(a))
        return mk({((g, e),): lc}, _kind(a))
    # symbolic exponent
    if isnum(a) and a == 1:
        return 1
    if isinstance(a, Atom) and a.op == 'const' and a.args == ('e',):
        return Atom('exp', (e,), _kind(e))
    le = pterms(e)
    if le and min(le.items(), key=lambda p: _monodig(p[0]))[1] < 0:
        return power(Atom('pow', (a, neg(e)), _kind(a, e)), -1)
    return Atom('pow', (a, e), _kind(a, e))


def _rootfrac(c, e):
    """c**e for rational c>0 if exact, else None"""
    if c <= 0:
        return None
    c = Fraction(c)
    num = c ** e.numerator
    d = e.denominator

    def root(n):
        r = round(n ** (1.0 / d))
        for k in (r - 1, r, r + 1):
            if k >= 0 and k ** d == n:
                return k
        return None
    p, q = root(num.numerator), root(num.denominator)
    if p is None or q is None:
        return None
    return Fraction(p, q)


def div(a, b):
    if isnum(b) and b == 0:
        return Atom('div0', (a,))
    return mul(a, power(b, -1))


# ---------------------------------------------------------------- booleans
TRUE, FALSE = True, False


def not_(c):
    if isinstance(c, bool):
        return not c
    if isinstance(c, Atom) and c.op == 'not':
        return c.args[0]
    if isinstance(c, Atom) and c.op == 'and':
        return or_(*[not_(x) for x in c.args])
    if isinstance(c, Atom) and c.op == 'or':
        return and_(*[not_(x) for x in c.args])
    if isinstance(c, Atom) and c.op == 'ite':
        return ite(c.args[0], not_(c.args[1]), not_(c.args[2]))
    return Atom('not', (c,), 'bool')


def _flat(op, cs):
    out = []
    for c in cs:
        if isinstance(c, Atom) and c.op == op:
            out.extend(c.args)
        else:
            out.append(c)
    u, seen = [], set()
    for c in out:
        d = dig(c)
        if d not in seen:
            seen.add(d)
            u.append(c)
    return u


def and_(*cs):
    cs = _flat('and', cs)
    if any(c is False for c in cs):
        return False
    cs = [c for c in cs if c is not True]
    if not cs:
        return True
    ds = {dig(c) for c in cs}
    for c in cs:
        if dig(not_(c)) in ds:
            return False
    # absorption: a and (a or b) = a ; a and (not a or b) = a and b
    out = []
    changed = False
    for c in cs:
        if isinstance(c, Atom) and c.op == 'or':
            if any(dig(x) in ds for x in c.args):
                changed = True
                continue
            keep = [x for x in c.args if dig(not_(x)) not in ds]
            if len(keep) != len(c.args):
                changed = True
                c = or_(*keep)
        out.append(c)
    if changed:
        return and_(*out)
    if len(cs) == 1:
        return cs[0]
    return Atom('and', sorted(cs, key=dig), 'bool')


def or_(*cs):
    cs = _flat('or', cs)
    if any(c is True for c in cs):
        return True
    cs = [c for c in cs if c is not False]
    if not cs:
        return False
    ds = {dig(c) for c in cs}
    for c in cs:
        if dig(not_(c)) in ds:
            return True
    out = []
    changed = False
    for c in cs:
        if isinstance(c, Atom) and c.op == 'and':
            if any(dig(x) in ds for x in c.args):
                changed = True
                continue
            keep = [x for x in c.args if dig(not_(x)) not in ds]
            if len(keep) != len(c.args):
                changed = True
                c = and_(*keep)
        out.append(c)
    if changed:
        return or_(*out)
    # (a & b) | (a & ~b) = a
    for i in range(len(cs)):
        for j in range(i + 1, len(cs)):
            x, y = cs[i], cs[j]
            xs = {dig(z): z for z in (x.args if isinstance(x, Atom) and x.op == 'and' else (x,))}
            ys = {dig(z): z for z in (y.args if isinstance(y, Atom) and y.op == 'and' else (y,))}
            dx, dy = [k for k in xs if k not in ys], [k for k in ys if k not in xs]
            if len(dx) == 1 and len(dy) == 1 and dig(not_(xs[dx[0]])) == dy[0]:
                rest = [cs[k] for k in range(len(cs)) if k not in (i, j)]
                return or_(and_(*[v for k, v in xs.items() if k in ys]), *rest)
    if len(cs) == 1:
        return cs[0]
    return Atom('or', sorted(cs, key=dig), 'bool')


def _scale(p):
    if isinstance(p, Poly):
        l = abs(_lead(p))
        if l != 1:
            return mk({m: c / l for m, c in p.terms.items()}, p.kind)
    return p


def _leadsign(p):
    if isinstance(p, Poly):
        return 1 if _lead(p) > 0 else -1
    return 1


def _minmax(p, cmp):
    """comparison of a polynomial linear in one maximum or minimum, as comparisons of its candidates"""
    ms = [(m, c) for m, c in pterms(p).items() if any(isinstance(a, Atom) and a.op in ('max', 'min') for a, _ in m)]
    if len(ms) != 1:
        return None
    (m, c), = ms
    if len(m) != 1 or m[0][1] != 1 or len(m[0][0].args) < 2 or not isinstance(m[0][0].args, tuple) or len(m[0][0].args) > 4:
        return None
    a = m[0][0]
    r = sub(p, mk({m: c}, p.kind if isinstance(p, Term) else 'num'))
    parts = [cmp(add(mul(c, x), r), 0) for x in a.args]
    return (or_ if (a.op == 'max') == (c > 0) else and_)(*parts)


def _ge_int(q, k):
    """q + k >= 0 for an integer-valued q"""
    if _leadsign(q) < 0:
        return not_(Atom('ge0', (add(neg(q), -k - 1),), 'bool'))
    return Atom('ge0', (add(q, k),), 'bool')


def _choices(p, op):
    """a comparison of a sum of truth values and of conditional numbers is a condition itself"""
    def arms(a):
        if a.kind == 'bool':
            return a, 1, 0
        if a.op == 'ite' and isnum(a.args[1]) and isnum(a.args[2]):
            return a.args
        return None
    if not isinstance(p, Poly) or len(p.terms) > 7:
        return None
    parts, const = [], 0
    for m, c in p.terms.items():
        if not m:
            const = c
        elif len(m) == 1 and m[0][1] == 1 and arms(m[0][0]):
            parts.append((c,) + tuple(arms(m[0][0])))
        else:
            return None
    if not parts:
        return None

    def expand(k, acc):
        if k == len(parts):
            return op(acc, 0)
        c, cond, a, b = parts[k]
        x, y = expand(k + 1, acc + c * a), expand(k + 1, acc + c * b)
        if x is True:
            return or_(cond, y)
        if y is True:
            return or_(not_(cond), x)
        if x is False:
            return and_(not_(cond), y)
        if y is False:
            return and_(cond, x)
        return x if same(x, y) else or_(and_(cond, x), and_(not_(cond), y))
    return expand(0, const)


def gt(a, b):
    p = sub(a, b)
    if isnum(p):
        return p > 0
    z = _choices(p, gt)
    if z is not None:
        return z
    z = _minmax(p, gt)
    if z is not None:
        return z
    z = _intscale(p)
    if z is not None:
        return _ge_int(z[0], -floor(-z[1]) - 1)
    p = _scale(p)
    if _leadsign(p) < 0:
        return not_(Atom('ge0', (neg(p),), 'bool'))
    return Atom('gt0', (p,), 'bool')


def ge(a, b):
    p = sub(a, b)
    if isnum(p):
        return p >= 0
    z = _choices(p, ge)
    if z is not None:
        return z
    z = _minmax(p, ge)
    if z is not None:
        return z
    z = _intscale(p)
    if z is not None:
        return _ge_int(z[0], floor(z[1]))
    p = _scale(p)
    if _leadsign(p) < 0:
        return not_(Atom('gt0', (neg(p),), 'bool'))
    return Atom('ge0', (p,), 'bool')


INTEGRAL = ('size', 'numel', 'idx', 'bv', 'count', 'len', 'floordiv', 'ndim', 'int')


def integral(v):
    if isnum(v):
        return Fraction(v).denominator == 1
    if isinstance(v, Poly):
        return all(Fraction(c).denominator == 1 and all(integral(a) and Fraction(e).denominator == 1 and e >= 0 for a, e in m) for m, c in v.terms.items())
    if isinstance(v, Atom):
        return v.op in INTEGRAL or bool((v.meta or {}).get('int', False))
    return False


def _intscale(p):
    """p = c*(q + k) with c > 0 and q a primitive integer combination without constant; None if p is not integer-valued up to scale"""
    if isinstance(p, Atom):
        return (p, 0) if integral(p) else None
    if not isinstance(p, Poly):
        return None
    t = {m: Fraction(c) for m, c in p.terms.items()}
    k = t.pop((), Fraction(0))
    if not t:
        return None
    l = 1
    for c in t.values():
        l = l * c.denominator // gcd(l, c.denominator)
    g = 0
    for c in t.values():
        g = gcd(g, int(c * l))
    t = {m: c * l / g for m, c in t.items()}
    q = mk(t, p.kind)
    if not integral(q):
        return None
    return q, k * l / g


def nonneg(v):
    """integer-valued and at least 0"""
    if isnum(v):
        return v >= 0
    if isinstance(v, Poly):
        return all(c > 0 and all(nonneg(a) for a, _ in m) for m, c in v.terms.items())
    return isinstance(v, Atom) and v.op in ('size', 'numel', 'idx', 'count', 'len', 'ndim')


def _constlike(v):
    return v is None or isinstance(v, (str, bool, tuple)) or isnum(v)


def eq(a, b):
    """a == b"""
    if same(a, b):
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return and_(*[eq(x, y) for x, y in zip(a, b)])
    if _constlike(a) and _constlike(b):
        if isinstance(a, bool) and isnum(b) or isnum(a) and isinstance(b, bool):
            return int(a) == int(b)
        return False if (type(a) is not type(b) and not (isnum(a) and isnum(b))) else a == b
    for x, y in ((a, b), (b, a)):
        if isinstance(y, bool) and isinstance(x, Term) and x.kind != 'num':
            return x if y else not_(x)
        if y is None:
            return isnone(x) if isinstance(x, Term) else False
        if isinstance(y, str):
            return Atom('eq', tuple(sorted((x, y), key=dig)), 'bool')
    if isinstance(a, Atom) and a.op == 'ite' or isinstance(b, Atom) and b.op == 'ite':
        pass
    if is_arith(a) and is_arith(b):
        p = sub(a, b)
        if isnum(p):
            return p == 0
        z = _choices(p, lambda v, w: v == w)
        if z is not None:
            return z
        p = _scale(p)
        if _leadsign(p) < 0:
            p = neg(p)
        return Atom('eq0', (p,), 'bool')
    return Atom('eq', tuple(sorted((a, b), key=dig)), 'bool')


def isnone(x):
    """whether a gradient is missing does not depend on a factor of it"""
    if isinstance(x, Atom) and x.op == 'maybe':
        v = x.args[0]
        if isinstance(v, Poly) and len(v.terms) == 1:
            (m, c), = v.terms.items()
            if c != 1:
                return Atom('isnone', (Atom('maybe', (mk({m: Fraction(1)}, v.kind),), x.kind, x.meta),), 'bool')
    return Atom('isnone', (x,), 'bool')


def _scaled_gradient(c, b):
    """a factor applied to a gradient that may be missing"""
    g = c.args[0]
    if isinstance(b, Poly) and len(b.terms) == 1:
        (m, k), = b.terms.items()
        if len(m) == 1 and m[0][1] == 1 and same(isnone(m[0][0]), c) and m[0][0].op == 'maybe':
            return Atom('maybe', (mul(k, m[0][0].args[0]),), g.kind, g.meta)
    if isinstance(b, Atom) and b.op == 'maybe' and same(isnone(b), c):
        return b
    return None


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if a is None and isinstance(c, Atom) and c.op == 'isnone' and isinstance(c.args[0], Atom) and c.args[0].op == 'maybe':
        r = _scaled_gradient(c, b)
        if r is not None:
            return r
    if same(a, b):
        return a
    if isinstance(c, Atom) and c.op == 'not':
        return ite(c.args[0], b, a)
    if isinstance(a, Atom) and a.op == 'ite' and same(a.args[0], c):
        a = a.args[1]
    if isinstance(b, Atom) and b.op == 'ite' and same(b.args[0], c):
        b = b.args[2]
    if same(a, b):
        return a
    if isinstance(b, Atom) and b.op == 'lazy' and isinstance(c, Atom) and c.op == 'isnone' and same(c.args[0], b) and same(b.args[0], a):
        return a
    if a is True and b is False:
        return c
    if a is False and b is True:
        return not_(c)
    if (isinstance(a, bool) or isinstance(a, Term) and a.kind == 'bool') and \
            (isinstance(b, bool) or isinstance(b, Term) and b.kind == 'bool'):
        return or_(and_(c, a), and_(not_(c), b))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    k = 'tensor' if any(isinstance(v, Term) and v.kind == 'tensor' for v in (a, b)) else \
        ('num' if all(isnum(v) or isinstance(v, Term) and v.kind == 'num' for v in (a, b)) else 'obj')
    return Atom('ite', (c, a, b), k)


def cond_atoms(c, acc=None):
    """the boolean literals a condition is built from"""
    if acc is None:
        acc = {}
    if isinstance(c, bool):
        return acc
    if isinstance(c, Atom) and c.op in ('not', 'and', 'or'):
        for x in c.args:
            cond_atoms(x, acc)
    elif isinstance(c, Atom) and c.op == 'ite':
        for x in c.args:
            cond_atoms(x, acc)
    elif isinstance(c, Term):
        acc[c.dig] = c
    return acc


# ---------------------------------------------------------------- generic traversal
REBUILD = {}   # op -> smart constructor, filled by the library model


def children(v):
    if isinstance(v, Atom):
        return v.args
    if isinstance(v, Poly):
        return [a for m in v.terms for a, _ in m]
    if isinstance(v, tuple):
        return v
    if isinstance(v, Slice):
        return (v.lo, v.hi, v.step)
    return ()


def subterms(v, seen=None):
    if seen is None:
        seen = set()
    if isinstance(v, Term):
        if v.dig in seen:
            return
        seen.add(v.dig)
        yield v
    for c in children(v):
        yield from subterms(c, seen)


def find(v, pred):
    return [t for t in subterms(v) if pred(t)]


def has(v, pred):
    for t in subterms(v):
        if pred(t):
            return True
    return False


def subst(v, f, memo=None):
    """rebuild v bottom-up; f(term) -> replacement or None is tried on every node first"""
    if memo is None:
        memo = {}
    if isinstance(v, Term):
        if v.dig in memo:
            return memo[v.dig]
        r = f(v)
        if r is None:
            r = _rebuild(v, f, memo)
        memo[v.dig] = r
        return r
    if isinstance(v, tuple):
        return tuple(subst(x, f, memo) for x in v)
    if isinstance(v, Slice):
        return Slice(subst(v.lo, f, memo), subst(v.hi, f, memo), subst(v.step, f, memo))
    return v


def _rebuild(v, f, memo):
    if isinstance(v, Poly):
        changed = False
        parts = []
        for m, c in v.terms.items():
            ms = []
            for a, e in m:
                na = subst(a, f, memo)
                if na is not a:
                    changed = True
                ms.append((na, e))
            parts.append((ms, c))
        if not changed:
            return v
        r = 0
        for ms, c in parts:
            p = norm(c)
            for a, e in ms:
                p = mul(p, power(a, e) if is_arith(a) else Atom('badarith', (a, norm(e))))
            r = add(r, p)
        return r
    nargs = tuple(subst(a, f, memo) for a in v.args)
    if all(x is y for x, y in zip(nargs, v.args)):
        return v
    return rebuild(v.op, nargs, v.kind, v.meta)


def rebuild(op, nargs, kind, meta=None):
    if op == 'not':
        return not_(nargs[0])
    if op == 'and':
        return and_(*nargs)
    if op == 'or':
        return or_(*nargs)
    if op == 'ite':
        return ite(*nargs)
    if op == 'gt0':
        return gt(nargs[0], 0)
    if op == 'ge0':
        return ge(nargs[0], 0)
    if op == 'eq0':
        return eq(nargs[0], 0)
    if op == 'eq':
        return eq(*nargs)
    if op == 'isnone':
        return eq(nargs[0], None)
    if op == 'group':
        return nargs[0]
    if op == 'pow':
        return power(*nargs)
    if op in REBUILD:
        return REBUILD[op](nargs, kind, meta)
    return Atom(op, nargs, kind, meta)


def replace(v, pairs):
    """pairs: list of (old term, new value)"""
    d = {dig(a): b for a, b in pairs}
    return subst(v, lambda t: d.get(t.dig))


def _linear(p):
    """p = s*q + c with q free of a constant term and led by coefficient 1 (primitive integer coefficients if p is
    integer-valued up to a positive factor); None for a number"""
    z = _intscale(p)
    if z is not None:
        q, k = z
        if _leadsign(q) < 0:
            return neg(q), Fraction(-1), Fraction(k)
        return q, Fraction(1), Fraction(k)
    t = dict(pterms(p))
    c = t.pop((), Fraction(0))
    if not t:
        return None
    q = mk(t, p.kind if isinstance(p, Term) else 'num')
    s = Fraction(1)
    if isinstance(q, Poly):
        s = Fraction(_lead(q))
        q = mk({m: k / s for m, k in q.terms.items()}, q.kind)
    return q, s, c


class Facts:
    """interval facts on polynomials, from order literals; bounds of integer-valued polynomials are rounded inwards"""

    def __init__(self, lits):
        self.b = {}        # dig(q) -> [lo, lo_strict, hi, hi_strict, set of excluded points]
        self.bad = False
        self.ints = {}
        for c, val in lits:
            if isinstance(c, Atom) and c.op in ('gt0', 'ge0', 'eq0'):
                l = _linear(c.args[0])
                if l is None:
                    continue
                q, s, k = l
                x = -k / s
                e = self.entry(q)
                if c.op == 'eq0':
                    if val:
                        self.lo(e, x, False)
                        self.hi(e, x, False)
                    else:
                        e[4].add(x)
                else:
                    strict = (c.op == 'gt0') == val
                    up = (s > 0) == val
                    (self.lo if up else self.hi)(e, x, strict)
        for d, e in self.b.items():
            if self.ints[d]:
                self.sharpen(e)
            if e[0] is not None and e[2] is not None and (e[0] > e[2] or e[0] == e[2] and (e[1] or e[3] or e[0] in e[4])):
                self.bad = True

    def entry(self, q):
        d = dig(q)
        if d not in self.b:
            self.ints[d] = integral(q)
            self.b[d] = [Fraction(0) if nonneg(q) else None, False, Fraction(0) if nonneg(neg(q)) else None, False, set()]
        return self.b[d]

    @staticmethod
    def sharpen(e):
        if e[0] is not None:
            v = Fraction(floor(e[0]) + 1 if e[1] else ceil(e[0]))
            while v in e[4]:
                v += 1
            e[0], e[1] = v, False
        if e[2] is not None:
            v = Fraction(ceil(e[2]) - 1 if e[3] else floor(e[2]))
            while v in e[4]:
                v -= 1
            e[2], e[3] = v, False

    @staticmethod
    def lo(e, x, strict):
        if e[0] is None or x > e[0] or x == e[0] and strict:
            e[0], e[1] = x, strict

    @staticmethod
    def hi(e, x, strict):
        if e[2] is None or x < e[2] or x == e[2] and strict:
            e[2], e[3] = x, strict

    def decide(self, t):
        l = _linear(t.args[0])
        if l is None:
            return None
        q, s, k = l
        e = self.entry(q)
        x = -k / s
        lo, ls, hi, hs, ex = e
        above = lo is not None and (lo > x or lo == x and (ls or x in ex))
        below = hi is not None and (hi < x or hi == x and (hs or x in ex))
        if t.op == 'eq0':
            if above or below or x in ex or self.ints[dig(q)] and x.denominator != 1:
                return False
            if lo is not None and lo == hi == x:
                return True
            return None
        atleast = lo is not None and lo >= x
        atmost = hi is not None and hi <= x
        if s < 0:
            above, below, atleast, atmost = below, above, atmost, atleast
        if t.op == 'gt0':
            return True if above else (False if atmost else None)
        return True if atleast else (False if below else None)


def assume(v, lits):
    """simplify v under boolean literals [(cond, bool)]"""
    d = {}
    order = []
    for c, val in lits:
        for cc, vv in explode(c, val):
            d[dig(cc)] = vv
            if isinstance(cc, Atom) and cc.op in ('gt0', 'ge0', 'eq0'):
                order.append((cc, vv))
    if not d:
        return v
    key = tuple(d.items())
    if key in ASSUMED:
        f, memo = ASSUMED[key]
        return subst(v, f, memo)
    facts = Facts(order) if order else None

    def f(t):
        r = d.get(t.dig)
        if r is None and facts is not None and isinstance(t, Atom) and t.op in ('gt0', 'ge0', 'eq0'):
            r = facts.decide(t)
        return r
    if len(ASSUMED) >= 48:
        ASSUMED.pop(next(iter(ASSUMED)))
    ASSUMED[key] = f, {}
    return subst(v, f, ASSUMED[key][1])


ASSUMED = {}    # literals -> simplification under them and what it has simplified already


def contradictory(lits):
    d = {}
    order = []
    for c, val in lits:
        for cc, vv in explode(c, val):
            if d.setdefault(dig(cc), vv) != vv:
                return True
            if isinstance(cc, Atom) and cc.op in ('gt0', 'ge0', 'eq0'):
                order.append((cc, vv))
    return bool(order) and Facts(order).bad


def explode(c, val):
    """literals implied by c == val"""
    if isinstance(c, bool):
        return []
    if isinstance(c, Atom) and c.op == 'not':
        return explode(c.args[0], not val)
    if isinstance(c, Atom) and c.op == 'and' and val:
        return [p for x in c.args for p in explode(x, True)]
    if isinstance(c, Atom) and c.op == 'or' and not val:
        return [p for x in c.args for p in explode(x, False)]
    out = [(c, val)]
    # order facts on the same polynomial
    if isinstance(c, Atom) and c.op == 'gt0':
        if val:
            out += [(Atom('ge0', c.args, 'bool'), True), (Atom('eq0', c.args, 'bool'), False)]
    if isinstance(c, Atom) and c.op == 'ge0' and not val:
        out += [(Atom('gt0', c.args, 'bool'), False), (Atom('eq0', c.args, 'bool'), False)]
    if isinstance(c, Atom) and c.op == 'eq0' and val:
        out += [(Atom('gt0', c.args, 'bool'), False), (Atom('ge0', c.args, 'bool'), True)]
    return out


def ite_conds(v):
    """condition literals of every ite (and boolean value) inside v"""
    acc = {}
    for t in subterms(v):
        if isinstance(t, Atom) and t.op == 'ite':
            cond_atoms(t.args[0], acc)
        if isinstance(t, Atom) and t.op in ('and', 'or', 'not'):
            cond_atoms(t, acc)
    return list(acc.values())


def equiv(a, b, lits=(), depth=14):
    """value-graph equivalence with Shannon expansion over the gating conditions; returns (True, None) or (False, witness)"""
    a, b = assume(a, lits), assume(b, lits)
    if same(a, b):
        return True, None
    cs = ite_conds(a) + ite_conds(b)
    # innermost conditions first: those that contain no ite themselves
    cs = [c for c in cs if not has(c, lambda t: isinstance(t, Atom) and t.op == 'ite')] or cs
    if not cs or depth == 0:
        return False, (list(lits), a, b)
    c = cs[0]
    for val in (True, False):
        nl = list(lits) + [(c, val)]
        if contradictory(nl):
            continue
        ok, w = equiv(a, b, nl, depth - 1)
        if not ok:
            return False, w
    return True, None


def leaves(v, lits=(), depth=12):
    """enumerate (literals, ite-free value)"""
    v = assume(v, lits)
    cs = ite_conds(v) if isinstance(v, (Term, tuple)) else []
    cs = [c for c in cs if not has(c, lambda t: isinstance(t, Atom) and t.op == 'ite')] or cs
    if not cs or depth == 0:
        return [(list(lits), v)]
    c = cs[0]
    out = []
    for val in (True, False):
        nl = list(lits) + [(c, val)]
        if not contradictory(nl):
            out += leaves(v, nl, depth - 1)
    return out


# ---------------------------------------------------------------- printing
def show(v, depth=7):
    if isinstance(v, Fraction):
        return str(v)
    if isinstance(v, (int, bool, str)) or v is None or v is Ellipsis:
        return '...' if v is Ellipsis else (repr(v) if isinstance(v, str) else str(v))
    if depth == 0:
        return '…'
    if isinstance(v, tuple):
        return '(' + ', '.join(show(x, depth - 1) for x in v) + ')'
    if isinstance(v, Slice):
        return repr(v)
    if isinstance(v, Poly):
        parts = []
        for m, c in sorted(v.terms.items(), key=lambda p: _monodig(p[0])):
            fs = [show(a, depth - 1) + ('' if e == 1 else f"^{e}") for a, e in m]
            if c != 1 or not fs:
                fs = [str(c) if c != -1 or not fs else '-1'] + fs
            parts.append('*'.join(fs))
        return '(' + ' + '.join(parts) + ')'
    if isinstance(v, Atom):
        if v.op == 'sym' or v.op == 'const':
            return str(v.args[0])
        if v.op == 'getitem':
            return f"{show(v.args[0], depth - 1)}[{', '.join(show(x, depth - 1) for x in v.args[1])}]"
        if v.op == 'call':
            return f"{show(v.args[0], depth - 1)}({', '.join(show(x, depth - 1) for x in v.args[1])})"
        if v.op == 'mcall':
            return f"{show(v.args[0], depth - 1)}.{v.args[1]}({', '.join(show(x, depth - 1) for x in (v.args[2] if len(v.args) > 2 and isinstance(v.args[2], tuple) else v.args[2:]))})"
        if v.op == 'group':
            return show(v.args[0], depth)
        if v.op == 'attr':
            return f"{show(v.args[0], depth - 1)}.{v.args[1]}"
        if v.op == 'ite':
            return f"ite({', '.join(show(x, depth - 1) for x in v.args)})"
        return f"{v.op}({', '.join(show(x, depth - 1) for x in v.args)})"
    return repr(v)


def first_difference(a, b, path=''):
    """smallest differing pair of sub-values reached along equal operators"""
    while True:
        if isinstance(a, Atom) and isinstance(b, Atom) and a.op == b.op and len(a.args) == len(b.args):
            ds = [(x, y) for x, y in zip(a.args, b.args) if not same(x, y)]
        elif isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            ds = [(x, y) for x, y in zip(a, b) if not same(x, y)]
        elif isinstance(a, Poly) and isinstance(b, Poly):
            ta = {dig(m): (m, c) for m, c in ((mk({k: v}, a.kind), v) for k, v in a.terms.items())}
            tb = {dig(m): (m, c) for m, c in ((mk({k: v}, b.kind), v) for k, v in b.terms.items())}
            oa = [ta[d][0] for d in ta if d not in tb]
            ob = [tb[d][0] for d in tb if d not in ta]
            if len(oa) == 1 and len(ob) == 1 and isinstance(oa[0], Poly) and isinstance(ob[0], Poly):
                ma, mb = dict(next(iter(oa[0].terms))), dict(next(iter(ob[0].terms)))
                da = [k for k in ma if all(not same(k, q) for q in mb)]
                db = [k for k in mb if all(not same(k, q) for q in ma)]
                if len(da) == len(db) == 1:
                    a, b = da[0], db[0]
                    continue
            return a, b
        else:
            return a, b
        if len(ds) != 1:
            return a, b
        a, b = ds[0]
