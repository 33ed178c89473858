"""Congruence of two value graphs with loops (optimistic partition refinement, as in global value numbering).

The graph of the analysed code and the graph of a specification fragment are compared.  Loop-carried values (mu nodes)
of aligned loops start out congruent and are split when their entry or next values differ; a specification variable that
is left without a partner is a primary mismatch, reported under its own name, and is then paired by force so that the
mismatch does not spread to the values that depend on it."""
import itertools
import time
from fractions import Fraction
from .terms import *
from .values import *
from .ops import *


class Budget(Exception):
    pass


def alpha(v):
    """canonical names for bound indices"""
    memo = {}

    def go(t):
        if isinstance(t, Atom) and t.op == 'comp' and isatom(t.args[0], 'idx'):
            idx = t.args[0]
            body = subst(t.args[2], go, memo)
            n = subst(t.args[1], go, memo)
            lid = idx.args[0]
            if has(body, lambda x: isinstance(x, Atom) and x.op == 'mu' and x.args[0] == lid):
                return Atom('comp', (idx, n, body), 'obj')
            s = mkcomp(idx, n, segs_of(body)) if not has(body, lambda x: isinstance(x, Atom) and x.op == 'mu') else None
            if s is not None:
                return s
            h = 1
            for x in subterms(body):
                if isinstance(x, Atom) and x.op == 'bv':
                    h = max(h, x.args[0] + 1)
            bv = Atom('bv', (h,), 'num')
            return Atom('comp', (bv, n, replace(body, [(idx, bv)])), 'obj')
        return None
    return subst(v, go, memo)


def split_conds(v):
    acc = {}
    for t in subterms(v):
        if isinstance(t, Atom) and t.op in ('ite', 'cseg'):
            cond_atoms(t.args[0], acc)
        elif isinstance(t, Atom) and t.op in ('and', 'or', 'not'):
            cond_atoms(t, acc)
    return acc


class Eq:
    def __init__(self, budget=20.0):
        self.memo = {}
        self.deadline = time.time() + budget

    def __call__(self, a, b, lits=()):
        if not lits:
            if same(a, b):
                return True
            k = (dig(a), dig(b))
            if k in self.memo:
                return self.memo[k]
            self.memo[k] = False      # cyclic structural comparison cannot succeed through itself
            r = self.eq(a, b, [])
            self.memo[k] = r
            return r
        return self.eq(a, b, list(lits))

    def eq(self, a, b, lits, depth=26):
        if time.time() > self.deadline:
            raise Budget()
        if same(a, b):
            return True
        ca, cb = split_conds(a), split_conds(b)
        both = [c for k, c in ca.items() if k in cb]
        cs = both or list(ca.values()) + list(cb.values())
        flat = [c for c in cs if not has(c, lambda t: isinstance(t, Atom) and t.op in ('ite', 'cseg'))]
        cs = flat or cs
        if cs and depth > 0:
            c = cs[0]
            for val in (True, False):
                nl = lits + [(c, val)]
                if contradictory(nl):
                    continue
                if not self.eq(assume(a, nl[-1:] + lits), assume(b, nl[-1:] + lits), nl, depth - 1):
                    return self.struct(a, b) if not lits else False
            return True
        return self.struct(a, b)

    def struct(self, a, b):
        """congruence on the outermost operator"""
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self(x, y) for x, y in zip(a, b))
        if isinstance(a, Slice) and isinstance(b, Slice):
            return all(self(x, y) for x, y in ((a.lo, b.lo), (a.hi, b.hi), (a.step, b.step)))
        if isinstance(a, Atom) and isinstance(b, Atom) and a.op == b.op and len(a.args) == len(b.args):
            if a.op in ('sym', 'mu', 'out', 'idx', 'bv', 'count', 'ref', 'const', 'formal', 'eq0', 'gt0', 'ge0', 'var', 'brk', 'loopret', 'not'):
                return False
            if a.op in ('and', 'or'):
                return False
            return all(self(x, y) for x, y in zip(a.args, b.args))
        if isinstance(a, Poly) and isinstance(b, Poly) and len(a.terms) == len(b.terms):
            # pair unmatched factors
            fa = {x.dig: x for m in a.terms for x, _ in m}
            fb = {x.dig: x for m in b.terms for x, _ in m}
            ua, ub = [x for k, x in fa.items() if k not in fb], [x for k, x in fb.items() if k not in fa]
            if len(ua) != len(ub) or len(ua) > 6:
                return False
            pairs = []
            for x in ua:
                m = [y for y in ub if isinstance(y, Atom) and isinstance(x, Atom) and y.op == x.op and self(x, y)]
                if not m:
                    return False
                ub.remove(m[0])
                pairs.append((x, m[0]))
            return same(replace(a, pairs), b)
        return False


def slope(p, x):
    """(k, r) with p = k x + r for a number k, else (None, None)"""
    for c in p.terms.items() if isinstance(p.terms, dict) else ():
        m, k = c
        if len(m) == 1 and m[0][1] == 1 and m[0][0].dig == x.dig:
            r = sub(p, mul(x, k))
            if not has(r, lambda t: isinstance(t, Atom) and t.dig == x.dig):
                return k, r
    return None, None


def derived(vs):
    """{mu or out of a loop variable: the same value as a function of the other variables and the iteration count}"""
    D = {}
    byloop = {}
    for x in vs.values():
        byloop.setdefault(x.L.id, []).append(x)
    gone = set()
    for lid, xs in byloop.items():
        mine = {x.mu.dig: x for x in xs}

        def own(t):
            return isinstance(t, Atom) and (t.op == 'mu' and t.dig in mine or t.op == 'idx' and t.args[0] == lid)
        for x in xs:
            if isatom(x.next, 'undef') or isatom(x.entry, 'undef') or same(x.next, x.mu) or isinstance(x.next, tuple):
                continue
            others = [u for u in xs if u is not x and u.mu.dig not in gone and not isatom(u.next, 'undef') and not same(u.next, u.mu) and isinstance(u.next, (Atom, Poly))]
            cands = []
            idxs = [t for t in subterms(x.next) if isatom(t, 'idx') and t.args[0] == lid]
            E = x.next
            if idxs:
                E = replace(E, [(idxs[0], sub(idxs[0], 1))])
            pairs = sorted(((u.next, u.mu) for u in others if u.mu.kind != 'obj' or True), key=lambda p: -len(list(subterms(p[0]))))
            # polynomial updates u' = u + r are solved for u
            solved, fresh = [], []
            for u in others:
                if isinstance(u.next, Poly):
                    r = sub(u.next, u.mu)
                    if not has(r, lambda t: isinstance(t, Atom) and t.dig == u.mu.dig):
                        nu = Atom('sym', ('next of ' + u.mu.dig,), u.mu.kind)
                        solved.append((u.mu, sub(nu, r)))
                        fresh.append((nu, u.mu))
                    else:       # u' = k u + r
                        k, rest = slope(u.next, u.mu)
                        if k:
                            nu = Atom('sym', ('next of ' + u.mu.dig,), u.mu.kind)
                            solved.append((u.mu, mul(sub(nu, rest), Fraction(1) / k)))
                            fresh.append((nu, u.mu))
            begun = [(u.entry, u.mu) for u in others if isinstance(u.entry, Atom)]
            for use in ((), pairs, solved, begun):
                C = replace(E, [p for p in use]) if use else E
                if use is solved and solved:
                    C = replace(C, fresh)
                if use is begun:
                    if not begun:
                        continue
                    C = replace(x.entry, begun)
                if has(C, lambda t: isinstance(t, Atom) and t.dig == x.mu.dig):
                    continue
                # C written over the variables: check both equations
                ents = [(u.mu, u.entry) for u in others]
                nexts = [(u.mu, u.next) for u in others]
                i0 = [(i, 0) for i in idxs[:1]]
                i1 = [(i, add(i, 1)) for i in idxs[:1]]
                left = [t for t in subterms(C) if isinstance(t, Atom) and t.op == 'mu' and t.dig in mine and not any(u.mu.dig == t.dig for u in others)]
                if left:
                    continue
                if same(replace(C, ents + i0), x.entry) and same(replace(C, nexts + i1), x.next):
                    D[x.mu.dig] = C
                    cnt = Atom('count', (lid,), 'num')
                    D[Atom('out', (x.mu,), x.mu.kind).dig] = replace(C, [(u.mu, Atom('out', (u.mu,), u.mu.kind)) for u in others] + [(i, cnt) for i in idxs[:1]])
                    gone.add(x.mu.dig)
                    break
    return D


class Var:
    def __init__(self, side, L, loc, mu, idx):
        self.side, self.L, self.loc, self.mu = side, L, loc, mu
        self.name = loc[1] if len(loc) == 2 else f"{loc[1]}.{'.'.join(str(p[1]) for p in loc[2])}"
        if self.name == '[]' or not isinstance(self.name, str):
            self.name = None
        self.partner = None
        self.forced = False


class Mismatch:
    def __init__(self, label, what, got, want, where):
        self.label, self.what, self.got, self.want, self.where = label, what, got, want, where

    def __repr__(self):
        return f"<{self.label} {self.what} @{self.where}: {show(self.got, 6)[:300]} != {show(self.want, 6)[:300]}>"


LOOPOPS = ('mu', 'out', 'idx', 'count', 'brk', 'loopret')


def loops_in(v, acc, I):
    for t in subterms(v):
        if isinstance(t, Atom) and t.op in LOOPOPS:
            l = t.args[0].args[0] if t.op == 'out' else t.args[0]
            if isinstance(l, int) and l in I.loops:
                acc.add(l)


class Comparison:
    """got / want: dictionaries label -> value (terms).  Loops of `want` are those created by the specification."""

    def __init__(self, I, got, want, budget=60.0, assumed=()):
        self.I, self.assumed = I, list(assumed)
        self.eqv = Eq(budget)
        self.got = {k: alpha(self.prep(v, None)) for k, v in got.items()}
        self.want = {k: alpha(self.prep(v, None)) for k, v in want.items()}
        self.mismatches = []
        self.checked = 0
        self.pairs = []
        self.run()
        if self.mismatches:
            self.retry()

    def retry(self):
        """once more with loop variables that are functions of others (flags kept up to date, copies) written as those functions"""
        first = self.mismatches, self.checked, self.specvars, self.gl, self.wl
        sides = []
        n = 0
        for roots in (self.got, self.want):
            _, vs = self.side(roots.values())
            D = derived(vs)
            n += len(D)
            sides.append((roots, D))
        if not n:
            return
        saved = self.got, self.want
        self.elim = {}
        for roots, D in sides:
            self.elim.update(D)
        self.got = {k: self.out_of(v) for k, v in self.got.items()}
        self.want = {k: self.out_of(v) for k, v in self.want.items()}
        old = self.mismatches
        self.mismatches = []
        self.run()
        if self.mismatches:
            self.got, self.want = saved
            self.elim = {}
            self.mismatches, self.checked, self.specvars, self.gl, self.wl = first

    elim = {}

    def out_of(self, v):
        """derived loop variables replaced"""
        if not self.elim:
            return v
        for _ in range(len(self.elim) + 1):
            w = subst(v, lambda t: self.elim.get(t.dig) if isinstance(t, Atom) and t.op in ('mu', 'out') else None)
            if dig(w) == dig(v):
                break
            v = w
        return alpha(v)

    def prep(self, v, st):
        I = self.I
        old = I.st
        if st is not None:
            I.st = st
        try:
            return self.term(v)
        finally:
            I.st = old

    def term(self, v):
        if isinstance(v, Ref):
            c = self.I.st.heap.get(v.addr)
            if c is None:
                return Atom('undef', (), 'unk')
        if isinstance(v, (RangeVal, IterVal)):
            try:
                return self.I.as_term(v)
            except Unsupported:
                return Atom('undef', (), 'unk')
        try:
            return self.I.deep(self.I.as_term(v))
        except (Unsupported, KeyError):
            return Atom('undef', (), 'unk')

    # ------------------------------------------------------------ reachability
    def side(self, roots):
        """loops and loop variables reachable from the roots"""
        I = self.I
        loops, vars_ = {}, {}
        roots = todo = list(roots)
        F = self.out_of
        seen = set()
        while todo:
            v = todo.pop()
            if dig(v) in seen:
                continue
            seen.add(dig(v))
            for t in subterms(v):
                if not (isinstance(t, Atom) and t.op in LOOPOPS):
                    continue
                l = t.args[0].args[0] if t.op == 'out' else t.args[0]
                if not isinstance(l, int) or l not in I.loops:
                    continue
                L = I.loops[l]
                if l not in loops:
                    loops[l] = L
                    L.cterms = {'test': F(alpha(self.prep(L.test, None)))}
                    if L.count is not None:
                        L.cterms['count'] = F(alpha(L.count))
                        if not L.breaks:
                            L.cterms.pop('test')
                    for j, (c, _) in enumerate(L.breaks):
                        L.cterms[f"break{j}"] = F(alpha(c))
                    for j, r in enumerate(L.returns):
                        L.cterms[f"return{j}"] = F(alpha(r[0]))
                        L.cterms[f"returned{j}"] = F(alpha(self.prep(r[1], r[2])))
                    todo += list(L.cterms.values())
                if t.op in ('mu', 'out'):
                    m = t if t.op == 'mu' else t.args[0]
                    if m.dig not in vars_:
                        loc = next((l for l, u in L.mu.items() if u.dig == m.dig), m.meta['loc'])
                        x = Var(None, L, loc, m, None)
                        x.entry = F(alpha(self.prep(L.entry.get(loc, UNDEF), L.state0)))
                        x.next = F(alpha(self.prep(L.next.get(loc, UNDEF), L.state))) if L.state is not None else Atom('undef', (), 'unk')
                        x.app = alpha(mkseq(L.appended[loc])) if loc in L.appended else None
                        vars_[m.dig] = x
                        todo += [x.entry, x.next]
        return loops, vars_

    # ------------------------------------------------------------ driver
    def run(self):
        gl, gv = self.side(self.got.values())
        wl, wv = self.side(self.want.values())
        self.gl, self.wl = gl, wl
        self.specvars = [(x.L.id, x.name or x.loc, 'next') for x in wv.values()] + [(l, None, 'loop') for l in wl]
        best = None
        als = self.alignments(gl, wl)
        for al in als:
            ms, checked = self.attempt(al, gv, wv)
            if best is None or len(ms) < len(best[0]):
                best = (ms, checked)
            if not ms:
                break
        self.mismatches, self.checked = best

    def alignments(self, gl, wl):
        """candidate loop alignments {got lid: want lid}: nesting respected, source order preferred"""
        gi, wi = sorted(gl), sorted(wl)
        if len(gi) > 7 or len(wi) > 7:
            return [dict(zip(gi, wi))]

        def depth(L, loops):
            return len([p for p in L.parents if p in loops])
        out = []
        n = min(len(gi), len(wi))
        base = gi if len(gi) >= len(wi) else wi
        for perm in itertools.islice(itertools.permutations(base, n), 0, 720):
            al = dict(zip(perm, wi)) if base is gi else dict(zip(gi, perm))
            if all(depth(gl[a], gl) == depth(wl[b], wl) for a, b in al.items()) and \
                    all((gl[a].count is None) == (wl[b].count is None) for a, b in al.items()):
                out.append(al)
            if len(out) >= 6:
                break
        return out or [dict(zip(gi, wi))]

    def attempt(self, al, gv, wv):
        inv = {w: g for g, w in al.items()}
        eqv = self.eqv
        ms = []
        checked = 0

        def lmap(t):
            """loop identities of the analysed code renamed to those of the specification"""
            if isinstance(t, Atom) and t.op in ('idx', 'count', 'brk', 'loopret') and t.args[0] in al:
                return Atom(t.op, (al[t.args[0]],) + t.args[1:], t.kind, {'loop': al[t.args[0]]})
            return None

        vs = []
        for x in gv.values():
            x.side, x.lid = 'g', al.get(x.L.id)
            vs.append(x)
        for x in wv.values():
            x.side, x.lid = 'w', x.L.id if x.L.id in inv else None
            vs.append(x)
        for i, x in enumerate(vs):
            x.forced = False
            x.cls = ('L', x.lid) if x.lid is not None else ('solo', i)
        undef = Atom('undef', (), 'unk')

        def reps():
            m = {}
            for x in vs:
                r = Atom('var', (dig(str(x.cls)),), x.mu.kind if x.mu.kind in ('num', 'bool') else 'tensor')
                if x.mu.kind in ('obj', 'unk'):
                    r = Atom('var', (dig(str(x.cls)),), x.mu.kind)
                m[x.mu.dig] = r
            return m

        def mapper(m, side):
            memo = {}

            def f(t):
                if isinstance(t, Atom):
                    if t.op == 'mu':
                        return m.get(t.dig)
                    if t.op == 'out':
                        r = m.get(t.args[0].dig)
                        if r is not None:
                            return Atom('out', (r,), t.kind)
                    if side == 'g':
                        return lmap(t)
                return None
            return lambda v: subst(v, f, memo)

        forced = {}
        for rnd in range(40):
            # class members share a representative; kinds may differ between sides, so unify by class
            m = {}
            kinds = {}
            for x in vs:
                kinds.setdefault(x.cls, set()).add(x.mu.kind)
            for x in vs:
                ks = kinds[x.cls]
                k = 'obj' if 'obj' in ks else ('tensor' if 'tensor' in ks else ('unk' if 'unk' in ks else ('num' if 'num' in ks else 'bool')))
                m[x.mu.dig] = Atom('var', (dig(str(x.cls)),), k)
            mg, mw = mapper(m, 'g'), mapper(m, 'w')
            for x in vs:
                mp = mg if x.side == 'g' else mw
                x.e, x.n = mp(x.entry), mp(x.next)
            groups = {}
            for x in vs:
                groups.setdefault(x.cls, []).append(x)
            newcls = {}
            changed = False
            for cls, mem in groups.items():
                if cls[0] in ('forced', 'solo'):
                    continue
                leaders = []
                # specification variables lead
                mem = sorted(mem, key=lambda x: x.side != 'w')
                for x in mem:
                    for ld in leaders:
                        y = ld[0]
                        if (same(x.e, undef) or same(y.e, undef) or eqv(x.e, y.e)) and eqv(x.n, y.n):
                            ld.append(x)
                            break
                    else:
                        leaders.append([x])
                if len(leaders) > 1:
                    changed = True
                # a specification variable without a partner: primary mismatch
                for ld in leaders:
                    if any(x.side == 'g' for x in ld) or all(x.side == 'g' for x in ld):
                        continue
                    w = ld[0]
                    cands = [l2 for l2 in leaders if all(x.side == 'g' for x in l2)]
                    flat = [x for l2 in cands for x in l2 if x.cls[0] != 'forced']
                    flat = [x for x in flat if x not in forced.values()]

                    def score(x):
                        return (x.name is not None and x.name == w.name, eqv(x.e, w.e) and not same(w.e, undef), eqv(x.n, w.n), x.mu.kind == w.mu.kind)
                    flat.sort(key=score, reverse=True)
                    if flat and (score(flat[0])[0] or score(flat[0])[1] or score(flat[0])[2]):
                        g = flat[0]
                        if not (eqv(g.e, w.e) or same(g.e, undef) or same(w.e, undef)):
                            ms.append(Mismatch((w.L.id, w.name or w.loc, 'entry'), 'entry', g.e, w.e, self.where(g)))
                        if not eqv(g.n, w.n):
                            ms.append(Mismatch((w.L.id, w.name or w.loc, 'next'), 'next', g.n, w.n, self.where(g)))
                        forced[w] = g
                        for z in ld:
                            newcls[z] = ('forced', w.mu.dig)
                        newcls[g] = ('forced', w.mu.dig)
                        for l2 in leaders:
                            if g in l2 and len(l2) > 1:
                                pass
                    else:
                        ms.append(Mismatch((w.L.id, w.name or w.loc, 'next'), 'no counterpart', undef, w.n, self.whereloop(inv.get(w.L.id))))
                        for z in ld:
                            newcls[z] = ('solo', w.mu.dig)
                    changed = True
                for i, ld in enumerate(leaders):
                    for x in ld:
                        if x not in newcls:
                            newcls[x] = (cls[0], cls[1]) + tuple(cls[2:]) + (i,) if len(leaders) > 1 else cls
            for x, c in newcls.items():
                x.cls = c
            if not changed:
                break
        else:
            raise Budget()
        # outputs and loop controls under the final classes
        for x in vs:
            if x.side == 'w':
                checked += 1
        for k in self.want:
            checked += 1
            if k not in self.got:
                ms.append(Mismatch(('root', k), 'missing', undef, self.want[k], '?'))
                continue
            a, b = mg(self.got[k]), mw(self.want[k])
            if not eqv(a, b, self.assumed):
                ms.append(Mismatch(('root', k), 'value', a, b, k))
        for w, L in self.wl.items():
            checked += 1
            if w not in inv:
                ms.append(Mismatch((w, None, 'loop'), 'loop missing', undef, undef, '?'))
                continue
            G = self.gl[inv[w]]
            ta, tb = self.ctrl(G, mg), self.ctrl(L, mw)
            for c in sorted(set(ta) | set(tb)):
                if c not in ta or c not in tb:
                    ms.append(Mismatch((w, c, 'control'), 'loop control', ta.get(c, undef), tb.get(c, undef), self.whereloop(G.id)))
                elif not eqv(ta[c], tb[c]):
                    ms.append(Mismatch((w, c, 'control'), 'loop control', ta[c], tb[c], self.whereloop(G.id)))
        return ms, checked

    def ctrl(self, L, mp):
        return {k: mp(v) for k, v in L.cterms.items()}

    def where(self, x):
        import ast
        L = x.L
        name = x.loc[1]
        lines = sorted({n.lineno for n in ast.walk(L.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == name})
        return f"{L.fn}:{lines[0] if lines else L.node.lineno} ({name})"

    def whereloop(self, lid):
        if lid is None:
            return '?'
        L = self.I.loops[lid]
        return f"{L.fn}:{L.node.lineno}"
