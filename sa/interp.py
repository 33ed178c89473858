"""Abstract interpreter: builds the gated value graph of the analysed package.

Control-flow joins are merged into gating (ite) nodes, loops are summarised by loop-carried (mu) nodes obtained from a
modified-location fixpoint, calls into the package are inlined and every other call is an uninterpreted or algebraically
modelled node.  No statement of the analysed package is executed.
"""
import ast
import os
from .torchlib import *

MODULE_ATTRS = set('''training parameters named_parameters children named_children modules named_modules register_parameter
 register_buffer register_module add_module buffers named_buffers state_dict load_state_dict train eval zero_grad to cuda cpu
 float double half type apply requires_grad_ device dtype forward __call__ log log_dict trainer hparams save_hyperparameters
 logger global_step current_epoch example_input_array __class__ __dict__ _modules _parameters _buffers __repr__ extra_repr
 get_parameter get_submodule share_memory register_forward_hook register_forward_pre_hook register_full_backward_hook'''.split())

BUILTINS = set('''len range zip enumerate sum max min abs tuple list dict set float int bool str isinstance issubclass type hasattr
 getattr setattr print map filter all any reversed sorted super callable id iter next round pow object property staticmethod
 classmethod slice repr vars format divmod frozenset bytes complex hash ord chr delattr dir open input globals locals
 Exception ValueError RuntimeError NotImplementedError TypeError KeyError AttributeError IndexError AssertionError
 StopIteration Warning UserWarning DeprecationWarning NotImplemented ZeroDivisionError __name__ __file__ ImportError
 ArithmeticError OverflowError FloatingPointError BaseException OSError LookupError NameError'''.split())

OVERLAY = 0


class Event:
    __slots__ = ('kind', 'data', 'pc', 'loops', 'modes', 'node', 'fn', 'assumed')

    def __init__(self, kind, data, pc, loops, modes, node, fn, assumed=()):
        self.kind, self.data, self.pc, self.loops, self.modes, self.node, self.fn = kind, data, pc, loops, modes, node, fn
        self.assumed = assumed

    def __repr__(self):
        return f"<{self.kind} {self.data} @{self.where()}>"

    def where(self):
        return f"{self.fn}:{getattr(self.node, 'lineno', 0)}"

    @property
    def guard(self):
        return and_(*self.pc)


class Loop:
    """summary of a symbolic loop"""

    def __init__(self):
        self.entry, self.mu, self.next, self.breaks, self.returns = {}, {}, {}, [], []
        self.test = True
        self.count = None
        self.appended = {}
        self.closed = {}
        self.ev0 = self.ev1 = 0
        self.state0 = None


class State:
    __slots__ = ('heap', 'pc', 'assumed', 'modes', 'loops')

    def __init__(self):
        self.heap, self.pc, self.assumed, self.modes, self.loops = {OVERLAY: DictCell({})}, (), (), (), ()

    def fork(self):
        s = State()
        s.heap = dict(self.heap)
        s.pc, s.assumed, s.modes, s.loops = self.pc, self.assumed, self.modes, self.loops
        return s


class Interp:
    def __init__(self, root='/repo', package='torchdyn', files=None):
        ASSUMED.clear()                  # what is known about values belongs to one analysis
        self.root, self.package = root, package
        self.files = files or {}          # path -> source override (self-validation)
        self.st = State()
        self.next_addr = 1
        self.events = []
        self.loops = {}
        self.precise = False
        self.next_loop = 0
        self.next_rand = 0
        self.modules = {}
        self.trees = {}
        self.nonlocals = {}
        self.fnstack = []
        self.outer = set()                # lists and dictionaries that exist outside the analysed calls
        self.opaque = {}                  # qualified name -> handler(interp, FuncVal, bound dict) -> value
        self.extern = {}                  # library name -> handler(interp, args, kwargs) -> value
        self.steps = 0
        self.budget = 4000000
        self.classes = {}
        self.analysed = set()
        self.rets = []
        self.unroll_max = 40
        self.cuts = False                 # follow which values lose their gradients

    # ------------------------------------------------------------ modules
    def path_of(self, modname):
        p = os.path.join(self.root, *modname.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py')
        if os.path.isfile(p + '.py'):
            return p + '.py'
        return None

    def source(self, path):
        rel = os.path.relpath(path, self.root)
        if rel in self.files:
            return self.files[rel]
        with open(path, encoding='utf-8') as f:
            return f.read()

    def load(self, modname):
        if modname in self.modules:
            return self.modules[modname]
        path = self.path_of(modname)
        if path is None:
            return None
        tree = ast.parse(self.source(path))
        annotate(tree)
        self.trees[modname] = tree
        return self.load_tree(modname, tree)

    def load_source(self, modname, src):
        tree = ast.parse(src)
        annotate(tree)
        return self.load_tree(modname, tree)

    def load_tree(self, modname, tree):
        addr = self.alloc(Frame({}, None, modname))
        mv = ModuleVal(modname, addr)
        self.modules[modname] = mv
        self.trees[modname] = tree
        saved = self.fnstack
        self.fnstack = [Ctx(modname, '<module>', addr)]
        try:
            for s in tree.body:
                try:
                    self.exec_stmt(s)
                    if self.st is None:
                        raise Unsupported(f"module {modname} does not load")
                except Unsupported:
                    raise
        finally:
            self.fnstack = saved
        return mv

    def get(self, modname, name):
        """a top-level definition"""
        mv = self.load(modname)
        if mv is None:
            return None
        return self.st.heap[mv.frame].vars.get(name)

    # ------------------------------------------------------------ heap
    def alloc(self, cell):
        a = self.next_addr
        self.next_addr += 1
        self.st.heap[a] = cell
        if isinstance(cell, (ListCell, DictCell)) and not any(c.name != '<module>' for c in self.fnstack):
            self.outer.add(a)
        return a

    def writes(self, ref, what):
        """a list or dictionary that exists outside the analysed call is modified"""
        if ref.addr in self.outer and any(c.name != '<module>' for c in self.fnstack):
            self.log('lmutate', {'ref': ref, 'what': what})

    def new_list(self, seq):
        return Ref(self.alloc(ListCell(seq)))

    def new_inst(self, cls, attrs=None):
        return Ref(self.alloc(InstCell(cls, dict(attrs or {}))))

    def new_dict(self, pairs=()):
        return Ref(self.alloc(DictCell({dig(k): (k, v) for k, v in pairs})))

    def cell(self, ref):
        return self.st.heap[ref.addr]

    def log(self, kind, data, node=None):
        if kind == 'typing':
            data['frames'] = tuple(f.qual for f in self.fnstack)
        e = Event(kind, data, self.st.pc if self.st else (), self.st.loops if self.st else (), self.st.modes if self.st else (), node or self.node,
                  self.fnstack[-1].qual if self.fnstack else '?', self.st.assumed if self.st else ())
        self.events.append(e)
        return e

    node = None

    # ------------------------------------------------------------ merging
    def merge_value(self, c, a, b):
        if a is b:
            return a
        if same(a, b):
            return a
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if isinstance(a, Ref) and isinstance(b, Ref):
            ca, cb = self._mA.heap.get(a.addr), self._mB.heap.get(b.addr)
            if isinstance(ca, ListCell) and isinstance(cb, ListCell):
                r = Ref(self.next_addr)
                self.next_addr += 1
                self._mnew[r.addr] = ListCell(self.merge_seq(c, ca.seq, cb.seq))
                return r
            if isinstance(ca, InstCell) and isinstance(cb, InstCell) and ca.cls is cb.cls:
                r = Ref(self.next_addr)
                self.next_addr += 1
                attrs = {k: self.merge_value(c, ca.attrs.get(k, UNDEF), cb.attrs.get(k, UNDEF)) for k in {**ca.attrs, **cb.attrs}}
                self._mnew[r.addr] = InstCell(ca.cls, attrs)
                return r
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge_value(c, x, y) for x, y in zip(a, b))
        for r, o, S in ((a, b, self._mA), (b, a, self._mB)):
            if isinstance(r, Ref) and isatom(o, 'lazy') and isinstance(o.args[0], tuple):
                k = S.heap.get(r.addr)
                if isinstance(k, ListCell) and same(k.seq, o.args[0]):
                    return r
        return ite(c, a, b)

    def merge_seq(self, c, a, b):
        if same(a, b):
            return a
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge_value(c, x, y) for x, y in zip(a, b))
        sa, sb = segs_of(a), segs_of(b)
        i = 0
        while i < len(sa) and i < len(sb) and same(sa[i], sb[i]):
            i += 1
        ra, rb = sa[i:], sb[i:]
        if len(ra) == len(rb) and all(s.op == 'item' for s in ra + rb):
            return mkseq(sa[:i] + [item(self.merge_value(c, x.args[0], y.args[0])) for x, y in zip(ra, rb)])
        out = list(sa[:i])
        if ra:
            out.append(Atom('cseg', (c, mkseq(ra)), 'obj') if not isinstance(c, bool) else mkseq(ra))
        if rb:
            out.append(Atom('cseg', (not_(c), mkseq(rb)), 'obj'))
        return mkseq(out)

    def merge_cell(self, c, x, y):
        if x is y:
            return x
        if isinstance(x, Frame):
            keys = list(x.vars) + [k for k in y.vars if k not in x.vars]
            return Frame({k: self.merge_value(c, x.vars.get(k, UNDEF), y.vars.get(k, UNDEF)) for k in keys}, x.parent, x.name)
        if isinstance(x, ListCell):
            return ListCell(self.merge_seq(c, x.seq, y.seq))
        if isinstance(x, DictCell):
            keys = list(x.items) + [k for k in y.items if k not in x.items]
            items = {}
            for k in keys:
                kx, ky = x.items.get(k), y.items.get(k)
                key = (kx or ky)[0]
                items[k] = (key, self.merge_value(c, kx[1] if kx else UNDEF, ky[1] if ky else UNDEF))
            return DictCell(items, x.base)
        if isinstance(x, InstCell):
            keys = list(x.attrs) + [k for k in y.attrs if k not in x.attrs]
            return InstCell(x.cls, {k: self.merge_value(c, x.attrs.get(k, UNDEF), y.attrs.get(k, UNDEF)) for k in keys})
        raise Unsupported('merge')

    def merge_states(self, c, A, B):
        S = State()
        self._mA, self._mB, self._mnew = A, B, {}
        heap = {}
        for a, x in A.heap.items():
            y = B.heap.get(a)
            heap[a] = x if y is None or y is x else self.merge_cell(c, x, y)
        for a, y in B.heap.items():
            if a not in heap:
                heap[a] = y
        heap.update(self._mnew)
        S.heap = heap
        S.pc, S.modes, S.loops = A.pc, A.modes, A.loops
        S.assumed = tuple(x for x in A.assumed if any(x is y or same(x, y) for y in B.assumed))
        return S

    def merge_many(self, outs, base, partial):
        """outs: [(value, state)] with disjoint path conditions extending base; partial: other paths continue elsewhere"""
        n = len(base)
        if len(outs) == 1:
            v, s = outs[0]
            extra = s.pc[n:]
            if not partial:
                s.assumed = s.assumed + extra
                s.pc = s.pc[:n]
            return v, s
        deltas = [and_(*s.pc[n:]) for _, s in outs]
        v, s = outs[-1]
        total = deltas[-1]
        for i in range(len(outs) - 2, -1, -1):
            d = deltas[i]
            # within this chain the later ones are excluded when d holds
            vi, si = outs[i]
            self._mA, self._mB, self._mnew = si, s, {}
            ns = self.merge_states(d, si, s)
            self._mA, self._mB, self._mnew = si, s, {}
            nv = self.merge_value(d, vi, v)
            ns.heap.update(self._mnew)
            v, s = nv, ns
            total = or_(d, total)
        s.pc = base
        if total is not True:
            if partial:
                s.pc = base + (total,)
            else:
                s.assumed = s.assumed + (total,)
        return v, s

    # ------------------------------------------------------------ conditions
    def truth(self, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isnum(v):
            return v != 0
        if isinstance(v, (str, tuple)):
            return len(v) > 0
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, ListCell):
                return self.truth(size(c.seq, 0))
            if isinstance(c, DictCell):
                return bool(c.items) if c.base is None else Atom('truth', (c.base,), 'bool')
            return True
        if isinstance(v, Term):
            if v.kind == 'bool':
                return self.decide(v)
            if isatom(v, 'sum') and v.args[1] is None and boolish(v.args[0]):
                return self.decide(Atom('any', (v.args[0],), 'bool'))
            if isatom(v, 'ite'):
                return or_(and_(v.args[0], self.truth(v.args[1])), and_(not_(v.args[0]), self.truth(v.args[2])))
            if v.kind in ('obj', 'fn') and v.op in ('sym', 'attr', 'mu', 'out', 'call', 'getitem'):
                if notnone(v):
                    return True
                return self.decide(not_(eq(v, None)))
            if v.kind == 'obj' and isatom(v, 'lam', 'closure', 'inst', 'new'):
                return True
            return self.decide(not_(eq(v, 0)))
        return True

    def decide(self, c):
        if isinstance(c, bool) or not isinstance(c, Term):
            return c
        lits = [(p, True) for p in self.st.pc] + [(p, True) for p in self.st.assumed]
        if not lits:
            return c
        return assume(c, lits)

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts):
        outs = []
        for s in stmts:
            outs += self.exec_stmt(s)
            if self.st is None:
                break
        return outs

    def exec_stmt(self, s):
        self.steps += 1
        if self.steps > self.budget:
            raise Unsupported('analysis budget exceeded')
        self.node = s
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__} at {self.where(s)}")
        try:
            r = m(s)
        except Dead:
            self.st = None
            return []
        return r or []

    def where(self, n):
        return f"{self.fnstack[-1].qual if self.fnstack else '?'}:{getattr(n, 'lineno', 0)}"

    def x_Expr(self, s):
        self.ev(s.value)

    def x_Pass(self, s):
        pass

    def x_Import(self, s):
        for a in s.names:
            root = a.name.split('.')[0]
            if root == self.package:
                mv = self.load(a.name)
                self.setvar(a.asname or root, mv if a.asname else self.load(root))
            else:
                self.setvar(a.asname or root, Ext(canon_ext(a.name if a.asname else root)))

    def x_ImportFrom(self, s):
        mod = s.module or ''
        if s.level:
            cur = self.fnstack[-1].module
            path = self.path_of(cur)
            parts = cur.split('.')
            if path and not path.endswith('__init__.py'):
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            mod = '.'.join(parts + ([mod] if mod else []))
        if mod.split('.')[0] == self.package:
            mv = self.load(mod)
            if mv is None:
                self.log('importerror', mod)
                for a in s.names:
                    self.setvar(a.asname or a.name, Ext(mod + '.' + a.name))
                return
            fr = self.st.heap[mv.frame]
            for a in s.names:
                if a.name == '*':
                    names = list(fr.vars)
                    al = fr.vars.get('__all__')
                    if isinstance(al, Ref):
                        names = [n for n in self.cell(al).seq if isinstance(n, str)]
                    for n in names:
                        if not n.startswith('_') and n in fr.vars:
                            self.setvar(n, fr.vars[n])
                    continue
                if a.name in fr.vars:
                    self.setvar(a.asname or a.name, fr.vars[a.name])
                else:
                    sub = self.load(mod + '.' + a.name)
                    if sub is not None:
                        self.setvar(a.asname or a.name, sub)
                    else:
                        self.log('importerror', mod + '.' + a.name)
                        self.setvar(a.asname or a.name, Ext(mod + '.' + a.name))
        else:
            for a in s.names:
                self.setvar(a.asname or a.name, Ext(canon_ext(mod + '.' + a.name)))

    def x_FunctionDef(self, s):
        fv = self.make_func(s, s.name)
        v = fv
        for d in reversed(s.decorator_list):
            v = self.decorate(v, d)
        self.setvar(s.name, v)

    def decorate(self, v, d):
        if isinstance(d, ast.Attribute) and d.attr in ('setter', 'getter', 'deleter') and isinstance(d.value, ast.Name):
            p = self.ev(d.value)
            if isinstance(p, FuncVal) and p.prop:
                if d.attr == 'setter':
                    p.setter = v
                return p
        dv = self.ev(d)
        n = dv.name if isinstance(dv, Ext) else (dv.args[0] if isatom(dv, 'ext') else '')
        if isinstance(dv, (FuncVal, BoundMethod, PyFunc)):
            return self.call(dv, [v], {})
        if isinstance(v, FuncVal):
            if n == 'builtins.staticmethod':
                v.static = True
            elif n == 'builtins.classmethod':
                v.classm = True
            elif n == 'builtins.property':
                v.prop = True
            elif n == 'functools.cached_property':
                v.prop = v.cached = True
            elif n in ('functools.lru_cache', 'functools.cache'):
                return self.memoised(v)
            elif n in ('torch.no_grad', 'torch.inference_mode') or isatom(dv, 'ctx') and dv.args[0] == 'grad' and dv.args[1] is False:
                v.nograd = True
            elif isatom(dv, 'ctx') and dv.args[0] == 'grad' and dv.args[1] is True:
                v.withgrad = True
            elif n == 'contextlib.contextmanager':
                raise Unsupported('context manager function')
        return v

    def memoised(self, f):
        """the function with a record of its results, looked up by argument"""
        import copy
        g = copy.copy(f)
        g.memo = self.alloc(DictCell({}))
        return g

    def make_func(self, node, name):
        a = node.args
        defaults = [self.ev(d) for d in a.defaults]
        kwd = [self.ev(d) if d is not None else UNDEF for d in a.kw_defaults]
        ctx = self.fnstack[-1]
        fr = ctx.frame
        cls = None
        qn = name
        if ctx.classframe is not None:
            cls = ctx.classobj
            fr = ctx.outer
            qn = cls.name + '.' + name
        elif ctx.name != '<module>':
            qn = ctx.name + '.<locals>.' + name
        return FuncVal(node, ctx.module, fr, defaults, kwd, qn, cls)

    def x_ClassDef(self, s):
        bases = [self.ev(b) for b in s.bases]
        ctx = self.fnstack[-1]
        fa = self.alloc(Frame({}, ctx.frame, s.name))
        nm = s.name if ctx.name == '<module>' else ctx.name + '.<locals>.' + s.name
        cv = ClassVal(nm, ctx.module, bases, fa, s)
        cv.mro = linearize(cv)
        self.fnstack.append(Ctx(ctx.module, nm, fa, classframe=fa, classobj=cv, outer=ctx.frame))
        try:
            for b in s.body:
                self.exec_stmt(b)
                if self.st is None:
                    raise Unsupported('class body')
        finally:
            self.fnstack.pop()
        self.classes[cv.qual] = cv
        v = cv
        for d in reversed(s.decorator_list):
            self.ev(d)
        self.setvar(s.name, v)

    def x_Return(self, s):
        v = self.ev(s.value) if s.value is not None else None
        st = self.st
        self.st = None
        return [('return', v, st)]

    def x_Break(self, s):
        st = self.st
        self.st = None
        return [('break', None, st)]

    def x_Continue(self, s):
        st = self.st
        self.st = None
        return [('continue', None, st)]

    def x_Raise(self, s):
        v = None
        if s.exc is not None:
            try:
                v = self.ev(s.exc)
            except Dead:
                pass
        name = ''
        if isinstance(v, Ext):
            name = v.name
        elif isatom(v, 'ext', 'new'):
            name = v.args[0]
        self.log('raise', {'exc': name.split('.')[-1], 'value': v}, s)
        self.st = None
        return []

    def x_Assert(self, s):
        c = self.truth(self.ev(s.test))
        self.log('assert', {'cond': c}, s)
        if c is False:
            self.log('raise', {'exc': 'AssertionError', 'value': None}, s)
            self.st = None
            return []
        if c is not True:
            self.st.assumed = self.st.assumed + (c,)

    def x_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.setvar(t.id, UNDEF)

    def x_Global(self, s):
        ctx = self.fnstack[-1]
        mod = self.modules[ctx.module].frame
        for n in s.names:
            self.nonlocals.setdefault(ctx.frame, {})[n] = mod

    def x_Nonlocal(self, s):
        ctx = self.fnstack[-1]
        for n in s.names:
            a = self.st.heap[ctx.frame].parent
            while a is not None and n not in self.st.heap[a].vars:
                a = self.st.heap[a].parent
            self.nonlocals.setdefault(ctx.frame, {})[n] = a

    def x_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def x_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def x_AugAssign(self, s):
        op = BINOP[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            old = self.ev(t)
            new = self.ev(s.value)
            if isinstance(old, Ref) and isinstance(self.cell(old), ListCell) and op == '+':
                self.list_extend(old, new)
                return
            r = self.binop(op, old, new)
            if isinstance(old, Term) and old.kind == 'tensor' and isinstance(r, Term):
                self.inplace(old, r, s)
            else:
                self.setvar(t.id, r)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            old = self.getattr(o, t.attr)
            new = self.ev(s.value)
            if isinstance(old, Ref) and isinstance(self.cell(old), ListCell) and op == '+':
                self.list_extend(old, new)
                return
            r = self.binop(op, old, new)
            if isinstance(old, Term) and old.kind == 'tensor':
                self.inplace(old, r, s)
            self.setattr(o, t.attr, r)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            i = self.ev_index(t.slice)
            old = self.subscript(o, i)
            new = self.ev(s.value)
            r = self.binop(op, old, new)
            if isinstance(o, Ref) and isinstance(old, Term) and old.kind == 'tensor' and isinstance(r, Term):
                self.inplace(old, r, s)
                r = self.subscript(o, i) if isinstance(self.cell(o), ListCell) and isinstance(self.cell(o).seq, tuple) and isnum(i) else r
            self.store_sub(o, i, r, t.value, s)
        else:
            raise Unsupported('augassign')

    def fresh(self, v):
        """a new object with the same contents"""
        if isinstance(v, Atom):
            return Atom(v.op, v.args, v.kind, {**(v.meta or {}), 'own': True})
        if isinstance(v, Poly):
            return Poly(v.terms, v.kind)
        return v

    def inplace(self, old, new, node):
        """in-place update of the tensor object `old`: every location holding it sees the new contents"""
        self.log('mutate', {'old': old, 'new': new, 'roots': alias_roots(old)}, node)
        new = self.fresh(new)
        self.replace_obj(old, new, False)
        # write through a basic view
        if isatom(old, 'getitem') and isinstance(old.args[0], Term):
            self.view_write(old.args[0], old.args[1], new)
        return new

    def view_write(self, base, idx, new):
        heap = self.st.heap
        whole = self.fresh(setitem(base, idx, new))
        if not self.replace_obj(base, whole, False):
            for a, c in list(heap.items()):
                if isinstance(c, Frame):
                    hit = [k for k, v in c.vars.items() if isinstance(v, Term) and v == base and v.kind == 'tensor']
                    if hit:
                        heap[a] = Frame({**c.vars, **{k: whole for k in hit}}, c.parent, c.name)
        if isatom(base, 'getitem') and isinstance(base.args[0], Term):
            self.view_write(base.args[0], base.args[1], whole)

    def x_If(self, s):
        c = self.truth(self.ev(s.test))
        if isinstance(c, bool):
            return self.exec_block(s.body if c else s.orelse)
        return self.branch(c, lambda: self.exec_block(s.body), lambda: self.exec_block(s.orelse))

    def branch(self, c, fa, fb):
        base = self.st.pc
        A, B = self.st.fork(), self.st.fork()
        A.pc, B.pc = base + (c,), base + (not_(c),)
        self.st = A
        outs = fa()
        A = self.st
        self.st = B
        outs2 = fb()
        B = self.st
        outs = outs + outs2
        alive = [(None, x) for x in (A, B) if x is not None]
        if not alive:
            self.st = None
            return outs
        if len(alive) == 1:
            s = alive[0][1]
            if not outs:      # the other side only raises
                s.assumed = s.assumed + s.pc[len(base):]
                s.pc = base
            self.st = s
            return outs
        if A.pc == base + (c,) and B.pc == base + (not_(c),):
            S = self.merge_states(c, A, B)
            S.pc = base
            self.st = S
            return outs
        _, self.st = self.merge_many(alive, base, bool(outs))
        return outs

    def x_With(self, s):
        n = 0
        for it in s.items:
            v = self.ev(it.context_expr)
            mode = None
            if isatom(v, 'ctx'):
                mode = v.args
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
            if mode is not None:
                self.st.modes = self.st.modes + (mode,)
                n += 1
        outs = self.exec_block(s.body)
        for st in ([self.st] if self.st else []) + [o[2] for o in outs]:
            if n:
                st.modes = st.modes[:len(st.modes) - n]
        return outs

    def x_Try(self, s):
        st0 = self.st.fork()
        outs = self.exec_block(s.body)
        if self.st is not None:
            outs += self.exec_block(s.orelse)
        elif not outs and s.handlers:
            self.st = st0
            h = s.handlers[0]
            if h.name:
                self.setvar(h.name, sym('exc', 'obj'))
            outs = self.exec_block(h.body)
        if s.finalbody and self.st is not None:
            outs += self.exec_block(s.finalbody)
        return outs

    # ------------------------------------------------------------ loops
    def x_For(self, s):
        it = self.ev(s.iter)
        d = self.iter_desc(it)
        if d[0] == 'concrete' and len(d[1]) <= self.unroll_max:
            base = self.st.pc
            outs, brks = [], []
            for v in d[1]:
                self.assign(s.target, v)
                pc0 = self.st.pc
                res = self.exec_block(s.body)
                conts = [(None, o[2]) for o in res if o[0] == 'continue']
                nb = [o for o in res if o[0] == 'break']
                rets = [o for o in res if o[0] == 'return']
                brks += nb
                outs += rets
                alive = conts + ([(None, self.st)] if self.st is not None else [])
                if not alive:
                    self.st = None
                    break
                _, self.st = self.merge_many(alive, pc0, bool(nb or rets))
            if self.st is not None and s.orelse:
                outs += self.exec_block(s.orelse)
            alive = [(None, o[2]) for o in brks] + ([(None, self.st)] if self.st is not None else [])
            if not alive:
                self.st = None
                return outs
            _, self.st = self.merge_many(alive, base, bool(outs))
            return outs
        if d[0] == 'concrete':
            vals = d[1]
            n, getter = len(vals), (lambda k: getitem(tuple(vals), k))
        else:
            n, getter = d[1], d[2]
        return self.sym_loop(s, 'for', n, getter)

    def x_While(self, s):
        s = canon_while(s)
        if isinstance(s, list):
            return self.exec_block(s)
        # concrete unrolling when the test is decided
        base = self.st.pc
        outs, brks = [], []
        st0 = self.st.fork()
        ev0 = len(self.events)
        for it in range(self.unroll_max):
            self.exec_block(s.prelude)
            c = self.truth(self.ev(s.test))
            if c is False:
                if s.orelse:
                    self.exec_block(s.orelse)
                alive = [(None, o[2]) for o in brks] + [(None, self.st)]
                _, self.st = self.merge_many(alive, base, bool(outs))
                return outs
            if c is not True or it == self.unroll_max - 1 or (isinstance(s.test, ast.Constant)):
                break
            pc0 = self.st.pc
            res = self.exec_block(s.body)
            conts = [(None, o[2]) for o in res if o[0] == 'continue']
            nb = [o for o in res if o[0] == 'break']
            rets = [o for o in res if o[0] == 'return']
            brks += nb
            outs += rets
            alive = conts + ([(None, self.st)] if self.st is not None else [])
            if not alive:
                alive = [(None, o[2]) for o in brks]
                if not alive:
                    self.st = None
                    return outs
                _, self.st = self.merge_many(alive, base, bool(outs))
                return outs
            _, self.st = self.merge_many(alive, pc0, bool(nb or rets))
        self.st = st0
        del self.events[ev0:]
        return self.sym_loop(s, 'while', None, None)

    def sym_loop(self, s, kind, n, getter):
        lid = self.next_loop
        self.next_loop += 1
        S0 = self.st
        base = S0.pc
        idx = Atom('idx', (lid,), 'num', {'loop': lid})
        locs = {}        # loc -> kind
        closed = {}
        noclose = set()
        partial = set()
        ev0 = len(self.events)
        rand0, loop0, addr0 = self.next_rand, self.next_loop, self.next_addr
        structs = {}     # loc -> shape of an object rebound in every iteration
        unstruct = set()
        tnames = set(target_names(s.target)) if kind == 'for' else set()
        for rnd in range(40):
            del self.events[ev0:]
            self.next_rand, self.next_loop = rand0, loop0
            L = Loop()
            L.id, L.kind, L.node, L.pc, L.idx = lid, kind, s, base, idx
            L.fn, L.parents, L.assumed = self.fnstack[-1].qual, S0.loops, S0.assumed
            L.ev0, L.state0 = ev0, S0
            self.loops[lid] = L
            S = S0.fork()
            S.loops = S0.loops + (lid,)
            fresh0 = self.next_addr
            for loc, sh in structs.items():
                setloc(S, loc, shape_build(S, self, sh))
            fresh1 = self.next_addr
            for i, (loc, kd) in enumerate(locs.items()):
                e = getloc(S0, loc)
                L.entry[loc] = e
                if loc in closed:
                    v = closed[loc](idx)
                    L.closed[loc] = v
                else:
                    v = Atom('mu', (lid, i), kd, {'loop': lid, 'loc': loc})
                    L.mu[loc] = v
                setloc(S, loc, v)
            hav = S.fork()
            self.st = S
            early = {}
            if kind == 'while':
                self.exec_block(s.prelude)
                c = self.truth(self.ev(s.test))
                if s.prelude:
                    early = {loc: getloc(self.st, loc) for loc in changed_locs(hav, self.st, addr0)}
                L.test = c
                exitst = self.st.fork()
                if c is False:
                    self.st = exitst
                    self.st.loops = S0.loops
                    return []
                if c is not True:
                    self.st.pc = self.st.pc + (c,)
            else:
                exitst = self.st.fork()
                L.count = n
                L.test = gt(n, idx)
                self.assign(s.target, getter(idx))
            pcb = self.st.pc
            res = self.exec_block(s.body)
            conts = [(None, o[2]) for o in res if o[0] == 'continue']
            brks = [o for o in res if o[0] == 'break']
            rets = [o for o in res if o[0] == 'return']
            alive = conts + ([(None, self.st)] if self.st is not None else [])
            S1 = None
            if alive:
                _, S1 = self.merge_many(alive, pcb, bool(brks or rets))
            # modified locations
            new = False
            for st1 in [S1] + [o[2] for o in brks]:
                if st1 is None:
                    continue
                for loc in changed_locs(hav, st1, addr0):
                    if fresh0 <= loc[0] < fresh1:
                        continue
                    if loc in structs:
                        if shape_of(st1, getloc(st1, loc)) != structs[loc]:
                            for l3 in [l for l in locs if l[:2] == loc and len(l) == 3]:
                                del locs[l3]
                            del structs[loc]
                            unstruct.add(loc)
                        else:
                            continue
                    if loc in locs or (loc[0] == self.fnstack[-1].frame and loc[1] in tnames):
                        continue
                    e, v = getloc(S0, loc), getloc(st1, loc)
                    if loc not in unstruct and isinstance(e, Ref) and isinstance(v, Ref):
                        sh = shape_of(S0, e)
                        if shape_ok(sh) and sh == shape_of(st1, v) and shape_leaves(sh):
                            structs[loc] = sh
                            for pth in shape_leaves(sh):
                                l3 = loc + (pth,)
                                locs[l3] = mukind(getloc(S0, l3), getloc(st1, l3))
                            new = True
                            continue
                    locs[loc] = mukind(e, v)
                    new = True
            if S1 is not None:
                for loc in locs:
                    if loc not in closed:
                        v = getloc(S1, loc)
                        kd = mukind(L.entry.get(loc, UNDEF), v)
                        if kd != locs[loc] and rnd < 30:
                            if locs[loc] != 'tensor':
                                locs[loc] = kd
                                new = True
            if new:
                continue
            # induction variables
            if S1 is not None:
                found = False
                for loc, mu in L.mu.items():
                    if loc in noclose:
                        continue
                    e, v = L.entry[loc], getloc(S1, loc)
                    if e is None and isatom(v, 'ite') and same(v.args[0], Atom('isnone', (mu,), 'bool')) and same(v.args[2], mu):
                        w = v.args[1]
                        if isinstance(w, Ref) and isinstance(S1.heap.get(w.addr), ListCell):
                            w = S1.heap[w.addr].seq
                        if not isinstance(w, (Term, tuple)) or has_any(w, lid, self):
                            continue
                        # computed on first use, then kept
                        closed[loc] = (lambda v: lambda k: v if same(k, add(idx, 1)) else Atom('lazy', (v,), 'obj'))(w)
                        found = True
                        continue
                    if is_arith(e) and is_arith(v) and not isinstance(e, bool):
                        dlt = sub(v, mu)
                        if (isnum(dlt) or isinstance(dlt, Term)) and not has_any(dlt, lid, self):
                            closed[loc] = (lambda e, dlt: lambda k: add(e, mul(k, dlt)))(e, dlt)
                            found = True
                if found:
                    for loc in closed:
                        noclose.add(loc)
                    continue
                # values given by the index alone, by induction from the entry under the test of the following iteration
                T1 = subst(L.test, lambda t: add(idx, 1) if t == idx else None) if isinstance(L.test, Term) else True
                lits1 = [] if T1 is True or has(T1, lambda t: isatom(t, 'mu') and t.args[0] == lid) else [(T1, True)]
                back = lambda v, k: subst(v, lambda t: k if t == idx else None)
                free = lambda v: isinstance(v, Term) and not has(v, lambda t: isatom(t, 'mu', 'out', 'count') and t.meta and t.meta.get('loop', -1) >= lid)
                nxt = {}
                for loc, mu in L.mu.items():
                    if loc not in noclose and is_arith(L.entry[loc]) and not isinstance(L.entry[loc], bool) and is_arith(getloc(S1, loc)):
                        nxt[loc] = getloc(S1, loc)
                under = {loc: assume(v, lits1) for loc, v in nxt.items()}

                def settle(loc, g, e):
                    """g: next value as a function of the index"""
                    h = lambda k: back(g, sub(k, 1))
                    return h if free(g) and same(h(0), e) else None
                for a in nxt:
                    h = settle(a, under[a], L.entry[a])
                    if h is not None:
                        closed[a] = h
                        if not same(under[a], nxt[a]):
                            partial.add(a)
                        found = True
                        continue
                    for b in nxt:
                        if b == a or found or b in closed or a in closed:
                            continue
                        for sg in (1, -1):
                            h = settle(a, add(under[a], mul(sg, under[b])), add(L.entry[a], mul(sg, L.entry[b])))
                            if h is None:
                                continue
                            # a + sg*b = h(idx)
                            mb = mul(sg, sub(h(idx), L.mu[a]))
                            ga = subst(under[a], lambda t: mb if t == L.mu[b] else None)
                            ha = settle(a, ga, L.entry[a])
                            if ha is not None:
                                closed[a] = ha
                                closed[b] = (lambda h, ha, sg: lambda k: mul(sg, sub(h(k), ha(k))))(h, ha, sg)
                                if not same(under[a], nxt[a]):
                                    partial.add(a)
                                if not same(under[b], nxt[b]):
                                    partial.add(b)
                                found = True
                                break
                if found:
                    for loc in closed:
                        noclose.add(loc)
                    continue
                def content(v):
                    k = S1.heap.get(v.addr) if isinstance(v, Ref) else None
                    return k.seq if isinstance(k, ListCell) else v
                T1 = subst(L.test, lambda t: add(idx, 1) if t == idx else None) if isinstance(L.test, Term) else True
                lits1 = [] if T1 is True else [(T1, True)]
                bad = []
                for loc in closed:
                    a, b = content(getloc(S1, loc)), closed[loc](add(idx, 1))
                    if loc in partial and isinstance(a, Term):
                        a, b = assume(a, lits1), assume(b, lits1)
                    if not same(a, b):
                        bad.append(loc)
                if bad:
                    for loc in bad:
                        del closed[loc]
                    continue
            break
        else:
            raise Unsupported('loop fixpoint')
        L.ev1 = len(self.events)
        L.state = S1
        if S1 is not None:
            for loc in L.mu:
                L.next[loc] = getloc(S1, loc)
            L.raisecond = and_(*S1.pc[len(base):])
        # trip count of a test affine in the index
        if kind == 'while' and L.count is None:
            L.count = affine_count(L.test, idx)
        count = L.count if not brks else None
        if count is None:
            count = Atom('count', (lid,), 'num', {'loop': lid})
        L.breaks = []
        L.break_states = []

        def outv(v):
            if not isinstance(v, (Term, tuple)):
                return v

            def f(t):
                if isatom(t, 'mu') and t.args[0] == lid:
                    return Atom('out', (t,), t.kind, {'loop': lid, 'mu': t})
                if t == idx:
                    return count
                return None
            return subst(v, f)
        # exit through the test
        E = exitst
        E.pc, E.loops = base, S0.loops
        for loc, mu in L.mu.items():
            e = L.entry[loc]
            if getloc_cell(S0, loc) == 'list':
                app = None
                if loc in L.next:
                    nx = L.next[loc]
                    sg = segs_of(nx)
                    if sg and sg[0].op == 'ext' and sg[0].args[0] == mu:
                        app = sg[1:]
                if app is not None:
                    refd = any(has(x, lambda t: t == mu) for x in app)
                    for l2, v in L.next.items():
                        if l2 != loc and isinstance(v, (Term, tuple)) and has(v, lambda t: t == mu):
                            refd = True
                    if not refd:
                        L.appended[loc] = app
                        if S1 is not None:
                            self.adopt(app, S1, E)
                        if brks:
                            segs = [Atom('comp', (idx, count, mkseq(app)), 'obj')]
                        else:
                            cs = mkcomp(idx, count, app)
                            segs = [cs] if isinstance(cs, Atom) else cs
                        setloc(E, loc, mkseq(segs_of(e) + segs))
                        continue
            setloc(E, loc, Atom('out', (mu,), mu.kind, {'loop': lid, 'mu': mu}))
        for i, loc in enumerate(closed):
            if loc in partial:     # known inside the loop only
                m = Atom('mu', (lid, 'x', i), 'num', {'loop': lid, 'loc': loc})
                setloc(E, loc, Atom('out', (m,), 'num', {'loop': lid, 'mu': m}))
            else:
                setloc(E, loc, outv(L.closed[loc]))
        for loc, v in early.items():
            setloc(E, loc, outv(v))
        if kind == 'for':
            try:
                self.st = E
                if isnum(count) and count <= 0:
                    pass
                else:
                    last = outv(getter(sub(count, 1)))
                    self.assign(s.target, last)
            except Dead:
                self.st = E
        outs = []
        exits = []
        infinite = kind == 'while' and L.test is True
        # exits that leave everything as it was at the start of the iteration belong to the condition of the loop
        if not rets and brks and L.test is not True and S1 is not None:
            heads = [o for o in brks if all(loc[0] == self.fnstack[-1].frame and loc[1] in tnames for loc in changed_locs(hav, o[2], addr0))]
            if len(heads) == len(brks):
                stop = [assume(and_(*o[2].pc[len(base):]), [(L.test, True)] if isinstance(L.test, Term) else []) for o in brks]
                L.test = and_(L.test, *[not_(c) for c in stop])
                L.count = None
                brks = []
        for j, o in enumerate(brks):
            st = o[2]
            c = and_(*st.pc[len(base):])
            if isinstance(L.test, Term) and kind == 'while':
                c = assume(c, [(L.test, True)])            # (leaves the loop's own test out)
            L.breaks.append((c, st))
            X = State()
            X.heap = {}
            for a, c in st.heap.items():
                X.heap[a] = map_cell(c, outv)
            X.pc = base + (Atom('brk', (lid, j), 'bool', {'loop': lid}),)
            X.assumed, X.modes, X.loops = S0.assumed, S0.modes, S0.loops
            exits.append((None, X))
        for j, o in enumerate(rets):
            st = o[2]
            L.returns.append((and_(*st.pc[len(base):]), o[1], st))
            X = State()
            X.heap = {a: map_cell(c, outv) for a, c in st.heap.items()}
            X.pc = base + (Atom('loopret', (lid, j), 'bool', {'loop': lid}),)
            X.assumed, X.modes, X.loops = S0.assumed, S0.modes, S0.loops
            outs.append(('return', outv(o[1]), X))
        neg_ = tuple(not_(x.pc[-1]) for _, x in exits) + tuple(not_(o[2].pc[-1]) for o in outs)
        if not infinite:
            self.st = E
            self.st.pc = base + neg_
            if s.orelse:
                outs += self.exec_block(s.orelse)
            if self.st is not None:
                exits.append((None, self.st))
        elif exits:
            # the last break is the only remaining exit
            exits[-1][1].pc = base + tuple(not_(x.pc[-1]) for _, x in exits[:-1]) + tuple(not_(o[2].pc[-1]) for o in outs)
        if infinite and len(brks) + len(rets) == 1 and S1 is not None:
            # one exit: the condition of the loop
            L.test = not_((L.breaks or L.returns)[0][0])
            L.breaks, L.returns = [], []
            if outs:
                outs[0][2].pc = base
        if not exits:
            self.st = None
            return outs
        _, self.st = self.merge_many(exits, base, bool(outs))
        return outs

    # ------------------------------------------------------------ variables
    def setvar(self, name, v):
        a = self.fnstack[-1].frame
        nl = self.nonlocals.get(a)
        if nl and name in nl and nl[name] is not None:
            a = nl[name]
        f = self.st.heap[a]
        d = dict(f.vars)
        d[name] = v
        self.st.heap[a] = Frame(d, f.parent, f.name)

    def getvar(self, name, node=None):
        a = self.fnstack[-1].frame
        first = True
        while a is not None:
            f = self.st.heap[a]
            if name in f.vars and f.vars[name] is not UNDEF:
                return f.vars[name]
            a = f.parent
        if name in BUILTINS:
            return Ext('builtins.' + name)
        self.log('nameerror', name, node)
        raise Dead(f"name {name}")

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.setvar(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            i = self.ev_index(t.slice)
            self.store_sub(o, i, v, t.value, t)
        else:
            raise Unsupported('assign target')

    def unpack(self, elts, v):
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        seq = self.as_seq(v)
        if isinstance(seq, tuple):
            if star:
                k = star[0]
                m = len(elts) - k - 1
                for e, x in zip(elts[:k], seq[:k]):
                    self.assign(e, x)
                self.assign(elts[k].value, self.new_list(tuple(seq[k:len(seq) - m])))
                for e, x in zip(elts[k + 1:], seq[len(seq) - m:]):
                    self.assign(e, x)
                return
            if len(seq) != len(elts):
                self.log('unpackerror', {'want': len(elts), 'got': len(seq)})
                raise Dead('unpack')
            for e, x in zip(elts, seq):
                self.assign(e, x)
            return
        if isatom(seq, 'ite'):
            for i, e in enumerate(elts):
                self.assign(e, ite(seq.args[0], getitem(self.as_seq(seq.args[1]), i), getitem(self.as_seq(seq.args[2]), i)))
            return
        if star:
            k = star[0]
            for i, e in enumerate(elts[:k]):
                self.assign(e, getitem(seq, i))
            m = len(elts) - k - 1
            self.assign(elts[k].value, self.new_list(getitem(seq, Slice(k, -m if m else None)) if isinstance(seq, Term) else seq))
            for i, e in enumerate(elts[k + 1:]):
                self.assign(e, getitem(seq, i - m))
            return
        if isinstance(seq, Term):
            self.log('unpack', {'value': seq, 'n': len(elts)})
            for i, e in enumerate(elts):
                x = getitem(seq, i)
                if isinstance(x, Atom) and x.op == 'getitem' and isatom(seq, 'call') and seq.meta and 'kinds' in seq.meta:
                    x = Atom(x.op, x.args, seq.meta['kinds'][i])
                self.assign(e, x)
            return
        raise Unsupported('unpack')

    def as_seq(self, v):
        """sequence value: tuple, seq atom or term"""
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, ListCell):
                return c.seq
            if isinstance(c, DictCell):
                return tuple(k for k, _ in c.items.values())
        if isinstance(v, (RangeVal, IterVal)):
            d = self.iter_desc(v)
            if d[0] == 'concrete':
                return tuple(d[1])
            k = Atom('idx', (f"s{self.next_loop}",), 'num')
            self.next_loop += 1
            return mkseq([mkcomp(k, d[1], [item(d[2](k))])])
        if isatom(v, 'lit'):
            return v.args
        if isatom(v, 'stack') and v.args[1] == 0 and isinstance(v.args[0], tuple):
            return v.args[0]
        if isatom(v, 'vjps'):
            return v.args
        return v

    def iter_desc(self, v):
        if isinstance(v, RangeVal):
            if all(isnum(x) for x in (v.lo, v.hi, v.step)):
                r = range(int(v.lo), int(v.hi), int(v.step))
                if len(r) <= 400:
                    return ('concrete', list(r))
            span = sub(v.hi, v.lo)
            n = span if v.step == 1 else (neg(span) if v.step == -1 else Atom('ceildiv', (span, v.step), 'num'))
            return ('sym', n, lambda k: add(v.lo, mul(k, v.step)))
        if isinstance(v, IterVal):
            if v.kind == 'zip':
                ds = [self.iter_desc(p) for p in v.parts]
                conc = [d for d in ds if d[0] == 'concrete']
                if conc:
                    n = min(len(d[1]) for d in conc)
                    return ('concrete', [tuple(d[1][i] if d[0] == 'concrete' else d[2](i) for d in ds) for i in range(n)])
                return ('sym', ds[0][1] if all(same(d[1], ds[0][1]) for d in ds) else min_(*[d[1] for d in ds]),
                        lambda k: tuple(d[2](k) for d in ds))
            if v.kind == 'enumerate':
                d = self.iter_desc(v.parts[0])
                st = v.parts[1]
                if d[0] == 'concrete':
                    return ('concrete', [(add(st, i), x) for i, x in enumerate(d[1])])
                return ('sym', d[1], lambda k: (add(st, k), d[2](k)))
            if v.kind == 'reversed':
                d = self.iter_desc(v.parts[0])
                if d[0] == 'concrete':
                    return ('concrete', list(reversed(d[1])))
                return ('sym', d[1], lambda k: d[2](sub(sub(d[1], 1), k)))
            if v.kind == 'items':
                c = self.cell(v.parts[0])
                return ('concrete', [(k, x) for k, x in c.items.values()])
            if v.kind == 'map':
                d = self.iter_desc(v.parts[1]) if len(v.parts) == 2 else self.iter_desc(IterVal('zip', v.parts[1:]))
                multi = len(v.parts) > 2
                call = lambda x: self.call(v.parts[0], list(x) if multi else [x], {})
                if d[0] == 'concrete':
                    return ('concrete', [call(x) for x in d[1]])
                return ('sym', d[1], lambda k: call(d[2](k)))
        if isinstance(v, ExtMethod):
            v = self.as_term(v)
        s = self.as_seq(v)
        if isinstance(s, tuple):
            return ('concrete', list(s))
        if isinstance(s, str):
            return ('concrete', list(s))
        if isinstance(s, Term):
            if isatom(s, 'zeros', 'ones', 'linspace') and isnum(size(s, 0)) and size(s, 0) <= 12:
                return ('concrete', [getitem(s, i) for i in range(int(size(s, 0)))])
            n = size(s, 0)
            return ('sym', n, lambda k: getitem(s, k))
        raise Unsupported(f"iteration over {type(v).__name__}")

    # ------------------------------------------------------------ subscripts
    def ev_index(self, n):
        if isinstance(n, ast.Tuple):
            return tuple(self.ev_index(e) for e in n.elts)
        if isinstance(n, ast.Slice):
            return Slice(*[self.ev(x) if x is not None else None for x in (n.lower, n.upper, n.step)])
        v = self.ev(n)
        if isinstance(v, RangeVal):
            if isnum(v.lo) and v.lo == 0 and v.step == 1:
                return Atom('rangeidx', (v.hi,), 'obj')
            return Atom('rangeidx', (v.lo, v.hi, v.step), 'obj')
        if isatom(v, 'arange') and v.args[0] == 0 and v.args[2] == 1:
            return Atom('rangeidx', (v.args[1],), 'obj')
        return v

    def subscript(self, o, i):
        if isinstance(o, Ref):
            c = self.cell(o)
            if isinstance(c, ListCell):
                if isinstance(i, Slice):
                    r = getitem(c.seq, i)
                    return self.new_list(r)
                if not isinstance(c.seq, tuple) or isnum(i):
                    return getitem(c.seq, i)
                if isatom(i, 'ite') and c.seq:
                    return self.over_ite(i, lambda k: self.subscript(o, k))
                if i is None:
                    self.log('typeerror', {'value': i})
                    raise Dead('index')
                if isinstance(i, Term) and c.seq:
                    return Atom('getitem', (self.as_term(c.seq), (i,)), 'unk')
            if isinstance(c, DictCell):
                k = dig(i)
                if k in c.items:
                    return c.items[k][1]
                if c.base is not None:
                    return Atom('getitem', (c.base, (i,)), 'unk')
                if isinstance(i, Term) and c.items:
                    return Atom('dictget', (self.as_term(o), i), 'obj', {'ref': o, 'key': i})
                self.log('keyerror', {'key': i})
                raise Dead('key')
            if isinstance(c, InstCell):
                m = self.lookup(c.cls, '__getitem__')
                if isinstance(m, FuncVal):
                    return self.call(BoundMethod(o, m), [i], {})
        if isinstance(o, (tuple, Term)):
            if isinstance(i, Ref):
                i = self.as_term(i)
            if isinstance(i, tuple):
                i = tuple(self.as_term(x) if isinstance(x, Ref) else x for x in i)
            if isatom(o, 'ite') and o.kind == 'obj':
                return self.over_ite(o, lambda x: self.no_item() if x is None else self.subscript(x, i))
            if isinstance(o, tuple) and isinstance(i, Term) and not isatom(i, 'ite'):
                return Atom('getitem', (self.as_term(o), (i,)), 'unk')
            return getitem(o, i)
        if isinstance(o, str) and isnum(i):
            return o[int(i)]
        if isinstance(o, (RangeVal, IterVal)):
            return getitem(self.as_seq(o), i)
        if isinstance(o, (Ext, ClassVal)):
            return o          # typing generics
        if isnum(o):
            return o
        if isinstance(o, ExtMethod):
            return self.subscript(self.as_term(o), i)
        raise Unsupported(f"subscript of {type(o).__name__} at {self.where(self.node)}")

    def store_sub(self, o, i, v, tnode, node):
        if isinstance(o, Ref):
            c = self.cell(o)
            if isinstance(c, (ListCell, DictCell)):
                self.writes(o, 'item')
            if isinstance(c, ListCell):
                if isinstance(c.seq, tuple) and isnum(i) and -len(c.seq) <= i < len(c.seq):
                    l = list(c.seq)
                    l[int(i)] = v
                    self.st.heap[o.addr] = ListCell(tuple(l))
                else:
                    self.st.heap[o.addr] = ListCell(Atom('lset', (self.as_term(c.seq), i, self.as_term(v)), 'obj'))
                return
            if isinstance(c, DictCell):
                d = dict(c.items)
                d[dig(i)] = (i, v)
                self.st.heap[o.addr] = DictCell(d, c.base)
                return
            if isinstance(c, InstCell):
                m = self.lookup(c.cls, '__setitem__')
                if isinstance(m, FuncVal):
                    self.call(BoundMethod(o, m), [i, v], {})
                    return
        if isinstance(o, Term):
            if isinstance(i, tuple):
                i = tuple(self.as_term(x) if isinstance(x, Ref) else x for x in i)
            new = setitem(o, i, self.as_term(v))
            if self.precise:
                self.log('typing', {'op': 'store', 'args': (o, self.as_term(v))})
            self.log('mutate', {'old': o, 'new': new, 'roots': alias_roots(o), 'index': i}, node)
            self.replace_obj(o, new)
            # a view target writes through to its base variable
            if isatom(o, 'getitem') and isinstance(tnode, ast.Subscript):
                self.store_sub(self.ev(tnode.value), self.ev_index(tnode.slice), new, tnode.value, node)
            return
        raise Unsupported(f"item store on {type(o).__name__} at {self.where(node)}")

    def replace_obj(self, old, new, fresh=True):
        heap = self.st.heap
        if fresh:
            new = self.fresh(new)
        hits = 0

        def swap(v):
            if v is old:
                return new
            if type(v) is tuple:
                w = tuple(map(swap, v))
                return w if any(p is not q for p, q in zip(v, w)) else v
            return v

        def swapped(d):
            w = {k: swap(v) for k, v in d.items()}
            return w if any(w[k] is not d[k] for k in d) else None
        for a, c in list(heap.items()):
            w = None
            if isinstance(c, Frame):
                w = swapped(c.vars)
                if w:
                    heap[a] = Frame(w, c.parent, c.name)
            elif isinstance(c, InstCell):
                w = swapped(c.attrs)
                if w:
                    heap[a] = InstCell(c.cls, w)
            elif isinstance(c, ListCell) and isinstance(c.seq, tuple):
                w = swap(c.seq)
                w = w if w is not c.seq else None
                if w:
                    heap[a] = ListCell(w)
            elif isinstance(c, DictCell):
                w = swapped(c.items)
                if w:
                    heap[a] = DictCell(w, c.base)
            hits += bool(w)
        return hits

    # ------------------------------------------------------------ attributes
    def lookup(self, cls, name):
        """class attribute through the MRO; None if absent, Ext for an external provider"""
        for k in cls.mro:
            if isinstance(k, ClassVal):
                v = self.st.heap[k.frame].vars
                if name in v and v[name] is not UNDEF:
                    return v[name]
        return None

    def ext_bases(self, cls):
        return [k for k in cls.mro if not isinstance(k, ClassVal)]

    def getattr(self, o, name, node=None, default=UNDEF):
        if isinstance(o, Ref):
            c = self.cell(o)
            if isinstance(c, InstCell):
                if name in c.attrs and c.attrs[name] is not UNDEF:
                    return c.attrs[name]
                v = self.lookup(c.cls, name)
                if v is not None:
                    return self.bind(v, o)
                if name == '__class__':
                    return c.cls
                if name == '__dict__':
                    return self.new_dict(list(c.attrs.items()))
                if name == '__call__':
                    f = self.lookup(c.cls, 'forward')
                    if f is not None:
                        return self.bind(f, o)
                if name == '__getattr__':
                    raise Dead
                eb = [b for b in self.ext_bases(c.cls) if not (isinstance(b, Ext) and b.name == 'builtins.object')]
                if eb:
                    if default is not UNDEF and name not in MODULE_ATTRS:
                        return default
                    if name not in MODULE_ATTRS and all(isinstance(b, Ext) and b.name in MODULE_BASES for b in eb):
                        self.log('attrerror', {'cls': c.cls.qual, 'attr': name}, node)
                        raise Dead(f"attribute {name}")
                    return ExtMethod(o, name)
                if default is not UNDEF:
                    return default
                self.log('attrerror', {'cls': c.cls.qual, 'attr': name}, node)
                raise Dead(f"attribute {name}")
            return ExtMethod(o, name)
        if isinstance(o, ModuleVal):
            f = self.st.heap[o.frame]
            if name in f.vars:
                return f.vars[name]
            m = self.load(o.name + '.' + name)
            if m is not None:
                return m
            self.log('attrerror', {'cls': o.name, 'attr': name}, node)
            raise Dead
        if isinstance(o, Ext):
            if o.name == 'math' and name in ('pi', 'e', 'inf') or o.name == 'numpy' and name in ('pi', 'e', 'inf') or o.name == 'torch' and name in ('pi', 'e', 'inf'):
                return Atom('const', (name,), 'num')
            return Ext(canon_ext(o.name + '.' + name))
        if isinstance(o, ClassVal):
            if name == '__name__':
                return o.name
            if name == '__mro__':
                return tuple(o.mro)
            v = self.lookup(o, name)
            if v is not None:
                if isinstance(v, FuncVal) and v.classm:
                    return BoundMethod(o, v)
                return v
            if name == 'apply' and any(isinstance(b, Ext) and b.name.endswith('autograd.Function') for b in o.mro):
                return ExtMethod(o, 'apply')
            if self.ext_bases(o):
                return ExtMethod(o, name)
            self.log('attrerror', {'cls': o.qual, 'attr': name}, node)
            raise Dead
        if isinstance(o, FuncVal):
            if name in ('__defaults__',):
                return tuple(o.defaults)
            if name == '__name__':
                return o.name.split('.')[-1]
            ov = self.st.heap[OVERLAY].items.get(dig((o, name)))
            if ov is not None and ov[1] is not UNDEF:
                return ov[1]
            if default is not UNDEF:
                return default
            return ExtMethod(o, name)
        if isinstance(o, BoundMethod):
            if name == '__self__':
                return o.self_
            if name == '__func__':
                return o.func
            return self.getattr(o.func, name)
        if isinstance(o, SuperVal):
            c = self.cell(o.self_).cls if isinstance(o.self_, Ref) else o.self_
            mro = c.mro
            i = mro.index(o.cls) if o.cls in mro else -1
            for k in mro[i + 1:]:
                if isinstance(k, ClassVal):
                    v = self.st.heap[k.frame].vars
                    if name in v:
                        return self.bind(v[name], o.self_)
                else:
                    if not (isinstance(k, Ext) and k.name == 'builtins.object' and name != '__init__'):
                        return ExtMethod(o, name)
            self.log('attrerror', {'cls': 'super', 'attr': name}, node)
            raise Dead
        if isinstance(o, Term):
            return self.term_attr(o, name, node, default)
        if isinstance(o, (tuple, str, RangeVal, IterVal)) or isnum(o) or isinstance(o, bool):
            return ExtMethod(o, name)
        if o is None:
            if default is not UNDEF:
                return default
            self.log('attrerror', {'cls': 'None', 'attr': name}, node)
            raise Dead
        if isinstance(o, PyFunc):
            return ExtMethod(o, name)
        if isinstance(o, ExtMethod):
            # attribute of an unevaluated external attribute
            return self.term_attr(self.as_term(o), name, node, default)
        raise Unsupported(f"attribute {name} of {type(o).__name__}")

    def bind(self, v, o):
        if isinstance(v, FuncVal):
            if v.static:
                return v
            if v.prop:
                r = self.call(v, [o], {})
                if v.cached and isinstance(o, Ref) and isinstance(self.cell(o), InstCell):
                    c = self.cell(o)
                    self.st.heap[o.addr] = InstCell(c.cls, {**c.attrs, v.name.split('.')[-1]: r})
                return r
            if v.classm:
                return BoundMethod(self.cell(o).cls if isinstance(o, Ref) else o, v)
            return BoundMethod(o, v)
        return v

    def term_attr(self, o, name, node=None, default=UNDEF):
        ov = self.st.heap[OVERLAY].items.get(dig((o, name)))
        if ov is not None and ov[1] is not UNDEF:
            return ov[1]
        if isinstance(o, Atom):
            if o.op == 'ite' and o.kind in ('obj', 'unk'):
                return self.over_ite(o, lambda x: self.getattr(x, name, node))
            if o.op == 'dictget':
                c = self.cell(o.meta['ref'])
            if o.meta:
                if name in o.meta.get('attrs', {}):
                    return o.meta['attrs'][name]
                if name in o.meta.get('methods', {}):
                    f = o.meta['methods'][name]
                    return PyFunc(f"{show(o)}.{name}", f)
                if o.op == 'inst':
                    return self.getattr(o.meta['ref'], name, node)
        if o.kind in ('obj', 'fn', 'unk') and not isatom(o, 'seq', 'getitem', 'out', 'mu') or isatom(o, 'sym') and o.kind == 'obj':
            if default is not UNDEF:
                return ite(Atom('hasattr', (o, name), 'bool'), Atom('attr', (o, name), 'unk'), default)
            return ExtMethod(o, name)
        if name == 'shape':
            return shape(o)
        if name == 'T':
            return transpose(o, 0, 1)
        if name == 'mT':
            return transpose(o, -1, -2)
        if name in ('device', 'dtype', 'requires_grad', 'is_cuda', 'grad_fn', 'is_leaf', 'layout'):
            return Atom('attr', (o, name), 'obj')
        if name in ('ndim',):
            return ndim(o)
        if name == 'data':
            return Atom('data', (o,))
        if name == 'grad':
            return Atom('attr', (o, 'grad'), 'tensor')
        return ExtMethod(o, name)

    def no_item(self):
        self.log('typeerror', {'what': 'subscript of None'})
        raise Dead('subscript of None')

    def over_ite(self, o, f):
        """apply f to both alternatives of a gated value"""
        c = self.decide(o.args[0])
        if isinstance(c, bool):
            return f(o.args[1] if c else o.args[2])
        res = {}

        def run(k, v):
            def g():
                try:
                    res[k] = f(v)
                except Dead:
                    self.st = None
                return []
            return g
        self.branch(c, run(0, o.args[1]), run(1, o.args[2]))
        if self.st is None:
            raise Dead
        if 0 in res and 1 in res:
            a, b = res[0], res[1]
            if isinstance(a, (ExtMethod, PyFunc, FuncVal, BoundMethod, ClassVal)) or isinstance(b, (ExtMethod, PyFunc, FuncVal, BoundMethod, ClassVal)):
                return Atom('ite', (c, a, b), 'obj')
            self._mA = self._mB = self.st
            self._mnew = {}
            v = self.merge_value(c, a, b)
            self.st.heap.update(self._mnew)
            return v
        return res[0] if 0 in res else res[1]

    def setattr(self, o, name, v):
        if isinstance(o, Atom) and o.op == 'inst':
            o = o.meta['ref']
        if isinstance(o, Ref):
            c = self.cell(o)
            if isinstance(c, InstCell):
                p = self.lookup(c.cls, name)
                if isinstance(p, FuncVal) and p.prop and p.setter is not None:
                    self.call(p.setter, [o, v], {})
                    return
                d = dict(c.attrs)
                d[name] = v
                self.st.heap[o.addr] = InstCell(c.cls, d)
                self.log('setattr', {'obj': o, 'attr': name, 'value': v})
                return
        if isinstance(o, ExtMethod):
            o = self.as_term(o)
        if isinstance(o, Term):
            self.log('setattr', {'obj': o, 'attr': name, 'value': v})
            c = self.st.heap[OVERLAY]
            d = dict(c.items)
            d[dig((o, name))] = ((o, name), v)
            self.st.heap[OVERLAY] = DictCell(d)
            return
        if isinstance(o, (ClassVal, ModuleVal)):
            f = self.st.heap[o.frame]
            d = dict(f.vars)
            d[name] = v
            self.st.heap[o.frame] = Frame(d, f.parent, f.name)
            return
        if isinstance(o, FuncVal):
            c = self.st.heap[OVERLAY]
            d = dict(c.items)
            d[dig((o, name))] = ((o, name), v)
            self.st.heap[OVERLAY] = DictCell(d)
            return
        raise Unsupported(f"attribute store on {type(o).__name__}")

    # ------------------------------------------------------------ expressions
    def ev(self, n):
        self.steps += 1
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(n).__name__} at {self.where(n)}")
        saved = self.node
        if hasattr(n, 'lineno'):
            self.node = n
        v = m(n)
        self.node = saved
        return v

    def e_Constant(self, n):
        v = n.value
        if isinstance(v, float):
            if v != v or v in (float('inf'), float('-inf')):
                return Atom('const', ('inf' if v > 0 else '-inf',), 'num')
            return norm(Fraction(repr(v)))
        if isinstance(v, (bytes, complex)):
            return Atom('const', (repr(v),), 'obj')
        return v

    def e_Name(self, n):
        return self.getvar(n.id, n)

    def e_NamedExpr(self, n):
        v = self.ev(n.value)
        self.assign(n.target, v)
        return v

    def e_Tuple(self, n):
        segs = []
        conc = True
        for e in n.elts:
            if isinstance(e, ast.Starred):
                s = self.as_seq(self.ev(e.value))
                segs.extend(segs_of(s))
            else:
                segs.append(item(self.ev(e)))
        return mkseq(segs)

    def e_List(self, n):
        return self.new_list(self.e_Tuple(n))

    def e_Set(self, n):
        return self.new_list(self.e_Tuple(n))

    def e_Dict(self, n):
        pairs = []
        base = None
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.ev(v)
                if isinstance(o, Ref) and isinstance(self.cell(o), DictCell):
                    pairs += list(self.cell(o).items.values())
                else:
                    base = o
            else:
                pairs.append((self.ev(k), self.ev(v)))
        r = self.new_dict(pairs)
        if base is not None:
            self.st.heap[r.addr] = DictCell(self.cell(r).items, self.as_term(base))
        return r

    def e_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                try:
                    x = self.ev(v.value)
                except Dead:
                    raise
                if isinstance(x, str) and v.format_spec is None:
                    parts.append(x)
                elif isnum(x) and Fraction(x).denominator == 1 and v.format_spec is None:
                    parts.append(str(int(x)))
                else:
                    parts.append(None)
        if all(isinstance(p, str) for p in parts):
            return ''.join(parts)
        return Atom('fstring', (self.where(n),), 'obj', {'notnone': True})

    def e_FormattedValue(self, n):
        return Atom('fstring', (self.where(n),), 'obj')

    def e_Lambda(self, n):
        return self.make_func(n, f"<lambda>")

    def e_Starred(self, n):
        return self.ev(n.value)

    def e_Attribute(self, n):
        o = self.ev(n.value)
        return self.getattr(o, n.attr, n)

    def e_Subscript(self, n):
        o = self.ev(n.value)
        r = self.subscript(o, self.ev_index(n.slice))
        return self.severed(r) if self.cuts and isinstance(o, Term) and o.kind == 'tensor' else r

    def e_Slice(self, n):
        return self.ev_index(n)

    def e_UnaryOp(self, n):
        v = self.ev(n.operand)
        if isinstance(n.op, ast.Not):
            return not_(self.truth(v))
        if isinstance(n.op, ast.USub):
            v = self.num(v)
            if isatom(v, 'lit'):
                return Atom('lit', [neg(x) for x in v.args], 'tensor', v.meta)
            return self.severed(self.fresh(neg(v)))
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert):
            if isinstance(v, bool) or isinstance(v, Term) and (v.kind == 'bool' or boolish(v)):
                return not_(v)
            return UN['invert'](v)

    def num(self, v):
        if isinstance(v, (ExtMethod, Ref)):
            v = self.as_term(v)
        if isinstance(v, tuple):
            v = self.as_term(v)
        if not is_arith(v):
            if isinstance(v, (Ext, PyFunc, FuncVal, BoundMethod, str)) or v is None or v is UNDEF:
                self.log('typeerror', {'value': v})
                raise Dead('arithmetic on non-number')
            raise Unsupported(f"arithmetic on {type(v).__name__} at {self.where(self.node)}")
        return v

    def e_BinOp(self, n):
        return self.binop(BINOP[type(n.op)], self.ev(n.left), self.ev(n.right))

    def binop(self, op, a, b):
        if op == '+':
            sa, sb = self.seq_like(a), self.seq_like(b)
            if sa is not None and sb is not None and (sa[1] or sb[1]):
                if sa[1] == 'str' or sb[1] == 'str':
                    if isinstance(a, str) and isinstance(b, str):
                        return a + b
                    return Atom('strcat', (self.as_term(a), self.as_term(b)), 'obj')
                r = mkseq(segs_of(sa[0]) + segs_of(sb[0]))
                return self.new_list(r) if 'list' in (sa[1], sb[1]) else r
        if op == '*':
            for x, y in ((a, b), (b, a)):
                sx = self.seq_like(x)
                if sx is not None and sx[1] in ('list', 'tuple') and not isinstance(y, (tuple, Ref)):
                    if isnum(y) and isinstance(sx[0], tuple):
                        r = sx[0] * int(y)
                    else:
                        k = Atom('idx', (f"r{self.next_loop}",), 'num')
                        self.next_loop += 1
                        r = mkseq([mkcomp(k, y, segs_of(sx[0]))])
                    return self.new_list(r) if sx[1] == 'list' else r
        if op == '%' and (isinstance(a, str)):
            return Atom('fstring', (a,), 'obj')
        for x, sw in ((a, False), (b, True)):
            if isinstance(x, Ref) and isinstance(self.cell(x), InstCell):
                mname = {'+': '__add__', '-': '__sub__', '*': '__mul__', '/': '__truediv__'}.get(op)
                m = mname and self.lookup(self.cell(x).cls, mname if not sw else mname.replace('__', '__r', 1))
                if isinstance(m, FuncVal):
                    return self.call(BoundMethod(x, m), [b if not sw else a], {})
        if op in ('&', '|', '^'):
            a, b = self.num(a), self.num(b)
            if op == '&':
                return and_(a, b)
            if op == '|':
                return or_(a, b)
            return Atom('xor', (a, b), 'bool')
        a, b = self.num(a), self.num(b)
        if self.precise:
            self.log('typing', {'op': op, 'args': (a, b)})
        try:
            r = arith(op, a, b)
        except ZeroDivisionError:
            raise Dead('division by zero')
        if r is a or r is b:
            r = self.fresh(r)
        return self.severed(r) if self.cuts else r

    def seq_like(self, v):
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, ListCell):
                return (c.seq, 'list')
            return None
        if isinstance(v, tuple):
            return (v, 'tuple')
        if isinstance(v, str):
            return (v, 'str')
        if isatom(v, 'fstring', 'strcat'):
            return (v, 'str')
        if isatom(v, 'seq', 'tuple', 'shape'):
            return (v, 'tuple')
        if isinstance(v, Atom) and v.op in ('getitem', 'attr', 'mcall', 'out', 'mu', 'sym') and v.kind in ('obj', 'unk'):
            return (v, None)
        return None

    def e_BoolOp(self, n):
        isand = isinstance(n.op, ast.And)
        v = self.ev(n.values[0])
        for e in n.values[1:]:
            t = self.truth(v)
            if isinstance(t, bool):
                if t != isand:
                    return v
                v = self.ev(e)
                continue
            box = {}

            def run():
                try:
                    box['v'] = self.ev(e)
                    box['t'] = self.truth(box['v'])
                except Dead:
                    self.st = None
                return []
            self.branch(t if isand else not_(t), run, lambda: [])
            if 'v' not in box:
                return v
            vb = box['v']
            boolv = lambda x: isinstance(x, bool) or isinstance(x, Term) and x.kind == 'bool'
            if boolv(v) and boolv(vb):
                v = and_(t, box['t']) if isand else or_(t, box['t'])
            elif True:
                # value semantics of and / or; used as a condition it is the conjunction / disjunction
                v = Atom('boolval', (and_(t, box['t']) if isand else or_(t, box['t']),), 'bool') if False else \
                    (ite(t, vb, v) if isand else ite(t, v, vb))
                if isatom(v, 'ite') and not (is_arith(vb)):
                    pass
        return v

    def e_Compare(self, n):
        left = self.ev(n.left)
        res = []
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r)
            res.append(self.compare1(op, left, right))
            left = right
        return and_(*res) if len(res) > 1 else res[0]

    def compare1(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            r = self.equal(a, b)
            if isinstance(op, (ast.IsNot, ast.NotEq)):
                if isinstance(op, ast.NotEq) and isinstance(a, Ref) and isinstance(self.cell(a), InstCell):
                    m = self.lookup(self.cell(a).cls, '__ne__')
                    if isinstance(m, FuncVal):
                        return self.call(BoundMethod(a, m), [b], {})
                return not_(r)
            return r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a, b)
            return not_(r) if isinstance(op, ast.NotIn) else r
        o = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}[type(op)]
        if isinstance(a, str) and isinstance(b, str):
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[o]
        a, b = self.num(a), self.num(b)
        if isatom(a, 'sum') and a.args[1] is None and boolish(a.args[0]) and isnum(b):
            if (o, b) in (('>', 0), ('>=', 1)):
                return self.decide(Atom('any', (a.args[0],), 'bool'))
            if (o, b) in (('<', 1), ('<=', 0)):
                return self.decide(not_(Atom('any', (a.args[0],), 'bool')))
        return self.decide(compare(o, a, b))

    def equal(self, a, b):
        for x, y in ((a, b), (b, a)):
            if y is None:
                if x is None:
                    return True
                if isinstance(x, Term):
                    if isatom(x, 'ite'):
                        return or_(and_(x.args[0], self.equal(x.args[1], None)), and_(not_(x.args[0]), self.equal(x.args[2], None)))
                    return False if notnone(x) else self.decide(isnone(x))
                return False
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a == b:
                return True
            ca, cb = self.cell(a), self.cell(b)
            if isinstance(ca, ListCell) and isinstance(cb, ListCell):
                return self.decide(eq(self.as_term(a), self.as_term(b)))
            return False
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (Ext, ClassVal)) and isinstance(y, (Ext, ClassVal)):
                return dig(x) == dig(y)
            if isinstance(x, Ref) and isinstance(y, (tuple, str)) or isinstance(x, Ref) and isnum(y):
                c = self.cell(x)
                return False if not isinstance(c, ListCell) else False
            if isinstance(x, (FuncVal, BoundMethod, PyFunc)):
                return dig(x) == dig(y)
        a, b = self.as_term(a), self.as_term(b)
        if isatom(a, 'ite') and (not is_arith(b) or b.kind == 'obj' if isinstance(b, Term) else not is_arith(b)) or \
                isatom(b, 'ite') and (not is_arith(a) or a.kind == 'obj' if isinstance(a, Term) else not is_arith(a)):
            x, y = (a, b) if isatom(a, 'ite') else (b, a)
            return or_(and_(x.args[0], self.equal(x.args[1], y)), and_(not_(x.args[0]), self.equal(x.args[2], y)))
        return self.decide(eq(a, b))

    def contains(self, a, b):
        if isinstance(b, Ref):
            c = self.cell(b)
            if isinstance(c, DictCell):
                if dig(a) in c.items:
                    return True
                if c.base is None and not isinstance(a, Term):
                    return False
                return Atom('in', (self.as_term(a), self.as_term(b)), 'bool')
            if isinstance(c, ListCell):
                b = c.seq
        if isinstance(b, tuple):
            r = [self.equal(a, x) for x in b]
            return or_(*r) if r else False
        if isinstance(b, str) and isinstance(a, str):
            return a in b
        return self.decide(Atom('in', (self.as_term(a), self.as_term(b)), 'bool'))

    def e_IfExp(self, n):
        c = self.truth(self.ev(n.test))
        if isinstance(c, bool):
            return self.ev(n.body if c else n.orelse)
        return self.choose(c, lambda: self.ev(n.body), lambda: self.ev(n.orelse))

    def choose(self, c, fa, fb):
        res = {}

        def run(k, f):
            def g():
                try:
                    res[k] = f()
                except Dead:
                    self.st = None
                return []
            return g
        self.branch(c, run(0, fa), run(1, fb))
        if self.st is None:
            raise Dead
        if 0 in res and 1 in res:
            self._mA = self._mB = self.st
            self._mnew = {}
            v = self.merge_value(c, res[0], res[1])
            self.st.heap.update(self._mnew)
            return v
        return res[0] if 0 in res else res[1]

    # comprehensions ------------------------------------------------
    def e_ListComp(self, n):
        return self.new_list(self.comp(n))

    def e_GeneratorExp(self, n):
        return self.comp(n)

    def e_SetComp(self, n):
        return self.new_list(self.comp(n))

    def comp(self, n):
        ctx = self.fnstack[-1]
        fa = self.alloc(Frame({}, ctx.frame if ctx.classframe is None else ctx.outer, '<comp>'))
        first = self.ev(n.generators[0].iter)
        self.fnstack.append(Ctx(ctx.module, ctx.name, fa))
        try:
            return mkseq(self.comp_gen(n, 0, first))
        finally:
            self.fnstack.pop()

    def comp_gen(self, n, g, it):
        gen = n.generators[g]

        def body(v):
            self.assign(gen.target, v)
            conds = []
            for i in gen.ifs:
                c = self.truth(self.ev(i))
                if c is False:
                    return []
                conds.append(c)
            c = and_(*conds)
            if g + 1 < len(n.generators):
                segs = self.comp_gen(n, g + 1, self.ev(n.generators[g + 1].iter))
            else:
                segs = [item(self.ev(n.elt))]
            return segs if c is True else [Atom('cseg', (c, mkseq(segs)), 'obj')]
        return self.map_iter(it, body)

    def map_iter(self, it, body):
        """segments produced by body over an iterable"""
        if not isinstance(it, (RangeVal, IterVal)):
            s = self.as_seq(it)
            if isatom(s, 'seq') and not (len(s.args) == 1 and s.args[0].op == 'ext'):
                out = []
                for sg in s.args:
                    if sg.op == 'item':
                        out += body(sg.args[0])
                    elif sg.op == 'ext':
                        out += self.map_iter(sg.args[0], body)
                    elif sg.op == 'comp' and isinstance(sg.args[2], tuple):
                        k = Atom('idx', (f"m{self.next_loop}",), 'num')
                        self.next_loop += 1
                        segs = []
                        for e in sg.args[2]:
                            segs += body(replace(e, [(sg.args[0], k)]))
                        out.append(mkcomp(k, sg.args[1], segs))
                    elif sg.op == 'cseg':
                        inner = []
                        for e in segs_of(sg.args[1]):
                            if e.op == 'item':
                                inner += body(e.args[0])
                            else:
                                raise Unsupported('conditional segment')
                        out.append(Atom('cseg', (sg.args[0], mkseq(inner)), 'obj'))
                    else:
                        raise Unsupported('comprehension over symbolic segments')
                return out
            if isatom(s, 'seq'):
                it = s.args[0].args[0]
        d = self.iter_desc(it)
        if d[0] == 'concrete':
            out = []
            for v in d[1]:
                out += body(v)
            return out
        k = Atom('idx', (f"c{self.next_loop}",), 'num')
        self.next_loop += 1
        self.st.loops = self.st.loops + (k.args[0],)
        segs = body(d[2](k))
        self.st.loops = self.st.loops[:-1]
        return [mkcomp(k, d[1], segs)]

    def e_DictComp(self, n):
        ctx = self.fnstack[-1]
        fa = self.alloc(Frame({}, ctx.frame, '<comp>'))
        first = self.ev(n.generators[0].iter)
        self.fnstack.append(Ctx(ctx.module, ctx.name, fa))
        try:
            d = self.iter_desc(first)
            pairs = []
            if d[0] == 'concrete' and len(n.generators) == 1:
                for v in d[1]:
                    self.assign(n.generators[0].target, v)
                    if all(self.truth(self.ev(i)) is True for i in n.generators[0].ifs):
                        pairs.append((self.ev(n.key), self.ev(n.value)))
            else:
                k = Atom('idx', (f"d{self.next_loop}",), 'num')
                self.next_loop += 1
                self.assign(n.generators[0].target, d[2](k))
                kk, vv = self.as_term(self.ev(n.key)), self.as_term(self.ev(n.value))
                body = mkcomp(k, d[1], [item((kk, vv))])
                self.fnstack.pop()
                self.fnstack.append(ctx)
                return Atom('dict', (body,), 'obj', {'notnone': True})
        finally:
            self.fnstack.pop()
        return self.new_dict(pairs)

    def adopt(self, v, src, dst):
        """cells made by the iterations that the value refers to"""
        todo = [v]
        while todo:
            x = todo.pop()
            if isinstance(x, (tuple, list)):
                todo += list(x)
            elif isinstance(x, Atom) and x.op in ('item', 'seq', 'cseg', 'comp'):
                todo += list(x.args)
            elif isinstance(x, Ref) and x.addr not in dst.heap and x.addr in src.heap:
                c = dst.heap[x.addr] = src.heap[x.addr]
                todo += [c.seq] if isinstance(c, ListCell) else list(c.attrs.values()) if isinstance(c, InstCell) else list(c.items.values()) if isinstance(c, DictCell) else []

    # ------------------------------------------------------------ reification
    def as_term(self, v):
        if isinstance(v, (Term, str, bool, Slice)) or isnum(v) or v is None or v is Ellipsis:
            return v
        if isinstance(v, tuple):
            return tuple(self.as_term(x) for x in v)
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, ListCell):
                if isinstance(c.seq, tuple):
                    return self.as_term(c.seq)
                return c.seq
            if isinstance(c, DictCell):
                if not c.items and c.base is not None:
                    return c.base
                return Atom('dict', tuple((self.as_term(k), self.as_term(x)) for k, x in sorted(c.items.values(), key=lambda p: dig(p[0]))) + ((c.base,) if c.base is not None else ()),
                            'obj', {'notnone': True})
            return Atom('inst', (c.cls.qual, v.addr), 'obj', {'ref': v, 'notnone': True})
        if isinstance(v, (FuncVal, BoundMethod)):
            return self.reify(v)
        if isinstance(v, ExtMethod):
            return Atom('attr', (self.as_term(v.obj), v.name), 'unk')
        if isinstance(v, (RangeVal, IterVal)):
            return self.as_term(self.as_seq(v))
        if isinstance(v, (Ext, ClassVal, ModuleVal, PyFunc, SuperVal)):
            return Atom('ref', (dig(v),), 'obj', {'val': v, 'notnone': True})
        if v is UNDEF:
            return Atom('undef', (), 'unk')
        raise Unsupported(f"term of {type(v).__name__}")

    reifying = 0

    def deep(self, v):
        """term with the functions held in gated values replaced by their bodies"""
        def f(t):
            if isinstance(t, Atom) and t.op not in ('ref', 'inst') and any(isinstance(a, (FuncVal, BoundMethod)) for a in t.args):
                return subst(Atom(t.op, tuple(self.as_term(a) if isinstance(a, (FuncVal, BoundMethod)) else a for a in t.args), t.kind, t.meta), f, memo)
            return None
        memo = {}
        return subst(v, f, memo)

    def reify(self, fv):
        """extensional value of a function: its body on formal arguments"""
        f, bound = (fv.func, [fv.self_]) if isinstance(fv, BoundMethod) else (fv, [])
        if not isinstance(f, FuncVal) or self.reifying > 3:
            return Atom('ref', (dig(fv),), 'obj', {'val': fv, 'notnone': True})
        a = f.node.args
        params = a.posonlyargs + a.args
        npos = len(params) - len(f.defaults) - len(bound)
        if npos < 0:
            npos = 0
        formals = [Atom('formal', (self.reifying, i), 'tensor') for i in range(npos)]
        st, ev, nl, nr = self.st, len(self.events), self.next_loop, self.next_rand
        self.st = st.fork()
        self.reifying += 1
        try:
            body = self.as_term(self.call_func(f, bound + formals, {}))
            ok = True
        except (Dead, Unsupported):
            ok = False
        finally:
            self.reifying -= 1
            self.st = st
            del self.events[ev:]
        if not ok:
            return Atom('ref', (dig(fv),), 'obj', {'val': fv, 'notnone': True})
        # eta
        if isatom(body, 'call') and body.args[1] == tuple(formals) and not body.args[2] and \
                not has(body.args[0], lambda t: isatom(t, 'formal')):
            return body.args[0]
        if isatom(body, 'call') and len(body.args[1]) == npos and not body.args[2] and all(same(p, q) for p, q in zip(body.args[1], formals)) \
                and isinstance(body.args[0], Term) and not has(body.args[0], lambda t: isatom(t, 'formal')):
            return body.args[0]
        return Atom('lam', (npos, body), 'obj', {'fn': fv, 'notnone': True})

    # ------------------------------------------------------------ calls
    def e_Call(self, n):
        # super() without arguments
        if isinstance(n.func, ast.Name) and n.func.id == 'super':
            ctx = self.fnstack[-1]
            args = [self.ev(a) for a in n.args]
            if args:
                if isinstance(args[0], ClassVal) and len(args) > 1:
                    return SuperVal(args[0], args[1])
                raise Unsupported('super')
            for c in reversed(self.fnstack):
                if c.func is not None and c.func.cls is not None:
                    a = c.func.node.args
                    first = (a.posonlyargs + a.args)[0].arg
                    return SuperVal(c.func.cls, self.st.heap[c.frame].vars[first])
            raise Unsupported('super')
        f = self.ev(n.func)
        args, symstar = [], False
        for a in n.args:
            if isinstance(a, ast.Starred):
                s = self.as_seq(self.ev(a.value))
                if isinstance(s, tuple):
                    args.extend(s)
                else:
                    symstar = True
                    args.append(('*', s))
            else:
                args.append(self.ev(a))
        if symstar:
            segs = []
            lead = []
            seen = False
            for a in args:
                if isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], str) and a[0] == '*':
                    segs.extend(segs_of(a[1]))
                    seen = True
                elif True:
                    segs.append(item(a))
            args = [mkseq(segs)]
        kwargs = {}
        for k in n.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                if isinstance(v, Ref) and isinstance(self.cell(v), DictCell) and self.cell(v).base is None:
                    for kk, vv in self.cell(v).items.values():
                        kwargs[kk] = vv
                else:
                    kwargs['**'] = v
            else:
                kwargs[k.arg] = v
        self.node = n
        if self.cuts:
            r = self.call(f, args, kwargs, n)
            g = f.func if isinstance(f, BoundMethod) else f
            inner = isinstance(g, FuncVal) and g.qual not in self.opaque or isinstance(g, ClassVal) or \
                isinstance(g, Ref) and isinstance(self.cell(g), InstCell)
            old = [v for v in args] + list(kwargs.values()) + [f.obj if isinstance(f, ExtMethod) else None]
            return r if inner or any(r is v for v in old) else self.severed(r)
        return self.call(f, args, kwargs, n)

    def severed(self, r):
        """what a computation yields while gradients are disabled (only tracked on request)"""
        if not self.cuts or self.st is None or ([v for k, v in self.st.modes if k == 'grad'] or [True])[-1] is not False:
            return r
        if isinstance(r, tuple):
            return tuple(self.severed(v) for v in r)
        if isinstance(r, Term) and (r.kind in ('tensor', 'unk') or isatom(r, 'call')) and not isatom(r, 'detach', 'seq', 'new'):
            return Atom('detach', (r,), r.kind, r.meta if isinstance(r, Atom) else None)
        return r

    def call(self, f, args, kwargs, node=None):
        if isinstance(f, FuncVal):
            return self.call_func(f, args, kwargs)
        if isinstance(f, BoundMethod):
            return self.call(f.func, [f.self_] + list(args), kwargs, node)
        if isinstance(f, PyFunc):
            return f.fn(self, list(args), dict(kwargs))
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Ref):
            c = self.cell(f)
            if isinstance(c, InstCell):
                m = self.lookup(c.cls, '__call__') or self.lookup(c.cls, 'forward')
                if isinstance(m, FuncVal):
                    self.log('modcall', {'cls': c.cls.qual})
                    return self.call(BoundMethod(f, m), args, kwargs)
                f = self.as_term(f)
            else:
                self.log('typeerror', {'value': f})
                raise Dead('not callable')
        if isinstance(f, Ext):
            return self.call_ext(f.name, list(args), dict(kwargs))
        if isinstance(f, ExtMethod):
            return self.call_method(f.obj, f.name, list(args), dict(kwargs))
        if isinstance(f, Atom):
            if f.op == 'ite':
                return self.over_ite(f, lambda x: self.call(x, args, kwargs, node))
            if f.op == 'ref':
                return self.call(f.meta['val'], args, kwargs, node)
            if f.op == 'inst':
                return self.call(f.meta['ref'], args, kwargs, node)
            if f.op == 'lam' and f.meta and 'fn' in f.meta:
                return self.call(f.meta['fn'], args, kwargs, node)
            if f.op == 'dictget':
                return self.call_dict(f, args, kwargs)
            if f.op == 'partial':
                return self.call(f.meta['fn'], list(f.meta['args']) + list(args), {**f.meta['kwargs'], **kwargs}, node)
            if f.meta and 'py' in f.meta:
                return f.meta['py'](self, list(args), dict(kwargs))
            return self.opaque_call(f, args, kwargs)
        if isinstance(f, Term):
            return self.opaque_call(f, args, kwargs)
        self.log('typeerror', {'value': f})
        raise Dead(f"call of {type(f).__name__}")

    def opaque_call(self, f, args, kwargs):
        names = f.meta.get('params') if isinstance(f, Atom) and f.meta else None
        args = list(args)
        kwargs = dict(kwargs)
        if names:
            while len(args) < len(names) and names[len(args)] in kwargs:
                args.append(kwargs.pop(names[len(args)]))
        a = tuple(self.as_term(x) for x in args)
        k = tuple((n, self.as_term(v)) for n, v in sorted(kwargs.items()))
        kind = (f.meta or {}).get('returns', 'tensor') if isinstance(f, Atom) else 'tensor'
        meta = (f.meta or {}).get('retmeta') if isinstance(f, Atom) else None
        r = Atom('call', (f, a, k), kind, meta)
        self.log('call', {'fn': f, 'args': a, 'kwargs': k, 'value': r, 'raw': args})
        return r

    def call_dict(self, f, args, kwargs):
        """call of D[key] for a symbolic key: every entry is a possible callee"""
        return self.opaque_call(f, args, kwargs)

    def call_func(self, f, args, kwargs):
        q = f.qual
        if q in self.opaque:
            b = self.bind_args(f, args, kwargs)
            return self.opaque[q](self, f, b)
        if f.memo is not None:
            return self.remembered(f, args, kwargs)
        if len(self.fnstack) > 60:
            raise Unsupported('recursion')
        bound = self.bind_args(f, args, kwargs)
        self.analysed.add(q)
        fa = self.alloc(Frame(bound, f.closure, q))
        ctx = Ctx(f.module, f.name, fa, func=f)
        self.fnstack.append(ctx)
        base = self.st.pc
        modes = self.st.modes
        if f.nograd:
            self.st.modes = modes + (('grad', False),)
        elif getattr(f, 'withgrad', False):
            self.st.modes = modes + (('grad', True),)
        saved_node = self.node
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.ev(f.node.body)
                self.st.modes = modes
                return v
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node)):
                raise Unsupported('generator')
            outs = self.exec_block(f.node.body)
            rets = [(o[1], o[2]) for o in outs if o[0] == 'return']
            if self.st is not None:
                rets.append((None, self.st))
            if not rets:
                raise Dead(f"{q} does not return")
            v, self.st = self.merge_many(rets, base, False)
            self.st.modes = modes
            return v
        finally:
            self.fnstack.pop()
            self.node = saved_node

    def remembered(self, f, args, kwargs):
        import copy
        k = tuple(self.as_term(a) if not isinstance(a, Ref) else Atom('ref', (a.addr,), 'obj') for a in args) + tuple((n, self.as_term(a)) for n, a in sorted(kwargs.items()))
        c = self.st.heap[f.memo]
        if dig(k) in c.items and c.items[dig(k)][1] is not UNDEF:
            return c.items[dig(k)][1]
        g = copy.copy(f)
        g.memo = None
        v = self.call_func(g, args, kwargs)
        c = self.st.heap[f.memo]
        self.st.heap[f.memo] = DictCell({**c.items, dig(k): (k, v)}, c.base)
        return v

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        b = {}
        args = list(args)
        kwargs = dict(kwargs)
        if len(args) == 1 and isatom(args[0], 'seq') and len(params) != 1 and not a.vararg:
            # symbolic star-arguments spread over the parameters
            args = [getitem(args[0], i) for i in range(len(params) - len(f.defaults))]
        if len(args) > len(params) and not a.vararg:
            self.log('callerror', {'fn': f.qual, 'why': 'too many positional arguments'})
            raise Dead('too many arguments')
        for n, v in zip(params, args):
            b[n] = v
        if a.vararg:
            rest = tuple(args[len(params):])
            if len(rest) == 1 and isatom(rest[0], 'seq'):
                rest = rest[0]
            b[a.vararg.arg] = rest
        nd = len(f.defaults)
        extra = {}
        kwonly = [p.arg for p in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in params or k in kwonly:
                if k in b:
                    self.log('callerror', {'fn': f.qual, 'why': f"multiple values for {k}"})
                    raise Dead('multiple values')
                b[k] = v
            elif a.kwarg:
                extra[k] = v
            elif k == '**':
                self.log('starkwargs', {'fn': f.qual})
            else:
                self.log('callerror', {'fn': f.qual, 'why': f"unexpected keyword {k}"})
                raise Dead('unexpected keyword')
        for i, n in enumerate(params):
            if n not in b:
                j = i - (len(params) - nd)
                if j >= 0:
                    b[n] = f.defaults[j]
                else:
                    self.log('callerror', {'fn': f.qual, 'why': f"missing argument {n}"})
                    raise Dead('missing argument')
        for n, d in zip(kwonly, f.kwdefaults):
            if n not in b:
                if d is UNDEF:
                    self.log('callerror', {'fn': f.qual, 'why': f"missing keyword {n}"})
                    raise Dead('missing argument')
                b[n] = d
        if a.kwarg:
            base = extra.pop('**', None)
            r = self.new_dict(list(extra.items()))
            self.outer.discard(r.addr)
            if base is not None:
                self.st.heap[r.addr] = DictCell(self.cell(r).items, self.as_term(base))
            b[a.kwarg.arg] = r
        return b

    def instantiate(self, cls, args, kwargs):
        if cls.qual in self.opaque:
            return self.opaque[cls.qual](self, cls, {'args': args, 'kwargs': kwargs})
        r = self.new_inst(cls)
        init = self.lookup(cls, '__init__')
        if init is not None:
            self.call(BoundMethod(r, init), args, kwargs)
        else:
            nm = [b.name for b in self.ext_bases(cls) if isinstance(b, Ext)]
            if any(x.split('.')[-1] in ('namedtuple', 'NamedTuple') for x in nm):
                pass
            pi = self.lookup(cls, '__attrs_post_init__')
            if pi is not None:
                self.call(BoundMethod(r, pi), [], {})
        return r

    # ------------------------------------------------------------ external calls
    def call_ext(self, name, args, kwargs):
        from . import extern
        r = extern.call(self, name, args, kwargs)
        return extern.precise_call(self, name, args, kwargs, r) if self.precise else r

    def call_method(self, obj, name, args, kwargs):
        from . import extern
        r = extern.method(self, obj, name, args, kwargs)
        return extern.precise_method(self, obj, name, args, kwargs, r) if self.precise else r

    def list_extend(self, ref, v):
        self.writes(ref, 'extend')
        c = self.cell(ref)
        if isatom(v, 'lit') or isinstance(v, Ref) and isinstance(self.cell(v), ListCell) or isinstance(v, tuple):
            s = self.as_seq(v)
        else:
            s = self.as_seq(v)
        self.st.heap[ref.addr] = ListCell(mkseq(segs_of(c.seq) + segs_of(s)))


class Ctx:
    __slots__ = ('module', 'name', 'frame', 'func', 'classframe', 'classobj', 'outer')

    def __init__(self, module, name, frame, func=None, classframe=None, classobj=None, outer=None):
        self.module, self.name, self.frame, self.func = module, name, frame, func
        self.classframe, self.classobj, self.outer = classframe, classobj, outer

    @property
    def qual(self):
        return f"{self.module}.{self.name}"


BINOP = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Pow: '**', ast.FloorDiv: '//', ast.Mod: '%',
         ast.MatMult: '@', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^'}

MODULE_BASES = {'torch.nn.Module', 'pytorch_lightning.LightningModule', 'builtins.object', 'torch.nn.modules.module.Module', 'abc.ABC'}


def canon_ext(name):
    for p, q in (('torch.nn.functional.', 'torch.'), ('torch.linalg.', 'torch.'), ('torch.special.', 'torch.')):
        if name.startswith(p):
            return q + name[len(p):]
    return name


def boolish(v):
    return isinstance(v, Term) and (v.kind == 'bool' or isatom(v, 'isclose', 'gt0', 'ge0', 'eq0', 'eq', 'not', 'and', 'or'))


def annotate(tree):
    pass


def linearize(c):
    def merge(seqs):
        out = []
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(any(h is x or dig(h) == dig(x) for x in t[1:]) for t in seqs):
                    break
            else:
                h = seqs[0][0]
            out.append(h)
            seqs = [[x for x in s if not (x is h or dig(x) == dig(h))] for s in seqs]
            seqs = [s for s in seqs if s]
        return out

    def mro(x):
        if isinstance(x, ClassVal):
            return x.mro
        if isinstance(x, Ext) and x.name == 'pytorch_lightning.LightningModule':
            return [x, Ext('torch.nn.Module')]
        return [x]
    bases = [b for b in c.bases if isinstance(b, (ClassVal, Ext))]
    return [c] + merge([mro(b) for b in bases] + [bases])


def target_names(t):
    return [n.id for n in ast.walk(t) if isinstance(n, ast.Name)]


def shape_of(st, v, depth=0):
    """structure of a small immutable-looking object graph (instances and fixed-length lists), None for a leaf"""
    if isinstance(v, Ref) and depth < 4:
        c = st.heap.get(v.addr)
        if isinstance(c, InstCell):
            return ('inst', c.cls, tuple(sorted((k, shape_of(st, x, depth + 1)) for k, x in c.attrs.items())))
        if isinstance(c, ListCell) and isinstance(c.seq, tuple) and len(c.seq) <= 8:
            return ('list', len(c.seq), tuple((i, shape_of(st, x, depth + 1)) for i, x in enumerate(c.seq)))
        return ('other',)
    return None


def shape_leaves(sh, path=()):
    if sh is None:
        return [path]
    out = []
    for k, x in sh[2]:
        out += shape_leaves(x, path + ((sh[0], k),))
    return out


def shape_ok(sh):
    return sh is not None and sh[0] != 'other' and all(x is None or shape_ok(x) for _, x in sh[2])


def shape_build(st, interp, sh):
    if sh is None:
        return UNDEF
    kids = [(k, shape_build(st, interp, x)) for k, x in sh[2]]
    a = interp.next_addr
    interp.next_addr += 1
    st.heap[a] = InstCell(sh[1], dict(kids)) if sh[0] == 'inst' else ListCell(tuple(v for _, v in kids))
    return Ref(a)


def walk_path(st, v, path):
    for kind, k in path:
        c = st.heap.get(v.addr) if isinstance(v, Ref) else None
        if kind == 'inst' and isinstance(c, InstCell):
            v = c.attrs.get(k, UNDEF)
        elif kind == 'list' and isinstance(c, ListCell) and isinstance(c.seq, tuple) and k < len(c.seq):
            v = c.seq[k]
        else:
            return UNDEF
    return v


def getloc(st, loc):
    if len(loc) == 3:
        return walk_path(st, getloc(st, loc[:2]), loc[2])
    c = st.heap.get(loc[0])
    if c is None:
        return UNDEF
    if isinstance(c, Frame):
        return c.vars.get(loc[1], UNDEF)
    if isinstance(c, InstCell):
        return c.attrs.get(loc[1], UNDEF)
    if isinstance(c, DictCell):
        x = c.items.get(loc[1])
        return x[1] if x else UNDEF
    if isinstance(c, ListCell):
        return c.seq


def getloc_cell(st, loc):
    c = st.heap.get(loc[0])
    return 'list' if isinstance(c, ListCell) else 'slot'


def setloc(st, loc, v):
    if len(loc) == 3:
        o = walk_path(st, getloc(st, loc[:2]), loc[2][:-1])
        if not isinstance(o, Ref):
            return
        k = loc[2][-1][1]
        c = st.heap[o.addr]
        if isinstance(c, InstCell):
            st.heap[o.addr] = InstCell(c.cls, {**c.attrs, k: v})
        else:
            st.heap[o.addr] = ListCell(c.seq[:k] + (v,) + c.seq[k + 1:])
        return
    c = st.heap[loc[0]]
    if isinstance(c, Frame):
        d = dict(c.vars)
        d[loc[1]] = v
        st.heap[loc[0]] = Frame(d, c.parent, c.name)
    elif isinstance(c, InstCell):
        d = dict(c.attrs)
        d[loc[1]] = v
        st.heap[loc[0]] = InstCell(c.cls, d)
    elif isinstance(c, DictCell):
        d = dict(c.items)
        key = d[loc[1]][0] if loc[1] in d else loc[1]
        d[loc[1]] = (key, v)
        st.heap[loc[0]] = DictCell(d, c.base)
    elif isinstance(c, ListCell):
        st.heap[loc[0]] = ListCell(v if isinstance(v, tuple) or isatom(v, 'seq') else Atom('seq', (Atom('ext', (v,), 'obj'),), 'obj'))


def changed_locs(a, b, addr0):
    """locations existing before the loop body (state a) whose contents differ in b"""
    out = []
    for addr, ca in a.heap.items():
        if addr >= addr0 and False:
            continue
        cb = b.heap.get(addr)
        if cb is ca or cb is None:
            continue
        if isinstance(ca, Frame):
            for k in list(ca.vars) + [k for k in cb.vars if k not in ca.vars]:
                x, y = ca.vars.get(k, UNDEF), cb.vars.get(k, UNDEF)
                if x is not y and not same(x, y):
                    out.append((addr, k))
        elif isinstance(ca, InstCell):
            for k in list(ca.attrs) + [k for k in cb.attrs if k not in ca.attrs]:
                x, y = ca.attrs.get(k, UNDEF), cb.attrs.get(k, UNDEF)
                if x is not y and not same(x, y):
                    out.append((addr, k))
        elif isinstance(ca, DictCell):
            if addr == OVERLAY:
                continue
            for k in list(ca.items) + [k for k in cb.items if k not in ca.items]:
                x, y = ca.items.get(k), cb.items.get(k)
                if (x[1] if x else UNDEF) is not (y[1] if y else UNDEF) and not (x and y and same(x[1], y[1])):
                    out.append((addr, k))
        elif isinstance(ca, ListCell):
            if not same(ca.seq, cb.seq):
                out.append((addr, '[]'))
    return out


def mukind(e, v):
    ks = []
    for x in (e, v):
        if isinstance(x, Term):
            ks.append(x.kind)
        elif isinstance(x, bool):
            ks.append('bool')
        elif isnum(x):
            ks.append('num')
        elif x is UNDEF:
            pass
        else:
            ks.append('obj')
    if 'obj' in ks or 'fn' in ks:
        return 'obj'
    if 'tensor' in ks:
        return 'tensor'
    if ks and all(k == 'bool' for k in ks):
        return 'bool'
    if ks and all(k in ('num', 'bool') for k in ks):
        return 'num'
    return 'unk'


def has_any(v, lid, it):
    """does v depend on the loop-carried state of loop lid (or of a loop nested in it)"""
    def p(t):
        if isatom(t, 'mu', 'idx', 'out', 'count', 'brk', 'loopret'):
            if isatom(t, 'idx') and isinstance(t.args[0], str):
                return False         # bound by a comprehension
            l = t.meta['loop'] if t.meta and 'loop' in t.meta else None
            if l is None:
                return True
            return l >= lid
        return False
    return has(v, p)


def map_cell(c, f):
    if isinstance(c, Frame):
        return Frame({k: f(v) for k, v in c.vars.items()}, c.parent, c.name)
    if isinstance(c, ListCell):
        return ListCell(f(c.seq))
    if isinstance(c, InstCell):
        return InstCell(c.cls, {k: f(v) for k, v in c.attrs.items()})
    if isinstance(c, DictCell):
        return DictCell({k: (kk, f(v)) for k, (kk, v) in c.items.items()}, c.base)
    return c


def canon_while(s):
    """`while a: pre; if b: post; break; rest` as `while a and [pre] not b: rest`, with post after the loop; pre only names values"""
    if hasattr(s, '_canon'):
        return s._canon
    r, pre = s, []
    always = lambda t: isinstance(t, ast.Constant) and t.value in (True, 1)
    while not r.orelse:
        k = 0
        while always(r.test) and k < len(r.body) and naming(r.body[:k + 1]):
            k += 1
        h = r.body[k] if k < len(r.body) else None
        post = []
        if isinstance(h, ast.If) and leaves(h.body):
            c, post, rest = ast.UnaryOp(ast.Not(), h.test), h.body[:-1], h.orelse + r.body[k + 1:]
        elif isinstance(h, ast.If) and leaves(h.orelse):
            c, post, rest = h.test, h.orelse[:-1], h.body + r.body[k + 1:]
        else:
            break
        if (post or k) and not always(r.test):
            break
        pre = pre + r.body[:k]
        if not always(r.test):
            c = ast.BoolOp(ast.And(), [r.test, c])
        r = ast.copy_location(ast.While(c, rest or [ast.Pass()], post), r)
        ast.fix_missing_locations(r)
    r.prelude = pre
    s._canon = r
    return r


def leaves(b):
    """a block that only names values and leaves the loop"""
    return bool(b) and isinstance(b[-1], ast.Break) and all(naming([x]) for x in b[:-1])


def naming(ss):
    """statements that only give names to values, each name read after it was given"""
    own = set()
    for x in ss:
        for n in ast.walk(x):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                own.add(n.id)
    done = set()
    for x in ss:
        if isinstance(x, ast.Pass) or isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant):
            continue
        if not (isinstance(x, ast.Assign) and all(isinstance(t, ast.Name) for t in x.targets) or isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and x.value is not None):
            return False
        if any(isinstance(n, ast.Name) and n.id in own and n.id not in done for n in ast.walk(x.value)):
            return False
        if any(isinstance(n, (ast.NamedExpr, ast.Lambda, ast.Await, ast.Yield)) for n in ast.walk(x.value)):
            return False
        done |= {t.id for t in (x.targets if isinstance(x, ast.Assign) else [x.target])}
    return True


def affine_count(test, idx):
    """number of iterations of `while test` when test is a bound on the loop index only"""
    for t, sgn, strict in ((test, 1, None),):
        neg_ = False
        if isatom(t, 'not'):
            t, neg_ = t.args[0], True
        if isatom(t, 'gt0', 'ge0'):
            p = t.args[0]
            strict = t.op == 'gt0'
            if neg_:
                p, strict = neg(p), not strict
            # p (>|>=) 0 with p = N - c*idx
            pt = pterms(p)
            key = ((idx, Fraction(1)),)
            if key in pt and pt[key] < 0 and not any(any(a == idx for a, _ in m) for m in pt if m != key):
                c = -pt[key]
                N = mk({m: v / c for m, v in pt.items() if m != key}, 'num')
                if has(N, lambda q: q == idx or isatom(q, 'mu')):
                    return None
                if integral(N):
                    # iterate while idx < N (strict) or idx <= N
                    return N if strict else add(N, 1)
    return None


VIEWS = {'flat', 'reshape', 'transpose', 'permute', 'flip_', 'unsq', 'squeeze', 'detach', 'data', 'expand', 'numpy', 'from_numpy', 'diagonal', 'param', 'real', 'tview'}


def basic_index(i):
    """the index selects a view (numbers and slices), not a copy"""
    if isinstance(i, tuple):
        return all(basic_index(k) for k in i)
    if isinstance(i, Slice) or i is None or isnum(i) or i is Ellipsis:
        return True
    return isinstance(i, Term) and i.kind in ('num', 'int') or isatom(i, 'idx', 'mu', 'size') or isatom(i, 'ext', 'const')


def alias_roots(v, seen=None):
    """terms whose storage v may share"""
    if isinstance(v, Poly):
        return []
    if isinstance(v, Atom):
        if (v.meta or {}).get('own'):
            return []
        if v.op == 'getitem':
            return alias_roots(v.args[0]) if basic_index(v.args[1]) else []
        if v.op in VIEWS:
            return alias_roots(v.args[0])
        if v.op == 'stack' and isinstance(v.args[0], tuple) and len(v.args[0]) == 1:
            return alias_roots(v.args[0][0])
        if v.op == 'ite':
            return alias_roots(v.args[1]) + alias_roots(v.args[2])
        if v.op == 'setitem':
            return alias_roots(v.args[0])
        return [v]
    return []
