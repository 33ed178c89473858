"""Names, attributes and calls of the package: what a name, an attribute of a module or object, and the parameters of a call refer to.

Nothing is evaluated.  Scopes follow the language definition; classes are resolved through the package's own class hierarchy, bases from
installed libraries through the source of those libraries where it can be read.  A reference is reported only when no way through the
program gives it a meaning."""
import ast
import builtins
import os
import sysconfig

FUN = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
COMP = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)
ANY = object()
MODNAMES = {'__name__', '__file__', '__doc__', '__package__', '__spec__', '__loader__', '__path__', '__builtins__', '__all__', '__dict__'}
OBJNAMES = set(dir(object)) | {'__dict__', '__class__', '__name__', '__module__', '__annotations__', '__qualname__', '__mro__', '__subclasses__', '__bases__', '__func__', '__self__'}


def targets(t):
    """names bound by an assignment target"""
    if isinstance(t, ast.Name):
        yield t.id
    elif isinstance(t, (ast.Tuple, ast.List)):
        for e in t.elts:
            yield from targets(e)
    elif isinstance(t, ast.Starred):
        yield from targets(t.value)


def params(a):
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]


def bound(body, stop=FUN + (ast.ClassDef,)):
    """names bound directly by the statements of a scope"""
    out, glob = set(), set()

    def go(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            for d in n.decorator_list:
                go(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, COMP):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    out.update(targets(c.target))
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name.split('.')[0]) if isinstance(n, ast.Import) else (a.asname or a.name))
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            out.add(n.rest)
        for c in ast.iter_child_nodes(n):
            go(c)
    for s in body:
        go(s)
    return out - glob, glob


class Module:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.names, _ = bound(tree.body)
        self.stars = []
        self.open = False
        for n in ast.walk(tree):
            if isinstance(n, ast.Global):
                self.names |= set(n.names)
            if isinstance(n, ast.ImportFrom) and any(a.name == '*' for a in n.names):
                self.stars.append(n)
        self.names.discard('*')
        self.all = None
        for s in tree.body:
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == '__all__' for t in s.targets):
                try:
                    self.all = list(ast.literal_eval(s.value))
                except ValueError:
                    self.all = None


class Problem:
    def __init__(self, where, what, message, fn):
        self.where, self.what, self.message, self.fn = where, what, message, fn


class Package:
    def __init__(self, root, pkg, files=None):
        self.root, self.pkg, self.files = root, pkg, files or {}
        self.modules, self.problems, self.counts = {}, [], {}
        self.foreign, self.defs, self.mros, self.trees = {}, {}, {}, {}
        site = [sysconfig.get_paths()['purelib']]
        for v in ('/opt/venv',):
            lib = os.path.join(v, 'lib')
            if os.path.isdir(lib):
                site += [os.path.join(lib, d, 'site-packages') for d in sorted(os.listdir(lib))]
        self.site = site
        base = os.path.join(root, pkg)
        rels = set()
        for d, _, fs in os.walk(base):
            for f in fs:
                if f.endswith('.py'):
                    rels.add(os.path.relpath(os.path.join(d, f), root))
        rels |= {f for f in self.files if f.startswith(pkg + '/') and f.endswith('.py')}
        for rel in sorted(rels):
            src = self.files.get(rel)
            if src is None:
                with open(os.path.join(root, rel)) as fh:
                    src = fh.read()
            name = rel[:-3].replace('/', '.')
            if name.endswith('.__init__'):
                name = name[:-9]
            self.modules[name] = Module(name, rel, ast.parse(src))
        self.attrs_stored = set()
        for m in self.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (isinstance(n.value, ast.Name) and n.value.id == 'self' and self.ofmethod(m, n)):
                    self.attrs_stored.add(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) > 1:
                    if isinstance(n.args[1], ast.Constant):
                        self.attrs_stored.add(n.args[1].value)
                    else:
                        self.attrs_stored.add(ANY)
        self.classes = {}
        for m in self.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ClassDef):
                    self.classes[(m.name, n.name)] = n

    def ofmethod(self, m, n):
        """the name stands for the object of a method, not for the parameter of a plain function"""
        x = self.scope_of(m, n)
        while x is not None and not isinstance(x, ast.Module):
            if isinstance(x, FUN) and n.value.id in params(x.args):
                return isinstance(self.scope_of(m, x), ast.ClassDef)
            x = self.scope_of(m, x)
        return True

    # ------------------------------------------------------------ modules
    def absolute(self, m, n):
        """module an import statement names"""
        if not n.level:
            return n.module or ''
        parts = m.name.split('.')
        if not m.path.endswith('__init__.py'):
            parts = parts[:-1]
        parts = parts[:len(parts) - (n.level - 1)]
        return '.'.join(parts + ([n.module] if n.module else []))

    def exported(self, m, seen=()):
        """names a module defines; None when they cannot be known"""
        if m.name in seen:
            return set(m.names)
        out = set(m.names)
        for s in m.stars:
            src = self.absolute(m, s)
            if src in self.modules:
                sub = self.modules[src]
                e = self.exported(sub, seen + (m.name,))
                if e is None:
                    return None
                out |= set(sub.all) if sub.all is not None else {x for x in e if not x.startswith('_')}
            else:
                return None
        if any(isinstance(s, ast.FunctionDef) and s.name == '__getattr__' for s in m.tree.body):
            return None
        out |= {k[len(m.name) + 1:].split('.')[0] for k in self.modules if k.startswith(m.name + '.')}
        return out

    def definition(self, m, name, depth=0):
        k = (m.name, name)
        if k not in self.defs:
            self.defs[k] = None
            self.defs[k] = self.definition1(m, name, depth)
        return self.defs[k]

    def definition1(self, m, name, depth=0):
        """('class'|'def', module, node) or ('module', name) a global name of a module refers to, through imports; None if anything else"""
        if depth > 8:
            return None
        found = []
        for s in toplevel(m.tree):
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)) and s.name == name:
                found.append(('class' if isinstance(s, ast.ClassDef) else 'def', m, s))
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    if (a.asname or a.name) == name:
                        src = self.absolute(m, s)
                        if src in self.modules:
                            if src + '.' + a.name in self.modules and a.name not in self.modules[src].names:
                                found.append(('module', src + '.' + a.name))
                            else:
                                found.append(self.definition(self.modules[src], a.name, depth + 1))
                        elif src.split('.')[0] == self.pkg:
                            found.append(None)
                        else:
                            found.append(('foreign', src + '.' + a.name))
                    elif a.name == '*' and name not in m.names:
                        src = self.absolute(m, s)
                        if src in self.modules:
                            d = self.definition(self.modules[src], name, depth + 1)
                            if d:
                                found.append(d)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if (a.asname or a.name.split('.')[0]) == name:
                        q = a.name if a.asname else a.name.split('.')[0]
                        found.append(('module', q) if q in self.modules else ('foreign', q))
        if not hasattr(m, 'stores'):
            m.stores = {n.id for n in ast.walk(m.tree) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and self.scope_of(m, n) is m.tree}
            m.stores |= {x for n in ast.walk(m.tree) if isinstance(n, ast.Global) for x in n.names}
        if name in m.stores:
            return None
        return found[-1] if len(found) == 1 or found and all(f == found[0] for f in found) else None

    def scope_of(self, m, node):
        if not hasattr(m, 'parents'):
            m.parents = {}
            for n in ast.walk(m.tree):
                for c in ast.iter_child_nodes(n):
                    m.parents[c] = n
        n = m.parents.get(node)
        while n is not None and not isinstance(n, FUN + (ast.ClassDef, ast.Module) + COMP):
            n = m.parents.get(n)
        return n

    # ------------------------------------------------------------ classes
    def resolve(self, m, e):
        """definition an expression refers to"""
        if isinstance(e, ast.Name):
            return self.definition(m, e.id)
        if isinstance(e, ast.Attribute):
            d = self.resolve(m, e.value)
            if d and d[0] == 'module':
                q = d[1] + '.' + e.attr
                if q in self.modules and e.attr not in self.modules[d[1]].names:
                    return ('module', q)
                return self.definition(self.modules[d[1]], e.attr)
            if d and d[0] == 'foreign':
                return ('foreign', d[1] + '.' + e.attr)
        return None

    def bases(self, m, c):
        return [self.resolve(m, b) for b in c.bases]

    def mro(self, m, c):
        if c not in self.mros:
            self.mros[c] = None
            self.mros[c] = self.mro1(m, c)
        return self.mros[c]

    def mro1(self, m, c):
        """package classes in method resolution order (depth first, duplicates last) and the foreign bases; None when unknown"""
        out, foreign = [(m, c)], []
        for b, e in zip(self.bases(m, c), c.bases):
            if b and b[0] == 'class':
                r = self.mro(b[1], b[2])
                if r is None:
                    return None
                out += r[0]
                foreign += r[1]
            elif b and b[0] == 'foreign':
                foreign.append(b[1])
            elif isinstance(e, ast.Name) and e.id in dir(builtins):
                if e.id != 'object':
                    foreign.append('builtins.' + e.id)
            else:
                return None
        seen, res = set(), []
        for x in reversed(out):
            if id(x[1]) not in seen:
                seen.add(id(x[1]))
                res.append(x)
        return list(reversed(res)), foreign

    def foreign_attrs(self, q):
        """attributes of a class of an installed library, from its source; None when unknown"""
        if q in self.foreign:
            return self.foreign[q]
        self.foreign[q] = None
        parts = q.split('.')
        if parts[0] == 'builtins':
            c = getattr(builtins, parts[1], None)
            self.foreign[q] = set(dir(c)) if c is not None else None
        else:
            d = self.foreign_find(q)
            if d is not None:
                self.foreign[q] = self.foreign_class(*d)
        return self.foreign[q]

    def foreign_find(self, q, depth=0):
        """(tree, class) of a class of an installed library, followed through its imports"""
        parts = q.split('.')
        if depth > 6:
            return None
        for site in self.site:
            for k in range(len(parts) - 1, 0, -1):
                p = os.path.join(site, *parts[:k])
                for f, mod in ((p + '.py', '.'.join(parts[:k - 1])), (os.path.join(p, '__init__.py'), '.'.join(parts[:k]))):
                    if not os.path.isfile(f):
                        continue
                    tree = self.parsed(f)
                    if tree is None or len(parts) - k != 1:
                        if k < len(parts) - 1:
                            return None
                        continue
                    r = self.foreign_name(tree, mod, parts[-1], depth)
                    if r is not None:
                        return r
        return None

    def foreign_name(self, tree, mod, name, depth):
        for n in toplevel(tree):
            if isinstance(n, ast.ClassDef) and n.name == name:
                return tree, n, mod
        for n in toplevel(tree):
            if isinstance(n, ast.ImportFrom):
                src = n.module or ''
                if n.level:
                    ps = mod.split('.')
                    src = '.'.join(ps[:len(ps) - (n.level - 1)] + ([n.module] if n.module else []))
                for a in n.names:
                    if (a.asname or a.name) == name or a.name == '*':
                        r = self.foreign_find(src + '.' + (name if a.name == '*' else a.name), depth + 1)
                        if r is not None:
                            return r
        return None

    def parsed(self, f):
        if f not in self.trees:
            try:
                with open(f, encoding='utf-8') as fh:
                    self.trees[f] = ast.parse(fh.read())
            except (SyntaxError, OSError, UnicodeDecodeError):
                self.trees[f] = None
        return self.trees[f]

    def foreign_class(self, tree, c, mod, depth=0):
        out = own_attrs(c, True)
        for b in c.bases:
            if isinstance(b, ast.Name) and b.id in dir(builtins):
                out |= set(dir(getattr(builtins, b.id)))
                continue
            r = None
            if isinstance(b, ast.Name):
                r = self.foreign_name(tree, mod, b.id, 0)
            elif isinstance(b, ast.Attribute):
                q = self.dotted(tree, b)
                r = self.foreign_find(q) if q else None
            elif isinstance(b, ast.Subscript):
                continue
            if r is None:
                if ast.unparse(b).split('.')[-1] in ('ABC', 'Generic', 'Protocol') or ast.unparse(b).startswith('_C.') or ast.unparse(b).startswith('torch._C.'):
                    continue
                return None
            sub = self.foreign_class(*r, depth=depth + 1) if depth < 12 else None
            if sub is None:
                return None
            out |= sub
        return out

    def dotted(self, tree, e):
        parts = []
        while isinstance(e, ast.Attribute):
            parts.append(e.attr)
            e = e.value
        if not isinstance(e, ast.Name):
            return None
        for n in toplevel(tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if (a.asname or a.name.split('.')[0]) == e.id:
                        return '.'.join([a.name if a.asname else a.name.split('.')[0]] + parts[::-1])
            elif isinstance(n, ast.ImportFrom) and not n.level:
                for a in n.names:
                    if (a.asname or a.name) == e.id:
                        return '.'.join([n.module, a.name] + parts[::-1])
        return None

    def subclasses(self, c):
        out = []
        for (mn, _), d in self.classes.items():
            r = self.mro(self.modules[mn], d)
            if r and any(x[1] is c for x in r[0]):
                out.append((self.modules[mn], d))
        return out

    def attributes(self, m, c):
        """attributes an instance of the class or one of its subclasses can have; None when unknown"""
        if ANY in self.attrs_stored:
            return None
        r = self.mro(m, c)
        if r is None:
            return None
        out = set(OBJNAMES) | self.attrs_stored
        for q in r[1]:
            f = self.foreign_attrs(q)
            if f is None:
                return None
            out |= f
        for mm, d in r[0] + self.subclasses(c):
            a = own_attrs(d)
            if a is None:
                return None
            out |= a
        return out


def own_attrs(c, foreign=False):
    """attributes a class gives its objects; None when it makes them up as they are asked for"""
    out, _ = bound(c.body)
    if foreign:
        out |= {s.target.id for s in c.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)}
    for f in ast.walk(c):
        if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if f.name in ('__getattr__', '__getattribute__') and not foreign:
                return None
            for n in ast.walk(f):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.add(n.attr)
                elif isinstance(n, ast.Call):
                    q = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ''
                    if isinstance(n.func, ast.Attribute) and not (isinstance(n.func.value, ast.Name) and f.args.args and n.func.value.id == f.args.args[0].arg or issuper(n.func.value)):
                        continue
                    if q in ('register_buffer', 'register_parameter', 'add_module', 'register_module', 'save_hyperparameters', '__setattr__', 'setattr'):
                        if q == 'save_hyperparameters' and not foreign:
                            out.add('hparams')
                        for a in n.args[:2]:
                            if isinstance(a, ast.Constant) and isinstance(a.value, str):
                                out.add(a.value)
                        if not foreign and not any(isinstance(a, ast.Constant) for a in n.args[:2]) and q not in ('save_hyperparameters',):
                            return None
                    if q == 'update' and not foreign and ast.unparse(n.func).endswith('__dict__.update'):
                        return None
    return out


_top = {}


def toplevel(tree):
    """statements executed in the module scope (inside if/try/with as well)"""
    if id(tree) not in _top:
        out = []

        def go(b):
            for s in b:
                out.append(s)
                for f in ('body', 'orelse', 'finalbody'):
                    if not isinstance(s, FUN + (ast.ClassDef,)):
                        go(getattr(s, f, []))
                for h in getattr(s, 'handlers', []):
                    go(h.body)
        go(tree.body)
        _top[id(tree)] = (tree, out)
    return _top[id(tree)][1]


# ---------------------------------------------------------------------------------------------- names in scopes
class Scopes:
    """reports loads of names that nothing can have bound"""

    def __init__(self, pkg, m, report, count):
        self.pkg, self.m, self.report, self.count = pkg, m, report, count
        e = pkg.exported(m)
        self.open = e is None
        self.globals = (e or set()) | set(dir(builtins)) | MODNAMES
        self.stack = []

    def run(self):
        top = Scope(None, set(), None)
        top.names = None
        may = set()
        self.module_flow(self.m.tree.body)

    # module and class level: order matters for the names bound there, functions run later
    def module_flow(self, body):
        sc = Scope('module', self.m.names, None)
        self.block(body, set(), sc, '<module>')

    def lookup(self, name, sc, may):
        """may the name be bound when it is read in this scope"""
        if sc.kind == 'module':
            if name in sc.names:
                return name in may or name in dir(builtins) or name in MODNAMES
            return name in self.globals or self.open
        if name in sc.globals_:
            return name in self.globals or self.open
        if name in sc.names:
            if name in may:
                return True
            if sc.kind != 'class':
                return False
        p = sc.parent
        while p is not None and p.kind != 'module':
            if p.kind != 'class' and name in p.names:
                return True
            p = p.parent
        if sc.now:
            # code run while the module is being loaded sees the names bound so far
            root = sc
            while root.parent is not None:
                root = root.parent
            if name in root.names and name not in root.may and not (name in dir(builtins) or name in MODNAMES):
                return False
        return name in self.globals or self.open

    def expr(self, e, may, sc, fn):
        if e is None:
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load):
                self.count('names', fn)
                if not self.lookup(e.id, sc, may):
                    self.report(e, f"name {e.id}", f"no value can have been given to {e.id} here", fn)
            elif isinstance(e.ctx, ast.Store):
                may.add(e.id)
            return
        if isinstance(e, ast.Lambda):
            for d in e.args.defaults + [x for x in e.args.kw_defaults if x]:
                self.expr(d, may, sc, fn)
            s = Scope('function', set(params(e.args)), sc)
            self.expr(e.body, set(params(e.args)), s, fn)
            return
        if isinstance(e, COMP):
            names = set()
            for g in e.generators:
                names |= set(targets(g.target))
            s = Scope('function', names, sc, now=sc.now or sc.kind == 'module')
            # names of the enclosing function are read when they are, so keep its flow
            self.expr(e.generators[0].iter, may, sc, fn)
            inner = set(names)
            s.outer_may = may
            for i, g in enumerate(e.generators):
                if i:
                    self.comp(g.iter, inner, s, sc, may, fn)
                for c in g.ifs:
                    self.comp(c, inner, s, sc, may, fn)
            for part in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.comp(part, inner, s, sc, may, fn)
            for c in ast.walk(e):
                if isinstance(c, ast.NamedExpr):
                    may |= set(targets(c.target))
            return
        if isinstance(e, ast.NamedExpr):
            self.expr(e.value, may, sc, fn)
            may |= set(targets(e.target))
            return
        if isinstance(e, (ast.BoolOp,)):
            for v in e.values:
                self.expr(v, may, sc, fn)
            return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr) or isinstance(c, (ast.keyword, ast.comprehension, ast.FormattedValue, ast.Slice)):
                self.expr(c, may, sc, fn)

    def comp(self, e, inner, s, sc, may, fn):
        """a name read inside a comprehension: its own variables, else the enclosing scope as it is now"""
        for n in ast.walk(e):
            if isinstance(n, ast.NamedExpr):
                may |= set(targets(n.target))
        if sc.kind == 'class':
            self.expr(e, inner, s, fn)
            return
        merged = Scope(sc.kind, sc.names | s.names, sc.parent, sc.globals_, sc.now)
        merged.may = sc.may
        merged.inner = True
        self.expr(e, inner | may, merged, fn)

    def function(self, f, sc, fn):
        names, glob = bound(f.body)
        ps = set(params(f.args))
        s = Scope('function', (names | ps) - glob, sc, {g for g in glob if not outer_binds(sc, g)})
        s.names -= {g for g in glob}
        self.block(f.body, set(ps), s, fn)

    def block(self, body, may, sc, fn):
        """statements in order; the names possibly bound afterwards, None when the end is not reached"""
        for s in body:
            if may is None:
                return None
            if sc.kind == 'module':
                sc.may = may
            may = self.stmt(s, may, sc, fn)
        return may

    def join(self, *ms):
        ms = [m for m in ms if m is not None]
        if not ms:
            return None
        out = set()
        for m in ms:
            out |= m
        return out

    def stmt(self, s, may, sc, fn):
        X = lambda e: self.expr(e, may, sc, fn)
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in s.decorator_list + s.args.defaults + [x for x in s.args.kw_defaults if x]:
                X(d)
            for a in s.args.posonlyargs + s.args.args + s.args.kwonlyargs + [x for x in (s.args.vararg, s.args.kwarg) if x]:
                if a.annotation is not None and not isinstance(a.annotation, ast.Constant):
                    X(a.annotation)
            if s.returns is not None and not isinstance(s.returns, ast.Constant):
                X(s.returns)
            may.add(s.name)
            q = s.name if fn == '<module>' else f"{fn}.{s.name}"
            self.function(s, sc, q)
            return may
        if isinstance(s, ast.ClassDef):
            for d in s.decorator_list + s.bases + [k.value for k in s.keywords]:
                X(d)
            names, glob = bound(s.body)
            c = Scope('class', names, sc, now=sc.now or sc.kind == 'module')
            self.block(s.body, set(), c, s.name if fn == '<module>' else f"{fn}.{s.name}")
            may.add(s.name)
            return may
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                if a.name == '*':
                    e = None
                    src = self.pkg.absolute(self.m, s)
                    if src in self.pkg.modules:
                        sub = self.pkg.modules[src]
                        e = sub.all if sub.all is not None else self.pkg.exported(sub)
                    may |= set(e or ())
                else:
                    may.add((a.asname or a.name.split('.')[0]) if isinstance(s, ast.Import) else (a.asname or a.name))
            return may
        if isinstance(s, ast.Assign):
            X(s.value)
            for t in s.targets:
                X(t)
            return may
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                X(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target))
            X(s.value)
            X(s.target)
            return may
        if isinstance(s, ast.AnnAssign):
            X(s.value)
            if s.value is not None:
                X(s.target)
            return may
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    X(ast.copy_location(ast.Name(t.id, ast.Load()), t))
                    may.discard(t.id)
                else:
                    X(t)
            return may
        if isinstance(s, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                X(c)
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            sc.loop[-1] |= may
            return None
        if isinstance(s, ast.If):
            X(s.test)
            return self.join(self.block(s.body, set(may), sc, fn), self.block(s.orelse, set(may), sc, fn))
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            if not isinstance(s, ast.While):
                X(s.iter)
            again = bound(s.body)[0]
            # a name of the loop body may have been bound by an earlier iteration
            head = may | again
            if isinstance(s, ast.While):
                head |= set()
                self.expr(s.test, set(head), sc, fn)
            sc.loop.append(set())
            inner = set(head)
            if not isinstance(s, ast.While):
                self.expr(s.target, inner, sc, fn)
            end = self.block(s.body, inner, sc, fn)
            left = sc.loop.pop()
            never = isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value
            after = self.join(end, set(may) | left)
            after = self.block(s.orelse, set(after), sc, fn)
            return left if never and left else None if never else self.join(after, left | may)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                X(i.context_expr)
                if i.optional_vars is not None:
                    X(i.optional_vars)
            return self.block(s.body, may, sc, fn)
        if isinstance(s, (ast.Try,) + ((ast.TryStar,) if hasattr(ast, 'TryStar') else ())):
            a = self.block(s.body, set(may), sc, fn)
            mid = may | bound(s.body)[0]
            ends = [self.block(s.orelse, set(a), sc, fn) if a is not None else None]
            for h in s.handlers:
                m = set(mid)
                self.expr(h.type, m, sc, fn)
                if h.name:
                    m.add(h.name)
                ends.append(self.block(h.body, m, sc, fn))
            out = self.join(*ends)
            fin = self.block(s.finalbody, set(self.join(out, mid) or mid), sc, fn)
            return None if out is None or fin is None else out | bound(s.finalbody)[0]
        if isinstance(s, ast.Match):
            X(s.subject)
            ends = [set(may)]
            for c in s.cases:
                m = set(may) | bound([c.pattern] if False else [])[0]
                for n in ast.walk(c.pattern):
                    if getattr(n, 'name', None):
                        m.add(n.name)
                self.expr(c.guard, m, sc, fn)
                ends.append(self.block(c.body, m, sc, fn))
            return self.join(*ends)
        if isinstance(s, (ast.Global, ast.Nonlocal, ast.Pass)):
            return may
        for c in ast.iter_child_nodes(s):
            X(c)
        return may


class Scope:
    def __init__(self, kind, names, parent, globals_=frozenset(), now=False):
        self.kind, self.names, self.parent, self.globals_, self.now = kind, set(names), parent, set(globals_), now
        self.loop = []
        self.may = set()


def outer_binds(sc, name):
    while sc is not None and sc.kind != 'module':
        if sc.kind == 'function' and name in sc.names:
            return True
        sc = sc.parent
    return False


# ---------------------------------------------------------------------------------------------- calls
def misfit(call, fn, skip=0):
    """why a call does not fit the parameters of a function; '' if it does or cannot be told"""
    a = fn.args
    pos = [x.arg for x in a.posonlyargs + a.args][skip:]
    ponly = {x.arg for x in a.posonlyargs}
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    n = len([x for x in call.args if not isinstance(x, ast.Starred)])
    if not star and n > len(pos) and not a.vararg:
        return f"{n} positional arguments for {len(pos)} parameters"
    kws = [k.arg for k in call.keywords if k.arg]
    allowed = {x for x in pos if x not in ponly} | {x.arg for x in a.kwonlyargs}
    for k in kws:
        if k not in allowed and not a.kwarg:
            return f"no parameter {k}"
        if not star and k in pos[:n]:
            return f"two values for {k}"
    if star or dstar:
        return ''
    need = pos[:len(pos) - len(a.defaults)] if len(a.defaults) <= len(pos) else []
    for p in need[n:]:
        if p not in kws:
            return f"no value for {p}"
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is None and x.arg not in kws:
            return f"no value for {x.arg}"
    return ''


SIMPLE = {'staticmethod', 'classmethod', 'abstractmethod', 'abc.abstractmethod', 'torch.no_grad()', 'override'}


class Audit:
    """every reference of a package"""

    def __init__(self, root, pkg, files=None):
        self.p = Package(root, pkg, files)
        self.problems, self.n = [], {}
        self.functions = set()
        self.loads = {}
        for m in self.p.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                    self.loads[n.attr] = self.loads.get(n.attr, 0) + 1
        for m in self.p.modules.values():
            self.m = m
            Scopes(self.p, m, self.report, self.count).run()
            self.imports(m)
            self.module_attrs(m)
            self.calls(m)
        self.objects()

    def report(self, node, what, message, fn, kind='names', m=None):
        m = m or self.m
        q = f"{m.name}.{fn}" if fn != '<module>' else m.name
        if not any(x.fn == q and x.what == what and x.kind == kind for x in self.problems):
            x = Problem(f"{q}:{getattr(node, 'lineno', 0)}", what, message, q)
            x.kind = kind
            self.problems.append(x)

    def count(self, kind, fn, m=None):
        m = m or self.m
        q = f"{m.name}.{fn}" if fn != '<module>' else m.name
        self.n[(kind, q)] = self.n.get((kind, q), 0) + 1

    def where(self, m, node):
        """qualified name of the function around a node"""
        out, n = [], node
        self.p.scope_of(m, node)
        while n is not None:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.append(n.name)
            n = m.parents.get(n)
        return '.'.join(reversed(out)) or '<module>'

    def guarded(self, m, node):
        """under a handler for the failure"""
        self.p.scope_of(m, node)
        n = node
        while n in m.parents:
            c, n = n, m.parents[n]
            if isinstance(n, ast.Try) and c in n.body and n.handlers:
                return True
        return False

    def imports(self, m):
        p = self.p
        for s in ast.walk(m.tree):
            if isinstance(s, ast.ImportFrom):
                src = p.absolute(m, s)
                if src.split('.')[0] != p.pkg:
                    continue
                fn = self.where(m, s)
                for a in s.names:
                    self.count('imports', fn, m)
                    if self.guarded(m, s):
                        continue
                    if src not in p.modules:
                        self.report(s, f"import {src}", f"there is no module {src}", fn, 'imports', m)
                    elif a.name != '*':
                        e = p.exported(p.modules[src])
                        if e is not None and a.name not in e:
                            self.report(s, f"import {a.name} from {src}", f"{src} does not define {a.name}", fn, 'imports', m)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.name.split('.')[0] == p.pkg:
                        self.count('imports', self.where(m, s), m)
                        if a.name not in p.modules and not self.guarded(m, s):
                            self.report(s, f"import {a.name}", f"there is no module {a.name}", self.where(m, s), 'imports', m)
        if m.all is not None:
            e = p.exported(m)
            for x in m.all:
                self.count('imports', '<module>', m)
                if e is not None and x not in e:
                    self.report(m.tree, f"exported name {x}", f"__all__ lists {x}, which the module does not define", '<module>', 'imports', m)

    def local(self, m, node, name):
        """innermost function scope (or comprehension) that binds a name read at a node; None if it is global"""
        n = self.p.scope_of(m, node)
        while n is not None and not isinstance(n, ast.Module):
            if isinstance(n, FUN):
                b = bound(n.body)[0] | set(params(n.args)) if not isinstance(n, ast.Lambda) else set(params(n.args))
                if name in b:
                    return n
            elif isinstance(n, COMP):
                if any(name in targets(g.target) for g in n.generators):
                    return n
            elif isinstance(n, ast.ClassDef) and self.p.scope_of(m, node) is n and name in bound(n.body)[0]:
                return n
            n = self.p.scope_of(m, n)
        return None

    def root(self, e):
        while isinstance(e, ast.Attribute):
            e = e.value
        return e

    def module_attrs(self, m):
        p = self.p
        for e in ast.walk(m.tree):
            if isinstance(e, ast.Attribute) and isinstance(e.ctx, ast.Load):
                r = self.root(e)
                if not isinstance(r, ast.Name) or self.local(m, r, r.id) is not None:
                    continue
                d = p.resolve(m, e.value)
                if d and d[0] == 'module' and d[1] in p.modules:
                    fn = self.where(m, e)
                    self.count('attributes', fn, m)
                    ex = p.exported(p.modules[d[1]])
                    if ex is not None and e.attr not in ex and not self.guarded(m, e):
                        self.report(e, f"attribute {e.attr} of {d[1]}", f"{d[1]} does not define {e.attr}", fn, 'attributes', m)

    def plain(self, f):
        return all(ast.unparse(d) in SIMPLE or ast.unparse(d).endswith('no_grad()') for d in f.decorator_list)

    def constructor(self, m, c):
        """(function, kind) a class is instantiated with; None if unknown"""
        r = self.p.mro(m, c)
        if r is None or c.decorator_list or c.keywords:
            return None
        for mm, d in r[0]:
            ds = {s.name: s for s in d.body if isinstance(s, ast.FunctionDef)}
            if '__new__' in ds:
                return None
            if '__init__' in ds:
                return ds['__init__'] if self.plain(ds['__init__']) else None
        return None if r[1] else ast.parse('def f(self): pass').body[0]

    def calls(self, m):
        p = self.p
        for c in ast.walk(m.tree):
            if not isinstance(c, ast.Call):
                continue
            fn = self.where(m, c)
            r = self.root(c.func)
            if not isinstance(r, ast.Name):
                continue
            s = self.local(m, r, r.id)
            f, skip = None, 0
            if s is None:
                d = p.resolve(m, c.func)
                if d and d[0] == 'def':
                    f = d[2] if self.plain(d[2]) else None
                elif d and d[0] == 'class':
                    f, skip = self.constructor(d[1], d[2]), 1
            elif isinstance(s, FUN) and not isinstance(s, ast.Lambda) and isinstance(c.func, ast.Name):
                binds = [x for x in ast.walk(s) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == r.id or isinstance(x, ast.Name) and x.id == r.id and not isinstance(x.ctx, ast.Load)]
                if len(binds) == 1 and isinstance(binds[0], ast.FunctionDef) and p.scope_of(m, binds[0]) is s and r.id not in params(s.args) and self.plain(binds[0]):
                    f = binds[0]
            if f is None:
                continue
            self.count('calls', fn, m)
            why = misfit(c, f, skip)
            if why and not self.guarded(m, c):
                self.report(c, f"call of {ast.unparse(c.func)}", f"{ast.unparse(c.func)} cannot be called like this: {why}", fn, 'calls', m)

    def objects(self):
        """attributes and methods of self, in every class that can be the class of self"""
        p = self.p
        for (mn, cn), c in p.classes.items():
            m = p.modules[mn]
            r = p.mro(m, c)
            if r is None or announced(c) and not p.subclasses(c)[1:]:
                continue
            order = r[0]
            attrs = p.attributes(m, c)
            stores = set(p.attrs_stored)
            for mm, d in order + p.subclasses(c):
                for n in ast.walk(d):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        stores.add(n.attr)
            table = {}
            for mm, d in reversed(order):
                for s in d.body:
                    if isinstance(s, ast.FunctionDef):
                        table[s.name] = (mm, d, s)
                    else:
                        for b in bound([s])[0]:
                            table[b] = None
            supers = {n.func.attr for mm, d in order for n in ast.walk(d) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and issuper(n.func.value)}
            live = self.live(order, table, supers)
            for k, (mm, d) in enumerate(order):
                for f in d.body:
                    if f not in live:
                        continue
                    if not isinstance(f, ast.FunctionDef) or not f.args.args or any(ast.unparse(x) in ('staticmethod', 'classmethod') for x in f.decorator_list):
                        continue
                    cur = table.get(f.name)
                    if not (cur and cur[2] is f) and f.name not in supers:
                        continue
                    self.method(p, mm, d, f, order[k + 1:], r[1], attrs, stores, table, cn)

    def live(self, order, table, supers):
        """functions of the classes that an object can run: not those that only overridden methods call"""
        fs = [f for mm, d in order for f in d.body if isinstance(f, ast.FunctionDef)]
        called = {f: {n.attr for n in ast.walk(f) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load)} for f in fs}
        some = set().union(*called.values()) if called else set()
        inner = {}
        for mm, d in order:
            for n in ast.walk(d):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                    inner[n.attr] = inner.get(n.attr, 0) + 1
        outside = {a for a in self.loads if self.loads[a] > inner.get(a, 0)}
        seen = [f for f in fs if ((table.get(f.name) or (0, 0, 0))[2] is f or f.name in supers) and (f.name not in some or f.name in outside or f.name.startswith('__'))]
        todo = list(seen)
        while todo:
            g = todo.pop()
            for f in fs:
                if f not in seen and f.name in called[g]:
                    seen.append(f)
                    todo.append(f)
        return set(seen)

    def method(self, p, m, d, f, after, foreign, attrs, stores, table, cn):
        me = f.args.args[0].arg
        if me in bound(f.body)[0]:
            return
        for n in ast.walk(f):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == me and self.local(m, n.value, me) is f:
                if attrs is not None:
                    fn = self.where(m, n)
                    self.count('attributes', fn, m)
                    if n.attr not in attrs and not self.guarded(m, n) and not asked(f, n.attr):
                        self.report(n, f"attribute {n.attr}", f"objects of {cn} never get an attribute {n.attr}", fn, 'attributes', m)
            if not isinstance(n, ast.Call) or not isinstance(n.func, ast.Attribute):
                continue
            g, skip = None, 1
            if isinstance(n.func.value, ast.Name) and n.func.value.id == me and self.local(m, n.func.value, me) is f and n.func.attr not in stores:
                x = table.get(n.func.attr)
                g = x[2] if x else None
            elif issuper(n.func.value):
                for mm, b in after:
                    s = [s for s in b.body if isinstance(s, ast.FunctionDef) and s.name == n.func.attr]
                    if s:
                        g = s[0]
                        break
            if g is None or not self.plain(g) or unwritten(g, [h for mm, b in [(m, d)] + list(after) for h in b.body if isinstance(h, ast.FunctionDef)]) and g.name != '__init__':
                continue
            if any(ast.unparse(x) == 'staticmethod' for x in g.decorator_list):
                skip = 0
            fn = self.where(m, n)
            self.count('calls', fn, m)
            why = misfit(n, g, skip)
            if why and not self.guarded(m, n):
                self.report(n, f"call of {ast.unparse(n.func)}", f"for objects of {cn}, {ast.unparse(n.func)} cannot be called like this: {why}", fn, 'calls', m)


def unwritten(f, among=(), depth=0):
    """announced, not implemented: does nothing, or can only say so"""
    known = {}
    for s in f.body:
        if isinstance(s, ast.Pass) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
        if isinstance(s, ast.Assign) and all(isinstance(t, ast.Name) for t in s.targets) and (not any(isinstance(n, ast.Call) for n in ast.walk(s.value)) or 'NotImplemented' in ast.unparse(s.value)):
            for t in s.targets:
                known[t.id] = 'NotImplemented' in ast.unparse(s.value)
            continue
        if isinstance(s, ast.Raise):
            return 'NotImplemented' in ast.unparse(s) or isinstance(s.exc, ast.Name) and known.get(s.exc.id, False)
        if isinstance(s, ast.Return) and (s.value is None or isinstance(s.value, ast.Constant) and s.value.value is None):
            return True
        v = s.value if isinstance(s, (ast.Return, ast.Expr)) else None
        if isinstance(v, ast.Call) and depth < 4:
            n = v.func.attr if isinstance(v.func, ast.Attribute) else v.func.id if isinstance(v.func, ast.Name) else None
            g = [h for h in among if h.name == n and h is not f]
            return bool(g) and unwritten(g[0], among, depth + 1)
        return False
    return True


def announced(c):
    fs = [f for f in c.body if isinstance(f, ast.FunctionDef)]
    ms = [f for f in fs if f.name != '__init__']
    return bool(ms) and all(unwritten(f, fs) for f in ms)


def issuper(e):
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'super'


def asked(f, attr):
    """the function asks whether the attribute exists"""
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('hasattr', 'getattr') and len(n.args) > 1 and isinstance(n.args[1], ast.Constant) and n.args[1].value == attr for n in ast.walk(f))
