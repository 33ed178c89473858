"""Rules about references: names, imports, attributes and the parameters of calls, in every function of the package."""
import ast
import warnings

from .base import *
from ..names import Audit

TEXT = {'names': 'names', 'imports': 'imports', 'attributes': 'attributes', 'calls': 'parameters of calls'}


@rule('C34')
def references(ctx):
    def go():
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            a = Audit(ctx.root, 'torchdyn', ctx.files)
        for (kind, q) in sorted(a.n):
            bad = [x for x in a.problems if x.kind == kind and x.fn == q]
            if not bad:
                ctx.check('C34', f"{q}/{TEXT[kind]}", True)
        for x in a.problems:
            # identified by module or class, so that code moved into another function is the same finding
            mods = [m for m in a.p.modules if x.fn == m or x.fn.startswith(m + '.')]
            home = max(mods, key=len) if mods else x.fn
            c = x.fn[len(home) + 1:].split('.')[0]
            if (home, c) in a.p.classes:
                home += '.' + c
            ctx.check('C34', f"{home}/{x.what}", False, f"{x.fn}:{x.where.rsplit(':', 1)[-1]}", x.message)
        ctx.functions |= {q for k, q in a.n}
        ctx.uses = sum(a.n.values())
    ctx.guard('C34', 'package', go)
