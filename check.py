#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--root DIR]: decide one property from the current source of the repository"""
import argparse
import concurrent.futures
import concurrent.futures.process
import json
import multiprocessing
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from sa.rules import base           # noqa: E402
from sa.rules import load_all       # noqa: E402


def known_findings(path=os.path.join(HERE, 'known_findings.txt')):
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('KNOWN-FINDING:'):
                d = line[len('KNOWN-FINDING:'):].strip()
                f = dict(w.split('=', 1) for w in d.split()[:2])
                out.append((f['property'], f['key'], d.split(None, 2)[2]))
    return out


def analyse(pid, root='/repo', files=None, budget=600):
    ctx = base.Ctx(root, files, budget)
    fns = base.CHECKS[pid]
    jobs = min(len(fns), os.cpu_count() or 1) if files is None else 1
    if jobs < 2:
        for fn in fns:
            ctx.guard(pid, fn.__name__, lambda: fn(ctx))
        return ctx
    work = [(pid, i, root, budget) for i in range(len(fns))]
    try:
        with concurrent.futures.ProcessPoolExecutor(jobs, multiprocessing.get_context('fork')) as pool:
            outs = list(pool.map(part, work))
    except (OSError, concurrent.futures.process.BrokenProcessPool):
        outs = [part(w) for w in work]
    for out in outs:
        ctx.enter(out[:3])
        ctx.functions |= out[3]
        ctx.loops += out[4]
        ctx.bounded += out[5]
    return ctx


def part(job):
    """one rule of a property, in a process of its own"""
    pid, i, root, budget = job
    ctx = base.Ctx(root, None, budget)
    fn = base.CHECKS[pid][i]
    ctx.guard(pid, fn.__name__, lambda: fn(ctx))
    return ctx.findings, [tuple(map(str, e)) for e in ctx.errors], ctx.obligations, ctx.functions, ctx.loops, ctx.bounded


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--root', default='/repo')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--noev', action='store_true', help='do not write the evidence file')
    a = ap.parse_args()
    load_all()
    t0 = time.time()
    ctx = analyse(a.property, a.root)
    known = {k: w for p, k, w in known_findings() if p == a.property}
    seen = set()
    new = []
    for f in ctx.findings:
        if f.key in known:
            seen.add(f.key)
        else:
            new.append(f)
    ev = {
        'property': a.property, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick',
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': 'static analysis of the current source: abstract interpretation of the listed functions into gated value graphs with '
                           'loop nodes, each obligation decided by normalisation and congruence of the graphs; no code of the repository is run',
            'obligations': len(ctx.obligations),
            'discharged': len([o for o in ctx.obligations if o[2]]),
            'functions_analysed': sorted(ctx.functions),
            'loops_summarised': ctx.loops,
            'obligation_list': [f"{r}: {c}" for r, c, ok in ctx.obligations][:400],
            'decided_by_writing_out_loops': sorted(ctx.bounded),
            'known_findings': sorted(seen),
        },
        'assumptions': ['arithmetic is exact (floating-point rounding is not modelled)',
                        'library operations (torch, python) behave as documented'],
        'wall_s': 0,
    }
    if new:
        ev['violations'] = [{'rule': f.rule, 'construct': f.construct, 'where': f.where, 'message': f.message} for f in new]
    if ctx.errors:
        ev['coverage']['not_decided'] = [list(map(str, e)) for e in ctx.errors]
    if a.tier == 'thorough' and not new and not ctx.errors:
        try:
            from sa import selftest
            ev['coverage']['self_test'] = selftest.run(a.property, a.root, analyse, known, limit=float(os.environ.get('VERIF_SELFTEST_S', '600')))
        except ImportError:
            pass
    ev['wall_s'] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    path = os.path.join(HERE, 'evidence', a.property + '.json')
    if not a.noev:
        with open(path, 'w') as fh:
            json.dump(ev, fh, indent=1)
    for k in sorted(seen):
        print(f"KNOWN-FINDING: property={a.property} {known[k]} [{k}]")
    for f in new:
        print(f"{f.where}: {f.rule}: {f.construct}: {f.message}")
    for e in ctx.errors:
        print(f"NOT DECIDED {a.property} {e[0]} {e[1]}: {e[2]}")
    print(f"{a.property}: {len(ctx.obligations)} obligations over {len(ctx.functions)} functions, "
          f"{len(new)} violated, {len(ctx.errors)} not decided, {ev['wall_s']} s")
    if a.v:
        for o in ctx.obligations:
            print('  ', 'ok ' if o[2] else 'BAD', o[0], o[1])
    if new:
        print(f"VIOLATION property={a.property} replay={path}")
        return 1
    if ctx.errors or not ctx.obligations:
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
