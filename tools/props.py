#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def P(id, title, statement, over, text, why, files, mech, technique, note, na=None, state=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      technique=technique, note=note, na=na, state=state))


N = 'torchdyn/numerics/'
VG = 'gated value graphs by abstract interpretation; '
TRUST = ' Trusts the analyser (about 13000 lines of Python) and its models of torch operations; arithmetic is treated as exact.'

P('C01', 'Explicit solvers satisfy their order conditions',
  'One step of each explicit Runge-Kutta solver is x + dt times a combination of stage derivatives whose coefficients satisfy every order condition up to the order the solver declares (1 Euler, 2 midpoint, 4 RK4, 5 Dormand-Prince and Tsitouras). Every stage is evaluated at the time that matches the state it is evaluated on, so the order also holds for time-dependent fields. Moving the solver to the device or dtype of the state changes none of this.',
  ['inputs', 'programs'], 'every vector field (also time-dependent), state, time and step size',
  'The tests compare a few autonomous fields with loose tolerances; a wrong node or a small coefficient error is below what they measure, and order is a statement about every smooth field.',
  [N + 'solvers/ode.py', N + 'solvers/_constants.py', N + 'solvers/templates.py'],
  [('Butcher tableaux', N + 'solvers/_constants.py: construct_rk4, construct_dopri5, construct_tsit5'), ('stage evaluation', N + 'solvers/ode.py: step of Euler, Midpoint, RungeKutta4, DormandPrince45, Tsitouras45')],
  VG + 'Butcher tableau read off the graph of a step and checked against all rooted-tree conditions',
  'All order conditions (rooted trees up to the order) decided for all fields at once from the value graph of the step, coefficients to 1e-10.' + TRUST)

P('C02', 'Embedded error estimates measure the right difference',
  'The error reported by an adaptive solver step is dt times a combination of the stages whose weights sum to zero, equal to the difference between the fifth-order solution and a companion solution of order four, and it is not identically zero at fifth order. The step also reports its stages in evaluation order.',
  ['inputs', 'programs'], 'every vector field, state, time and step size',
  'Tests only see that integrations end near a reference; a distorted estimate merely changes step sizes and the error actually committed.',
  [N + 'solvers/ode.py', N + 'solvers/_constants.py'],
  [('error weights', N + 'solvers/_constants.py: construct_dopri5, construct_tsit5 (last component)'), ('estimate', N + 'solvers/ode.py: step of DormandPrince45, Tsitouras45')],
  VG + 'companion method read off the graph and checked against the rooted-tree conditions',
  'Decides sum, order of the companion method and non-degeneracy for all fields from the value graph of the step.' + TRUST)

P('C03', 'The derivative reused between steps is the derivative at the new state',
  'An adaptive step returns, besides the new state, the value of the vector field at the end time and the new state, and a first stage handed to any explicit step is used exactly as if the field had been evaluated at the start of the step. The integration driver starts from the field at the initial state, passes the stored derivative to every trial step, replaces it by the returned one exactly when the step is accepted and keeps it when the step is rejected.',
  ['inputs', 'histories'], 'every sequence of accepted and rejected steps, every field',
  'A stale derivative leaves results close to the reference for smooth fields; no test inspects which derivative is used after a rejection.',
  [N + 'odeint.py', N + 'solvers/ode.py'],
  [('carried derivative', N + 'odeint.py: k1 in _adaptive_odeint'), ('first-same-as-last stage', N + 'solvers/ode.py: step of DormandPrince45, Tsitouras45')],
  VG + 'loop-carried value congruence with a reference recurrence, stage arguments compared in the step graph',
  'Decides the recurrence of the carried derivative over all iterations of the driver loop and the stage arguments for all fields.' + TRUST,
  state=[('carried derivative', 'field at the current time and state', N + 'odeint.py: k1')])

P('C04', 'Step sizes follow the documented controller',
  'The first step size is chosen from the norms of the state, the field and a probing Euler step against the tolerances, with exponent one over order plus one. After every trial step the size is multiplied by safety over the scaled error to the power one over order, kept between the minimum factor (one if the step was accepted with error below tolerance) and the maximum factor, and by the maximum factor if the error is zero. A step shortened to hit a requested time continues from what remained of the original step.',
  ['inputs', 'histories'], 'every error history, every order, tolerance and factor',
  'Tests assert accuracy of final states, which is insensitive to wrong factors or exponents that merely take more or larger steps.',
  [N + 'utils.py', N + 'odeint.py'],
  [('initial step', N + 'utils.py: init_step'), ('step update', N + 'utils.py: adapt_step'), ('norm', N + 'utils.py: hairer_norm'), ('driver', N + 'odeint.py: dt in _adaptive_odeint')],
  VG + 'congruence of the step-size recurrence with a reference formulation',
  'Decides the formulas and the recurrence over all iterations by value-graph congruence with the reference in spec/ode.py.' + TRUST,
  state=[('step size', 'next trial step', N + 'odeint.py: dt')])

P('C05', 'A step is taken exactly when its scaled error is within tolerance',
  'Adaptive integration advances time and state only by steps whose root-mean-square error, scaled componentwise by absolute tolerance plus relative tolerance times the larger of old and new magnitude, is at most one; a rejected step leaves time and state untouched. With a seminorm only the selected leading components count. Integration continues until the final time and never steps past it.',
  ['inputs', 'histories'], 'every field, tolerance and sequence of trial steps',
  'Tests check final accuracy for benign fields where nearly every step is accepted; the acceptance decision itself is never observed.',
  [N + 'odeint.py', N + 'utils.py'],
  [('acceptance', N + 'odeint.py: error_ratio, accept_step in _adaptive_odeint'), ('norm', N + 'utils.py: hairer_norm')],
  VG + 'congruence of the time and state recurrences and the loop test with a reference formulation',
  'Decides the recurrences of time and state and the termination test over all iterations.' + TRUST,
  state=[('time, state', 'last accepted point', N + 'odeint.py: t, x')])

P('C06', 'Adaptive integration returns exactly the requested times',
  'Without dense output, steps are shortened to land on every requested time, and the result contains the initial point followed by one entry for each requested time in order, each holding the solution computed at that time; with all evaluations requested it also contains every accepted intermediate point, paired with its own time. Schemes without an interpolant fall back to this behaviour even if an interpolant is requested.',
  ['inputs', 'histories'], 'every grid and every history of accepted and rejected steps',
  'Tests look at few grids and compare values only; a dropped, duplicated or mispaired point needs a particular step pattern to appear.',
  [N + 'odeint.py'],
  [('landing on requested times', N + 'odeint.py: checkpoint block of _adaptive_odeint'), ('result lists', N + 'odeint.py: eval_times, sol')],
  VG + 'congruence of the list-building loop with a reference formulation',
  'Decides contents, order and pairing of the returned sequences over all loop histories.' + TRUST,
  state=[('next requested time', 'index of the first time not yet reported', N + 'odeint.py: ckpt_counter')])

P('C07', 'Dense output interpolates the accepted step',
  'With an interpolant, every requested time inside an accepted step is answered from that step: the fitted polynomial takes the values and slopes of the solution at both ends and the mid-point value of the scheme, and is evaluated at the relative position of the requested time. Steps are then not shortened except at the final time, and each requested time is answered exactly once, in order.',
  ['inputs', 'histories'], 'every grid, field and step history; all coefficients',
  'Tests compare interpolated and direct solutions with loose tolerances on one problem; errors of the order of the interpolation error are invisible.',
  [N + 'interpolators.py', N + 'odeint.py', N + 'solvers/_constants.py'],
  [('fit and evaluation', N + 'interpolators.py: FourthOrder, Interpolator.evaluate'), ('mid-point weights', N + 'solvers/_constants.py: construct_4th'), ('driver', N + 'odeint.py: interpolation block of _adaptive_odeint')],
  VG + 'polynomial identities on the fitted coefficients; congruence of the inner loop with a reference formulation',
  'Decides the interpolation conditions as polynomial identities, the order of the mid-point weights by rooted trees, and the driver loop for all histories.' + TRUST)

P('C08', 'Fixed-step integration visits the grid and returns what was asked for',
  'A fixed-step integration takes exactly one step per interval of the time grid, each from the current grid time with the length of that interval. It returns the requested times in increasing order of integration, each paired with the state at that grid time (all grid times if none are requested), and it refuses requested times that do not lie on the grid exactly once.',
  ['inputs', 'configurations'], 'every grid, also non-uniform, and every selection of requested times',
  'Tests use uniform grids and a handful of selections; a wrong step length or pairing on other grids goes unnoticed.',
  [N + 'odeint.py'],
  [('fixed-step loop', N + 'odeint.py: _fixed_odeint'), ('membership check', N + 'odeint.py: assert in _fixed_odeint')],
  VG + 'congruence of the stepping loop and of the refusal condition with a reference formulation',
  'Decides recurrences, result lists and the refusal condition over all grids.' + TRUST)

P('C09', 'Integrating backwards in time solves the time-reversed problem',
  'On a decreasing time grid the result is the solution of the time-reversed problem (negated field at negated time) on the negated grid, with the returned times given in the orientation of the caller; this holds for fixed-step, adaptive, dense-output and symplectic integration and for the requested times.',
  ['inputs', 'configurations'], 'every field and every decreasing grid, all driver options',
  'The tests integrate backwards once and compare final states only; returned times, requested times and time-dependent fields are not covered.',
  [N + 'odeint.py'],
  [('reversal', N + 'odeint.py: head of odeint and odeint_symplectic'), ('returned times', N + 'odeint.py: return of odeint')],
  VG + 'metamorphic congruence: graph on a decreasing grid against the graph of the explicitly reversed problem',
  'Relates two analyses of the same code; decides the relation for all fields and grids.' + TRUST)

P('C14', 'Events are located and jumps applied as documented',
  'In hybrid integration an event occurs when some event condition becomes true that was false; the crossing is bisected until the bracket is below the event tolerance, the state just before the event is recorded, the jump of the first triggered event is applied at that time and the state after it is recorded at the same time. Between events the solution is an error-controlled integration that reports every requested time, integration restarts with a fresh derivative after a jump, and it stops at the final time or after the maximum number of jumps. With jump priority an event already active at the start causes one jump first.',
  ['inputs', 'histories'], 'every field, set of events, tolerance and history of steps and jumps',
  'The tests run two bouncing-ball style systems; simultaneous events, events during the bisection or rejected steps near an event are not reached.',
  [N + 'odeint.py'],
  [('event loop', N + 'odeint.py: odeint_hybrid'), ('event state', N + 'utils.py: EventState')],
  VG + 'congruence of the event loop and the nested bisection loop with a reference formulation',
  'Decides all loop-carried values, lists and tests of the event loop and of the bisection for two symbolic events; other numbers of events behave alike by symmetry of the comprehension but are not enumerated.' + TRUST)

exec(open(os.path.join(HERE, 'tools', 'props_more.py')).read()) if os.path.exists(os.path.join(HERE, 'tools', 'props_more.py')) else None


def main():
    PROPS.sort(key=lambda p: p['id'])
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
        for p in PROPS:
            a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
            if p['state']:
                a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
            assert len(p['title']) <= 80, p['id']
            fh.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 -m compileall -q sa >/dev/null 2>&1 || true',
         'checks': [{'property': p['id'], 'quick_cmd': f"python3 check.py {p['id']} --tier quick", 'thorough_cmd': f"python3 check.py {p['id']} --tier thorough",
                     'technique': p['technique'], 'level': 'other', 'level_note': p['note']} for p in PROPS if not p['na']],
         'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in PROPS if p['na']],
         'notes': 'Static analysis only: every check parses /repo/torchdyn and the reference formulations in spec/, neither is executed. See DESIGN.md.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
        json.dump(m, fh, indent=1)


main()
