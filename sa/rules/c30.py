"""Effect counting over path summaries of a witness that uses scope guards in every way: on every path, also those on which the body throws,
the guarded function runs exactly once, after the body and in reverse order of construction, unless the guard was dismissed before; a guard
that was handed over runs nothing itself.  Each body is explored both with no exception and with another one already being propagated."""
from ..registry import *

CASES = {'plain': ([1], [1]), 'early': ([1], [1]), 'nested': ([1, 2], None), 'inner': ([1, 2], [1]), 'dismissed': ([], [1]), 'twice': ([], []), 'moved': ([1], [1]),
         'moved_dismissed': ([], []), 'moved_then_dismissed': ([], [1]), 'assigned': ([1, 2], [1, 2]),
         'assigned_dismissed': ([1], [1])}
WHAT = {'plain': 'a guard', 'early': 'a guard left by an early return', 'nested': 'two guards', 'inner': 'a guard of an inner block', 'dismissed': 'a guard dismissed after the body',
        'twice': 'a guard dismissed twice', 'moved': 'a guard that was handed over', 'moved_dismissed': 'a dismissed guard that was handed over',
        'moved_then_dismissed': 'a guard dismissed after it was handed over', 'copied': 'a guard for a function object',
        'assigned': 'a guard that takes over another one', 'assigned_dismissed': 'a guard that takes over a dismissed one'}


def runs(q):
    out = []
    for e in q.events:
        if e.kind == 'call' and e.n == 'w::act':
            out.append(e.args[0][1] if e.args and e.args[0][0] == 'c' else show(e.args[0]))
    return out


def run(ctx):
    p = ctx.load('guard.cpp', lib=False)
    n = 0
    for case, what in WHAT.items():
        f = ctx.fns('w::' + case)[0]
        at = 'include/rtti/finally.h'
        for q, during in ((q, during) for during in (0, 1)
                          for q in ctx.explore(f, **opts(p, 'w::act', 'w::body', exc=True, nothrow=('w::act', 'w::condition'), uncaught=during)) or ()):
            ctx.count('paths')
            bodies = [e for e in q.events if e.kind == 'call' and e.n == 'w::body']
            thrown = [e for e in bodies if e.x.get('threw')]
            if q.ctl not in ('return', 'throw'):
                ctx.bad(what, at, 'leaving the scope ends in %s' % q.ctl)
                continue
            ok, ex = CASES.get(case, ([1], [1]))
            want = ok if q.ctl == 'return' else ex
            if case == 'nested' and q.ctl == 'throw':
                want = [2] if len(bodies) == 1 else [1, 2]
            got = runs(q)
            n += 1
            route = ('the body returns' if q.ctl == 'return' else 'the body throws') + (' while another exception is being handled' if during else '')
            if got != want:
                if any(e.kind == 'unknown' for e in q.events):
                    ctx.undecided(what, at, 'not fully modelled when %s' % route)
                elif sorted(map(str, got)) == sorted(map(str, want)):
                    ctx.bad(what, at, 'runs in the order %s, not %s, when %s' % (got, want, route))
                else:
                    ctx.bad(what, at, '%s when %s (%s)' % ('runs the function %d times' % len(got) if not want or len(got) != len(want) else 'runs another function', route,
                                                           'must run it %s' % ('once' if len(want) == 1 else 'never' if not want else 'once each')))
                continue
            first = next((i for i, e in enumerate(q.events) if e.kind == 'call' and e.n == 'w::act'), None)
            last = max((i for i, e in enumerate(q.events) if e.kind == 'call' and e.n == 'w::body'), default=-1)
            ctx.req(first is None or last < first or case.startswith('assigned'), what, at, 'the function runs before the scope is left')
    if n < 15:
        raise Broken('only %d ways through the guarded scopes found' % n)
