"""Facts about the metadata lists shared by the rules on registration, lookup and enumeration."""
from .lib import *
from .core import Broken, Undecided
from .interp import contains, subterms, show

CATS = ('Namespace', 'Class', 'Constructor', 'Method', 'Property', 'Enum')
THIS = ('deref', ('init', ('var', 'this', 0)))
DEFER_SET = set(DEFER)


def vstop(p):
    """Operations of variant are values here: analysed by other rules."""
    return {f.bn for f in p.funcs.values() if f.cls == 'rtti::variant'}


def opts(p, *extra, **kw):
    return dict(stop=DEFER_SET | {'rtti::MetaItemPrivate::makeQualifiedName'} | vstop(p) | set(extra), nonnull_elems=True, **kw)


def by_param(fs, what):
    """Overload taking a name / an index."""
    r = [f for f in fs if f.params and ('string_view' in f.params[0]['t']) == (what == 'name')]
    if not r:
        raise Broken('anchor vanished: overload of %s by %s' % (fs[0].n if fs else '?', what))
    return r[0]


def param(f, i=0):
    return ('init', ('var', f.params[i]['n'] or 'arg%d' % i, 0))


def truth(q, term, facts=None):
    return q.it.holds(term, q.facts if facts is None else facts)


def outer_elems(t):
    """Outermost container entries mentioned in a value."""
    out = []

    def walk(x):
        if isinstance(x, tuple):
            if x and x[0] in ('elem', 'mapval') and len(x) == 3:
                if x not in out:
                    out.append(x)
                return
            for y in x:
                if isinstance(y, tuple):
                    walk(y)
    walk(t)
    return out


def entry(val):
    es = outer_elems(val)
    return es[0] if len(es) == 1 else None


def is_nothing(p, v):
    if v is None:
        return False
    if v == NULL or v == ('c', 0):
        return True
    if v[0] == 'addr' and v[1][0] == 'glob':
        g = p.globals.get(v[1][1])
        if not g or not g.get('const'):
            return False
        i = g.get('init')
        while i and i.get('k') in ('full', 'cast', 'bind', 'mat'):
            i = i['e']
        return i is None or i.get('k') in ('ctor', 'il', 'zero') and not i.get('args') and not i.get('e')
    if v[0] in ('rec', 'obj0'):
        # default MetaType_ID
        return v[0] == 'rec' and all(x == ('c', 0) or is_nothing(p, x) for _, x in v[2])
    if v[0] == 'call' and len(v[2]) == 1 and v[1].endswith('::find'):
        return is_nothing(p, v[2][0])
    return False


def inside(q, e, i, cloc, V):
    """Is index i known to be below the size of container version V at event e?"""
    from .model import size_of
    s = size_of(V)
    r = q.it.holds(('op', '<', i, s), e.facts)
    if r is not None:
        return r
    # positions counted up from zero to a bound compared with !=
    if q.it.holds(('op', '==', i, s), e.facts) is False and is_counter(i):
        return True
    if i[0] == 'c':
        ks = [k for k in range(i[1] + 1)]
        if all(q.it.holds(('op', '==', s, ('c', k)), e.facts) is False for k in ks):
            return True
    return None


def is_counter(t):
    return isinstance(t, tuple) and t and t[0] == 'havoc'


def counters(ps):
    """{location: (first value, steps)} of loop counters over all path summaries of a function."""
    out = {}
    for q in ps:
        for e in q.events:
            if e.kind == 'write' and e.obj is not None and e.obj[0] == 'var':
                out.setdefault(e.obj, set()).add(e.args[0] if e.args else None)
    return out


def counter_ok(ps, t):
    """The counter behind ('havoc', loop, loc) starts at 0 and only steps by +1."""
    loc = t[2]
    for v in counters(ps).get(loc, ()):
        if v == ('c', 0) or v == ('c', 1):
            continue
        if v == ('op', '+', t, ('c', 1)):
            continue
        return False
    # the value before the loop: the first iteration indexes with a constant
    return True


def list_of(ctx, fn, **kw):
    """The container whose size fn returns."""
    p = ctx.prog
    ps = ctx.explore(fn, **opts(p, **kw))
    if not ps:
        return None
    locs = set()
    for q in ps:
        if q.ctl != 'return':
            continue
        v = q.val
        es = [t for t in subterms(v) if t and t[0] == 'size']
        c = [e.obj for e in q.events if e.kind == 'cont' and e.n in ('size', 'length', 'empty')]
        if v and v[0] == 'size' and c:
            locs.add(c[-1])
        else:
            locs.add(None)
    if len(locs) != 1 or None in locs:
        return None
    return locs.pop()
