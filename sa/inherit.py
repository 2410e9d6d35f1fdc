"""Walks over the recorded base classes, shared by the rules on inheritance, casts and inherited members."""
from .registry import *

FIND = {'rtti::MetaClass::find', 'rtti::MetaType::metaClass'}
INH = 'rtti::MetaClass::inheritedFrom'
CAST = 'rtti::MetaClass::cast'
TID = 'rtti::metaTypeId'


def same(q, a, b):
    r = q.it.holds(('op', '==', a, b), q.facts)
    return q.it.holds(('op', '==', b, a), q.facts) if r is None else r


def base_list(ctx, which='base'):
    """The list of base / derived classes: the one its count reports."""
    f = ctx.fns('rtti::MetaClass::%sClassCount' % which)[0]
    return list_of(ctx, f)


def base_elem(t):
    """Entry of a list a term was reached through: metaclass found for the entry's type."""
    es = []
    for x in outer_elems(t):
        if x[0] == 'elem' and x not in es:
            es.append(x)
    return es[0] if len(es) == 1 else None


def exhausted(q):
    for k, b in q.facts.items():
        if k[0] == 'more' and not b:
            return True
        if k[0] == 'op' and k[1] == '==' and b and any(isinstance(x, tuple) and x and x[0] in ('size', 'end') for x in k[2:]):
            return True
        if k[0] == 'op' and k[1] == '<' and not b and k[3][0] == 'size':
            return True
        if k[0] == 'op' and k[1] == '!=0' and not b and k[2][0] == 'size':
            return True
        if k[0] == 'empty' and b:
            return True
    return False


def order(elems, ps):
    """Why the visited entries are not the first, second, ... of their list (None: they are)."""
    prev = None
    for en in elems:
        i = en[2]
        if is_counter(i) and not counter_ok(ps, i):
            return 'the position %s does not step through the list one by one' % show(i)
        if i[0] == 'op' and any(isinstance(x, tuple) and x and (is_counter(x) or x[0] == 'it') for x in i[2:]):
            from .model import plus1
            if prev is None or plus1(prev[2]) != i:
                return 'visits position ' + show(i)
        if i[0] == 'c' and i[1] != 0 and prev is None:
            return 'starts at entry number %d' % i[1]
        if i[0] == 'c' and prev is not None and prev[2][0] == 'c' and i[1] != prev[2][1] + 1:
            return 'goes from entry %d to entry %d' % (prev[2][1], i[1])
        if isinstance(i, tuple) and i[0] == 'opq':
            return 'visits ' + show(i)
        prev = en
    return None


def tested(q, X, names):
    """[(entry of X, recursive call on the class of that entry)]"""
    out = []
    for e in q.events:
        if e.kind == 'call' and e.n in names and e.obj is not None:
            en = base_elem(e.obj)
            if en is not None and en[1] == X:
                out.append((en, e))
    return out


def walk(ctx, key, f, ps, q, X, names, truth_of, is_miss):
    """One path that looks at the bases of the class.  Returns 'miss', 'loop', (entry, call) of the hit, or None (reported)."""
    ts = tested(q, X, names)
    bad = order([en for en, _ in ts], ps)
    if bad:
        ctx.bad(key + ' visits every base in order', f.where(), bad)
        return None
    res = [truth_of(q, e) for _, e in ts]
    for (en, e), r in list(zip(ts, res))[:-1]:
        if r is not False:
            ctx.bad(key + ' takes the first match', e.where(), 'continues with other bases although one %s: %s' % ('matched' if r else 'may have matched', path_desc(q)))
            return None
    if q.ctl == 'loopback':
        if not ts:
            ctx.bad(key + ' visits every base in order', f.where(), 'a base is passed over: ' + path_desc(q))
            return None
        if res[-1] is not False:
            ctx.bad(key + ' takes the first match', ts[-1][1].where(), 'continues although the base matched: ' + path_desc(q))
            return None
        return 'loop'
    if is_miss(q):
        if res and res[-1] is not False:
            ctx.bad(key + ' follows every base', ts[-1][1].where(), 'a match among the bases is dropped: ' + path_desc(q))
            return None
        if not exhausted(q):
            ctx.bad(key + ' follows every base', f.where(), 'gives up although bases may remain: ' + path_desc(q))
            return None
        return 'miss'
    if not ts or res[-1] is False:
        return 'none'
    return ts[-1]
