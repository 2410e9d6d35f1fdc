"""Conversions.  (1) Every operation on the list of converters is summarised path by path: it may look at, insert or erase only the entry
keyed by the ordered pair of the decayed types of its arguments, inserts only if that entry is absent (and then the converter it was
given), and a conversion runs the converter found there, once, with the given input and output.  (2) Every registering form hands the
converter made of the given function to that list under the pair it converts between.  (3) Every converter is run once on the value at the
input and leaves exactly one constructed value when it answers true, none otherwise.  (4) In to<T>, convert, tryConvert and eq temporary
buffers follow a protocol on every path, exceptional ones included: constructed once, read only then, destroyed once, released once;
a buffer shared by all callers (a static one) is never a conversion's output."""
import re
from ..registry import *
from ..interp import Interp, Opts, subterms
from .. import vtable as vt
from .c16 import const
from .c21 import fact, negation, value_loc

MT = vt.MT
INSERT = {'emplace', 'insert', 'try_emplace', 'emplace_hint'}
ASSIGN = {'op[]', 'operator[]', 'insert_or_assign'}


def run(ctx):
    p = ctx.load('convert.cpp')
    listing(ctx, p)
    found = forms(ctx, p)
    converters(ctx, p, found)
    buffers(ctx, p)


# --- the list ----------------------------------------------------------------------------------------------------------------------

def hooks(p):
    hs = dict(vt.hooks(p))
    hs.update(vt.metatype_hooks(p))
    for n in ('hasConverter', 'convert'):
        hs.pop(MT + n, None)
    return hs


def summaries(ctx, f, **kw):
    return ctx.explore(f, stop=set(DEFER_SET), hooks=hooks(ctx.prog), nonnull_elems=True, **kw)


def keyed(p, t, roles):
    """Which argument ('from'/'to') a component of a key belongs to, and whether it is the decayed identifier."""
    d = None
    if t[0] == 'init' and t[1][0] == 'fld' and t[1][1][0] == 'deref':
        d = t[1][2]
    elif t[0] == 'call' and t[1] == MT + 'decayId':
        d = True
    elif t[0] == 'fv' and t[1][0] == 'call' and t[1][1] == MT + 'decayId':
        d = True
    who = set()
    for x in subterms(t):
        for k, r in roles.items():
            if x == k:
                who.add(r)
    return (who.pop() if len(who) == 1 else None), d


def raw(t, roles):
    """Is the component the identifier of the argument itself?"""
    while t[0] in ('fv', 'mt') or t[0] == 'call' and t[1] == MT + 'typeId':
        t = t[1] if t[0] != 'call' else t[2][0] if t[2] and isinstance(t[2], tuple) and t[2][0] in ('init', 'addr') else t[2]
        if not isinstance(t, tuple) or not t or not isinstance(t[0], str):
            return False
    return t[0] == 'init' and t[1] in roles


def conts(q):
    return [e for e in q.events if e.kind == 'cont']


def key_of(e):
    """The key a container event looks at."""
    for a in e.args:
        for x in subterms(a):
            if x[0] == 'pair':
                return x
    return None


def entry_events(q):
    """Container events on maps keyed by pairs."""
    return [e for e in conts(q) if key_of(e) is not None]


class Roles:
    def __init__(self, p, decay):
        self.p, self.decay, self.orient = p, decay, {}

    def key(self, k, roles):
        """Why the key is not the ordered pair of decayed identifiers, or None."""
        got = []
        for c in (k[1], k[2]):
            who, d = keyed(self.p, c, roles)
            if who is not None and d is None and raw(c, roles):
                return 'the entry is not keyed by the decayed types: %s' % show(c)[:80]
            if who is None or d is None:
                return '?key not understood: %s' % show(c)[:80]
            if d is not True and d != self.decay:
                return 'the entry is not keyed by the decayed types: %s' % show(c)[:80]
            got.append(who)
        if set(got) != {'from', 'to'}:
            return 'the entry is keyed by %s and %s' % tuple(got)
        return tuple(got)


def decay_field(ctx):
    f = ctx.fns(MT + 'decayId')[0]
    for q in ctx.explore(f, **opts(ctx.prog)) or ():
        v = q.val
        for x in subterms(v) if v else ():
            if x[0] == 'init' and x[1][0] == 'fld' and x[1][1][0] == 'deref':
                return x[1][2]
    return None


def type_params(f):
    return [i for i, q in enumerate(f.params) if 'meta_type_tag' in q['t'] or nocv(q['t'].replace('&', '')).strip() == 'rtti::MetaType']


def listing(ctx, p):
    decay = decay_field(ctx)
    r = Roles(p, decay)
    n = 0
    for bn in ('hasConverter', 'registerConverter', 'unregisterConverter', 'convert'):
        for f in p.fn(MT + bn):
            if f.body is None or f.ta:
                continue
            ix = type_params(f)
            if len(ix) != 2:
                ctx.undecided(bn, f.where(), 'parameters not recognised')
                continue
            roles = {}
            for i, role in zip(ix, ('from', 'to')):
                q = f.params[i]
                loc = ('var', q['n'] or 'arg%d' % i, 0)
                roles[loc] = role
            rest = [('init', ('var', q['n'] or 'arg%d' % i, 0)) for i, q in enumerate(f.params) if i not in ix]
            key = '%s(%s)' % (bn, ', '.join('id' if 'meta_type_tag' in q['t'] else short(q['t']) for q in f.params))
            with ctx.guard(key, f.where()):
                n += 1
                one(ctx, p, f, bn, key, roles, rest, r)
    ctx.counts['operations on the list of converters'] = n
    if not n:
        raise Broken('no operation on converters')
    orient = set(r.orient.values())
    if len(orient) > 1:
        ctx.bad('order of the pair', '', 'entries are keyed by (from, to) in %s and by (to, from) in %s' % (
            ', '.join(sorted(k for k, v in r.orient.items() if v == ('from', 'to'))), ', '.join(sorted(k for k, v in r.orient.items() if v != ('from', 'to')))))
    else:
        ctx.ok('order of the pair', '')


def short(t):
    return t.replace('const ', '').replace('rtti::internal::', '').replace('rtti::', '')


def unusable(q, roles):
    """Paths on which an argument is not a valid type or the list is gone."""
    for k, v in q.facts.items():
        x, neg = negation(k)
        if x[0] == 'call' and x[1] == MT + 'valid' and bool(v) == neg:
            return True
        if x[0] == 'init' and x[1][0] == 'glob' and not conts(q):
            return True
        if null_of(k, v) and not any(y[0] in ('mapval', 'find') for y in subterms(k)):
            return True
    return False


def null_of(k, v):
    """Is the fact that something is null?"""
    x, neg = negation(k)
    if x[0] == 'op' and x[1] in ('==', '!=') and x[3] == ('null',):
        return (x[1] == '==') == (bool(v) != neg)
    if x[0] == 'init' and x[1][0] != 'glob' and k[0] == 'op' and k[1] == '!=0':
        return not v
    return False


def present(q):
    """The entry looked at: True present, False absent, None not asked; the key."""
    for k, v in q.facts.items():
        x, neg = negation(k)
        if x[0] == 'has':
            if not any(y[0] == 'mut' for y in subterms(x[1])):
                return bool(v) != neg, x[2]
    return None, None


def answer(q):
    """The answer of a path: True/False or a term."""
    v = q.val
    c = const(v) if v is not None else None
    if c is not None:
        return bool(c)
    if v is None:
        return None
    t = q.it.holds(v, q.facts)
    return v if t is None else bool(t)


def is_presence(v):
    """(key, sign) if the term says whether an entry exists."""
    x, neg = negation(v)
    if x[0] == 'has':
        return x[2], not neg
    if x[0] == 'op' and x[1] in ('!=', '==') and {x[2][0], x[3][0]} == {'find', 'end'}:
        f = x[2] if x[2][0] == 'find' else x[3]
        return f[2], (x[1] == '!=') != neg
    if x[0] == 'call' and x[1] in ('count', 'contains') or x[0] == 'op' and x[1] in ('>', '>=', '==', '!='):
        for y in subterms(x):
            if y[0] == 'pair':
                return None, None
    return None, None


def one(ctx, p, f, bn, key, roles, rest, r):
    ps = summaries(ctx, f)
    if ps is None:
        return
    bad = und = None
    useful = 0
    for q in ps:
        es = entry_events(q)
        for e in es:
            o = r.key(key_of(e), roles)
            if isinstance(o, str):
                if o[0] == '?':
                    und = o[1:]
                else:
                    bad = bad or o
            else:
                r.orient[key] = o
        muts = [e for e in conts(q) if e.x.get('mode') == 'w']
        if any(key_of(e) is None for e in muts):
            if any(e.n.split('::')[-1] in ('clear',) or e.n == 'clear' for e in muts):
                bad = bad or 'changes more than one entry: %s' % ', '.join(e.n for e in muts)
            elif bn != 'unregisterConverter' or not all(any(x[0] in ('find', 'pair') for a in e.args for x in subterms(a)) for e in muts):
                und = und or 'change of the list not understood: %s' % ', '.join(e.n for e in muts)
        if q.ctl != 'return':
            continue
        gone = unusable(q, roles)
        has, _ = present(q)
        a = answer(q)
        if gone:
            if muts:
                bad = bad or 'changes the list for arguments that are not valid types'
            if bn != 'unregisterConverter' and a is not False:
                bad = bad or 'answers %s for arguments that are not valid types' % (a,)
            continue
        useful += 1
        w = {'hasConverter': has_path, 'registerConverter': add_path, 'unregisterConverter': erase_path, 'convert': convert_path}[bn](q, es, muts, has, a, rest, f)
        if w:
            if w[0] == '?':
                und = und or w[1:]
            else:
                bad = bad or w
    if bad:
        ctx.bad(key, f.where(), bad)
    elif und or not useful:
        ctx.undecided(key, f.where(), und or 'no path reaches the list')
    else:
        ctx.ok(key, f.where(), '%d paths' % len(ps))


def has_path(q, es, muts, has, a, rest, f):
    if muts:
        return 'changes the list'
    if has and isinstance(a, tuple):
        # an entry that is present is the address of a converter
        x, neg = negation(a)
        if x[0] == 'op' and x[1] in ('!=', '==') and ('null',) in x[2:] and any(y[0] == 'init' and any(z[0] == 'mapval' for z in subterms(y)) for y in x[2:]):
            a = (x[1] == '!=') != neg
        else:
            return '?answer not understood: %s' % show(a)[:100]
    if has is not None:
        return None if a is has else 'answers %s for an entry that is %s' % (a, 'present' if has else 'absent')
    if not isinstance(a, tuple):
        return 'answers %s without looking at the entry' % a if not es else '?answer not understood'
    k, sign = is_presence(a)
    if k is None:
        return '?answer not understood: %s' % show(a)[:100]
    return None if sign else 'answers the opposite of the presence of the entry'


def inserted(e):
    """Value a mutation inserts."""
    return e.args[-1] if e.args else None


def same_obj(v, conv):
    """Is v the address of what conv (a reference or pointer parameter) refers to?"""
    return v == conv or v == ('addr', ('deref', conv))


def add_path(q, es, muts, has, a, rest, f):
    ins = [e for e in muts if e.n in INSERT]
    over = [e for e in muts if e.n in ASSIGN]
    other = [e for e in muts if e not in ins and e not in over]
    if other:
        return 'registering a converter does %s' % ', '.join(e.n for e in other)
    if has is True:
        if over:
            return 'replaces the converter already registered'
        return None if a is False else 'answers %s although a converter was already registered' % (a,)
    if over and has is None:
        return 'replaces a converter already registered'
    if not ins and not over:
        if has is False:
            return 'does not register the converter'
        if not es and not isinstance(a, tuple) and not any(e.kind in ('unknown', 'call', 'icall') for e in q.events):
            return 'answers %s without looking at the entry' % (a,)
        return '?no insertion and no test' if not es else 'does not register the converter'
    if len(ins) + len(over) > 1:
        return 'inserts more than once'
    for e in ins:
        v = inserted(e)
        while v is not None and v[0] == 'pair' and v[2][0] != 'pair' and not v == key_of(e):
            v = v[2]
        if not (rest and same_obj(v, rest[0])):
            return 'registers %s instead of the given converter' % show(v)[:80]
    if a is False:
        return 'answers false although the converter was registered'
    return None


def erase_path(q, es, muts, has, a, rest, f):
    er = [e for e in muts if e.n == 'erase']
    other = [e for e in muts if e not in er]
    if other:
        return 'unregistering does %s' % ', '.join(e.n for e in other)
    if rest:
        same = None
        for k, v in q.facts.items():
            x, neg = negation(k)
            if x[0] == 'op' and x[1] in ('==', '!=') and any(y[0] == 'mapval' for y in subterms(x)) and any(same_obj(z, rest[0]) for z in x[2:4]):
                same = (x[1] == '==') == (bool(v) != neg)
        if er and same is not True:
            return 'removes the converter of another registration'
        if same and not er:
            return 'leaves its converter registered'
        return None
    if er:
        return None if len(er) == 1 or has else 'erases more than once'
    return None if has is False else 'does not remove the entry'


def convert_path(q, es, muts, has, a, rest, f):
    if muts:
        return 'changes the list'
    ic = [e for e in q.events if e.kind in ('icall', 'pmcall') or e.kind == 'call' and e.x.get('target') is not None and 'Convert' in (e.x['target'].cls or '')]
    if has is False or any(null_of(k, v) and any(y[0] == 'mapval' for y in subterms(k)) for k, v in q.facts.items()):
        if ic:
            return 'runs a converter that is not registered'
        return None if a is False else 'answers %s without a registered converter' % (a,)
    if not ic:
        return 'does not run the registered converter'
    if len(ic) > 1:
        return 'runs more than one converter'
    e = ic[0]
    if not any(y[0] == 'mapval' for x in (e.obj,) + tuple(e.args) if x for y in subterms(x)):
        return 'runs something else than the registered converter'
    if rest and len(rest) == 2:
        got = [x for x in e.args if x in rest]
        if got != rest:
            return 'runs the converter with %s' % ', '.join(show(x)[:40] for x in e.args)
    if not isinstance(a, tuple) or negation(a) != (e.res, False):
        fv = fact(q, e.res)
        if fv is None or a is not fv:
            return 'answers %s instead of what the converter answers' % (show(a)[:60] if isinstance(a, tuple) else a)
    return None


# --- registering forms -------------------------------------------------------------------------------------------------------------

def bare(t):
    return re.sub(r'\bconst\b|\bvolatile\b|&', '', t).replace(' ', '')


def forms(ctx, p):
    """Every template of registerConverter/hasConverter/unregisterConverter; returns the registered converters."""
    found = {}
    n = 0
    kept = []
    decay = decay_field(ctx)
    for bn in ('registerConverter', 'hasConverter', 'unregisterConverter'):
        for f in p.fn(MT + bn):
            if f.body is None or not f.ta or f.d.get('acc') not in (None, 'public', 0):
                continue
            fam = families(f)
            if fam is None:
                continue
            key = '%s<%s, %s>(%s)' % (bn, bare(fam[0]), bare(fam[1]), ', '.join(shorter(q['t']) for q in f.params))
            with ctx.guard(key, f.where()):
                ps = summaries(ctx, f)
                if ps is None:
                    continue
                n += 1
                bad = und = None
                for q in ps:
                    for e in entry_events(q):
                        k = key_of(e)
                        got = []
                        for c in (k[1], k[2]):
                            ts = {x[1] for x in subterms(c) if x[0] == 'typeid'}
                            got.append(bare(ts.pop()) if len(ts) == 1 else None)
                        want = [bare(fam[0]), bare(fam[1])]
                        if None in got:
                            und = 'key not understood: %s' % show(k)[:100]
                        elif sorted(got) != sorted(want):
                            bad = bad or 'works on the pair %s, %s' % tuple(got)
                        elif got != want and not swapped(ctx):
                            bad = bad or 'works on the opposite pair'
                    for e in conts(q):
                        if e.n in INSERT | ASSIGN and e.x.get('mode') == 'w':
                            v = inserted(e)
                            if v is None or v[0] != 'addr':
                                und = und or 'registered converter not understood'
                                continue
                            w = converter(ctx, p, f, q, v[1], found, kept)
                            if w:
                                if w[0] == '?':
                                    und = und or w[1:]
                                else:
                                    bad = bad or w
                    if bn == 'registerConverter' and q.ctl == 'return':
                        a = answer(q)
                        ins = any(e.n in INSERT | ASSIGN and e.x.get('mode') == 'w' for e in conts(q)) and present(q)[0] is not True
                        if isinstance(a, bool) and a != ins:
                            bad = bad or 'answers %s although the converter was %sregistered' % (a, '' if ins else 'not ')
                if bn == 'registerConverter' and not any(e.n in INSERT | ASSIGN for q in ps for e in conts(q)):
                    bad = bad or 'registers nothing'
                if bn == 'unregisterConverter' and not any(e.n == 'erase' for q in ps for e in conts(q)):
                    bad = bad or 'removes nothing'
                if bad:
                    ctx.bad(key, f.where(), bad)
                elif und:
                    ctx.undecided(key, f.where(), und)
                else:
                    ctx.ok(key, f.where(), '%d paths' % len(ps))
    if kept:
        f, why = kept[0]
        ctx.bad('converter of a later registration', f.where(), '%s (%d forms)' % (why, len(kept)))
    ctx.counts['registering forms'] = n
    if not n:
        raise Broken('no registering form')
    return found


def swapped(ctx):
    return False


def shorter(t):
    return re.sub(r'\(lambda at [^)]*\)', 'lambda', short(t))


def families(f):
    """From and To of a template: its first two type arguments."""
    ts = [t for t in f.ta if isinstance(t, str)]
    if len(ts) < 2:
        return None
    return ts[0], ts[1]


def converter(ctx, p, f, q, loc, found, kept):
    """The converter object handed to the list: its function comes from the caller, its run function belongs to its class."""
    run = None
    vals = []
    for k, v in q.mem.items():
        if k[0] == 'fld' and q.it._base(k) == loc:
            if v and v[0] == 'fn' and 'onvert' in v[2] and (p.funcs.get(v[1]) is not None and len(p.funcs[v[1]].params) == 3 and p.funcs[v[1]].cls):
                run = p.funcs[v[1]]
            else:
                vals.append(v)
    if run is None:
        return '?run function of the converter not found'
    found.setdefault(run.id, run)
    if f.params:
        src = ('var', f.params[0]['n'] or 'arg0', 0)
        dep = [v for v in vals if any(x == src for x in subterms(v))]
        copies = [e for e in q.events if e.kind == 'ctor' and e.obj is not None and q.it._base(e.obj) == loc and any(x == src for a in e.args for x in subterms(a))]
        state = stateful(p, f)
        if state and not dep and not copies:
            return 'the converter is not made of the given function'
        if state and loc[0] == 'glob' and str(loc[1]).startswith('sl:'):
            kept.append((f, 'a static converter keeps the function of the first registration: after it was unregistered, '
                         'registering another function of the same type registers the first one again'))
    return None


def stateful(p, f):
    t = nocv(f.params[0]['t'].replace('&', '').strip())
    if '(*)' in t or '::*)' in t or t.endswith('*'):
        return True
    r = p.records.get(t)
    if r is None:
        r = p.records.get(t.replace('const ', ''))
    return bool(r and r['fields'])


# --- converters --------------------------------------------------------------------------------------------------------------------

def converters(ctx, p, found):
    n = 0
    for f in sorted(found.values(), key=lambda f: f.cls):
        key = shorter(f.cls.replace('rtti::internal::', ''))
        with ctx.guard(key, f.where()):
            from ..invoke import targs
            ta = targs(f.cls)
            ps = ctx.explore(f, exc=True, stop=set(DEFER_SET))
            if ps is None or not ta or len(ta) < 2:
                ctx.undecided(key, f.where(), 'converter not understood')
                continue
            n += 1
            bad = und = None
            for q in ps:
                w = run_path(p, f, q, ta)
                if w:
                    if w[0] == '?':
                        und = und or w[1:]
                    else:
                        bad = bad or w
            if bad:
                ctx.bad(key, f.where(), bad)
            elif und:
                ctx.undecided(key, f.where(), und)
            else:
                ctx.ok(key, f.where(), '%d paths' % len(ps))
    ctx.counts['converters'] = n
    if not n:
        raise Broken('no converter')


def has_dtor(p, T):
    r = p.records.get(T)
    if r is None or T.startswith('std::'):
        return T.startswith('std::') or None
    return any('::~' in m['n'] and not m.get('impl') for m in r['methods']) or None


def run_path(p, f, q, ta):
    F, T = ta[0], ta[1]
    names = [x['n'] or 'arg%d' % i for i, x in enumerate(f.params)]
    self_, in_, out = (('var', n, 0) for n in names)
    iin, iout = ('init', in_), ('init', out)
    if q.ctl not in ('return', 'throw'):
        return 'ends in %s' % q.ctl
    if any(null_of(k, v) and any(x in (iin, iout) for x in subterms(k)) for k, v in q.facts.items()):
        return None
    own = lambda x: any(y[0] == 'fld' and any(z == self_ for z in subterms(y)) for y in subterms(x))
    runs = []
    for e in q.events:
        if e.kind == 'icall' and own(e.obj) or e.kind == 'pmcall' and e.x.get('pm') is not None and own(e.x['pm']) or \
                e.kind == 'call' and e.obj is not None and own(e.obj) and e.n.endswith('operator()') or \
                e.kind == 'enter' and e.x.get('callee') is not None and e.x['callee'].bn.endswith('operator()') and e.obj is not None and own(e.obj):
            runs.append(e)
    built = [e for e in q.events if e.kind in ('construct',) and e.obj == ('deref', iout)]
    if not built:
        built = [e for e in q.events if e.kind == 'ctor' and e.obj == ('deref', iout) and not e.x.get('threw')]
    threw = any(e.x.get('threw') for e in q.events)
    gone = [e for e in q.events if (e.kind == 'dtor' or e.kind == 'call' and e.n.endswith('::{dtor}')) and e.obj == ('deref', iout)]
    gone += [e for e in q.events if e.kind == 'mt' and e.x.get('op') == 'destroy' and e.args and e.args[-1] == iout]
    # the construction fails when the function or the constructor throws during it
    complete = len(built) - (1 if threw and built and any(e.x.get('threw') and e.i > built[-1].i for e in q.events) else 0)
    tracked = has_dtor(p, T)
    if not runs:
        if threw and q.ctl == 'throw' or threw and const(q.val) == 0:
            return None
        return 'the converter is not run' if not lambda_like(f) else '?call of the function not found'
    if len(runs) > 1:
        return 'the converter is run more than once'
    e = runs[0]
    if e.kind == 'pmcall':
        if e.obj != ('deref', iin):
            return 'the member is called on %s instead of the value' % show(e.obj)[:60]
    else:
        if not e.args or not from_input(q, e.args[0], iin):
            return 'the function is called with %s instead of the value' % (show(e.args[0])[:60] if e.args else 'nothing')
    flag = [a for a in e.args[(0 if e.kind == 'pmcall' else 1):] if a[0] == 'addr' and a[1][0] == 'var']
    c = const(q.val) if q.val is not None else None
    if q.ctl == 'throw':
        if complete > len(gone) and tracked:
            return 'an exception leaves a constructed value behind'
        if complete < len(gone):
            return 'destroys a value that was not constructed'
        return None
    if c is not None:
        ok = bool(c)
    else:
        ok = q.it.holds(q.val, q.facts)
        ok = None if ok is None else bool(ok)
    if e.x.get('threw') or threw:
        if ok is not False:
            return 'answers %s although the converter has thrown' % ok
        if complete > len(gone) and tracked:
            return 'a failed conversion leaves a constructed value behind'
        if complete < len(gone):
            return 'destroys a value that was not constructed'
        return None
    if flag:
        loc = flag[0][1]
        v, neg = negation(q.val)
        now = q.mem.get(loc)
        said = None
        if now is not None:
            said = q.it.holds(now, q.facts)
            if said is None and v == now:
                said = 'same'
        if v == now and neg:
            return 'answers the opposite of what the converter reports'
        if said is None and ok is not None:
            return 'answers %s whatever the converter reports' % ok
        if said is None:
            return '?report of the converter not followed'
        if said == 'same' or ok is None:
            if tracked:
                return 'the value of a failed conversion is not destroyed' if complete == 1 and not gone else 'destroys the value of a successful conversion' if gone else None
            return None
        if ok != bool(said):
            return 'answers %s although the converter reports %s' % (ok, bool(said))
    elif ok is not True:
        return 'answers %s although the converter has not failed' % ok
    if not built:
        return 'constructs no value at the output'
    if ok and complete != 1 + len(gone):
        return 'leaves %d constructed values after success' % (complete - len(gone))
    if ok and gone:
        return 'destroys the value of a successful conversion'
    if not ok and tracked and complete != len(gone):
        return 'a failed conversion leaves a constructed value behind' if complete > len(gone) else 'destroys a failed conversion twice'
    if built[0].n.split('(')[0] not in (T, '') and nocv(built[0].n) != nocv(T) and not built[0].n.endswith('{ctor}'):
        return 'constructs a %s instead of %s' % (built[0].n, T)
    return None


def lambda_like(f):
    return 'lambda' in f.cls


def from_input(q, a, iin, depth=0):
    if a == iin or a in (('addr', ('deref', iin)), ('init', ('deref', iin))):
        return True
    if depth > 4:
        return False
    if a[0] == 'addr':
        # a copy of the input
        for e in q.events:
            if e.kind == 'ctor' and (e.x.get('copy')) and e.obj == a[1] and any(from_input(q, x, iin, depth + 1) for x in e.args):
                return True
        v = q.mem.get(a[1])
        if v is not None and v != a and from_input(q, v, iin, depth + 1):
            return True
    if a[0] == 'sv' and len(a) > 2:
        return from_input(q, a[1], iin, depth + 1) or from_input(q, ('addr', a[2]), iin, depth + 1)
    return any(x == ('deref', iin) for x in subterms(a))


# --- buffers -----------------------------------------------------------------------------------------------------------------------

MAKE = ('copy_construct', 'move_construct', 'move_or_copy', 'default_construct', 'convert')


def buffers(ctx, p):
    n = 0
    for bn in ('to', 'convert', 'tryConvert', 'eq'):
        for f in ctx.fns('rtti::variant::' + bn):
            if f.body is None or not f.ta:
                continue
            T = f.ta[0]
            key = '%s<%s>%s' % (bn, short(T), ' const' if f.cm else '')
            with ctx.guard(key, f.where()):
                ps = vt.summaries(ctx, f, 'rtti::variant::operator==', exc=True, nothrow=('move',))
                if ps is None:
                    continue
                n += 1
                bad = None
                for q in ps:
                    if q.ctl == 'terminate':
                        continue
                    w = buffer_path(p, q, T)
                    if w is None:
                        w = outcome(p, q, bn, T)
                    if w:
                        bad = w
                        break
                if bad is None:
                    ctx.ok(key, f.where(), '%d paths' % len(ps))
                elif bad[0] == '?':
                    ctx.undecided(key, f.where(), bad[1:])
                else:
                    ctx.bad(key, f.where(), bad)
    ctx.counts['conversions of variants'] = n
    if not n:
        raise Broken('no conversion of variants')


def ends(e, buf):
    """Does the event destroy the value in the buffer?"""
    loc = buf[1] if buf[0] == 'addr' else ('deref', buf)
    if (e.kind == 'dtor' or e.kind == 'call' and e.n.endswith('::{dtor}')) and e.obj in (loc, ('deref', buf)):
        return True
    return e.kind == 'mt' and e.x.get('op') in ('destroy', 'destruct') and len(e.args) > 1 and e.args[1] == buf


def reads(e, buf):
    if e.kind == 'ctor' and (e.x.get('copy') or e.x.get('move')) or e.kind == 'mt' and e.x.get('op') == 'compare_eq' or e.kind == 'call' and (e.n.endswith('operator==')):
        return any(a == buf for a in e.args)
    return False


def buffer_path(p, q, T):
    makes = {}
    for e in q.events:
        if e.kind == 'mt' and e.x.get('op') in MAKE and len(e.args) >= 3:
            makes.setdefault(e.args[2], []).append(e)
    for buf, es in makes.items():
        local = buf[0] == 'addr' and buf[1][0] in ('var', 'tmp')
        alloc = buf[0] == 'call' and buf[1] == MT + 'allocate'
        if not local and not alloc:
            root = buf[1] if buf[0] == 'addr' else buf
            while root[0] in ('field', 'index', 'deref', 'addr') and isinstance(root[1], tuple):
                root = root[1]
            if root[0] == 'glob' and 'thread_local' not in str(root):
                return 'constructs a value in a buffer shared by all callers'
            continue
        live = 0
        dyn = alloc
        tracked = dyn or has_dtor(p, T)
        used = []
        for e in q.events:
            if e in es:
                if e.x.get('threw'):
                    continue
                if e.x['op'] == 'convert':
                    ok = fact(q, e.res)
                    if ok is None:
                        return 'goes on without asking whether the conversion has succeeded'
                    if not ok:
                        continue
                if live:
                    return 'constructs a second value in the buffer'
                live = 1
            elif ends(e, buf):
                if not live:
                    return 'destroys a value that was not constructed'
                live = 0
            elif reads(e, buf) and not live:
                return 'reads a buffer without a constructed value'
            elif alloc and e.kind == 'mt' and e.x.get('op') == 'deallocate' and len(e.args) > 1 and e.args[1] == buf and live:
                return 'releases a buffer with a constructed value'
        if live and tracked:
            return 'leaves the value in the buffer undestroyed' + (' when an exception is thrown' if q.ctl == 'throw' else '')
    for e in q.events:
        if e.kind == 'mt' and e.x.get('op') == 'allocate' and not e.x.get('threw') and e.res is not None:
            ds = [d for d in q.events if d.kind == 'mt' and d.x.get('op') == 'deallocate' and len(d.args) > 1 and d.args[1] == e.res]
            if len(ds) != 1:
                return 'releases an allocated buffer %d times%s' % (len(ds), ' when an exception is thrown' if q.ctl == 'throw' else '')
            if ds[0].args[0] != e.args[0]:
                return 'releases a buffer of another type'
        if e.kind == 'mt' and e.x.get('op') == 'destroy' and len(e.args) > 1:
            made = [m for ms in makes.values() for m in ms if m.args[2] == e.args[1]]
            if made and made[0].x['op'] == 'convert' and made[0].args[3] != e.args[0]:
                return 'destroys the converted value as another type'
    return None


def outcome(p, q, bn, T):
    t = vt.table(p)
    cvs = [e for e in q.events if e.kind == 'mt' and e.x.get('op') == 'convert']
    user = any(e.x.get('threw') for e in q.events)
    this = ('deref', ('init', ('var', 'this', 0)))
    changed = []
    for e in q.events:
        if e.kind == 'write' and e.obj is not None and inside(e.obj, this):
            changed.append(e)
        if e.kind == 'slot' and e.x['role'] in ('destroy', 'move', 'move_construct', 'copy_construct', 'copy'):
            a = e.args if e.x['role'] in ('destroy', 'move') else e.args[1:]
            if any(x[0] == 'addr' and inside(x[1], this) for x in a):
                changed.append(e)
    if bn == 'to':
        if changed:
            return 'changes the variant'
        for e in cvs:
            src, frm, buf, to = e.args
            if not (src[0] == 'call' and src[1] == 'slot:access' and src[2] == (('init', t.manager(this)), ('addr', t.storage(this)))):
                return 'converts %s instead of the stored value' % show(src)[:60]
            if not (frm[0] == 'call' and frm[1] == 'slot:type' and frm[2][0] == ('init', t.manager(this))) or to != ('typeid', T):
                return 'converts from %s to %s' % (show(frm)[:50], show(to)[:50])
        if q.ctl == 'throw' and not user:
            name = q.val[0] if isinstance(q.val, tuple) else '?'
            if not (name == 'rtti::bad_variant_convert' or p.derives(name, 'rtti::bad_variant_convert')):
                return 'reports failure as %s' % name
        if q.ctl == 'return':
            made = [e for e in q.events if e.kind == 'mt' and e.x.get('op') in MAKE and not e.x.get('threw') and (e.x['op'] != 'convert' or fact(q, e.res))]
            if not made:
                return 'returns a value that was not converted'
            if q.val is not None and q.val[0] == 'made' and q.val[1] not in [e.i for e in made]:
                return 'returns something else than the converted value'
    if bn in ('convert', 'tryConvert'):
        failed = q.ctl == 'throw' or bn == 'tryConvert' and const(q.val) == 0
        if failed and changed and not any(e.kind == 'slot' and e.x['role'] == 'destroy' and e.x.get('threw') for e in q.events):
            return 'changes the variant although the conversion has failed'
        if q.ctl == 'return' and not failed and not changed:
            return 'leaves the variant as it was although the conversion has succeeded'
        if bn == 'tryConvert':
            if q.ctl == 'throw':
                return 'throws'
            if const(q.val) is None:
                return '?answer not constant'
            if const(q.val) == 1 and (user or any(e.kind == 'throw' for e in q.events)):
                return 'answers true although the conversion has failed'
    return None


def inside(loc, base):
    while True:
        if loc == base:
            return True
        if loc[0] in ('fld', 'idx'):
            loc = loc[1]
        else:
            return False
