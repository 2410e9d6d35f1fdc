"""Structural facts about the library shared by the rules: registry classes, their locks, public entry points."""
import re
from .prog import Broken, REPO
from .interp import *

CONT_T = re.compile(r'^std::(__cxx11::)?(vector|forward_list|list|deque|unordered_map|map|unordered_set|set|multimap|unordered_multimap|stack|queue)<')
DEFER = ('rtti::MetaContainer::checkDeferredDefine', 'rtti::MetaItem::checkDeferredDefine')
INVOKE_DEF = 'rtti::IDefinitionCallbackHolder::invoke'


def in_repo(loc):
    return loc.startswith(REPO + '/')


def guards(p):
    """{record name: {'mutex': {field: recursive}, 'data': {field: type}}} for the library's private registry classes."""
    if hasattr(p, '_guards'):
        return p._guards
    out = {}
    for n, r in p.records.items():
        if not (r.get('loc') or '').startswith(REPO + '/src/'):
            continue
        mx = {f['n']: 'recursive' in f['t'] for f in r['fields'] if re.match(r'^(mutable )?std::\w*mutex', f['t'])}
        if mx:
            out[n] = {'mutex': mx, 'data': {}}
    for n, g in out.items():
        for f in p.records[n]['fields']:
            t = f['t']
            if f['n'] in g['mutex'] or f.get('const') or t.startswith('const ') or t.startswith('std::atomic') or 'condition_variable' in t:
                continue
            if t in out:
                continue        # locks itself
            g['data'][f['n']] = t
    p._guards = out
    return out


def unguarded_containers(p):
    """Container fields of private library classes which have no lock."""
    g = guards(p)
    out = []
    for n, r in p.records.items():
        if not (r.get('loc') or '').startswith(REPO + '/src/') or n in g or '(lambda' in n:
            continue
        for f in r['fields']:
            if CONT_T.match(f['t']) and not f.get('const'):
                out.append((n, f['n'], r['loc']))
    return out


def guard_index(p):
    """field name -> list of (record, info)"""
    idx = {}
    for n, g in guards(p).items():
        for f in g['data']:
            idx.setdefault(f, []).append((n, g))
    return idx


def guarded_of(p, loc):
    """(owner loc, field, info) of the guarded field that loc lies in, else None."""
    idx = guard_index(p) if not hasattr(p, '_gidx') else p._gidx
    p._gidx = idx
    while isinstance(loc, tuple) and loc:
        if loc[0] == 'fld':
            if loc[2] in idx:
                return loc[1], loc[2], idx[loc[2]]
            loc = loc[1]
        elif loc[0] in ('idx', 'elem', 'mapval'):
            loc = loc[1]
        else:
            return None
    return None


def wide(v, bits=16):
    """v without a conversion to a type that is narrower, but wide enough for sizes and depths of types."""
    while v is not None and v[0] == 'op' and v[1] == 'trunc' and v[3][1] >= bits:
        v = v[2]
    return v


def base_of(loc):
    while isinstance(loc, tuple) and loc[0] in ('fld', 'idx', 'elem', 'mapval'):
        loc = loc[1]
    return loc


def held(e, owner, info):
    """Strongest mode in which a mutex of owner is held at event e: 'x', 's' or None."""
    best = None
    for m, k, h in e.locks:
        if m[0] == 'fld' and m[1] == owner:
            if k == 'x':
                return 'x'
            best = 's'
    return best


def callers(p):
    """fid -> set of fids of repository functions that mention it."""
    if hasattr(p, '_callers'):
        return p._callers
    out = {}

    def walk(x, src):
        if isinstance(x, dict):
            f = x.get('f')
            if isinstance(f, str) and f != src:
                out.setdefault(f, set()).add(src)
            for k in ('d', 'dt'):
                pass
            for y in x.values():
                if isinstance(y, (dict, list)):
                    walk(y, src)
        elif isinstance(x, list):
            for y in x:
                walk(y, src)
    for f in p.funcs.values():
        if f.body is not None:
            walk(f.body, f.id)
            walk(f.d.get('inits') or [], f.id)
    p._callers = out
    return out


def api_class(n):
    """Is this a class of the public interface (declared in include/)?"""
    return n


def methods(p, cls, acc=None):
    r = p.records.get(cls)
    if not r:
        raise Broken('anchor vanished: class ' + cls)
    out = []
    for m in r['methods']:
        if acc and m.get('acc') not in acc:
            continue
        f = p.funcs.get(m['f'])
        if f is not None and f.body is not None:
            out.append((m, f))
    return out


def roots(p):
    """Library functions nobody else in the library calls, plus every non-private method of the exported classes."""
    c = callers(p)
    out = []
    for f in p.funcs.values():
        if f.body is None or f.lam or not f.loc.startswith(REPO + '/src/'):
            continue
        if f.d.get('ctor') or f.d.get('dtor') and not guards(p).get(f.cls):
            continue
        pub = f.cls is not None and p.records.get(f.cls) and (p.records[f.cls].get('loc') or '').startswith(REPO + '/include/') and f.d.get('acc') in ('public', 'protected')
        if pub or not c.get(f.id):
            out.append(f)
    return out


def path_desc(p, n=14):
    """Short description of a path: decisions and outcome."""
    fs = []
    for a, v, line, fn in p.branches[-n:]:
        fs.append(('' if v else 'not ') + show(a))
    return '; '.join(fs) + ' => ' + p.ctl + (' ' + show(p.val) if p.ctl == 'return' and p.val is not None else '')


def reaches(p, seed):
    """Functions from which a function of seed (ids) can be reached in the call graph (virtual calls: every overrider)."""
    c = callers(p)
    out, todo = set(seed), list(seed)
    while todo:
        x = todo.pop()
        nxt = set(c.get(x, ()))
        f = p.funcs.get(x)
        if f is not None:
            for o in f.d.get('ov', ()):
                nxt.add(o)
            if f.lam:
                pass
        for y in nxt:
            if y not in out:
                out.add(y)
                todo.append(y)
    return out


def mentions(x, names):
    if isinstance(x, dict):
        if x.get('k') == 'm' and x.get('f') in names:
            return True
        return any(mentions(y, names) for y in x.values() if isinstance(y, (dict, list)))
    if isinstance(x, list):
        return any(mentions(y, names) for y in x)
    return False


LOOKUPS = {'rtti::MetaClass::find', 'rtti::MetaType::metaClass', 'rtti::variant::metaClass', 'rtti::MetaNamespace::find'} | {
    'rtti::MetaContainer::get' + n for n in ('Class', 'Namespace', 'Enum', 'Method', 'Property', 'Constructor', 'Attribute')}


def null_receivers(q):
    """Calls made on what a lookup has answered before it is known that the lookup found something."""
    out = []
    for e in q.events:
        r = e.obj
        if e.kind in ('call', 'enter') and r and r[0] == 'deref' and r[1][0] == 'call' and r[1][1] in LOOKUPS:
            if q.it.holds(('op', '!=0', r[1], ('c', 0)), e.facts) is not True:
                out.append(e)
    return out


def used_unchecked(ctx, key, q):
    es = null_receivers(q)
    for e in es[:1]:
        ctx.bad(key + ': nothing found', e.where(), '%s is called on the answer of %s although nothing may have been found: %s' % (
            (e.n or '').split('::')[-1], e.obj[1][1], path_desc(q)))
    return bool(es)


def node_kinds(n):
    """Kinds of the nodes of a syntax tree."""
    out, todo = set(), [n]
    while todo:
        x = todo.pop()
        if isinstance(x, dict):
            if 'k' in x:
                out.add(x['k'])
            todo.extend(v for v in x.values() if isinstance(v, (dict, list)))
        elif isinstance(x, list):
            todo.extend(x)
    return out
