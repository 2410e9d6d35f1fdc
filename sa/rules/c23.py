"""Constant propagation through the printing operator and everything it calls, for the empty set, every single flag, every pair,
every set of consecutive flags, the complements of these and sets with undefined bits: the text that reaches the stream is, split
at '|', exactly the names of the flags that are set (each once), and every table access on the way has an index inside the table.
The names and values of the flags come from a witness that spells out the documented enumerators."""
import re
from ..registry import *


def run(ctx):
    p = ctx.load('flags.cpp')
    fs = [f for f in p.fn('rtti::operator') if f.body is not None and len(f.params) == 2 and 'TypeFlags' in f.params[1]['t'] and 'ostream' in f.params[0]['t']]
    w = p.fn('w::flags')
    if len(fs) != 1 or not w:
        raise Broken('printing operator or flag witness not found')
    f = fs[0]
    flags = {}
    for q in ctx.explore(w[0], **opts(p)) or ():
        for e in q.events:
            if e.kind == 'call' and e.n == 'w::flag':
                v = const(e.args[1])
                if e.args[0][0] == 's' and v is not None:
                    flags[e.args[0][1]] = v
    if len(flags) < 25:
        raise Broken('only %d documented flags recognised' % len(flags))
    none = flags.pop('None')
    ctx.req(none == 0 and all(v and not v & (v - 1) and v < 1 << 32 for v in flags.values()) and len(set(flags.values())) == len(flags),
            'values of the flags', w[0].where(), 'the flags are not distinct single bits')
    names = list(flags)
    order = sorted(flags.values())
    every = sum(order)
    sets = [('the empty set', 0)]
    sets += [(n, flags[n]) for n in names]
    sets += [('%s and %s' % (a, b), flags[a] | flags[b]) for i, a in enumerate(names) for b in names[i + 1:]]
    sets += [('all flags', every)]
    sets += [('all but ' + n, every & ~flags[n]) for n in names]
    for k in range(3, len(order)) if ctx.tier == 'thorough' else (3, 7, 12):
        for i in range(len(order) - k + 1):
            run_ = sum(order[i:i + k])
            sets.append(('bits %#x' % run_, run_))
            sets.append(('bits %#x' % (every & ~run_), every & ~run_))
    high = 0xffffffff & ~every
    bits = [1 << i for i in range(32) if high >> i & 1]
    sets += [('undefined bit %#x' % b, b) for b in bits] + [('all undefined bits', high), ('all bits', 0xffffffff)]
    sets += [('%s and undefined bits' % n, flags[n] | high) for n in names]
    seen = set()
    for what, v in sets:
        if v in seen:
            continue
        seen.add(v)
        one(ctx, p, f, what, v, flags)
    ctx.counts['flag sets'] = len(seen)


def const(v):
    while v is not None and v[0] == 'op' and v[1] in ('cast', 'conv'):
        v = v[2]
    return v[1] if v is not None and v[0] == 'c' else None


STREAM = ('glob', 'STREAM')


def is_stream(v):
    while isinstance(v, tuple) and v:
        if v == STREAM:
            return True
        if v[0] in ('addr', 'deref', 'ref'):
            v = v[1]
        elif v[0] == 'call' and v[1].split('::')[-1].startswith(('operator', 'write', 'put')) and v[2]:
            v = v[2][0]
        else:
            return False
    return False


def text(q):
    """what reaches the stream, or (None, reason)"""
    out = ''
    for e in q.events:
        if e.kind in ('call', 'output') and (is_stream(e.obj) or any(is_stream(a) for a in e.args)):
            n = e.n.split('::')[-1]
            args = [a for a in e.args if not is_stream(a)]
            if not n.startswith('operator') and n not in ('<<', 'write', 'put'):
                if n in ('flush', 'good', 'fail', 'bad', 'eof', 'rdstate', 'flags', 'width'):
                    continue
                return None, 'the stream is passed to %s' % e.n
            a = args[0] if args else None
            while a is not None and a[0] in ('str', 'sv') and isinstance(a[1], tuple):
                a = a[1]
            c = const(a)
            if a is not None and a[0] == 's':
                s = a[1]
                if n == 'write':
                    k = const(args[1]) if len(args) > 1 else None
                    if k is None:
                        return None, 'unknown text is written'
                    s = s[:k]
                out += s
            elif c is not None and 0 < c < 128 and n in ('put', 'operator', 'operator<<', '<<'):
                out += chr(c)
            else:
                return None, 'unknown text is written: %s' % (show(a) if a is not None else e)
    return out, None


def one(ctx, p, f, what, v, flags):
    ps = ctx.explore(f, args=[('addr', STREAM), ('c', v)], **opts(p))
    want = sorted(n for n, b in flags.items() if v & b)
    for q in ps or ():
        ctx.count('paths')
        bad = None
        for e in q.events:
            if e.kind == 'index' and e.args:
                i = const(e.args[0])
                n = size_of(p, e.obj)
                if i is not None and n is not None and not 0 <= i < n:
                    ctx.bad('reads inside the table', e.where(), 'printing %s reads element %d of %s, which has %d' % (what, i, show(e.obj), n))
                    bad = True
        if bad:
            continue
        if q.ctl == 'throw' and any(getattr(e, 'x', {}).get('threw') for e in q.events):
            continue                # the stream threw
        if q.ctl != 'return':
            ctx.bad('printing ' + what, f.where(), 'printing %s ends in %s' % (what, q.ctl))
            continue
        if not is_stream(q.val):
            ctx.undecided('printing ' + what, f.where(), 'does not return the stream: %s' % show(q.val))
        out, why = text(q)
        if out is None:
            ctx.undecided('printing ' + what, f.where(), why)
            continue
        if v == 0:
            ctx.req(out == 'None', 'printing the empty set', f.where(), 'the empty set prints as "%s", not as "None"' % out)
            continue
        got = out.split('|') if out else []
        if not want:
            ctx.req(got in ([], ['None']), 'printing ' + what, f.where(), 'printing %s emits "%s" although no flag is set' % (what, out))
            continue
        key = 'printing single flags' if len(want) == 1 else 'printing sets'
        if sorted(got) != want:
            extra = sorted(set(got) - set(want))
            miss = sorted(set(want) - set(got))
            ctx.bad(key, f.where(), 'printing %s emits "%s"%s%s' % (what, out, ', missing ' + ', '.join(miss) if miss else '', ', not set: ' + ', '.join(extra) if extra else ''))
        else:
            ctx.ok(key)


def size_of(p, loc):
    if loc is None or loc[0] != 'glob':
        return None
    g = p.globals.get(loc[1])
    if g is None or not isinstance(g, dict):
        return None
    m = re.search(r'\[(\d+)\]', g.get('t') or '')
    return int(m.group(1)) if m else None
