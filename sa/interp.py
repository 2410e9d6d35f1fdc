"""Path-sensitive abstract interpreter over the exported program.

Values are symbolic access paths; branches are partitioned on facts about them (two-valued atoms, no solver);
loops are widened to a fixpoint (constant-decided loops are unrolled); repository functions are analysed in their
callers' context up to a depth bound, everything else is opaque or modelled. The result of analysing a function is
the set of its path summaries: events in order (with facts and locks held), outcome and final memory."""
import re, sys
sys.setrecursionlimit(20000)

C0, C1 = ('c', 0), ('c', 1)
NULL = ('null',)
UNIT = ('unit',)
UNINIT = ('uninit',)


class LV:
    __slots__ = ('loc',)

    def __init__(self, loc):
        self.loc = loc

    def __repr__(self):
        return 'LV%r' % (self.loc,)


class Throw(Exception):
    def __init__(self, t, v=None, line=0):
        self.t, self.v, self.line = t, v, line


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Abort(BaseException):
    """Path ends without an exit (loop back edge, infeasible, terminate)."""

    def __init__(self, why):
        self.why = why


class TooBig(BaseException):
    pass


class Event:
    __slots__ = ('kind', 'n', 'args', 'obj', 'res', 'line', 'fn', 'locks', 'facts', 'node', 'x', 'stack', 'i', 'held')

    def __init__(self, kind, n, args=(), obj=None, res=None, line=0, fn=None, locks=(), facts=None, node=None, **x):
        self.kind, self.n, self.args, self.obj, self.res, self.line, self.fn = kind, n, args, obj, res, line, fn
        self.locks, self.facts, self.node, self.x = locks, facts, node, x
        self.stack = ()

    def where(self):
        return '%s:%s' % (self.fn.file.split('/repo/')[-1] if self.fn else '?', self.line)

    def __repr__(self):
        return '%s %s(%s)%s -> %s @%s' % (self.kind, self.n, ', '.join(map(show, self.args)),
                                          ' on ' + show(self.obj) if self.obj is not None else '', show(self.res), self.where())


class Path:
    def __init__(self, it, ctl, val):
        self.ctl = ctl          # 'return' | 'throw' | 'terminate' | 'loopback' | ...
        self.val = val
        self.events = it.events
        self.facts = it.facts
        self.types = dict(it.types)
        self.ctypes = it.ctypes
        self.mem = it.mem
        self.locks = it.locks
        self.branches = it.branches
        self.it = it

    def calls(self, *names):
        return [e for e in self.events if e.n in names]


def show(t, d=0):
    if t is None:
        return '-'
    if isinstance(t, LV):
        return '&' + show(t.loc)
    if not isinstance(t, tuple) or not t:
        return str(t)
    if d > 6:
        return '…'
    h = t[0]
    s = lambda x: show(x, d + 1)
    if not isinstance(h, str):
        return '(' + ', '.join(s(x) for x in t) + ')'
    if h == 'c':
        return str(t[1]) + (':' + t[2] if len(t) > 2 else '')
    if h == 'null':
        return 'nullptr'
    if h == 's':
        return '"%s"' % t[1]
    if h == 'init':
        return s(t[1])
    if h == 'addr':
        return '&' + s(t[1])
    if h == 'var':
        return str(t[1]).split('@')[0]
    if h == 'glob':
        return str(t[1])
    if h == 'fld':
        return s(t[1]) + '.' + (t[2] if isinstance(t[2], str) else '*' + s(t[2][1]) if t[2][0] == 'pm' else str(t[2]))
    if h == 'deref':
        return '*' + s(t[1])
    if h == 'idx' or h == 'elem':
        return s(t[1]) + '[' + s(t[2]) + ']'
    if h == 'op':
        return '(' + s(t[2]) + ' ' + t[1] + ' ' + s(t[3]) + ')'
    if h == 'not':
        return '!' + s(t[1])
    if h == 'call':
        return t[1].split('::')[-1] + '(' + ', '.join(map(s, t[2])) + ')'
    return h + '(' + ', '.join(s(x) for x in t[1:]) + ')'


def contains(t, x):
    if t == x:
        return True
    if isinstance(t, tuple):
        for y in t:
            if isinstance(y, tuple) and contains(y, x):
                return True
    return False


def subterms(t):
    if isinstance(t, tuple) and t:
        yield t
        for y in t:
            if isinstance(y, tuple):
                yield from subterms(y)


def under(loc, base):
    while isinstance(loc, tuple):
        if loc == base:
            return True
        if loc[0] in ('fld', 'idx', 'elem', 'mapval'):
            loc = loc[1]
        else:
            return False
    return False


def rebase(loc, a, b):
    if loc == a:
        return b
    return (loc[0], rebase(loc[1], a, b)) + loc[2:]


class Frame:
    __slots__ = ('fn', 'this', 'vars', 'n', 'ret', 'line')

    def __init__(self, fn, this, n, ret):
        self.fn, self.this, self.n, self.ret = fn, this, n, ret
        self.vars = {}
        self.line = 0


INT_BITS = {'unsigned char': 8, 'signed char': 8, 'char': 8, 'unsigned short': 16, 'short': 16, 'unsigned int': 32, 'int': 32, 'unsigned long': 64, 'long': 64,
            'unsigned long long': 64, 'long long': 64}


class Opts:
    def __init__(self, **kw):
        self.depth = 24          # inlining bound
        self.reenter = 1         # how often a function is inlined into itself
        self.exc = False         # throw edges at opaque may-throw calls
        self.nothrow = set()     # except these (functions, or table fields called through)
        self.stop = set()        # functions (bn) left opaque
        self.inline = None       # predicate(fn) -> bool, default everything with a body
        self.hooks = {}          # bn -> handler(it, node, obj, args) -> value | NotImplemented
        self.vdispatch = None    # (it, callee node, obj loc) -> Func | None
        self.casts = False       # keep pointer casts between classes in the value
        self.maxpaths = 4000
        self.maxsteps = 400000
        self.unroll = 70
        self.dynvirt = False     # virtual calls on objects of statically known final/unique type are inlined
        self.new_throws = False
        self.nonnull_elems = False   # entries of owning lists are never null (proved separately)
        self.hook = None         # generic hook(it, node, kind) called before model/inlining
        self.assume = {}         # initial facts
        self.strict_deref = False
        self.uncaught = None     # number of exceptions already being propagated (None: unknown)
        self.__dict__.update(kw)


STD_MOVE = {'std::move', 'std::forward', 'std::as_const', 'std::move_if_noexcept', 'std::__addressof'}
LOCKS_X = ('std::unique_lock', 'std::lock_guard', 'std::scoped_lock')
LOCKS_S = ('std::shared_lock',)
MAPS = re.compile(r'^std::(__1::)?(__cxx11::)?(unordered_map|map|unordered_set|set|unordered_multimap|multimap)\b')
SEQS = re.compile(r'^std::(__1::)?(__cxx11::)?(vector|forward_list|list|deque|array|initializer_list)\b')

ARRAY = re.compile(r'^std::array<.*[, ](\d+)>$')


def array_elem(it, cloc, i):
    raw = ('fld', cloc, '_M_elems')
    return ('idx', raw, i) if i[0] == 'c' and ('idx', raw, i) in it.mem or raw in it.mem else ('elem', cloc, i)


REFTO = re.compile(r'^([^()]*)\(&&?\)(?=\[|\()')


def isref(t):
    return t.endswith('&') or '(&' in t and REFTO.match(t) is not None


def noref(t):
    if '(&' in t:
        m = REFTO.match(t)
        if m:
            return m.group(1).strip() + t[m.end():]
    return t.rstrip('& ').strip()


def nocv(t):
    t = noref(t)
    while True:
        u = re.sub(r'^(const|volatile)\s+', '', t)
        u = re.sub(r'\s+(const|volatile)$', '', u)
        if u == t:
            return t
        t = u


def isptr(t):
    t = nocv(t)
    return t.endswith('*')


def offset(t):
    """(x, k) for x + k with a constant k."""
    if t[0] == 'op' and t[1] in ('+', '-') and t[3][0] == 'c' and isinstance(t[3][1], int):
        return t[2], t[3][1] if t[1] == '+' else -t[3][1]
    return t, 0


SCALARS = {'bool', 'char', 'int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short', 'unsigned char', 'float', 'double'}


class Interp:
    def __init__(self, prog, opts=None):
        self.layouts = {}
        self.p = prog
        self.o = opts or Opts()

    # ------------------------------------------------------------------ exploration driver
    def explore(self, fn, this=None, args=None, setup=None):
        """All path summaries of fn. args: list of values/None (None: symbolic)."""
        self.havocs = {}
        for attempt in range(8):
            self.restart = False
            paths = []
            prefix = []
            steps = 0
            while True:
                self.dec, self.pos, self.trace = prefix, 0, []
                p = self.run_one(fn, this, args, setup)
                steps += self.steps
                if p is not None:
                    paths.append(p)
                if len(paths) > self.o.maxpaths or steps > self.o.maxsteps * 20:
                    raise TooBig('%s: more than %d paths' % (fn.n, self.o.maxpaths))
                tr = self.trace
                while tr and tr[-1][0] + 1 >= tr[-1][1]:
                    tr.pop()
                if not tr:
                    break
                prefix = [c for c, _ in tr[:-1]] + [tr[-1][0] + 1]
            if not self.restart:
                return paths
        raise TooBig('%s: loop widening does not converge' % fn.n)

    def run_one(self, fn, this, args, setup):
        self.mem, self.facts, self.locks, self.events = {}, dict(self.o.assume), (), []
        self.nframe = 0
        self.ntmp = 0
        self.nobj = 0
        self.branches = []
        self.steps = 0
        self.clos = {}
        self.frames = []
        self.temps = [[]]
        self.types = {}
        self.ctypes = {}
        self.epoch = {}
        self._scopes = [[]]
        try:
            th = this if this is not None else (('deref', ('init', ('var', 'this', 0))) if fn.cls and not fn.st else None)
            fr = Frame(fn, th, 0, None)
            self.frames.append(fr)
            for i, q in enumerate(fn.params):
                loc = ('var', q['n'] or 'arg%d' % i, 0)
                fr.vars[q['id']] = loc
                a = args[i] if args and i < len(args) else None
                if a is not None:
                    self.mem[loc] = a
                elif isref(q['t']):
                    self.mem[loc] = ('addr', ('deref', ('init', loc)))
            if setup:
                setup(self, fr)
            try:
                v = self.body(fn, fr)
                return Path(self, 'return', v)
            except Throw as e:
                if fn.nx:
                    self.event('terminate', 'std::terminate', (), line=e.line)
                    return Path(self, 'terminate', e.t)
                return Path(self, 'throw', (e.t, e.v))
        except Abort as a:
            if a.why == 'infeasible':
                return None
            return Path(self, a.why, None)

    def choice(self, n, what=None):
        if self.pos < len(self.dec):
            c = self.dec[self.pos]
        else:
            c = 0
        self.pos += 1
        self.trace.append((c, n))
        if self.pos > 400:
            raise TooBig('too many decisions on one path')
        return c

    # ------------------------------------------------------------------ events
    def fr(self):
        return self.frames[-1]

    def event(self, kind, n, args=(), obj=None, res=None, line=None, node=None, **x):
        fr = self.fr()
        if line is None:
            line = fr.line
        e = Event(kind, n, tuple(args), obj, res, line, fr.fn, self.locks, self.facts, node, **x)
        e.stack = tuple((f.fn.n, f.line) for f in self.frames)
        e.i = len(self.events)
        e.held = {a[1]: self.mem[a[1]] for a in e.args if isinstance(a, tuple) and len(a) == 2 and a[0] == 'addr' and a[1] in self.mem}
        self.events.append(e)
        return e

    def fresh(self, tag):
        self.ntmp += 1
        return (tag, self.ntmp)

    # ------------------------------------------------------------------ memory
    def deref(self, v):
        if isinstance(v, tuple) and v and v[0] == 'addr':
            return v[1]
        return ('deref', v)

    def read(self, loc):
        m = self.mem
        if loc in m:
            v = m[loc]
            # overrides below a whole-object value
            ov = None
            if isinstance(v, tuple) and v and v[0] in ('init', 'call', 'fv', 'havoc', 'rec', 'default', 'obj0', 'uninit', 'opq'):
                ov = [(k, m[k]) for k in m if k != loc and k[0] == 'fld' and under(k, loc)]
            if ov:
                return ('rec', v, tuple(sorted(((self._rel(k, loc), x) for k, x in ov), key=repr)))
            return v
        ov = [(k, m[k]) for k in m if k[0] == 'fld' and under(k, loc)]
        base = self.base_value(loc)
        if ov:
            return ('rec', base, tuple(sorted(((self._rel(k, loc), x) for k, x in ov), key=repr)))
        return base

    def _rel(self, k, loc):
        r = []
        while k != loc:
            r.append(k[2] if k[0] == 'fld' else k[2:])
            k = k[1]
        return tuple(reversed(r))

    def base_value(self, loc):
        if loc in self.mem:
            return self.mem[loc]
        h = loc[0]
        if h in ('fld', 'idx', 'elem', 'mapval'):
            parent = loc[1]
            # find nearest explicit ancestor
            v = self.base_value_opt(parent)
            if v is None:
                return self.initial(loc)
            return self.project(v, loc)
        if h == 'glob':
            v = self.glob_init(loc)
            if v is not None:
                return v
        return ('init', loc)

    def initial(self, loc):
        n = self.epoch.get(loc[1]) if loc[0] == 'fld' else None
        if n and loc[2] not in self.p.constfields():
            return ('sync', n, loc)
        return ('init', loc)

    def base_value_opt(self, loc):
        if loc in self.mem:
            return self.mem[loc]
        if loc[0] in ('fld', 'idx', 'elem', 'mapval'):
            v = self.base_value_opt(loc[1])
            if v is None:
                return None
            return self.project(v, loc)
        if loc[0] == 'glob':
            return self.glob_init(loc)
        return None

    def project(self, v, loc):
        h = loc[0]
        if h == 'fld':
            f = loc[2]
            if isinstance(v, tuple) and v and v[0] == 'rec':
                for path, x in v[2]:
                    if path == (f,):
                        return x
                return self.project(v[1], loc)
            if isinstance(v, tuple) and v and v[0] == 'init':
                return ('init', ('fld', v[1], f))
            if isinstance(v, tuple) and v and v[0] == 'uninit':
                return UNINIT
            if isinstance(v, tuple) and v and v[0] == 'pair' and f in ('first', 'second'):
                return v[1 if f == 'first' else 2]
            return ('fv', v, f)
        if h == 'idx':
            if isinstance(v, tuple) and v and v[0] == 'arr':
                i = loc[2]
                if i[0] == 'c':
                    if 0 <= i[1] < len(v[1]):
                        return v[1][i[1]]
                    if i[1] >= 0 and len(v) > 2 and i[1] < v[2]:
                        return ('zero',)
                    return ('oob', loc)
                return ('sel', v, i)
            if isinstance(v, tuple) and v and v[0] == 'init':
                return ('init', ('idx', v[1], loc[2]))
            return ('sel', v, loc[2])
        if h == 'elem':
            return ('init', (h,) + (loc[1],) + loc[2:]) if True else None
        return ('fv', v, loc[2] if len(loc) > 2 else h)

    def glob_init(self, loc):
        """Value of a constant global from its initialiser."""
        g = self.p.globals.get(loc[1])
        if not g:
            return None
        if 'cval' in g and (g.get('const') or g['t'].startswith('const ')):
            v = g['cval']
            return ('c', v)
        key = loc[1]
        cache = self.p.globinit
        if key in cache:
            return cache[key]
        cache[key] = None
        t = g['t']
        if g.get('init') is not None and (g.get('const') or t.startswith('const ') or self.never_written(key, g)):
            v = self.const_eval(g['init'], t)
            cache[key] = v
        return cache[key]

    def never_written(self, name, g):
        # static arrays of literals: only if no function assigns through it
        if not re.search(r'\[\d+\]$', g['t']):
            return False
        if not hasattr(self.p, '_written'):
            w = set()

            def target(e):
                while isinstance(e, dict):
                    if e.get('k') == 'v':
                        return e.get('n')
                    if e.get('k') in ('idx', 'm'):
                        e = e['b']
                    elif e.get('k') in ('cast', 'full', 'mat', 'un'):
                        e = e['e']
                    else:
                        return None

            def walk(x):
                if isinstance(x, dict):
                    k = x.get('k')
                    if k == 'bin' and x['op'].endswith('=') and x['op'] not in ('==', '!=', '<=', '>='):
                        t = target(x['a'])
                        if t:
                            w.add(t)
                    if k == 'un' and x['op'] in ('++', '--', '&'):
                        t = target(x['e'])
                        if t:
                            w.add(t)
                    for y in x.values():
                        walk(y)
                elif isinstance(x, list):
                    for y in x:
                        walk(y)
            for f in self.p.funcs.values():
                if '/repo/' in f.loc or True:
                    walk(f.body)
            self.p._written = w
        return name not in self.p._written

    def const_eval(self, e, t):
        k = e.get('k') if isinstance(e, dict) else None
        if k in ('full', 'mat', 'bind', 'darg', 'ld'):
            return self.const_eval(e['e'], t)
        if k == 'c':
            return ('c', self.num(e['v']))
        if k == 's':
            return ('s', e['v'])
        if k == 'null':
            return NULL
        if k == 'fn':
            return ('fn', e['f'], e['bn'] if 'bn' in e else e['n'])
        if k == 'cast':
            return self.const_eval(e['e'], t)
        if k == 'un' and e['op'] == '&':
            x = e['e']
            if x.get('k') == 'v':
                return ('addr', ('glob', x['n']))
            if x.get('k') == 'fn':
                return ('fn', x['f'], x.get('bn', x['n']))
        if k == 'v':
            return ('init', ('glob', e['n']))
        if k == 'il':
            if e.get('fs') is None:
                m = re.search(r'\[(\d+)\]$', e['t'])
                return ('arr', tuple(self.const_eval(x, '') for x in e['e']), int(m.group(1)) if m else len(e['e']))
            fs = [f for f in e['fs']]
            return ('rec', ('agg', e['t']), tuple(((f,), self.const_eval(x, '')) for f, x in zip(fs, e['e'])))
        if k == 'ctor' and re.match(r'^std::basic_string(_view)?$', e.get('clst', '')) and e['args']:
            return self.const_eval(e['args'][0], '')
        if k == 'ctor' and len(e.get('args', [])) == 0:
            return ('default', e.get('cls'))
        return ('opq', e.get('k') if isinstance(e, dict) else str(e))

    def write(self, loc, v):
        m = self.mem
        for k in [k for k in m if k != loc and k[0] in ('fld', 'idx', 'elem', 'mapval') and under(k, loc)]:
            del m[k]
        # decompose records
        if isinstance(v, tuple) and v and v[0] == 'rec':
            m[loc] = v[1]
            for path, x in v[2]:
                l = loc
                for f in path:
                    l = ('fld', l, f) if isinstance(f, str) else ('fld', l, str(f))
                m[l] = x
        else:
            m[loc] = v

    def copy_obj(self, src, dst):
        if src == dst:
            return
        v = self.base_value(src)
        sub = [(k, self.mem[k]) for k in self.mem if k != src and under(k, src)]
        self.write(dst, v)
        for k, x in sub:
            self.mem[rebase(k, src, dst)] = x

    def havoc(self, loc, why='h'):
        self.write(loc, (('havoc',) + (self.fresh('h')[1], loc)))

    # ------------------------------------------------------------------ facts / decisions
    def num(self, v):
        return int(v) if isinstance(v, str) else (v if v is not None else 0)

    def truthy(self, t):
        """Normalise a value used as a condition to (atom, polarity) or a bool."""
        pol = True
        while True:
            if not isinstance(t, tuple):
                return bool(t) == pol
            h = t[0]
            if h == 'c':
                return (t[1] != 0) == pol
            if h == 'null':
                return not pol
            if h in ('addr', 'lam', 's', 'fn', 'new'):
                return pol
            if h == 'not':
                t, pol = t[1], not pol
                continue
            if h == 'op':
                op, a, b = t[1], t[2], t[3]
                if op == '!=0':
                    if self.o.nonnull_elems and isinstance(a, tuple) and a[0] == 'init' and a[1][0] == 'elem':
                        return pol
                    return (t, pol)
                if op == '!=':
                    t, pol = ('op', '==', a, b), not pol
                    continue
                if op == '>=':
                    t, pol = ('op', '<', a, b), not pol
                    continue
                if op == '>':
                    t = ('op', '<', b, a)
                    continue
                if op == '<=':
                    t, pol = ('op', '<', b, a), not pol
                    continue
                if op in ('==', '<'):
                    (x, i), (y, j) = offset(a), offset(b)
                    if x == y and (i or j):
                        return (i == j if op == '==' else i < j) == pol
                if op == '==':
                    while a[0] == 'addr' and a[1][0] == 'deref':
                        a = a[1][1]
                    while b[0] == 'addr' and b[1][0] == 'deref':
                        b = b[1][1]
                    r = self.eq_known(a, b)
                    if r is None and self.o.nonnull_elems:
                        for x, y in ((a, b), (b, a)):
                            if y == NULL and x[0] == 'init' and x[1][0] == 'elem':
                                r = False
                    if r is not None:
                        return r == pol
                    # x == true / false
                    for x, y in ((a, b), (b, a)):
                        if y in (C0, C1) and self.is_bool(x):
                            t = x
                            if y == C0:
                                pol = not pol
                            break
                    else:
                        # iterator comparisons
                        n = self.iter_norm(a, b)
                        if n is not None:
                            t, q = n
                            pol = pol == q
                            if isinstance(t, bool):
                                return t == pol
                            if t[0] == 'op' and t[1] == '==':
                                return (self.order(t), pol)
                            continue
                        return (self.order(('op', '==', a, b)), pol)
                    continue
                if op == '<':
                    if a == b:
                        return not pol
                    if a[0] == 'c' and b[0] == 'c':
                        return (a[1] < b[1]) == pol
                    # 0 < x : x != 0 for sizes
                    if a == C0 and b[0] in ('size', 'len'):
                        t, pol = ('op', '==', b, C0), not pol
                        continue
                    if b == C0 and a[0] in ('size', 'len'):
                        return not pol
                    return (('op', '<', a, b), pol)
                if op in ('&', '|') and self.is_bool(a) and self.is_bool(b):
                    x = self.decide(a)
                    y = self.decide(b)
                    return ((x and y) if op == '&' else (x or y)) == pol
                if op == '&' :
                    return (('op', '!=0', t, C0), pol)
                return (('op', '!=0', t, C0), pol)
            if h == 'empty':
                t = ('op', '==', ('size', t[1]), C0)
                continue
            if h == 'bool':
                t = t[1]
                continue
            if h == 'has' and isinstance(t[2], tuple) and t[2] and t[2][0] == 'addr' and t[2][1][0] == 'obj' and not contains(t[1], t[2]) \
                    and 'mut' not in [x[0] for x in subterms(t[1])]:
                return not pol      # a fresh object is in no container yet
            if h in ('has', 'test', 'more'):
                return (t, pol)
            if self.o.nonnull_elems and h == 'init' and t[1][0] == 'elem':
                return pol
            return (('op', '!=0', t, C0), pol)

    def is_bool(self, t):
        if t[0] in ('not', 'has', 'bool', 'test', 'empty'):
            return True
        if t[0] == 'op' and t[1] in ('==', '!=', '<', '<=', '>', '>=', '!=0'):
            return True
        if t[0] == 'call' and len(t) > 3 and t[3] == 'bool':
            return True
        return t in (C0, C1)

    def order(self, t):
        a, b = t[2], t[3]
        ca = a[0] in ('c', 'null', 'end')
        cb = b[0] in ('c', 'null', 'end')
        if ca and not cb:
            a, b = b, a
        elif ca == cb and repr(a) > repr(b):
            a, b = b, a
        if b == NULL and a[0] != 'c':
            return ('op', '!=0', a, C0) + ('neg',)
        return ('op', '==', a, b)

    def iter_norm(self, a, b):
        for x, y in ((a, b), (b, a)):
            if y[0] == 'end':
                if x[0] == 'find' and x[1] == y[1]:
                    return ('has', x[1], x[2]), False
                if x[0] == 'end' and x[1] == y[1]:
                    return True, True
                if x[0] == 'begin' and x[1] == y[1]:
                    return ('op', '==', ('size', x[1]), C0), True
                if x[0] == 'iter' and x[1] == y[1]:
                    if x[3][0] == 'it':
                        return False, True
                    from .model import size_of
                    return ('op', '==', x[3], size_of(x[1])), True
        return None

    def eq_known(self, a, b):
        if a == b:
            return True
        if a[0] == 'c' and b[0] == 'c':
            return a[1] == b[1]
        for x, y in ((a, b), (b, a)):
            if y[0] == 'null':
                if x[0] in ('addr', 'new', 'lam', 'fn', 's'):
                    if x[0] == 'addr' and x[1][0] == 'deref':
                        return None
                    if x[0] == 'addr' and x[1][0] == 'fld' and self._base(x[1])[0] == 'deref' and False:
                        return None
                    return False
                if x[0] == 'c':
                    return x[1] == 0
            if y[0] == 'c' and y[1] == 0 and x[0] in ('addr', 'new', 'fn'):
                return False
            if y[0] == 'c' and x[0] == 'null':
                return y[1] == 0
        if a[0] == 'fn' and b[0] == 'fn':
            return a[1] == b[1]
        if a[0] == 'typeid' and b[0] == 'typeid':
            return a[1] == b[1]
        if a[0] == 'fv' and b[0] == 'fv' and a[2] == b[2] and a[1][0] == 'typeid' and b[1][0] == 'typeid':
            return a[1][1] == b[1][1]
        if a[0] == 'addr' and b[0] == 'addr':
            x, y = self._base(a[1]), self._base(b[1])
            ka, kb = x[0] in ('var', 'glob', 'obj', 'tmp'), y[0] in ('var', 'glob', 'obj', 'tmp')
            if ka and kb and x != y:
                return False
            if a[1] == x and b[1] == y and ka != kb:
                # a local/new object against caller memory
                if (x[0] in ('obj', 'tmp') or y[0] in ('obj', 'tmp')):
                    return False
        for x, y in ((a, b), (b, a)):
            # what exists before the call cannot point to what the call creates
            if x[0] == 'addr' and self._base(x[1])[0] in ('var', 'obj', 'tmp'):
                if y[0] == 'init' or y[0] == 'addr' and self._base(y[1])[0] == 'deref' and self._base(y[1])[1][0] == 'init':
                    return False
        if a[0] == 'new' or b[0] == 'new':
            o = b if a[0] == 'new' else a
            if o[0] in ('init', 'new'):
                return False
        if a[0] == 's' and b[0] == 's':
            return a[1] == b[1]
        return None

    def _base(self, loc):
        while loc[0] in ('fld', 'idx', 'elem', 'mapval'):
            loc = loc[1]
        return loc

    def lookup(self, atom):
        f = self.facts
        if atom in f:
            return f[atom]
        if atom[0] == 'op' and atom[1] == '==':
            a, b = atom[2], atom[3]
            if b[0] == 'c':
                for k, v in f.items():
                    if v and k[0] == 'op' and k[1] == '==' and k[2] == a and k[3][0] == 'c' and k[3] != b:
                        return False
                if b == C0 and a[0] in ('size', 'len'):
                    for k, v in f.items():
                        if v and k[0] == 'op' and k[1] == '<' and k[3] == a:
                            return False
            # substitute known equalities with constants
        if atom[0] == 'op' and atom[1] == '<':
            a, b = atom[2], atom[3]
            if f.get(('op', '<', b, a)):
                return False
            if f.get(('op', '==', a, b)) or f.get(('op', '==', b, a)):
                return False
            ka = self.constof(a)
            kb = self.constof(b)
            if ka is not None and kb is not None:
                return ka < kb
            if kb == 0 and a[0] in ('size', 'len'):
                return False
        return None

    def constof(self, t):
        if t[0] == 'c':
            return t[1]
        for k, v in self.facts.items():
            if v and k[0] == 'op' and k[1] == '==' and k[2] == t and k[3][0] == 'c':
                return k[3][1]
        return None

    def decide(self, t, line=None):
        r = self.truthy(t)
        if isinstance(r, bool):
            return r
        atom, pol = r
        if len(atom) == 5:          # '!=0' with negation marker from ==null
            atom, pol = atom[:4], not pol
        if atom[0] == 'op' and atom[1] == '!=0':
            k = self.constof(atom[2])
            if k is not None:
                return (k != 0) == pol
        known = self.lookup(atom)
        if known is None:
            c = self.choice(2, atom) == 0
            known = c
            self.facts = dict(self.facts)
            self.facts[atom] = known
            self.branches.append((atom, known, self.fr().line, self.fr().fn))
        return known == pol

    def assume(self, t, val=True):
        """Add a fact; abort the path when it contradicts."""
        r = self.truthy(t)
        if isinstance(r, bool):
            if r != val:
                raise Abort('infeasible')
            return
        atom, pol = r
        if len(atom) == 5:
            atom, pol = atom[:4], not pol
        known = self.lookup(atom)
        if known is not None:
            if (known == pol) != val:
                raise Abort('infeasible')
            return
        self.facts = dict(self.facts)
        self.facts[atom] = (val == pol)

    def holds(self, t, facts=None):
        """Truth of a condition under given facts: True/False/None."""
        save, tr, ps, dc = self.facts, self.trace, self.pos, self.dec
        if facts is not None:
            self.facts = facts
        try:
            r = self.truthy(t)
            if isinstance(r, bool):
                return r
            atom, pol = r
            if len(atom) == 5:
                atom, pol = atom[:4], not pol
            if atom[0] == 'op' and atom[1] == '!=0':
                k = self.constof(atom[2])
                if k is not None:
                    return (k != 0) == pol
            k = self.lookup(atom)
            return None if k is None else (k == pol)
        finally:
            self.facts = save

    # ------------------------------------------------------------------ function bodies
    def body(self, fn, fr):
        self.steps += 1
        try:
            if fn.d.get('ctor') and (fn.d.get('inits') is not None):
                self.ctor_inits(fn, fr)
            if fn.body is not None:
                self.st(fn.body)
            v = None
        except Return as r:
            v = r.v
        if fn.d.get('dtor') and fr.this is not None:
            self.destroy_members(fr.this, fn.cls)
        return v

    def ctor_inits(self, fn, fr):
        if fn.d.get('dflt') and (fn.d.get('cc') or fn.d.get('mc')) and not fn.d.get('inits'):
            pass
        seen = set()
        for q in fn.d['inits']:
            if q.get('field'):
                seen.add(q['field'])
                loc = ('fld', fr.this, q['field'])
                if 'e' in q:
                    self.init_loc(loc, q['ft'], q['e'])
            elif q.get('e') is not None:
                self.ev_into(q['e'], fr.this, base=True)
        if not any(q.get('del') for q in fn.d['inits']) and not fn.d.get('dflt'):
            r = self.p.records.get(fn.cls)
            if r and not r.get('union'):
                for f in r['fields']:
                    if f['n'] and f['n'] not in seen and ('fld', fr.this, f['n']) not in self.mem:
                        self.mem[('fld', fr.this, f['n'])] = UNINIT

    def init_loc(self, loc, t, e):
        """Initialise memory at loc of type t from expression e."""
        if isref(t):
            v = self.ev(e)
            self.write(loc, ('addr', v.loc) if isinstance(v, LV) else v)
            return
        self.ev_into(e, loc)

    def ev_into(self, e, loc, base=False):
        k = e.get('k') if e else None
        if k is None:
            return
        if k in ('ctor', 'ictor', 'il', 'call', 'icall', 'pmcall', 'bind', 'full', 'cond', 'zero', 'lambda', 'stdil', 'darg', 'cast', 'opaque', 'throw'):
            v = self.ev(e, dest=loc)
            if isinstance(v, LV):
                if v.loc != loc:
                    self.copy_obj(v.loc, loc)
            elif v is not None:
                if not (base and v is UNIT):
                    self.write(loc, v)
            return
        v = self.ev(e)
        if isinstance(v, LV):
            self.copy_obj(v.loc, loc)
        else:
            self.write(loc, v)

    # ------------------------------------------------------------------ statements
    def st(self, s):
        if s is None:
            return
        self.steps += 1
        if self.steps > self.o.maxsteps:
            raise TooBig('step limit')
        k = s['k']
        if 'l' in s and s['l']:
            self.fr().line = s['l']
        getattr(self, 's_' + k, self.s_unknown)(s)

    def s_unknown(self, s):
        self.event('unknown', s.get('s', s['k']))

    def s_nop(self, s):
        pass

    def s_ostmt(self, s):
        self.event('unknown', s.get('s'))

    def scoped(self, f):
        """Run f(cleanups) and then the registered cleanups in reverse order, also on control transfer."""
        cl = []
        try:
            f(cl)
        except (Throw, Return, Break, Continue) as x:
            self.cleanup(cl, isinstance(x, Throw))
            raise
        self.cleanup(cl, False)

    unwinding = 0            # how many exceptions are being propagated by the code explored

    def cleanup(self, cl, unwinding):
        self.unwinding += bool(unwinding)
        try:
            for c in reversed(cl):
                c()
        finally:
            self.unwinding -= bool(unwinding)

    def s_blk(self, s):
        def f(cl):
            self.scopes_push(cl)
            try:
                for x in s['s']:
                    self.st(x)
            finally:
                self.scopes_pop()
        self.scoped(f)

    _scopes = None

    def scopes_push(self, cl):
        if self._scopes is None:
            self._scopes = []
        self._scopes.append(cl)

    def scopes_pop(self):
        self._scopes.pop()

    def full(self, f):
        """Evaluate a full-expression: temporaries are destroyed at its end."""
        cl = []
        self.temps.append(cl)
        try:
            try:
                r = f()
            finally:
                self.temps.pop()
        except (Throw, Return, Break, Continue) as x:
            self.cleanup(cl, isinstance(x, Throw))
            raise
        self.cleanup(cl, False)
        return r

    def s_expr(self, s):
        def f():
            self.ev(s['e'], discard=True)
        self.full(f)

    def s_decl(self, s):
        for v in s['v']:
            self.declare(v)

    def declare(self, v):
        fr = self.fr()
        if v.get('l'):
            fr.line = v['l']
        if v.get('sl'):
            loc = ('glob', 'sl:' + v['n'] + ':' + fr.fn.id)
            fr.vars[v['id']] = loc
            g = None
            if v.get('init') is not None and loc not in self.mem:
                self.event('static_init', v['n'], obj=loc)
                self.full(lambda: self.init_loc(loc, v['t'], v['init']))
                self.types[loc] = v['t']
                if re.search(r'(\*|\b(bool|int|long|short|char|unsigned|size_t|float|double))$', v['t']) and not re.match(r'const (?!.*\*$)', v['t']):
                    self.mem[loc] = ('init', loc)       # whatever an earlier call left there
            return
        loc = ('var', '%s@%d' % (v['n'], v['id']), fr.n)
        fr.vars[v['id']] = loc
        self.types[loc] = v['t']
        if 'sz' in v:
            self.layouts[loc] = v['sz'], v['al']
        for k in [k for k in self.mem if under(k, loc)]:
            del self.mem[k]
        if v.get('init') is not None:
            self.full(lambda: self.init_loc(loc, v['t'], v['init']))
        else:
            self.mem[loc] = UNINIT
        if v.get('bind'):
            # structured bindings: names refer into the object
            for b in v['bind']:
                fr.vars[b['id']] = ('bind', b['e'], len(self.frames) - 1)
        if not isref(v['t']) and (v.get('d') or self.std_dtor(v['t'])):
            self._scopes[-1].append(lambda: self.destroy(loc, v['t'], v.get('d'), v.get('l')))

    def cond_decl(self, s):
        if s.get('i'):
            self.st(s['i'])
        if s.get('cv'):
            self.declare(s['cv'])

    def cond(self, e):
        return self.full(lambda: self.decide(self.rv(e)))

    def s_if(self, s):
        def f(cl):
            self.scopes_push(cl)
            try:
                self.cond_decl(s)
                if self.cond(s['c']):
                    self.st(s['a'])
                elif s.get('b'):
                    self.st(s['b'])
            finally:
                self.scopes_pop()
        self.scoped(f)

    def conjuncts(self, c):
        """(first conjunct, rest or None) of a loop condition, as evaluators."""
        x = c
        while x.get('k') in ('cast', 'full', 'paren') and isinstance(x.get('e'), dict):
            x = x['e']
        if x.get('k') != 'bin' or x.get('op') != '&&':
            return (lambda: self.cond(c)), None
        parts = []

        def flat(e):
            if e.get('k') == 'bin' and e.get('op') == '&&':
                flat(e['a'])
                flat(e['b'])
            else:
                parts.append(e)
        flat(x)
        return (lambda: self.cond(parts[0])), (lambda: all(self.cond(y) for y in parts[1:]))

    def loop(self, site, cond, body, inc, first=True, rest=None):
        """Generic loop; see module docstring."""
        n = 0
        # constant-decided prefix
        while True:
            save_pos, save_tr = self.pos, len(self.trace)
            if first:
                d = self.peek(cond)
            else:
                d = True
            if d is None:
                break
            if not d or rest is not None and not rest():
                return
            first = True
            n += 1
            if n > 2:
                # an iteration that decides nothing and changes nothing is repeated for ever
                now = len(self.trace), len(self.events), {k: v for k, v in self.mem.items() if self._base(k)[0] != 'tmp'}
                if n > 3 and now == seen:
                    raise Abort('diverges')
                seen = now
            if n > self.o.unroll:
                if rest is None:
                    raise TooBig('loop bound')
                break
            try:
                self.run_body(body)
            except Break:
                return
            if inc:
                inc()
        # condition not constant: zero further iterations, or >=1
        if rest is not None:
            head0 = cond
            cond = lambda: head0() and rest()
        key = (site, tuple(f.fn.id for f in self.frames))
        if not cond():
            return
        # at least one more iteration: widen, then one generic iteration
        H = self.havocs.setdefault(key, {})
        more = self.choice(2, ('loop', site))   # 0: this is the first and generic; 1: after k>=1 earlier iterations
        if more == 1:
            if not H:
                raise Abort('infeasible')
            for loc in list(H):
                old = self.mem.get(loc)
                new = ('havoc', 'loop%s' % (site[-1],), loc)
                if isinstance(old, tuple) and old and old[0] in ('begin', 'iter') and (old[0] == 'begin' or old[3][0] in ('c', 'op', 'havoc')):
                    new = ('iter', old[1], old[2], new)
                self.write(loc, new)
            # facts about changed locations vanish with their values; condition must hold again
            if not cond():
                raise Abort('infeasible')
        head = dict(self.mem)
        try:
            self.run_body(body)
        except Break:
            return
        if inc:
            inc()
        # continuing path: record changed locations
        for k in set(head) | set(self.mem):
            if head.get(k) != self.mem.get(k) and self._visible(k, head):
                if k not in H:
                    H[k] = True
                    self.restart = True
        if cond():
            raise Abort('loopback')

    def _visible(self, k, head):
        b = self._base(k)
        if b[0] == 'var':
            # variables declared inside the body are dead at the head
            return any(under(x, b) for x in head)
        if b[0] == 'tmp':
            return False
        return True

    def peek(self, cond):
        """Truth of the condition if it needs no new decision."""
        save = (self.mem.copy(), self.facts, list(self.events), self.ntmp, self.nobj, list(self.branches), self.locks)
        p, t, dec = self.pos, list(self.trace), self.dec
        tl = len(self.temps[-1])

        class Need(BaseException):
            pass

        def ch(n, what=None):
            raise Need()
        old = self.choice
        self.choice = ch
        try:
            r = cond()
            ok = r
        except Need:
            ok = None
        finally:
            del self.choice
        self.mem, self.facts, self.events, self.ntmp, self.nobj, self.branches, self.locks = save
        self.pos, self.trace, self.dec = p, t, dec
        del self.temps[-1][tl:]
        if ok:
            # evaluate for its effects
            return cond()
        if ok is False:
            cond()
        return ok

    def run_body(self, body):
        try:
            body()
        except Continue:
            pass

    def s_while(self, s):
        fr = self.fr()

        def f(cl):
            self.scopes_push(cl)
            try:
                def c():
                    if s.get('cv'):
                        self.declare(s['cv'])
                    return self.cond(s['c'])
                rest = None
                if not s.get('cv'):
                    c, rest = self.conjuncts(s['c'])
                self.loop(('w', fr.fn.id, s.get('l')), c, lambda: self.st(s['a']), None, rest=rest)
            finally:
                self.scopes_pop()
        self.scoped(f)

    def s_do(self, s):
        fr = self.fr()
        self.loop(('d', fr.fn.id, id(s)), lambda: self.cond(s['c']), lambda: self.st(s['a']), None, first=False)

    def s_for(self, s):
        fr = self.fr()

        def f(cl):
            self.scopes_push(cl)
            try:
                if s.get('i'):
                    self.st(s['i'])
                cond, rest = self.conjuncts(s['c']) if s.get('c') else ((lambda: True), None)
                inc = (lambda: self.full(lambda: self.ev(s['n'], discard=True))) if s.get('n') else None
                self.loop(('f', fr.fn.id, s.get('l')), cond, lambda: self.st(s['a']), inc, rest=rest)
            finally:
                self.scopes_pop()
        self.scoped(f)

    def s_rfor(self, s):
        fr = self.fr()
        site = ('r', fr.fn.id, s.get('l'))

        def f(cl):
            self.scopes_push(cl)
            try:
                if s.get('i'):
                    self.st(s['i'])
                r = self.ev(s['r'])
                cloc = r.loc if isinstance(r, LV) else self.tmp(r)
                v = self.base_value(cloc)
                elems = None
                if isinstance(v, tuple) and v[0] == 'arr':
                    elems = [('idx', cloc, ('c', i)) for i in range(len(v[1]))]
                elif isinstance(v, tuple) and v[0] == 'stdil':
                    elems = [('idx', v[1], ('c', i)) for i in range(v[2])]
                m = re.search(r'\[(\d+)\]$', nocv(s['rt']))
                n = ARRAY.match(nocv(s['rt']))
                if elems is None and n and int(n.group(1)) <= self.o.unroll:
                    elems = [array_elem(self, cloc, ('c', i)) for i in range(int(n.group(1)))]
                if elems is None and m and int(m.group(1)) <= self.o.unroll:
                    elems = [('idx', cloc, ('c', i)) for i in range(int(m.group(1)))]
                self.event('iterate', s['rt'], obj=cloc, node=s)

                def bindvar(eloc):
                    v = s['v']
                    loc = ('var', '%s@%d' % (v['n'], v['id']), self.fr().n)
                    self.fr().vars[v['id']] = loc
                    if isref(v['t']):
                        self.mem[loc] = ('addr', eloc)
                    else:
                        self.copy_obj(eloc, loc)
                    if v.get('bind'):
                        for b in v['bind']:
                            self.fr().vars[b['id']] = ('bind', b['e'], len(self.frames) - 1)
                if elems is not None:
                    for el in elems:
                        bindvar(el)
                        try:
                            self.run_body(lambda: self.st(s['a']))
                        except Break:
                            break
                    return
                state = {'n': 0}
                V = self.base_value(cloc)
                self.iter_state = {}

                def cond():
                    # another element?  keyed per iteration count so that it is a fresh decision
                    state['n'] += 1
                    if state['n'] > 1:
                        self.event('cont', 'next', (), obj=cloc, mode='r', value=V, raw=None)
                    return self.decide(('more', V, ('c', state['n']), ('site',) + site[2:])) if state['n'] > 1 else \
                        not self.decide(('op', '==', ('size', V), C0))

                def body():
                    el = ('elem', cloc, ('it', V, site[2]))
                    for k in [k for k in self.mem if under(k, el)]:
                        del self.mem[k]
                    bindvar(el)
                    self.st(s['a'])
                self.loop(site, cond, body, None)
            finally:
                self.scopes_pop()
        self.scoped(f)

    def s_ret(self, s):
        fr = self.fr()
        if s.get('e') is None:
            raise Return(None)

        def f():
            rt = fr.fn.rt
            if isref(rt):
                v = self.ev(s['e'])
                return ('addr', v.loc) if isinstance(v, LV) else v
            if fr.ret is not None:
                self.ev_into(s['e'], fr.ret)
                return LV(fr.ret)
            if rt == 'void':
                self.ev(s['e'])
                return None
            v = self.rv(s['e'])
            if rt == 'bool' and v is not None:
                return v
            return v
        raise Return(self.full(f))

    def s_break(self, s):
        raise Break()

    def s_cont(self, s):
        raise Continue()

    def s_switch(self, s):
        def f(cl):
            self.scopes_push(cl)
            try:
                self.cond_decl(s)
                v = self.full(lambda: self.rv(s['c']))
                items = []

                def flat(x, out):
                    if x and x['k'] == 'blk':
                        for y in x['s']:
                            flat2(y, out)
                    else:
                        flat2(x, out)

                def flat2(y, out):
                    if y['k'] in ('case', 'default'):
                        out.append(('label', y))
                        flat2(y['a'], out)
                    else:
                        out.append(('st', y))
                flat(s['a'], items)
                start = None
                dflt = None
                for i, (kind, y) in enumerate(items):
                    if kind == 'label':
                        if y['k'] == 'default':
                            dflt = i
                        elif self.decide(('op', '==', v, self.rv(y['c']))):
                            start = i
                            break
                if start is None:
                    start = dflt
                if start is None:
                    return
                try:
                    for kind, y in items[start:]:
                        if kind == 'st':
                            self.st(y)
                except Break:
                    pass
            finally:
                self.scopes_pop()
        self.scoped(f)

    def s_try(self, s):
        nsc = len(self._scopes) if self._scopes else 0
        ntemp = len(self.temps)
        nfr = len(self.frames)
        try:
            self.st(s['a'])
        except Throw as e:
            del self.frames[nfr:]
            for h in s['h']:
                m = self.catches(h['t'], e.t)
                if m is None:
                    m = self.choice(2) == 0
                if m:
                    self.event('catch', h['t'], (('s', e.t),))

                    def f(cl):
                        self.scopes_push(cl)
                        self.fr_exc = getattr(self, 'fr_exc', []) + [e]
                        try:
                            if h.get('v'):
                                v = h['v']
                                loc = ('var', '%s@%d' % (v['n'], v['id']), self.fr().n)
                                self.fr().vars[v['id']] = loc
                                if isref(v['t']):
                                    self.mem[loc] = ('addr', ('exc', id(e) and 0))
                                else:
                                    self.mem[loc] = ('opq', 'exc')
                            self.st(h['a'])
                        finally:
                            self.scopes_pop()
                            self.fr_exc = self.fr_exc[:-1]
                    self.scoped(f)
                    return
            raise

    def catches(self, ht, t):
        if ht == '...':
            return True
        if t == '*':
            return None
        a, b = nocv(ht), nocv(t)
        if a == b or self.p.derives(b, a):
            return True
        if b not in self.p.records and a not in self.p.records:
            return None
        if a in ('std::exception', 'std::runtime_error', 'std::bad_cast', 'std::logic_error') and b in self.p.records:
            return self.p.derives(b, a) or None if not self.std_base(b, a) else True
        return False

    def std_base(self, b, a):
        todo, seen = [b], set()
        while todo:
            c = todo.pop()
            if c == a:
                return True
            if c == 'std::runtime_error' and a == 'std::exception' or c == 'std::bad_cast' and a == 'std::exception':
                return True
            if c in seen:
                continue
            seen.add(c)
            todo += self.p.bases(c)
        return False

    # ------------------------------------------------------------------ destruction
    def std_dtor(self, t):
        t = nocv(t)
        return t.startswith(LOCKS_X + LOCKS_S)

    def destroy(self, loc, t, d=None, line=None):
        t = nocv(t)
        if t.startswith(LOCKS_X + LOCKS_S):
            self.unlock(loc)
            return
        if t.startswith('std::unique_ptr'):
            v = self.read(loc)
            if v != NULL:
                self.event('uptr_dtor', t, (v,), obj=loc)
            return
        if d is None and t not in self.p.records:
            return
        f = self.p.funcs.get(d) if d else None
        if f is not None and f.bn in self.o.hooks:
            r = self.o.hooks[f.bn](self, {'k': 'dtor', 'n': f.n, 'bn': f.bn, 'args': []}, loc, [])
            if r is not NotImplemented:
                return
        if f is not None and (f.body is not None or f.d.get('dflt')) and f.bn not in self.o.stop and len(self.frames) < self.o.depth \
                and (not self.o.inline or self.o.inline(f)):
            self.call_fn(f, loc, [], None)
            return
        r = self.p.records.get(t)
        if f is None and r is not None and d is None:
            self.destroy_members(loc, t)
            return
        self.event('dtor', f.bn if f else t + '::{dtor}', (), obj=loc, cls=t)

    def destroy_members(self, loc, cls):
        r = self.p.records.get(cls)
        if not r:
            return
        for f in reversed(r['fields']):
            if not f['n'] or isref(f['t']):
                continue
            t = nocv(f['t'])
            if t.startswith(LOCKS_X + LOCKS_S + ('std::unique_ptr',)):
                self.destroy(('fld', loc, f['n']), t)
            elif t in self.p.records:
                dt = [m for m in self.p.records[t]['methods'] if '::~' in m['n']]
                if dt and dt[0]['f'] in self.p.funcs:
                    self.destroy(('fld', loc, f['n']), t, dt[0]['f'])
            elif t.endswith('(lambda)') or not re.match(r'^(unsigned |const |bool|char|short|int|long|float|double|void)', t) and not t.endswith('*') and (t.startswith('std::') or '::' in t):
                if self.o.__dict__.get('member_dtors'):
                    self.event('dtor', t + '::{dtor}', (), obj=('fld', loc, f['n']), cls=t)
        for b in reversed(r['bases']):
            t = b['t']
            if t in self.p.records:
                dt = [m for m in self.p.records[t]['methods'] if '::~' in m['n']]
                if dt and dt[0]['f'] in self.p.funcs:
                    self.destroy(loc, t, dt[0]['f'])

    # ------------------------------------------------------------------ locks
    def lock(self, holder, mloc, kind, recursive=False):
        held = [k for (m, k, h) in self.locks if m == mloc]
        self.event('lock', kind, (('addr', mloc),), obj=holder, x0=held, recursive=recursive)
        self.locks = self.locks + ((mloc, kind, holder),)
        # other threads may have run before the acquisition: the mutex' siblings are unknown again
        if mloc[0] == 'fld' and not held and self._base(mloc)[0] in ('deref', 'glob', 'init'):
            owner = mloc[1]
            self.epoch[owner] = self.epoch.get(owner, 0) + 1
            for k in [k for k in self.mem if k != mloc and k != owner and under(k, owner) and not self.const_field(k, owner)]:
                del self.mem[k]
            if owner[0] == 'glob' and (self.mem.get(owner) or ('',))[0] == 'obj0':
                self.types.setdefault(owner, self.mem[owner][1])
                del self.mem[owner]

    def const_field(self, k, owner):
        while k[1] != owner:
            k = k[1]
        return k[0] == 'fld' and k[2] in self.p.constfields()

    def unlock(self, holder):
        for i in range(len(self.locks) - 1, -1, -1):
            if self.locks[i][2] == holder:
                self.event('unlock', self.locks[i][1], (('addr', self.locks[i][0]),), obj=holder)
                self.locks = self.locks[:i] + self.locks[i + 1:]
                return

    # ------------------------------------------------------------------ expressions
    def tmp(self, v=None):
        self.ntmp += 1
        loc = ('tmp', self.ntmp)
        if v is not None:
            self.write(loc, v)
        return loc

    def rv(self, e):
        v = self.ev(e)
        if isinstance(v, LV):
            return self.read(v.loc)
        return v

    def lvof(self, e):
        v = self.ev(e)
        if isinstance(v, LV):
            return v.loc
        return self.tmp(v)

    def ev(self, e, dest=None, discard=False):
        if e is None:
            return None
        self.steps += 1
        if self.steps > self.o.maxsteps:
            raise TooBig('step limit')
        k = e['k']
        if e.get('l'):
            self.fr().line = e['l']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            self.event('unknown', k)
            return ('opq', k)
        if k in ('ctor', 'ictor', 'il', 'call', 'icall', 'pmcall', 'bind', 'full', 'cond', 'zero', 'lambda', 'stdil', 'darg', 'opaque', 'cast'):
            return m(e, dest)
        return m(e)

    def e_c(self, e):
        return ('c', self.num(e['v']))

    def e_null(self, e):
        return NULL

    def e_s(self, e):
        return LV(('strlit', e['v']))

    def e_fl(self, e):
        return ('c', e['v'])

    def e_this(self, e):
        return ('addr', self.fr().this)

    def e_zero(self, e, dest=None):
        t = nocv(e['t'])
        if t.endswith('*') or t == 'std::nullptr_t':
            return NULL
        if re.match(r'^(bool|char|unsigned|signed|short|int|long|float|double)', t):
            return C0
        if t == 'void':
            return None
        return ('zero', t)

    def e_fn(self, e):
        if e.get('b') is not None:
            self.ev(e['b'])
        return ('fn', e['f'], e.get('bn', e['n']))

    def e_v(self, e):
        fr = self.fr()
        g = e.get('g')
        loc = fr.vars.get(e['id'])
        if loc is None:
            if g in ('g', 'sl'):
                loc = ('glob', e['n'])
            else:
                # captured variable or unseen: search enclosing closures
                loc = ('glob' if g == 'o' else 'var', e['n'], -1) if g != 'b' else None
                if g == 'b' and e.get('be'):
                    return self.ev(e['be'])
                if g == 'o':
                    return ('opq', e['n'])
        if loc[0] == 'bind':
            return self.ev(loc[1])
        if isref(e['t']):
            v = self.read(loc)
            return LV(self.deref(v))
        return LV(loc)

    def e_m(self, e):
        if e.get('ar'):
            v = self.rv(e['b'])
            self.use_ptr(v, e)
            base = self.deref(v)
        else:
            x = self.ev(e['b'])
            base = x.loc if isinstance(x, LV) else self.tmp(x)
        if base[0] == 'iterpos':
            pass
        loc = ('fld', base, e['f'])
        if isref(e['t']):
            return LV(self.deref(self.read(loc)))
        return LV(loc)

    def use_ptr(self, v, e):
        if self.o.strict_deref:
            self.event('deref', 'deref', (v,), line=e.get('l'))

    def e_idx(self, e):
        b = self.ev(e['b'])
        i = self.rv(e['i'])
        v = self.read(b.loc) if isinstance(b, LV) else b
        base = self.deref(v) if isinstance(v, tuple) else v
        if base and base[0] == 'idx' and base[2] == C0:
            base = base[1]
        self.event('index', '[]', (i,), obj=base, line=e.get('l'))
        return LV(('idx', base, i))

    def e_un(self, e):
        op = e['op']
        if op == '&':
            x = e['e']
            if x.get('k') == 'fn':
                return self.e_fn(x)
            v = self.ev(x)
            if isinstance(v, LV):
                if v.loc[0] == 'deref':
                    return v.loc[1]
                return ('addr', v.loc)
            return v
        if op == '*':
            v = self.rv(e['e'])
            if v and v[0] == 'fn':
                return v
            self.use_ptr(v, e)
            return LV(self.deref(v))
        if op == '!':
            v = self.rv(e['e'])
            return self.neg(v)
        if op in ('++', '--'):
            l = self.ev(e['e'])
            old = self.read(l.loc)
            new = self.binop('+' if op == '++' else '-', old, C1)
            self.store(l.loc, new, e)
            return old if e.get('post') else l
        if op == '-':
            v = self.rv(e['e'])
            return ('c', -v[1]) if v[0] == 'c' else ('op', 'neg', v, C0)
        if op == '~':
            v = self.rv(e['e'])
            return ('c', ~v[1]) if v[0] == 'c' else ('op', '~', v, C0)
        v = self.rv(e['e'])
        return v

    def neg(self, v):
        if v[0] == 'not':
            return v[1] if self.is_bool(v[1]) else ('bool', v[1])
        if v[0] == 'c':
            return C0 if v[1] else C1
        if v[0] == 'op' and v[1] == '==':
            return ('op', '!=', v[2], v[3])
        if v[0] == 'op' and v[1] == '!=':
            return ('op', '==', v[2], v[3])
        return ('not', v)

    def binop(self, op, a, b):
        if a is None or b is None:
            return ('opq', op)
        if a[0] == 'c' and b[0] == 'c' and isinstance(a[1], (int, float)) and isinstance(b[1], (int, float)):
            x, y = a[1], b[1]
            try:
                r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y,
                     '<<': lambda: x << y, '>>': lambda: x >> y, '==': lambda: int(x == y), '!=': lambda: int(x != y), '<': lambda: int(x < y),
                     '>': lambda: int(x > y), '<=': lambda: int(x <= y), '>=': lambda: int(x >= y),
                     '/': lambda: x // y if y else None, '%': lambda: x % y if y else None}[op]()
                if r is not None:
                    return ('c', r)
            except KeyError:
                pass
        if op in ('==', '!=') and a[0] == 'addr' and b[0] == 'addr' and a[1][0] == 'glob' and b[1][0] == 'glob':
            return C1 if (a == b) == (op == '==') else C0
        if op in ('==', '!=') and b in (C0, C1) and a[0] in ('has', 'not') and self.is_bool(a):
            return a if (op == '==') == (b == C1) else ('not', a)
        if op in ('+', '-') and b == C0:
            return a
        if op == '+' and a == C0:
            return b
        if op == '-':
            (x, i), (y, j) = offset(a), offset(b)
            if x == y:
                return ('c', i - j)
        # (x + c1) + c2
        if op in ('+', '-') and b[0] == 'c' and a[0] == 'op' and a[1] in ('+', '-') and a[3][0] == 'c':
            c = (a[3][1] if a[1] == '+' else -a[3][1]) + (b[1] if op == '+' else -b[1])
            return a[2] if c == 0 else ('op', '+' if c > 0 else '-', a[2], ('c', abs(c)))
        return ('op', op, a, b)

    def store(self, loc, v, e):
        self.event('write', '=', (v,), obj=loc, line=e.get('l'))
        self.write(loc, v)

    def e_bin(self, e):
        op = e['op']
        if op == ',':
            self.ev(e['a'])
            return self.ev(e['b'])
        if op == '&&':
            if not self.decide(self.rv(e['a'])):
                return C0
            return C1 if self.decide(self.rv(e['b'])) else C0
        if op == '||':
            if self.decide(self.rv(e['a'])):
                return C1
            return C1 if self.decide(self.rv(e['b'])) else C0
        if op == '=':
            v = self.rv(e['b'])
            l = self.ev(e['a'])
            if not isinstance(l, LV):
                l = LV(self.tmp(l))
            self.store(l.loc, v, e)
            return l
        if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            v = self.rv(e['b'])
            l = self.ev(e['a'])
            self.store(l.loc, self.binop(op[:-1], self.read(l.loc), v), e)
            return l
        a = self.rv(e['a'])
        b = self.rv(e['b'])
        return self.binop(op, a, b)

    def e_pm(self, e):
        pm = self.rv(e['pm'])
        if e.get('ar'):
            base = self.deref(self.rv(e['b']))
        else:
            x = self.ev(e['b'])
            base = x.loc if isinstance(x, LV) else self.tmp(x)
        self.event('pmaccess', '.*', (pm,), obj=base)
        return LV(('fld', base, ('pm', pm)))

    def e_cond(self, e, dest=None):
        x = e['a'] if self.decide(self.rv(e['c'])) else e['b']
        if dest is not None:
            return self.ev(x, dest) if x['k'] in ('ctor', 'bind', 'call', 'il', 'cond', 'full', 'cast', 'icall', 'pmcall', 'lambda') else self.ev(x)
        return self.ev(x)

    def e_ld(self, e):
        v = self.ev(e['e'])
        if isinstance(v, LV):
            r = self.read(v.loc)
            if self.o.__dict__.get('on_read'):
                self.o.on_read(self, v.loc, r, e)
            return r
        return v

    def e_full(self, e, dest=None):
        # nested ExprWithCleanups: temporaries live to its end
        return self.full(lambda: self.keep(self.ev(e['e'], dest)))

    def keep(self, v):
        return v

    def e_bind(self, e, dest=None):
        loc = dest if dest is not None else self.tmp()
        v = self.ev(e['e'], loc)
        if not isinstance(v, LV):
            self.write(loc, v)
        elif v.loc != loc:
            self.copy_obj(v.loc, loc)
        if dest is None:
            self.types[loc] = e['t']
            self.temps[-1].append(lambda: self.destroy(loc, e['t'], e.get('d')))
        return LV(loc)

    def e_mat(self, e):
        inner = e['e']
        loc = self.tmp()
        self.types[loc] = e['t']
        # find a bind directly below: construct into loc and register destruction
        d = None
        x = inner
        while x and x['k'] in ('full', 'cast') and x['k'] == 'full':
            x = x['e']
        if inner['k'] == 'bind':
            d = inner.get('d')
            v = self.ev(inner['e'], loc)
            need = True
        else:
            v = self.ev(inner, loc)
            need = False
        if isinstance(v, LV):
            if v.loc != loc:
                if v.loc[0] == 'tmp' or inner['k'] in ('cast',):
                    return v
                self.copy_obj(v.loc, loc)
        else:
            self.write(loc, v if v is not None else UNIT)
        t = e['t']
        if need or self.std_dtor(t):
            c = (lambda: self.destroy(loc, t, d))
            if e.get('ext') and self._scopes:
                self._scopes[-1].append(c)
            else:
                self.temps[-1].append(c)
        return LV(loc)

    def e_darg(self, e, dest=None):
        return self.ev(e['e'], dest)

    def e_stdil(self, e, dest=None):
        v = self.ev(e['e'])
        loc = v.loc if isinstance(v, LV) else self.tmp(v)
        arr = self.base_value(loc)
        n = len(arr[1]) if isinstance(arr, tuple) and arr[0] == 'arr' else -1
        return ('stdil', loc, n)

    def e_lambda(self, e, dest=None):
        self.nobj += 1
        n = self.nobj
        fr = self.fr()
        vars = {}
        this = fr.this
        for c in e['caps']:
            if c.get('this'):
                continue
            if 'id' not in c:
                continue
            if c.get('ref'):
                x = c.get('e')
                v = self.ev(x) if x else LV(fr.vars.get(c['id']))
                vars[c['id']] = fr.vars.get(c['id'], v.loc if isinstance(v, LV) else self.tmp(v))
            else:
                loc = ('var', '%s@%s' % (c['n'], c['id']), 'c%d' % n)
                self.ev_into(c['e'], loc)
                vars[c['id']] = loc
        self.clos[n] = (vars, this)
        f = e['f']
        if e.get('gf'):
            f = e['gf'][0]
        return ('lam', f, n)

    def e_il(self, e, dest=None):
        t = nocv(e['t'])
        if e.get('fs') is None:
            if re.match(r'^(bool|char|unsigned|signed|short|int|long|float|double)', t) and not t.endswith(']'):
                return self.rv(e['e'][0]) if e['e'] else C0
            if t.endswith(']'):
                loc = dest if dest is not None else self.tmp()
                for k in [k for k in self.mem if under(k, loc)]:
                    del self.mem[k]
                vals = []
                for i, x in enumerate(e['e']):
                    l = ('idx', loc, ('c', i))
                    self.ev_into(x, l)
                    vals.append(self.read(l))
                for k in [k for k in self.mem if k != loc and under(k, loc) and k[0] == 'idx' and k[1] == loc]:
                    pass
                sub = {k: self.mem[k] for k in self.mem if k != loc and under(k, loc)}
                m = re.search(r'\[(\d+)\]$', t)
                self.mem[loc] = ('arr', tuple(vals), int(m.group(1)) if m else len(vals))
                return LV(loc)
            if len(e['e']) == 1:
                return self.ev(e['e'][0], dest)
            return self.e_zero({'t': t})
        loc = dest if dest is not None else self.tmp()
        self.write(loc, ('agg', t))
        rec = self.p.records.get(t)
        ft = {f['n']: f['t'] for f in rec['fields']} if rec else {}
        for f, x in zip(e['fs'], e['e']):
            if f.startswith('base:'):
                self.ev_into(x, loc, base=True)
                continue
            self.init_loc(('fld', loc, f), ft.get(f, ''), x)
        return LV(loc)

    def e_cast(self, e, dest=None):
        ck = e['ck']
        if ck == 'ToVoid':
            self.ev(e['e'], discard=True)
            return None
        v = self.ev(e['e'], dest) if dest is not None and e['e']['k'] in ('ctor', 'bind', 'call', 'il', 'cond', 'full', 'icall', 'pmcall', 'lambda') else self.ev(e['e'])
        if ck in ('ArrayToPointerDecay',):
            if isinstance(v, LV):
                if v.loc[0] == 'strlit':
                    if v.loc[1] == '__PRETTY_FUNCTION__':      # its text depends on the compiler: nothing is folded
                        return ('opq', '__PRETTY_FUNCTION__')
                    return ('s', v.loc[1])
                return ('addr', ('idx', v.loc, C0)) if False else ('addr', v.loc)
            return v
        if ck in ('PointerToBoolean', 'MemberPointerToBoolean'):
            x = self.val(v)
            if x[0] in ('addr', 'fn', 'new', 's'):
                if not (x[0] == 'addr' and self._base(x[1])[0] == 'deref' and x[1][0] == 'deref'):
                    return C1
            if x == NULL:
                return C0
            return ('op', '!=', x, NULL)
        if ck == 'IntegralToBoolean':
            x = self.val(v)
            if x[0] == 'c':
                return C1 if x[1] else C0
            if self.is_bool(x):
                return x
            return ('op', '!=', x, C0)
        if ck == 'IntegralCast':
            x = self.val(v)
            if x[0] == 'c' and isinstance(x[1], int):
                m = re.match(r'^(unsigned )', nocv(e['t']))
                bits = {'unsigned char': 8, 'unsigned short': 16, 'unsigned int': 32, 'unsigned long': 64}.get(nocv(e['t']))
                if bits:
                    return ('c', x[1] & ((1 << bits) - 1))
                return x
            a, b = INT_BITS.get(nocv(e['ft'])), INT_BITS.get(nocv(e['t']))
            if a and b and b < a:
                # what does not fit is cut off
                return ('op', 'trunc', x, ('c', b))
            return x
        if ck == 'ArrayToPointerDecay':
            return v
        if ck in ('BaseToDerived', 'DerivedToBase', 'UncheckedDerivedToBase', 'Dynamic', 'BitCast') or ck == 'NoOp' and self.o.casts:
            self.event('cast', ck, (('s', e['ft']), ('s', e['t'])), obj=(v.loc if isinstance(v, LV) else v), w=e['w'], line=e.get('l'))
            if self.o.casts and ck != 'NoOp':
                if isinstance(v, LV):
                    return LV(('deref', ('cast', ck, noref(e['ft']), noref(e['t']), ('addr', v.loc)))) if ck != 'BitCast' else v
                return ('cast', ck, e['ft'], e['t'], v) if ck != 'BitCast' else v
        if e['w'] == 'const':
            self.event('const_cast', ck, (('s', e['ft']), ('s', e['t'])), obj=(v.loc if isinstance(v, LV) else v), line=e.get('l'))
        elif e['w'] in ('static', 'c', 'reinterpret', 'func') and e.get('vc'):
            self.event('refcast', ck, (('s', e['ft']), ('s', e['t'])), obj=(v.loc if isinstance(v, LV) else v), vc=e['vc'], line=e.get('l'), w=e['w'])
        if ck == 'UserDefinedConversion' or ck == 'ConstructorConversion':
            return v
        return v

    def val(self, v):
        return self.read(v.loc) if isinstance(v, LV) else v

    def e_new(self, e):
        t = nocv(e['t'])
        pl = [self.rv(x) for x in e.get('pl', [])]
        n = None
        if e.get('arr'):
            n = self.rv(e['arr']) if isinstance(e['arr'], dict) else None
        if pl:
            loc = self.deref(pl[0])
            if pl[0] and pl[0][0] not in ('addr',):
                loc = ('deref', pl[0])
            self.construct(e, t, loc, placement=True)
            return ('addr', loc) if loc[0] != 'deref' else loc[1]
        self.nobj += 1
        loc = ('obj', self.nobj)
        self.types[loc] = t
        self.event('new', t, (), obj=loc, arr=bool(e.get('arr')), line=e.get('l'))
        if self.o.exc and self.o.new_throws:
            if self.choice(2) == 1:
                raise Throw('std::bad_alloc')
        try:
            self.construct(e, t, loc, placement=False)
        except Throw:
            self.event('free', t, (('addr', loc),), obj=loc, auto=True, line=e.get('l'))
            raise
        return ('addr', loc)

    def construct(self, e, t, loc, placement):
        i = e.get('init')
        self.event('construct', t, (), obj=loc, node=e, placement=placement, line=e.get('l'), arr=bool(e.get('arr')))
        if i is None:
            self.write(loc, UNINIT)
            return
        if i['k'] == 'ctor' and e.get('arr'):
            self.write(loc, ('opq', 'array'))
            return
        self.ev_into(i, loc)

    def e_del(self, e):
        v = self.rv(e['e'])
        self.event('delete', e['t'], (v,), arr=bool(e.get('arr')), d=e.get('d'), dn=e.get('dn'), line=e.get('l'))
        return None

    def e_throw(self, e):
        if e.get('e') is None:
            exc = getattr(self, 'fr_exc', [])
            self.event('rethrow', '', ())
            raise Throw(exc[-1].t if exc else '*', exc[-1].v if exc else None, e.get('l'))
        stop, self.in_throw = getattr(self, 'in_throw', False), True
        try:
            nev = len(self.events)
            x = e['e']
            v = None
            try:
                if not self.o.__dict__.get('throw_args'):
                    # the message expression has no effect on the analysed state
                    v = self.throw_value(x)
                else:
                    v = self.rv(x)
            finally:
                pass
        finally:
            self.in_throw = stop
        self.event('throw', nocv(e['t']), (v,) if v is not None else (), line=e.get('l'))
        raise Throw(nocv(e['t']), v, e.get('l'))

    def throw_value(self, x):
        """Evaluate the thrown expression; only explicitly thrown local values matter."""
        if x['k'] in ('ctor', 'bind', 'full', 'cast', 'mat'):
            y = x
            while y['k'] in ('bind', 'full', 'cast', 'mat'):
                y = y['e']
            if y['k'] == 'ctor' and (y.get('cc') or y.get('mc')):
                z = y['args'][0]
                while isinstance(z, dict) and z['k'] in ('bind', 'full', 'cast', 'mat'):
                    z = z['e']
                if z['k'] == 'ctor':
                    return None
                return self.rv(y['args'][0])
            return None
        return self.rv(x)

    def e_pdtor(self, e):
        x = self.ev(e['b'])
        return None

    def e_opaque(self, e, dest=None):
        if e['s'] in ('PackExpansionExpr', 'SizeOfPackExpr'):
            return ('opq', e['s'])
        if e['s'] == 'CXXNoexceptExpr':
            return ('opq', e['s'])
        for x in e['e']:
            self.ev(x)
        if e['s'] not in ('CXXTypeidExpr', 'GNUNullExpr', 'UnaryExprOrTypeTraitExpr', 'TypeTraitExpr'):
            self.event('unknown', e['s'])
        return ('opq', e['s'], e['t'])

    # ------------------------------------------------------------------ calls
    def arg_for(self, pt, a):
        """Evaluate argument a for parameter type pt. Returns value (address for references)."""
        if a is None:
            return None
        if pt is not None and isref(pt):
            v = self.ev(a)
            if isinstance(v, LV):
                return ('addr', v.loc)
            return ('addr', self.tmp(v))
        return self.rv(a)

    def obj_of(self, e):
        """Location of the object a member call is made on."""
        if e.get('obj') is None:
            return None
        if e.get('ar'):
            v = self.rv(e['obj'])
            self.use_ptr(v, e)
            return self.deref(v)
        x = self.ev(e['obj'])
        return x.loc if isinstance(x, LV) else self.tmp(x)

    def ret_value(self, e, v, dest):
        """Convert a callee result (value or address for reference results) to an expression value."""
        if isinstance(v, LV):
            return v
        if isref(e.get('t') or e.get('rt') or ''):
            return LV(self.deref(v)) if v is not None else LV(self.tmp())
        return v

    def e_call(self, e, dest=None):
        from . import model
        line = e.get('l')
        bn = e.get('bn') or re.sub(r'<.*$', '', e['n'])
        if self.o.hook:
            r = self.o.hook(self, e, bn, dest)
            if r is not NotImplemented:
                return r
        h = self.o.hooks.get(bn)
        fn = self.p.funcs.get(e['f'])
        target = self.resolve(e, fn)
        obj = self.obj_of(e) if e.get('obj') is not None else None
        if e.get('vm') and not e.get('qual'):
            t2 = self.vtarget(e, obj)
            if t2 is not None:
                fn = t2
                target = t2
            elif t2 is None and self.p.overriders.get(e['f']):
                target = None
        if fn is not None and target is None and not e.get('vm'):
            target = fn
        if h:
            args = self.args_of(e)
            r = h(self, e, obj, args)
            if r is not NotImplemented:
                self.fr().line = line or self.fr().line
                return self.ret_value(e, r, dest)
            return self.dispatch(e, bn, target, obj, args, dest)
        if bn in ('std::invoke', 'std::invoke_r'):
            low = self.lower_invoke(e)
            if low is not None:
                return self.ev(low, dest)
        # std model (evaluates its own arguments)
        if target is None or not (target.body or target.d.get('dflt')):
            r = model.call(self, e, bn, obj, dest)
            if r is not NotImplemented:
                return r
        args = self.args_of(e)
        return self.dispatch(e, bn, target, obj, args, dest)

    def lower_invoke(self, e):
        """The call std::invoke(f, args...) stands for, as a syntax node; None if not determined."""
        from .invoke import split
        A, pts = e.get('args', []), e.get('pt', [])
        if not A or len(pts) != len(A):
            return None
        t = pts[0].strip()
        while t.endswith('&'):
            t = t[:-1].strip()
        t = re.sub(r'^const\s+', '', t)
        base = {'l': e.get('l'), 't': e.get('t'), 'rt': e.get('rt'), 'nx': e.get('nx')}
        ld = lambda a: {'k': 'ld', 'e': a, 'l': e.get('l')}
        m = re.search(r'\((?:[\w:]+(?:<.*>)?::)?\*[^)]*\)', t) if not t.startswith('(lambda') else None
        if m and '::*' in m.group(0):
            if len(A) < 2 or '(' not in t[m.end():]:
                return None
            return dict(base, k='pmcall', fn={'k': 'pm', 'pm': ld(A[0]), 'b': A[1], 'ar': nocv(pts[1].rstrip('& ')).endswith('*'), 'l': e.get('l')}, args=A[2:])
        if m:
            ps = split(t[m.end():].strip()[1:].rsplit(')', 1)[0])
            args = [ld(a) if i < len(ps) and not isref(ps[i]) and nocv(re.sub('&', '', pts[i + 1]).strip()) in SCALARS else a for i, a in enumerate(A[1:])]
            return dict(base, k='icall', fn=ld(A[0]), args=args)
        cands = [f for f in self.p.funcs.values() if f.cls == t and f.bn.endswith('::operator()') and len(f.params) == len(A) - 1]
        if len(cands) > 1:
            return None
        f = cands[0] if cands else None
        n = f.n if f else t + '::operator()'
        return dict(base, k='call', n=n, bn=f.bn if f else n, f=f.id if f else n, obj=A[0], args=A[1:],
                    pt=[q['t'] for q in f.params] if f else pts[1:], cm=bool(f is None or f.cm))

    def args_of(self, e):
        pts = e.get('pt', [])
        out = []
        for i, a in enumerate(e.get('args', [])):
            pt = pts[i] if i < len(pts) else None
            out.append(self.arg_for(pt, a))
        return out

    def resolve(self, e, fn):
        if fn is None:
            return None
        return fn

    def vtarget(self, e, obj):
        """Statically known dynamic target of a virtual call, else None."""
        if self.o.vdispatch:
            r = self.o.vdispatch(self, e, obj)
            if r is not None:
                return r
        ov = self.p.all_overriders(e['f'])
        fn = self.p.funcs.get(e['f'])
        t = self.types.get(obj)
        if t:
            for c in [t] + self._basechain(t):
                for o in [e['f']] + ov:
                    f = self.p.funcs.get(o)
                    if f and f.cls == c:
                        return f
        if not ov and fn is not None and fn.body is not None:
            return fn
        return None

    def _basechain(self, c):
        out = []
        for b in self.p.bases(c):
            out.append(b)
            out += self._basechain(b)
        return out

    def can_inline(self, f):
        if f is None or (f.body is None and not f.d.get('dflt')):
            return False
        if f.bn in self.o.stop or f.n in self.o.stop:
            return False
        if len(self.frames) > self.o.depth:
            return False
        if sum(1 for x in self.frames if x.fn is f) >= self.o.reenter + (1 if f.lam else 0):
            return False
        if self.o.inline and not self.o.inline(f):
            return False
        return True

    def dispatch(self, e, bn, target, obj, args, dest):
        if target is not None and (target.d.get('cc') or target.d.get('mc')):
            pass
        if target is not None and bn.endswith('operator=') and (target.d.get('dflt')) and target.body is None:
            src = self.deref(args[0])
            self.event('copyassign', bn, args, obj=obj, cls=e.get('cls'))
            self.copy_obj(src, obj)
            return LV(obj)
        if self.can_inline(target):
            r = self.call_fn(target, obj, args, dest if self.byval_class(target.rt) else None, e)
            return self.ret_value(e, r, dest)
        return self.opaque_call(e, bn, target, obj, args, dest)

    def byval_class(self, rt):
        if isref(rt) or rt == 'void' or rt.endswith('*') or re.match(r'^(const )?(bool|char|unsigned|signed|short|int|long|float|double|std::nullptr_t|enum)\b', rt):
            return False
        return True

    def is_enum_or_scalar(self, rt):
        return not self.byval_class(rt)

    def call_fn(self, fn, obj, args, dest, e=None):
        self.nframe += 1
        ret = dest
        if ret is None and self.byval_class(fn.rt) and nocv(fn.rt) in self.p.records:
            ret = self.tmp()
        fr = Frame(fn, obj, self.nframe, ret)
        fr.line = fn.line
        if fn.lam:
            c = self.read(obj) if obj is not None else None
            if isinstance(c, tuple) and c and c[0] == 'lam':
                vars, this = self.clos[c[2]]
                fr.vars.update(vars)
                fr.this = this
        for i, q in enumerate(fn.params):
            loc = ('var', q['n'] or 'arg%d' % i, self.nframe)
            fr.vars[q['id']] = loc
            a = args[i] if i < len(args) else None
            if a is not None:
                self.write(loc, a)
        self.event('enter', fn.bn, args, obj=obj, callee=fn)
        self.frames.append(fr)
        sc = self._scopes
        self._scopes = []
        self.scopes_push([])
        try:
            v = self.body(fn, fr)
        except Throw as t:
            if fn.nx:
                self.event('terminate', 'std::terminate', (), line=t.line)
                raise Abort('terminate')
            raise
        finally:
            self._scopes = sc
            self.frames.pop()
        for i, q in enumerate(fn.params):
            if q.get('d') and not isref(q['t']):
                self.destroy(('var', q['n'] or 'arg%d' % i, fr.n), q['t'], q['d'])
        self.event('leave', fn.bn, (), obj=obj, res=v if not isinstance(v, LV) else ('addr', v.loc), callee=fn)
        return v

    def opaque_call(self, e, bn, target, obj, args, dest):
        line = e.get('l')
        pure = (e.get('cm') or obj is None) and True
        if self.o.exc and not e.get('nx') and not (target is not None and target.nx) and bn not in self.o.nothrow:
            if self.choice(2, ('throws', bn)) == 1:
                self.event('call', bn, args, obj=obj, node=e, threw=True, line=line, target=target)
                raise Throw('*', None, line)
        ev = self.event('call', bn, args, obj=obj, node=e, line=line, target=target)
        # effects: non-const object and non-const reference / pointer arguments to locals
        if obj is not None and not e.get('cm') and not e.get('st') and (obj in self.mem or self._base(obj)[0] in ('var', 'tmp')):
            self.havoc(obj)
        for a, pt in zip(args, e.get('pt', [])):
            if a and a[0] == 'addr' and isref(pt) and not pt.startswith('const ') and self._base(a[1])[0] in ('var', 'tmp', 'obj') and not pt.endswith('&&'):
                self.havoc(a[1])
        if (e.get('rt') or 'void') == 'void':
            res = None
        else:
            ident = tuple(args)
            o = () if obj is None else (('addr', obj),)
            impure = not (e.get('cm') or obj is None)
            res = ('call', bn, o + ident, e.get('rt')) if not impure else ('call', bn, o + ident, e.get('rt'), self.fresh('k')[1])
        ev.res = res
        return self.ret_value(e, res, dest)

    def e_icall(self, e, dest=None):
        f = self.rv(e['fn'])
        out = []
        args = [self.rv_or_addr(a, out) for a in e['args']]
        r = self.icall(e, f, args, dest)
        for loc in out:
            if not (isinstance(f, tuple) and f and f[0] == 'fn'):
                self.havoc(loc)
        return r

    def rv_or_addr(self, a, out=None):
        v = self.ev(a)
        if isinstance(v, LV):
            # a local scalar passed by reference may be written by the callee
            if out is not None and a.get('t') in SCALARS and self._base(v.loc)[0] in ('var', 'tmp'):
                out.append(v.loc)
            return ('addr', v.loc)
        return v

    def icall(self, e, f, args, dest):
        if isinstance(f, tuple) and f and f[0] == 'fn':
            fn = self.p.funcs.get(f[1])
            h = self.o.hooks.get(f[2])
            if h:
                r = h(self, e, None, args)
                if r is not NotImplemented:
                    return self.ret_value(e, r, dest)
            if self.can_inline(fn):
                pv = []
                for q, a in zip(fn.params, args):
                    if not isref(q['t']) and isinstance(a, tuple) and a[0] == 'addr' and not isptr(q['t']):
                        a = self.read(a[1])
                    pv.append(a)
                r = self.call_fn(fn, None, pv, dest if self.byval_class(fn.rt) else None, e)
                return self.ret_value(e, r, dest)
        if self.o.hook_icall if hasattr(self.o, 'hook_icall') else None:
            r = self.o.hook_icall(self, e, f, args, dest)
            if r is not NotImplemented:
                return r
        if self.o.exc and not e.get('nx') and not any(x and x[0] == 'fld' and x[2] in self.o.nothrow for x in subterms(f)):
            if self.choice(2, ('throws', 'icall')) == 1:
                self.event('icall', 'icall', args, obj=f, node=e, threw=True)
                raise Throw('*', None, e.get('l'))
        ev = self.event('icall', 'icall', args, obj=f, node=e)
        if e.get('t') == 'void':
            return None
        ev.res = ('call', 'icall', (f,) + tuple(args), e.get('t'), self.fresh('k')[1])
        return self.ret_value(e, ev.res, dest)

    def e_pmcall(self, e, dest=None):
        fn = e['fn']
        if fn['k'] == 'pm':
            pm = self.rv(fn['pm'])
            if fn.get('ar'):
                base = self.deref(self.rv(fn['b']))
            else:
                x = self.ev(fn['b'])
                base = x.loc if isinstance(x, LV) else self.tmp(x)
        else:
            pm, base = self.rv(fn), None
        out = []
        args = [self.rv_or_addr(a, out) for a in e['args']]
        if self.o.exc and self.choice(2, ('throws', 'pmcall')) == 1:
            self.event('pmcall', 'pmcall', args, obj=base, node=e, pm=pm, threw=True)
            raise Throw('*', None, e.get('l'))
        ev = self.event('pmcall', 'pmcall', args, obj=base, node=e, pm=pm)
        for loc in out:
            self.havoc(loc)
        if e.get('t') == 'void':
            return None
        ev.res = ('call', 'pmcall', (pm,) + tuple(args), e.get('t'), self.fresh('k')[1])
        return self.ret_value(e, ev.res, dest)

    def e_ctor(self, e, dest=None):
        from . import model
        loc = dest if dest is not None else self.tmp()
        t = nocv(e['t'])
        bn = e['bn']
        if not (self.fr().this == loc and self.fr().fn.d.get('ctor')):
            self.types[loc] = t
        if self.o.hook:
            r = self.o.hook(self, e, bn, loc)
            if r is not NotImplemented:
                return r if r is not None else LV(loc)
        h = self.o.hooks.get(bn)
        if h:
            args = self.args_of(e)
            r = h(self, e, loc, args)
            if r is not NotImplemented:
                return LV(loc)
        fn = self.p.funcs.get(e['f'])
        if fn is None or (fn.body is None and not fn.d.get('dflt')):
            r = model.ctor(self, e, t, loc)
            if r is not NotImplemented:
                return LV(loc)
        if (e.get('cc') or e.get('mc')) and (e.get('triv') or fn is not None and fn.d.get('dflt') and fn.body is None and not fn.d.get('inits')
                                             or fn is not None and fn.d.get('dflt') and nocv(e['t']) not in ()) and (fn is None or fn.d.get('dflt') or fn.body is None):
            if fn is None or fn.d.get('dflt'):
                a = self.ev(e['args'][0])
                src = a.loc if isinstance(a, LV) else self.tmp(a)
                inr = t in self.p.records
                if inr or e.get('triv'):
                    if not e.get('triv') or not inr or self.o.__dict__.get('log_copies'):
                        self.event('ctor', bn, (('addr', src),), obj=loc, cls=t, copy=bool(e.get('cc')), move=bool(e.get('mc')), node=e)
                    self.copy_obj(src, loc)
                    if e.get('mc'):
                        self.moved_members(src, t)
                    return LV(loc)
                args = [('addr', src)]
                return self.opaque_ctor(e, bn, t, loc, args)
        args = self.args_of(e)
        if self.can_inline(fn):
            try:
                for k in [k for k in self.mem if under(k, loc)]:
                    if not getattr(self, '_nobase', False):
                        if dest is not None and self.fr().this == loc:
                            break
                        del self.mem[k]
                if not (self.fr().this == loc and self.fr().fn.d.get('ctor')):
                    self.mem[loc] = ('obj0', t, loc)
                self.call_fn(fn, loc, args, None, e)
            except Throw:
                raise
            return LV(loc)
        return self.opaque_ctor(e, bn, t, loc, args)

    def moved_members(self, src, t):
        r = self.p.records.get(t)
        if not r:
            return
        for f in r['fields']:
            if nocv(f['t']).startswith('std::unique_ptr'):
                self.mem[('fld', src, f['n'])] = NULL

    def opaque_ctor(self, e, bn, t, loc, args):
        if self.o.exc and not e.get('nx') and self.choice(2, ('throws', bn)) == 1:
            self.event('ctor', bn, args, obj=loc, cls=t, copy=bool(e.get('cc')), move=bool(e.get('mc')), node=e, threw=True)
            raise Throw('*', None, e.get('l'))
        self.event('ctor', bn, args, obj=loc, cls=t, copy=bool(e.get('cc')), move=bool(e.get('mc')), node=e)
        if (e.get('cc') or e.get('mc')) and args and args[0][0] == 'addr':
            self.copy_obj(args[0][1], loc)
        else:
            self.write(loc, ('call', bn, tuple(args), t))
        return LV(loc)

    def e_ictor(self, e, dest=None):
        # inherited constructor: forward the parameters of the current (inheriting) constructor
        fr = self.fr()
        fn = self.p.funcs.get(e['f'])
        args = [self.read(fr.vars[q['id']]) for q in fr.fn.params]
        loc = dest if dest is not None else fr.this
        if self.can_inline(fn):
            self.call_fn(fn, loc, args, None, e)
            return LV(loc)
        self.event('ctor', e['bn'], args, obj=loc, cls=e['t'], copy=False, move=False, node=e)
        return LV(loc)
