"""Check context: obligations, violations, known findings, evidence."""
import contextlib, glob, json, os, re, sys, time, traceback
from . import prog as P
from .prog import Broken, VERIF, REPO
from .interp import Interp, Opts, TooBig, show, Event, Path


class Undecided(Exception):
    pass


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.obl = []           # (key, ok, where, text)
        self.undec = []
        self.samples = []
        self.counts = {}
        self.assume = []
        self.cov = {}
        self._prog = None
        self.tus = []
        self._cache = {}

    # ------------------------------------------------------------------ program
    def load(self, *witness, lib=True):
        tus = (P.lib_tus() if lib else []) + [os.path.join(VERIF, 'witness', w) for w in witness]
        self.tus = tus
        try:
            self._prog = P.load(tus)
        except P.Rejected as e:
            ls = [l.strip() for l in e.text.splitlines()]
            err = next((l for l in ls if 'error:' in l), '')
            at = next((l for l in ls if e.unit in l and ('requested here' in l or 'error:' in l)), '')
            self.bad('admissible client program', re.sub(r'.*?((?:include|src|witness)/[^:]*:\d+).*', r'\1', err),
                     'the headers do not accept it any more: %s; needed by %s' % (err.split('error:')[-1].strip(), at.replace(VERIF + '/', '')))
            raise Broken('witness rejected')
        self.tus = tus
        self.counts['units'] = len(tus)
        return self._prog

    @property
    def prog(self):
        return self._prog or self.load()

    def fns(self, bn, need=True, **kw):
        r = self.prog.fn(bn, **kw)
        r = [f for f in r if f.body is not None]
        if need and not r:
            raise Broken('anchor vanished: no definition of ' + bn)
        return r

    def explore(self, fn, this=None, args=None, setup=None, **opts):
        """Path summaries of fn, or None when the analysis gives up (recorded as undecided)."""
        try:
            ps = Interp(self.prog, Opts(**opts)).explore(fn, this=this, args=args, setup=setup)
        except TooBig as e:
            self.undecided(fn.n, fn.where(), 'analysis bound reached: %s' % e)
            return None
        except (RecursionError, KeyError, IndexError, TypeError, AttributeError, ValueError, AssertionError) as e:
            if os.environ.get('RTTI_DEBUG'):
                raise
            self.undecided(fn.n, fn.where(), 'construct not understood: %s' % traceback.format_exc(limit=-2).replace('\n', ' | '))
            return None
        self.count('functions')
        self.count('paths', len(ps))
        self.count('events', sum(len(p.events) for p in ps))
        endless = [q for q in ps if q.ctl == 'diverges']
        if endless:
            self.bad('%s: never ends' % fn.bn, fn.where(), 'a loop repeats without changing anything')
            ps = [q for q in ps if q.ctl != 'diverges']
        views = {('init', ('var', x['n'], 0)) for x in fn.params if 'basic_string_view' in x['t']}
        for q in ps if views else ():
            for e in q.events:
                if e.kind in ('write', 'copyassign') and e.obj is not None and e.obj[0] == 'glob' and str(e.obj[1]).startswith('sl:') and e.args and e.args[0] in views:
                    self.bad('%s: keeps its argument' % fn.bn, e.where(), 'a view of the caller\'s text is kept in the static %s after the call' % e.obj[1].split(':')[1])
        return ps

    # ------------------------------------------------------------------ results
    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def ok(self, key, where='', text=''):
        self.obl.append((key, True, where, text))

    def bad(self, key, where, text):
        """key: stable identification of the instance (function, construct), no line numbers."""
        self.obl.append((key, False, where, text))

    def req(self, cond, key, where, text):
        (self.ok if cond else self.bad)(key, where, text)
        return cond

    def undecided(self, key, where, why):
        if (key, where, why) not in self.undec:
            self.undec.append((key, where, why))

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    @contextlib.contextmanager
    def guard(self, key, where=''):
        """One obligation group: an unexpected shape makes it undecided instead of failing the run."""
        try:
            yield
        except Undecided as e:
            self.undecided(key, where, str(e))
        except TooBig as e:
            self.undecided(key, where, 'analysis bound reached: %s' % e)
        except (KeyError, IndexError, TypeError, AttributeError, ValueError, AssertionError, RecursionError):
            if os.environ.get('RTTI_DEBUG'):
                raise
            self.undecided(key, where, 'construct not understood: ' + traceback.format_exc(limit=-2).replace('\n', ' | '))


def known_findings(pid):
    """{key: text} of the recorded, unrepaired findings of a property."""
    out = {}
    f = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'finding: property=(\S+) key=\[(.*?)\] (.*)$', l.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def finish(ctx, rule_doc):
    pid = ctx.pid
    bad, seen = [], set()
    for key, ok, where, text in ctx.obl:
        if not ok and (key, where) not in seen:
            seen.add((key, where))
            bad.append((key, where, text))
    known = known_findings(pid)
    new = [b for b in bad if b[0] not in known]
    old = {}
    for b in bad:
        if b[0] in known:
            old.setdefault(b[0], b)
    nobl = len(ctx.obl)
    disch = sum(1 for o in ctx.obl if o[1])
    expl = rule_doc
    cov = {'explanation': expl, 'obligations': nobl, 'discharged': disch,
           'undecided': [{'what': k, 'where': w, 'why': y[:300]} for k, w, y in ctx.undec[:40]],
           'undecided_count': len(ctx.undec),
           'units_analysed': [t.replace(REPO + '/', '') for t in ctx.tus],
           'samples': ctx.samples or [o[0] + ' @ ' + o[2] for o in ctx.obl[:6]]}
    cov.update(ctx.counts)
    cov.update(ctx.cov)
    ev = {'property': pid, 'tier': ctx.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
          'coverage': cov, 'assumptions': ctx.assume, 'wall_s': round(time.time() - ctx.t0, 2), 'violations': len(new)}
    d = os.environ.get('RTTI_EVID') or os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d discharged, %d undecided; %s' % (
        pid, nobl, disch, len(ctx.undec), ', '.join('%s=%s' % kv for kv in sorted(ctx.counts.items()))))
    for k, w, y in ctx.undec:
        print('  undecided: %s (%s): %s' % (k, w, y[:400]))
    for k, b in old.items():
        print('KNOWN-FINDING: property=%s %s [%s]' % (pid, known[k], b[1]))
    if new:
        rd = os.path.join(d, 'replay')
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, pid + '.txt')
        with open(path, 'w') as f:
            f.write('property %s\nrule: %s\n\n' % (pid, rule_doc))
            for k, w, t in new:
                f.write('VIOLATED %s\n  at %s\n  %s\n\n' % (k, w, t))
        for k, w, t in new[:20]:
            print('  %s: %s: %s' % (w, k, t))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if not nobl and not ctx.undec:
        raise Broken('the rule matched nothing')
    return 0
