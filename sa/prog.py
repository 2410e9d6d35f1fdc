"""Program model: exports every analysed translation unit with the libTooling exporter and merges the
type-checked functions, records and globals into one table."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('RTTI_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
GCC10 = '/usr/lib/gcc/x86_64-linux-gnu/10'


class Rejected(Exception):
    """A client program of ours that the library's headers must accept does not type-check any more."""
    def __init__(self, unit, text):
        super().__init__('%s: %s' % (unit, text))
        self.unit, self.text = unit, text


class Broken(Exception):
    """The analysis itself cannot run (exit 2)."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def exporter():
    os.makedirs(BUILD, exist_ok=True)
    src = open(os.path.join(VERIF, 'tool/export.cpp'), 'rb').read()
    out = os.path.join(BUILD, 'export-' + hashlib.sha256(src).hexdigest()[:12])
    if not os.path.exists(out):
        r = sh(['bash', os.path.join(VERIF, 'tool/build.sh'), out])
        if r.returncode or not os.path.exists(out):
            raise Broken('exporter does not build:\n' + r.stdout[-2000:])
    return out


_gen = None


def gendir():
    """Directory with the generated headers rtti/export.h and rtti/version.h."""
    global _gen
    if _gen:
        return _gen
    d = os.path.join(REPO, '_build/include')
    if all(os.path.exists(os.path.join(d, 'rtti', h)) for h in ('export.h', 'version.h')):
        _gen = d
        return d
    d = os.path.join(BUILD, 'gen')
    os.makedirs(os.path.join(d, 'rtti'), exist_ok=True)
    with open(os.path.join(d, 'rtti/export.h'), 'w') as f:
        f.write('#pragma once\n#define RTTI_API\n#define RTTI_PRIVATE\n')
    with open(os.path.join(d, 'rtti/version.h'), 'w') as f:
        f.write('#pragma once\n')
    _gen = d
    return d


def flags():
    f = ['-std=c++17', '-w', '-Wno-invalid-constexpr', '-Wno-c++11-narrowing', '-I' + REPO + '/include', '-I' + gendir(), '-I' + REPO + '/src/private',
         '-I' + os.path.join(VERIF, 'witness')]
    if os.path.isdir(GCC10):
        f.append('--gcc-install-dir=' + GCC10)
    f.append('-resource-dir=' + (glob.glob('/usr/lib/llvm-18/lib/clang/*') or [''])[0])
    return f


_treehash = None


def treehash():
    global _treehash
    if _treehash is None:
        h = hashlib.sha256()
        fs = []
        for root in (REPO + '/src', REPO + '/include', gendir(), os.path.join(VERIF, 'witness')):
            for d, _, names in os.walk(root):
                for n in names:
                    fs.append(os.path.join(d, n))
        for f in sorted(fs):
            h.update(f.encode() + b'\0' + open(f, 'rb').read() + b'\0')
        _treehash = h.hexdigest()[:16]
    return _treehash


def export_tu(src, extra=()):
    exp = exporter()
    key = hashlib.sha256((src + '|' + treehash() + '|' + exp + '|' + ' '.join(extra)).encode()).hexdigest()[:20]
    cache = os.path.join(BUILD, 'cache')
    os.makedirs(cache, exist_ok=True)
    out = os.path.join(cache, key + '.json')
    if not os.path.exists(out):
        tmp = out + '.%d' % os.getpid()
        cmd = [exp, tmp, REPO + '/src:' + REPO + '/include:' + os.path.join(VERIF, 'witness'), src, '--'] + flags() + list(extra)
        r = sh(cmd, timeout=600)
        if r.returncode or not os.path.exists(tmp):
            return None, r.stdout
        os.replace(tmp, out)
    with open(out) as f:
        return json.load(f), ''


ANON = re.compile(r'\(anonymous namespace\)::')


def strip_anon(o):
    return ANON.sub('', o)


class Func:
    __slots__ = ('d', 'id', 'n', 'bn', 'cls', 'clst', 'loc', 'file', 'line', 'tu', 'body', 'params', 'nx', 'rt', 'ta', 'st', 'cm', 'lam', '_mut')

    def __init__(self, d, tu):
        self.d = d
        self.tu = tu
        self.id = d['f']
        self.n = d['n']
        self.bn = d.get('bn', re.sub(r'<.*$', '', d['n']) if not d['n'].startswith('operator') else d['n'])
        self.cls = d.get('cls')
        self.clst = d.get('clst')
        self.loc = d.get('loc', '')
        self.file, _, l = self.loc.rpartition(':')
        self.line = int(l) if l.isdigit() else 0
        self.body = d.get('body')
        self.params = d.get('params', [])
        ns = [q['n'] for q in self.params]
        for i, q in enumerate(self.params):
            if q['n'] and ns.count(q['n']) > 1:         # expanded pack
                q['n'] = '%s#%d' % (q['n'], i)
        self.nx = bool(d.get('nx'))
        self.rt = d.get('rt', 'void')
        self.ta = d.get('ta', [])
        self.st = bool(d.get('st'))
        self.cm = bool(d.get('cm'))
        self.lam = bool(d.get('lam'))

    def where(self):
        return '%s:%d' % (self.file.replace(REPO + '/', ''), self.line)

    def __repr__(self):
        return '<%s @%s>' % (self.n, self.where())


class Prog:
    def __init__(self):
        self.funcs = {}
        self.records = {}
        self.globals = {}
        self.tus = []
        self.bybn = {}
        self.overriders = {}
        self.globinit = {}

    def add(self, d):
        tu = d['tu']
        self.tus.append(tu)
        for f in d['funcs']:
            fid = f['f']
            if fid in self.funcs:
                o = self.funcs[fid]
                if o.body is None and f.get('body') is not None:
                    self.bybn[o.bn].remove(o)
                else:
                    continue
            fn = Func(f, tu)
            self.funcs[fid] = fn
            self.bybn.setdefault(fn.bn, []).append(fn)
            for o in f.get('ov', ()):
                self.overriders.setdefault(o, []).append(fid)
        for r in d['records']:
            self.records.setdefault(r['n'], r)
            for m in r['methods']:
                for o in m.get('ov', ()):
                    l = self.overriders.setdefault(o, [])
                    if m['f'] not in l:
                        l.append(m['f'])
        for g in d['globals']:
            self.globals.setdefault(g['qn'] if not g.get('ta') else g['qn'] + '<' + ', '.join(g['ta']) + '>', g)

    def fn(self, bn, **kw):
        """All functions with this base name satisfying the attribute filters."""
        r = list(self.bybn.get(bn, []))
        for k, v in kw.items():
            r = [f for f in r if (v(getattr(f, k)) if callable(v) else getattr(f, k) == v)]
        return r

    def constfields(self):
        if not hasattr(self, '_cf'):
            c, n = set(), set()
            for r in self.records.values():
                for f in r['fields']:
                    (c if f.get('const') and not f.get('mut') else n).add(f['n'])
            self._cf = c - n
        return self._cf

    def bases(self, cls):
        r = self.records.get(cls)
        return [b['t'] for b in r['bases']] if r else []

    def derives(self, cls, base):
        """cls derives from base (or is it); base compared on the exact printed name."""
        seen, todo = set(), [cls]
        while todo:
            c = todo.pop()
            if c == base:
                return True
            if c in seen:
                continue
            seen.add(c)
            todo += self.bases(c)
        return False

    def all_overriders(self, fid):
        out, todo = [], [fid]
        while todo:
            for o in self.overriders.get(todo.pop(), []):
                if o not in out:
                    out.append(o)
                    todo.append(o)
        return out


def _walk_strip(x):
    if isinstance(x, str):
        return ANON.sub('', x) if '(anonymous namespace)' in x else x
    if isinstance(x, list):
        return [_walk_strip(y) for y in x]
    if isinstance(x, dict):
        return {k: _walk_strip(v) for k, v in x.items()}
    return x


def load(tus):
    """tus: list of source paths -> merged Prog. A library unit that does not parse is analysis-broken."""
    from concurrent.futures import ThreadPoolExecutor
    exporter(); treehash()
    p = Prog()
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(export_tu, tus))
    for t, (d, err) in sorted(zip(tus, res), key=lambda x: x[0].startswith(VERIF + '/witness/')):
        if d is None and t.startswith(VERIF + '/witness/') and 'file not found' not in err:
            raise Rejected(t, err)
        if d is None:
            raise Broken('cannot analyse %s:\n%s' % (t, err[-3000:]))
        p.add(_walk_strip(d))
    return p


def lib_tus():
    r = sorted(glob.glob(REPO + '/src/*.cpp'))
    if len(r) < 8:
        raise Broken('only %d library units found' % len(r))
    return r


def compile_ok(code, extra=(), name='snippet'):
    """Does a client program type-check against the public headers? (frontend only; nothing is run)"""
    cmd = ['clang++-18' if shutil.which('clang++-18') else 'clang++'] + \
        [f for f in flags() if not f.startswith('-resource-dir') and 'src/private' not in f] + list(extra) + ['-fsyntax-only', '-x', 'c++', '-']
    r = subprocess.run(cmd, input=code, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    return r.returncode == 0, r.stdout


class Snippets:
    """Type-checks many small programs that share a prelude (frontend only; nothing is run)."""
    def __init__(self, prelude, extra=()):
        self.dir = tempfile.mkdtemp(prefix='rtti-snip-')
        self.extra = list(extra)
        self.ready = {}
        self.prelude = prelude

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

    def _cmd(self, extra):
        cxx = 'clang++-18' if shutil.which('clang++-18') else 'clang++'
        return [cxx] + [f for f in flags() if not f.startswith('-resource-dir') and 'src/private' not in f and 'no-' not in f[:5]] + self.extra + list(extra) + ['-ferror-limit=5']

    def header(self, extra=()):
        """Precompiled prelude; Broken if the public headers do not compile at all."""
        k = tuple(extra)
        if k not in self.ready:
            h = os.path.join(self.dir, 'p%d.h' % len(self.ready))
            open(h, 'w').write(self.prelude)
            r = subprocess.run(self._cmd(extra) + ['-x', 'c++-header', h, '-o', h + '.pch'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
            if r.returncode:
                raise Broken('prelude does not compile:\n' + r.stdout[-2000:])
            self.ready[k] = h + '.pch'
        return self.ready[k]

    def one(self, code, extra=()):
        pch = self.header(extra)
        r = subprocess.run(self._cmd(extra) + ['-include-pch', pch, '-fsyntax-only', '-x', 'c++', '-'], input=code, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        if r.returncode and 'error:' not in r.stdout:
            raise Broken('compiler failed: ' + r.stdout[-800:])
        errs = [l for l in r.stdout.split('\n') if 'error:' in l]
        return r.returncode == 0, (errs or [''])[0].replace(REPO + '/', '')[-220:]

    def all(self, codes):
        """codes: [(code, extra)] -> [(compiles, first error)]"""
        from concurrent.futures import ThreadPoolExecutor
        for x in {tuple(e) for _, e in codes}:
            self.header(x)
        with ThreadPoolExecutor(8) as ex:
            return list(ex.map(lambda c: self.one(*c), codes))
