"""Loads the facts dumped by tool/extract: functions (CFG + resolved nodes),
records, enums and globals of the current /repo tree."""
import hashlib, json, os, re, subprocess, sys, glob, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CORE = REPO + '/framework/core'
DRIVERS = VERIF + '/drivers'
FLAGS = ['-DPLAIN_BUILD_AS_DLL', '-DPLAIN_CREATE_SHARED_LIBRARY=1',
         '-I' + CORE + '/include', '-I' + CORE, '-std=gnu++23', '-fPIC',
         '-DPLAIN_HAS_PTHREAD=1', '-fexceptions', '-DPLAIN_CORE', '-w', '-g0',
         '-resource-dir', '/usr/lib/llvm-18/lib/clang/18']


class AnalysisError(Exception):
    """The analysis could not be carried out (never a verdict)."""


def strip_t(q):
    """Remove template argument lists and inline namespaces from a name."""
    if '<' in q:
        out, d = [], 0
        i, n = 0, len(q)
        while i < n:
            ch = q[i]
            if d == 0 and q.startswith('operator', i) and (i == 0 or not (q[i-1].isalnum() or q[i-1] == '_')):
                m = re.match(r'operator(<=>|->\*|->|<<=|>>=|<<|>>|<=|>=|<|>)', q[i:])
                if m:
                    out.append(m.group(0)); i += len(m.group(0)); continue
            if ch == '<': d += 1
            elif ch == '>': d -= 1
            elif d == 0: out.append(ch)
            i += 1
        q = ''.join(out)
    return q.replace('std::__cxx11::', 'std::').replace('std::__1::', 'std::').replace('(anonymous namespace)::', '').replace('std::_V2::', 'std::')


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()


def build_tool():
    src = VERIF + '/tool/extract.cc'
    data = open(src, 'rb').read()
    want = sha(data)[:16]
    for cand in (VERIF + '/tool/extract.bin', VERIF + '/.cache/extract.bin'):
        stamp = cand + '.sha'
        if os.path.exists(cand) and os.path.exists(stamp) and open(stamp).read().strip() == want:
            if not os.access(cand, os.X_OK):
                try: os.chmod(cand, 0o755)
                except OSError: continue
            r = subprocess.run([cand, '/nonexistent'], capture_output=True)
            if r.returncode in (0, 1, 2):
                return cand
    os.makedirs(VERIF + '/.cache', exist_ok=True)
    out = VERIF + '/.cache/extract.bin'
    tmp = out + '.%d' % os.getpid()
    cmd = ['clang++-18', '-std=c++17', '-O1', '-fno-rtti', '-I/usr/lib/llvm-18/include', src, '-o', tmp,
           '/usr/lib/llvm-18/lib/libclang-cpp.so.18.1', '/usr/lib/llvm-18/lib/libLLVM.so.18.1', '-s']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisError('extractor does not build: ' + r.stderr[-2000:])
    os.replace(tmp, out)
    open(out + '.sha', 'w').write(want)
    return out


def source_files():
    """Every translation unit of the core library, plus the drivers that
    instantiate its public templates."""
    fs = sorted(glob.glob(CORE + '/src/**/*.cc', recursive=True))
    if len(fs) < 40:
        raise AnalysisError('only %d core sources found under %s' % (len(fs), CORE))
    return fs, sorted(glob.glob(DRIVERS + '/*.cc'))


INC = re.compile(rb'^\s*#\s*include\s*["<]([^">]+)[">]', re.M)


class Closure:
    """Content hash of a source file and everything of the repository (or the
    drivers) it includes, found by resolving its #include lines."""

    def __init__(self):
        self.inc, self.dig = {}, {}

    def scan(self, f):
        r = self.inc.get(f)
        if r is None:
            data = open(f, 'rb').read()
            self.dig[f] = hashlib.sha256(data).digest()
            r = set()
            for m in INC.findall(data):
                n = m.decode(errors='replace')
                for d in (CORE + '/include', CORE, os.path.dirname(f), CORE + '/src'):
                    c = os.path.normpath(d + '/' + n)
                    if os.path.isfile(c): r.add(c)
            self.inc[f] = r
        return r

    def key(self, f):
        seen, wl = {f}, [f]
        while wl:
            for g in self.scan(wl.pop()):
                if g not in seen: seen.add(g); wl.append(g)
        h = hashlib.sha256()
        for g in sorted(seen):
            h.update(g.encode()); h.update(self.dig[g])
        return h


def extract():
    """Facts files, one per translation unit, for the current tree.  A unit is
    parsed again whenever it or anything it includes changed."""
    tool = build_tool()
    core, drv = source_files()
    files = core + drv
    cache = VERIF + '/.cache'
    os.makedirs(cache, exist_ok=True)
    salt = (' '.join(FLAGS)).encode() + open(VERIF + '/tool/extract.cc', 'rb').read()
    cl = Closure()
    outs, todo = {}, []
    for f in files:
        h = cl.key(f); h.update(salt)
        outs[f] = '%s/tu-%s.jsonl' % (cache, h.hexdigest()[:28])
        if not os.path.exists(outs[f]): todo.append(f)

    def run(f):
        tmp = '%s.%d' % (outs[f], os.getpid())
        with open(tmp, 'wb') as fo:
            r = subprocess.run([tool, CORE + ',' + DRIVERS, f, '--'] + FLAGS, stdout=fo, stderr=subprocess.PIPE)
        if r.returncode != 0:
            os.remove(tmp)
            return 'clang cannot parse %s: %s' % (f, r.stderr.decode(errors='replace')[-3000:])
        os.replace(tmp, outs[f])
        return None
    if todo:
        todo.sort(key=lambda f: (f not in drv, -os.path.getsize(f)))
        with ThreadPoolExecutor(max(8, os.cpu_count() or 8)) as ex:
            errs = [e for e in ex.map(run, todo) if e]
        if errs: raise AnalysisError(errs[0])
        prune(cache, set(outs.values()))
    return [outs[f] for f in files], files


def prune(cache, keep, limit=400):
    fs = [f for f in glob.glob(cache + '/tu-*.jsonl') if f not in keep]
    fs.sort(key=lambda f: os.path.getmtime(f))
    for f in fs[:max(0, len(fs) - limit)]:
        try: os.remove(f)
        except OSError: pass


class Fn:
    __slots__ = ('fid', 'q', 'sq', 'file', 'line', 'eline', 'params', 'cls', 'scls', 'acc', 'static', 'virt', 'ctor',
                 'dtor', 'lambda_', 'encl', 'ov', 'ret', 'ext', 'noexc', 'coro', 'nodes', 'blocks', 'entry', 'exit',
                 'nocfg', 'tries', '_loops', 'const', 'clst', 'targs', 'nodeblock', 'try_of', 'handler_block', '_preds', '_rpo')

    def __init__(self, j):
        g = j.get
        self.fid = j['fid']; self.q = j['q']; self.sq = strip_t(j['q'])
        self.file = j['file']; self.line = j['line']; self.eline = j['eline']
        self.params = j['params']; self.cls = g('cls'); self.scls = strip_t(self.cls) if self.cls else None
        self.clst = g('clst')
        self.acc = g('acc'); self.static = g('static', False); self.virt = g('virt', False)
        self.const = g('const', False)
        self.ctor = g('ctor', False); self.dtor = g('dtor', False); self.lambda_ = g('lambda', False)
        self.encl = g('encl'); self.ov = g('ov', []); self.ret = j['ret']; self.ext = j['ext']
        self.noexc = g('noexc', False); self.coro = g('coro', False)
        self.nodes = j['nodes']; self.nocfg = g('nocfg', False)
        self.blocks = {b['id']: b for b in j['blocks']}
        self.entry = g('entry'); self.exit = g('exit'); self.tries = g('tries', [])
        self._loops = None; self.nodeblock = None; self.try_of = None; self.handler_block = None; self._preds = None; self._rpo = None

    @property
    def name(self):
        return self.sq.rsplit('::', 1)[-1]

    def where(self, line=None):
        f = self.file
        if f.startswith(REPO + '/'): f = f[len(REPO) + 1:]
        return '%s:%d' % (f, line if line is not None else self.line)

    def preds(self):
        if self._preds is None:
            p = {b: [] for b in self.blocks}
            for b in self.blocks.values():
                for s in b['s']:
                    if s >= 0: p[s].append(b['id'])
            self._preds = p
        return self._preds

    def loops(self):
        """{head: set(body blocks)} from DFS back edges (natural loops)."""
        if self._loops is not None: return self._loops
        color, back = {}, []
        stack = [(self.entry, iter([s for s in self.blocks[self.entry]['s'] if s >= 0]))]
        color[self.entry] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if color.get(s) == 1: back.append((b, s))
                elif s not in color:
                    color[s] = 1
                    stack.append((s, iter([x for x in self.blocks[s]['s'] if x >= 0])))
                    break
            else:
                color[b] = 2; stack.pop()
        preds = self.preds()
        loops = {}
        for tail, head in back:
            body = loops.setdefault(head, {head})
            wl = [tail]
            while wl:
                x = wl.pop()
                if x in body: continue
                body.add(x)
                wl.extend(preds[x])
        self._loops = loops
        return loops

    def rpo(self):
        """block -> reverse post-order index (exception edges included)."""
        if self._rpo is not None: return self._rpo
        self.prep_tries()
        ex = {}
        for b in self.blocks.values():
            l = []
            for e in b['e']:
                n = e if isinstance(e, int) else e.get('n', -1)
                for t in self.try_of.get(n, ()):
                    for h in self.tries[t]['h']:
                        hb = self.handler_block.get(h)
                        if hb is not None and hb not in l: l.append(hb)
            ex[b['id']] = l
        order, seen = [], set()
        for root in [self.entry] + sorted(self.blocks):
            if root in seen: continue
            seen.add(root)
            # real successors are visited last so that they come first
            stack = [(root, iter(ex[root] + [s for s in self.blocks[root]['s'] if s >= 0]))]
            while stack:
                b, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(ex[s] + [x for x in self.blocks[s]['s'] if x >= 0])))
                        break
                else:
                    order.append(b); stack.pop()
            if root == self.entry: main = order[::-1]; order = []
        allb = main + order[::-1]
        self._rpo = {b: i for i, b in enumerate(allb)}
        return self._rpo

    def prep_tries(self):
        if self.try_of is not None: return
        self.try_of = {}
        for i, t in enumerate(self.tries):       # outer tries come first
            for n in t['nodes']:
                self.try_of.setdefault(n, []).append(i)
        self.handler_block = {}
        for b in self.blocks.values():
            if 'lab' in b: self.handler_block[b['lab']] = b['id']


class Program:
    def __init__(self):
        paths, self.files = extract()
        self.raw = {}           # fid -> json line
        self._fn = {}
        self.records = {}
        self.enums = {}
        self.gvars = {}
        self.by_q = {}
        self.meta = {}
        self.overrides = {}     # base fid -> [overriding fids]
        for path in paths: self.load(path)
        self.shadow = self.shadowed()
        self._callers = None
        self._gen = None

    def load(self, path):
        seen = self.raw
        with open(path) as f:
            for line in f:
                if line.startswith('{"fid":"'):
                    fid = line[8:line.index('"', 8)]
                    if fid in seen: continue
                    seen[fid] = 1
                j = json.loads(line)
                if 'enum' in j:
                    self.enums[j['enum']] = {x['name']: x['v'] for x in j['vals']}
                elif 'rec' in j:
                    self.records.setdefault(j['rec'], j)
                elif 'gvar' in j:
                    self.gvars.setdefault(j['gvar'], j)
                elif 'fid' in j:
                    if j['fid'] in self._fn: continue
                    fn = Fn(j)
                    self._fn[fn.fid] = fn
                    self.by_q.setdefault(fn.sq, []).append(fn)
                    for o in fn.ov:
                        self.overrides.setdefault(o, []).append(fn.fid)


    def shadowed(self):
        """Members that hide a member of the same name of a base class."""
        names, bases, r = {}, {}, set()
        for x in self.records.values():
            q = strip_t(x['q'])
            names.setdefault(q, set()).update(f['name'] for f in x['fields'])
            bases.setdefault(q, set()).update(strip_t(b) for b in x['bases'])
        for q, ns in names.items():
            wl, seen = list(bases[q]), set()
            while wl:
                b = wl.pop()
                if b in seen: continue
                seen.add(b)
                wl.extend(bases.get(b, ()))
                for n in ns & names.get(b, set()): r.add(q + '::' + n)
        return r

    def fn(self, fid):
        return self._fn.get(fid)

    def closure(self, fid):
        """The call operator of a lambda; of a generic one, its instantiation."""
        f = self._fn.get(fid)
        if f is not None or fid is None or 'type-parameter' not in fid: return f
        if self._gen is None:
            self._gen = {}
            for k, g in self._fn.items():
                if g.lambda_ and '::operator()<' in k and '@' in k: self._gen.setdefault(k[k.index('@'):], g)
        return self._gen.get(fid[fid.index('@'):])

    def all(self):
        return self._fn.values()

    def find(self, sq):
        return self.by_q.get(sq, [])

    def one(self, sq):
        r = self.by_q.get(sq, [])
        if not r:
            raise AnalysisError('anchor vanished: function %s' % sq)
        return r[0]

    def need(self, sq, n=1):
        r = self.by_q.get(sq, [])
        if len(r) < n:
            raise AnalysisError('anchor vanished: %s (%d definitions, need %d)' % (sq, len(r), n))
        return r

    def callers(self):
        if self._callers is None:
            c = {}
            for f in self.all():
                for n in f.nodes:
                    if n and n.get('fid') and n['k'] != 'LambdaExpr':
                        c.setdefault(n['fid'], set()).add(f.fid)
                    elif n and n.get('d', {}).get('fid'):
                        c.setdefault(n['d']['fid'], set()).add(f.fid)
            self._callers = c
        return self._callers

    def record(self, q):
        for r in self.records.values():
            if strip_t(r['q']) == q: return r
        return None
