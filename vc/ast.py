"""Loads the exporter's JSON: types, functions, records of every translation unit."""
import json, re, os, subprocess, glob, tempfile, shutil, sys, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
EXPORT = os.path.join(VERIF, 'build', 'export')


class Ty:
    __slots__ = ('k', 's', 'w', 'u', 'n', 'tn', 'ta', 'to', 'c', 'rv', 'len', 'ret', 'ps', 'e', 'repo', 'is_lambda', 'did')

    def __repr__(self): return self.s

    @property
    def base(self):
        return self.tn or self.n


class Func:
    """A reference to, or a definition of, a function."""
    __slots__ = ('n', 'q', 'm', 'ret', 'ps', 'cls', 'static', 'const', 'virt', 'pure', 'ctor', 'defaulted', 'assign', 'ta',
                 'repo', 'params', 'inits', 'body', 'file', 'line', 'tu', 'ov', 'access', 'clsname')

    def __repr__(self): return self.q


class Program:
    def __init__(self):
        self.types = {}      # canonical string -> Ty
        self.funcs = {}      # usr -> Func (definition)
        self.records = {}    # qualified name -> dict
        self.overriders = {} # usr of overridden -> [(cls name, usr)]
        self.byq = {}        # qualified name -> [Func]
        self.errors = []

    def load(self, path):
        d = json.loads(re.sub(r"'\\\\x([0-9a-f]{2})'", lambda m: str(int(m[1], 16)), open(path).read()))
        tab = []
        raw = d['types']
        for o in raw:
            t = self.types.get(o['s']) if not o.get('lambda') else None
            if t is None:
                t = Ty()
                for a in Ty.__slots__: setattr(t, a, None)
                t.k = None
                if not o.get('lambda'): self.types[o['s']] = t
            tab.append(t)
        for t, o in zip(tab, raw):
            if t.k is not None and not (o.get('e') and not t.e):
                continue
            t.k, t.s = o['k'], o['s']
            t.w, t.u = o.get('w'), o.get('u')
            t.n, t.tn = o.get('n'), o.get('tn')
            t.c, t.rv, t.len = o.get('c'), o.get('rv'), o.get('len')
            t.e, t.repo, t.is_lambda, t.did = o.get('e'), o.get('repo'), o.get('lambda'), o.get('did')
            if 'to' in o: t.to = tab[o['to']]
            if 'ret' in o: t.ret = tab[o['ret']]
            if 'ps' in o: t.ps = [tab[i] for i in o['ps']]
            if 'ta' in o: t.ta = [tab[a['t']] if 't' in a else (int(a['i']) if 'i' in a else None) for a in o['ta']]
        tu = path

        def fix(x):
            if isinstance(x, list):
                for i, y in enumerate(x):
                    if isinstance(y, (dict, list)):
                        x[i] = fix(y)
                return x
            if 'm' in x and 'q' in x and 'ps' in x:   # function reference / definition
                return mkfunc(x)
            for key, y in list(x.items()):
                if key in ('t', 'clt', 'crt', 'at', 'ty') and isinstance(y, int) and not isinstance(y, bool):
                    x[key] = tab[y]
                elif key == 'base' and isinstance(y, int):
                    x[key] = tab[y]
                elif key == 'cls' and isinstance(y, int):
                    x[key] = tab[y]
                elif isinstance(y, (dict, list)):
                    x[key] = fix(y)
            return x

        def mkfunc(x):
            f = Func()
            for a in Func.__slots__: setattr(f, a, None)
            for a in ('n', 'q', 'm', 'static', 'const', 'virt', 'pure', 'ctor', 'defaulted', 'assign', 'repo', 'file', 'line', 'ov', 'access'):
                setattr(f, a, x.get(a))
            f.ret = tab[x['ret']]
            f.ps = [tab[i] for i in x['ps']]
            f.cls = tab[x['cls']] if 'cls' in x else None
            f.ta = [tab[a['t']] if 't' in a else (int(a['i']) if 'i' in a else None) for a in x.get('ta', [])]
            f.tu = tu
            if 'params' in x: f.params = fix(x['params'])
            if 'inits' in x: f.inits = fix(x['inits'])
            if x.get('body') is not None: f.body = fix(x['body'])
            return f
        for x in d['funcs']:
            f = mkfunc(x)
            if f.m not in self.funcs:
                self.funcs[f.m] = f
                self.byq.setdefault(f.q, []).append(f)
        for r in d['records']:
            if r['n'] in self.records: continue
            rec = dict(n=r['n'], t=tab[r['t']], union=r['union'], fields=[], bases=[tab[b] for b in r['bases']], file=r['file'],
                       methods=[mkfunc(m) for m in r['methods']], dtorUser=r.get('dtorUser'))
            for f in r['fields']:
                rec['fields'].append(dict(n=f['n'], t=tab[f['t']], anon=f.get('anon'), init=fix(f['init']) if f.get('init') else None))
            self.records[r['n']] = rec
            for m in rec['methods']:
                for o in m.ov or ():
                    self.overriders.setdefault(o, []).append((r['n'], m.m))

    def is_derived(self, name, base):
        if name == base: return True
        r = self.records.get(name)
        return bool(r) and any(self.is_derived(b.n, base) for b in r['bases'])

    def final_overrider(self, cls, usr):
        """The definition that a virtual call of usr reaches on an object whose dynamic type is cls."""
        f = cls
        seen = [cls]
        while seen:
            c = seen.pop(0)
            r = self.records.get(c)
            if not r: continue
            for m in r['methods']:
                if m.m == usr or self._overrides(m, usr): return m.m
            seen += [b.n for b in r['bases']]
        return usr

    def _overrides(self, m, usr):
        todo = list(m.ov or ())
        while todo:
            o = todo.pop()
            if o == usr: return True
            for r in self.records.values():
                for x in r['methods']:
                    if x.m == o: todo += x.ov or ()
        return False


LAYOUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'layout.json')


def plain(n):
    """A name without its template arguments."""
    out, d = '', 0
    for c in n:
        if c == '<': d += 1
        elif c == '>': d -= 1
        elif d == 0: out += c
    return out


def fieldtype(t, r):
    """The type of a field, with the arguments of its own class's template by number."""
    s = t.s
    for i, a in sorted(enumerate(r['t'].ta or ()), key=lambda x: -len(x[1].s) if isinstance(x[1], Ty) else 0):
        if isinstance(a, Ty): s = s.replace(a.s, '$%d' % i)
    return s


def canonical(p, layout):
    """Fields that bear other names than the specifications know are given those names, in every place that uses them.

    A renaming of the fields of a class, one to one, changes nothing the code does; so a wrong guess of which is which can
    cost a proof but never give one. First come the fields that still bear their name, then those whose type only one
    field on each side has, then those of equal type in the order of their declaration."""
    ren = {}
    for n, r in p.records.items():
        want = layout.get(plain(n))
        if not want: continue
        have = [(f['n'], fieldtype(f['t'], r)) for f in r['fields'] if f['n']]
        names = {n for n, t in have}
        miss = [(n, t) for n, t in want if n not in names]
        new = [(n, t) for n, t in have if n not in {n for n, t in want}]
        if not miss or not new: continue
        m = {}
        for t in {t for n, t in miss}:
            a = [n for n, u in miss if u == t]; b = [n for n, u in new if u == t]
            if len(a) == len(b):
                for x, y in zip(a, b): m[y] = x
        if m: ren[n] = m
    if not ren: return
    seen = set()
    def fix(x, own):
        if isinstance(x, list):
            for y in x:
                if isinstance(y, (dict, list, Func)): fix(y, own)
            return
        if id(x) in seen: return
        seen.add(id(x))
        if isinstance(x, Func):
            if x.body is not None: fix(x.body, own)
            return
        if x.get('dk') == 'field' and x.get('k') == 'Member' and x['cls'] is not None:
            m = ren.get(x['cls'].n)
            if m and x['n'] in m: x['n'] = m[x['n']]
        for y in x.values():
            if isinstance(y, (dict, list, Func)): fix(y, own)
    for n, r in p.records.items():
        m = ren.get(n, {})
        for f in r['fields']:
            if f['n'] in m: f['n'] = m[f['n']]
            if f['init'] is not None: fix(f['init'], m)
    done = set()
    for f in p.funcs.values():
        m = ren.get(f.cls.n, {}) if f.cls is not None else {}
        for i in f.inits or ():
            if i.get('field') in m: i['field'] = m[i['field']]
            fix(i, m)
        if f.body is not None: fix(f.body, m)


def flags():
    res = subprocess.run(['clang++', '-print-resource-dir'], capture_output=True, text=True).stdout.strip()
    return ['-std=c++14', '-w', '-resource-dir', res, '-I' + VERIF + '/shim/light', '-I' + VERIF + '/shim',
            '-I' + REPO + '/lib/include', '-I' + REPO + '/lib/src']


def export(sources, extra=()):
    """Parse the translation units and return the Program. extra: driver sources that instantiate repo templates."""
    out = tempfile.mkdtemp(prefix='vc_export_')
    fl = flags()
    p = Program()
    try:
        def one(i_src):
            i, src = i_src
            o = os.path.join(out, '%d.json' % i)
            r = subprocess.run([EXPORT, REPO + '/lib', src, o, '--'] + fl, capture_output=True, text=True)
            return src, o, r
        with cf.ThreadPoolExecutor(8) as ex:
            for src, o, r in ex.map(one, list(enumerate(list(sources) + list(extra)))):
                if not os.path.exists(o) or os.path.getsize(o) == 0:
                    p.errors.append((src, r.stderr[-2000:]))
                else:
                    p.load(o)
    finally:
        shutil.rmtree(out)
    if os.path.exists(LAYOUT): canonical(p, json.load(open(LAYOUT)))
    return p


def sources(*subdirs):
    r = []
    for s in subdirs or ('',):
        d = os.path.join(REPO, 'lib/src', s)
        if os.path.isfile(d): r.append(d)
        else: r += sorted(glob.glob(os.path.join(d, '**', '*.cpp'), recursive=True))
    return sorted(set(r))
