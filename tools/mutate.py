#!/usr/bin/env python3
"""Development aid (no check reads it): systematic first-order changes of the source; lists those that neither the workloads nor the
repository's own tests notice.

    mutate.py OUT.json FILE... [--jobs=N --limit=N --only=PRINTOUT --count=1 --kind=WORDS]
"""
import ast
import concurrent.futures as cf
import json
import os
import random
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = '/tmp/mut'
PY = '/opt/venv/bin/python'


class Src:
    def __init__(self, text):
        self.t = text
        self.lines = text.splitlines(keepends=True)
        self.starts = [0]
        for l in self.lines:
            self.starts.append(self.starts[-1] + len(l))

    def pos(self, line, col):
        return self.starts[line - 1] + len(self.lines[line - 1].encode()[:col].decode())

    def span(self, n):
        return self.pos(n.lineno, n.col_offset), self.pos(n.end_lineno, n.end_col_offset)

    def seg(self, n):
        a, b = self.span(n)
        return self.t[a:b]


CMP = {ast.Lt: ['<=', '>='], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<='], ast.GtE: ['>', '<'], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['//'], ast.FloorDiv: ['*', '%'], ast.Mod: ['//'], ast.LShift: ['>>'], ast.RShift: ['<<'],
       ast.BitAnd: ['|'], ast.BitOr: ['&', '^'], ast.Pow: ['*'], ast.Div: ['*']}


def mutants(text):
    s = Src(text)
    tree = ast.parse(text)
    out = []

    def rep(n, new, what):
        a, b = s.span(n)
        if s.t[a:b] != new:
            out.append((a, b, new, f'{n.lineno}: {what}: {s.t[a:b][:80]!r} -> {new[:80]!r}'))

    def skip_call(n):
        f = n.func
        nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')
        return nm in ('revert',) or (isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'Logger')

    def walk(n, fn=None, in_msg=False):
        if isinstance(n, ast.Call) and skip_call(n):
            return
        if isinstance(n, (ast.FunctionDef,)):
            for d in n.decorator_list:
                if isinstance(d, ast.Name) and d.id == 'payable' or ast.unparse(d).startswith('external'):
                    a, b = s.span(d)
                    a = s.t.rindex('@', 0, a + 1)
                    e = s.t.index('\n', b) + 1
                    ls = s.t.rindex('\n', 0, a) + 1
                    out.append((ls, e, '', f'{d.lineno}: drop decorator {ast.unparse(d)} of {n.name}'))
            ds = [ast.unparse(d) for d in n.decorator_list]
            if any(d == 'external' for d in ds) and 'payable' not in ds:
                ls = s.pos(n.decorator_list[0].lineno, 0)
                ind = ' ' * n.col_offset
                out.append((ls, ls, ind + '@payable\n', f'{n.lineno}: add payable to {n.name}'))
            for d in n.decorator_list:
                t = ast.unparse(d)
                if t.startswith('eventlog'):
                    k = int(t.split('indexed=')[1].rstrip(')')) if 'indexed' in t else 0
                    for j in (k - 1, k + 1):
                        if 0 <= j <= min(3, len(n.args.args) - 1):
                            rep(d, f'eventlog(indexed={j})', f'interface of {n.name}')
                if t == 'external(readonly=True)':
                    rep(d, 'external', f'interface of {n.name}')
            if any(d.startswith(('external', 'eventlog')) for d in ds):
                for a in n.args.args:
                    if a.annotation is not None:
                        for j in {'int': ['str'], 'bytes': ['str'], 'str': ['bytes'], 'Address': ['str'], 'bool': ['int']}.get(ast.unparse(a.annotation), []):
                            rep(a.annotation, j, f'interface of {n.name} {a.arg}')
                for v in n.args.defaults:
                    rep(v, "b'x'" if ast.unparse(v) == 'None' else 'None', f'interface of {n.name} default')
            params = [a.arg for a in n.args.args if a.arg != 'self']
            for b in n.body:
                walk(b, params)
            return
        if isinstance(n, ast.ClassDef):
            for b in n.body:
                walk(b, fn)
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = n.left, n.comparators[0]
            for o in CMP[type(n.ops[0])]:
                rep(n, f'{s.seg(l)} {o} {s.seg(r)}', 'compare')
        if isinstance(n, ast.Compare) and len(n.ops) == 2:
            for i in (0, 1):
                for o in CMP[type(n.ops[i])]:
                    parts = [s.seg(n.left)]
                    for j, (op, c) in enumerate(zip(n.ops, n.comparators)):
                        sym = ast.unparse(ast.Compare(ast.Name('a'), [op], [ast.Name('b')]))[2:-2]
                        parts.append((o if j == i else sym) + ' ' + s.seg(c))
                    rep(n, ' '.join(parts), 'compare')
        if isinstance(n, ast.BoolOp):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            rep(n, '(' + o.join('(' + s.seg(v) + ')' for v in n.values) + ')', 'boolop')
            for v in n.values:
                rep(v, 'False' if isinstance(n.op, ast.Or) else 'True', 'boolop operand')
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, '(' + s.seg(n.operand) + ')', 'drop not')
        if isinstance(n, ast.BinOp) and not (isinstance(n.left, (ast.Constant, ast.JoinedStr)) and isinstance(getattr(n.left, 'value', None), str)):
            for o in BIN.get(type(n.op), []):
                rep(n, f'({s.seg(n.left)}) {o} ({s.seg(n.right)})', 'binop')
            if isinstance(n.op, (ast.Sub, ast.FloorDiv)):
                rep(n, f'({s.seg(n.right)}) {"-" if isinstance(n.op, ast.Sub) else "//"} ({s.seg(n.left)})', 'swap')
        if isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                rep(n, str(not n.value), 'const')
            elif isinstance(n.value, int):
                rep(n, str(n.value + 1), 'const')
                if n.value:
                    rep(n, str(n.value - 1), 'const')
            elif isinstance(n.value, str) and not in_msg and n.value:
                rep(n, repr(n.value + 'x'), 'str')
                rep(n, repr(''), 'str')
            elif isinstance(n.value, bytes):
                rep(n, repr(n.value + b'x'), 'bytes')
            elif n.value is None:
                rep(n, '0', 'const')
        if isinstance(n, ast.Attribute):
            u = ast.unparse(n)
            for x, ys in {'self.msg.sender': ['self.tx.origin', 'self.address', 'self._owner.get()'], 'self.tx.origin': ['self.msg.sender'],
                          'self.address': ['self.msg.sender'], 'self.msg.value': ['0', '(self.msg.value + 1)'],
                          'self.owner': ['self.msg.sender', 'self.tx.origin'], 'self.icx.send': ['self.icx.transfer']}.items():
                if u == x:
                    for y in ys:
                        rep(n, y, 'attr')
                    return
            if isinstance(n.ctx, ast.Load) and u in ('self._owner', 'self._new_owner', 'self._manager', 'self._new_manager'):
                alt = {'self._owner': ['self._new_owner'], 'self._new_owner': ['self._owner'], 'self._manager': ['self._new_manager', 'self._owner'],
                       'self._new_manager': ['self._manager', 'self._new_owner']}[u]
                for y in alt:
                    rep(n, y, 'attr')
        if isinstance(n, ast.Call):
            nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', '')
            args = n.args
            for i in range(len(args) - 1):
                a0, b0 = s.span(args[i])
                a1, b1 = s.span(args[i + 1])
                if s.t[a0:b0] != s.t[a1:b1] and not isinstance(args[i + 1], ast.Starred) and nm not in ('require',):
                    out.append((a0, b1, s.t[a1:b1] + s.t[b0:a1] + s.t[a0:b0], f'{n.lineno}: swap args {i},{i + 1} of {nm}'))
            if nm == 'require' and args:
                rep(args[0], 'True', 'require')
            msg = nm in ('require', 'debug', 'info', 'warning', 'error', 'Exception')
            walk(n.func, fn)
            for i, a in enumerate(args):
                walk(a, fn, in_msg or (msg and i > 0))
            for k in n.keywords:
                walk(k.value, fn, in_msg)
            if isinstance(n.func, ast.Attribute) and nm in ('min', 'max'):
                pass
            if isinstance(n.func, ast.Name) and nm in ('min', 'max'):
                rep(n.func, 'max' if nm == 'min' else 'min', 'minmax')
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and fn and n.id in fn:
            for o in fn:
                if o != n.id:
                    rep(n, o, 'param')
        if isinstance(n, ast.If):
            rep(n.test, 'True', 'if')
            rep(n.test, 'False', 'if')
            if n.orelse and not isinstance(n.orelse[0], ast.If):
                pass
        if isinstance(n, ast.While):
            rep(n.test, 'False', 'while')
        if isinstance(n, ast.IfExp):
            rep(n.test, 'True', 'ifexp')
            rep(n.test, 'False', 'ifexp')
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)) and n.col_offset >= 8:
            if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                rep(n, 'pass', 'delete')
        if isinstance(n, (ast.Continue, ast.Break)):
            rep(n, 'pass', 'delete')
        if isinstance(n, ast.AugAssign):
            o = {ast.Add: '-=', ast.Sub: '+=', ast.Mult: '//=', ast.FloorDiv: '*='}.get(type(n.op))
            if o:
                rep(n, f'{s.seg(n.target)} {o} {s.seg(n.value)}', 'aug')
            rep(n, f'{s.seg(n.target)} = {s.seg(n.value)}', 'aug')
        if isinstance(n, ast.Return) and n.value is not None:
            rep(n, 'return None', 'return')
        if isinstance(n, ast.Return) and n.value is None:
            rep(n, 'pass', 'delete')
        if isinstance(n, ast.Raise):
            rep(n, 'pass', 'delete')
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.AnnAssign):
            if n.value is not None:
                walk(n.value, fn)
            return
        if isinstance(n, ast.JoinedStr):
            return
        for f in ('body', 'orelse', 'finalbody'):
            l = getattr(n, f, None)
            if isinstance(l, list):
                for x, y in zip(l, l[1:]):
                    if all(isinstance(z, (ast.Expr, ast.Assign, ast.AugAssign)) for z in (x, y)):
                        swap(x, y)
        for c in ast.iter_child_nodes(n):
            walk(c, fn, in_msg)

    def swap(x, y):
        a0, b0 = s.span(x)
        a1, b1 = s.span(y)
        out.append((a0, b1, s.t[a1:b1] + s.t[b0:a1] + s.t[a0:b0], f'{x.lineno}: swap statements {s.t[a0:b0][:60]!r} / {s.t[a1:b1][:60]!r}'))

    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            for x, y in zip(n.body, n.body[1:]):
                if all(isinstance(z, (ast.Expr, ast.Assign, ast.AugAssign)) for z in (x, y)) and \
                        not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)):
                    swap(x, y)
    for b in tree.body:
        if not isinstance(b, (ast.Import, ast.ImportFrom)):
            walk(b)
    seen, res = set(), []
    for a, b, new, d in out:
        t = text[:a] + new + text[b:]
        if t in seen or t == text:
            continue
        seen.add(t)
        try:
            x = compile(t, 'm', 'exec')
        except SyntaxError:
            continue
        res.append((t, d))
    return res


M = lambda p, size=150, **kw: ('monkey', size, dict(profile=p, **kw))
F = lambda f, size, **kw: (f, size, kw)
CHAIN = [M('TOKENSP'), M('ADMIN'), F('installs', 100), M('TRADE'), M('LIFECYCLE'), M('REGISTRY'), M('NETWORK'), F('matrix', 1), F('switchboard', 260),
         M('HOSTILE'), F('succession', 260), M('QUERIES'), F('chains', 30), F('limbo', 100), F('curves', 200), F('impostor', 100),
         F('restart', 120, profile='ADMIN'), F('queries', 60, profile='ADMIN')] + \
        [F('switchboard', 260)] * 5 + [M('TOKENSP'), M('ADMIN'), M('TRADE'), M('LIFECYCLE'), M('HOSTILE'), M('NETWORK'), M('REGISTRY')] * 3 + \
        [F('locks', 260)] * 8 + [F('tolls', 260)] * 3 + [F('relatives', 260)] * 4 + [F('brinks', 400)] * 6 + [F('routes', 160)] * 4 + [F('requests', 240)] * 3 + [F('midway', 160)] * 4 + [F('burst', 160)] * 4 + [F('many', 200)] * 2 + [F('succession', 260)] * 3 + [F('installs', 200)] * 2 + [F('limbo', 100)] * 3 + [F('faults', 20, profile='HOSTILE')] * 2
FORM = [F('formula', 3000)] * 3 + [F('curves', 200)] * 2 + [F('codegen', 2400)] * 2
GEN = [F('codegen', 2400)] * 3
STORE = [F('storage', 2400)] * 4
PROXY = [F('proxy', 1500)] * 4
BUILD = [F('builds', 60)] * 3 + [F('packages', 90)] * 2


def plan(f):
    if 'auto_generate' in f:
        return GEN
    if f.startswith('contracts/formula'):
        return FORM
    if f.endswith('storage.py'):
        return STORE
    if f.endswith('proxy_score.py') or '/interfaces/' in f:
        return PROXY + CHAIN[:12]
    if f.startswith('contracts/'):
        return CHAIN
    return BUILD


def one(tree, f):
    """(child process) the first violation seen on this tree"""
    sys.path.insert(0, os.path.join(ROOT, 'lib'))
    import importlib
    import signal
    try:
        import campaigns
        import oracle
        mods = []
        for m in ('campaigns', 'directed', 'switch', 'locks', 'kin', 'brink', 'midway', 'burst', 'many', 'pure', 'packs'):
            mods.append(importlib.import_module(m))
    except BaseException as e:
        print(json.dumps(['import', repr(e)[:300]]))
        return
    for k, (fn, size, kw) in enumerate(plan(f)):
        oracle.use()
        g = next(getattr(m, fn) for m in mods if hasattr(m, fn))
        try:
            signal.alarm(120)
            s = g(7001 + k, size, None, **kw)
            signal.alarm(0)
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:
            print(json.dumps(['died', fn, repr(e)[:300]]))
            return
        if s['violations']:
            v = s['violations'][0]
            print(json.dumps(['violation', k, fn, v['tags'], v['kind'], v['detail'][:300]]))
            return
    print(json.dumps(['survived']))


def run(i, f, text, d):
    w = os.path.join(SCRATCH, f'{os.getpid()}-{i}')
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(SCRATCH, exist_ok=True)
    tmp = w + '-tmp'
    try:
        subprocess.run(['cp', '-a', '/repo', w], check=True)
        open(os.path.join(w, f), 'w').write(text)
        os.makedirs(tmp, exist_ok=True)
        env = dict(os.environ, VERIF_REPO=w, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TMPDIR=tmp)
        try:
            r = subprocess.run([PY, os.path.abspath(__file__), '--one', w, f], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                               timeout=500)
            l = [x for x in r.stdout.splitlines() if x.startswith('[')]
            res = json.loads(l[-1]) if l else ['died', r.returncode, r.stderr[-300:]]
        except subprocess.TimeoutExpired:
            res = ['timeout']
        if res[0] in ('survived', 'timeout'):
            t = open('/opt/vp/test.sh').read().replace('/opt/vp/reports', w + '-reports').replace('/repo', w)
            open(w + '-test.sh', 'w').write(t)
            subprocess.run(['bash', w + '-test.sh', w + '-out.json'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
            stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
            passed = set(json.load(open(w + '-out.json')).get('passed', []))
            miss = [x for x in stable if x not in passed]
            res.append('tests: ' + ('PASS' if not miss else f'{len(miss)} fail'))
    except Exception as e:
        res = ['tool', repr(e)]
    finally:
        for p in (w, w + '-reports', tmp):
            shutil.rmtree(p, ignore_errors=True)
        for x in ('-test.sh', '-out.json'):
            if os.path.exists(w + x):
                os.remove(w + x)
    return dict(file=f, what=d, res=res)


def main():
    if sys.argv[1] == '--one':
        return one(sys.argv[2], sys.argv[3])
    out, files = sys.argv[1], [a for a in sys.argv[2:] if not a.startswith('--')]
    opt = {a.split('=')[0]: a.split('=')[1] for a in sys.argv[2:] if a.startswith('--')}
    jobs = []
    for f in files:
        for t, d in mutants(open(os.path.join('/repo', f)).read()):
            jobs.append((f, t, d))
    if '--kind' in opt:
        jobs = [j for j in jobs if opt['--kind'] in j[2]]
    random.Random(1).shuffle(jobs)
    if '--only' in opt:                 # again, only those an earlier run's printout lists as survived
        t = [l for l in open(opt['--only']) if "['survived'" in l]
        jobs = [j for j in jobs if any(l.startswith(f'{j[0]} {j[2]} [') for l in t)]
    if '--limit' in opt:
        jobs = jobs[:int(opt['--limit'])]
    if '--count' in opt:
        print(len(jobs))
        return
    rs = []
    with cf.ThreadPoolExecutor(int(opt.get('--jobs', 8))) as ex:
        for k, r in enumerate(cf.as_completed([ex.submit(run, i, f, t, d) for i, (f, t, d) in enumerate(jobs)])):
            r = r.result()
            rs.append(r)
            if r['res'][0] != 'violation':
                print(r['file'], r['what'], r['res'], flush=True)
            if k % 50 == 0:
                json.dump(rs, open(out, 'w'), indent=0)
    json.dump(rs, open(out, 'w'), indent=0)
    print('total', len(rs), {x: sum(r['res'][0] == x for r in rs) for x in {r['res'][0] for r in rs}})


if __name__ == '__main__':
    main()
