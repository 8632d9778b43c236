"""Workloads for the build tool: package contents, isolated loading, twin histories, build histories."""
import hashlib
import importlib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time

from pure import Checks
from vchain import *          # noqa
from actors import BEHAVIOUR
import ops

NAMES = ['flexible_token', 'icx_token', 'irc_token', 'score_registry', 'network', 'converter']
CLASS = {'flexible_token': 'FlexibleToken', 'icx_token': 'IcxToken', 'irc_token': 'IRCToken',
         'score_registry': 'ScoreRegistry', 'network': 'Network', 'converter': 'Converter'}
NOTICE = {n for n in NAMES if n != 'irc_token'}
HERE = os.path.dirname(os.path.abspath(__file__))


def tree(root, skip=()):
    """{relative path: content digest} of every file, directory and link"""
    out = {}
    for d, dirs, files in os.walk(root):
        rel = os.path.relpath(d, root)
        for n in dirs:
            p = os.path.normpath(os.path.join(rel, n))
            out[p] = 'link ' + os.readlink(os.path.join(d, n)) if os.path.islink(os.path.join(d, n)) else 'dir'
        for n in files:
            p = os.path.normpath(os.path.join(rel, n))
            f = os.path.join(d, n)
            if os.path.islink(f):
                out[p] = 'link ' + os.readlink(f)
            else:
                with open(f, 'rb') as h:
                    out[p] = hashlib.sha256(h.read()).hexdigest()
    return {k: v for k, v in out.items() if not any(k == s or k.startswith(s + os.sep) for s in skip)}


def files_of(t):
    return {k: v for k, v in t.items() if v != 'dir'}


# names a contract may give its own files
OWN = [
    'data.bin', 'README.md', 'table.json', 'test_data.csv', 'testsuite.txt', 'x.pyd', 'NOTES', '.hidden', 'a b.txt', 'tests.py', 'types.pyi',
    'a.md', 'a.txt', 'b.cfg', 'c.ini', 'd.so', 'e.sh', 'f.bak', 'g.orig', 'h~', 'i.log', 'j.tmp', 'k.zip', 'l.yml', 'Makefile', 'LICENSE',
    'setup.py', 'conftest.py', 'test_x.py', 'x_test.py', 'example.py', '_help.py', '_x', '__version__.py', 'Thumbs.db', '#x#', 'build.py',
    'M.PY', 'n.pyx', 'o.js'
]


class Scratch:
    """a copy of the sources the build tool needs, in a private directory, with bystander files around it"""

    def __init__(self, tag, where='work/repo'):
        self.root = os.path.realpath(tempfile.mkdtemp(prefix=f'dexbuild-{tag}-'))
        self.repo = os.path.join(self.root, *where.split('/'))
        os.makedirs(self.repo)
        for n in os.listdir(REPO):
            if n in ('.git', 'build', 'tests') or n.startswith('.'):
                continue
            s, d = os.path.join(REPO, n), os.path.join(self.repo, n)
            if os.path.isdir(s):
                shutil.copytree(s, d, ignore=shutil.ignore_patterns('__pycache__', '*.pyc'), symlinks=True)
            else:
                shutil.copy2(s, d)
        # caches and tests the package must not pick up
        for n in NAMES:
            p = os.path.join(self.repo, 'contracts', n)
            os.makedirs(os.path.join(p, '__pycache__'), exist_ok=True)
            open(os.path.join(p, '__pycache__', f'{n}.cpython-312.pyc'), 'wb').write(b'stale')
            os.makedirs(os.path.join(p, 'tests'), exist_ok=True)
            open(os.path.join(p, 'tests', 'test_dummy.py'), 'w').write('assert False\n')
        for p in ('work/bystander.txt', 'bystander/data/x.txt', where + '/build.txt', where + '/builds/keep.txt'):
            q = os.path.join(self.root, p)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            open(q, 'w').write('keep me\n')
        self.p = None

    def dress(self, r, names=NAMES):
        """gives the copied sources awkward bytes and own files; all of it keeps them working"""
        done = []
        for n in names:
            d = os.path.join(self.repo, 'contracts', n)
            for _ in range(r.randrange(0, 4)):
                kind = r.choice(['crlf', 'cr-manifest', 'manifest', 'manifest', 'tail', 'bom', 'own', 'own', 'deep', 'tests', 'cache', 'empty', 'dep', 'link', 'link', 'dot'])
                p = os.path.join(d, 'package.json')
                if kind == 'own' and r.random() < .5:
                    for rel in r.sample(OWN, 20):       # a whole shelf
                        open(os.path.join(d, rel), 'wb').write(b'# %d\n' % r.randrange(1000))
                    done.append((n, 'shelf', os.path.relpath(d, self.repo)))
                    continue
                if kind == 'link':
                    # the source is a link to the file that has the content
                    q = os.path.join(self.repo, 'contracts', r.choice([n, n, 'interfaces', 'utility']))
                    p = os.path.join(q, r.choice(sorted(x for x in os.listdir(q) if os.path.isfile(os.path.join(q, x))) + ['shared.bin']))
                    if not os.path.islink(p):
                        shared = os.path.join(self.root, 'shared', f'{len(done)}_{os.path.basename(p)}')
                        os.makedirs(os.path.dirname(shared), exist_ok=True)
                        if os.path.exists(p):
                            os.rename(p, shared)
                        else:
                            open(shared, 'wb').write(b'shared\r\n')
                        os.symlink(shared if r.random() < .5 else os.path.relpath(shared, os.path.dirname(p)), p)
                    done.append((n, kind, os.path.relpath(p, self.repo)))
                    continue
                if kind in ('crlf', 'tail', 'bom', 'dep'):
                    sub = n if kind != 'dep' else r.choice(['interfaces', 'utility', 'irc_token'])
                    q = os.path.join(self.repo, 'contracts', sub)
                    p = os.path.join(q, r.choice(sorted(x for x in os.listdir(q) if x.endswith('.py'))))
                b = open(p, 'rb').read() if os.path.isfile(p) else b''
                if kind in ('crlf', 'cr-manifest', 'dep'):
                    b = b.replace(b'\r\n', b'\n').replace(b'\n', b'\r\n')
                elif kind == 'manifest':
                    m = json.loads(b)
                    m = dict(sorted(m.items(), key=lambda kv: r.random()))
                    m['note'] = r.choice(['\u00e9\u4e16\U0001f600', 'a/b', '', 'x' * 5000])
                    b = json.dumps(m, indent=r.choice([None, 0, 1, '\t']), ensure_ascii=r.random() < .5).encode()
                    b += r.choice([b'', b'\n', b' \n\n', b'\r\n'])
                elif kind == 'tail':
                    b = b.rstrip() + r.choice([b'', b'\n\n\n', b'\n# \xc3\xa9\xe4\xb8\x96', b'\t \n', b'\n\x0c\n'])
                elif kind == 'bom':
                    b = b if b.startswith(b'\xef\xbb\xbf') else b'\xef\xbb\xbf' + b
                else:
                    rel = {'own': r.choice(OWN),
                           'deep': r.choice(['deep/er/x.dat', 'data/contracts/x.json', 'mytests/x.txt', 'tests_data/y.txt', 'Tests/z.txt', f'{n}/x.txt',
                                             'data/NOTICE', 'build/x.txt']),
                           'tests': r.choice(['tests/fixtures/a.py', 'tests/a/b/c.json', 'deep/tests/t.py', 'deep/tests/more/t.py']),
                           'cache': r.choice(['deep/__pycache__/x.pyc', '__pycache__/more/x.txt']),
                           'dot': r.choice(['.env', '.config/x.json', 'deep/.keep', '.x.py', '.package.json', 'data/.git_keep/y', '..z']),
                           'empty': r.choice(['empty.txt', 'deep/__init__.py'])}[kind]
                    p = os.path.join(d, *rel.split('/'))
                    b = b'' if kind == 'empty' else r.choice([b'\x00\xff\r\n\r\x1a' + bytes(range(256)), b'plain\r\n', b'z' * 70000])
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, 'wb').write(b)
                done.append((n, kind, os.path.relpath(p, self.repo)))
        if r.random() < .5:
            open(os.path.join(self.repo, 'NOTICE'), 'ab').write(r.choice([b'\r\nextra \xff\xfe', b'', b'\x1a\r', b'\n\n']))
        return done

    def own(self, n):
        """the contract's own files that belong in its package: where in the package -> digest"""
        out = {}
        d = os.path.join(self.repo, 'contracts', n)
        for rel, dig in files_of(tree(d)).items():
            parts = rel.split(os.sep)
            if '__pycache__' in parts or 'tests' in parts[:-1]:
                continue
            out['package.json' if rel == 'package.json' else os.path.join(n, rel)] = dig
        return out

    def start(self):
        self.p = subprocess.Popen([sys.executable, '-B', os.path.join(HERE, 'fsdriver.py'), self.root, self.repo], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, text=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))

    def ask(self, **cmd):
        if self.p is None:
            self.start()
        self.p.stdin.write(json.dumps(cmd) + '\n')
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError('build driver died')
        return json.loads(line)

    def close(self):
        if self.p is not None:
            self.p.stdin.close()
            self.p.wait(30)
        if self.root.startswith(tempfile.gettempdir() + os.sep + 'dexbuild-'):
            shutil.rmtree(self.root, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


# --------------------------------------------------------------------------------------------- builds (P31)
def builds(seed, size, want):
    t0 = time.time()
    c = Checks(want)
    r = random.Random(f'builds:{seed}')
    T = ('P31',)
    done = {}
    with Scratch(f'b{seed}') as s:
        dressed = s.dress(r) if r.random() < .7 else []
        # reference contents: every package on its own into an empty directory
        canon = {}
        for n in NAMES:
            before = tree(s.root)
            x = s.ask(op='dir', names=[n], out='ref_' + n)
            after = tree(s.root)
            c.check(T, x['err'] is None, 'a single package builds', lambda: f'{n}: {x["err"]}')
            if x['err']:
                return c.summary('builds', done, t0)
            sub = tree(os.path.join(s.repo, 'ref_' + n, n))
            canon[n] = files_of(sub)
            rest = {k: v for k, v in after.items() if not k.startswith(f'work/repo/ref_{n}')}
            c.check(T, rest == before and not x['escapes'], 'a build changes nothing but its output',
                    lambda: f'{n}: {diff(before, rest)} {x["escapes"]}')
            c.check(T, len(sub) > 0, 'a build produces files')
            c.case(('single', n), lambda: f'build {n}: {len(canon[n])} files')
        canon_dirs = {n: {k for k, v in tree(os.path.join(s.repo, 'ref_' + n, n)).items() if v == 'dir'} for n in NAMES}
        for n in NAMES:
            shutil.rmtree(os.path.join(s.repo, 'ref_' + n))
        outs = {'build': {}, 'out/deep/er': {}, 'other': {}}      # modelled content per output directory: {relpath: digest}
        base = tree(s.root)

        def model_tree():
            return {o: dict(v) for o, v in outs.items()}

        for step in range(size):
            o = r.choice(['build', 'build', 'out/deep/er', 'other'])
            od = os.path.join(s.repo, o)
            # somebody leaves files in the output directory
            if r.random() < .45:
                for _ in range(r.randrange(1, 3)):
                    kind = r.choice(['foreign', 'stale', 'stale', 'modified', 'nested'])
                    n = r.choice(NAMES)
                    if kind == 'foreign':
                        rel = r.choice(['README', 'notes/x.txt', 'converter.zip', f'{n}_old/a.py'])
                    elif kind == 'stale':
                        rel = f'{n}/{r.choice(["stale.py", "utility/stale.py", "tests/t.py", n + "/old.py"])}'
                    elif kind == 'nested':
                        rel = f'{n}/build/x.txt'
                    else:
                        have = [k for k in outs[o] if k.startswith(n + '/')]
                        rel = r.choice(have) if have else f'{n}/package.json'
                    p = os.path.join(od, rel)
                    if os.path.isdir(p):
                        continue
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    body = f'{kind} {step}'.encode()
                    open(p, 'wb').write(body)
                    outs[o][rel] = hashlib.sha256(body).hexdigest()
            k = r.randrange(0, 4)
            names = r.sample(NAMES, k)
            z = r.random()
            bogus = r.random() < .12
            others_before = {q: files_of(tree(os.path.join(s.repo, q))) if os.path.isdir(os.path.join(s.repo, q)) else None
                             for q in outs}
            before_all = tree(s.root, skip=['work/repo/' + q for q in outs])
            exp = dict(outs[o])
            exists = os.path.isdir(od)
            if z < .12:
                op = 'clean'
                x = s.ask(op='cli', args=['clean']) if o == 'build' else s.ask(op='clean', out=o)
                c.check(T, x['err'] is None, 'cleaning does not fail', lambda: x['err'])
                c.check(T, not os.path.exists(od), 'cleaning removes the output directory', lambda: o)
                if 'ret' in x:
                    c.check(T, x['ret'] is exists, 'cleaning says whether there was anything', lambda: f'{x["ret"]} {exists}')
                exp = {}
            elif z < .7:
                op = 'dir'
                if bogus:
                    names.insert(r.randrange(len(names) + 1), r.choice(['nope', 'Converter', 'converter.py', 'utility', 'interfaces']))
                    if len(names) > 1 and r.random() < .3:      # 'clean' is a command only in the first place
                        names = [n for n in names if n in NAMES]
                        names.insert(r.randrange(1, len(names) + 1), 'clean')
                elif names and r.random() < .1:
                    names.insert(r.randrange(len(names) + 1), r.choice(names))       # named twice
                use_cli = o == 'build'
                x = s.ask(op='cli', args=names) if use_cli else s.ask(op='dir', names=names or None, out=o)
                if bogus:
                    op = 'bogus'
                    reported = 'rong' in x['out'] or x['err'] is not None
                    c.check(T, reported, 'an unknown contract name is reported', lambda: f'{names}: {x["out"]!r}')
                    c.check(T, x['changes'] == 0, 'an unknown contract name writes nothing', lambda: f'{names}: {x["changes"]} changes')
                else:
                    c.check(T, x['err'] is None and 'rong' not in x['out'], 'a build of known contracts succeeds', lambda: f'{names}: {x["err"]} {x["out"]}')
                    for n in names or NAMES:
                        exp = {k2: v for k2, v in exp.items() if not k2.startswith(n + '/')}
                        exp.update({f'{n}/{k2}': v for k2, v in canon[n].items()})
            else:
                op = 'zip'
                comp = r.choice([None, 'ZIP_STORED', 'ZIP_DEFLATED', 'ZIP_BZIP2', 'ZIP_LZMA'])
                store = r.random() < .5
                if bogus:
                    names.append('nope')
                x = s.ask(op='zip', names=names or None, compression=comp, out=o if store else None)
                if bogus:
                    op = 'bogus zip'
                    c.check(T, x['err'] is not None and x['changes'] == 0, 'an unknown contract name is reported and writes nothing', lambda: f'{x}')
                else:
                    want_zip = {f'{n}/{k2}': v for n in names or NAMES for k2, v in canon[n].items()}
                    c.check(T, x['err'] is None, 'an archive build succeeds', lambda: f'{names} {comp}: {x["err"]}')
                    if x['err'] is None:
                        got = {k2: v for k2, v in x['zip']}
                        c.check(T, got == want_zip and len(x['zip']) == len(got), 'an archive holds the same content as a directory build',
                                lambda: f'{names} {comp}: {diff(want_zip, got)}')
                        c.check(T, x['again'] and x['bad'] is None and sorted(x['listing']) == sorted(k2 for k2, _ in x['zip']),
                                'an archive is readable and listed', lambda: f'{names} {comp}: {x["bad"]}')
                        if not store:
                            c.check(T, x['changes'] == 0, 'building an archive in memory writes nothing', lambda: f'{x["changes"]} changes')
                    if store:
                        exp = want_zip
            done[op] = done.get(op, 0) + 1
            got = files_of(tree(od)) if os.path.isdir(od) else {}
            c.check(T, got == exp, 'the output directory holds exactly what it should',
                    lambda: f'{op} {names} -> {o}: {diff(exp, got)}')
            if op == 'dir' and os.path.isdir(od):
                for n in names or NAMES:
                    dd = {k2 for k2, v in tree(os.path.join(od, n)).items() if v == 'dir'} if os.path.isdir(os.path.join(od, n)) else set()
                    c.check(T, dd == canon_dirs[n], 'no stale directories in a package', lambda: f'{n}: {dd ^ canon_dirs[n]}')
            for q in outs:
                if q != o:
                    now = files_of(tree(os.path.join(s.repo, q))) if os.path.isdir(os.path.join(s.repo, q)) else None
                    c.check(T, now == others_before[q], 'other output directories stay as they were', lambda: f'{op} -> {o}: {q}')
            now_all = tree(s.root, skip=['work/repo/' + q for q in outs])
            for q in range(1, o.count('/') + 1):        # the way to the output directory may be made
                up = 'work/repo/' + '/'.join(o.split('/')[:q])
                if up not in before_all and now_all.get(up) == 'dir':
                    del now_all[up]
            c.check(T, now_all == before_all and not x['escapes'], 'nothing else changes',
                    lambda: f'{op} {names} -> {o}: {diff(before_all, now_all)} {x["escapes"]}')
            outs[o] = got
            c.events += x['changes']
            c.case((op, o, tuple(sorted(names)), exists, len(exp) // 8), lambda: f'{op} {names} -> {o} (existing: {exists}): {len(got)} files afterwards')
            if c.stop():
                break
        # the output directory, or a package in it, is a link: what it leads to is not part of the output unless it is written through
        for step in range(6):
            if c.stop():
                break
            k = r.choice(['clean', 'clean', 'package', 'inside', 'package zip', 'inside clean'])
            n = r.choice(NAMES)
            far = os.path.join(s.root, 'far', str(step))
            o = f'lk{step}'
            od = os.path.join(s.repo, o)
            os.makedirs(os.path.join(far, n, 'deep'))
            for f in ('keep.txt', n + '/package.json', n + '/deep/keep.py'):
                open(os.path.join(far, f), 'w').write('precious')
            if k == 'clean':
                os.symlink(far, od)
            else:
                os.makedirs(os.path.join(od, n) if k.startswith('inside') else od)
                os.symlink(os.path.join(far, n) if r.random() < .5 else os.path.relpath(os.path.join(far, n), os.path.join(od, n) if k.startswith('inside') else od),
                           os.path.join(od, n, 'deep') if k.startswith('inside') else os.path.join(od, n))
            before = tree(s.root, skip=['work/repo/' + o])
            if 'clean' in k:
                x = s.ask(op='clean', out=o)
                if k == 'inside clean':
                    c.check(T, x['err'] is None and not os.path.lexists(od), 'cleaning removes the output directory', lambda: f'{k}: {x["err"]}')
            elif k == 'package zip':
                x = s.ask(op='zip', names=[n], out=o)
                got = files_of(tree(od)) if os.path.isdir(od) else {}
                c.check(T, x['err'] is not None or got == {f'{n}/{k2}': v for k2, v in canon[n].items()}, 'an unpacked archive replaces links',
                        lambda: f'{k} {n}: {x["err"]} {diff({n + "/" + k2: v for k2, v in canon[n].items()}, got)}')
            else:
                x = s.ask(op='dir', names=[n], out=o)
                got = files_of(tree(os.path.join(od, n))) if os.path.isdir(os.path.join(od, n)) else {}
                c.check(T, x['err'] is not None and k == 'package' or got == canon[n], 'a package replaces links',
                        lambda: f'{k} {n}: {x["err"]} {diff(canon[n], got)}')
            now = tree(s.root, skip=['work/repo/' + o])
            c.check(T, now == before, 'what a link in the output leads to stays as it was', lambda: f'{k} {n}: {diff(before, now)}')
            c.case(('link', k, x['err'] is None), lambda: f'{k} {n}: {x["err"]}')
            done['links'] = done.get('links', 0) + 1
        # a real command line run in its own process gives the same as the monitored one
        if not c.stop():
            subprocess.run([sys.executable, '-B', 'build.py', 'irc_token', 'network'], cwd=s.repo, capture_output=True, timeout=120,
                           env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
            for n in ('irc_token', 'network'):
                d = os.path.join(s.repo, 'build', n)
                got = files_of(tree(d)) if os.path.isdir(d) else {}
                c.check(T, got == canon[n], 'the command line builds the same', lambda: f'{n}: {diff(canon[n], got)}')
            c.case(('cli process',), lambda: 'build.py irc_token network in its own process')
    return c.summary('builds', done, t0)


def diff(a, b):
    return [('-' if k not in b else '+' if k not in a else '~') + k for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)][:8]


# --------------------------------------------------------------------------------------------- packages (P30)
ISOLATED = r'''
import sys, os, json, importlib
root, name, pkg, cls, lib = sys.argv[1:6]
sys.path.insert(0, lib)
os.environ['VERIF_REPO'] = root
sys.dont_write_bytecode = True
import vchain
from vchain import Chain, Address
sys.path.insert(0, root)
man = json.load(open(os.path.join(root, pkg, 'package.json')))
mod = importlib.import_module(pkg + '.' + man['main_file'])
C = getattr(mod, man['main_score'])
ch = Chain(tag='isolated')
me = ch.eoa(10 ** 20)
import actors
pup = []
for _ in range(3):
    a, res = ch.deploy(actors.Puppet, me)
    actors.BEHAVIOUR[a] = actors.Behaviour()
    pup.append(a)
params = {'irc_token': dict(_name='A', _symbol='B', _initialSupply=5, _decimals=1), 'flexible_token': dict(_name='A', _symbol='B', _initialSupply=5, _decimals=1),
          'icx_token': {}, 'score_registry': {}, 'network': {},
          'converter': dict(_token=pup[0], _registry=pup[1], _maxConversionFee=5, _connectorToken=pup[2], _connectorWeight=1000)}[name]
a, res = ch.deploy(C, me, params)
foreign = sorted(m for m, o in sys.modules.items() if getattr(o, '__file__', None) and not m.startswith('vchain')
                 and ('contracts' == m.split('.')[0] or (os.path.realpath(o.__file__).startswith(os.path.realpath(root) + os.sep) and not m.split('.')[0] == pkg)))
inside = sorted(os.path.relpath(o.__file__, os.path.join(root, pkg)) for m, o in sys.modules.items() if m.split('.')[0] == pkg and getattr(o, '__file__', None))
print(json.dumps({'ok': res.ok, 'exc': str(res.exc), 'score': C.__name__, 'base': [b.__name__ for b in C.__mro__], 'foreign': foreign, 'inside': inside}))
'''


def load_packages(root, tag):
    """the six contracts imported from built packages, each under its own package name"""
    out = {}
    sys.path.insert(0, root)
    try:
        for n in NAMES:
            pkg = f'pk_{tag}_{n}'
            man = json.load(open(os.path.join(root, pkg, 'package.json')))
            mod = importlib.import_module(f'{pkg}.{man["main_file"]}')
            out[CLASS[n]] = getattr(mod, man['main_score'])
    finally:
        sys.path.remove(root)
    return out


def packages(seed, size, want):
    from campaigns import populate
    from directed import Recorder
    from ops import Monkey
    from world import World, Deploy, load_contracts
    t0 = time.time()
    c = Checks(want)
    r = random.Random(f'packages:{seed}')
    T = ('P30',)
    extra = {'isolated': 0, 'twin_requests': 0}
    where = r.choice(['work/repo', 'work/repo', 'tests/repo', 'a tests/tests', 'build/contracts', 'contracts/contracts', 'network/converter',
                      'work/my dex (copy)', 'NOTICE/package.json', 'work/r\u00e9po.zip', 'deep/' + '/'.join('abcdefgh')])
    with Scratch(f'p{seed}', where) as s:
        dressed = s.dress(r) if r.random() < .75 else []
        order = NAMES[:]
        r.shuffle(order)
        cut = r.randrange(1, 6)
        groups = [order[:cut], order[cut:]] if r.random() < .6 else [None]
        fmt = r.choice(['dir', 'cli', 'zip'])
        # the tool is started from here or there, and told where the sources are in one way or another
        up = os.path.relpath(s.root, s.repo)
        cwd = r.choice(['.', '.', up, os.path.join(up, 'elsewhere'), 'contracts'])
        os.makedirs(os.path.join(s.root, 'elsewhere', 'contracts', 'network'), exist_ok=True)
        for d in ('NOTICE', 'contracts/network/network.py', 'package.json'):
            open(os.path.join(s.root, 'elsewhere', d), 'w').write('none of your business\n')
        here = os.path.join(s.repo, cwd)
        src0 = 'contracts'
        if fmt != 'cli' and r.random() < .5:
            # the same sources under another name
            src0 = r.choice(['c', 'src', 'network', 'e', 'token', 'tests', 'all-contracts', 'contracts/tests_area'])
            if src0.startswith('contracts/'):
                src0 = 'contracts2/tests/x'
            os.makedirs(os.path.dirname(os.path.join(s.repo, src0)), exist_ok=True)
            shutil.copytree(os.path.join(s.repo, 'contracts'), os.path.join(s.repo, src0))
        base = os.path.dirname(os.path.join(s.repo, src0))
        if base != s.repo:
            shutil.copy(os.path.join(s.repo, 'NOTICE'), base)
        rel = os.path.relpath(os.path.join(s.repo, src0), os.path.realpath(here))
        srcarg = r.choice([rel, rel, os.path.join(s.repo, src0), os.path.join(s.repo, src0) + '/', rel + '/', './' + rel])
        script = r.choice([os.path.join(s.repo, 'build.py'), os.path.relpath(os.path.join(s.repo, 'build.py'), os.path.realpath(here))])
        how = f'{fmt} in {where}, from {cwd}, sources {src0 if srcarg.startswith("/") else srcarg}'
        outdir = lambda d: os.path.relpath(os.path.join(s.repo, d), os.path.realpath(here)) if r.random() < .5 else os.path.join(s.repo, d)
        # the same process may have built before
        for k in range(r.choice([0, 0, 1, 2])):
            if r.random() < .5:
                s.ask(op='dir', names=r.choice([None, r.sample(NAMES, r.randrange(1, 4))]), out=os.path.join(s.root, f'warm{k}'))
            else:
                s.ask(op='zip', names=r.choice([None, r.sample(NAMES, r.randrange(1, 4))]))
            how += ', again'
        for i, g in enumerate(groups):
            if fmt == 'cli':
                x = s.ask(op='cli', args=g or [], cwd=cwd, script=script)
            elif fmt == 'dir':
                x = s.ask(op='dir', names=g, out=outdir('build'), cwd=cwd, src=srcarg)
            else:
                x = s.ask(op='zip', names=g, compression=r.choice(['ZIP_STORED', 'ZIP_DEFLATED']), out=outdir(f'z{i}'), cwd=cwd, src=srcarg)
                if x['err'] is None:
                    for n in g or NAMES:
                        d = os.path.join(s.repo, f'z{i}', n)
                        if os.path.isdir(d):
                            shutil.copytree(d, os.path.join(s.repo, 'build', n))
            c.check(T, x['err'] is None, 'the packages build', lambda: f'{g} as {how}: {x["err"]} {x["out"]}')
        out = os.path.join(s.repo, 'build')
        src = os.path.join(s.repo, 'contracts')
        ok = True
        for n in NAMES:
            pk = os.path.join(out, n)
            if not c.check(T, os.path.isdir(pk), 'every package is there', lambda: f'{n} ({how} {groups})'):
                ok = False
                continue
            t = files_of(tree(pk))
            for rel, dig in sorted(t.items()):
                bad = [p for p in rel.split(os.sep)[:-1] if p in ('tests', '__pycache__')] or rel.endswith('.pyc')
                c.check(T, not bad, 'no tests or caches in a package', lambda: f'{n}: {rel}')
                o = os.path.join(src, n, 'package.json') if rel == 'package.json' else \
                    os.path.join(s.repo, 'NOTICE') if rel == 'NOTICE' else os.path.join(src, rel)
                same = os.path.isfile(o) and hashlib.sha256(open(o, 'rb').read()).hexdigest() == dig
                c.check(T, same, 'every file is a faithful copy of its source', lambda: f'{n}: {rel} vs {o} ({how})')
            miss = [k for k in s.own(n) if k not in t]
            c.check(T, not miss, "a package has all of its contract's own files", lambda: f'{n}: {miss} ({how})')
            c.check(T, ('NOTICE' in t) == (n in NOTICE), 'the licence notice is there where configured', lambda: n)
            try:
                man = json.load(open(os.path.join(pk, 'package.json')))
                mf = os.path.join(pk, *man['main_file'].split('.')) + '.py'
                good = os.path.isfile(mf) and man['main_score'] == CLASS[n] and f'class {man["main_score"]}' in open(mf).read()
            except (OSError, ValueError, KeyError) as e:
                good, man = False, str(e)
            c.check(T, good, 'the manifest names an existing main class', lambda: f'{n}: {man}')
            c.case(('content', n, fmt, len(groups), where, cwd, src0, srcarg[0] == '/', srcarg[-1] == '/'), lambda: f'{n} built as {how} in {groups}: {len(t)} files; {[x for x in dressed if x[0] == n]}')
            # load and deploy with nothing else around
            with tempfile.TemporaryDirectory(prefix='dexbuild-iso-') as iso:
                iso = os.path.realpath(iso)
                pkg = f'p{r.randrange(10 ** 6)}_{n}'
                shutil.copytree(pk, os.path.join(iso, pkg))
                p = subprocess.run([sys.executable, '-B', '-c', ISOLATED, iso, n, pkg, CLASS[n], HERE], cwd=iso, capture_output=True, text=True,
                                   timeout=120, env={k: v for k, v in os.environ.items() if k not in ('PYTHONPATH', 'VERIF_REPO')})
                extra['isolated'] += 1
                try:
                    x = json.loads(p.stdout.strip().splitlines()[-1])
                except (ValueError, IndexError):
                    x = None
                if not c.check(T, x is not None and x['ok'], 'a package loads and deploys on its own',
                               lambda: f'{n}: {x and x["exc"]} {p.stderr[-600:]}'):
                    ok = False
                    c.case(('isolated', n), lambda: n)
                    continue
                c.check(T, not x['foreign'], 'a package uses nothing outside itself', lambda: f'{n}: {x["foreign"]}')
                c.check(T, x['score'] == CLASS[n] and 'IconScoreBase' in x['base'], 'the main class is the contract', lambda: f'{n}: {x}')
                c.case(('isolated', n, fmt), lambda: f'{n} alone: loaded {x["inside"]}')
        if not ok or c.stop():
            return c.summary('packages', extra, t0)
        # the same history on the sources and on the packages
        tag = f'{os.getpid()}_{seed}_{r.randrange(10 ** 9)}'
        home = os.path.join(s.root, 'loaded')
        os.makedirs(home)
        for n in NAMES:
            shutil.copytree(os.path.join(out, n), os.path.join(home, f'pk_{tag}_{n}'))
        try:
            packed = load_packages(home, tag)
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:
            c.check(T, False, 'the packages load side by side', f'{type(e).__name__}: {e}')
            c.case(('load',), lambda: str(e))
            return c.summary('packages', extra, t0)
        for k, profile in enumerate(r.sample(['TRADE', 'ADMIN', 'HOSTILE', 'LIFECYCLE', 'NETWORK', 'QUERIES'], 3)):
            runs = []
            for which, contracts in (('sources', load_contracts()), ('packages', packed)):
                w = World(f'packages:{profile}:{seed}', contracts=contracts)
                # the history is steered by what the monitor knows, its verdicts are not used here
                rec = Recorder(w.chain)
                err = None
                try:
                    w.standard()
                    populate(w)
                    m = Monkey(w, getattr(ops, profile))
                    for _ in range(max(10, size // 3)):
                        m.step()
                except Deploy as e:
                    err = str(e)
                runs.append((rec.rows, dict(w.chain.kv.d), err, list(w.log)))
            a, b = runs
            n = min(len(a[0]), len(b[0]))
            for i in range(n):
                same = a[0][i] == b[0][i]
                c.check(T, same, 'a packaged contract does what its source does',
                        lambda: f'{profile}: request {i} {a[3][i] if i < len(a[3]) else ""}: sources {str(a[0][i])[:600]} packages {str(b[0][i])[:600]}')
                row = a[0][i]
                c.case((profile, row[0], tuple((x[2], x[3]) for x in row[4])[:6]), lambda: f'{profile} request {i}: {str(row)[:300]}')
                if not same:
                    break
            extra['twin_requests'] += n
            c.events += n
            c.check(T, len(a[0]) == len(b[0]) and a[1] == b[1] and a[2] == b[2], 'same ledger from packages and sources',
                    lambda: f'{profile}: {len(a[0])} / {len(b[0])} requests, {len(set(a[1].items()) ^ set(b[1].items()))} entries differ, {a[2]} / {b[2]}')
            if c.stop():
                break
        for mname in [m for m in sys.modules if m.startswith(f'pk_{tag}_')]:
            del sys.modules[mname]
    return c.summary('packages', extra, t0)
