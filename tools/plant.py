#!/usr/bin/env python3
"""Development aid (no check reads it): writes /verif/seeded/<id>/ from the definitions in plants/*.py, confirms each planted bug in a
scratch copy of the repository and runs checks against it.

    plant.py write [id...]      patch.diff, demo.sh, demo.py, meta.json
    plant.py confirm [id...]    builds, stable tests, demo on the unchanged and the changed tree
    plant.py detect [-c P01,P02] [id...]   runs the quick check of the bug's property (or the given ones) on the changed tree
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = os.path.join(ROOT, 'tools', 'plantlib')
SEED = os.path.join(ROOT, 'seeded')
SCRATCH = '/tmp/pw'


def load():
    bugs = {}
    d = os.path.join(ROOT, 'tools', 'plants')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py'):
            g = {}

            def bug(id, prop, edits, needs, breaks, demo, helpers=('mini.py', 'vchain.py', 'actors.py')):
                assert id not in bugs, id
                bugs[id] = dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, helpers=helpers)
            g['bug'] = bug
            exec(compile(open(os.path.join(d, f)).read(), f, 'exec'), g)
    return bugs


def sh(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True)


def copy_repo(name):
    d = os.path.join(SCRATCH, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(SCRATCH, exist_ok=True)
    sh(['cp', '-a', '/repo', d])
    return d


def write(b):
    w = copy_repo('w-' + b['id'])
    try:
        for f, old, new in b['edits']:
            p = os.path.join(w, f)
            s = open(p).read()
            assert s.count(old) == 1, (b['id'], f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = sh(['git', 'diff'], cwd=w).stdout
    finally:
        shutil.rmtree(w)
    d = os.path.join(SEED, b['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    for h in b['helpers']:
        shutil.copy(os.path.join(LIB, h), d)
    shutil.copy(os.path.join(LIB, 'demo.sh'), d)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    head = 'from mini import *\n\n' if 'mini.py' in b['helpers'] else ''
    open(os.path.join(d, 'demo.py'), 'w').write(head + b['demo'].strip() + '\n')
    json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)


def confirm(b):
    w = copy_repo('c-' + b['id'])
    demo = os.path.join(SCRATCH, 'd-' + b['id'])
    out = []
    try:
        shutil.rmtree(demo, ignore_errors=True)
        shutil.copytree(os.path.join(SEED, b['id']), demo)
        for f in ('patch.diff', 'meta.json'):
            os.remove(os.path.join(demo, f))
        r = sh(['sh', os.path.join(demo, 'demo.sh')], cwd=w)
        if r.returncode != 0:
            out.append('demo FAILS on the unchanged tree:\n' + r.stdout[-1500:])
        r = sh(['git', 'apply', os.path.join(SEED, b['id'], 'patch.diff')], cwd=w)
        if r.returncode != 0:
            out.append('patch does not apply ' + r.stdout)
        for s in ('build.sh', 'test.sh'):
            t = open('/opt/vp/' + s).read().replace('/opt/vp/reports', w + '-reports').replace('/repo', w)
            open(w + '-' + s, 'w').write(t)
        r = sh(['bash', w + '-build.sh'], cwd=w)
        if r.returncode != 0:
            out.append('does not build ' + r.stdout[-800:])
        r = sh(['bash', w + '-test.sh', w + '-out.json'], cwd=w)
        res = json.load(open(w + '-out.json'))
        txt = json.dumps(res)
        stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
        passed = set(res.get('passed', []))
        miss = [t for t in stable if t not in passed]
        if miss:
            out.append(f'{len(miss)} stable tests fail: {miss[:4]} {list(res)[:5] if not passed else ""}')
        r = sh(['sh', os.path.join(demo, 'demo.sh')], cwd=w)
        if r.returncode == 0:
            out.append('demo PASSES with the bug:\n' + r.stdout[-800:])
        else:
            bad = [l for l in r.stdout.splitlines() if l.startswith('FAIL')]
            if not bad:
                out.append('note: demo failed without FAIL line: ' + r.stdout[-600:])
    except Exception as e:
        out.append(repr(e))
    finally:
        for p in (w, demo, w + '-reports'):
            shutil.rmtree(p, ignore_errors=True)
        for s in ('-build.sh', '-test.sh', '-out.json'):
            if os.path.exists(w + s):
                os.remove(w + s)
    return b['id'], out


def detect(b, props):
    w = copy_repo('x-' + b['id'])
    v = os.path.join(SCRATCH, 'v-' + b['id'])
    res = []
    try:
        r = sh(['git', 'apply', os.path.join(SEED, b['id'], 'patch.diff')], cwd=w)
        if r.returncode:
            return b['id'], ['patch does not apply']
        shutil.rmtree(v, ignore_errors=True)
        os.makedirs(v)
        for f in ('check', 'check.py', 'setup', 'lib', 'known_findings.txt', 'MANIFEST.json', 'properties.jsonl'):
            s = os.path.join(ROOT, f)
            (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(v, f))
        env = dict(os.environ, VERIF_REPO=w, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick')
        for p in props:
            r = sh([os.path.join(v, 'check'), p, 'quick'], cwd=v, env=env)
            hit = r.returncode == 1 and f'VIOLATION property={p} ' in r.stdout
            det = ''
            if hit:
                i = r.stdout.find('VIOLATION')
                det = r.stdout[max(0, i - 200):i + 300].replace('\n', ' | ')
            res.append((p, r.returncode, hit, det if hit else r.stdout[-200:].replace('\n', ' | ')))
    finally:
        shutil.rmtree(w, ignore_errors=True)
        shutil.rmtree(v, ignore_errors=True)
    return b['id'], res


def main():
    bugs = load()
    cmd, rest = sys.argv[1], sys.argv[2:]
    props = None
    if '-c' in rest:
        i = rest.index('-c')
        props = rest[i + 1].split(',')
        del rest[i:i + 2]
    sel = [bugs[i] for i in bugs if not rest or any(i.startswith(r) for r in rest)]
    if cmd == 'write':
        for b in sel:
            write(b)
        print(len(sel), 'written')
    elif cmd == 'confirm':
        with cf.ThreadPoolExecutor(6) as ex:
            for i, out in ex.map(confirm, sel):
                print(i, 'CONFIRMED' if not out else ' || '.join(out), flush=True)
    elif cmd == 'detect':
        for b in sel:
            i, res = detect(b, props or [b['prop']])
            for r in res:
                print(i, r[0], 'CAUGHT' if r[2] else f'MISSED rc={r[1]}', r[3][:260], flush=True)


if __name__ == '__main__':
    main()
