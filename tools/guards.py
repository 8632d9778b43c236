#!/usr/bin/env python3
"""Development aid (no check reads it): small changes that act only under a condition (a state, a role, a quantity); lists those that the
workloads do not notice, with how often the condition came about.

    guards.py OUT.json FILE... [--jobs=N --limit=N --seed=N --only=PRINTOUT]
"""
import ast
import concurrent.futures as cf
import importlib
import json
import os
import random
import shutil
import subprocess
import sys

import mutate
from mutate import PY, ROOT, SCRATCH, Src

OWNED = ['self._new_owner.get() != ZERO_SCORE_ADDRESS', 'self._owner.get().is_contract', 'self.msg.sender == self._owner.get()', 'self._new_owner.get() == self.msg.sender']
MANAGED = ['self._manager.get() == self._owner.get()', 'self._manager.get() != self._owner.get()', 'self._new_manager.get() != ZERO_SCORE_ADDRESS',
           'self.msg.sender == self._manager.get()', 'self._manager.get().is_contract']
CALLER = ['self.msg.sender.is_contract', 'not self.msg.sender.is_contract', 'self.msg.sender != self.tx.origin', 'self.tx.origin == self._owner.get()', 'self.msg.value > 0']
TOKEN = ['self._total_supply.get() == 0', 'self._balances[self.msg.sender] == 0', 'self._balances[self.address] > 0', 'self._decimals.get() == 0',
         'self._total_supply.get() == self._balances[self.msg.sender]', 'self._total_supply.get() > 2 ** 100']
STATE = {
    'irc_token': TOKEN, 'icx_token': TOKEN + ['self.icx.get_balance(self.address) > self._total_supply.get()'],
    'flexible_token': TOKEN + ['not self._transfer_possibility.get()', 'self._transfer_possibility.get()'],
    'converter': MANAGED + ['self._conversion_fee.get() > 0', 'self._conversion_fee.get() == 0', 'self._conversion_fee.get() == self._max_conversion_fee.get()',
                            'len(self._connector_tokens) > 2', 'len(self._connector_tokens) == 1', 'len(self._connector_tokens) == 0', 'not self._conversions_enabled.get()',
                            'self._registry.get() != self._prev_registry.get()', 'not self._allow_registry_update.get()', 'self._total_connector_weight.get() == 1000000',
                            'self._is_active()', 'not self._is_active()', 'self.icx.get_balance(self.address) > 0', 'self._max_conversion_fee.get() == 0'],
    'network': ['self._icx_tokens[self.msg.sender]', 'self.icx.get_balance(self.address) > 0'],
    'managed': MANAGED, 'flexible_token_controller': MANAGED[:0] + ['self._is_active()', 'not self._is_active()', 'self._token.get() == self.msg.sender'],
    'score_registry': ["self._score_address[self.NETWORK] is None", "self._score_address[self.NETWORK] == self.msg.sender"],
}


def preds(path, fn):
    base = os.path.basename(path)[:-3]
    out = list(CALLER) + (OWNED if base != 'irc_token' else []) + STATE.get(base, [])
    if base == 'irc_token':
        out = [p for p in out if '_owner' not in p]
    ps = {}
    for a in fn.args.args + fn.args.kwonlyargs:
        if a.arg != 'self':
            ps[a.arg] = ast.unparse(a.annotation) if a.annotation else ''
    for n, t in ps.items():
        if t == 'int':
            out += [f'{n} == 0', f'{n} == 1', f'{n} > 10 ** 20', f'{n} < 1000', f'{n} % 10 == 7']
            if base in ('irc_token', 'flexible_token', 'icx_token'):
                out += [f'{n} == self._balances[self.msg.sender]', f'{n} == self._total_supply.get()']
            if base == 'converter':
                out += [f'{n} == self._conversion_fee.get()']
        elif t == 'Address':
            out += [f'{n} is not None and {n}.is_contract', f'{n} == self.msg.sender', f'{n} == self.tx.origin', f'{n} == self.address', f'{n} == ZERO_SCORE_ADDRESS']
            if base != 'irc_token':
                out += [f'{n} == self._owner.get()', f'{n} == self._new_owner.get()']
            if base == 'converter':
                out += [f'{n} == self._token.get()', f'{n} == self._manager.get()', f'{n} == self._registry.get()']
                if 'oken' in n:
                    out += [f'self._connectors[{n}].is_virtual_balance_enabled.get()', f'not self._connectors[{n}].is_purchase_enabled.get()',
                            f'self._connectors[{n}].weight.get() == 1000000', f'self._connectors[{n}].weight.get() < 100000',
                            f'self._connectors[{n}].virtual_balance.get() > 0', f'{n} == self._connector_tokens[0]',
                            f'self._connectors[{n}].is_set.get() and not self._connectors[{n}].is_virtual_balance_enabled.get()']
            if base == 'network':
                out += [f'self._icx_tokens[{n}]']
        elif t == 'bytes':
            out += [f'not {n}', f'{n} is not None and len({n}) > 0']
        elif t == 'bool':
            out += [n, f'not {n}']
        elif t == 'list':
            out += [f'len({n}) > 3', f'len({n}) > 5', f'{n}[0] == {n}[-1]', f'self._icx_tokens[{n}[0]]', f'self._icx_tokens[{n}[-1]]', f'{n}[0] == {n}[1]', f'{n}[-1] == {n}[-2]']
        elif t == 'str':
            out += [f'{n} == ""', f'len({n}) > 10', f'{n} != {n}.strip()']
    return out


HELPER = '''

def _guard(f):
    import builtins
    try:
        v = bool(f())
    except Exception:
        return False
    if v:
        builtins._guard_hits = getattr(builtins, '_guard_hits', 0) + 1
    return v
'''


def sites(text):
    """(function, start, end, make(pred) -> replacement, description)"""
    s = Src(text)
    tree = ast.parse(text)
    out = []

    def indent(seg, k=4):
        return ('\n' + ' ' * k).join(seg.split('\n'))

    def stmt(fn, n):
        a, b = s.span(n)
        seg, ind = s.t[a:b], ' ' * n.col_offset
        out.append((fn, a, b, lambda p: f'if not ({p}):\n{ind}    {indent(seg)}', f'{n.lineno}: skip {seg[:70]!r}'))

    def expr(fn, n, make, what):
        a, b = s.span(n)
        out.append((fn, a, b, make, f'{n.lineno}: {what} {s.t[a:b][:70]!r}'))

    for fn in ast.walk(tree):
        if not isinstance(fn, ast.FunctionDef) or fn.name.startswith('__') or any('eventlog' in ast.unparse(d) or 'abstract' in ast.unparse(d) or
                                                                                 'staticmethod' in ast.unparse(d) for d in fn.decorator_list):
            continue
        if not any(a.arg == 'self' for a in fn.args.args) or fn.name in ('on_update',):
            continue
        body = fn.body[1:] if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else fn.body
        if not body:
            continue
        f0 = body[0]
        a = s.pos(f0.lineno, 0)
        ind = ' ' * f0.col_offset
        ret = ast.unparse(fn.returns) if fn.returns else 'None'
        out.append((fn, a, a, lambda p, ind=ind: f'{ind}if {p}:\n{ind}    revert("no")\n', f'{fn.lineno}: refuse in {fn.name}'))
        if ret == 'None' and fn.name != 'on_install':
            out.append((fn, a, a, lambda p, ind=ind: f'{ind}if {p}:\n{ind}    return\n', f'{fn.lineno}: leave {fn.name} at once'))
        for n in ast.walk(fn):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                u = ast.unparse(n.value.func)
                if not u.startswith('Logger'):
                    stmt(fn, n)
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
                t = n.targets[0] if not isinstance(n, ast.AugAssign) else n.target
                if not isinstance(t, ast.Name):
                    stmt(fn, n)
            if isinstance(n, (ast.If, ast.IfExp)):
                seg = s.seg(n.test)
                expr(fn, n.test, lambda p, g=seg: f'({g}) or {p}', 'also if')
                expr(fn, n.test, lambda p, g=seg: f'({g}) and not {p}', 'not if')
            if isinstance(n, ast.Call):
                u = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', '')
                if u in ('require', 'revert') or u.startswith('require_') or u.startswith('_require') or ast.unparse(n.func).startswith('Logger'):
                    if u == 'require':
                        seg = s.seg(n.args[0])
                        expr(fn, n.args[0], lambda p, g=seg: f'({g}) or {p}', 'waive')
                        expr(fn, n.args[0], lambda p, g=seg: f'({g}) and not {p}', 'tighten')
                    continue
                for x in n.args:
                    if isinstance(x, (ast.Name, ast.Attribute, ast.BinOp, ast.Call)):
                        seg = s.seg(x)
                        nm = ast.unparse(x).lower()
                        if any(k in nm for k in ('amount', 'value', 'fee', 'weight', 'balance', 'supply', 'return')) and 'enable' not in nm and not nm.endswith('address'):
                            expr(fn, x, lambda p, g=seg: f'(({g}) + 1 if {p} else ({g}))', f'one more in {u}')
                            expr(fn, x, lambda p, g=seg: f'(({g}) - 1 if {p} else ({g}))', f'one less in {u}')
                            expr(fn, x, lambda p, g=seg: f'(({g}) * 2 if {p} else ({g}))', f'twice in {u}')
                        elif any(k in nm for k in ('sender', '_to', '_for', '_from', 'trader', 'owner', 'manager')) and 'token' not in nm:
                            expr(fn, x, lambda p, g=seg: f'(self.tx.origin if {p} else ({g}))', f'originator in {u}')
            if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Dict):
                seg = s.seg(n.value)
                if ret == 'int':
                    expr(fn, n.value, lambda p, g=seg: f'(({g}) + 1 if {p} else ({g}))', 'return one more')
                    expr(fn, n.value, lambda p, g=seg: f'(0 if {p} else ({g}))', 'return nothing')
                elif ret == 'bool':
                    expr(fn, n.value, lambda p, g=seg: f'(not ({g}) if {p} else ({g}))', 'return the contrary')
                elif ret == 'Address':
                    expr(fn, n.value, lambda p, g=seg: f'(self.address if {p} else ({g}))', 'return own address')
    return s, out


def mutants(path, text, rng, per_site):
    s, ss = sites(text)
    res, seen = [], set()
    for fn, a, b, make, d in ss:
        ps = preds(path, fn)
        for p in rng.sample(ps, min(per_site, len(ps))):
            t = s.t[:a] + make(f'_guard(lambda: {p})') + s.t[b:]
            t += HELPER
            if 'ZERO_SCORE_ADDRESS' in p and 'ZERO_SCORE_ADDRESS' not in s.t:
                continue
            if t in seen:
                continue
            seen.add(t)
            try:
                compile(t, 'm', 'exec')
            except SyntaxError as e:
                print('tool: bad', d, p, e, file=sys.stderr)
                continue
            res.append((t, f'{d} [{p}]'))
    return res


def one(tree, f):
    sys.path.insert(0, os.path.join(ROOT, 'lib'))
    import builtins
    import signal
    import campaigns          # noqa
    import oracle
    mods = [importlib.import_module(m) for m in ('campaigns', 'directed', 'switch', 'locks', 'kin', 'brink', 'midway', 'burst', 'many', 'pure', 'packs')]
    hits = lambda: getattr(builtins, '_guard_hits', 0)
    for k, (fn, size, kw) in enumerate(mutate.plan(f)):
        oracle.use()
        g = next(getattr(m, fn) for m in mods if hasattr(m, fn))
        try:
            signal.alarm(120)
            s = g(9001 + k, size, None, **kw)
            signal.alarm(0)
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:
            print(json.dumps(['died', fn, repr(e)[:300], hits()]))
            return
        if s['violations']:
            v = s['violations'][0]
            print(json.dumps(['violation', k, fn, v['tags'], v['kind'], v['detail'][:300], hits()]))
            return
    print(json.dumps(['survived', hits()]))


def main():
    if sys.argv[1] == '--one':
        return one(sys.argv[2], sys.argv[3])
    mutate.__file__ = os.path.abspath(__file__)
    out, files = sys.argv[1], [a for a in sys.argv[2:] if not a.startswith('--')]
    opt = {a.split('=')[0]: a.split('=', 1)[1] for a in sys.argv[2:] if a.startswith('--')}
    rng = random.Random(int(opt.get('--seed', 1)))
    jobs = [(f, t, d) for f in files for t, d in mutants(f, open(os.path.join('/repo', f)).read(), rng, int(opt.get('--per', 2)))]
    rng.shuffle(jobs)
    if '--only' in opt:
        t = [x for x in open(opt['--only']) if "['survived'" in x]
        jobs = [j for j in jobs if any(x.startswith(f'{j[0]} {j[2]} [') for x in t)]
    print(len(jobs), 'possible')
    jobs = jobs[:int(opt.get('--limit', 10 ** 9))]
    print(len(jobs), 'changes', flush=True)
    rs = []
    with cf.ThreadPoolExecutor(int(opt.get('--jobs', 8))) as ex:
        for r in cf.as_completed([ex.submit(mutate.run, i, f, t, d) for i, (f, t, d) in enumerate(jobs)]):
            r = r.result()
            rs.append(r)
            if r['res'][0] != 'violation':
                print(r['file'], r['what'], r['res'], flush=True)
            if len(rs) % 50 == 0:
                json.dump(rs, open(out, 'w'), indent=0)
    json.dump(rs, open(out, 'w'), indent=0)
    print('total', len(rs), {x: sum(r['res'][0] == x for r in rs) for x in {r['res'][0] for r in rs}})


if __name__ == '__main__':
    main()
