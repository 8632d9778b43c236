"""A miniature ICON node around the *real* SCORE execution machinery.

The SCORE classes under test are the ones in the repository; they run on the real iconservice
1.1.2 parts (IconScoreBase, container DBs, InternalCall, IcxEngine, EventLogEmitter, call/tx
batches, JSON-RPC type conversion).  Only the pieces a node needs besides them are replaced: the
key-value store is a dict, SCOREs are instantiated straight from their classes, and steps are not
charged.  Every call boundary, every event and every ledger commit is observable.
"""
import inspect
import os
import sys

sys.dont_write_bytecode = True

REPO = os.getcwd()      # the demonstration runs in the repository
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import logging
logging.disable(logging.CRITICAL)

from iconservice import *                                              # noqa
from iconservice.base.address import Address, ZERO_SCORE_ADDRESS       # noqa
from iconservice.base.block import Block
from iconservice.base.exception import IconScoreException
from iconservice.base.message import Message
from iconservice.base.transaction import Transaction
from iconservice.database.batch import BlockBatch, TransactionBatch
from iconservice.database.db import ContextDatabase
from iconservice.icon_constant import IconScoreFuncType
from iconservice.iconscore import icon_score_event_log as _evlog
from iconservice.iconscore.icon_score_context import (ContextContainer, IconScoreContext,
                                                      IconScoreContextType)
from iconservice.iconscore.icon_score_engine import IconScoreEngine
from iconservice.iconscore.icon_score_base import IconScoreBase, external, payable, eventlog, interface
from iconservice.iconscore.icon_score_base2 import InterfaceScore, revert
from iconservice.iconscore.internal_call import InternalCall
from iconservice.icx.icx_account import Account, AccountType
from iconservice.icx.icx_engine import IcxEngine
from iconservice.icx.icx_storage import IcxStorage

ZERO = ZERO_SCORE_ADDRESS


class InjectedFault(IconScoreException):
    pass


class MemKV:
    """Dict with the KeyValueDatabase interface."""

    def __init__(self):
        self.d = {}

    def get(self, key):
        return self.d.get(key)

    def put(self, key, value):
        if value is None:
            self.d.pop(key, None)
        else:
            self.d[key] = value

    def delete(self, key):
        self.d.pop(key, None)

    def close(self):
        pass


class NoSteps:
    def apply_step(self, *a, **k):
        pass


class Event:
    __slots__ = ('score', 'sig', 'name', 'args', 'indexed')

    def __init__(self, score, sig, args, indexed):
        self.score = score
        self.sig = sig
        self.name = sig.split('(')[0]
        self.args = tuple(args)
        self.indexed = indexed

    def key(self):
        return (str(self.score), self.sig, tuple(str(a) for a in self.args), self.indexed)

    def __repr__(self):
        return f'{self.score}:{self.name}{tuple(str(a) for a in self.args)}'


class Frame:
    __slots__ = ('caller', 'to', 'method', 'args', 'value', 'parent', 'depth', 'children', 'ok',
                 'result', 'exc', 'events', 'readonly', 'kind', 'x', 'badargs', 'injected', 'seq', 'rbefore')

    def __init__(self, caller, to, method, args, value, parent, kind):
        self.caller, self.to, self.method, self.args = caller, to, method, args
        self.value, self.parent, self.kind = value, parent, kind
        self.depth = parent.depth + 1 if parent else 0
        self.children, self.events = [], []
        self.ok = None
        self.result = self.exc = None
        self.readonly = False
        self.badargs = False
        self.injected = False
        self.x = None      # per-monitor annotation
        self.seq = 0
        self.rbefore = None

    def desc(self):
        a = ', '.join(f'{k}={v}' for k, v in (self.args or {}).items())
        return f'{self.caller} -> {self.to}.{self.method or "<icx>"}({a})' + \
            (f' value={self.value}' if self.value else '')


class TxResult:
    __slots__ = ('ok', 'exc', 'result', 'events', 'frame', 'faults_hit', 'ncalls')

    def __bool__(self):
        return self.ok


class _MonitoredInternalCall(InternalCall):
    chain = None

    def _call(self, addr_from, addr_to, func_name, arg_params, kw_params, amount):
        ch = self.chain
        if ch.peeking:
            return super()._call(addr_from, addr_to, func_name, arg_params, kw_params, amount)
        fr = ch._enter(addr_from, addr_to, func_name, arg_params, kw_params, amount)
        try:
            ch._maybe_fault(fr, 'before')
            ret = super()._call(addr_from, addr_to, func_name, arg_params, kw_params, amount)
        except BaseException as e:
            ch._exit(fr, False, None, e)
            raise
        ch._exit(fr, True, ret, None)
        # a fault "after" models a caller that dies once the callee has taken effect
        ch._maybe_fault(fr, 'after')
        return ret


def jval(v):
    """python value -> JSON-RPC parameter value"""
    if isinstance(v, Address):
        return str(v)
    if isinstance(v, bool):
        return '0x1' if v else '0x0'
    if isinstance(v, int):
        return hex(v)
    if isinstance(v, bytes):
        return '0x' + v.hex()
    return v


_real_emit = _evlog.EventLogEmitter.emit_event_log
_CURRENT = {'chain': None}


def _emit(context, score_address, event_signature, arguments, indexed_args_count):
    r = _real_emit(context, score_address, event_signature, arguments, indexed_args_count)
    ch = _CURRENT['chain']
    if ch is not None and ch.cur is not None and not ch.peeking:
        ch.cur.events.append(Event(score_address, event_signature, arguments, indexed_args_count))
    return r


_evlog.EventLogEmitter.emit_event_log = staticmethod(_emit)


class Chain:
    def __init__(self, restart='on_fail', tag='c'):
        self.kv = MemKV()
        self.ctxdb = ContextDatabase(self.kv, is_shared=True)
        self.icx = IcxEngine()
        self.icx._storage = IcxStorage(self.ctxdb)
        self.engine = IconScoreEngine()
        self.classes = {}        # Address -> class
        self.instances = {}
        self.deployer = {}
        self.restart = restart
        self.tag = tag
        self.naddr = 0
        self.height = 1
        self.observers = []
        self.peeking = 0
        self.cur = None
        self.context = None
        self.fault = None        # (n, 'before'|'after')
        self.ncalls = 0
        self.faults_hit = 0
        self.frames_seen = 0
        self.known = []          # every address that ever took part
        self._known = set()
        self.minted = []
        self.last = None
        InternalCall.icx_engine = self.icx
        _CURRENT['chain'] = self

    # -- addresses --------------------------------------------------------------------------
    def _addr(self, prefix):
        import hashlib
        self.naddr += 1
        h = hashlib.sha256(f'{self.tag}:{prefix}:{self.naddr}'.encode()).hexdigest()[:40]
        a = Address.from_string(prefix + h)
        self.know(a)
        return a

    def know(self, a):
        if a is not None and a not in self._known:
            self._known.add(a)
            self.known.append(a)

    def eoa(self, icx=0):
        a = self._addr('hx')
        if icx:
            self.mint_icx(a, icx)
        return a

    def mint_icx(self, a, amount):
        self.minted.append((a, amount))
        acct = Account(AccountType.GENERAL, address=a, icx=self.icx_balance(a) + amount)
        self.kv.put(a.to_bytes(), acct.to_bytes())

    # -- contexts ---------------------------------------------------------------------------
    def _context(self, ctype):
        chain = self

        class _Ctx(IconScoreContext):
            def validate_score_blacklist(self, a):
                if not a.is_contract:
                    raise IconScoreException('not a contract')

            def get_icon_score(self, a):
                return chain._score(a)

            def get_owner(self, context, a):
                return chain.deployer.get(a)

            def get_revision(self):
                return 0

            def validate_deployer(self, deployer):
                pass

        ctx = _Ctx(ctype)
        ctx.block = Block(self.height, b'\0' * 32, self.height * 2000000, b'\0' * 32)
        ctx.block_batch = BlockBatch()
        ctx.tx_batch = TransactionBatch()
        ctx.step_counter = NoSteps()
        ctx.event_logs = []
        ctx.traces = []
        ic = _MonitoredInternalCall(ctx)
        ic.chain = self
        ctx.internal_call = ic
        return ctx

    def _score(self, a):
        inst = self.instances.get(a)
        if inst is None:
            cls = self.classes.get(a)
            if cls is None:
                raise IconScoreException(f'SCORE is inactive: {a}')
            inst = self.instances[a] = cls(IconScoreDatabase(a, self.ctxdb))
        return inst

    def forget_instances(self):
        """what a node restart does: only the ledger survives"""
        self.instances.clear()

    def _refresh_arrays(self):
        """the platform's ArrayDB caches its length in the object and misses rollbacks: undo that after a failure"""
        seen = set()

        def walk(x, depth):
            if id(x) in seen or depth > 4:
                return
            seen.add(id(x))
            if isinstance(x, ArrayDB):
                x._ArrayDB__size = x._ArrayDB__get_size()
                return
            try:
                d = object.__getattribute__(x, '__dict__')
            except AttributeError:
                return
            for v in list(d.values()):
                if isinstance(v, (list, tuple, set)):
                    for y in v:
                        walk(y, depth + 1)
                elif isinstance(v, dict):
                    for y in v.values():
                        walk(y, depth + 1)
                else:
                    walk(v, depth + 1)
        for i in self.instances.values():
            walk(i, 0)

    # -- frames -----------------------------------------------------------------------------
    def _bind(self, to, method, args, kw):
        cls = self.classes.get(to)
        if cls is None or method is None:
            return dict(kw or {}), False, bool(args)
        f = getattr(cls, method, None)
        ro = bool(getattr(f, '__const_bit_flag', 0) & 1) if f else False
        from iconservice.iconscore.icon_score_constant import CONST_BIT_FLAG, ConstBitFlag
        ro = bool(getattr(f, CONST_BIT_FLAG, 0) & ConstBitFlag.ReadOnly) if f else False
        if f is None:
            return dict(kw or {}), ro, True
        try:
            b = inspect.signature(f).bind(None, *(args or ()), **(kw or {}))
            b.apply_defaults()
            d = dict(b.arguments)
            d.pop('self', None)
            return d, ro, False
        except TypeError:
            return dict(kw or {}), ro, True

    def _enter(self, frm, to, method, args, kw, value):
        d, ro, bad = self._bind(to, method, args, kw)
        fr = Frame(frm, to, method, d, value, self.cur, 'call')
        fr.readonly, fr.badargs = ro, bad
        self.frames_seen += 1
        fr.seq = self.frames_seen
        self.know(frm)
        self.know(to)
        for v in d.values():
            if isinstance(v, Address):
                self.know(v)
        if self.cur is not None:
            self.cur.children.append(fr)
        for o in self.observers:
            o.on_enter(fr)
        self.cur = fr
        return fr

    def _exit(self, fr, ok, result, exc):
        fr.ok, fr.result, fr.exc = ok, result, exc
        if not ok:
            fr.events = []
        self.cur = fr.parent
        for o in self.observers:
            o.on_exit(fr)

    def _maybe_fault(self, fr, when):
        if fr.depth == 0:
            return
        if when == 'before':
            self.ncalls += 1
        if self.fault is not None and self.fault == (self.ncalls, when):
            self.fault = None
            self.faults_hit += 1
            (fr.parent if when == 'after' and fr.parent else fr).injected = True
            raise InjectedFault(f'injected {when} call {self.ncalls}: {fr.desc()}')

    # -- reading inside a transaction -----------------------------------------------------
    def peek(self, to, method, *args):
        """read-only call at the current point (inside a running tx, or on the committed state)"""
        self.peeking += 1
        prev_cur = self.cur
        try:
            if self.context is None:
                return self.query(to, method, list(args))
            ctx = self.context
            saved = ctx.func_type, ctx.msg
            ctx.func_type = IconScoreFuncType.READONLY
            ctx.enter_call()
            try:
                score = ctx.get_icon_score(to)
                ctx.msg_stack.append(ctx.msg)
                ctx.msg = Message(sender=ZERO, value=0)
                try:
                    return getattr(score, '_IconScoreBase__external_call')(
                        func_name=method, arg_params=args, kw_params={})
                finally:
                    ctx.msg = ctx.msg_stack.pop()
            except BaseException:
                ctx.revert_call()
                raise
            finally:
                ctx.leave_call()
                ctx.func_type, ctx.msg = saved
        finally:
            self.peeking -= 1
            self.cur = prev_cur

    def icx_balance(self, a):
        return self.icx.get_balance(self.context, a)

    def query(self, to, method, params=None, sender=None):
        """icx_call: list params are passed as is, dict params go through JSON-RPC conversion"""
        ctx = self._context(IconScoreContextType.QUERY)
        ctx.msg = Message(sender=sender or ZERO, value=0)
        prev = self.context
        self.context = ctx
        self.peeking += 1
        ContextContainer._push_context(ctx)
        try:
            if isinstance(params, (list, tuple)):
                score = self._score(to)
                ro = getattr(score, '_IconScoreBase__is_func_readonly')(method)
                ctx.func_type = IconScoreFuncType.READONLY if ro else IconScoreFuncType.WRITABLE
                return getattr(score, '_IconScoreBase__external_call')(
                    func_name=method, arg_params=params, kw_params={})
            return self.engine.query(ctx, to, 'call', {
                'method': method, 'params': {k: jval(v) for k, v in (params or {}).items()}})
        finally:
            ContextContainer._pop_context()
            self.peeking -= 1
            self.context = prev

    # -- transactions -----------------------------------------------------------------------
    def deploy(self, cls, sender, params=None, addr=None, method='on_install'):
        """instantiate + on_install in one transaction; returns (address, TxResult)"""
        new = addr is None
        if new:
            addr = self._addr('cx')
            self.classes[addr] = cls
            self.deployer[addr] = sender
        old_cls = self.classes.get(addr)
        self.classes[addr] = cls
        self.instances.pop(addr, None)

        def body(ctx):
            score = self._score(addr)
            return getattr(score, method)(**(params or {}))

        r = self._run(sender, addr, method, dict(params or {}), 0, body, 'deploy')
        if not r.ok:
            if new:
                del self.classes[addr]
            else:
                self.classes[addr] = old_cls
        return addr, r

    def tx(self, sender, to, method=None, params=None, value=0, raw=False):
        """One transaction.  params: python values, converted to JSON-RPC strings and back."""
        jp = {k: (v if raw else jval(v)) for k, v in (params or {}).items() if v is not None or raw}

        def body(ctx):
            self.icx.transfer(ctx, sender, to, value)
            if to.is_contract:
                if method is None:
                    self.engine.invoke(ctx, to, 'fallback', {})
                else:
                    return self.engine.invoke_call(ctx, to, jp) if False else \
                        self.engine._call(ctx, to, {'method': method, 'params': dict(jp)})

        pyargs = {k: v for k, v in (params or {}).items() if v is not None or raw}
        return self._run(sender, to, method, pyargs, value, body, 'call')

    def _run(self, sender, to, method, pyargs, value, body, kind):
        self.know(sender)
        self.know(to)
        if self.restart == 'always':
            self.forget_instances()
        ctx = self._context(IconScoreContextType.INVOKE)
        ctx.tx = Transaction(tx_hash=self.height.to_bytes(32, 'big'), index=0, origin=sender,
                             timestamp=self.height, nonce=0)
        ctx.msg = Message(sender=sender, value=value)
        self.height += 1
        self.context = ctx
        self.ncalls = 0
        _CURRENT['chain'] = self
        InternalCall.icx_engine = self.icx
        ContextContainer._push_context(ctx)
        res = TxResult()
        res.result, res.exc, res.events = None, None, []
        hits = self.faults_hit
        d, ro, bad = self._bind(to, method, (), pyargs) if kind == 'call' else (pyargs, False, False)
        fr = Frame(sender, to, method, d, value, None, kind)
        fr.readonly, fr.badargs = ro, bad
        self.frames_seen += 1
        fr.seq = self.frames_seen
        for v in d.values():
            if isinstance(v, Address):
                self.know(v)
        try:
            for o in self.observers:
                o.on_tx_start(fr)
            for o in self.observers:
                o.on_enter(fr)
            self.cur = fr
            try:
                res.result = body(ctx)
                res.ok = True
            except (KeyboardInterrupt, SystemExit, MonitorStop):
                raise
            except BaseException as e:      # iconservice exceptions derive from BaseException
                res.ok, res.exc = False, e
                ctx.tx_batch.clear()
                ctx.event_logs = []
                ctx.func_type = IconScoreFuncType.WRITABLE
                fr.events = []
            ctx.func_type = IconScoreFuncType.WRITABLE
            self.cur = None
            fr.ok, fr.result, fr.exc = res.ok, res.result, res.exc
            for o in self.observers:
                o.on_exit(fr)
            res.events = [Event(e.score_address, e.indexed[0], list(e.indexed[1:]) + list(e.data),
                                len(e.indexed) - 1) for e in ctx.event_logs]
            res.frame = fr
            if res.ok:
                for k, v in dict(ctx.tx_batch).items():
                    self.kv.put(k, v)
        finally:
            ContextContainer._pop_context()
            self.context = None
            self.cur = None
            self.fault = None
        res.ncalls = self.ncalls
        self.last = res
        res.faults_hit = self.faults_hit - hits
        if not res.ok:
            if self.restart in ('on_fail', 'always'):
                self.forget_instances()
            else:
                self._refresh_arrays()
        for o in self.observers:
            o.on_tx_end(fr, res)
        return res


class MonitorStop(BaseException):
    pass


class Observer:
    def on_tx_start(self, fr): pass
    def on_enter(self, fr): pass
    def on_exit(self, fr): pass
    def on_tx_end(self, fr, res): pass


def A(s):
    return Address.from_string(s)
