"""Verification-condition generator: symbolic execution of LLVM IR with contracts.

Every function is executed on arbitrary inputs (nondet values introduced by the
contract harness), loops are cut by inductive invariants inferred and *proved*
on every run (Houdini over templates), callees may be replaced by their
contracts, and every run-time-safety condition and every contract clause becomes
an SMT obligation.
"""
import sys, time, itertools
import z3
import bv2int
from llparse import *

sys.setrecursionlimit(20000)
z3.set_param('model.completion', True)
z3.set_param('rewriter.bv_le2extract', False)   # keeps comparisons in a form the integer translation likes

M64 = (1 << 64) - 1

class VfError(Exception):
    """verifier limitation: construct not supported"""

class Fork(Exception):
    def __init__(self, conds):
        self.conds = conds          # list of (z3 bool, [facts])

class PathEnd(Exception):
    pass

class NeedInvariant(Exception):
    def __init__(self, key):
        self.key = key

# ---------------------------------------------------------------- values
class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(self, obj, off):
        self.obj = obj
        self.off = off
    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj, self.off)

NULL = Ptr(0, 0)

class PInt:
    """ptrtoint result (optionally displaced): keeps provenance"""
    __slots__ = ('p', 'w')
    def __init__(self, p, w=64):
        self.p = p
        self.w = w
    def __repr__(self):
        return 'PInt(%r)' % (self.p,)

class Wide:
    """integer wider than 64 bits holding raw bytes with provenance: list of (off,size,val)"""
    __slots__ = ('parts', 'n')
    def __init__(self, parts, n):
        self.parts = parts
        self.n = n

UNDEF = ('undef',)

def isz(x):
    return isinstance(x, z3.ExprRef)

_bvcache = {}
def bvv(x, w):
    k = (x, w)
    r = _bvcache.get(k)
    if r is None:
        r = _bvcache[k] = z3.BitVecVal(x, w)
    return r

def bv(x, w):
    if isinstance(x, int):
        return bvv(x & ((1 << w) - 1), w)
    return x

def simp(x):
    if isz(x):
        x = z3.simplify(x)
        if z3.is_bv_value(x):
            return x.as_long()
        if z3.is_true(x): return 1
        if z3.is_false(x): return 0
    return x

def tobool(x):
    """i1 -> python bool or z3 Bool"""
    if isinstance(x, int):
        return bool(x & 1)
    if z3.is_bool(x):
        return x
    return x == bvv(1, 1)

def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x

def AND(*xs):
    ys = []
    for x in xs:
        if x is True or (isinstance(x, int) and x): continue
        if x is False or (isinstance(x, int) and not x): return False
        ys.append(x)
    if not ys: return True
    if len(ys) == 1: return ys[0]
    return z3.And(ys)

def OR(*xs):
    ys = []
    for x in xs:
        if x is False or (isinstance(x, int) and not x): continue
        if x is True or (isinstance(x, int) and x): return True
        ys.append(x)
    if not ys: return False
    if len(ys) == 1: return ys[0]
    return z3.Or(ys)

def NOT(x):
    if isinstance(x, (bool, int)): return not x
    if z3.is_not(x): return x.arg(0)
    return z3.Not(x)

def ITE(c, a, b, w):
    if isinstance(c, (bool, int)): return a if c else b
    if isinstance(a, int) and isinstance(b, int) and a == b: return a
    if isz(a) and isz(b) and a.eq(b): return a
    return z3.If(c, bv(a, w), bv(b, w))

INC_MS = 150

def flag(a):
    """the condition of a 0/1 value computed from one"""
    if isz(a) and z3.is_app_of(a, z3.Z3_OP_ITE):
        x, y = a.arg(1), a.arg(2)
        if z3.is_bv_value(x) and z3.is_bv_value(y):
            x, y = x.as_long(), y.as_long()
            if (x, y) == (1, 0): return a.arg(0)
            if (x, y) == (0, 1): return z3.Not(a.arg(0))
    return None

def binop(op, w, a, b):
    mask = (1 << w) - 1
    if isinstance(a, int) and isinstance(b, int):
        if op == 'add': return (a + b) & mask
        if op == 'sub': return (a - b) & mask
        if op == 'mul': return (a * b) & mask
        if op == 'and': return a & b
        if op == 'or': return a | b
        if op == 'xor': return a ^ b
        if op == 'shl': return (a << b) & mask if b < w else 0
        if op == 'lshr': return a >> b if b < w else 0
        if op == 'ashr': return (sgn(a, w) >> min(b, w)) & mask
        if op == 'udiv': return a // b
        if op == 'urem': return a % b
        if op in ('sdiv', 'srem'):
            x, y = sgn(a, w), sgn(b, w)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0): q = -q
            return (q if op == 'sdiv' else x - q * y) & mask
    if isinstance(b, int):
        if b == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'): return a
        if b == 1 and op in ('mul', 'udiv', 'sdiv'): return a
        if b == 0 and op in ('mul', 'and'): return 0
        if b == mask and op == 'and': return a
    if isinstance(a, int):
        if a == 0 and op in ('add', 'or', 'xor'): return b
        if a == 1 and op == 'mul': return b
        if a == 0 and op in ('mul', 'and'): return 0
        if a == mask and op == 'and': return b
    if op == 'sub' and isz(a) and isz(b) and a.eq(b): return 0
    if op in ('or', 'and', 'xor'):
        c, d = flag(a), flag(b)
        if c is not None and d is None and isinstance(b, int) and b in (0, 1): d = b == 1
        if d is not None and c is None and isinstance(a, int) and a in (0, 1): c = a == 1
        if c is not None and d is not None:
            if op == 'xor':
                if isinstance(c, bool): c, d = d, c
                r = z3.Xor(c, d) if not isinstance(d, bool) else z3.Not(c) if d else c
            else: r = OR(c, d) if op == 'or' else AND(c, d)
            return int(r) if isinstance(r, bool) else z3.If(r, bv(1, w), bv(0, w))
    x, y = bv(a, w), bv(b, w)
    if op == 'add': r = x + y
    elif op == 'sub': r = x - y
    elif op == 'mul': r = x * y
    elif op == 'and': r = x & y
    elif op == 'or': r = x | y
    elif op == 'xor': r = x ^ y
    elif op == 'shl': r = x << y
    elif op == 'lshr': r = z3.LShR(x, y)
    elif op == 'ashr': r = x >> y
    elif op == 'udiv': r = z3.UDiv(x, y)
    elif op == 'urem': r = z3.URem(x, y)
    elif op == 'sdiv': r = x / y
    elif op == 'srem': r = z3.SRem(x, y)
    else: raise VfError('binop ' + op)
    return r

def cmpop(pred, w, a, b):
    if isinstance(a, int) and isinstance(b, int):
        if pred == 'eq': return a == b
        if pred == 'ne': return a != b
        if pred[0] == 'u':
            x, y = a, b
        else:
            x, y = sgn(a, w), sgn(b, w)
        q = pred[1:]
        return x < y if q == 'lt' else x <= y if q == 'le' else x > y if q == 'gt' else x >= y
    if isz(a) and isz(b) and a.eq(b):
        return pred in ('eq', 'ule', 'uge', 'sle', 'sge')
    x, y = bv(a, w), bv(b, w)
    if pred == 'eq': return x == y
    if pred == 'ne': return x != y
    if pred == 'ult':
        if isinstance(b, int) and b == 0: return False
        return z3.ULT(x, y)
    if pred == 'ule':
        if isinstance(a, int) and a == 0: return True
        return z3.ULE(x, y)
    if pred == 'ugt':
        if isinstance(a, int) and a == 0: return False
        return z3.UGT(x, y)
    if pred == 'uge':
        if isinstance(b, int) and b == 0: return True
        return z3.UGE(x, y)
    if pred == 'slt': return x < y
    if pred == 'sle': return x <= y
    if pred == 'sgt': return x > y
    if pred == 'sge': return x >= y
    raise VfError('icmp ' + pred)

def ULE(a, b, w=64): return cmpop('ule', w, a, b)
def ULT(a, b, w=64): return cmpop('ult', w, a, b)
def EQ(a, b, w=64): return cmpop('eq', w, a, b)
def ADD(a, b, w=64): return binop('add', w, a, b)
def SUB(a, b, w=64): return binop('sub', w, a, b)

def zext(x, w, w2):
    if w == w2: return x
    if isinstance(x, int): return x
    if z3.is_bool(x): return z3.If(x, bvv(1, w2), bvv(0, w2))
    return z3.ZeroExt(w2 - w, x)

def sext(x, w, w2):
    if w == w2: return x
    if isinstance(x, int): return sgn(x, w) & ((1 << w2) - 1)
    if z3.is_bool(x): return z3.If(x, bvv((1 << w2) - 1, w2), bvv(0, w2))
    return z3.SignExt(w2 - w, x)

def trunc(x, w, w2):
    if w == w2: return x
    if isinstance(x, int): return x & ((1 << w2) - 1)
    if w2 == 1:
        return z3.Extract(0, 0, x) == bvv(1, 1)
    # simplifications
    k = x.decl().kind()
    if k == z3.Z3_OP_ZERO_EXT or k == z3.Z3_OP_SIGN_EXT:
        inner = x.arg(0)
        if inner.size() == w2: return inner
        if inner.size() > w2: return z3.Extract(w2 - 1, 0, inner)
    return z3.Extract(w2 - 1, 0, x)

# ---------------------------------------------------------------- byte memory
# node: immutable; read(node, idx) -> 8-bit value
class Node:
    __slots__ = ('k', 'a', 'prev')
    def __init__(self, k, a, prev=None):
        self.k = k
        self.a = a
        self.prev = prev

def nread(node, idx):
    """idx: int or BV64"""
    n = node
    conds = []
    # iterative, building ITE from the outside in
    acc = []
    while True:
        k = n.k
        if k == 'base':
            r = z3.Select(n.a, bv(idx, 64)); break
        if k == 'only':        # arbitrary bytes out of some ranges
            arr, rs = n.a
            x = z3.Select(arr, bv(idx, 64))
            r = z3.If(z3.Or([z3.And(z3.UGE(x, lo), z3.ULE(x, hi)) if lo < hi else x == lo for lo, hi in rs]), x, bvv(rs[0][0], 8)); break
        if k == 'zero':
            r = 0; break
        if k == 'bytes':
            data, arr = n.a
            if isinstance(idx, int):
                r = data[idx] if 0 <= idx < len(data) else 0
            else:
                r = z3.Select(arr(), idx)
            break
        if k == 'store':
            i, v = n.a
            c = EQ(idx, i)
            if c is True: r = v; break
            if c is not False: acc.append((c, v))
            n = n.prev
            continue
        if k == 'bstore':      # several bytes at concrete/symbolic base, value wide
            i, nb, v = n.a     # v: BV(8*nb) or int
            hit = False
            for j in range(nb):
                c = EQ(idx, ADD(i, j))
                if c is False: continue
                bj = byte_of(v, j, nb)
                if c is True:
                    r = bj; hit = True; break
                acc.append((c, bj))
            if hit: break
            n = n.prev
            continue
        if k == 'copy':
            d, cnt, src, s = n.a
            rel = SUB(idx, d)
            c = ULT(rel, cnt)
            if c is True:
                n = src; idx = ADD(rel, s); continue
            if c is not False:
                acc.append((c, nread(src, ADD(rel, s))))
            n = n.prev
            continue
        if k == 'set':
            d, cnt, v = n.a
            rel = SUB(idx, d)
            c = ULT(rel, cnt)
            if c is True: r = v; break
            if c is not False: acc.append((c, v))
            n = n.prev
            continue
        raise VfError('node ' + k)
    for c, v in reversed(acc):
        r = ITE(c, v, r, 8)
    return r

def byte_of(v, j, nb):
    if isinstance(v, int):
        return (v >> (8 * j)) & 255
    if nb == 1:
        return v
    return z3.Extract(8 * j + 7, 8 * j, v)

def concat_bytes(bs):
    """little-endian list -> int or BV"""
    if len(bs) == 1: return bs[0]
    if all(isinstance(b, int) for b in bs):
        r = 0
        for i, b in enumerate(bs): r |= b << (8 * i)
        return r
    # recognise extracts of the same value
    first = bs[0]
    if all(isz(b) and z3.is_app(b) and b.decl().kind() == z3.Z3_OP_EXTRACT for b in bs):
        src = bs[0].arg(0)
        lo0 = bs[0].params()[1]
        ok = all(b.arg(0).eq(src) and b.params()[1] == lo0 + 8 * i and b.params()[0] == lo0 + 8 * i + 7 for i, b in enumerate(bs))
        if ok:
            if lo0 == 0 and src.size() == 8 * len(bs): return src
            return z3.Extract(lo0 + 8 * len(bs) - 1, lo0, src)
    # upper zero bytes
    k = len(bs)
    while k > 1 and isinstance(bs[k-1], int) and bs[k-1] == 0: k -= 1
    if k < len(bs):
        return z3.ZeroExt(8 * (len(bs) - k), bv(concat_bytes(bs[:k]), 8 * k))
    return z3.Concat([bv(b, 8) for b in reversed(bs)])

class Obj:
    __slots__ = ('id', 'size', 'kind', 'alive', 'cells', 'node', 'name', 'const', 'owner', 'fl')
    def __init__(self):
        self.fl = None
    def copy(self):
        o = Obj()
        o.id = self.id; o.size = self.size; o.kind = self.kind; o.alive = self.alive
        o.cells = dict(self.cells); o.node = self.node; o.name = self.name; o.const = self.const
        o.owner = None
        return o

class Frame:
    __slots__ = ('fn', 'blk', 'i', 'prev', 'regs', 'allocas', 'ret_reg', 'call', 'depth', 'loopcount', 'ctx', 'loopctx')
    def copy(self):
        f = Frame()
        f.fn = self.fn; f.blk = self.blk; f.i = self.i; f.prev = self.prev
        f.regs = dict(self.regs); f.allocas = list(self.allocas)
        f.call = self.call; f.depth = self.depth
        f.loopcount = dict(self.loopcount)
        f.ctx = self.ctx
        f.loopctx = self.loopctx
        return f

def member(x, cs, w):
    """x is one of the constants (runs become ranges)"""
    cs = sorted(set(cs))
    out = []
    i = 0
    while i < len(cs):
        j = i
        while j + 1 < len(cs) and cs[j + 1] == cs[j] + 1: j += 1
        if j - i < 2: out += [x == bvv(c, w) for c in cs[i:j + 1]]
        else: out.append(AND(ULE(cs[i], x, w), ULE(x, cs[j], w)))
        i = j + 1
    return OR(*out)

class State:
    __slots__ = ('frames', 'mem', 'pc', 'model', 'trace', 'facts', 'exc', 'caught', 'ex', 'id', 'steps', 'stop', 'covers', 'approx', 'arrived', 'landing', 'hints')
    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        for o in s.mem.values():
            o.owner = None
        s.pc = list(self.pc)
        s.model = self.model
        s.trace = list(self.trace)
        s.facts = dict(self.facts)
        s.exc = self.exc
        s.landing = self.landing
        s.caught = list(self.caught)
        s.steps = self.steps
        s.stop = self.stop
        s.approx = self.approx
        s.hints = self.hints
        s.arrived = None
        return s

STD_BASES = {
    '_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt12out_of_range': '_ZTISt11logic_error',
    '_ZTISt16invalid_argument': '_ZTISt11logic_error', '_ZTISt11logic_error': '_ZTISt9exception',
    '_ZTISt13runtime_error': '_ZTISt9exception', '_ZTISt12system_error': '_ZTISt13runtime_error',
    '_ZTISt9bad_alloc': '_ZTISt9exception', '_ZTISt20bad_array_new_length': '_ZTISt9bad_alloc',
    '_ZTISt17bad_function_call': '_ZTISt9exception', '_ZTISt8bad_cast': '_ZTISt9exception',
    '_ZTISt12bad_weak_ptr': '_ZTISt9exception',
    '_ZTISt11range_error': '_ZTISt13runtime_error', '_ZTISt14overflow_error': '_ZTISt13runtime_error',
}

class Obligation:
    __slots__ = ('key', 'n', 'failed', 'trivial', 'time')
    def __init__(self, key):
        self.key = key
        self.n = 0
        self.failed = []
        self.trivial = 0
        self.time = 0.0

class Failure:
    def __init__(self, key, loc, state, model, unknown=False, in_loop=False):
        self.key = key
        self.loc = loc
        self.state = state
        self.model = model
        self.unknown = unknown
        self.in_loop = in_loop

class BModel:
    def __init__(self, m): self.m = m
    def true(self, c):
        try: return z3.is_true(self.m.eval(c, model_completion=True))
        except z3.Z3Exception: return False
    def bv(self, x): return self.m.eval(x, model_completion=True).as_long()
    def boolean(self, x): return z3.is_true(self.m.eval(x, model_completion=True))

class IModel:
    def __init__(self, ex, m):
        self.ex = ex
        self.m = m
    def true(self, c):
        t = self.ex.int_form(c)
        if t is None: return False
        try: return z3.is_true(self.m.eval(t, model_completion=True))
        except z3.Z3Exception: return False
    def bv(self, x):
        t = self.ex.int_form(x)
        return self.m.eval(t, model_completion=True).as_long() % (1 << x.size())
    boolean = true

class Executor:
    nofork = False
    def __init__(self, mod, opts=None):
        self.mod = mod
        o = dict(unroll=12, concrete_unroll=600, max_paths=40000, bmc=False, query_ms=20000, use_contracts=True,
                 max_depth=200, stop_on_fail=0, deadline=None, loop_iters=60, verbose=False, bmc_unroll=6)
        o.update(opts or {})
        self.o = o
        self.next_obj = itertools.count(1)
        self.globals = {}
        self.objname = {}
        self.func_objs = {}
        self.obl = {}
        self.failures = []
        self.covers = {}
        self.solver = z3.Solver()
        self.solver.set('timeout', o['query_ms'])
        self.stack = []
        self.isolver = z3.Solver()
        self.istack = []
        self.tr = bv2int.Tr()
        self.iforms = {}
        self.nq = 0
        self.tq = 0.0
        self.fresh = itertools.count()
        self.inv_loops = set(o.get('inv_loops', ()))
        self.npaths = 0
        self.pruned = 0
        self.quiet = 0
        self.loops_proved = {}
        self.contracts_used = {}
        self.functions_executed = {}
        self.cut_paths = 0
        self.intmode = o.get('intmode', False)
        self.qlog = o.get('qlog')
        self.collect_atoms = None
        self.base_mem = {}
        self.backends = {}
        self.unknowns = 0

    # ------------------------------------------------------------ solver
    def _sync(self, solver, st, pc, add):
        i = 0
        n = min(len(st), len(pc))
        while i < n and st[i] is pc[i]:
            i += 1
        if len(st) > i:
            solver.pop(len(st) - i)
            del st[i:]
        for e in pc[i:]:
            solver.push()
            add(e)
            st.append(e)

    def int_add(self, e):
        """assert e (integer form) if translatable; returns True if it was"""
        t = self.int_form(e)
        if t is None: return False
        for k in self.tr.sides(e): self.isolver.add(self.tr.side[k])
        self.isolver.add(t)
        return True

    def int_form(self, e):
        i = e.get_id()
        r = self.iforms.get(i)
        if r is None:
            try: t = self.tr.tr(e)
            except bv2int.NotInt: t = None
            except z3.Z3Exception: t = None
            r = self.iforms[i] = (e, t)
        return r[1]

    def check(self, pc, extra=None, need_model=True):
        """returns ('sat',Model)|('unsat',None)|('unknown',None)"""
        if extra is False: return ('unsat', None)
        if extra is True: extra = None
        t = time.time()
        if self.o['deadline'] and t > self.o['deadline']:
            raise VfError('deadline exceeded')
        self.nq += 1
        rs, m, be = self._check(pc, extra)
        self.tq += time.time() - t
        self.backends[be] = self.backends.get(be, 0) + 1
        if rs == 'unknown': self.unknowns += 1
        if self.qlog is not None: self.qlog.append((time.time() - t, list(pc), extra, rs, be))
        return (rs, m)

    def _check(self, pc, extra):
        ms = self.o['query_ms']
        # 1. integer arithmetic (exact translation)
        full = extra is None or self.int_form(extra) is not None
        if full or True:
            self._sync(self.isolver, self.istack, pc, self.int_add)
            skipped = [e for e in pc if self.int_form(e) is None]
            self.isolver.push()
            if extra is not None: self.int_add(extra)
            self.isolver.set('timeout', min(INC_MS, ms))
            r = self.isolver.check()
            m = None
            if r == z3.sat and full and not skipped: m = IModel(self, self.isolver.model())
            self.isolver.pop()
            if r == z3.unknown:
                # the incremental solver got lost: start afresh
                fs = z3.Solver()
                fs.set('timeout', min(3000, ms))
                sides = set()
                for e in pc + ([extra] if extra is not None else []):
                    t = self.int_form(e)
                    if t is not None: sides |= self.tr.sides(e); fs.add(t)
                for k in sides: fs.add(self.tr.side[k])
                r = fs.check()
                if r == z3.sat and full and not skipped: m = IModel(self, fs.model())
            if r == z3.unsat: return 'unsat', None, 'z3-int'
            if m is not None: return 'sat', m, 'z3-int'
        # 2. bit-blasting
        self._sync(self.solver, self.stack, pc, self.solver.add)
        self.solver.set('timeout', min(3000, ms))
        self.solver.push()
        if extra is not None: self.solver.add(extra)
        r = self.solver.check()
        m = BModel(self.solver.model()) if r == z3.sat else None
        self.solver.pop()
        if r == z3.unsat: return 'unsat', None, 'z3-bv'
        if r == z3.sat: return 'sat', m, 'z3-bv'
        import solvers
        es = list(pc)
        if extra is not None: es.append(extra)
        rs, m, be = solvers.portfolio(es, ms)
        return rs, BModel(m) if m is not None else None, be

    def model_true(self, s, cond):
        if s.model is None: return False
        return s.model.true(cond)

    def feasible(self, s, cond):
        """may pc /\\ cond hold? updates nothing; returns (bool, model)"""
        if cond is True: return True, s.model
        if cond is False: return False, None
        if self.model_true(s, cond): return True, s.model
        r, m = self.check(s.pc, cond)
        if r == 'unsat': return False, None
        return True, m

    def assume(self, s, cond):
        if cond is True or (isinstance(cond, int) and cond): return True
        if cond is False or (isinstance(cond, int) and not cond): return False
        c2 = z3.simplify(cond)
        if z3.is_true(c2): return True
        if z3.is_false(c2): return False
        ok = self.model_true(s, c2)
        if not ok:
            r, m = self.check(s.pc, c2)
            if r == 'unsat': return False
            s.model = m
        self.add_pc(s, cond, c2)
        return True

    def add_pc(self, s, cond, c2=None):
        if c2 is None: c2 = z3.simplify(cond)
        if z3.is_true(c2): return
        if z3.is_and(c2):
            for x in c2.children():
                s.pc.append(x); self.fact(s, x, True)
        else:
            s.pc.append(c2)
            self.fact(s, c2, True)
        self.fact(s, cond, True)

    def fact(self, s, c, val):
        if z3.is_not(c):
            c = c.arg(0); val = not val
        s.facts[c.get_id()] = (c, val)
        if val and z3.is_eq(c):
            a, b = c.arg(0), c.arg(1)
            if z3.is_bv_value(b) and z3.is_bv(a): s.facts[a.get_id()] = (a, b.as_long())
            elif z3.is_bv_value(a) and z3.is_bv(b): s.facts[b.get_id()] = (b, a.as_long())
        if z3.is_bool(c) and val is True and z3.is_app(c) and c.num_args() == 0:
            pass

    def known(self, s, c):
        neg = False
        if z3.is_not(c):
            c = c.arg(0); neg = True
        r = s.facts.get(c.get_id())
        if r is None: return None
        return (not r[1]) if neg else r[1]

    def conc(self, s, x):
        """use facts to make x concrete if possible"""
        if isinstance(x, int) or not isz(x): return x
        r = s.facts.get(x.get_id())
        if r is not None: return int(r[1])
        y = simp(x)
        if isinstance(y, int): return y
        r = s.facts.get(y.get_id())
        if r is not None: return int(r[1])
        return y

    def oblige(self, s, cond, kind, label, dbg=None, loc=None):
        """record proof obligation; on failure continue under the assumption that it holds"""
        fn = s.frames[-1].fn.name if s.frames else ''
        if isinstance(cond, (bool, int)) and not isz(cond):
            c = bool(cond)
        else:
            k = self.known(s, cond)
            if k is True: c = True
            else:
                c2 = z3.simplify(cond)
                c = True if z3.is_true(c2) or self.known(s, c2) is True else False if z3.is_false(c2) else c2
        if self.quiet:
            # discovery phase: assume
            if c is True: return
            if c is False: raise PathEnd()
            if not self.assume(s, c): raise PathEnd()
            return
        if loc is None:
            loc = self.mod.loc(dbg)
        key = (kind, label if kind in ('ensures', 'requires', 'terminate', 'contract-pre', 'invariant') else self.short(fn))
        ob = self.obl.get(key)
        if ob is None:
            ob = self.obl[key] = Obligation(key)
        ob.n += 1
        if c is True:
            ob.trivial += 1
            return
        if c is False:
            r, m = 'sat', s.model
            if m is None:
                r, m = self.check(s.pc)
            if r == 'unsat': raise PathEnd()
            f = Failure(key, loc, s, m, r == 'unknown', self.in_inv(s))
            f.info = label
            f.snapshot = self.snap(s)
            self.failures.append(f); ob.failed.append(f)
            if len(self.failures) >= self.o['stop_on_fail'] > 0: raise StopFail()
            raise PathEnd()
        t = time.time()
        neg = NOT(c)
        if self.model_true(s, neg):
            r, m = 'sat', s.model
        else:
            r, m = self.check(s.pc, neg)
        ob.time += time.time() - t
        if r == 'unsat':
            self.fact(s, c, True)
            return
        f = Failure(key, loc, s, m, r == 'unknown', self.in_inv(s))
        f.info = label
        f.snapshot = self.snap(s)
        f.neg = neg
        self.failures.append(f); ob.failed.append(f)
        if len(self.failures) >= self.o['stop_on_fail'] > 0: raise StopFail()
        if not self.assume(s, c): raise PathEnd()

    def snap(self, s):
        return (list(s.trace), list(s.pc))

    def in_inv(self, s):
        return s.approx

    _short = {}
    def short(self, name):
        r = self._short.get(name)
        if r is None:
            r = demangle(name)
            self._short[name] = r
        return r

    # ------------------------------------------------------------ memory
    def new_obj(self, s, size, kind, name='', node=None, const=False):
        o = Obj()
        o.id = next(self.next_obj)
        o.size = size
        o.kind = kind
        o.alive = True
        o.cells = {}
        if node is None:
            node = Node('base', z3.Array('m%d_%s' % (o.id, name), z3.BitVecSort(64), z3.BitVecSort(8)))
        o.node = node
        o.name = name
        o.const = const
        o.owner = s
        s.mem[o.id] = o
        return o

    def wobj(self, s, oid):
        o = self.getobj(s, oid)
        if o.owner is not s:
            o = o.copy()
            o.owner = s
            s.mem[oid] = o
        return o

    def getobj(self, s, oid):
        o = s.mem.get(oid)
        if o is None:
            if oid in self.objname:
                self.materialize_global(s, oid)
                return s.mem[oid]
            raise VfError('no object %s' % oid)
        return o

    def global_ptr(self, s, name):
        if name in self.mod.aliases:
            t, v = self.mod.aliases[name]
            return self.const(s, t, v)
        if name in self.mod.funcs:
            return Ptr('F:' + name, 0)
        oid = self.globals.get(name)
        if oid is None:
            oid = next(self.next_obj)
            self.globals[name] = oid
            self.objname[oid] = name
        return Ptr(oid, 0)

    def materialize_global(self, s, oid):
        b = self.base_mem.get(oid)
        if b is None:
            b = self._mk_global(s, oid)
            self.base_mem[oid] = b
        s.mem[oid] = b

    def _mk_global(self, s, oid):
        name = self.objname[oid]
        g = self.mod.globals.get(name)
        o = Obj()
        o.id = oid
        o.kind = 'global'
        o.alive = True
        o.cells = {}
        o.name = name
        o.const = bool(g and g.const)
        o.owner = None
        if g is None or g.init is None:
            o.size = 1 << 16
            o.node = Node('base', z3.Array('g_' + name, z3.BitVecSort(64), z3.BitVecSort(8)))
            if g is not None and g.type[0] != 'opaque':
                try: o.size = self.mod.types.size(g.type)
                except ParseError: pass
            return o
        o.size = self.mod.types.size(g.type)
        if g.init[0] == 'bytes':
            o.node = bytes_node(g.init[1])
        else:
            o.node = Node('zero', None)
            self.init_cells(s, o, 0, g.type, g.init)
        return o

    def init_cells(self, s, o, off, t, v):
        t = self.mod.types.resolve(t)
        k = v[0]
        if k in ('zero', 'undef', 'null'):
            if t[0] == 'ptr': o.cells[off] = (8, NULL)
            elif t[0] == 'struct':
                offs, _ = self.mod.types.layout(t)
                for f, x in zip(offs, t[1]): self.init_cells(s, o, off + f, x, ('zero',))
            elif t[0] == 'array':
                et = self.mod.types.resolve(t[2])
                if has_ptr(self.mod.types, et):
                    for i in range(t[1]): self.init_cells(s, o, off + i * self.mod.types.size(t[2]), t[2], ('zero',))
            return
        if t[0] == 'int':
            x = self.const(s, t, v)
            sz = self.mod.types.size(t)
            o.cells[off] = (sz, x)
        elif t[0] == 'ptr':
            o.cells[off] = (8, self.const(s, t, v))
        elif t[0] == 'struct':
            offs, _ = self.mod.types.layout(t)
            for f, (tt, vv) in zip(offs, v[1]): self.init_cells(s, o, off + f, tt, vv)
        elif t[0] == 'array':
            if k == 'bytes':
                for i, b in enumerate(v[1]): o.cells[off + i] = (1, b)
            else:
                es = self.mod.types.size(t[2])
                for i, (tt, vv) in enumerate(v[1]): self.init_cells(s, o, off + i * es, tt, vv)
        elif t[0] == 'float':
            pass
        else:
            raise VfError('init %r' % (t,))

    def deref(self, s, p, n, what, dbg):
        """safety obligation for access of n bytes (int or BV) at p"""
        if isinstance(p, PInt): p = p.p
        if not isinstance(p, Ptr):
            if p is UNDEF:
                self.oblige(s, False, 'memory', '%s through uninitialised pointer' % what, dbg)
            p = self.int2ptr(s, p, dbg)
        if p.obj == 0:
            self.oblige(s, False, 'memory', '%s through null pointer' % what, dbg)
        if isinstance(p.obj, str):
            self.oblige(s, False, 'memory', '%s of function' % what, dbg)
        o = self.getobj(s, p.obj)
        if not o.alive:
            self.oblige(s, False, 'memory', '%s of dead object %s (%s)' % (what, o.name, o.kind), dbg)
        if what == 'write' and o.const:
            self.oblige(s, False, 'memory', 'write to constant %s' % o.name, dbg)
        off = p.off
        if isinstance(off, int) and isinstance(n, int) and isinstance(o.size, int):
            off &= M64
            if off + n > o.size:
                self.oblige(s, False, 'memory', '%s out of bounds of %s: off %d size %d/%s' % (what, o.name, off, n, o.size), dbg)
            else:
                self.oblige(s, True, 'memory', what, dbg)
        else:
            # n <= size && off <= size - n
            c = AND(ULE(n, o.size), ULE(off, SUB(o.size, n)))
            self.oblige(s, c, 'memory', '%s out of bounds of %s' % (what, o.name), dbg)
        return o, off

    def int2ptr(self, s, x, dbg):
        if isinstance(x, Ptr): return x
        if isinstance(x, PInt): return x.p
        if isinstance(x, int):
            if x == 0: return NULL
            return Ptr(0, x)
        if x is UNDEF: return x
        y = self.conc(s, x)
        if isinstance(y, int): return self.int2ptr(s, y, dbg)
        raise VfError('inttoptr of symbolic')

    def flush_ints(self, o):
        """move int cells into node"""
        for off in sorted(o.cells):
            sz, v = o.cells[off]
            if isinstance(v, (Ptr, PInt, Wide)): continue
            if v is UNDEF:
                del o.cells[off]; continue
            if z3.is_bool(v) if isz(v) else False: v = zext(v, 1, 8 * sz)
            o.node = Node('bstore', (off, sz, v), o.node)
            del o.cells[off]

    def flushed(self, o):
        """node including the integer cells (object itself unchanged)"""
        if not o.cells: return o.node
        t = Obj()
        t.node = o.node; t.cells = dict(o.cells)
        self.flush_ints(t)
        return t.node

    def overl(self, o, off, n):
        """cells overlapping [off,off+n) concrete"""
        if len(o.cells) < n + 16:
            return [c for c, (sz, v) in o.cells.items() if c < off + n and off < c + sz]
        return [c for c in range(off - 16, off + n) if c in o.cells and c + o.cells[c][0] > off]

    def read(self, s, o, off, n, dbg=None):
        """n concrete bytes; returns raw value: int/BV(8n)/Ptr/PInt/Wide"""
        if isinstance(off, int):
            c = o.cells.get(off)
            if c is not None and c[0] == n:
                return c[1]
            ov = self.overl(o, off, n)
            if not ov:
                return concat_bytes([nread(o.node, off + j) for j in range(n)])
            if any(isinstance(o.cells[c][1], (Ptr, PInt, Wide)) for c in ov):
                if n > 8:
                    # wide integer copy
                    parts = []
                    j = 0
                    while j < n:
                        c = o.cells.get(off + j)
                        if c is not None and j + c[0] <= n:
                            parts.append((j, c[0], c[1])); j += c[0]
                        else:
                            parts.append((j, 1, self.read(s, o, off + j, 1))); j += 1
                    return Wide(parts, n)
                c = ov[0]
                if len(ov) == 1 and isinstance(o.cells[c][1], Wide):
                    return wide_extract(o.cells[c][1], off - c, n)
                v0 = o.cells[ov[0]][1]
                if isinstance(v0, Ptr) and v0.obj == 0 and isinstance(v0.off, int):
                    self_w = self.wobj(s, o.id)
                    self_w.cells[ov[0]] = (8, v0.off)
                    return self.read(s, self_w, off, n)
                raise VfError('partial pointer read at %s' % self.mod.loc(dbg))
            bs = []
            for j in range(n):
                bs.append(self.read_byte(o, off + j))
            return concat_bytes(bs)
        # symbolic offset
        if o.cells:
            pc = [(c, sz) for c, (sz, v) in o.cells.items() if isinstance(v, (Ptr, PInt, Wide))]
            if pc:
                off = self.pick_offset(s, o, off, n, pc)
                if isinstance(off, int): return self.read(s, o, off, n, dbg)
        nd = self.flushed(o)
        return concat_bytes([nread(nd, ADD(off, j)) for j in range(n)])

    def read_byte(self, o, off):
        c = o.cells.get(off)
        if c is not None and c[0] == 1: return c[1]
        for d in range(0, 16):
            c = o.cells.get(off - d)
            if c is not None:
                if c[0] > d:
                    v = c[1]
                    if v is UNDEF: return z3.FreshConst(z3.BitVecSort(8), 'undef')
                    if isinstance(v, (Ptr, PInt, Wide)): raise VfError('byte of pointer')
                    if isz(v) and z3.is_bool(v): v = zext(v, 1, 8 * c[0])
                    return byte_of(v, d, c[0])
                break
        return nread(o.node, off)

    def pick_offset(self, s, o, off, n, pcells):
        """symbolic offset into object with pointer cells: prove disjoint, or enumerate values by forking"""
        k = self.conc(s, off)
        if isinstance(k, int): return k
        dis = AND(*[OR(ULE(ADD(off, n), c), ULE(c + sz, off)) for c, sz in pcells])
        if self.check(s.pc, NOT(dis))[0] == 'unsat': return off
        if self.nofork: raise VfError('offset into pointer array')
        vals = []
        pc = list(s.pc)
        while True:
            r, m = self.check(pc)
            if r != 'sat': break
            v = m.bv(off)
            vals.append(v)
            if len(vals) > 64: raise VfError('too many offsets into pointer array %s' % o.name)
            pc.append(off != bvv(v, 64))
        raise Fork([off == bvv(v, 64) for v in vals])

    def write(self, s, o, off, n, v, dbg=None):
        o = self.wobj(s, o.id)
        if isinstance(off, int):
            c = o.cells.get(off)
            if c is not None and c[0] == n:
                o.cells[off] = (n, v)
                return
            self.clear_cells(s, o, off, n)
            o.cells[off] = (n, v)
            return
        off = self.conc(s, off)
        if isinstance(off, int): return self.write(s, o, off, n, v, dbg)
        pc = [(c, sz) for c, (sz, x) in o.cells.items() if isinstance(x, (Ptr, PInt, Wide))]
        if pc or isinstance(v, (Ptr, PInt, Wide)):
            off2 = self.pick_offset(s, o, off, n, pc or [(0, (1 << 63))])
            if isinstance(off2, int): return self.write(s, o, off2, n, v, dbg)
            if isinstance(v, (Ptr, PInt, Wide)):
                raise VfError('pointer store at symbolic offset')
        self.flush_ints(o)
        if v is UNDEF: v = z3.FreshConst(z3.BitVecSort(8 * n), 'undef')
        if isz(v) and z3.is_bool(v): v = zext(v, 1, 8 * n)
        o.node = Node('bstore', (off, n, v), o.node)

    def clear_cells(self, s, o, off, n):
        for c in self.overl(o, off, n):
            sz, v = o.cells.pop(c)
            if c >= off and c + sz <= off + n: continue
            # partial overlap: split
            if isinstance(v, (Ptr, PInt)):
                if isinstance(v, Ptr) and v.obj == 0 and isinstance(v.off, int): v = v.off
                else:
                    v = z3.FreshConst(z3.BitVecSort(64), 'clobbered')
            if isinstance(v, Wide):
                for (po, psz, pv) in v.parts:
                    if c + po + psz <= off or c + po >= off + n: o.cells[c + po] = (psz, pv)
                continue
            if v is UNDEF: v = z3.FreshConst(z3.BitVecSort(8 * sz), 'undef')
            if isz(v) and z3.is_bool(v): v = zext(v, 1, 8 * sz)
            for j in range(sz):
                if not (off <= c + j < off + n):
                    o.cells[c + j] = (1, byte_of(v, j, sz))

    def memcopy(self, s, d, src, n, dbg, move):
        n = self.conc(s, n)
        if isinstance(n, int) and n == 0: return
        if isinstance(d, PInt): d = d.p
        if isinstance(src, PInt): src = src.p
        d = self.fix_ptr(s, d); src = self.fix_ptr(s, src)
        if not isinstance(n, int):
            # n may be zero: pointers need not be valid then
            z = self.branch(s, EQ(n, 0))
            if z: return
        so, soff = self.deref(s, src, n, 'read', dbg)
        do, doff = self.deref(s, d, n, 'write', dbg)
        if so.id == do.id and not move:
            c = OR(EQ(soff, doff), ULE(ADD(soff, n), doff), ULE(ADD(doff, n), soff))
            self.oblige(s, c, 'memory', 'memcpy ranges overlap', dbg)
        soff = self.conc(s, soff); doff = self.conc(s, doff)
        if isinstance(n, int) and isinstance(soff, int) and isinstance(doff, int) and n <= 65536:
            cells = [(c, so.cells[c]) for c in self.overl(so, soff, n)]
            if not isz(n) and n > 4096 and not cells:
                pass
            else:
                # partially overlapped source cells
                out = {}
                partial = []
                for c, (sz, v) in cells:
                    if c >= soff and c + sz <= soff + n: out[c - soff + doff] = (sz, v)
                    else: partial.append(c)
                if partial:
                    for c in partial:
                        sz, v = so.cells[c]
                        for j in range(sz):
                            if soff <= c + j < soff + n:
                                out[c + j - soff + doff] = (1, self.read(s, so, c + j, 1))
                srcnode = so.node
                dw = self.wobj(s, do.id)
                self.clear_cells(s, dw, doff, n)
                covered = sum(sz for sz, v in out.values())
                if covered < n:
                    dw.node = Node('copy', (doff, n, srcnode, soff), dw.node)
                for c, x in out.items(): dw.cells[c] = x
                return
        # symbolic
        sp = [(c, sz) for c, (sz, v) in so.cells.items() if isinstance(v, (Ptr, PInt, Wide))]
        if sp:
            dis = AND(*[OR(ULE(ADD(soff, n), c), ULE(c + sz, soff)) for c, sz in sp])
            if not self.valid(s, dis):
                # enumerate n and offset
                for x in (n, soff, doff):
                    if not isinstance(x, int):
                        raise Fork([x == bvv(v, 64) for v in self.enum_vals(s, x, 64)])
                raise VfError('memcpy of pointers')
        srcnode = self.flushed(so)
        dw = self.wobj(s, do.id)
        dp = [(c, sz) for c, (sz, v) in dw.cells.items() if isinstance(v, (Ptr, PInt, Wide))]
        if dp:
            dis = AND(*[OR(ULE(ADD(doff, n), c), ULE(c + sz, doff)) for c, sz in dp])
            if not self.valid(s, dis): raise VfError('symbolic memcpy over pointers')
        self.flush_ints(dw)
        dw.node = Node('copy', (doff, n, srcnode, soff), dw.node)

    def enum_vals(self, s, x, limit):
        vals = []
        pc = list(s.pc)
        while True:
            r, m = self.check(pc)
            if r != 'sat': break
            v = m.bv(x)
            vals.append(v)
            if len(vals) > limit: raise VfError('too many values')
            pc.append(x != bvv(v, x.size()))
        return vals

    def valid(self, s, cond):
        if cond is True: return True
        if cond is False: return False
        if self.model_true(s, NOT(cond)): return False
        return self.check(s.pc, NOT(cond))[0] == 'unsat'

    def memset(self, s, d, v, n, dbg):
        n = self.conc(s, n)
        if isinstance(n, int) and n == 0: return
        d = self.fix_ptr(s, d)
        if not isinstance(n, int):
            if self.branch(s, EQ(n, 0)): return
        do, doff = self.deref(s, d, n, 'write', dbg)
        doff = self.conc(s, doff)
        dw = self.wobj(s, do.id)
        if isinstance(n, int) and isinstance(doff, int):
            self.clear_cells(s, dw, doff, n)
            if n <= 256 and isinstance(v, int) and n % 8 == 0:
                for j in range(0, n, 8):
                    dw.cells[doff + j] = (8, int.from_bytes(bytes([v & 255]) * 8, 'little'))
                return
        else:
            if any(isinstance(x, (Ptr, PInt, Wide)) for sz, x in dw.cells.values()): raise VfError('symbolic memset over pointers')
            self.flush_ints(dw)
        dw.node = Node('set', (doff, n, v), dw.node)

    def fix_ptr(self, s, p):
        if isinstance(p, PInt): return p.p
        if isinstance(p, Ptr) or p is UNDEF: return p
        return self.int2ptr(s, p, None)

    # typed
    def load(self, s, t, p, dbg):
        t = self.mod.types.resolve(t)
        k = t[0]
        if k in ('int', 'ptr'):
            n = 8 if k == 'ptr' else (t[1] + 7) // 8
            o, off = self.deref(s, p, n, 'read', dbg)
            v = self.read(s, o, self.conc(s, off), n, dbg)
            return self.from_raw(s, t, v, n, dbg)
        if k == 'struct':
            offs, _ = self.mod.types.layout(t)
            return [self.load(s, x, Ptr(p.obj, ADD(p.off, f)), dbg) for f, x in zip(offs, t[1])]
        if k == 'array':
            es = self.mod.types.size(t[2])
            return [self.load(s, t[2], Ptr(p.obj, ADD(p.off, i * es)), dbg) for i in range(t[1])]
        if k == 'float':
            return UNDEF
        raise VfError('load %r' % (t,))

    def from_raw(self, s, t, v, n, dbg):
        if t[0] == 'ptr':
            if isinstance(v, Ptr) or v is UNDEF: return v
            if isinstance(v, PInt): return v.p
            if isinstance(v, Wide): raise VfError('wide->ptr')
            if isinstance(v, int):
                return NULL if v == 0 else Ptr(0, v)
            x = self.conc(s, v)
            if isinstance(x, int): return NULL if x == 0 else Ptr(0, x)
            return Ptr(-1, x)        # uninitialised/garbage pointer
        w = t[1]
        if isinstance(v, Ptr):
            if v.obj == 0 and isinstance(v.off, int): return v.off
            return PInt(v)
        if isinstance(v, (PInt, Wide)): return v
        if v is UNDEF: return UNDEF
        if isz(v) and z3.is_bool(v):
            return v if w == 1 else zext(v, 1, w)
        if isinstance(v, int): return v & ((1 << w) - 1)
        if v.size() > w: return trunc(v, v.size(), w)
        return v

    def store(self, s, t, v, p, dbg):
        t = self.mod.types.resolve(t)
        k = t[0]
        if k in ('int', 'ptr'):
            n = 8 if k == 'ptr' else (t[1] + 7) // 8
            o, off = self.deref(s, p, n, 'write', dbg)
            if k == 'int' and isz(v):
                if z3.is_bool(v): v = zext(v, 1, 8 * n)
                elif v.size() != 8 * n: v = zext(v, v.size(), 8 * n)
            self.write(s, o, self.conc(s, off), n, v, dbg)
            return
        if k == 'struct':
            offs, _ = self.mod.types.layout(t)
            for i, (f, x) in enumerate(zip(offs, t[1])):
                self.store(s, x, v[i] if v is not UNDEF else UNDEF, Ptr(p.obj, ADD(p.off, f)), dbg)
            return
        if k == 'array':
            es = self.mod.types.size(t[2])
            for i in range(t[1]): self.store(s, t[2], v[i] if v is not UNDEF else UNDEF, Ptr(p.obj, ADD(p.off, i * es)), dbg)
            return
        if k == 'float':
            return
        raise VfError('store %r' % (t,))

    # ------------------------------------------------------------ constants/operands
    def const(self, s, t, v):
        k = v[0]
        if k == 'int':
            w = self.mod.types.resolve(t)[1]
            return v[1] & ((1 << w) - 1)
        if k == 'null': return NULL
        if k == 'glob': return self.global_ptr(s, v[1])
        if k == 'undef':
            return self.undef(t)
        if k == 'zero':
            t = self.mod.types.resolve(t)
            if t[0] == 'int': return 0
            if t[0] == 'ptr': return NULL
            if t[0] == 'struct': return [self.const(s, x, v) for x in t[1]]
            if t[0] == 'array': return [self.const(s, t[2], v) for _ in range(t[1])]
        if k == 'agg':
            return [self.const(s, a, b) for a, b in v[1]]
        if k == 'bytes':
            return list(v[1])
        if k == 'cgep':
            base = self.const(s, *v[2])
            return self.gep(s, v[1], base, [(tt, self.const(s, tt, vv)) for tt, vv in v[3]])
        if k == 'ccast':
            x = self.const(s, *v[2])
            return self.cast(s, v[1], v[2][0], x, v[3], None)
        if k == 'cbin':
            a = self.const(s, *v[2]); b = self.const(s, *v[3])
            return self.bin(s, v[1], set(), v[2][0], a, b, None)
        if k == 'fp': return UNDEF
        raise VfError('const ' + k)

    def undef(self, t):
        t = self.mod.types.resolve(t)
        if t[0] == 'struct': return [self.undef(x) for x in t[1]]
        if t[0] == 'array': return [self.undef(t[2]) for _ in range(t[1])]
        return UNDEF

    def val(self, s, fr, t, v):
        if v[0] == 'reg':
            try:
                return fr.regs[v[1]]
            except KeyError:
                raise VfError('undefined reg %s in %s' % (v[1], fr.fn.name))
        return self.const(s, t, v)

    def gep(self, s, t, base, idx):
        if isinstance(base, PInt): base = base.p
        if base is UNDEF: return UNDEF
        off = base.off
        ty = self.mod.types
        first = True
        for (it, iv) in idx:
            w = it[1]
            if first:
                es = ty.size(t)
                first = False
                off = self.addscaled(off, iv, w, es)
                continue
            t = ty.resolve(t)
            if t[0] == 'struct':
                offs, _ = ty.layout(t)
                off = ADD(off, offs[iv])
                t = t[1][iv]
            elif t[0] == 'array':
                off = self.addscaled(off, iv, w, ty.size(t[2]))
                t = t[2]
            else:
                raise VfError('gep')
        return Ptr(base.obj, off)

    def addscaled(self, off, iv, w, es):
        if iv is UNDEF: raise VfError('gep undef')
        if isinstance(iv, PInt):
            # p + (intptr q): e.g. null-based arithmetic
            raise VfError('gep with pointer index')
        if isinstance(iv, int):
            d = sgn(iv, w) * es & M64
            return simp(ADD(off, d)) if isz(off) else (off + d) & M64
        x = sext(iv, w, 64)
        if es != 1: x = binop('mul', 64, x, es)
        return simp(ADD(off, x))

    # ------------------------------------------------------------ branching
    def branch(self, s, cond):
        """decide cond in this state, forking if needed; returns python bool"""
        if isinstance(cond, (bool, int)): return bool(cond)
        k = self.known(s, cond)
        if k is not None: return bool(k)
        c = z3.simplify(cond)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        k = self.known(s, c)
        if k is not None: return bool(k)
        if self.collect_atoms is not None: self.collect_atoms.append(c)
        ft, mt = self.feasible(s, c)
        if not ft:
            self.fact(s, c, False); self.fact(s, cond, False)
            return False
        nc = NOT(c)
        ff, mf = self.feasible(s, nc)
        if not ff:
            self.fact(s, c, True); self.fact(s, cond, True)
            return True
        raise Fork([(c, mt, cond), (nc, mf, NOT(cond))])

    # ------------------------------------------------------------ ops
    def ptrval(self, s, p):
        """integer address as BV: symbolic base per object"""
        if isinstance(p, PInt): p = p.p
        if p.obj == 0: return p.off
        if p.obj == -1: return p.off
        a = z3.BitVec('addr_%s' % p.obj, 64)
        o = None
        # non-null, no wrap
        cons = z3.And(z3.UGE(a, bvv(4096, 64)), z3.ULT(a, bvv(1 << 47, 64)), z3.Extract(3, 0, a) == bvv(0, 4))
        if self.known(s, cons) is None and cons.get_id() not in s.facts:
            s.pc.append(cons); s.facts[cons.get_id()] = (cons, True); s.model = None
        return ADD(a, p.off)

    def bin(self, s, op, flags, t, a, b, dbg):
        w = t[1]
        if w == 1:
            a1, b1 = a, b
            if a is UNDEF or b is UNDEF: return UNDEF
            if op == 'and': r = AND(tobool(a1), tobool(b1))
            elif op == 'or': r = OR(tobool(a1), tobool(b1))
            elif op in ('xor', 'add', 'sub'):
                x, y = tobool(a1), tobool(b1)
                if y is True: r = NOT(x)
                elif y is False: r = x
                elif x is True: r = NOT(y)
                elif x is False: r = y
                else: r = z3.Xor(x, y)
            else: raise VfError('i1 ' + op)
            return int(r) if isinstance(r, bool) else r
        if isinstance(a, PInt) or isinstance(b, PInt):
            if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt) and a.p.obj == b.p.obj:
                return simp(SUB(a.p.off, b.p.off))
            if op in ('add', 'sub') and isinstance(a, PInt) and not isinstance(b, PInt) and b is not UNDEF:
                return PInt(Ptr(a.p.obj, simp(binop(op, 64, a.p.off, b))))
            if op == 'add' and isinstance(b, PInt) and a is not UNDEF and not isinstance(a, PInt):
                return PInt(Ptr(b.p.obj, simp(ADD(b.p.off, a))))
            if op == 'and' and isinstance(b, int) and isinstance(a, PInt):
                # alignment: bases are 16-byte aligned
                m = b
                if m == (m | (M64 ^ 15)) or m in (0xfffffffffffffff8, 0xfffffffffffffffc):
                    return PInt(Ptr(a.p.obj, simp(binop('and', 64, a.p.off, m))))
                if 0 <= m <= 15:
                    return simp(binop('and', 64, a.p.off, m))
            if op in ('or', 'xor') and isinstance(b, int) and isinstance(a, PInt) and 0 <= b <= 15:
                return PInt(Ptr(a.p.obj, simp(binop(op, 64, a.p.off, b))))
            if isinstance(a, PInt): a = self.ptrval(s, a)
            if isinstance(b, PInt): b = self.ptrval(s, b)
        if isinstance(a, Wide) or isinstance(b, Wide):
            if op == 'lshr' and isinstance(b, int) and b % 8 == 0:
                return Wide([(o - b // 8, sz, v) for (o, sz, v) in a.parts if o >= b // 8], a.n)
            raise VfError('wide int arithmetic')
        if a is UNDEF or b is UNDEF: return UNDEF
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            self.oblige(s, NOT(EQ(b, 0, w)), 'arith', 'division by zero', dbg)
            if op in ('sdiv', 'srem') and not (isinstance(b, int) and b != (1 << w) - 1):
                self.oblige(s, NOT(AND(EQ(a, 1 << (w-1), w), EQ(b, (1 << w) - 1, w))), 'arith', 'signed division overflow', dbg)
        if op in ('shl', 'lshr', 'ashr') and not isinstance(b, int):
            self.oblige(s, ULT(b, w, w), 'arith', 'shift amount', dbg)
        if 'nsw' in flags and not (isinstance(a, int) and isinstance(b, int) and op == 'shl'):
            self.oblige(s, nsw_ok(op, w, a, b), 'arith', 'signed overflow in ' + op, dbg)
        if 'nuw' in flags and not ('nsw' in flags and op == 'shl'):
            self.oblige(s, nuw_ok(op, w, a, b), 'arith', 'unsigned overflow in ' + op, dbg)
        r = binop(op, w, a, b)
        return r

    def icmp(self, s, pred, t, a, b, dbg):
        t = self.mod.types.resolve(t)
        if t[0] == 'ptr' or isinstance(a, (PInt, Ptr)) or isinstance(b, (PInt, Ptr)):
            pa = self.fix_ptr_soft(a); pb = self.fix_ptr_soft(b)
            if pa is UNDEF or pb is UNDEF: return UNDEF
            if isinstance(pa, Ptr) and isinstance(pb, Ptr):
                if pa.obj == pb.obj:
                    if isinstance(pa.obj, str): r = True if pred == 'eq' else False if pred == 'ne' else None
                    else: r = cmpop(pred, 64, pa.off, pb.off)
                    return int(r) if isinstance(r, bool) else r
                if pred in ('eq', 'ne'):
                    if pa.obj != -1 and pb.obj != -1:
                        return int(pred == 'ne')
                return self.b2i(cmpop(pred, 64, self.ptrval(s, pa) if not isinstance(pa.obj, str) else 0x1000, self.ptrval(s, pb) if not isinstance(pb.obj, str) else 0x1000))
            x = self.ptrval(s, pa) if isinstance(pa, Ptr) else pa
            y = self.ptrval(s, pb) if isinstance(pb, Ptr) else pb
            return self.b2i(cmpop(pred, 64, x, y))
        if a is UNDEF or b is UNDEF: return UNDEF
        w = t[1]
        if w == 1:
            x, y = tobool(a), tobool(b)
            if isinstance(x, bool) and isinstance(y, bool): r = (x == y) if pred == 'eq' else (x != y)
            elif pred in ('eq', 'ne'):
                if isinstance(x, bool): x, y = y, x
                if isinstance(y, bool):
                    r = x if (y == (pred == 'eq')) else NOT(x)
                else:
                    r = (x == y) if pred == 'eq' else (x != y)
            else: raise VfError('icmp i1')
            return self.b2i(r)
        if isinstance(a, Wide) or isinstance(b, Wide): raise VfError('wide icmp')
        return self.b2i(cmpop(pred, w, a, b))

    def b2i(self, r):
        return int(r) if isinstance(r, bool) else r

    def fix_ptr_soft(self, p):
        if isinstance(p, PInt): return p.p
        if isinstance(p, int): return Ptr(0, p)
        return p

    def cast(self, s, op, t, v, t2, dbg):
        ty = self.mod.types
        t = ty.resolve(t); t2 = ty.resolve(t2)
        if op == 'bitcast': return v
        if op == 'ptrtoint':
            if v is UNDEF: return UNDEF
            if isinstance(v, PInt): v = v.p
            if isinstance(v.obj, str):
                return PInt(v)
            if v.obj == 0:
                return trunc(v.off, 64, t2[1])
            if t2[1] == 64: return PInt(v)
            return trunc(self.ptrval(s, v), 64, t2[1])
        if op == 'inttoptr':
            if v is UNDEF: return UNDEF
            return self.int2ptr(s, v, dbg)
        if v is UNDEF: return UNDEF
        if isinstance(v, PInt):
            if op in ('zext', 'sext') and t[1] == 64:
                return Wide([(0, 8, v)] + [(8 + i, 1, 0) for i in range(t2[1] // 8 - 8)], t2[1] // 8)
            v = self.ptrval(s, v)
        if isinstance(v, Wide):
            if op == 'trunc':
                return wide_extract(v, 0, t2[1] // 8)
            raise VfError('wide cast')
        w, w2 = t[1], t2[1]
        if op == 'trunc': return trunc(v, w, w2)
        if op == 'zext': return zext(v, w, w2)
        if op == 'sext': return sext(v, w, w2)
        raise VfError('cast ' + op)

    # ------------------------------------------------------------ run
    def push_frame(self, s, fn, args, call):
        fn.parse()
        fr = Frame()
        fr.fn = fn
        fr.blk = fn.order[0]
        fr.i = 0
        fr.prev = None
        fr.regs = {}
        fr.allocas = []
        fr.call = call
        fr.depth = len(s.frames)
        fr.loopcount = {}
        fr.ctx = None
        fr.loopctx = None
        if len(s.frames) > self.o['max_depth']:
            self.oblige(s, False, 'terminate', 'unbounded recursion in ' + self.short(fn.name))
        if len(args) != len(fn.params):
            raise VfError('argument count mismatch calling ' + fn.name)
        for (t, n, at), a in zip(fn.params, args):
            if 'byval' in at:
                size = self.mod.types.size(at['byval'])
                o = self.new_obj(s, size, 'stack', 'byval_' + n)
                self.memcopy(s, Ptr(o.id, 0), a, size, None, True)
                fr.allocas.append(o.id)
                a = Ptr(o.id, 0)
            fr.regs[n] = a
        s.frames.append(fr)
        self.functions_executed[fn.name] = self.functions_executed.get(fn.name, 0) + 1
        if 'main' not in s.frames[0].fn.name and False: pass

    def initial(self, fname):
        s = State()
        s.frames = []
        s.mem = {}
        s.pc = []
        s.model = None
        s.trace = []
        s.facts = {}
        s.exc = None
        s.landing = None
        s.caught = []
        s.steps = 0
        s.stop = None
        s.approx = False
        s.hints = ()
        s.arrived = None
        self.push_frame(s, self.mod.funcs[fname], [], None)
        return s

    def run(self, fname):
        """explore all paths of a contract harness"""
        s = self.initial(fname)
        # run global constructors first
        gc = self.mod.globals.get('llvm.global_ctors')
        if gc is not None and gc.init and gc.init[0] == 'agg' and not self.o.get('skip_ctors'):
            for (t, e) in reversed(gc.init[1]):
                p = self.const(s, *e[1][1])
                if isinstance(p.obj, str):
                    self.push_frame(s, self.mod.funcs[p.obj[2:]], [], None)
        self.explore([s], None)

    def explore(self, work, inloop):
        """inloop: None or a Loop context: states arriving at its header (same frame depth) are collected,
        states leaving the loop are returned in exits"""
        ends = []
        while work:
            s = work.pop()
            try:
                res = self.run_state(s, inloop)
            except Fork as f:
                res = self.fork(s, f.conds)
            except PathEnd:
                self.npaths += 1
                if self.npaths > self.o['max_paths']: raise VfError('too many paths')
                continue
            if res is None:
                self.npaths += 1
                if self.npaths > self.o['max_paths']: raise VfError('too many paths')
                continue
            if isinstance(res, tuple):
                ends.append(res)
                continue
            for x in res:
                if isinstance(x, tuple): ends.append(x)
                else: work.append(x)
        return ends

    def fork(self, s, conds):
        out = []
        n = len(conds)
        for i, c in enumerate(conds):
            model = None
            orig = None
            if isinstance(c, tuple):
                c, model, orig = c
            s2 = s.copy() if i < n - 1 else s
            if i == n - 1 and n > 1:
                pass
            if isinstance(conds[i], tuple):
                s2.model = model
                self.add_pc(s2, orig if orig is not None else c, c)
                out.append(s2)
            else:
                if i == n - 1 and False: pass
                if self.assume(s2, c):
                    if orig is not None: self.fact(s2, orig, True)
                    out.append(s2)
        if n > 1:
            for x in out:
                for o in list(x.mem.values()):
                    pass
        return list(reversed(out))

    def run_state(self, s, inloop):
        self.cur_inloop = inloop
        while True:
            fr = s.frames[-1]
            ins = fr.blk.instrs[fr.i]
            s.steps += 1
            r = self.step(s, fr, ins, inloop)
            if r is not None:
                return r if r != 'end' else None

    def goto(self, s, fr, target, inloop):
        """jump to block; handles phis and loop headers; returns None to continue or result"""
        fn = fr.fn
        at_loop = inloop is not None and fr.depth == inloop.depth
        if at_loop and target not in inloop.body:
            return ('exit', s, target)
        blk = fn.blocks[target]
        prevname = fr.blk.name
        newregs = {}
        i = 0
        for ins in blk.instrs:
            if ins.op != 'phi': break
            t, inc = ins.a
            for v, lab in inc:
                if lab == prevname:
                    newregs[ins.res] = self.val(s, fr, t, v)
                    break
            else:
                raise VfError('phi: no incoming')
            i += 1
        fr.regs.update(newregs)
        fr.prev = prevname
        fr.blk = blk
        fr.i = i
        if at_loop and target == inloop.header:
            return ('arrive', s)
        if target in fn.loops:
            body = fn.loops[target]
            isback = prevname in body
            key = (fn.name, target)
            if not isback:
                fr.loopcount = dict(fr.loopcount)
                fr.loopcount[target] = (0, len(s.pc), 0)
                if key in self.inv_loops and not self.o['bmc']:
                    import loops
                    return loops.handle(self, s, fr, target, inloop)
            else:
                cnt, npc, sym = fr.loopcount.get(target, (0, 0, 0))
                symb = len(s.pc) != npc
                cnt += 1
                if symb: sym += 1
                fr.loopcount = dict(fr.loopcount)
                fr.loopcount[target] = (cnt, len(s.pc), sym)
                if self.o['bmc']:
                    if sym > self.o['bmc_unroll'] or cnt > self.o['concrete_unroll']:
                        self.cut_paths += 1
                        raise PathEnd()
                elif sym > self.o['unroll'] or cnt > self.o['concrete_unroll']:
                    raise NeedInvariant(key)
        return None

    def step(self, s, fr, ins, inloop):
        op = ins.op
        if op == 'load':
            t, (pt, pv) = ins.a
            fr.regs[ins.res] = self.load(s, t, self.chkptr(s, self.val(s, fr, pt, pv), ins), ins.dbg)
            fr.i += 1
        elif op == 'store':
            (t, v), (pt, pv) = ins.a
            self.store(s, t, self.val(s, fr, t, v), self.chkptr(s, self.val(s, fr, pt, pv), ins), ins.dbg)
            fr.i += 1
        elif op == 'getelementptr':
            t, (bt, b), idx, inb = ins.a
            base = self.val(s, fr, bt, b)
            fr.regs[ins.res] = self.gep(s, t, base, [(it, self.conc(s, self.val(s, fr, it, iv))) for it, iv in idx])
            fr.i += 1
        elif op == 'bin':
            o, flags, t, a, b = ins.a
            fr.regs[ins.res] = self.bin(s, o, flags, t, self.val(s, fr, t, a), self.val(s, fr, t, b), ins.dbg)
            fr.i += 1
        elif op == 'icmp':
            pred, t, a, b = ins.a
            fr.regs[ins.res] = self.icmp(s, pred, t, self.val(s, fr, t, a), self.val(s, fr, t, b), ins.dbg)
            fr.i += 1
        elif op == 'cast':
            o, t, v, t2 = ins.a
            fr.regs[ins.res] = self.cast(s, o, t, self.val(s, fr, t, v), t2, ins.dbg)
            fr.i += 1
        elif op == 'br':
            if len(ins.a) == 1:
                return self.goto(s, fr, ins.a[0], inloop)
            (t, c), x, y = ins.a
            cv = self.val(s, fr, t, c)
            if cv is UNDEF:
                self.oblige(s, False, 'memory', 'branch on uninitialised value', ins.dbg)
            b = self.branch(s, tobool(cv))
            return self.goto(s, fr, x if b else y, inloop)
        elif op == 'switch':
            (t, v), d, cases = ins.a
            x = self.val(s, fr, t, v)
            if x is UNDEF:
                self.oblige(s, False, 'memory', 'switch on uninitialised value', ins.dbg)
            x = self.conc(s, x)
            w = t[1]
            if isinstance(x, int):
                for c, lab in cases:
                    if c & ((1 << w) - 1) == x:
                        return self.goto(s, fr, lab, inloop)
                return self.goto(s, fr, d, inloop)
            groups = {}
            for c, lab in cases: groups.setdefault(lab, []).append(c & ((1 << w) - 1))
            allc = []
            for lab, cs in groups.items():
                if lab == d: continue
                cond = member(x, cs, w)
                allc += cs
                if self.branch(s, cond):
                    return self.goto(s, fr, lab, inloop)
            return self.goto(s, fr, d, inloop)
        elif op in ('call', 'invoke'):
            return self.call(s, fr, ins, inloop)
        elif op == 'ret':
            v = None
            if ins.a is not None: v = self.val(s, fr, *ins.a)
            return self.do_ret(s, v, inloop)
        elif op == 'alloca':
            t, cnt = ins.a
            size = self.mod.types.size(t)
            if cnt is not None:
                c = self.val(s, fr, *cnt)
                size = binop('mul', 64, size, zext(c, cnt[0][1], 64))
            o = self.new_obj(s, size, 'stack', '%s' % (ins.res,))
            fr.allocas.append(o.id)
            fr.regs[ins.res] = Ptr(o.id, 0)
            fr.i += 1
        elif op == 'select':
            (ct, c), (at, a), (bt, b) = ins.a
            cv = self.val(s, fr, ct, c)
            va = self.val(s, fr, at, a); vb = self.val(s, fr, bt, b)
            if cv is UNDEF:
                self.oblige(s, False, 'memory', 'select on uninitialised value', ins.dbg)
            cv = tobool(cv)
            if isinstance(cv, bool): r = va if cv else vb
            else:
                rt = self.mod.types.resolve(at)
                if rt[0] == 'int' and not isinstance(va, (PInt, Wide)) and not isinstance(vb, (PInt, Wide)) and va is not UNDEF and vb is not UNDEF:
                    if rt[1] == 1:
                        va, vb = tobool(va), tobool(vb)
                        r = OR(AND(cv, va), AND(NOT(cv), vb))
                        r = self.b2i(r)
                    else: r = ITE(cv, va, vb, rt[1])
                elif isinstance(va, Ptr) and isinstance(vb, Ptr) and va.obj == vb.obj and not isinstance(va.obj, str):
                    r = Ptr(va.obj, ITE(cv, va.off, vb.off, 64))
                else:
                    r = va if self.branch(s, cv) else vb
            fr.regs[ins.res] = r
            fr.i += 1
        elif op == 'extractvalue':
            (t, v), idx = ins.a
            x = self.val(s, fr, t, v)
            for k in idx: x = x[k] if x is not UNDEF else UNDEF
            fr.regs[ins.res] = x
            fr.i += 1
        elif op == 'insertvalue':
            (t, v), (et, e), idx = ins.a
            x = self.val(s, fr, t, v)
            ev = self.val(s, fr, et, e)
            fr.regs[ins.res] = insert(x if x is not UNDEF else self.undef(t), idx, ev)
            fr.i += 1
        elif op == 'unreachable':
            self.oblige(s, False, 'unreachable', 'unreachable code reached (undefined behaviour)', ins.dbg)
        elif op == 'landingpad':
            fr.regs[ins.res] = s.landing
            fr.i += 1
        elif op == 'resume':
            x = self.val(s, fr, *ins.a)
            return self.unwind(s, inloop, resume=True)
        elif op == 'freeze':
            x = self.val(s, fr, *ins.a)
            if x is UNDEF:
                x = z3.FreshConst(z3.BitVecSort(ins.a[0][1]), 'freeze') if ins.a[0][0] == 'int' and ins.a[0][1] > 1 else 0
            fr.regs[ins.res] = x
            fr.i += 1
        elif op == 'atomicrmw':
            k, (pt, pv), (t, v) = ins.a
            p = self.val(s, fr, pt, pv)
            old = self.load(s, t, p, ins.dbg)
            x = self.val(s, fr, t, v)
            if k == 'xchg': nv = x
            elif k in ('add', 'sub', 'and', 'or', 'xor'): nv = self.bin(s, k, set(), t, old, x, ins.dbg)
            else: raise VfError('atomicrmw ' + k)
            self.store(s, t, nv, p, ins.dbg)
            fr.regs[ins.res] = old
            fr.i += 1
        elif op == 'cmpxchg':
            (pt, pv), (t, c), (t2, nv) = ins.a
            p = self.val(s, fr, pt, pv)
            old = self.load(s, t, p, ins.dbg)
            cv = self.val(s, fr, t, c)
            eq = self.icmp(s, 'eq', t, old, cv, ins.dbg)
            if self.branch(s, tobool(eq)):
                self.store(s, t, self.val(s, fr, t2, nv), p, ins.dbg)
                fr.regs[ins.res] = [old, 1]
            else:
                fr.regs[ins.res] = [old, 0]
            fr.i += 1
        elif op == 'fence':
            fr.i += 1
        elif op == 'phi':
            raise VfError('phi in the middle')
        elif op == 'float':
            fr.regs[ins.res] = UNDEF
            fr.i += 1
        elif op == 'asm':
            if '""' in ins.text:
                fr.i += 1
            else:
                raise VfError('inline asm: ' + ins.text[:100])
        else:
            raise VfError('op ' + op)
        return None

    def chkptr(self, s, p, ins):
        if p is UNDEF:
            self.oblige(s, False, 'memory', 'access through uninitialised pointer', ins.dbg)
        if isinstance(p, PInt): return p.p
        if p.obj == -1:
            self.oblige(s, False, 'memory', 'access through invalid pointer', ins.dbg)
        return p

    def do_ret(self, s, v, inloop):
        fr = s.frames.pop()
        for oid in fr.allocas:
            o = self.wobj(s, oid)
            o.alive = False
            o.cells = {}
        # drop dead stack objects entirely would lose dangling detection; keep a tombstone
        if inloop is not None and fr.depth <= inloop.depth:
            return ('exitret', s, v, fr)
        return self.finish_ret(s, v, fr)

    def finish_ret(self, s, v, fr):
        if not s.frames:
            self.on_end(s)
            return 'end'
        call = fr.call
        top = s.frames[-1]
        if call is None:
            return None      # global ctor: next frame starts by itself
        if call == 'cleanup-dtor':
            return None
        if call.res is not None:
            top.regs[call.res] = v
        if call.op == 'invoke':
            # jump to normal dest. goto may involve loops
            return self.goto(s, top, call.a['normal'], self.cur_inloop)
        top.i += 1
        return None

    cur_inloop = None

    def on_end(self, s):
        self.npaths += 1

    # ------------------------------------------------------------ exceptions
    def throw(self, s, excptr, tinfo, dtor, inloop):
        s.exc = (excptr, tinfo, dtor)
        return self.unwind(s, inloop)

    def unwind(self, s, inloop, resume=False):
        """s.exc set; frames[-1] is at the throwing call/invoke (or resume)."""
        first = True
        # search phase: is there any handler at all?
        if resume:
            start = self.pop_frame(s, inloop)
            if start is not None: return start
        while True:
            if not s.frames:
                raise VfError('unwind out of harness')
            fr = s.frames[-1]
            ins = fr.blk.instrs[fr.i]
            if fr.call == 'cleanup-dtor' and False: pass
            if ins.op == 'invoke':
                lp = fr.fn.blocks[ins.a['unwind']]
                k = 0
                while lp.instrs[k].op == 'phi': k += 1
                pad = lp.instrs[k]
                t, cleanup, clauses = pad.a
                sel = None
                for kind, (ct, cv) in clauses:
                    if kind == 'filter':
                        raise VfError('exception filter')
                    ti = self.const(s, ct, cv)
                    if ti.obj == 0:
                        sel = ('catchall', 0x7f)
                        break
                    if self.type_match(s, s.exc[1], ti):
                        sel = ('catch', self.typeid(ti)); break
                if sel is None and cleanup: sel = ('cleanup', 0)
                if sel is not None:
                    s.landing = [s.exc[0], sel[1] if sel[0] != 'catchall' else self.typeid(NULL)]
                    return self.goto(s, fr, ins.a['unwind'], inloop)
            if len(s.frames) == 1:
                self.oblige(s, False, 'terminate', 'exception escapes (%s)' % self.tname(s.exc[1]), ins.dbg)
                raise PathEnd()
            r = self.pop_frame(s, inloop)
            if r is not None: return r

    def pop_frame(self, s, inloop):
        fr = s.frames.pop()
        for oid in fr.allocas:
            o = self.wobj(s, oid)
            o.alive = False
        if inloop is not None and fr.depth <= inloop.depth:
            return ('exitunwind', s, fr.depth)
        if not s.frames:
            s.frames.append(fr)
            self.oblige(s, False, 'terminate', 'exception escapes (%s)' % self.tname(s.exc[1]))
            raise PathEnd()
        return None

    def tname(self, ti):
        if isinstance(ti, Ptr) and ti.obj in self.objname: return self.short(self.objname[ti.obj])
        return repr(ti)

    def typeid(self, ti):
        if ti.obj == 0: return 0xffff
        return (hash_name(self.objname[ti.obj]) & 0x7fffffff) | 1

    def type_match(self, s, thrown, ti):
        a = self.objname[thrown.obj]
        b = self.objname[ti.obj]
        seen = 0
        work = [a]
        while work:
            a = work.pop()
            if a == b: return True
            g = self.mod.globals.get(a)
            if g is not None and g.init is not None and g.init[0] == 'agg':
                fields = g.init[1]
                # si_class_type_info: {vptr, name, base}; vmi: {vptr,name,flags,count,base,off...}
                for (t, v) in fields[2:]:
                    if v[0] == 'glob' and v[1].startswith('_ZTI'): work.append(v[1])
            elif a in STD_BASES:
                work.append(STD_BASES[a])
        return False

    # ------------------------------------------------------------ calls
    def call(self, s, fr, ins, inloop):
        a = ins.a
        cv = a['callee']
        if cv[0] == 'glob':
            name = cv[1]
            if name in self.mod.aliases:
                p = self.global_ptr(s, name)
                name = p.obj[2:]
        else:
            p = self.val(s, fr, PTR, cv)
            if isinstance(p, PInt): p = p.p
            if p is UNDEF or not isinstance(p.obj, str):
                self.oblige(s, False, 'memory', 'call through invalid function pointer', ins.dbg)
                raise PathEnd()
            name = p.obj[2:]
        import builtins_ll as B
        h = B.TABLE.get(name)
        if h is not None and '__wrap_' + name in self.mod.funcs: h = None    # the specification gives its own contract
        if h is None and name.startswith('llvm.'):
            h = B.llvm_intrinsic(name)
        if h is not None:
            args = [self.val(s, fr, t, v) if t[0] != 'metadata' else None for t, v, at in a['args']]
            r = h(self, s, fr, ins, args, inloop)
            if isinstance(r, B.Ret):
                return self.after_call(s, s.frames[-1], ins, r.v, inloop)
            if isinstance(r, B.Redirect):
                name = r.name
            else:
                return r     # handler did control flow
        # contract replacement / external stub
        fn = None
        if self.o['use_contracts'] and self.contract_for(name) and not any(f.fn.name == name for f in s.frames):
            c = self.contract_for(name)
            # never replace the function inside its own contract's enforcement harness
            if name not in self.o.get('enforce', ()):
                fn = self.mod.funcs[c]
                self.contracts_used[name] = self.contracts_used.get(name, 0) + 1
        if fn is None:
            w = self.mod.funcs.get('__wrap_' + name)
            if w is not None and w.defined:
                fn = w
            else:
                fn = self.mod.funcs.get(name)
                if fn is None or not fn.defined:
                    w = self.mod.funcs.get('__real_' + name)
                    raise VfError('call to unknown external function %s (%s)' % (name, self.short(name)))
        args = []
        for t, v, at in a['args']:
            args.append(self.val(s, fr, t, v))
        if fn.parse().vararg:
            args = args[:len(fn.params)]
        elif len(args) > len(fn.params) and fn.name.startswith('__wrap_'):
            args = args[:len(fn.params)]
        elif len(args) < len(fn.params) and fn.name.startswith('__wrap_'):
            args = args + [0] * (len(fn.params) - len(args))
        self.push_frame(s, fn, args, ins)
        return None

    def contract_for(self, name):
        cs = self.o.get('contracts')
        if not cs: return None
        return cs.get(name)

    def after_call(self, s, fr, ins, v, inloop):
        if ins.res is not None:
            fr.regs[ins.res] = v
        if ins.op == 'invoke':
            return self.goto(s, fr, ins.a['normal'], inloop)
        fr.i += 1
        return None

class StopFail(Exception):
    pass

def hash_name(n):
    h = 5381
    for c in n: h = (h * 33 + ord(c)) & 0xffffffff
    return h

def insert(x, idx, v):
    x = list(x)
    if len(idx) == 1: x[idx[0]] = v
    else: x[idx[0]] = insert(x[idx[0]], idx[1:], v)
    return x

def wide_extract(w, off, n):
    for (o, sz, v) in w.parts:
        if o == off and sz == n: return v
    bs = []
    for j in range(off, off + n):
        for (o, sz, v) in w.parts:
            if o <= j < o + sz:
                if isinstance(v, (Ptr, PInt)): raise VfError('wide extract of pointer bytes')
                if isz(v) and z3.is_bool(v): v = zext(v, 1, 8 * sz)
                bs.append(byte_of(v, j - o, sz)); break
        else:
            bs.append(0)
    return concat_bytes(bs)

def nsw_ok(op, w, a, b):
    if isinstance(a, int) and isinstance(b, int):
        x, y = sgn(a, w), sgn(b, w)
        r = x + y if op == 'add' else x - y if op == 'sub' else x * y if op == 'mul' else None
        if r is None: return True
        return -(1 << (w-1)) <= r < (1 << (w-1))
    x, y = bv(a, w), bv(b, w)
    if op == 'add': return z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y))
    if op == 'sub': return z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True))
    if op == 'mul':
        return z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))
    if op == 'shl':
        return ((x << y) >> y) == x
    return True

def nuw_ok(op, w, a, b):
    x, y = bv(a, w), bv(b, w)
    if isinstance(a, int) and isinstance(b, int):
        r = a + b if op == 'add' else a - b if op == 'sub' else a * b if op == 'mul' else 0
        return 0 <= r < (1 << w)
    if op == 'add': return z3.BVAddNoOverflow(x, y, False)
    if op == 'sub': return z3.UGE(x, y)
    if op == 'mul': return z3.BVMulNoOverflow(x, y, False)
    return True

def bytes_node(data):
    cache = []
    def arr():
        if not cache:
            A = z3.K(z3.BitVecSort(64), bvv(0, 8))
            for i, b in enumerate(data):
                if b: A = z3.Store(A, bvv(i, 64), bvv(b, 8))
            cache.append(A)
        return cache[0]
    return Node('bytes', (data, arr))

def has_ptr(types, t):
    t = types.resolve(t)
    if t[0] == 'ptr': return True
    if t[0] == 'struct': return any(has_ptr(types, x) for x in t[1])
    if t[0] == 'array': return has_ptr(types, t[2])
    return False

_dem = {}
def demangle(name):
    if not name.startswith('_Z'): return name
    r = _dem.get(name)
    if r is None:
        import subprocess
        try:
            r = subprocess.run(['c++filt', name], capture_output=True, text=True).stdout.strip()
        except OSError:
            r = name
        _dem[name] = r
    return r
