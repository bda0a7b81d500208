"""Exact translation of bit-vector formulas into integer arithmetic (every wrap-around is explicit).
Raises NotInt on operators without a reasonable integer form; the caller then uses bit-blasting."""
import z3

class NotInt(Exception):
    pass

class Tr:
    def __init__(self):
        self.cache = {}
        self.keep = []
        self.side = []          # range constraints
        self.sideof = {}        # term id -> set of indexes into side
        self.vars = {}
        self.arrs = {}
        self.leafs = {}
        self.truths = {}
        self.juncs = {}
        self.own = {}           # bv term id -> index into side

    def sides(self, e):
        """indexes of the range constraints needed by e (already translated)"""
        r = self.sideof.get(e.get_id())
        if r is not None: return r
        st = [(e, False)]
        while st:
            x, done = st.pop()
            i = x.get_id()
            if i in self.sideof: continue
            ch = [x.arg(1)] if z3.is_select(x) else x.children()
            if not done:
                st.append((x, True))
                for c in ch:
                    if c.get_id() not in self.sideof: st.append((c, False))
            else:
                r = frozenset()
                for c in ch:
                    q = self.sideof[c.get_id()]
                    if q: r = (r | q) if r else q
                own = self.own.get(i)
                if own is not None: r = r | {own}
                self.sideof[i] = r
                self.keep.append(x)
        return self.sideof[e.get_id()]

    def var(self, x, name, w):
        v = self.vars.get((name, w))
        if v is None:
            v = z3.Int('i%d_%s' % (w, name))
            self.vars[(name, w)] = v
            self.side.append(z3.And(v >= 0, v < (1 << w)))
            self.vars[(name, w, 'side')] = len(self.side) - 1
        self.own[x.get_id()] = self.vars[(name, w, 'side')]
        return v

    def tr(self, e):
        """iterative post-order translation"""
        r = self.cache.get(e.get_id())
        if r is not None: return r
        st = [(e, False)]
        while st:
            x, done = st.pop()
            i = x.get_id()
            if i in self.cache: continue
            if not done:
                if z3.is_bool(x) and x.num_args():
                    r = self.byte(x)
                    if r is not None:
                        self.cache[i] = r
                        self.keep.append(x)
                        continue
                st.append((x, True))
                if z3.is_select(x):
                    st.append((x.arg(1), False))
                    continue
                for c in x.children():
                    if c.get_id() not in self.cache: st.append((c, False))
            elif z3.is_and(x) or z3.is_or(x):
                self.cache[i] = self.junction(x)
                self.keep.append(x)
            else:
                self.cache[i] = self.node(x)
                self.keep.append(x)
        return self.cache[e.get_id()]

    def g(self, x): return self.cache[x.get_id()]

    # ---- predicates of a single byte become unions of intervals (by their truth table)
    def leaf(self, e):
        """the only byte e depends on; None: no variable; False: anything else"""
        memo = self.leafs
        r = memo.get(e.get_id(), memo)
        if r is not memo: return r
        st = [(e, False)]
        while st:
            x, done = st.pop()
            i = x.get_id()
            if i in memo: continue
            if z3.is_bv_value(x): memo[i] = None; continue
            if z3.is_bv(x) and x.size() == 8 and (z3.is_select(x) or x.num_args() == 0): memo[i] = x; self.keep.append(x); continue
            if z3.is_true(x) or z3.is_false(x): memo[i] = None; continue
            if x.num_args() == 0 or z3.is_select(x) or not (z3.is_bool(x) or z3.is_bv(x)): memo[i] = False; self.keep.append(x); continue
            ch = x.children()
            if not done:
                st.append((x, True))
                for c in ch:
                    if c.get_id() not in memo: st.append((c, False))
            else:
                r = None
                for c in ch:
                    l = memo[c.get_id()]
                    if l is None: continue
                    if l is False: r = False; break
                    if r is None: r = l
                    elif r.get_id() != l.get_id(): r = False; break
                memo[i] = r
                self.keep.append(x)
        return memo[e.get_id()]

    def junction(self, x):
        """and/or: the operands about the same byte are translated together"""
        groups, rest = {}, []
        for c in x.children():
            l = self.leaf(c)
            if l is None or l is False: rest.append(self.g(c))
            else: groups.setdefault(l.get_id(), []).append(c)
        for cs in groups.values():
            r = None
            if len(cs) > 1:
                key = (z3.is_and(x), frozenset(c.get_id() for c in cs))
                if key in self.juncs: r = self.juncs[key]
                else:
                    y = z3.And(cs) if z3.is_and(x) else z3.Or(cs)
                    self.keep.append(y)
                    self.keep += cs
                    r = self.juncs[key] = self.byte(y)
            if r is not None: rest.append(r)
            else: rest += [self.g(c) for c in cs]
        if len(rest) == 1: return rest[0]
        return z3.And(rest) if z3.is_and(x) else z3.Or(rest)

    def byte(self, e):
        l = self.leaf(e)
        if l is None or l is False: return None
        if e.num_args() == 2 and z3.is_bv_value(e.arg(1)) and e.arg(0).get_id() == l.get_id(): return None   # already simple
        t = self.truth(e, l)
        if t is None: return None
        v = self.tr(l)
        runs = lambda val: [(i, next((j for j in range(i, 256) if t[j] is not val), 256) - 1) for i in range(256) if t[i] is val and (i == 0 or t[i - 1] is not val)]
        pos, neg = runs(True), runs(False)
        if not pos: return z3.BoolVal(False)
        if not neg: return z3.BoolVal(True)
        def one(a, b):
            if a == b: return v == a
            if a == 0: return v <= b
            if b == 255: return v >= a
            return z3.And(v >= a, v <= b)
        if len(neg) < len(pos): return z3.Not(z3.Or([one(a, b) for a, b in neg]))
        return z3.Or([one(a, b) for a, b in pos])

    def truth(self, e, l):
        """values of e for the 256 values of byte l (None: operator not covered)"""
        memo = self.truths      # every term depends on one byte only
        if l.get_id() not in memo: memo[l.get_id()] = list(range(256)); self.keep.append(l)
        def ev(x):
            i = x.get_id()
            r = memo.get(i)
            if r is None:
                r = memo[i] = self.ev1(x, ev)
                self.keep.append(x)
            return r
        try: return ev(e)
        except NotInt: return None

    def ev1(self, x, ev):
        if z3.is_bv_value(x): return [x.as_long()] * 256
        if z3.is_true(x): return [True] * 256
        if z3.is_false(x): return [False] * 256
        k = x.decl().kind()
        ch = [ev(c) for c in x.children()]
        w0 = x.arg(0).size() if z3.is_bv(x.arg(0)) else 1
        s = lambda v: v - (1 << w0) if v >> (w0 - 1) else v
        a = ch[0]
        b = ch[1] if len(ch) > 1 else None
        zz = lambda f: [f(p, q) for p, q in zip(a, b)]
        if k == z3.Z3_OP_AND: return [all(t) for t in zip(*ch)]
        if k == z3.Z3_OP_OR: return [any(t) for t in zip(*ch)]
        if k == z3.Z3_OP_NOT: return [not t for t in a]
        if k == z3.Z3_OP_ITE: return [q if p else r for p, q, r in zip(*ch)]
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF): return zz(lambda p, q: p == q)
        if k == z3.Z3_OP_XOR and len(ch) == 2: return zz(lambda p, q: p != q)
        if k == z3.Z3_OP_DISTINCT and len(ch) == 2: return zz(lambda p, q: p != q)
        if k == z3.Z3_OP_IMPLIES: return zz(lambda p, q: (not p) or q)
        if k == z3.Z3_OP_ULEQ: return zz(lambda p, q: p <= q)
        if k == z3.Z3_OP_ULT: return zz(lambda p, q: p < q)
        if k == z3.Z3_OP_UGEQ: return zz(lambda p, q: p >= q)
        if k == z3.Z3_OP_UGT: return zz(lambda p, q: p > q)
        if k == z3.Z3_OP_SLEQ: return zz(lambda p, q: s(p) <= s(q))
        if k == z3.Z3_OP_SLT: return zz(lambda p, q: s(p) < s(q))
        if k == z3.Z3_OP_SGEQ: return zz(lambda p, q: s(p) >= s(q))
        if k == z3.Z3_OP_SGT: return zz(lambda p, q: s(p) > s(q))
        if not z3.is_bv(x): raise NotInt('byte op')
        m = (1 << x.size()) - 1
        def fold(f):
            r = ch[0]
            for c in ch[1:]: r = [f(p, q) & m for p, q in zip(r, c)]
            return r
        if k == z3.Z3_OP_BADD: return fold(lambda p, q: p + q)
        if k == z3.Z3_OP_BMUL: return fold(lambda p, q: p * q)
        if k == z3.Z3_OP_BSUB: return fold(lambda p, q: p - q)
        if k == z3.Z3_OP_BAND: return fold(lambda p, q: p & q)
        if k == z3.Z3_OP_BOR: return fold(lambda p, q: p | q)
        if k == z3.Z3_OP_BXOR: return fold(lambda p, q: p ^ q)
        if k == z3.Z3_OP_BNOT: return [m - p for p in a]
        if k == z3.Z3_OP_BNEG: return [-p & m for p in a]
        if k == z3.Z3_OP_ZERO_EXT: return a
        if k == z3.Z3_OP_SIGN_EXT: return [s(p) & m for p in a]
        if k == z3.Z3_OP_EXTRACT:
            lo = x.params()[1]
            return [(p >> lo) & m for p in a]
        if k == z3.Z3_OP_CONCAT:
            r = ch[0]
            for c, t in zip(ch[1:], x.children()[1:]): r = [(p << t.size()) | q for p, q in zip(r, c)]
            return r
        raise NotInt('byte op')

    def sgn(self, v, w):
        if z3.is_int_value(v):
            n = v.as_long()
            return z3.IntVal(n - (1 << w) if n >> (w - 1) else n)
        return z3.If(v >= (1 << (w - 1)), v - (1 << w), v)

    def wrap_add(self, a, b, w):
        M = 1 << w
        if z3.is_int_value(a): a, b = b, a
        if z3.is_int_value(b):
            c = b.as_long()
            if z3.is_int_value(a): return z3.IntVal((a.as_long() + c) % M)
            if c == 0: return a
            return z3.If(a >= M - c, a - (M - c), a + c)
        s = a + b
        return z3.If(s >= M, s - M, s)

    def wrap_sub(self, a, b, w):
        M = 1 << w
        return z3.If(a >= b, a - b, a - b + M)

    def minus(self, t):
        """v if t is -1 * v"""
        if t.decl().kind() == z3.Z3_OP_BMUL and t.num_args() == 2 and z3.is_bv_value(t.arg(0)) and t.arg(0).as_long() == (1 << t.size()) - 1:
            return self.g(t.arg(1))
        if t.decl().kind() == z3.Z3_OP_BNEG: return self.g(t.arg(0))
        return None

    def node(self, x):
        k = x.decl().kind()
        n = x.num_args()
        if z3.is_bool(x):
            if n == 0:
                if z3.is_true(x) or z3.is_false(x): return x
                return x        # boolean variable: shared
            ch = x.children()
            if k == z3.Z3_OP_AND: return z3.And([self.g(c) for c in ch])
            if k == z3.Z3_OP_OR: return z3.Or([self.g(c) for c in ch])
            if k == z3.Z3_OP_NOT: return z3.Not(self.g(ch[0]))
            if k == z3.Z3_OP_ITE: return z3.If(self.g(ch[0]), self.g(ch[1]), self.g(ch[2]))
            if k == z3.Z3_OP_XOR: return z3.Xor(self.g(ch[0]), self.g(ch[1]))
            if k == z3.Z3_OP_IMPLIES: return z3.Implies(self.g(ch[0]), self.g(ch[1]))
            if k == z3.Z3_OP_EQ or k == z3.Z3_OP_IFF:
                if z3.is_array(ch[0]): raise NotInt('array eq')
                return self.g(ch[0]) == self.g(ch[1])
            if k == z3.Z3_OP_DISTINCT and n == 2: return self.g(ch[0]) != self.g(ch[1])
            a, b = self.g(ch[0]), self.g(ch[1]) if n > 1 else None
            if k == z3.Z3_OP_ULEQ: return a <= b
            if k == z3.Z3_OP_ULT: return a < b
            if k == z3.Z3_OP_UGEQ: return a >= b
            if k == z3.Z3_OP_UGT: return a > b
            w = ch[0].size()
            if k == z3.Z3_OP_SLEQ: return self.sgn(a, w) <= self.sgn(b, w)
            if k == z3.Z3_OP_SLT: return self.sgn(a, w) < self.sgn(b, w)
            if k == z3.Z3_OP_SGEQ: return self.sgn(a, w) >= self.sgn(b, w)
            if k == z3.Z3_OP_SGT: return self.sgn(a, w) > self.sgn(b, w)
            if k == z3.Z3_OP_BSMUL_NO_OVFL: return self.sgn(a, w) * self.const(b, w, True) < (1 << (w - 1)) if z3.is_int_value(b) or z3.is_int_value(a) else self.nl()
            if k == z3.Z3_OP_BSMUL_NO_UDFL: return self.smul(a, b, w) >= -(1 << (w - 1))
            if k == z3.Z3_OP_BUMUL_NO_OVFL:
                if not (z3.is_int_value(a) or z3.is_int_value(b)): raise NotInt('nl')
                return a * b < (1 << w)
            raise NotInt('bool op %s' % x.decl())
        if z3.is_bv(x):
            w = x.size()
            M = 1 << w
            if z3.is_bv_value(x): return z3.IntVal(x.as_long())
            if n == 0: return self.var(x, x.decl().name(), w)
            if z3.is_select(x):
                arr = x.arg(0)
                if not (z3.is_const(arr) and arr.decl().kind() == z3.Z3_OP_UNINTERPRETED):
                    return self.table(arr, self.g(x.arg(1)), w)
                nm = arr.decl().name()
                f = self.arrs.get(nm)
                if f is None:
                    f = self.arrs[nm] = z3.Function('a_' + nm, z3.IntSort(), z3.IntSort())
                r = f(self.g(x.arg(1)))
                self.side.append(z3.And(r >= 0, r < M))
                self.own[x.get_id()] = len(self.side) - 1
                return r
            ch = [self.g(c) for c in x.children()]
            if k == z3.Z3_OP_BADD:
                r, neg = None, []
                for c, t in zip(ch, x.children()):
                    u = self.minus(t)
                    if u is not None: neg.append(u); continue
                    r = c if r is None else self.wrap_add(r, c, w)
                if r is None: r = z3.IntVal(0)
                for u in neg: r = self.wrap_sub(r, u, w)
                return r
            if k == z3.Z3_OP_BSUB: return self.wrap_sub(ch[0], ch[1], w)
            if k == z3.Z3_OP_BNEG: return z3.If(ch[0] == 0, z3.IntVal(0), M - ch[0])
            if k == z3.Z3_OP_BNOT: return M - 1 - ch[0]
            if k == z3.Z3_OP_BMUL:
                u = self.minus(x)
                if u is not None: return z3.If(u == 0, z3.IntVal(0), M - u)
                r = ch[0]
                for c in ch[1:]:
                    if not (z3.is_int_value(r) or z3.is_int_value(c)): raise NotInt('nl')
                    cc, v = (r, c) if z3.is_int_value(r) else (c, r)
                    if z3.is_int_value(v): r = z3.IntVal(cc.as_long() * v.as_long() % M); continue
                    q = cc.as_long()
                    if q >= M // 2:       # negative constant: (M - q') * v  ==  -(q'*v) mod M
                        r = (-(M - q) * v) % M
                    else: r = (q * v) % M
                return r
            if k == z3.Z3_OP_ITE: return z3.If(ch[0], ch[1], ch[2])
            if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I):
                if not z3.is_int_value(ch[1]) or ch[1].as_long() == 0: raise NotInt('div')
                return ch[0] / ch[1]
            if k in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I):
                if not z3.is_int_value(ch[1]) or ch[1].as_long() == 0: raise NotInt('rem')
                return ch[0] % ch[1]
            if k in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BSREM, z3.Z3_OP_BSREM_I):
                if not z3.is_int_value(ch[1]): raise NotInt('sdiv')
                d = ch[1].as_long()
                if d >> (w - 1): d -= M
                if d == 0: raise NotInt('sdiv0')
                a = self.sgn(ch[0], w)
                ad = abs(d)
                q = z3.If(a >= 0, a / ad, -((-a) / ad))      # truncation
                if k in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I):
                    if d < 0: q = -q
                    return z3.If(q < 0, q + M, z3.If(q >= M, q - M, q))
                r = a - q * ad
                return z3.If(r < 0, r + M, r)
            if k == z3.Z3_OP_EXTRACT:
                hi, lo = x.params()
                v = ch[0]
                if lo: v = v / (1 << lo)
                if hi < x.arg(0).size() - 1: v = v % (1 << (hi - lo + 1))
                return v
            if k == z3.Z3_OP_CONCAT:
                r = ch[0]
                for c, t in zip(ch[1:], x.children()[1:]): r = r * (1 << t.size()) + c
                return r
            if k == z3.Z3_OP_ZERO_EXT: return ch[0]
            if k == z3.Z3_OP_SIGN_EXT:
                w0 = x.arg(0).size()
                return z3.If(ch[0] >= (1 << (w0 - 1)), ch[0] + (M - (1 << w0)), ch[0])
            if k == z3.Z3_OP_BSHL and z3.is_int_value(ch[1]):
                s = ch[1].as_long()
                return z3.IntVal(0) if s >= w else (ch[0] * (1 << s)) % M
            if k == z3.Z3_OP_BLSHR and z3.is_int_value(ch[1]):
                s = ch[1].as_long()
                return z3.IntVal(0) if s >= w else ch[0] / (1 << s)
            if k == z3.Z3_OP_BASHR and z3.is_int_value(ch[1]):
                s = min(ch[1].as_long(), w - 1)
                a = self.sgn(ch[0], w)
                r = a / (1 << s)       # floor
                return z3.If(r < 0, r + M, r)
            if k == z3.Z3_OP_BAND and n == 2:
                for a, b in ((ch[0], ch[1]), (ch[1], ch[0])):
                    if z3.is_int_value(b):
                        m = b.as_long()
                        if m & (m + 1) == 0: return a % (m + 1)
                        inv = (M - 1) ^ m
                        if inv & (inv + 1) == 0: return a - a % (inv + 1)
                        if m & (m - 1) == 0: return ((a / m) % 2) * m
                        # general mask: sum of contiguous runs
                        return self.mask(a, m)
            raise NotInt('bv op %s' % x.decl())
        raise NotInt('sort')

    def mask(self, a, m):
        r = z3.IntVal(0)
        lo = 0
        runs = 0
        while m >> lo:
            if (m >> lo) & 1:
                hi = lo
                while (m >> hi) & 1: hi += 1
                r = r + ((a / (1 << lo)) % (1 << (hi - lo))) * (1 << lo)
                runs += 1
                lo = hi
            else: lo += 1
        if runs > 3: raise NotInt('mask')
        return r

    def smul(self, a, b, w):
        if not (z3.is_int_value(a) or z3.is_int_value(b)): raise NotInt('nl')
        return self.sgn(a, w) * self.sgn(b, w)

    def const(self, b, w, s): return self.sgn(b, w)
    def nl(self): raise NotInt('nl')

    def table(self, arr, idx, w):
        st = []
        while z3.is_app(arr) and arr.decl().kind() == z3.Z3_OP_STORE:
            st.append((self.tr(arr.arg(1)), self.tr(arr.arg(2))))
            arr = arr.arg(0)
        if not (z3.is_app(arr) and arr.decl().kind() == z3.Z3_OP_CONST_ARRAY): raise NotInt('array')
        r = self.tr(arr.arg(0))
        for i, v in reversed(st): r = z3.If(idx == i, v, r)
        return r
