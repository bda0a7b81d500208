"""Loop cutting by inferred inductive invariants.

At a loop header the verifier infers, per abstract control state (concrete values
of enumeration-like locations), a conjunction of template facts (Houdini): facts
that hold on entry and are preserved by one arbitrary iteration.  Everything the
loop may modify is havocked; only proven facts are assumed.  Invariants therefore
never mention source-level names and survive refactoring."""
import z3, itertools
from exec import *

class Ctx:
    def __init__(self, fn, header, body, depth):
        self.fn = fn
        self.header = header
        self.body = body
        self.depth = depth

class LNode:
    def __init__(self, key):
        self.key = key
        self.cands = None
        self.dirty = True

class Restart(Exception):
    pass

def getloc(ex, s, loc, depth):
    if loc[0] == 'r':
        return s.frames[depth].regs[loc[1]]
    if loc[0] == 'c':
        o = ex.getobj(s, loc[1])
        return ex.read(s, o, loc[2], loc[3])
    if loc[0] == 'n':
        return ('node',)
    raise VfError('loc')

def setloc(ex, s, loc, depth, v):
    if loc[0] == 'r':
        s.frames[depth].regs[loc[1]] = v
    elif loc[0] == 'c':
        ex.write(s, ex.getobj(s, loc[1]), loc[2], loc[3], v)

def same(a, b):
    if a is b: return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.obj == b.obj and same(a.off, b.off)
    if isinstance(a, PInt) and isinstance(b, PInt):
        return same(a.p, b.p)
    if isinstance(a, int) and isinstance(b, int): return a == b
    if isz(a) and isz(b): return a.eq(b)
    if isinstance(a, list) and isinstance(b, list): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return False

def handle(ex, s0, fr, header, outer):
    fn = fr.fn
    ctx = Ctx(fn, header, fn.loops[header], fr.depth)
    depth = fr.depth
    key = (fn.name, header)
    L = LoopInf(ex, s0, ctx, depth)
    saved_atoms = ex.collect_atoms
    ex.quiet += 1
    try:
        L.infer()
    finally:
        ex.quiet -= 1
        ex.collect_atoms = saved_atoms
    # final pass
    results = []
    for n in list(L.nodes.values()):
        H = L.build(n)
        ends = ex.explore([H], ctx)
        for e in ends:
            if e[0] == 'arrive':
                A = e[1]
                k2 = L.key(A)
                if k2 not in L.nodes:
                    raise VfError('loop: new abstract state in final pass')
                vals = L.vals(A)
                for i in L.survivors(A, [c[1](vals) for c in L.nodes[k2].cands])[1]: ex.fact(A, i, True)
                for (nm, f) in L.nodes[k2].cands:
                    ex.oblige(A, f(vals), 'invariant', ex.short(fn.name), loc='loop')
            else:
                results.append(e)
    if not ex.quiet:
        ex.loops_proved.setdefault(ex.short(fn.name) + ' @' + header, sorted(set(c[0] for n in L.nodes.values() for c in n.cands))[:12])
    # continue exits in outer context
    out = []
    for e in results:
        ex.cur_inloop = outer
        if e[0] == 'exit':
            r = ex.goto(e[1], e[1].frames[-1], e[2], outer)
        elif e[0] == 'exitret':
            if outer is not None and e[3].depth <= outer.depth: r = e
            else: r = ex.finish_ret(e[1], e[2], e[3])
        elif e[0] == 'exitunwind':
            if outer is not None and e[2] <= outer.depth: r = e
            else: r = ex.unwind(e[1], outer)
        if r is None: out.append(e[1])
        elif r == 'end': pass
        elif isinstance(r, tuple): out.append(r)
        else: out.extend(r)
    return out

class LoopInf:
    def __init__(self, ex, s0, ctx, depth):
        self.ex = ex
        self.s0 = s0
        self.ctx = ctx
        self.depth = depth
        self.mods = []
        self.dead = set()
        self.demoted = set()
        self.atoms = {}
        self.nodes = {}
        fr = s0.frames[depth]
        blk = fr.fn.blocks[ctx.header]
        self.phis = []
        for ins in blk.instrs:
            if ins.op == 'phi': self.phis.append(('r', ins.res))
        self.mods = list(self.phis)
        self.widths = {}
        for ins in blk.instrs:
            if ins.op == 'phi':
                t = ex.mod.types.resolve(ins.a[0])
                self.widths[('r', ins.res)] = t[1] if t[0] == 'int' else 64
        self.uid = next(ex.fresh)

    # value view
    def enumlike(self, loc):
        return loc not in self.demoted

    def shape(self, loc, v):
        if loc[0] == 'n': return 'n'
        if isinstance(v, Ptr):
            o = ('p', v.obj)
            if isinstance(v.off, int) and self.enumlike(loc): return o + (v.off,)
            return o
        if isinstance(v, PInt):
            return ('pi', v.p.obj)
        if v is UNDEF: return 'u'
        if isinstance(v, int):
            return ('k', v) if self.enumlike(loc) else 'i'
        if isz(v): return 'i'
        if isinstance(v, list): return ('l', len(v))
        return 'x'

    def key(self, s):
        k = []
        for loc in self.mods:
            v = getloc(self.ex, s, loc, self.depth)
            sh = self.shape(loc, v)
            k.append(sh)
        return tuple(k)

    def vals(self, s):
        d = {loc: getloc(self.ex, s, loc, self.depth) for loc in self.mods}
        d['@'] = s
        return d

    def hvar(self, loc, w):
        nm = 'h%d_%s' % (self.uid, '_'.join(str(x) for x in loc))
        return z3.Bool(nm) if w == 1 else z3.BitVec(nm, w)

    def width(self, loc):
        if loc[0] == 'c': return 8 * loc[3]
        return self.widths[loc]

    def build(self, n):
        ex = self.ex
        H = self.s0.copy()
        H.approx = True
        H.frames[-1].ctx = True
        for oid in self.dead:
            ex.wobj(H, oid).alive = False
        for loc, sh in zip(self.mods, n.key):
            if sh == 'n':
                o = ex.wobj(H, loc[1])
                o.node = Node('base', z3.Array('h%d_node%d' % (self.uid, loc[1]), z3.BitVecSort(64), z3.BitVecSort(8)))
                o.fl = None
                continue
        for loc, sh in zip(self.mods, n.key):
            if sh == 'n': continue
            w = self.width(loc)
            if sh == 'u': v = UNDEF
            elif sh == 'i': v = self.hvar(loc, w)
            elif sh[0] == 'k': v = sh[1]
            elif sh[0] == 'p':
                v = Ptr(sh[1], sh[2] if len(sh) > 2 else (0 if sh[1] == 0 or isinstance(sh[1], str) else self.hvar(loc, 64)))
            elif sh[0] == 'pi': v = PInt(Ptr(sh[1], self.hvar(loc, 64)))
            else: raise VfError('loop: cannot havoc %r' % (sh,))
            setloc(ex, H, loc, self.depth, v)
        vals = self.vals(H)
        cs = []
        for (nm, f) in n.cands:
            c = f(vals)
            if c is True: continue
            if c is False: raise VfError('loop: contradictory invariant')
            cs.append(c)
        for c in self.minimal(H, n, cs): ex.add_pc(H, c)
        for c in cs: ex.fact(H, z3.simplify(c), True)
        H.model = None
        return H

    def minimal(self, H, n, cs):
        """an equivalent, smaller set of facts"""
        if len(cs) < 24: return cs
        if getattr(n, 'mincs', None) is not None and n.mincs[0] == len(cs): return n.mincs[1]
        ex = self.ex
        rest = []
        seen = set()
        for c in cs:
            c = z3.simplify(c)
            if z3.is_true(c) or c.get_id() in seen: continue
            seen.add(c.get_id()); rest.append(c)
        rank = lambda c: 0 if z3.is_eq(c) else 1 if z3.is_app(c) and c.num_args() == 2 else 2
        rest.sort(key=rank)
        out = []
        pc = list(H.pc)
        while rest:
            r, m = ex.check(pc, z3.Not(z3.And(*rest)) if len(rest) > 1 else z3.Not(rest[0]))
            if r == 'unsat': break
            i = next((i for i, c in enumerate(rest) if m.true(z3.Not(c))), None) if r == 'sat' else None
            if i is None: out += rest; break
            out.append(rest[i]); pc.append(rest[i])
            del rest[i]
        n.mincs = (len(cs), out)
        return out

    def diff(self, A, H):
        ex = self.ex
        new = []
        known = set(self.mods)
        knownn = {l[1] for l in self.mods if l[0] == 'n'}
        if A.caught != H.caught:
            raise VfError('loop changes the stack of caught exceptions')
        for oid, ao in A.mem.items():
            if oid in H.mem: continue
            if ao.alive and ao.kind in ('new', 'malloc'):
                raise VfError('loop leaves a new heap object behind')
            if oid in ex.objname:
                # a global first touched inside the loop still has its initial contents before it
                for x in (self.s0, H): ex.getobj(x, oid)
        for oid, ho in H.mem.items():
            ao = A.mem.get(oid)
            if ao is ho or ao is None: continue
            if ao.alive != ho.alive:
                if ho.kind in ('stack',):
                    if oid not in self.dead:
                        self.dead.add(oid); new.append(None)
                    continue
                raise VfError('loop changes liveness of %s' % ho.name)
            if not ao.alive: continue
            if ao.const: continue
            if ao.node is not ho.node and oid not in knownn:
                new.append(('n', oid))
            for off in set(ao.cells) | set(ho.cells):
                a = ao.cells.get(off); h = ho.cells.get(off)
                if a is not None and h is not None and a[0] == h[0] and same(a[1], h[1]): continue
                sz = (a or h)[0]
                if a is not None and h is not None and a[0] != h[0]: sz = max(a[0], h[0])
                loc = ('c', oid, off, sz)
                if loc in known: continue
                try:
                    va = ex.read(A, ao, off, sz); vh = ex.read(H, ho, off, sz)
                except VfError:
                    raise
                if same(va, vh): continue
                new.append(loc)
        return new

    def infer(self):
        ex = self.ex
        for it in range(ex.o['loop_iters']):
            try:
                self.attempt()
                return
            except Restart:
                continue
        raise VfError('loop inference does not converge')

    def attempt(self):
        ex = self.ex
        self.nodes = {}
        self.succ = {}
        self.order = []
        self.add(self.s0, None)
        while True:
            dirty = [n for n in self.nodes.values() if n.dirty]
            if not dirty: return
            n = dirty[0]
            n.dirty = False
            H = self.build(n)
            saved = ex.collect_atoms
            ex.collect_atoms = []
            ends = ex.explore([H], self.ctx)
            got = ex.collect_atoms
            ex.collect_atoms = saved
            if saved is not None: saved.extend(got)
            if self.learn_atoms(got): pass
            H2 = self.build(n)
            news = []
            for e in ends:
                if e[0] == 'arrive':
                    for l in self.diff(e[1], H2):
                        if l not in news: news.append(l)
            if news:
                # avoid overlapping cells
                for l in news:
                    if l is None: continue
                    if l[0] == 'c':
                        self.mods = [m for m in self.mods if not (m[0] == 'c' and m[1] == l[1] and m[2] < l[2] + l[3] and l[2] < m[2] + m[3])]
                    self.mods.append(l)
                raise Restart()
            for e in ends:
                if e[0] == 'arrive':
                    self.add(e[1], n)

    def learn_atoms(self, got):
        """branch conditions over havocked variables become candidates"""
        new = False
        hv = {}
        for loc in self.mods:
            if loc[0] == 'n': continue
            w = self.width(loc)
            h = self.hvar(loc, w)
            hv[h.decl().name()] = loc
            if w != 64:
                pass
        pre = 'h%d_' % self.uid
        for a in got:
            if a.get_id() in self.atoms: continue
            names = varnames(a)
            if not any(x.startswith(pre) for x in names): continue
            if any(('!' in x and not self.old(x)) or (x[0] == 'h' and not x.startswith(pre) and x not in self.s0names()) for x in names): continue
            if any('node' in x and x.startswith(pre) for x in names): continue
            locs = [hv[x] for x in names if x in hv]
            self.atoms[a.get_id()] = (a, locs)
            new = True
        return new

    def old(self, x):
        return True

    def s0names(self):
        return ()

    def cands(self, key, s):
        """candidate facts for an abstract state"""
        ex = self.ex
        vals0 = self.vals(self.s0)
        out = []
        nums = []
        for loc, sh in zip(self.mods, key):
            if sh == 'i':
                nums.append((loc, self.width(loc)))
            elif isinstance(sh, tuple) and sh[0] in ('p', 'pi') and len(sh) == 2 and sh[1] not in (0, -1) and not isinstance(sh[1], str):
                nums.append((loc, 64))
        def num(v):
            if isinstance(v, PInt): return v.p.off
            if isinstance(v, Ptr): return v.off
            return v
        def entry(loc, sh):
            e = vals0[loc]
            if isinstance(e, (Ptr, PInt)):
                o = e.p.obj if isinstance(e, PInt) else e.obj
                i = self.mods.index(loc)
                if not (isinstance(key[i], tuple) and key[i][0] in ('p', 'pi') and key[i][1] == o): return None
                return num(e)
            if e is UNDEF or isinstance(e, Wide): return None
            return e
        for loc, w in nums:
            e = entry(loc, None)
            if w == 1:
                if e is not None:
                    out.append(('%s==entry' % (loc,), lambda v, loc=loc, e=e: eqb(v[loc], e)))
                continue
            if e is not None:
                for p in ('eq', 'uge', 'ule', 'sge', 'sle'):
                    out.append(('%s %s entry' % (loc, p), lambda v, loc=loc, p=p, w=w, e=e: cmpop(p, w, num(v[loc]), e)))
                if w == 64:
                    for st in (16, 8, 4, 2):
                        out.append(('%s stride %d' % (loc, st), lambda v, loc=loc, w=w, e=e, st=st: EQ(binop('and', w, SUB(num(v[loc]), e, w), st - 1), 0, w)))
            out.append(('%s >=0' % (loc,), lambda v, loc=loc, w=w: cmpop('sge', w, num(v[loc]), 0)))
            out.append(('%s !=0' % (loc,), lambda v, loc=loc, w=w: cmpop('ne', w, num(v[loc]), 0)))
            if isinstance(vals0[loc], (Ptr, PInt)) or isinstance(key[self.mods.index(loc)], tuple):
                out.append(('%s at the start' % (loc,), lambda v, loc=loc: EQ(num(v[loc]), 0, 64)))
                # pointer stays inside its object
                oid = key[self.mods.index(loc)][1]
                size = self.s0.mem[oid].size if oid in self.s0.mem else None
                if size is not None:
                    out.append(('%s in bounds' % (loc,), lambda v, loc=loc, size=size: ULE(num(v[loc]), size)))
        for (l1, w1), (l2, w2) in itertools.combinations(nums, 2):
            if w1 != w2 or w1 == 1: continue
            for p in ('ule', 'uge'):
                out.append(('%s %s %s' % (l1, p, l2), lambda v, a=l1, b=l2, p=p, w=w1: cmpop(p, w, num(v[a]), num(v[b]))))
            if self.objof(key, l1) is not None and self.objof(key, l1) == self.objof(key, l2):
                for a, b in ((l1, l2), (l2, l1)):
                    out.append(('%s < %s' % (a, b), lambda v, a=a, b=b: ULT(num(v[a]), num(v[b]))))
            e1, e2 = entry(l1, None), entry(l2, None)
            if e1 is None or e2 is None: continue
            for k in (1, 2, 4, 8, 16):
                out.append(('d%s==%d*d%s' % (l1, k, l2), lambda v, a=l1, b=l2, w=w1, e1=e1, e2=e2, k=k: EQ(SUB(num(v[a]), e1, w), binop('mul', w, SUB(num(v[b]), e2, w), k), w)))
                if k > 1:
                    out.append(('d%s==%d*d%s' % (l2, k, l1), lambda v, a=l2, b=l1, w=w1, e1=e2, e2=e1, k=k: EQ(SUB(num(v[a]), e1, w), binop('mul', w, SUB(num(v[b]), e2, w), k), w)))
                out.append(('d%s==-%d*d%s' % (l1, k, l2), lambda v, a=l1, b=l2, w=w1, e1=e1, e2=e2, k=k: EQ(SUB(e1, num(v[a]), w), binop('mul', w, SUB(num(v[b]), e2, w), k), w)))
        self.range_cands(out, key, nums, num)
        self.hint_cands(out, key, nums, num, entry)
        numlocs = {l for l, w in nums}
        for aid, (a, locs) in self.atoms.items():
            # every havocked variable of the atom must be numeric or concrete in this state
            for var in variants(a):
                def f(v, var=var, locs=tuple(locs)):
                    sub = []
                    for l in locs:
                        w = self.width(l)
                        x = v[l]
                        if x is UNDEF: return False
                        x = num(x)
                        if w == 1:
                            x = z3.BoolVal(bool(x)) if isinstance(x, int) else x
                        else: x = bv(x, w)
                        sub.append((self.hvar(l, w), x))
                    r = z3.simplify(z3.substitute(var, *sub))
                    return True if z3.is_true(r) else False if z3.is_false(r) else r
                out.append(('branch condition', f))
        return out

    def rd(self, s, oid, off):
        """byte of an object of state s; None if it cannot be named"""
        o = s.mem.get(oid)
        if o is None or not o.alive: return None
        self.ex.nofork = True
        try: return self.ex.read(s, o, off, 1)
        except (Fork, VfError): return None
        finally: self.ex.nofork = False

    def hint_cands(self, out, key, nums, num, entry):
        s0 = self.s0
        if not s0.hints: return
        imp = lambda a, b: OR(NOT(a), b)
        # relations with ghost numbers
        for h in s0.hints:
            if h[0] != 'num': continue
            for l, w in nums:
                if w != 64: continue
                for p in ('ule', 'uge'):
                    out.append(('%s %s ghost' % (l, p), lambda v, l=l, p=p, g=h[1]: cmpop(p, 64, num(v[l]), g)))
        # facts about a byte of a constant object: the scanned range satisfies them
        for h in s0.hints:
            if h[0] != 'fact': continue
            ps = [l for l, w in nums if self.objof(key, l) == h[1]]
            st = self.statics(h[1])
            for p, l in self.ranges(key, nums):
                if self.objof(key, p) != h[1]: continue
                out.append(('fact at ghost in range %s' % (p,), lambda v, p=p, l=l, h=h: imp(AND(ULE(num(v[p]), h[2]), ULT(SUB(h[2], num(v[p]), 64), num(v[l]))), h[3])))
                for q in ps:
                    for c in (0, 1):
                        if q != p: out.append(('fact at ghost between range %s + %d and %s' % (p, c, q), lambda v, p=p, l=l, q=q, h=h, c=c: imp(AND(ULE(ADD(ADD(num(v[p]), num(v[l])), c), h[2]), ULT(h[2], num(v[q]))), h[3])))
            for l in ps:
                lows = [('entry', entry(l, None))] + [('static', x) for x in st] + [(q, None) for q in ps if q != l]
                out.append(('fact at ghost below %s' % (l,), lambda v, l=l, h=h: imp(ULT(h[2], num(v[l])), h[3])))
                for nm, e in lows:
                    if e is None and not isinstance(nm, tuple): continue
                    out.append(('fact at ghost in [%s,%s)' % (nm, l), lambda v, l=l, h=h, e=e, nm=nm: imp(AND(ULE(num(v[nm]) if e is None else e, h[2]), ULT(h[2], num(v[l]))), h[3])))
        # delimiters behind ranges
        for h in s0.hints:
            if h[0] != 'byte': continue
            for p, l in self.ranges(key, nums):
                if self.objof(key, p) != h[1]: continue
                for c in (0, 1, 2, 3, 4):
                    def f(v, p=p, l=l, c=c, h=h):
                        x = self.rd(v['@'], h[1], ADD(ADD(num(v[p]), num(v[l])), c))
                        return False if x is None else EQ(x, h[2], 8)
                    out.append(('byte behind range %s' % (p,), f))
        bs = [h for h in s0.hints if h[0] == 'byte']
        for h in bs:
            for p, l in self.ranges(key, nums):
                if self.objof(key, p) != h[1]: continue
                for q in self.mods:
                    if q[0] == 'n' or q == p or self.objof(key, q) != h[1]: continue
                    def f(v, p=p, l=l, h=h, q=q):
                        e = ADD(num(v[p]), num(v[l]))
                        x = self.rd(v['@'], h[1], e)
                        return False if x is None else imp(EQ(x, h[2], 8), ULT(ADD(e, 1), num(v[q])))
                    out.append(('byte behind range %s' % (p,), f))
                    for yes in (True, False):
                        def f(v, p=p, l=l, h=h, q=q, yes=yes):
                            e = ADD(num(v[p]), num(v[l]))
                            x, y = self.rd(v['@'], h[1], ADD(e, 1)), self.rd(v['@'], h[1], ADD(e, 2))
                            if x is None or y is None: return False
                            c = AND(EQ(x, h[2], 8), EQ(y, h[2], 8))
                            return imp(c if yes else NOT(c), EQ(num(v[q]), ADD(e, 3 if yes else 1), 64))
                        out.append(('doubled byte behind range %s' % (p,), f))
            for g in bs:
                for p, l in self.ranges(key, nums):
                    if h is g or self.objof(key, p) != h[1] or g[1] != h[1]: continue
                    def f(v, p=p, l=l, h=h, g=g, both=False):
                        e = ADD(num(v[p]), num(v[l]))
                        x, y = self.rd(v['@'], h[1], e), self.rd(v['@'], h[1], e if both else ADD(e, 1))
                        if x is None or y is None: return False
                        return OR(EQ(x, h[2], 8), EQ(y, g[2], 8)) if both else imp(EQ(x, h[2], 8), EQ(y, g[2], 8))
                    out.append(('bytes behind range %s' % (p,), f))
                    if bs.index(h) < bs.index(g): out.append(('byte behind range %s' % (p,), lambda v, f=f: f(v, both=True)))
        # contents written so far
        for oid in [l[1] for l in self.mods if l[0] == 'n']:
            for h in s0.hints:
                if h[0] != 'seq': continue
                bases = list(self.statics(oid))
                for l, w in nums:
                    if self.objof(key, l) == oid and entry(l, None) is not None:
                        if not any(same(entry(l, None), b) for b in bases): bases.append(entry(l, None))
                counts = []
                for l, w in nums:
                    e = entry(l, None)
                    if w != 64 or e is None: continue
                    counts.append((l, e, 1))
                    if self.objof(key, l) is None: counts.append((l, e, -1))
                for b in bases:
                    for l, e, d in counts:
                        def f(v, oid=oid, b=b, l=l, e=e, d=d, h=h):
                            x = self.rd(v['@'], oid, ADD(b, h[1]))
                            if x is None: return False
                            n = SUB(num(v[l]), e, 64) if d > 0 else SUB(e, num(v[l]), 64)
                            return imp(ULT(h[1], n), EQ(x, h[2], 8))
                        out.append(('element j of object %s written (%s)' % (oid, l), f))
            o = s0.mem.get(oid)
            if o is not None:
                for off, (sz, val) in sorted(o.cells.items())[:64]:
                    if not (isinstance(val, int) or isz(val)) or sz > 8: continue
                    for j in range(sz):
                        x0 = self.rd(s0, oid, off + j)
                        if x0 is None: continue
                        def g(v, oid=oid, k=off + j, x0=x0):
                            x = self.rd(v['@'], oid, k)
                            return False if x is None else EQ(x, x0, 8)
                        out.append(('byte %d of object %s kept' % (off + j, oid), g))

    def range_cands(self, out, key, nums, num):
        """where (pointer, length) pairs end"""
        rs = self.ranges(key, nums)
        for p, l in rs:
            oid = self.objof(key, p)
            size = self.s0.mem[oid].size
            end = lambda v, p=p, l=l: ADD(num(v[p]), num(v[l]))
            out.append(('range %s in bounds' % (p,), lambda v, p=p, l=l, size=size: AND(ULE(num(v[p]), size), ULE(num(v[l]), SUB(size, num(v[p]), 64)))))
            for q in self.mods:
                if q[0] == 'n' or q == p or self.objof(key, q) != oid: continue
                out.append(('range %s before %s' % (p, q), lambda v, p=p, l=l, q=q: AND(ULE(num(v[p]), num(v[q])), ULE(num(v[l]), SUB(num(v[q]), num(v[p]), 64)))))
                for c in (0, 1, 2, 3, 4):
                    out.append(('range %s ends more than %d before %s' % (p, c, q), lambda v, end=end, q=q, c=c: ULT(ADD(end(v), c), num(v[q]))))
                    out.append(('range %s ends %d before %s' % (p, c, q), lambda v, end=end, q=q, c=c: EQ(ADD(end(v), c), num(v[q]), 64)))
            out.append(('range %s ends with its object' % (p,), lambda v, end=end, size=size: EQ(end(v), size, 64)))

    def ranges(self, key, nums):
        """(pointer, length) pairs of adjacent members"""
        cells = {l: w for l, w in nums if l[0] == 'c' and w == 64}
        out = []
        for l in self.mods:
            if l[0] != 'c' or self.objof(key, l) in (None, 0) or self.objof(key, l) not in self.s0.mem: continue
            for d in (-8, 8):
                q = ('c', l[1], l[2] + d, 8)
                if q in cells and self.objof(key, q) is None: out.append((l, q)); break
        return out

    def objof(self, key, loc):
        sh = key[self.mods.index(loc)]
        return sh[1] if isinstance(sh, tuple) and sh[0] in ('p', 'pi') else None

    def statics(self, oid):
        """offsets of the loop-invariant pointers into an object"""
        out = []
        for fr in self.s0.frames[-2:]:
            for r, x in fr.regs.items():
                if isinstance(x, PInt): x = x.p
                if isinstance(x, Ptr) and x.obj == oid and ('r', r) not in self.mods and not any(same(x.off, y) for y in out): out.append(x.off)
        for o in self.s0.mem.values():
            if o.kind == 'stack' and o.alive:
                for c, (sz, x) in o.cells.items():
                    if isinstance(x, Ptr) and x.obj == oid and ('c', o.id, c, sz) not in self.mods and not any(same(x.off, y) for y in out): out.append(x.off)
        return out[:12]

    def add(self, s, pred):
        ex = self.ex
        k = self.key(s)
        for sh in k:
            if sh == 'x': raise VfError('loop: unsupported value kind at header')
        n = self.nodes.get(k)
        vals = self.vals(s)
        if n is None:
            if pred is not None: self.check_demote(pred, k)
            n = LNode(k)
            self.nodes[k] = n
            if len(self.nodes) > 200:
                # widen the location with the most values
                best = max((len({n.key[i] for n in self.nodes.values()}), l[0] == 'c', i) for i, l in enumerate(self.mods) if l[0] != 'n')
                loc = self.mods[best[2]]
                if best[0] < 4 or loc in self.demoted: raise VfError('loop: too many abstract states')
                self.demoted.add(loc)
                raise Restart()
            n.all = self.cands(k, s)
            n.cands = self.filter(s, n.all, vals)
            n.natoms = len(self.atoms)
            n.dirty = True
            return
        keep = self.filter(s, n.cands, vals)
        if len(keep) != len(n.cands):
            n.cands = keep
            n.dirty = True
        if n.natoms != len(self.atoms):
            # new atoms learned since: candidates must be (re)considered from scratch
            if not getattr(self, 'atom_restarts', 0) > 3:
                self.atom_restarts = getattr(self, 'atom_restarts', 0) + 1
                raise Restart()
            n.natoms = len(self.atoms)

    def filter(self, s, cands, vals):
        cs = [c[1](vals) for c in cands]
        keep = self.survivors(s, cs)[0]
        return [c for i, c in enumerate(cands) if i in keep]

    def survivors(self, s, cs):
        """indexes (and formulas) of the facts that hold in state s"""
        ex = self.ex
        keep = set()
        terms = []
        pend = []
        seen = {}
        for i, c in enumerate(cs):
            if c is True or (c is not False and isinstance(c, int) and c): keep.add(i); continue
            if c is False or isinstance(c, int): continue
            c = z3.simplify(c)
            if z3.is_true(c): keep.add(i); continue
            if z3.is_false(c): continue
            if ex.known(s, c) is True: keep.add(i); continue
            j = c.get_id()
            if j in seen: seen[j][1].append(i); continue
            seen[j] = (c, [i])
            if s.model is not None and s.model.true(z3.Not(c)): continue
            pend.append((c, j))
        def ok(x):
            keep.update(seen[x[1]][1]); terms.append(x[0])
        groups = [[x for x in pend if ex.int_form(x[0]) is not None], [x for x in pend if ex.int_form(x[0]) is None]]
        for pend in groups:
            size = 128
            while pend:
                chunk = pend[:size]
                if len(chunk) == 1:
                    if ex.check(s.pc, z3.Not(chunk[0][0]))[0] == 'unsat': ok(chunk[0])
                    pend = pend[1:]; continue
                r, m = ex.check(s.pc, z3.Not(z3.And(*[x[0] for x in chunk])))
                if r == 'unsat':
                    for x in chunk: ok(x)
                    pend = pend[len(chunk):]
                    size = min(128, size * 2)
                    continue
                n = len(pend)
                if r == 'sat': pend = [x for x in pend if not m.true(z3.Not(x[0]))]
                if len(pend) == n: size = max(1, size // 4)
        return keep, terms

    def holds(self, s, c):
        if c is True: return True
        if c is False: return False
        return self.ex.valid(s, c)

    def check_demote(self, pred, k):
        """a location that takes ever new concrete values is widened to a symbolic one"""
        for loc, a, b in zip(self.mods, pred.key, k):
            if loc[0] == 'n' or loc in self.demoted: continue
            va = a[-1] if isinstance(a, tuple) and ((a[0] == 'k') or (a[0] == 'p' and len(a) > 2)) else None
            vb = b[-1] if isinstance(b, tuple) and ((b[0] == 'k') or (b[0] == 'p' and len(b) > 2)) else None
            if vb is None and va is not None:
                continue
            if va is None or vb is None or va == vb: continue
            i = self.mods.index(loc)
            distinct = {n.key[i][-1] for n in self.nodes.values() if isinstance(n.key[i], tuple) and n.key[i][0] == b[0]} | {vb}
            lim = 3 if not self.switchlike(loc) and not (self.structptr(a) or self.structptr(b)) else 20 if loc[0] == 'c' and loc[3] <= 4 else 64
            if len(distinct) >= lim:
                self.demoted.add(loc)
                raise Restart()

    def selected(self, reg):
        """the register's values are chosen (constants, results of calls), not computed"""
        fn = self.ctx.fn
        if self.widths.get(('r', reg), 64) > 32: return False
        defs = getattr(fn, 'defs_', None)
        if defs is None:
            defs = fn.defs_ = {ins.res: ins for b in fn.blocks.values() for ins in b.instrs if ins.res is not None}
        seen, todo = set(), [reg]
        while todo:
            r = todo.pop()
            if r in seen: continue
            seen.add(r)
            ins = defs.get(r)
            if ins is None: return False
            if ins.op in ('call', 'invoke'): continue
            if ins.op == 'phi': todo += [v[1] for v, b in ins.a[1] if v[0] == 'reg']
            elif ins.op == 'select': todo += [x[1][1] for x in ins.a[1:] if x[1][0] == 'reg']
            else: return False
        return True

    def structptr(self, sh):
        """pointer to a member of a structure that holds pointers"""
        if not isinstance(sh, tuple) or sh[0] != 'p' or isinstance(sh[1], str): return False
        o = self.s0.mem.get(sh[1])
        return o is not None and o.kind in ('stack', 'global') and isinstance(o.size, int) and o.size <= 1024 and len(sh) > 2 and sh[2] % 8 == 0

    def switchlike(self, loc):
        """used directly as a switch operand?"""
        fn = self.ctx.fn
        if loc[0] == 'r':
            for b in self.ctx.body:
                t = fn.blocks[b].instrs[-1]
                if t.op == 'switch' and t.a[0][1] == ('reg', loc[1]): return True
            return self.selected(loc[1])
        # memory cell: small enumerations in members
        if loc[0] == 'c':
            return loc[3] <= 4
        return False

def eqb(a, b):
    x, y = tobool(a), tobool(b)
    if isinstance(x, bool) and isinstance(y, bool): return x == y
    if isinstance(x, bool): x, y = y, x
    if isinstance(y, bool): return x if y else NOT(x)
    return x == y

def varnames(e):
    out = set()
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
        st.extend(x.children())
    return out

def variants(a):
    """atom, its negation and the non-strict versions"""
    neg = False
    x = a
    if z3.is_not(x): x = x.arg(0)
    out = [x, z3.Not(x)]
    if z3.is_app(x):
        k = x.decl().kind()
        if k in (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT):
            l, r = x.arg(0), x.arg(1)
            if k in (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT):
                out += [z3.ULE(l, r), z3.UGE(l, r)]
            else: out += [l <= r, l >= r]
        if z3.is_eq(x) and z3.is_bv(x.arg(0)) and x.arg(0).size() == 64:
            l, r = x.arg(0), x.arg(1)
            out += [z3.ULE(l, r), z3.UGE(l, r)]
    return out
