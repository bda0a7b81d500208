"""External functions: assumed contracts of the environment (C/C++ runtime, libstdc++ binary)
and the verifier's own spec intrinsics (vf_*)."""
import z3
from exec import *
import exec as X

class Ret:
    def __init__(self, v=None):
        self.v = v

class Redirect:
    def __init__(self, name):
        self.name = name

TABLE = {}

def reg(*names):
    def d(f):
        for n in names: TABLE[n] = f
        return f
    return d

def cstr(ex, s, p):
    """concrete C string"""
    if not isinstance(p, Ptr) or p.obj == 0: return ''
    o = ex.getobj(s, p.obj)
    out = []
    i = p.off
    while True:
        b = ex.read_byte(o, i)
        b = ex.conc(s, b)
        if not isinstance(b, int): return ''.join(out) + '?'
        if b == 0: break
        out.append(chr(b)); i += 1
        if len(out) > 300: break
    return ''.join(out)

# ---------------------------------------------------------------- spec intrinsics
def nondet(w):
    def h(ex, s, fr, ins, a, il):
        lab = cstr(ex, s, a[0])
        n = len(s.trace)
        v = z3.BitVec('%s!%d' % (lab, n), w)
        s.trace.append((lab, w, v))
        return Ret(v)
    return h

for nm, w in (('u8', 8), ('u16', 16), ('u32', 32), ('u64', 64)):
    TABLE['vf_' + nm] = nondet(w)

@reg('vf_bool')
def vf_bool(ex, s, fr, ins, a, il):
    lab = cstr(ex, s, a[0])
    n = len(s.trace)
    v = z3.Bool('%s!%d' % (lab, n))
    b = ex.branch(s, v)
    s.trace.append((lab, 1, v))
    return Ret(int(b))

@reg('vf_ghost_bool')
def vf_ghost_bool(ex, s, fr, ins, a, il):
    """nondeterministic boolean that does not fork"""
    lab = cstr(ex, s, a[0])
    v = z3.Bool('%s!%d' % (lab, len(s.trace)))
    s.trace.append((lab, 1, v))
    return Ret(v)

@reg('vf_choose')
def vf_choose(ex, s, fr, ins, a, il):
    """vf_choose(n,label): forks into n values"""
    n = a[0]
    lab = cstr(ex, s, a[1])
    k = len(s.trace)
    v = z3.BitVec('%s!%d' % (lab, k), 32)
    c = ex.conc(s, v)
    if not isinstance(c, int):
        raise Fork([v == bvv(i, 32) for i in range(n)])
    s.trace.append((lab, 32, v))
    return Ret(c)

@reg('vf_bytes')
def vf_bytes(ex, s, fr, ins, a, il):
    n = a[0]
    lab = cstr(ex, s, a[1])
    k = len(s.trace)
    arr = z3.Array('%s!%d' % (lab, k), z3.BitVecSort(64), z3.BitVecSort(8))
    o = ex.new_obj(s, n, 'env', lab, Node('base', arr))
    s.trace.append((lab, 'bytes', n, arr))
    return Ret(Ptr(o.id, 0))

@reg('vf_bytes_in')
def vf_bytes_in(ex, s, fr, ins, a, il):
    """like vf_bytes, but every byte lies in one of the ranges (pairs of characters)"""
    n = a[0]
    lab = cstr(ex, s, a[1])
    rs = [ord(c) for c in cstr(ex, s, a[2])]
    k = len(s.trace)
    arr = z3.Array('%s!%d' % (lab, k), z3.BitVecSort(64), z3.BitVecSort(8))
    o = ex.new_obj(s, n, 'env', lab, Node('only', (arr, list(zip(rs[::2], rs[1::2])))))
    s.trace.append((lab, 'bytes', n, arr))
    return Ret(Ptr(o.id, 0))

@reg('vf_block')
def vf_block(ex, s, fr, ins, a, il):
    """like vf_bytes, but counts as a block obtained from operator new (ownership checked)"""
    n = a[0]
    lab = cstr(ex, s, a[1])
    k = len(s.trace)
    arr = z3.Array('%s!%d' % (lab, k), z3.BitVecSort(64), z3.BitVecSort(8))
    o = ex.new_obj(s, n, 'new', lab, Node('base', arr))
    s.trace.append((lab, 'block', n, arr))
    return Ret(Ptr(o.id, 0))

@reg('vf_assume')
def vf_assume(ex, s, fr, ins, a, il):
    if not ex.assume(s, tobool(a[0])): raise PathEnd()
    return Ret()

@reg('vf_seq')
def vf_seq(ex, s, fr, ins, a, il):
    s.hints += (('seq', a[0], a[1]),)
    return Ret()

@reg('vf_fact')
def vf_fact(ex, s, fr, ins, a, il):
    p = a[0]
    if isinstance(p, Ptr): s.hints += (('fact', p.obj, p.off, tobool(a[1])),)
    return Ret()

@reg('vf_same')
def vf_same(ex, s, fr, ins, a, il):
    p, q = [x.p if isinstance(x, PInt) else x for x in a[:2]]
    return Ret(int(isinstance(p, Ptr) and isinstance(q, Ptr) and p.obj == q.obj))

@reg('vf_byte')
def vf_byte(ex, s, fr, ins, a, il):
    if isinstance(a[0], Ptr): s.hints += (('byte', a[0].obj, a[1]),)
    return Ret()

@reg('vf_num')
def vf_num(ex, s, fr, ins, a, il):
    s.hints += (('num', a[0]),)
    return Ret()

def flagged(kind):
    def h(ex, s, fr, ins, a, il):
        lab = cstr(ex, s, a[1])
        v = a[0]
        if v is UNDEF: v = 0
        ex.oblige(s, tobool(v), kind, lab, ins.dbg)
        return Ret()
    return h

TABLE['vf_assert'] = flagged('ensures')
TABLE['vf_requires'] = flagged('requires')
TABLE['vf_contract_pre'] = flagged('contract-pre')
TABLE['vf_frame'] = flagged('ensures')

@reg('vf_cover')
def vf_cover(ex, s, fr, ins, a, il):
    lab = cstr(ex, s, a[0])
    if not ex.covers.get(lab):
        ok = True
        if s.model is None:
            r, m = ex.check(s.pc)
            ok = (r == 'sat')
            if ok: s.model = m
        ex.covers[lab] = ex.covers.get(lab, False) or ok
    return Ret()

@reg('vf_expect_cover')
def vf_expect_cover(ex, s, fr, ins, a, il):
    lab = cstr(ex, s, a[0])
    ex.covers.setdefault(lab, False)
    return Ret()

@reg('vf_stop')
def vf_stop(ex, s, fr, ins, a, il):
    raise PathEnd()

@reg('vf_heap_live')
def vf_heap_live(ex, s, fr, ins, a, il):
    return Ret(sum(1 for o in s.mem.values() if o.kind == 'new' and o.alive))

@reg('vf_is_live')
def vf_is_live(ex, s, fr, ins, a, il):
    p = ex.fix_ptr(s, a[0])
    if p is UNDEF or p.obj == 0 or isinstance(p.obj, str) or p.obj == -1: return Ret(0)
    return Ret(int(ex.getobj(s, p.obj).alive))

@reg('vf_block_size')
def vf_block_size(ex, s, fr, ins, a, il):
    """size of the live heap block starting at p (0 if p is not the start of one)"""
    p = ex.fix_ptr(s, a[0])
    if p is UNDEF or p.obj == 0 or isinstance(p.obj, str) or p.obj == -1: return Ret(0)
    o = ex.getobj(s, p.obj)
    if not o.alive or o.kind not in ('new', 'env', 'malloc'): return Ret(0)
    if not (isinstance(ex.conc(s, p.off), int) and ex.conc(s, p.off) == 0): return Ret(0)
    return Ret(o.size)

@reg('vf_same_block')
def vf_same_block(ex, s, fr, ins, a, il):
    p = ex.fix_ptr(s, a[0]); q = ex.fix_ptr(s, a[1])
    if p is UNDEF or q is UNDEF: return Ret(0)
    return Ret(int(p.obj == q.obj))

@reg('vf_offset')
def vf_offset(ex, s, fr, ins, a, il):
    """offset of pointer inside its object"""
    p = ex.fix_ptr(s, a[0])
    return Ret(p.off)

@reg('vf_hint')
def vf_hint(ex, s, fr, ins, a, il):
    return Ret()

@reg('vf_debug')
def vf_debug(ex, s, fr, ins, a, il):
    print('DEBUG', cstr(ex, s, a[0]), [simp(x) if isz(x) else x for x in a[1:]])
    return Ret()

# ---------------------------------------------------------------- heap
def do_new(ex, s, n):
    n = ex.conc(s, n)
    if not isinstance(n, int):
        # assumed contract: a successful allocation is at most PTRDIFF_MAX bytes
        if not ex.assume(s, ULE(n, (1 << 63) - 1)): raise PathEnd()
    o = ex.new_obj(s, n, 'new', 'heap')
    return Ptr(o.id, 0)

@reg('_Znwm', '_Znam', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t', '_ZnwmSt11align_val_t')
def op_new(ex, s, fr, ins, a, il):
    w = ex.mod.funcs.get('vf_new_hook')
    if w is not None and w.defined and not any(f.fn.name == 'vf_new_hook' for f in s.frames):
        return Redirect('vf_new_hook')
    return Ret(do_new(ex, s, a[0]))

@reg('vf_raw_new')
def vf_raw_new(ex, s, fr, ins, a, il):
    return Ret(do_new(ex, s, a[0]))

def do_free(ex, s, p, ins, kind, size=None):
    p = ex.fix_ptr(s, p)
    if p is UNDEF:
        ex.oblige(s, False, 'memory', 'free of uninitialised pointer', ins.dbg)
    if p.obj == 0:
        if isinstance(p.off, int) and p.off == 0: return
        ex.oblige(s, False, 'memory', 'free of invalid pointer', ins.dbg)
    if isinstance(p.obj, str) or p.obj == -1:
        ex.oblige(s, False, 'memory', 'free of invalid pointer', ins.dbg)
    o = ex.getobj(s, p.obj)
    ex.oblige(s, o.kind == kind, 'memory', 'deallocation of a %s block (%s)' % (o.kind, o.name), ins.dbg)
    ex.oblige(s, o.alive, 'memory', 'double free of %s' % o.name, ins.dbg)
    ex.oblige(s, EQ(p.off, 0), 'memory', 'free of interior pointer', ins.dbg)
    if size is not None:
        ex.oblige(s, EQ(size, o.size), 'memory', 'deallocation size differs from allocation size', ins.dbg)
    w = ex.wobj(s, p.obj)
    w.alive = False
    w.cells = {}

@reg('_ZdlPv', '_ZdaPv', '_ZdlPvSt11align_val_t', '_ZdlPvRKSt9nothrow_t')
def op_delete(ex, s, fr, ins, a, il):
    do_free(ex, s, a[0], ins, 'new')
    return Ret()

@reg('_ZdlPvm', '_ZdaPvm', '_ZdlPvmSt11align_val_t')
def op_delete_sized(ex, s, fr, ins, a, il):
    do_free(ex, s, a[0], ins, 'new', a[1])
    return Ret()

@reg('malloc')
def c_malloc(ex, s, fr, ins, a, il):
    o = ex.new_obj(s, a[0], 'malloc', 'malloc')
    return Ret(Ptr(o.id, 0))

@reg('aligned_alloc')
def c_aligned_alloc(ex, s, fr, ins, a, il):
    o = ex.new_obj(s, a[1], 'malloc', 'malloc')
    return Ret(Ptr(o.id, 0))

@reg('free')
def c_free(ex, s, fr, ins, a, il):
    do_free(ex, s, a[0], ins, 'malloc')
    return Ret()

# ---------------------------------------------------------------- memory functions
@reg('memcpy')
def c_memcpy(ex, s, fr, ins, a, il):
    ex.memcopy(s, a[0], a[1], a[2], ins.dbg, False)
    return Ret(a[0])

@reg('memmove')
def c_memmove(ex, s, fr, ins, a, il):
    ex.memcopy(s, a[0], a[1], a[2], ins.dbg, True)
    return Ret(a[0])

@reg('memset')
def c_memset(ex, s, fr, ins, a, il):
    ex.memset(s, a[0], trunc(a[1], 32, 8), a[2], ins.dbg)
    return Ret(a[0])

@reg('memcmp', 'bcmp')
def c_memcmp(ex, s, fr, ins, a, il):
    n = ex.conc(s, a[2])
    if not isinstance(n, int):
        vals = ex.enum_vals(s, n, 80)
        raise Fork([n == bvv(v, 64) for v in vals])
    if n == 0: return Ret(0)
    p, q = ex.fix_ptr(s, a[0]), ex.fix_ptr(s, a[1])
    o1, f1 = ex.deref(s, p, n, 'read', ins.dbg)
    o2, f2 = ex.deref(s, q, n, 'read', ins.dbg)
    r = 0
    for j in reversed(range(n)):
        x = ex.read(s, o1, ex.conc(s, ADD(f1, j)), 1)
        y = ex.read(s, o2, ex.conc(s, ADD(f2, j)), 1)
        r = ITE(EQ(x, y, 8), r, ITE(ULT(x, y, 8), 0xffffffff, 1, 32), 32)
    return Ret(r)

@reg('strlen')
def c_strlen(ex, s, fr, ins, a, il):
    p = ex.fix_ptr(s, a[0])
    o, off = ex.deref(s, p, 1, 'read', ins.dbg)
    n = 0
    while True:
        b = ex.conc(s, ex.read(s, o, ex.conc(s, ADD(off, n)), 1))
        z = ex.branch(s, EQ(b, 0, 8))
        if z: return Ret(n)
        n += 1
        if n > 4096: raise VfError('strlen')
        ex.deref(s, Ptr(p.obj, ADD(off, n)), 1, 'read', ins.dbg)

# ---------------------------------------------------------------- exceptions
@reg('__cxa_allocate_exception')
def cxa_alloc(ex, s, fr, ins, a, il):
    o = ex.new_obj(s, a[0], 'exc', 'exception')
    return Ret(Ptr(o.id, 0))

@reg('__cxa_free_exception')
def cxa_free(ex, s, fr, ins, a, il):
    w = ex.wobj(s, a[0].obj)
    w.alive = False
    return Ret()

@reg('__cxa_throw')
def cxa_throw(ex, s, fr, ins, a, il):
    return ex.throw(s, a[0], a[1], a[2], il)

@reg('__cxa_begin_catch')
def begin_catch(ex, s, fr, ins, a, il):
    s.caught.append([s.exc, False])
    s.exc = None
    return Ret(a[0])

@reg('__cxa_get_exception_ptr')
def get_exc_ptr(ex, s, fr, ins, a, il):
    return Ret(a[0])

@reg('__cxa_end_catch')
def end_catch(ex, s, fr, ins, a, il):
    e, rethrown = s.caught.pop()
    if not rethrown and not any(c[0] is not None and c[0][0].obj == e[0].obj for c in s.caught):
        # destroy exception object
        ptr, ti, dtor = e
        if isinstance(dtor, Ptr) and dtor.obj != 0:
            name = dtor.obj[2:]
            f = ex.mod.funcs.get(name)
            if f is not None and f.defined and name not in TABLE:
                # run destructor, then continue after this call
                if ins.op == 'invoke':
                    r = ex.after_call(s, s.frames[-1], ins, None, il)
                else:
                    s.frames[-1].i += 1
                    r = None
                if r is None:
                    ex.push_frame(s, f, [ptr], None)
                return r
    return Ret()

@reg('__cxa_rethrow')
def rethrow(ex, s, fr, ins, a, il):
    if not s.caught:
        ex.oblige(s, False, 'terminate', 'rethrow without exception', ins.dbg)
    s.caught[-1] = [s.caught[-1][0], True]
    s.exc = s.caught[-1][0]
    return ex.unwind(s, il)

@reg('__clang_call_terminate', '_ZSt9terminatev', 'abort', '__cxa_pure_virtual', '_ZSt10unexpectedv', '__cxa_throw_bad_array_new_length', 'llvm.trap', '__stack_chk_fail')
def terminate(ex, s, fr, ins, a, il):
    ex.oblige(s, False, 'terminate', 'std::terminate/abort called', ins.dbg)
    raise PathEnd()

@reg('__assert_fail')
def assert_fail(ex, s, fr, ins, a, il):
    ex.oblige(s, False, 'terminate', 'assertion failed: ' + cstr(ex, s, a[0]), ins.dbg)
    raise PathEnd()

def thrower(ti, size=16):
    def h(ex, s, fr, ins, a, il):
        o = ex.new_obj(s, 64, 'exc', 'exception')
        return ex.throw(s, Ptr(o.id, 0), ex.global_ptr(s, ti), NULL, il)
    return h

for nm, ti in (('_ZSt20__throw_length_errorPKc', '_ZTISt12length_error'),
               ('_ZSt19__throw_logic_errorPKc', '_ZTISt11logic_error'),
               ('_ZSt17__throw_bad_allocv', '_ZTISt9bad_alloc'),
               ('_ZSt28__throw_bad_array_new_lengthv', '_ZTISt20bad_array_new_length'),
               ('_ZSt25__throw_bad_function_callv', '_ZTISt17bad_function_call'),
               ('_ZSt20__throw_out_of_rangePKc', '_ZTISt12out_of_range'),
               ('_ZSt24__throw_out_of_range_fmtPKcz', '_ZTISt12out_of_range'),
               ('_ZSt24__throw_invalid_argumentPKc', '_ZTISt16invalid_argument'),
               ('_ZSt16__throw_bad_castv', '_ZTISt8bad_cast'),
               ('_ZSt20__throw_bad_weak_ptrv', '_ZTISt12bad_weak_ptr'),
               ('vf_throw_bad_alloc', '_ZTISt9bad_alloc')):
    TABLE[nm] = thrower(ti)

def noop(ex, s, fr, ins, a, il):
    return Ret(0)

for base in ('St12length_error', 'St11logic_error', 'St13runtime_error', 'St12out_of_range', 'St16invalid_argument', 'St12system_error',
             'St9exception', 'St9bad_alloc', 'St17bad_function_call', 'St14overflow_error', 'St11range_error'):
    for c in ('C1EPKc', 'C2EPKc', 'D1Ev', 'D2Ev', 'C1ERKS_', 'C2ERKS_', 'C1EOS_', 'C2EOS_', 'D0Ev'):
        TABLE['_ZN%s%s' % (base, c)] = noop
    for c in ('C1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE', 'C2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE'):
        TABLE['_ZN%s%s' % (base, c)] = noop
for base in ('_ZNSt11logic_errorC2ERKS_', '_ZNSt13runtime_errorC2ERKS_', '_ZNSt13runtime_erroraSERKS_', '_ZNSt13runtime_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE'):
    TABLE[base] = noop

def cstr_const(ex, s, text):
    nm = '.vf_str_' + text
    if nm not in ex.mod.globals:
        g = Global()
        g.name = nm; g.type = ('array', len(text) + 1, ('int', 8)); g.init = ('bytes', text.encode() + b'\0'); g.const = True; g.external = False
        ex.mod.globals[nm] = g
    return ex.global_ptr(s, nm)

@reg('_ZNKSt13runtime_error4whatEv', '_ZNKSt11logic_error4whatEv', '_ZNKSt9exception4whatEv', '_ZNKSt9bad_alloc4whatEv')
def exc_what(ex, s, fr, ins, a, il):
    return Ret(cstr_const(ex, s, 'what'))

# std::system_error(error_code, const char*): object layout {vptr, string/cow msg, error_code{int, category*}} code at offset 16
def sysfn(ex, s, fr, ins, a, il):
    # args: this, int value (i32), category ptr [by value error_code passed as {i32, ptr}], what
    this = a[0]
    ex.store(s, ('int', 32), a[1], Ptr(this.obj, ADD(this.off, 16)), ins.dbg)
    ex.store(s, ('ptr',), a[2], Ptr(this.obj, ADD(this.off, 24)), ins.dbg)
    return Ret(0)

for c in ('C1ESt10error_codePKc', 'C2ESt10error_codePKc', 'C1ESt10error_code', 'C2ESt10error_code',
          'C1ESt10error_codeRKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE', 'C2ESt10error_codeRKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE'):
    TABLE['_ZNSt12system_error' + c] = sysfn

def sys_copy(ex, s, fr, ins, a, il):
    for off, t in ((16, ('int', 32)), (24, ('ptr',))):
        v = ex.load(s, t, Ptr(a[1].obj, ADD(a[1].off, off)), ins.dbg)
        ex.store(s, t, v, Ptr(a[0].obj, ADD(a[0].off, off)), ins.dbg)
    return Ret(0)
for c in ('C1ERKS_', 'C2ERKS_', 'C1EOS_', 'C2EOS_'):
    TABLE['_ZNSt12system_error' + c] = sys_copy

# ---------------------------------------------------------------- std misc
def opaque_obj(nm):
    def h(ex, s, fr, ins, a, il):
        if nm not in ex.mod.globals and nm not in ex.globals:
            pass
        return Ret(ex.global_ptr(s, nm))
    return h

TABLE['_ZNSt3_V215system_categoryEv'] = opaque_obj('vf.system_category')
TABLE['_ZNSt3_V216generic_categoryEv'] = opaque_obj('vf.generic_category')
TABLE['__errno_location'] = opaque_obj('vf.errno')

for nm in ('__cxa_atexit', '__cxa_thread_atexit', '_ZNSt8ios_base4InitC1Ev', '_ZNSt8ios_base4InitD1Ev', '__cxa_guard_abort',
           'pthread_mutex_init', 'pthread_mutex_destroy', 'pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_cond_init', 'pthread_cond_destroy',
           'pthread_cond_signal', 'pthread_cond_broadcast', 'pthread_condattr_init', 'pthread_condattr_setclock', 'pthread_condattr_destroy',
           'pthread_setspecific', '_ZNSt14error_categoryD2Ev', '_ZNSt3_V214error_categoryD2Ev', '_ZNSt9exceptionD2Ev', 'sched_yield'):
    TABLE[nm] = noop

@reg('pthread_key_create')
def key_create(ex, s, fr, ins, a, il):
    ex.store(s, ('int', 32), 1, a[0], ins.dbg)
    return Ret(0)

TABLE['pthread_key_delete'] = noop
TABLE['pthread_getspecific'] = lambda ex, s, fr, ins, a, il: Ret(NULL)
TABLE['__libc_single_threaded'] = noop

@reg('__cxa_guard_acquire')
def guard_acquire(ex, s, fr, ins, a, il):
    v = ex.load(s, ('int', 8), a[0], ins.dbg)
    return Ret(int(v == 0))

@reg('__cxa_guard_release')
def guard_release(ex, s, fr, ins, a, il):
    ex.store(s, ('int', 8), 1, a[0], ins.dbg)
    return Ret()

# ---------------------------------------------------------------- llvm intrinsics
def llvm_intrinsic(name):
    n = name[5:]
    if n.startswith('memcpy'):
        return lambda ex, s, fr, ins, a, il: (ex.memcopy(s, a[0], a[1], a[2], ins.dbg, False), Ret())[1]
    if n.startswith('memmove'):
        return lambda ex, s, fr, ins, a, il: (ex.memcopy(s, a[0], a[1], a[2], ins.dbg, True), Ret())[1]
    if n.startswith('memset'):
        return lambda ex, s, fr, ins, a, il: (ex.memset(s, a[0], a[1], a[2], ins.dbg), Ret())[1]
    if n.startswith('lifetime.start'):
        def h(ex, s, fr, ins, a, il):
            o = ex.wobj(s, a[1].obj)
            if not o.alive:
                o.alive = True
            o.cells = {}
            o.node = Node('base', z3.Array('m%d_%d' % (o.id, next(ex.fresh)), z3.BitVecSort(64), z3.BitVecSort(8)))
            return Ret()
        return h
    if n.startswith('lifetime.end'):
        def h(ex, s, fr, ins, a, il):
            o = ex.wobj(s, a[1].obj)
            o.alive = False
            return Ret()
        return h
    if n.startswith('dbg.') or n.startswith('experimental.noalias') or n.startswith('donothing'):
        return lambda ex, s, fr, ins, a, il: Ret()
    if n.startswith('assume'):
        def h(ex, s, fr, ins, a, il):
            ex.oblige(s, tobool(a[0]), 'unreachable', 'llvm.assume', ins.dbg)
            return Ret()
        return h
    if n.startswith('expect'):
        return lambda ex, s, fr, ins, a, il: Ret(a[0])
    if n.startswith('is.constant'):
        return lambda ex, s, fr, ins, a, il: Ret(0)
    if n.startswith('objectsize'):
        return lambda ex, s, fr, ins, a, il: Ret(M64)
    for k in ('umin', 'umax', 'smin', 'smax'):
        if n.startswith(k):
            w = int(n.split('.i')[1])
            p = {'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[k]
            return lambda ex, s, fr, ins, a, il: Ret(ITE(cmpop(p, w, a[0], a[1]), a[0], a[1], w))
    if n.startswith('abs.'):
        w = int(n.split('.i')[1])
        return lambda ex, s, fr, ins, a, il: Ret(ITE(cmpop('slt', w, a[0], 0), binop('sub', w, 0, a[0]), a[0], w))
    if n.startswith('bswap'):
        w = int(n.split('.i')[1])
        def h(ex, s, fr, ins, a, il):
            v = a[0]
            bs = [byte_of(v, j, w // 8) for j in range(w // 8)]
            return Ret(concat_bytes(list(reversed(bs))))
        return h
    for k in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul'):
        if n.startswith(k + '.with.overflow'):
            w = int(n.split('.i')[1])
            op = k[1:]
            def h(ex, s, fr, ins, a, il):
                ok = nuw_ok(op, w, a[0], a[1]) if k[0] == 'u' else nsw_ok(op, w, a[0], a[1])
                nv = NOT(ok)
                return Ret([binop(op, w, a[0], a[1]), int(nv) if isinstance(nv, bool) else nv])
            return h
    if n.startswith('usub.sat'):
        w = int(n.split('.i')[1])
        return lambda ex, s, fr, ins, a, il: Ret(ITE(cmpop('ult', w, a[0], a[1]), 0, binop('sub', w, a[0], a[1]), w))
    if n.startswith('uadd.sat'):
        w = int(n.split('.i')[1])
        def h(ex, s, fr, ins, a, il):
            r = binop('add', w, a[0], a[1])
            return Ret(ITE(cmpop('ult', w, r, a[0]), (1 << w) - 1, r, w))
        return h
    if n.startswith('eh.typeid.for'):
        return lambda ex, s, fr, ins, a, il: Ret(ex.typeid(a[0]))
    if n == 'trap':
        return TABLE['abort']
    if n.startswith('stacksave'):
        return lambda ex, s, fr, ins, a, il: Ret(NULL)
    if n.startswith('stackrestore'):
        return lambda ex, s, fr, ins, a, il: Ret()
    if n.startswith('threadlocal.address'):
        return lambda ex, s, fr, ins, a, il: Ret(a[0])
    if n.startswith('fshl') or n.startswith('fshr'):
        w = int(n.split('.i')[1])
        left = n.startswith('fshl')
        def h(ex, s, fr, ins, a, il):
            c = binop('urem', w, a[2], w)
            if not isinstance(c, int): raise VfError('fsh')
            if c == 0: return Ret(a[0] if left else a[1])
            if left: return Ret(binop('or', w, binop('shl', w, a[0], c), binop('lshr', w, a[1], w - c)))
            return Ret(binop('or', w, binop('shl', w, a[0], w - c), binop('lshr', w, a[1], c)))
        return h
    def unk(ex, s, fr, ins, a, il):
        raise VfError('intrinsic ' + name)
    return unk
