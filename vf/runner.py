"""Compile one spec unit against /repo, run harnesses, hunt and replay counterexamples."""
import os, sys, re, time, json, subprocess, tempfile, shutil, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import z3
from exec import *
import exec as X
import llparse

REPO = os.environ.get('VF_REPO', '/repo')
BASEFLAGS = ['-std=gnu++20', '-DASIOEXT_STANDALONE=1', '-DASIO_STANDALONE=1', '-I' + REPO + '/include', '-I' + HERE, '-I' + os.path.join(os.path.dirname(HERE), 'specs', 'common'),
             '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-fno-access-control', '-Wno-everything', '-D_FILE_OFFSET_BITS=64']

def compile_ir(src, out, flags=()):
    cmd = ['clang++'] + BASEFLAGS + list(flags) + ['-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-fno-vectorize',
           '-S', '-emit-llvm', src, '-o', out + '.raw']
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode: raise RuntimeError('compile failed: ' + p.stderr[-4000:])
    p = subprocess.run(['opt', '-passes=sroa', '-S', out + '.raw', '-o', out], capture_output=True, text=True)
    if p.returncode: raise RuntimeError('opt failed: ' + p.stderr[-2000:])

def load(path):
    return llparse.parse_module(open(path).read())

def harnesses(mod):
    return sorted(n[4:] for n, f in mod.funcs.items() if n.startswith('vfh_') and f.defined)

def contracts(mod):
    return {n[4:]: n for n, f in mod.funcs.items() if n.startswith('vfc$') and f.defined}

def run_proof(mod, h, opts, budget):
    """full proof of one harness; returns executor and error"""
    inv = set(opts.get('inv_loops', ()))
    t0 = time.time()
    for attempt in range(25):
        o = dict(opts)
        o['inv_loops'] = inv
        o['deadline'] = t0 + budget
        o['contracts'] = contracts(mod)
        ex = Executor(mod, o)
        try:
            ex.run('vfh_' + h)
            return ex, None
        except NeedInvariant as e:
            inv.add(e.key)
            continue
        except StopFail:
            return ex, None
        except (VfError, llparse.ParseError) as e:
            return ex, str(e)
        except z3.Z3Exception as e:
            return ex, 'z3: ' + str(e)
        except Exception as e:
            return ex, 'internal: ' + traceback.format_exc()[-1500:]
    return ex, 'loop analysis does not terminate'

def run_bmc(mod, h, opts, budget, unroll, stop=1):
    o = dict(opts)
    o.update(bmc=True, bmc_unroll=unroll, use_contracts=False, deadline=time.time() + budget, stop_on_fail=stop, inv_loops=())
    o['contracts'] = {}
    ex = Executor(mod, o)
    try:
        ex.run('vfh_' + h)
        return ex, None
    except StopFail:
        return ex, None
    except (VfError, llparse.ParseError, z3.Z3Exception) as e:
        return ex, str(e)
    except Exception as e:
        return ex, 'internal: ' + traceback.format_exc()[-1500:]

# ------------------------------------------------------------------ models -> inputs
def model_inputs(ex, f, small=True):
    """solve for a (preferably small) model of a failure; returns list of (kind,label,value,...)"""
    trace, pc = f.snapshot
    es = list(pc)
    if getattr(f, 'neg', None) is not None: es.append(f.neg)
    ex.o['deadline'] = None
    nums = [e[2] for e in trace if e[1] == 64] + [e[2] for e in trace if e[1] in ('bytes', 'block') and not isinstance(e[2], int)]
    m = None
    for lim in ([8, 64, 1024, 1 << 20] if small and nums else []):
        r, m = ex.check(es + [z3.ULE(v, lim) for v in nums])
        if r == 'sat' and m is not None: break
        m = None
    if m is None:
        cons = []
        for v in (nums if small else []):
            for lim in (16, 4096, 1 << 30):
                if ex.check(es + cons + [z3.ULE(v, lim)])[0] == 'sat':
                    cons.append(z3.ULE(v, lim)); break
        r, m = ex.check(es + cons)
        if r != 'sat' or m is None: m = f.model
        if m is None: return None
    out = []
    for ent in trace:
        lab, k = ent[0], ent[1]
        if k in ('bytes', 'block'):
            n = ent[2] if isinstance(ent[2], int) else m.bv(ent[2])
            d = {}
            idxs = range(n) if n <= 2048 else sorted(interesting(ex, m, es, ent[3], n))
            for i in idxs:
                v = m.bv(z3.Select(ent[3], z3.BitVecVal(i, 64)))
                if v: d[i] = v
            out.append((k, lab, n, 0, d))
        elif k == 1:
            out.append(('1', lab, int(m.boolean(ent[2]))))
        else:
            out.append((str(k), lab, m.bv(ent[2])))
    return out

def interesting(ex, m, es, arr, n):
    """indexes of arr read by the formulas, evaluated in the model"""
    out = set(range(64))
    seen = set()
    st = list(es)
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_select(x) and x.arg(0).eq(arr):
            try:
                v = m.bv(x.arg(1))
                if v < n: out.add(v)
            except Exception: pass
        st.extend(x.children())
    return out

def read_inputs(raw):
    out = []
    for l in raw.splitlines():
        t = l.split()
        if not t: continue
        if t[0] in ('bytes', 'block'): out.append((t[0], t[1], int(t[2]), int(t[3]), {int(a): int(b) for a, b in (x.split(':') for x in t[5:])}))
        else: out.append((t[0], t[1], int(t[2])))
    return out

def constants(ex, mod):
    """integers the executed functions of the repository and of the harness compare with"""
    out = set()
    for name in ex.functions_executed:
        fn = mod.funcs.get(name)
        if fn is None or not getattr(fn, 'blocks', None): continue
        try: loc = mod.fn_loc(name) or ''
        except Exception: loc = ''
        if '/asioext/' not in loc and '/specs/' not in loc: continue
        for b in fn.blocks.values():
            for i in b.instrs:
                if i.op == 'icmp': collect_ints(i.a[2:], out)
                elif i.op == 'switch': out.update(c[0][1] & (2**64 - 1) if isinstance(c[0], tuple) else c[0] & (2**64 - 1) for c in i.a[2])
                elif i.op in ('sub', 'add', 'and', 'or', 'xor'): collect_ints(i.a, out)
    return sorted(out)

def collect_ints(x, out):
    if isinstance(x, (tuple, list)):
        if len(x) == 2 and x[0] == 'int' and isinstance(x[1], int): out.add(x[1] & (2**64 - 1)); return
        for y in x: collect_ints(y, out)

def write_inputs(path, inp):
    with open(path, 'w') as f:
        for e in inp:
            e = (e[0], e[1].replace(' ', '_')) + tuple(e[2:])
            if e[0] in ('bytes', 'block'):
                f.write('%s %s %d %d %d %s\n' % (e[0], e[1], e[2], e[3], len(e[4]), ' '.join('%d:%d' % kv for kv in sorted(e[4].items()))))
            else:
                f.write('%s %s %d\n' % e)

class Native:
    def __init__(self, src, flags, workdir):
        self.src = src; self.flags = flags; self.dir = workdir
        self.obj = None
        self.err = None

    def build(self, h, san='address,undefined', tag='n'):
        wraps = []
        o = os.path.join(self.dir, tag + '_spec.o')
        if not os.path.exists(o):
            p = subprocess.run(['clang++'] + BASEFLAGS + list(self.flags) + ['-DVF_NATIVE=1', '-O1', '-g1', '-fsanitize=' + san, '-fno-sanitize=vptr,function,nonnull-attribute,returns-nonnull-attribute,pointer-overflow',
                                '-fno-sanitize-recover=undefined', '-c', self.src, '-o', o], capture_output=True, text=True)
            if p.returncode:
                self.err = p.stderr[-3000:]; return None
        p = subprocess.run(['nm', o], capture_output=True, text=True)
        for l in p.stdout.split('\n'):
            m = re.search(r' [TtWw] __wrap_(\S+)$', l)
            if m: wraps.append('-Wl,--wrap=' + m.group(1))
        rt = os.path.join(self.dir, tag + '_rt_%s.o' % h)
        p = subprocess.run(['clang++', '-std=gnu++20', '-O1', '-g1', '-I' + HERE, '-I' + os.path.join(os.path.dirname(HERE), 'specs', 'common'), '-fsanitize=' + san.split(',')[0], '-DVF_ENTRY=vfh_' + h, '-c', HERE + '/native.cpp', '-o', rt], capture_output=True, text=True)
        if p.returncode:
            self.err = p.stderr[-3000:]; return None
        exe = os.path.join(self.dir, tag + '_' + h)
        p = subprocess.run(['clang++', '-fsanitize=' + san, rt, o, '-o', exe, '-lpthread'] + wraps, capture_output=True, text=True)
        if p.returncode:
            self.err = p.stderr[-3000:]; return None
        return exe

    def fuzz(self, h, seeds, ints, path, secs, rng, procs=2):
        """look for a failing input around the models of failed obligations; True if one was left in path"""
        exe = os.path.join(self.dir, 'n_' + h)
        if not os.path.exists(exe):
            exe = self.build(h)
            if exe is None: return False, 'native build failed'
        quick = self.build(h, 'undefined', 'u') or exe      # most runs without address sanitizer: ten times as many
        sf, df = path + '.seeds', path + '.dict'
        open(sf, 'w').close()
        for s in seeds:
            write_inputs(path + '.one', s)
            with open(sf, 'a') as f: f.write(open(path + '.one').read() + 'end - 0\n')
        with open(df, 'w') as f: f.write('\n'.join(str(x) for x in ints) + '\n')
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:exitcode=77:detect_stack_use_after_return=0', UBSAN_OPTIONS='halt_on_error=1:exitcode=78')
        wd = tempfile.mkdtemp(dir=self.dir)
        ps = [subprocess.Popen([exe if j == 0 and procs > 1 else quick, '--fuzz', sf, df, '%s.%d' % (path, j), str(secs), str(rng * 1000 + j)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env, cwd=wd) for j in range(procs)]
        note, found = [], None
        for j, p in enumerate(ps):
            try: out = p.communicate(timeout=secs + 30)[0]
            except subprocess.TimeoutExpired: p.kill(); out = 'timeout'
            note.append(out.strip())
            if found is None and p.returncode == 0 and os.path.exists('%s.%d' % (path, j)): found = '%s.%d' % (path, j)
        shutil.rmtree(wd, ignore_errors=True)
        if found: shutil.copy(found, path)
        return found is not None, '; '.join(note)

    def replay(self, h, inp, path):
        write_inputs(path, inp)
        return self.replay_raw(h, None, path)

    def replay_raw(self, h, raw, path):
        if raw is not None: open(path, 'w').write(raw)
        exe = os.path.join(self.dir, 'n_' + h)
        if not os.path.exists(exe):
            exe = self.build(h)
            if exe is None: return None, 'native build failed: ' + (self.err or '')
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:exitcode=77:detect_stack_use_after_return=1', UBSAN_OPTIONS='halt_on_error=1:exitcode=78:print_stacktrace=1')
        wd = tempfile.mkdtemp(dir=self.dir)
        try:
            p = subprocess.run([exe, os.path.abspath(path)], capture_output=True, text=True, env=env, timeout=60, cwd=wd, errors='replace')
            rc, err = p.returncode, p.stderr
        except subprocess.TimeoutExpired as e:
            rc, err = 124, 'timeout'
        finally:
            shutil.rmtree(wd, ignore_errors=True)
        # confirmed: assertion clause (66), sanitizer (77/78), crash signal, hang
        confirmed = rc in (66, 77, 78) or rc < 0
        return confirmed, 'exit %s\n%s' % (rc, err[-6000:])
