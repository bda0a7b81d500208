"""Parser for textual LLVM IR (LLVM 18, opaque pointers): the subset clang emits for C++.

Produces Module(functions, globals, types).  Every construct that is not
understood raises ParseError when (and only when) the enclosing function is
executed: bodies are parsed lazily.
"""
import re

class ParseError(Exception):
    pass

TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<cstr>c"(?:[^"\\]|\\.)*")
 | (?P<qid>[%@$!]"(?:[^"\\]|\\.)*")
 | (?P<str>"(?:[^"\\]|\\.)*")
 | (?P<id>[%@$!][-a-zA-Z$._0-9]+)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?|0x[0-9A-Fa-f]+)
 | (?P<dots>\.\.\.)
 | (?P<kw>[a-zA-Z_][-a-zA-Z_.0-9]*)
 | (?P<p>[(){}\[\]<>,=*:|!])
''', re.X)

def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise ParseError('lex: ' + s[i:i+60])
        i = m.end()
        k = m.lastgroup
        if k == 'ws':
            continue
        t = m.group()
        if k == 'qid':
            t = t[0] + unesc(t[2:-1])
            k = 'id'
        out.append((k, t))
    return out

def unesc(s):
    if '\\' not in s:
        return s
    return re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), s)

def cbytes(s):
    # s: c"...."
    s = s[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i+1] == '\\':
                out.append(92); i += 2
            else:
                out.append(int(s[i+1:i+3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)

# ---- types -----------------------------------------------------------------
# ('int',w) ('ptr',) ('void',) ('array',n,t) ('struct',(t...),packed) ('float',name)
# ('label',) ('metadata',) ('named',name) ('token',) ('vec',n,t)
PTR = ('ptr',)
VOID = ('void',)

def I(w):
    return ('int', w)

class Types:
    def __init__(self):
        self.named = {}
        self._size = {}
        self._lay = {}

    def resolve(self, t):
        while t[0] == 'named':
            t2 = self.named.get(t[1])
            if t2 is None:
                raise ParseError('opaque type ' + t[1])
            t = t2
        return t

    def align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'int':
            w = t[1]
            if w <= 8: return 1
            if w <= 16: return 2
            if w <= 32: return 4
            if w <= 64: return 8
            return 16
        if k == 'ptr': return 8
        if k == 'float': return {'float': 4, 'double': 8, 'x86_fp80': 16, 'fp128': 16}[t[1]]
        if k == 'array': return self.align(t[2])
        if k == 'vec': return self.size(t)
        if k == 'struct':
            if t[2]: return 1
            return max([1] + [self.align(x) for x in t[1]])
        raise ParseError('align %r' % (t,))

    def size(self, t):
        """alloc size"""
        r = self._size.get(t)
        if r is None:
            r = self._size[t] = self._size0(t)
        return r

    def _size0(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'int':
            b = (t[1] + 7) // 8
            a = self.align(t)
            return (b + a - 1) // a * a
        if k == 'ptr': return 8
        if k == 'float': return {'float': 4, 'double': 8, 'x86_fp80': 16, 'fp128': 16}[t[1]]
        if k == 'array': return t[1] * self.size(t[2])
        if k == 'vec': return t[1] * self.size(t[2])
        if k == 'struct': return self.layout(t)[1]
        raise ParseError('size %r' % (t,))

    def layout(self, t):
        t = self.resolve(t)
        r = self._lay.get(t)
        if r is None:
            offs = []
            o = 0
            for x in t[1]:
                if not t[2]:
                    a = self.align(x)
                    o = (o + a - 1) // a * a
                offs.append(o)
                o += self.size(x)
            if not t[2]:
                a = self.align(t)
                o = (o + a - 1) // a * a
            r = self._lay[t] = (offs, o)
        return r

class P:
    """token stream"""
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i][1]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if self.peek() != x:
            raise ParseError('expected %s got %s in %s' % (x, self.peek(), ' '.join(a[1] for a in self.t[max(0, self.i-12):self.i+8])))
        self.i += 1

    def done(self):
        return self.i >= len(self.t)

    # ---- types
    def type(self):
        t = self.type0()
        # function types: skip "(...)" used in calls handled by caller
        return t

    def type0(self):
        x = self.next()
        if x == 'ptr':
            if self.peek() == 'addrspace':
                raise ParseError('addrspace')
            return PTR
        if x == 'void': return VOID
        if x[0] == 'i' and x[1:].isdigit(): return ('int', int(x[1:]))
        if x in ('float', 'double', 'x86_fp80', 'fp128'): return ('float', x)
        if x == 'label': return ('label',)
        if x == 'metadata': return ('metadata',)
        if x == 'token': return ('token',)
        if x == 'opaque': return ('opaque',)
        if x[0] == '%': return ('named', x[1:])
        if x == '[':
            n = int(self.next()); self.expect('x')
            t = self.type(); self.expect(']')
            return ('array', n, t)
        if x == '{':
            return self.struct_rest('}', False)
        if x == '<':
            if self.peek() == '{':
                self.next()
                t = self.struct_rest('}', True)
                self.expect('>')
                return t
            n = int(self.next()); self.expect('x')
            t = self.type(); self.expect('>')
            return ('vec', n, t)
        raise ParseError('type ' + x)

    def struct_rest(self, close, packed):
        ts = []
        if self.accept(close):
            return ('struct', (), packed)
        while True:
            ts.append(self.type())
            if self.accept(close):
                break
            self.expect(',')
        return ('struct', tuple(ts), packed)

    # ---- values (operands, constants); type known
    def value(self, t):
        k = self.kind()
        x = self.next()
        if k == 'id':
            if x[0] == '%': return ('reg', x[1:])
            if x[0] == '@': return ('glob', x[1:])
            if x[0] == '!': return ('meta', x)
        if k == 'num':
            if x.startswith('0x') or '.' in x:
                return ('fp', x)
            return ('int', int(x))
        if x == 'true': return ('int', 1)
        if x == 'false': return ('int', 0)
        if x == 'null': return ('null',)
        if x in ('undef', 'poison'): return ('undef',)
        if x == 'zeroinitializer': return ('zero',)
        if x == 'none': return ('none',)
        if k == 'cstr': return ('bytes', cbytes(x))
        if x == '{':
            vs = []
            if not self.accept('}'):
                while True:
                    vs.append(self.tv())
                    if self.accept('}'): break
                    self.expect(',')
            return ('agg', vs)
        if x == '<':
            if self.accept('{'):
                vs = []
                if not self.accept('}'):
                    while True:
                        vs.append(self.tv())
                        if self.accept('}'): break
                        self.expect(',')
                self.expect('>')
                return ('agg', vs)
            vs = []
            while True:
                vs.append(self.tv())
                if self.accept('>'): break
                self.expect(',')
            return ('agg', vs)
        if x == '[':
            vs = []
            if not self.accept(']'):
                while True:
                    vs.append(self.tv())
                    if self.accept(']'): break
                    self.expect(',')
            return ('agg', vs)
        if x == 'getelementptr':
            inb = False
            while self.peek() in ('inbounds', 'nuw', 'nusw'):
                self.next(); inb = True
            if self.peek() == 'inrange':
                raise ParseError('inrange')
            self.expect('(')
            ty = self.type(); self.expect(',')
            base = self.tv()
            idx = []
            while self.accept(','):
                self.accept('inrange')
                idx.append(self.tv())
            self.expect(')')
            return ('cgep', ty, base, idx)
        if x in ('bitcast', 'inttoptr', 'ptrtoint', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.expect('(')
            v = self.tv()
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return ('ccast', x, v, t2)
        if x in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl'):
            while self.peek() in ('nuw', 'nsw'):
                self.next()
            self.expect('(')
            a = self.tv(); self.expect(','); b = self.tv()
            self.expect(')')
            return ('cbin', x, a, b)
        if x == 'blockaddress':
            raise ParseError('blockaddress')
        if x == 'asm':
            raise ParseError('inline asm')
        raise ParseError('value ' + x)

    def tv(self):
        t = self.type()
        self.attrs()
        return (t, self.value(t))

    PATTR = {'noundef', 'nonnull', 'zeroext', 'signext', 'nocapture', 'readonly', 'readnone', 'noalias', 'returned',
             'immarg', 'inreg', 'writeonly', 'nest', 'nofree', 'swiftself', 'allocalign', 'allocptr', 'writable', 'dead_on_unwind'}

    def attrs(self):
        """parameter attributes; returns dict of interesting ones"""
        r = {}
        while True:
            x = self.peek()
            if x in self.PATTR:
                r[x] = True
                self.next()
            elif x in ('align',):
                self.next()
                if self.accept('('):
                    self.next(); self.expect(')')
                else:
                    self.next()
            elif x in ('dereferenceable', 'dereferenceable_or_null'):
                self.next(); self.expect('('); self.next(); self.expect(')')
            elif x in ('byval', 'sret', 'byref', 'inalloca', 'preallocated', 'elementtype'):
                self.next(); self.expect('(')
                r[x] = self.type()
                self.expect(')')
            elif x in ('range', 'memory', 'nofpclass', 'captures', 'initializes'):
                self.next(); self.skip_parens()
            elif self.kind() == 'attr':
                self.next()
            else:
                return r

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()
            if x == '(': d += 1
            elif x == ')': d -= 1

class Function:
    def __init__(self, name, header, lines, mod):
        self.name = name
        self.header = header
        self.lines = lines
        self.mod = mod
        self._parsed = False
        self.defined = lines is not None
        self.subprogram = None

    def parse(self):
        if not self._parsed:
            parse_header(self)
            if self.defined:
                parse_body(self)
            self._parsed = True
        return self

    def __repr__(self):
        return '<fn %s>' % self.name

class Block:
    __slots__ = ('name', 'instrs', 'func', 'idx', 'preds')

class Instr:
    __slots__ = ('op', 'res', 'a', 'dbg', 'text', 'blk', 'i')
    # a: op-specific tuple/dict
    def __repr__(self):
        return self.text

class Global:
    __slots__ = ('name', 'type', 'init', 'const', 'external', 'align')

class Module:
    def __init__(self):
        self.types = Types()
        self.funcs = {}
        self.globals = {}
        self.aliases = {}
        self.meta = {}
        self._loc = {}

    def fn_loc(self, name):
        f = self.funcs[name]
        m = re.search(r'!dbg !(\d+)', f.header)
        if not m: return None
        d = self.meta.get(m.group(1), '')
        fm = re.search(r'file: !(\d+)', d)
        lm = re.search(r'line: (\d+)', d)
        if not fm: return None
        fm2 = re.search(r'filename: "([^"]*)"', self.meta.get(fm.group(1), ''))
        return '%s:%s' % (fm2.group(1) if fm2 else '?', lm.group(1) if lm else '0')

    def loc(self, dbg):
        """dbg id -> 'file:line' """
        if dbg is None:
            return '?'
        r = self._loc.get(dbg)
        if r is None:
            m = self.meta.get(dbg, '')
            lm = re.search(r'line: (\d+)', m)
            sm = re.search(r'scope: !(\d+)', m)
            f = '?'
            cur = sm.group(1) if sm else None
            n = 0
            while cur and n < 50:
                n += 1
                s = self.meta.get(cur, '')
                fm = re.search(r'file: !(\d+)', s)
                if fm:
                    fm2 = re.search(r'filename: "([^"]*)"', self.meta.get(fm.group(1), ''))
                    f = fm2.group(1) if fm2 else '?'
                    break
                sm2 = re.search(r'scope: !(\d+)', s)
                cur = sm2.group(1) if sm2 else None
            r = '%s:%s' % (f, lm.group(1) if lm else '0')
            self._loc[dbg] = r
        return r

LINKAGE = {'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common', 'appending', 'extern_weak',
           'linkonce_odr', 'weak_odr', 'external', 'dso_local', 'dso_preemptable', 'default', 'hidden', 'protected',
           'dllimport', 'dllexport', 'unnamed_addr', 'local_unnamed_addr', 'thread_local', 'fastcc', 'coldcc', 'ccc', 'externally_initialized'}

def parse_module(text):
    mod = Module()
    lines = text.split('\n')
    i = 0
    n = len(lines)
    while i < n:
        l = lines[i]
        i += 1
        if not l or l[0] == ';':
            continue
        c = l[0]
        if c == '!':
            m = re.match(r'!(\d+) = (.*)', l)
            if m:
                mod.meta[m.group(1)] = m.group(2)
            continue
        if c == '%':
            p = P(tokenize(l))
            name = p.next()[1:]
            p.expect('='); p.expect('type')
            t = p.type()
            if t[0] != 'opaque':
                mod.types.named[name] = t
            continue
        if c == '@':
            parse_global(mod, l)
            continue
        if l.startswith('define'):
            j = i
            while lines[j] != '}':
                j += 1
            nm = fname(l)
            f = Function(nm, l, lines[i:j], mod)
            m = re.search(r'!dbg !(\d+)', l)
            f.subprogram = m.group(1) if m else None
            mod.funcs[nm] = f
            i = j + 1
            continue
        if l.startswith('declare'):
            nm = fname(l)
            mod.funcs[nm] = Function(nm, l, None, mod)
            continue
        # target, source_filename, attributes, $comdat, module asm
    return mod

FN = re.compile(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(')
def fname(l):
    m = FN.search(l)
    s = m.group(1)
    if s[0] == '"':
        s = unesc(s[1:-1])
    return s

def parse_global(mod, l):
    p = P(tokenize(re.sub(r', !dbg !\d+', '', l)))
    g = Global()
    g.name = p.next()[1:]
    p.expect('=')
    g.external = False
    while True:
        x = p.peek()
        if x in LINKAGE:
            if x in ('external', 'extern_weak'):
                g.external = True
            p.next()
            if x == 'thread_local' and p.peek() == '(':
                p.skip_parens()
            continue
        break
    x = p.next()
    if x == 'alias':
        t = p.type()
        if p.peek() == '(':
            p.skip_parens()
        p.expect(',')
        tv = p.tv()
        mod.aliases[g.name] = tv
        return
    if x == 'ifunc':
        return
    g.const = (x == 'constant')
    g.type = p.type()
    g.init = None
    if not g.external:
        g.init = p.value(g.type)
    mod.globals[g.name] = g

def parse_header(f):
    p = P(tokenize(re.sub(r" !dbg !\d+", "", f.header)))
    p.next()
    p.attrs()
    while p.peek() in LINKAGE or p.kind() == 'attr':
        p.next()
    p.attrs()
    f.ret = p.type()
    if p.peek() in ('unnamed_addr',):
        p.next()
    nm = p.next()
    p.expect('(')
    f.params = []
    f.vararg = False
    idx = 0
    while not p.accept(')'):
        if p.peek() == '...':
            p.next(); f.vararg = True
            p.accept(',')
            continue
        t = p.type()
        at = p.attrs()
        if p.kind() == 'id' and p.peek()[0] == '%':
            name = p.next()[1:]
        else:
            name = str(idx)
        if name.isdigit() or True:
            idx += 1
        f.params.append((t, name, at))
        p.accept(',')
    f.personality = 'personality' in f.header
    f.header_attrs = f.header

LABEL = re.compile(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):')

def parse_body(f):
    blocks = {}
    order = []
    cur = None
    # implicit entry label: number of params unnamed
    nun = sum(1 for (t, n, a) in f.params if n.isdigit())
    lines = f.lines
    i = 0
    n = len(lines)
    entry_named = False
    raw = []
    while i < n:
        l = lines[i]
        i += 1
        if not l.strip() or l.lstrip().startswith(';'):
            continue
        m = LABEL.match(l)
        if m and not l.startswith(' '):
            nm = m.group(1)
            if nm[0] == '"':
                nm = unesc(nm[1:-1])
            cur = Block(); cur.name = nm; cur.instrs = []; cur.func = f; cur.idx = len(order); cur.preds = []
            blocks[nm] = cur
            order.append(cur)
            continue
        if cur is None:
            nm = str(nun)
            cur = Block(); cur.name = nm; cur.instrs = []; cur.func = f; cur.idx = 0; cur.preds = []
            blocks[nm] = cur
            order.append(cur)
        # join multi-line instrs: switch [ ... ], landingpad clauses, invoke ... to label
        s = l
        st = s.strip()
        if st.startswith('switch') and st.endswith('['):
            while not lines[i].strip().startswith(']'):
                s += ' ' + lines[i].strip(); i += 1
            s += ' ' + lines[i].strip(); i += 1
        elif re.match(r'(%\S+ = )?invoke ', st):
            s += ' ' + lines[i].strip(); i += 1
        elif re.match(r'%\S+ = landingpad ', st):
            while i < n and re.match(r'\s+(cleanup|catch|filter)\b', lines[i]):
                s += ' ' + lines[i].strip(); i += 1
        raw.append((cur, s))
    for (b, s) in raw:
        ins = parse_instr(s)
        ins.blk = b
        ins.i = len(b.instrs)
        b.instrs.append(ins)
    f.blocks = blocks
    f.order = order
    for b in order:
        for s in succs(b):
            blocks[s].preds.append(b.name)
    find_loops(f)

def succs(b):
    t = b.instrs[-1]
    if t.op == 'br':
        return [t.a[-1]] if len(t.a) == 1 else [t.a[1], t.a[2]]
    if t.op == 'switch':
        return [t.a[1]] + [c[1] for c in t.a[2]]
    if t.op == 'invoke':
        return [t.a['normal'], t.a['unwind']]
    return []

def find_loops(f):
    """loop headers (natural loops; irreducible -> DFS back edge targets) and bodies"""
    idx = {}
    color = {}
    back = []
    entry = f.order[0].name
    stack = [(entry, iter(succs(f.order[0])))]
    color[entry] = 1
    post = []
    while stack:
        nme, it = stack[-1]
        for s in it:
            c = color.get(s, 0)
            if c == 0:
                color[s] = 1
                stack.append((s, iter(succs(f.blocks[s]))))
                break
            if c == 1:
                back.append((nme, s))
        else:
            color[nme] = 2
            post.append(nme)
            stack.pop()
    f.rpo = {b: i for i, b in enumerate(reversed(post))}
    loops = {}
    for (src, h) in back:
        body = loops.setdefault(h, {h})
        w = [src]
        while w:
            x = w.pop()
            if x in body:
                continue
            body.add(x)
            w.extend(p for p in f.blocks[x].preds if p in color)
    f.loops = loops

BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'}
CASTS = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'fptrunc', 'fpext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'addrspacecast'}
FASTMATH = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}

DBG = re.compile(r', !dbg !(\d+)')
META = re.compile(r', ![a-zA-Z_.]+ ![0-9]+|, ![a-zA-Z_.]+ !\{[^}]*\}')

def parse_instr(s):
    ins = Instr()
    ins.text = s.strip()
    m = DBG.search(s)
    ins.dbg = m.group(1) if m else None
    s = META.sub('', s)
    p = P(tokenize(s))
    ins.res = None
    if p.kind() == 'id' and p.peek()[0] == '%' and p.peek(1) == '=':
        ins.res = p.next()[1:]
        p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    ins.op = op
    if op in BINOPS:
        flags = set()
        while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
            flags.add(p.next())
        t = p.type()
        a = p.value(t); p.expect(','); b = p.value(t)
        ins.a = (op, flags, t, a, b)
        ins.op = 'bin'
    elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fcmp', 'fneg'):
        ins.a = None
        ins.op = 'float'
    elif op in CASTS:
        while p.peek() in ('nneg', 'nuw', 'nsw'):
            p.next()
        t, v = p.tv()
        p.expect('to')
        t2 = p.type()
        ins.a = (op, t, v, t2)
        ins.op = 'cast'
    elif op == 'icmp':
        pred = p.next()
        t = p.type()
        a = p.value(t); p.expect(','); b = p.value(t)
        ins.a = (pred, t, a, b)
    elif op == 'alloca':
        p.accept('inalloca')
        t = p.type()
        cnt = None
        while p.accept(','):
            if p.peek() == 'align':
                p.next(); p.next()
            else:
                cnt = p.tv()
        ins.a = (t, cnt)
    elif op == 'load':
        at = p.accept('atomic'); p.accept('volatile')
        t = p.type(); p.expect(',')
        q = p.tv()
        ins.a = (t, q)
    elif op == 'store':
        p.accept('atomic'); p.accept('volatile')
        v = p.tv(); p.expect(',')
        q = p.tv()
        ins.a = (v, q)
    elif op == 'getelementptr':
        inb = False
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            p.next(); inb = True
        t = p.type(); p.expect(',')
        base = p.tv()
        idx = []
        while p.accept(','):
            idx.append(p.tv())
        ins.a = (t, base, idx, inb)
    elif op == 'select':
        while p.peek() in FASTMATH: p.next()
        c = p.tv(); p.expect(','); a = p.tv(); p.expect(','); b = p.tv()
        ins.a = (c, a, b)
    elif op == 'phi':
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(t); p.expect(',')
            lab = p.next()[1:]
            p.expect(']')
            inc.append((v, lab))
            if not p.accept(','): break
        ins.a = (t, inc)
    elif op == 'br':
        if p.accept('label'):
            ins.a = (p.next()[1:],)
        else:
            c = p.tv(); p.expect(','); p.expect('label'); x = p.next()[1:]; p.expect(','); p.expect('label'); y = p.next()[1:]
            ins.a = (c, x, y)
    elif op == 'switch':
        v = p.tv(); p.expect(','); p.expect('label')
        d = p.next()[1:]
        p.expect('[')
        cases = []
        while not p.accept(']'):
            t, c = p.tv(); p.expect(','); p.expect('label')
            cases.append((c[1], p.next()[1:]))
        ins.a = (v, d, cases)
    elif op == 'ret':
        if p.accept('void'):
            ins.a = None
        else:
            ins.a = p.tv()
    elif op == 'unreachable':
        ins.a = None
    elif op in ('call', 'invoke'):
        p.attrs()
        while p.peek() in FASTMATH or p.peek() in ('fastcc', 'coldcc', 'ccc', 'noundef'):
            p.next()
        p.attrs()
        rt = p.type()
        fnty = None
        if p.peek() == '(':
            p.skip_parens()   # vararg function type
        p.attrs()
        if p.peek() == 'asm':
            ins.a = dict(ret=rt, asm=True, callee=None, args=[])
            ins.op = 'asm'
            # inline asm: find constraints; only empty barrier supported by executor
            return ins
        callee = p.value(PTR)
        p.expect('(')
        args = []
        while not p.accept(')'):
            t = p.type()
            at = p.attrs()
            v = p.value(t)
            args.append((t, v, at))
            p.accept(',')
        d = dict(ret=rt, callee=callee, args=args)
        p.attrs()
        if p.peek() == '[':   # operand bundles
            while not p.accept(']'):
                p.next()
        if op == 'invoke':
            p.expect('to'); p.expect('label')
            d['normal'] = p.next()[1:]
            p.expect('unwind'); p.expect('label')
            d['unwind'] = p.next()[1:]
        ins.a = d
    elif op == 'landingpad':
        t = p.type()
        cleanup = False
        clauses = []
        while not p.done():
            x = p.next()
            if x == 'cleanup': cleanup = True
            elif x == 'catch':
                clauses.append(('catch', p.tv()))
            elif x == 'filter':
                clauses.append(('filter', p.tv()))
            else:
                raise ParseError('landingpad ' + x)
        ins.a = (t, cleanup, clauses)
    elif op == 'resume':
        ins.a = p.tv()
    elif op == 'extractvalue':
        v = p.tv()
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        ins.a = (v, idx)
    elif op == 'insertvalue':
        v = p.tv(); p.expect(',')
        e = p.tv()
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        ins.a = (v, e, idx)
    elif op == 'atomicrmw':
        p.accept('volatile')
        k = p.next()
        q = p.tv(); p.expect(',')
        v = p.tv()
        ins.a = (k, q, v)
    elif op == 'cmpxchg':
        p.accept('weak'); p.accept('volatile')
        q = p.tv(); p.expect(',')
        c = p.tv(); p.expect(',')
        nv = p.tv()
        ins.a = (q, c, nv)
    elif op == 'fence':
        ins.a = None
    elif op == 'freeze':
        ins.a = p.tv()
    else:
        raise ParseError('instr ' + op)
    return ins
