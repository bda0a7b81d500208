#!/usr/bin/env python3
"""mutation test of the checks: mutate.py [-j N] [--max N] FILE...   (files relative to /repo/include/asioext)
Works on copies under /tmp; prints the mutants no check of the file reports. Not run by any check."""
import os, re, sys, random, shutil, subprocess, tempfile, json
from concurrent.futures import ThreadPoolExecutor
import queue
MAP = [('buffered_stream', 'H01'), ('linear_buffer', 'A01 A02 A03'), ('posix_file_ops', 'B02 B03 B04 B01 B05 C01 G01'), ('open', 'B01 B05'), ('unique_file_handle', 'B04 B05 B03'),
       ('file_handle', 'B05 B03 B02 B04'), ('duplicate', 'B03 B04'), ('standard_streams', 'B03'), ('chrono', 'C01'), ('url', 'D01'), ('socks', 'E01 E02'),
       ('unique_handler', 'F01'), ('cancellation', 'F02'), ('thread_pool', 'F03 F05 F06'), ('compose', 'F04 F05'), ('bound_handler', 'F04'), ('bind_handler', 'F04'),
       ('work', 'F04'), ('io_object', 'F06'), ('basic_file', 'F06 F05'), ('read_file', 'G01'), ('write_file', 'G01'), ('file_perms', 'B03'), ('enum', 'B01 B03'),
       ('buffer', 'B02 A03'), ('throw', 'B05 D01 A01'), ('connect', 'E03'), ('error', 'B05 E02 D01')]
def props(f):
    for k, v in MAP:
        if k in f: return v.split()
    return []
OPS = [(r'==', '!='), (r'!=', '=='), (r'(?<![<\-=>])<(?![<=])(?= )', '<='), (r'(?<= )>(?![>=])(?= )', '>='), (r'<=', '<'), (r'>=', '>'), (r'&&', '||'), (r'\|\|', '&&'),
       (r'(?<= )\+(?= )', '-'), (r'(?<= )-(?= )', '+'), (r'!(?=[a-z_(])', ''), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\+\+', '--'), (r'\+=', '-='), (r'-=', '+='),
       (r'(?<= )\|(?= )', '&'), (r'(?<= )&(?= [a-z(~])', '|'), (r'~', ''), (r'<<', '>>'), (r'(?<![\w.])(\d+)(?![\w.])', lambda m: str(int(m[1]) + 1)), (r'(?<![\w.])([1-9]\d*)(?![\w.])', lambda m: str(int(m[1]) - 1)),
       (r'\bstd::min\b|std::min<', 'std::max'), (r'\bif \((.*)\)$', r'if (!(\1))'), (r'\breturn (?!;)(.*);', None)]
def mutants(path):
    L = open(path).read().split('\n'); out = []; win = 0; depth = 0
    for i, l in enumerate(L):
        s = l.strip()
        if re.match(r'#\s*if.*(WINDOWS|DOCUMENTATION|BOOST)', s) and not win: win = 1; depth = 0; continue
        if win:
            if re.match(r'#\s*if', s): depth += 1
            elif re.match(r'#\s*endif', s):
                if depth == 0: win = 0
                else: depth -= 1
            elif re.match(r'#\s*(else|elif)', s) and depth == 0: win = 0
            continue
        if not s or s.startswith(('#', '//', '*', 'template', 'typedef', 'using', 'class ', 'struct ', 'namespace', 'public', 'private', 'static_assert', ': ', ', ')) and not s.startswith((': ', ', ')): continue
        code = l.split('//')[0]
        for pat, rep in OPS:
            if rep is None: continue
            if 'noexcept' in code or 'operator' in code or 'ASIOEXT_' in code and '(' in code and 'if' not in code: continue
            for m in re.finditer(pat, code):
                n = code[:m.start()] + (m.expand(rep) if isinstance(rep, str) else rep(m)) + code[m.end():]
                if n != code: out.append((i, n))
        if re.match(r'^[\w:.>()\[\]*&-]+.*;$', s) and not re.match(r'(return|break|goto|typedef|const |auto |std::size_t |size_t |int |bool |char |error_code |uint\w+ |static |friend |explicit |virtual |[\w:<>]+ [\w]+(\(.*\))?;|[\w:<>]+ [&*]?\w+ = )', s) and not s.startswith(('{', '}')):
            out.append((i, l[:len(l) - len(l.lstrip())] + ';'))
        if s in ('break;',) : pass
    return L, out
def main():
    a = sys.argv[1:]; j = 2; mx = 10**9
    while a and a[0].startswith('-'):
        if a[0] == '-j': j = int(a[1])
        if a[0] == '--max': mx = int(a[1])
        a = a[2:]
    ws = queue.Queue(); base = tempfile.mkdtemp(prefix='mut_', dir='/tmp')
    for k in range(j):
        w = '%s/%d' % (base, k); os.makedirs(w)
        shutil.copytree('/repo/include', w + '/repo/include')
        subprocess.run(['cp', '-a', '/verif/check.py', '/verif/vf', '/verif/specs', '/verif/properties.jsonl', '/verif/MANIFEST.json', '/verif/KNOWN_FINDINGS.md', w]); os.makedirs(w + '/evidence')
        ws.put(w)
    tasks = []
    for f in a:
        L, m = mutants('/repo/include/asioext/' + f)
        random.Random(1).shuffle(m)
        tasks += [(f, L, i, n) for i, n in m[:mx]]
    print(len(tasks), 'mutants', flush=True)
    stat = {}
    def one(t):
        f, L, i, n = t; w = ws.get(); p = '%s/repo/include/asioext/%s' % (w, f)
        try:
            open(p, 'w').write('\n'.join(L[:i] + [n] + L[i + 1:]))
            r = 'survived'
            c = subprocess.run('echo "#include <asioext/%s>" | clang++ -x c++ -std=gnu++20 -DASIOEXT_STANDALONE=1 -DASIO_STANDALONE=1 -DASIOEXT_HEADER_ONLY=1 -I%s/repo/include -fsyntax-only -' % (f if f.endswith('.hpp') and 'impl' not in f and 'detail' not in f else 'socks/client.hpp' if 'socks' in f else 'connect.hpp' if 'connect' in f else 'asioext.hpp', w), shell=True, capture_output=True)
            if c.returncode: return 'compile'
            for pid in props(f):
                try: c = subprocess.run(['python3', w + '/check.py', pid], cwd=w, capture_output=True, text=True, env=dict(os.environ, VF_REPO=w + '/repo', VERIF_SEED='1', VERIF_TIER='quick'), timeout=1000)
                except subprocess.TimeoutExpired: r = 'timeout ' + pid; break
                if c.returncode == 1: r = 'killed'; nf = all('no-failing' in x for x in c.stdout.splitlines() if x.startswith('VIOLATION')); r = 'killed-noinput ' + pid if nf else 'killed'; break
                if c.returncode: r = 'error %s %s' % (pid, (c.stdout + c.stderr)[-300:].replace('\n', ' ')); break
            return r
        finally:
            open(p, 'w').write('\n'.join(L)); ws.put(w)
    with ThreadPoolExecutor(j) as ex:
        for t, r in zip(tasks, ex.map(one, tasks)):
            k = r.split()[0]; stat[k] = stat.get(k, 0) + 1
            if k not in ('killed', 'compile'): print('%s %s:%d  %s  -->  %s' % (r, t[0], t[2] + 1, t[1][t[2]].strip(), t[3].strip()), flush=True)
    print(stat); shutil.rmtree(base)
main()
