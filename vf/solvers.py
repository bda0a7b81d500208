"""Second-line solvers: fresh z3 instances and cvc5, used when the incremental z3 gives up."""
import z3, subprocess, tempfile, os, time

def smt2(es):
    s = z3.Solver()
    s.add(es)
    return s.to_smt2()

def portfolio(es, ms):
    t = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'smt')
    s = z3.SolverFor('QF_AUFBV')
    s.set('timeout', ms)
    s.add(es)
    r = s.check()
    if r == z3.sat: return 'sat', s.model(), 'z3-fresh'
    if r == z3.unsat: return 'unsat', None, 'z3-fresh'
    r = cvc5_check(es, ms, ['--solve-bv-as-int=sum'])
    if r in ('sat', 'unsat'): return r, None, 'cvc5-int'
    r = cvc5_check(es, ms, [])
    if r in ('sat', 'unsat'): return r, None, 'cvc5'
    return 'unknown', None, 'none'

def cvc5_check(es, ms, opts):
    txt = smt2(es)
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('(set-logic ALL)\n' + txt)
        nm = f.name
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % ms] + opts + [nm], capture_output=True, text=True, timeout=ms / 1000 + 10)
        return p.stdout.strip().split('\n')[0] if p.stdout else 'unknown'
    except subprocess.TimeoutExpired:
        return 'unknown'
    finally:
        os.unlink(nm)
