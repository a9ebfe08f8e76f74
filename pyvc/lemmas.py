"""Induction proofs (z3) of the fold lemmas whose ground instances VM.lemmas() adds.

S(n) is the sum of b(0..n-1): S(n)=0 for n<=0, S(n+1)=S(n)+b(n) for n>=0.
Each lemma is proved as base case and inductive step, for all b, c.
Cardinality facts (card >= 0, zero iff empty, monotone under inclusion) are the standard
facts on finite sets and are listed as trusted."""
import z3


def obligations():
    out = []
    for sort, nm in ((z3.IntSort(), 'int'), (z3.RealSort(), 'real')):
        S = z3.Function(f'S_{nm}', z3.IntSort(), sort)
        R = z3.Function(f'R_{nm}', z3.IntSort(), sort)
        b = z3.Function(f'b_{nm}', z3.IntSort(), sort)
        c = z3.Function(f'c_{nm}', z3.IntSort(), sort)
        n, j = z3.Ints('n j')
        ax = [S(0) == 0, z3.Implies(n >= 0, S(n + 1) == S(n) + b(n)), R(0) == 0, z3.Implies(n >= 0, R(n + 1) == R(n) + c(n))]

        def ind(name, stmt):
            out.append((f'{name}/{nm}/base', ax, stmt(z3.IntVal(0))))
            out.append((f'{name}/{nm}/step', ax + [n >= 0, stmt(n)], stmt(n + 1)))
        rng = lambda m: z3.And(j >= 0, j < m)
        ind('nonneg', lambda m: z3.Implies(z3.ForAll([j], z3.Implies(rng(m), b(j) >= 0)), S(m) >= 0))
        ind('nonpos', lambda m: z3.Implies(z3.ForAll([j], z3.Implies(rng(m), b(j) <= 0)), S(m) <= 0))
        ind('congruence', lambda m: z3.Implies(z3.ForAll([j], z3.Implies(rng(m), b(j) == c(j))), S(m) == R(m)))
        ind('monotone', lambda m: z3.Implies(z3.ForAll([j], z3.Implies(rng(m), b(j) <= c(j))), S(m) <= R(m)))
        if nm == 'int':
            k = z3.Int('k')
            ind('bound-by-length', lambda m: z3.Implies(z3.ForAll([j], z3.Implies(rng(m), b(j) <= 1)), S(m) <= m))
            ind('dominates-each', lambda m: z3.Implies(z3.ForAll([j], z3.Implies(rng(m), b(j) >= 0)), z3.And(S(m) >= 0, z3.Implies(z3.And(k >= 0, k < m), S(m) >= b(k)))))
    return out


def prove_all():
    res = []
    for name, hyp, goal in obligations():
        s = z3.Solver()
        s.set('timeout', 5000)
        for h in hyp:
            s.add(h)
        s.add(z3.Not(goal))
        res.append((name, s.check() == z3.unsat))
    return res


if __name__ == '__main__':
    for r in prove_all():
        print(r)
