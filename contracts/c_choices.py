"""Which selections of courses a rule tries."""
import itertools
import math
from contracts.common import *
from dp.lazy_product import lazy_product
from dp.ncr import ncr, mult
from dp.op import Operator
from dp.assertion_clause import Assertion, input_size_range
from dp.data_type import DataType

# ------------------------------------------------------------------ lazy_product
def product_env(g):
    k = g.rng.randint(0, 4)
    return {'pools': [[g.rng.randint(0, 9) for _ in range(g.rng.choice([0, 1, 1, 2, 2, 3]))] for _ in range(k)], 'repeat': g.rng.choice([1, 1, 1, 2, 0])}


def run_product(pools, repeat):
    calls = [0]

    def source(p):
        def f():
            calls[0] += 1
            return iter(p)
        return f
    return list(lazy_product(*[source(p) for p in pools], repeat=repeat))


Contract('C14', 'product.equals', run_product, {'pools': ConstT(None), 'repeat': ConstT(None)}, {'every-tuple-once-in-order': lambda pools, repeat, result: result == list(itertools.product(*pools, repeat=repeat))},
         gen=product_env, mode='bounded', note='up to 4 iterables of up to 3 items, repeat up to 2', gen_n=4, statement='lazy_product gives every tuple of the Cartesian product once, in order')


def lazily(n):
    """Only the first item of each iterable is asked for before the first tuple."""
    asked = []

    def source(k):
        def f():
            for i in range(50):
                asked.append((k, i))
                yield i
        return f
    it = lazy_product(*[source(k) for k in range(n)])
    first = next(it)
    return first, list(asked)


Contract('C14', 'product.lazy', lazily, {'n': ConstT(None)}, {'first-items-only': lambda n, result: result[0] == tuple([0] * n) and result[1] == [(k, 0) for k in range(n)]}, gen=lambda g: {'n': g.rng.randint(0, 5)}, mode='bounded', note='up to 5 iterables', gen_n=0.1,
         statement='the first tuple costs one item of each iterable')
Contract('C14', 'ncr', lambda n, r: ncr(n, r), {'n': ConstT(None), 'r': ConstT(None)}, {'choose': lambda n, r, result: result == math.comb(n, r)}, gen=lambda g: {'n': g.rng.randint(0, 12), 'r': g.rng.randint(0, 14)}, mode='bounded', note='n up to 12',
         statement='ncr counts the selections of r out of n items')
Contract('C14', 'mult', lambda xs: mult(xs), {'xs': ConstT(None)}, {'product': lambda xs, result: result == math.prod(xs)}, gen=lambda g: {'xs': [g.rng.randint(0, 5) for _ in range(g.rng.randint(0, 5))]}, mode='bounded', note='up to 5 factors', statement='mult multiplies')

# ------------------------------------------------------------------ how many courses a count assertion is tried with
OPS = (Operator.EqualTo, Operator.NotEqualTo, Operator.GreaterThan, Operator.GreaterThanOrEqualTo, Operator.LessThan, Operator.LessThanOrEqualTo)
sized_t = ObjT(Base, abstract=True, name='Sized', fields={'expected': RealT(lo=0, pool=('0', '1', '2', '3', '4', '5')), 'operator': EnumT(Operator, OPS), 'at_most': BoolT()})


def meets(n, a):
    if a.operator is Operator.EqualTo or (a.operator is Operator.GreaterThanOrEqualTo and a.at_most):
        return n == a.expected
    if a.operator is Operator.NotEqualTo:
        return n != a.expected
    if a.operator is Operator.GreaterThanOrEqualTo:
        return n >= a.expected
    if a.operator is Operator.GreaterThan:
        return n > a.expected
    if a.operator is Operator.LessThan:
        return n < a.expected
    return n <= a.expected


def fits(a, maximum):
    return any(meets(n, a) for n in range(maximum + 1))


def every_fitting(a, maximum, result):
    return all(n in result for n in range(maximum + 1) if meets(n, a))


def only_fitting(a, maximum, result):
    return all(meets(n, a) or (n == maximum and not fits(a, maximum)) for n in result)


def fallback(a, maximum, result):
    """When no available number of courses is enough, all of them are tried."""
    return a.operator in (Operator.NotEqualTo, Operator.LessThan) or fits(a, maximum) or any(n == maximum for n in result)


Contract('C14', 'sizes', lambda a, maximum: input_size_range(a, maximum), {'a': sized_t, 'maximum': IntT(lo=0, pool=(0, 1, 2, 3, 4, 5))}, {'every-fitting-size': every_fitting, 'only-fitting-sizes': only_fitting, 'else-everything': fallback},
         requires=lambda a: a.expected == int(a.expected), statement='a count assertion is tried with exactly the numbers of courses that satisfy it, or with everything there is')

# ------------------------------------------------------------------ the selections of courses a query tries
from dp.rule.query import iterate_item_set, iterate_item_set__count_shortcut, iterate_item_set__sum_shortcut, find_largest_simple_count_assertion, find_largest_simple_sum_assertion, QueryRule, QuerySource
import dp.rule.query as m_query

ssize_t = ObjT(Base, abstract=True, name='SizeSource', methods={'input_size_range': Meth(SeqT(IntT(lo=0, pool=(0, 1, 2, 3)), maxlen=3), deps=('maximum',)), 'max_expected': Meth(RealT(lo=0, pool=('0', '0.5', '1', '1.5', '2', '3')))})
norule_t = ObjT(Base, abstract=True, name='QRule', fields={'path': path_t})


def by_count(assertion, items, rule):
    return iterate_item_set__count_shortcut(assertion=assertion, items=items, rule=rule)


def count_all(assertion, items, result):
    """Every selection of every admissible size is tried, and no other."""
    return result == [sel for n in assertion.input_size_range(maximum=len(items)) for sel in itertools.combinations(items, n)]


Contract('C14', 'query.count-choices', by_count, {'assertion': ssize_t, 'items': SeqT(course_t, maxlen=4), 'rule': norule_t}, {'every-selection': count_all}, eq_positive=True,
         statement='a count query tries every selection of every admissible size')


def by_sum(assertion, items, rule):
    return iterate_item_set__sum_shortcut(assertion=assertion, items=items, rule=rule)


def sum_all(assertion, items, result):
    need = assertion.max_expected()
    if sum(c.credits for c in items) < need:
        return result == [tuple(items)]
    return result == [sel for n in range(1, len(items) + 1) for sel in itertools.combinations(items, n) if sum(c.credits for c in sel) >= need]


Contract('C14', 'query.sum-choices', by_sum, {'assertion': ssize_t, 'items': SeqT(course_t, maxlen=4), 'rule': norule_t}, {'every-selection': sum_all}, eq_positive=True,
         statement='a credit-sum query tries every selection with enough credits, or everything when there are not enough')
