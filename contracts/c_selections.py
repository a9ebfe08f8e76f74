"""C14: a query tries a selection that meets its assertions whenever there is one."""
from decimal import Decimal
import itertools
from contracts.common import *
from dp.rule.query import QueryRule, iterate_item_set, estimate_item_set
from dp.data.course import course_from_str
from dp.data.course_enums import GradeOption
from dp.constants import Constants
from dp.context import RequirementContext
from dp.status import PassingStatuses as PASSING_STATUSES
from dp.ncr import ncr
import dp.rule.query
import dp.assertion_clause

K = Constants(matriculation_year=2000)


def one_assertion(r):
    key = r.choice(['count(courses)', 'count(courses)', 'count(courses)', 'sum(credits)', 'sum(credits)', 'count(terms)', 'count(subjects)', 'average(credits)', 'average(grades)'])
    op = r.choice(['$gte', '$gte', '$gte', '$lte', '$eq', '$gt', '$lt', '$neq'])
    n = r.choice([0, 1, 1, 2, 2, 3, 3, 4])
    if key == 'sum(credits)' and r.random() < 0.2:
        n = str(Decimal(n) + Decimal('0.5'))
    d = {'assert': {key: {op: n}}}
    if r.random() < 0.35:
        d['where'] = r.choice([{'level': {'$gte': 300}}, {'grade_option': {'$eq': 's/u'}}, {'subject': {'$eq': 'ART'}}])
    return d


def any_assertion(r):
    if r.random() < 0.2:
        d = {'$if': {'has-course': r.choice(['ART 101', 'XYZ 101'])}, '$then': one_assertion(r)}
        if r.random() < 0.8:
            d['$else'] = one_assertion(r)
        return d
    if r.random() < 0.15:
        # only asked for when a selected course has the attribute
        return {'$when': {r.choice(['query-has-course-with-attribute', 'query-has-single-course-with-attribute']): 'writing'}, '$then': one_assertion(r)}
    return one_assertion(r)


def selections_env(g):
    r = g.rng
    courses = []
    for k in range(r.choice([0, 1, 1, 2, 2, 3, 3, 4, 4, 5])):
        courses.append(course_from_str(f"{r.choice(['ART', 'ART', 'BIO'])} {r.choice([101, 310])}", clbid=str(k), credits=Decimal(r.choice(['1', '1', '1', '2', '0.5'])), year=r.choice([2000, 2001]), term=r.choice(['1', '3']), grade_option=r.choice([GradeOption.Grade, GradeOption.Grade, GradeOption.SU]), grade_code=r.choice(['A', 'B', 'C', 'D']), attributes=r.choice([(), (), ('writing',)])))
    n = r.choice([1, 2, 2, 3])
    spec = {'from': 'courses'}
    if n == 1 and r.random() < 0.5:
        spec.update(one_assertion(r))
        if 'where' in spec:
            del spec['where']
    else:
        spec['all'] = [any_assertion(r) for _ in range(n)]
    if r.random() < 0.15:
        spec['claim'] = False
    if r.random() < 0.15:
        spec['limit'] = [{'at_most': r.choice([1, 2]), 'where': {'subject': {'$eq': 'ART'}}}]
    return {'spec': spec, 'courses': courses}


def tries(spec, courses):
    ctx = RequirementContext().with_transcript(courses)
    rule = QueryRule.load(spec, c=K, path=['$'], ctx=ctx)
    return rule, ctx, [tuple(c.clbid for c in s) for s in iterate_item_set(courses, rule=rule)], estimate_item_set(courses, rule=rule)


def estimated_enough(result):
    """A query is never expected to have fewer solutions than it has."""
    rule, ctx, _, _ = result
    return rule.estimate(ctx=ctx) >= len(list(rule.solutions(ctx=ctx))) > 0


def satisfies(rule, ctx, sel):
    return all(a.audit_and_resolve(sel, ctx=ctx).status() in PASSING_STATUSES for a in rule.all_assertions())


def every_way(courses):
    return [sel for n in range(len(courses) + 1) for sel in itertools.combinations(courses, n)]


def finds_one(spec, courses, result):
    """If some courses together meet every assertion, one that does is tried.

    Not claimed where an assertion is asked for depending on what was selected.
    """
    if any('$when' in a for a in spec.get('all', [])):
        return True
    rule, ctx, tried, _ = result
    good = [tuple(c.clbid for c in s) for s in every_way(courses) if satisfies(rule, ctx, s)]
    return not any(good) or any(s in tried for s in good)


def real_ones(courses, result):
    """Only selections of the courses are tried, in their order, and each of them once."""
    tried = result[2]
    ways = [tuple(c.clbid for c in s) for s in every_way(courses)]
    return all(s in ways for s in tried) and len(set(tried)) == len(tried)


def estimated(courses, result):
    """The estimate is the number of selections, and an upper limit where sums of credits are asked for."""
    rule, _, tried, guess = result
    return guess >= len(tried) if 'sum(' in repr(rule.assertions) else guess == len(tried)


Contract('C14', 'query.selections', tries, {'spec': ConstT(None), 'courses': ConstT(None)}, {'finds-one-that-meets-it': finds_one, 'selections-once': real_ones, 'estimate': estimated, 'enough-expected': estimated_enough},
         gen=selections_env, mode='bounded', gen_n=12, note='up to 5 courses, up to 3 assertions', functions=['dp.rule.query:iterate_item_set', 'dp.rule.query:QueryRule.estimate', 'dp.rule.query:estimate_item_set', 'dp.rule.query:flatten_assertions'],
         statement='a query tries a selection meeting all its assertions whenever there is one')


# ------------------------------------------------------------------ no size is left out (proved, for two assertions)
from dp.assertion_clause import Assertion, ConditionalAssertion
from dp.op import Operator
from dp.data_type import DataType
from contracts.c_assertions import assertion
from dp.rule.query import QuerySource

OPS = tuple(o for o in Operator if o not in (Operator.In, Operator.NotIn))
sel_course_t = ObjT(Base, abstract=True, name='SelectedCourse', fields={'credits': RealT(lo=0, pool=('1', '0.5', '2'))})
COUNTING, TERMS, SUM = 'count(courses)', 'count(terms)', 'sum(credits)'


def asks_t(key, name):
    return assertion(key, DataType.Course, path=ConstT(()), operator=EnumT(Operator, OPS), expected=IntT(lo=0, pool=(0, 1, 2, 3)), at_most=ConstT(False), where=OptT(ObjT(Base, abstract=True, name=name + 'Where')))


def either_t(key, other, result):
    return ObjT(ConditionalAssertion, fields={'path': ConstT(()), 'condition': ObjT(Base, abstract=True, name='Cond', fields={'result': ConstT(result)}), 'when_true': asks_t(key, 'Then'), 'when_false': asks_t(other, 'Else')}, name='Either')


class Asking:
    """What the selection of courses reads from a query rule."""
    def __init__(self, asked):
        self.asked = asked
        self.source = QuerySource.Courses
        self.path = ()

    def all_assertions(self):
        return self.asked


class Sized:
    """All the selections of some size."""
    def __init__(self, n):
        self.n = n


def of_size(items, n):
    return [Sized(n)]


def sizes_tried(items, asked):
    return [s.n if isinstance(s, Sized) else len(s) for s in iterate_item_set(items, rule=Asking(asked))]


def holds(op, m, e):
    if op is Operator.EqualTo:
        return m == e
    if op is Operator.NotEqualTo:
        return m != e
    if op is Operator.GreaterThanOrEqualTo:
        return m >= e
    if op is Operator.GreaterThan:
        return m > e
    if op is Operator.LessThan:
        return m < e
    return m <= e


def can_meet(n, a):
    """Could n selected courses meet the assertion?"""
    if a.key == SUM:
        return True
    if a.key == COUNTING and a.where is None:
        return holds(a.operator, n, a.expected)
    # it counts at most one thing per course: anything up to n
    if a.operator is Operator.GreaterThan:
        return n > a.expected
    if a.operator is Operator.GreaterThanOrEqualTo or a.operator is Operator.EqualTo:
        return n >= a.expected
    return True


def applies(a):
    if not isinstance(a, ConditionalAssertion):
        return a
    return a.when_true if a.condition.result else a.when_false


def no_size_left_out(items, asked, result):
    return all(n in result for n in range(1, len(items) + 1) if can_meet(n, applies(asked[0])) and can_meet(n, applies(asked[1])))


for _nm, _pair in (('counts', (asks_t(COUNTING, 'First'), asks_t(COUNTING, 'Second'))), ('count-and-terms', (asks_t(COUNTING, 'First'), asks_t(TERMS, 'Second'))), ('terms', (asks_t(TERMS, 'First'), asks_t(TERMS, 'Second'))),
                   ('count-and-sum', (asks_t(COUNTING, 'First'), asks_t(SUM, 'Second'))),
                   ('then', (either_t(COUNTING, TERMS, True), asks_t(COUNTING, 'Second'))), ('else', (either_t(COUNTING, COUNTING, False), asks_t(TERMS, 'Second')))):
    Contract('C14', 'query.sizes.' + _nm, sizes_tried, {'items': SeqT(sel_course_t, maxlen=4), 'asked': TupT(*_pair)}, {'no-size-left-out': no_size_left_out}, doubles={itertools.combinations: of_size},
             requires=(lambda asked: asked[0].where is None or asked[0].operator is Operator.GreaterThan) if _nm == 'count-and-sum' else None,
             statement='a query with two assertions leaves out no number of courses that could meet them both')
