"""Trying the combinations of a count requirement, and what may be solved apart."""
import itertools
from collections import Counter
from contracts.common import *
from dp.rule.count import CountRule
from dp.rule.requirement import RequirementRule
from dp.rule.conditional import ConditionalRule
from dp.rule.proficiency import ProficiencyRule
from dp.rule.course import CourseRule
from dp.rule.query import QueryRule
from dp.solve import find_best_solution

cctx_t = RecT(RequirementContext, ctx_fields(transcript_=ConstT(lambda: []), clbid_lookup_map_=ConstT(lambda: {}), forced_clbid_lookup_map_=ConstT(lambda: {}), claims=ConstT(lambda: {}), multicountable=ConstT(lambda: {})))


# ------------------------------------------------------------------ children as seen by their parent
def ctx_of():
    return ObjT(RequirementContext, abstract=True, name='Ctx', methods={'has_exception_beneath': Meth(BoolT(), deps=('path',)), 'get_waive_exception': Meth(OptT(ObjT(OverrideException, {'path': path_t}, abstract=True, name='Waive')), deps=('path',))})


kid2_t = ObjT(Rule, abstract=True, name='Kid2', methods={})
block_t = ObjT(BlockException, {'path': path_t, 'type': ConstT(ExceptionAction.Block), 'clbid': StrT(CLBIDS)})
kid_t = ObjT(Rule, abstract=True, name='Kid', methods={
    'has_potential': Meth(BoolT(), deps=('ctx',)), 'all_matches': Meth(SeqT(course_t, kind='list', maxlen=2), deps=('ctx',)),
    'get_required_courses': Meth(SeqT(course_t, kind='list', maxlen=2), deps=('ctx',)),
    'is_never_disjoint': Meth(BoolT()), 'is_always_disjoint': Meth(BoolT()), 'estimate': Meth(IntT(lo=0, pool=(0, 1, 2, 5)), deps=('ctx',)), 'get_requirement_names': Meth(SeqT(StrT(('A', 'B')), kind='list', maxlen=2)), 'is_in_gpa': Meth(BoolT()),
    'apply_block_exception': Meth(kid2_t, deps=('to_block',)), 'exclude_required_courses': Meth(kid2_t, deps=('to_exclude',))})
cond_t = ObjT(Base, {'result': OptT(BoolT())}, abstract=True, name='Cond')
count_t = ObjT(CountRule, {'count': IntT(lo=0, pool=(0, 1, 2, 3)), 'items': SeqT(kid_t, maxlen=3), 'audit_clauses': ConstT(()), 'at_most': BoolT(), 'path': path_t, 'overridden': BoolT()})
req_t = ObjT(RequirementRule, {'name': StrT(), 'message': ConstT(None), 'result': OptT(kid_t), 'is_audited': BoolT(), 'is_contract': BoolT(), 'in_gpa': BoolT(), 'disjoint': OptT(BoolT()), 'path': path_t, 'overridden': BoolT()})
branchy_t = ObjT(ConditionalRule, {'condition': cond_t, 'when_true': kid_t, 'when_false': OptT(kid_t), 'path': path_t, 'overridden': BoolT()})
prof_t = ObjT(ProficiencyRule, {'proficiency': StrT(), 'course': OptT(kid_t), 'path': path_t, 'overridden': BoolT()})


def chosen(rule):
    """The branch of a conditional that its condition selects."""
    if rule.condition.result is True:
        return [rule.when_true]
    if rule.condition.result is False and rule.when_false is not None:
        return [rule.when_false]
    return []


def parts(rule):
    if isinstance(rule, CountRule):
        return rule.items
    if isinstance(rule, ConditionalRule):
        return chosen(rule)
    inner = rule.result if isinstance(rule, RequirementRule) else rule.course
    return [inner] if inner is not None else []


def potential(rule, ctx, result):
    if isinstance(rule, ProficiencyRule):
        return result is True
    mine = any(r.has_potential(ctx=ctx) for r in parts(rule))
    if isinstance(rule, ConditionalRule):
        return result == mine
    if isinstance(rule, RequirementRule):
        return result == (ctx.has_exception_beneath(rule.path) or (not rule.is_audited and mine))
    return result == (ctx.has_exception_beneath(rule.path) or mine)


def never(rule, result):
    below = any(r.is_never_disjoint() for r in parts(rule))
    if isinstance(rule, RequirementRule):
        return result == (rule.disjoint is False or below)
    return result == below


def always(rule, result):
    return result == (rule.disjoint is True or rule.result is not None and rule.result.is_always_disjoint())


Contract('C19', 'requirement.always-apart', lambda rule: rule.is_always_disjoint(), {'rule': req_t}, {'as-declared': always}, statement='a requirement is taken to claim nothing when it is declared so, or when its result claims nothing, and only then')


def rest_same(rule, result):
    if isinstance(rule, CountRule):
        return result.count == rule.count and result.at_most == rule.at_most and result.path == rule.path and result.overridden == rule.overridden and result.audit_clauses == rule.audit_clauses
    if isinstance(rule, ConditionalRule):
        return result.condition is rule.condition and result.path == rule.path and result.overridden == rule.overridden
    if isinstance(rule, RequirementRule):
        return result.name == rule.name and result.is_audited == rule.is_audited and result.is_contract == rule.is_contract and result.in_gpa == rule.in_gpa and result.disjoint == rule.disjoint and result.path == rule.path and result.overridden == rule.overridden
    return result.proficiency == rule.proficiency and result.path == rule.path and result.overridden == rule.overridden


def every_part(rule):
    """The parts of a rule, chosen or not."""
    if isinstance(rule, ConditionalRule):
        return [rule.when_true] + ([rule.when_false] if rule.when_false is not None else [])
    return list(parts(rule))


def required(rule, ctx, result):
    if isinstance(rule, CountRule) and rule.count != len(rule.items):
        return not any(True for c in result)
    return list(result) == [c for r in parts(rule) for c in r.get_required_courses(ctx=ctx)]


for nm, t in (('count', count_t), ('requirement', req_t), ('conditional', branchy_t), ('proficiency', prof_t)):
    Contract('C19', f'{nm}.potential', lambda rule, ctx: rule.has_potential(ctx=ctx), {'rule': t, 'ctx': ctx_of()}, {'as-its-parts': potential}, statement=f'a {nm} is tried when an exception lies beneath it or a part of it can match something')
    Contract('C19', f'{nm}.matches', lambda rule, ctx: list(rule.all_matches(ctx=ctx)), {'rule': t, 'ctx': ctx_of()}, {'of-its-parts': lambda rule, ctx, result: result == [c for r in parts(rule) for c in r.all_matches(ctx=ctx)]}, eq_positive=True, statement=f'what a {nm} may match is everything its parts may match')
    Contract('C19', f'{nm}.never-apart', lambda rule: rule.is_never_disjoint(), {'rule': t}, {'as-its-parts': never}, statement=f'a {nm} holding a rule over claimed courses is never solved on its own')
    Contract('C19', f'{nm}.required', lambda rule, ctx: list(rule.get_required_courses(ctx=ctx)), {'rule': t, 'ctx': ctx_of()}, {'of-its-parts': required}, eq_positive=True, statement=f'the courses a {nm} cannot do without are those of its parts, when all of them are needed')
    Contract('C15', f'{nm}.block', lambda rule, to_block: rule.apply_block_exception(to_block), {'rule': t, 'to_block': block_t}, {'to-every-part': lambda rule, to_block, result: every_part(result) == [r.apply_block_exception(to_block) for r in every_part(rule)], 'rest-unchanged': rest_same}, eq_positive=True, statement=f'a block reaches every part of a {nm}')
    if nm != 'proficiency':
        Contract('C19', f'{nm}.exclude', lambda rule, to_exclude: rule.exclude_required_courses(to_exclude), {'rule': t, 'to_exclude': SeqT(course_t, kind='list', maxlen=2)}, {'to-every-part': lambda rule, to_exclude, result: every_part(result) == [r.exclude_required_courses(to_exclude) for r in every_part(rule)], 'rest-unchanged': rest_same}, eq_positive=True, statement=f'a course one requirement cannot do without is withheld from the queries of every part of a {nm}')


def estimated(rule, ctx, result):
    if isinstance(rule, (ProficiencyRule, CourseRule)):
        return result == 1
    if isinstance(rule, ConditionalRule):
        return result == sum(r.estimate(ctx=ctx) for r in parts(rule))
    if ctx.get_waive_exception(rule.path) is not None or rule.result is None:
        return result == 1
    return result == rule.result.estimate(ctx=ctx)


def names(rule, result):
    if isinstance(rule, RequirementRule):
        return result == [rule.name]
    if isinstance(rule, ProficiencyRule):
        return result == []
    return result == [n for r in every_part(rule) for n in r.get_requirement_names()]


for nm, t in (('requirement', req_t), ('conditional', branchy_t), ('proficiency', prof_t)):
    Contract('C19', f'{nm}.estimate', lambda rule, ctx: rule.estimate(ctx=ctx), {'rule': t, 'ctx': ctx_of()}, {'of-its-part': estimated}, statement=f'a {nm} is estimated at as many solutions as the part that is tried')
for nm, t in (('count', count_t), ('requirement', req_t), ('conditional', branchy_t), ('proficiency', prof_t)):
    Contract('C21', f'{nm}.names', lambda rule: rule.get_requirement_names(), {'rule': t}, {'of-its-parts': names}, eq_positive=True, statement=f'the requirements a {nm} uses are those of all its parts, whichever of them apply to this student')
Contract('C22', 'conditional.in-gpa', lambda rule: rule.is_in_gpa(), {'rule': branchy_t}, {'as-its-branch': lambda rule, result: result == any(r.is_in_gpa() for r in chosen(rule))}, statement='a conditional counts in the GPA as the branch its condition selects does')


# ------------------------------------------------------------------ the combinations themselves
class Form:
    """One state of a child: the rule itself, one of its solutions, or its solved result."""
    def __init__(self, path, what):
        self.path = path
        self.what = what

    def state(self):
        return self.what

    def __repr__(self):
        return f'{self.path[-1]}:{self.what}'


class Child:
    def __init__(self, k, n, potential, matches, never, always, solvable):
        self.path = ('$', f'[{k}]')
        self.what = 'rule'
        self.n = n
        self.potential = potential
        self.matches = matches
        self.never = never
        self.always = always
        self.solvable = solvable
        self.answer = Form(self.path, 'result')

    def state(self):
        return 'rule'

    def __repr__(self):
        return f'Child({self.path[-1]}, solutions={self.n}, potential={self.potential}, matches={sorted(self.matches)}, never={self.never}, always={self.always}, solvable={self.solvable})'

    def has_potential(self, *, ctx):
        return self.potential

    def all_matches(self, *, ctx):
        return list(self.matches)

    def is_never_disjoint(self):
        return self.never

    def is_always_disjoint(self):
        return self.always

    def solutions(self, *, ctx, depth=None):
        for i in range(self.n):
            yield Form(self.path, i)

    def estimate(self, *, ctx, depth=None):
        return self.n


def answered(*, rule, ctx, merge_claims=False):
    return rule.answer if rule.solvable else None


class Waivers:
    def __init__(self, waived):
        self.waived = waived

    def get_waive_exception(self, path):
        return self.waived or None


def apart(kids):
    """Those among the children that cannot interact with any other."""
    if len(kids) == 1:
        return list(kids)
    return [k for k in kids if not k.never and all((k.always and o.always) or not (set(k.matches) & set(o.matches)) for o in kids if o is not k)]


def combos(rule, kids, waived, depth):
    """What must be tried: (path, form) sets, as often as they must."""
    if waived:
        return Counter({frozenset((k.path, 'rule') for k in kids): 1})
    able = [k for k in kids if k.potential]
    solved = []
    if depth == 1 and able and not rule.audit_clauses:
        free = apart(able)
        solved = [k for k in free if k.solvable]
        able = [k for k in able if k not in free]
    sizes = [rule.count] if rule.at_most else range(rule.count, len(kids) + 1)
    out = Counter()

    def add(size):
        for combo in itertools.combinations(able, size):
            for forms in itertools.product(*[range(k.n) for k in combo]):
                picked = {k.path: f for k, f in zip(combo, forms)}
                out[frozenset((k.path, 'result' if k in solved else picked.get(k.path, 'rule')) for k in kids)] += 1
    for size in sizes:
        add(size)
    if not out and able:
        add(len(able))
    if not out:
        out[frozenset((k.path, 'result' if k in solved else 'rule') for k in kids)] += 1
    return out


def offered(kids, count, at_most, audit, waived, depth):
    rule = CountRule(count=count, items=tuple(kids), at_most=at_most, audit_clauses=audit, path=('$', '.count'), overridden=False)
    ctx = Waivers(waived)
    sols = list(rule.solutions(ctx=ctx, depth=depth))
    return rule, sols, rule.estimate(ctx=ctx, depth=depth)


def each_tried(kids, waived, depth, result):
    rule, sols, _ = result
    return Counter(frozenset((i.path, i.what) for i in s.items) for s in sols) == combos(rule, kids, waived, depth)


def whole(kids, waived, result):
    rule, sols, _ = result
    return all([i.path for i in s.items] == [k.path for k in kids] and s.count == rule.count and s.at_most == rule.at_most and s.path == rule.path and s.overridden == waived and s.audit_clauses == rule.audit_clauses for s in sols)


def kids_env(g):
    r = g.rng
    n = r.randint(0, 4)
    kids = []
    for k in range(n):
        kids.append(Child(k, r.choice([0, 1, 1, 2, 2, 3]), r.random() < 0.8, [c for c in 'abcd' if r.random() < 0.3], r.random() < 0.1, r.random() < 0.2, r.random() < 0.9))
    return {'kids': kids, 'count': r.randint(0, n + (0 if r.random() < 0.9 else 1)), 'at_most': r.random() < 0.25, 'audit': () if r.random() < 0.8 else ('audit',), 'waived': r.random() < 0.05, 'depth': r.choice([None, 1, 1, 2])}


Contract('C19', 'count.combinations', offered, {}, {'each-tried-once': each_tried, 'all-parts-in-order': whole, 'estimate': lambda waived, result: result[2] == len(result[1])},
         gen=kids_env, mode='bounded', gen_n=6, doubles={find_best_solution: answered}, functions=['dp.rule.count:CountRule.solutions', 'dp.rule.count:CountRule.estimate', 'dp.rule.count:CountRule.find_independent_children', 'dp.rule.count:CountRule.make_combinations'],
         note='up to 4 children with up to 3 solutions each',
         statement='a count tries every combination of at least (or, at most) its number of children with every choice of their solutions, each once, all children being present; only children that cannot interact with another are solved on their own; the estimate is the number of combinations')


def separated(kids):
    rule = CountRule(count=1, items=tuple(kids), at_most=False, audit_clauses=(), path=('$', '.count'), overridden=False)
    return rule.find_independent_children(items=list(kids), ctx=None)


Contract('C19', 'count.apart', separated, {}, {'only-what-cannot-interact': lambda kids, result: set(result['disjoint']) == set(apart(kids)), 'partition': lambda kids, result: set(result['disjoint']) | set(result['non_disjoint']) == set(kids) and not set(result['disjoint']) & set(result['non_disjoint'])},
         gen=lambda g: {'kids': kids_env(g)['kids'] or [Child(0, 1, True, [], False, False, True)]}, mode='bounded', gen_n=5, note='up to 4 children matching up to 4 courses', functions=['dp.rule.count:CountRule.find_independent_children'],
         statement='a child is solved on its own only if it shares no match with any other and does not look at claimed courses')
