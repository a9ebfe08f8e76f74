"""Keeping the claims of one attempt out of every other."""
from contracts.common import *
from dp.solve import find_best_solution

empty_l = ConstT(lambda: [])
empty_d = ConstT(lambda: {})
ictx_t = RecT(RequirementContext, ctx_fields(transcript_=empty_l, clbid_lookup_map_=empty_d, forced_clbid_lookup_map_=empty_d, multicountable=empty_d))
FINAL = (RS.Waived, RS.Done)


def held(ctx, key):
    return list(ctx.claims[key]) if key in ctx.claims else []


class Trouble(Exception):
    pass


# ------------------------------------------------------------------ an attempt on its own
def attempted(ctx, course, path, key, fail):
    """Claim a course inside a fresh set of claims, and perhaps fail there."""
    empty = None
    try:
        with ctx.fresh_claims():
            empty = not ctx.has_claim(clbid=key) and key not in ctx.claims
            ctx.make_claim(course=course, path=path)
            if fail:
                raise Trouble()
    except Trouble:
        pass
    return empty


Contract('C07', 'fresh.apart', attempted, {'ctx': ictx_t, 'course': course_t, 'path': path_t, 'key': StrT(CLBIDS), 'fail': BoolT()},
         {'starts-empty': lambda result: result is True, 'restored': lambda ctx, key, old: held(ctx, key) == old},
         old=lambda ctx, key: held(ctx, key), eq_positive=True,
         statement='inside a fresh set of claims nothing is claimed yet, and the earlier claims are back afterwards, also when the attempt fails')


def emptied(ctx, course, path, key):
    other = ctx.with_empty_claims()
    before = key in other.claims
    other.make_claim(course=course, path=path)
    return before, held(other, course.clbid), ctx.has_claim(clbid=key)


Contract('C07', 'empty.apart', emptied, {'ctx': ictx_t, 'course': course_t, 'path': path_t, 'key': StrT(CLBIDS)},
         {'starts-empty': lambda result: result[0] is False, 'takes-claims': lambda course, result: len(result[1]) == 1 and result[1][0].course is course and not result[1][0].failed,
          'original-untouched': lambda ctx, key, old: held(ctx, key) == old},
         old=lambda ctx, key: held(ctx, key), eq_positive=True,
         statement='a context with emptied claims starts with none, and claims made there do not reach the original')


def another_audit(course, path):
    mine = RequirementContext()
    mine.make_claim(course=course, path=path)
    return mine, RequirementContext()


Contract('C07', 'new.apart', another_audit, {'course': course_t, 'path': path_t}, {'claimed-in-its-own': lambda course, result: result[0].has_claim(clbid=course.clbid), 'nothing-elsewhere': lambda course, result: len(result[1].claims) == 0 and not result[1].has_claim(clbid=course.clbid)},
         functions=['dp.context:RequirementContext.make_claim'], statement='a new audit starts without claims, whatever an earlier one claimed')



def replaced(ctx, claims, course, path, key):
    ctx.set_claims(claims)
    now = held(ctx, key)
    ctx.claims[course.clbid].append(Claim(course=course, claimed_by=path, failed=False))
    return now, (list(claims[key]) if key in claims else [])


Contract('C07', 'set.copies', replaced, {'ctx': ictx_t, 'claims': claims_t, 'course': course_t, 'path': path_t, 'key': StrT(CLBIDS)},
         {'taken-over': lambda result, old: result[0] == old, 'given-claims-untouched': lambda result, old: result[1] == old},
         old=lambda claims, key: list(claims[key]) if key in claims else [], eq_positive=True,
         statement='claims put into a context are those given, and later claims there do not reach the given ones')


# ------------------------------------------------------------------ a rule solved on its own
class Attempt:
    """A solution whose audit claims one course."""
    def __init__(self, course, path, result):
        self.course = course
        self.path = path
        self.result = result

    def audit(self, *, ctx):
        ctx.claims[self.course.clbid].append(Claim(course=self.course, claimed_by=self.path, failed=False))
        return self.result


class Attempts:
    def __init__(self, path, trials):
        self.path = path
        self.trials = trials

    def solutions(self, *, ctx):
        for t in self.trials:
            yield Attempt(t.course, self.path, t)


trial_t = ObjT(Base, abstract=True, name='Trial', fields={'course': course_t}, methods={'status': Meth(EnumT(RS)), 'rank': RANK, 'is_ok': Meth(BoolT())})


def solved(ctx, path, trials, merge):
    return find_best_solution(rule=Attempts(path, trials), ctx=ctx, merge_claims=merge)


def kept_apart(ctx, key, merge, old):
    """Trying solutions out leaves no claims behind."""
    return merge or held(ctx, key) == old


def merged(ctx, path, key, merge, result, old):
    """Afterwards the claims are the earlier ones and those of the chosen solution."""
    if not merge:
        return True
    now = held(ctx, key)
    if result is None or result.course.clbid != key:
        return now == old
    return len(now) == 1 and now[0].course is result.course and now[0].claimed_by == path and not now[0].failed


Contract('C07', 'solve.apart', solved, {'ctx': ictx_t, 'path': path_t, 'trials': SeqT(trial_t, maxlen=4), 'merge': BoolT()},
         {'no-traces': kept_apart, 'best-claims-kept': merged},
         ghost={'key': StrT(CLBIDS)}, old=lambda ctx, key: held(ctx, key), eq_positive=True,
         statement='solving a rule leaves the claims as they were; solving it on its own adds the claims of the solution chosen, and of no other')


# ------------------------------------------------------------------ several rules solved on their own
from dp.rule.count import CountRule
from dp.area import AreaOfStudy
from dp.limit import LimitSet
from dp.data.student import Student


class Fixed:
    """A result with a given standing."""
    def __init__(self, course, rank, status):
        self.course = course
        self._rank = rank
        self._status = status

    def rank(self):
        return self._rank, Decimal(10)

    def status(self):
        return self._status


def some_course(g):
    return course_t.gen(g)


def children_env(g):
    def child(i):
        return Attempts(('$', f'%{i}'), [Fixed(some_course(g), Decimal(g.rng.randint(0, 3)), g.rng.choice(list(RS))) for _ in range(g.rng.randint(0, 3))])
    ctx = RequirementContext()
    for _ in range(g.rng.randint(0, 2)):
        c = some_course(g)
        ctx.claims[c.clbid].append(Claim(course=c, claimed_by=('$',), failed=False))
    rule = CountRule(count=1, items=(), at_most=False, audit_clauses=(), path=('$',), overridden=False)
    return {'rule': rule, 'ctx': ctx, 'children': [child(i) for i in range(g.rng.randint(0, 4))]}


def projected(claims):
    return {k: [(c.course, c.claimed_by, c.failed) for c in v] for k, v in claims.items() if len(v) > 0}


def expected_children(old, children, result):
    want = dict(old)
    for ch in children:
        r = result[ch]
        if r is not None:
            want[r.course.clbid] = [(r.course, ch.path, False)]
    return want


Contract('C07', 'children.apart', lambda rule, ctx, children: rule.solve_independent_children(ctx=ctx, independent_children=children), {'rule': ConstT(None), 'ctx': ConstT(None), 'children': ConstT(None)},
         {'claims-of-the-chosen': lambda ctx, children, result, old: projected(ctx.claims) == expected_children(old, children, result),
          'every-child-solved': lambda children, result: list(result) == list(children) and all((result[c] is None) == (len(c.trials) == 0) for c in children)},
         gen=children_env, old=lambda ctx: projected(ctx.claims), mode='bounded', note='up to 4 rules of up to 3 solutions', gen_n=3,
         statement='rules solved on their own leave exactly the claims of their chosen solutions, next to the earlier claims')


# ------------------------------------------------------------------ the solutions of an area
class Whole:
    """An area's top rule: some rules solved on their own, then several solutions."""
    def __init__(self, own, trials):
        self.own = own
        self.trials = trials
        self.path = ('$', '.count')

    def solutions(self, *, ctx, depth=None):
        if len(self.own) > 0:
            ctx.set_claims({c.clbid: [Claim(course=c, claimed_by=('$', '%own'), failed=False)] for c in self.own})
        yield from Attempts(self.path, self.trials).solutions(ctx=ctx)


def area_env(g):
    courses = {c.clbid: c for c in [some_course(g) for _ in range(4)]}
    courses = list(courses.values())
    own = [c for c in courses if g.rng.random() < 0.4]
    trials = [Fixed(g.rng.choice(courses), Decimal(1), RS.Empty) for _ in range(g.rng.randint(0, 4))]
    area = AreaOfStudy(name='', kind='major', degree=None, dept=None, code='1', limit=LimitSet(limits=()), result=Whole(own, trials), multicountable={}, path=('$',), common_rules=(), overridden=False)
    return {'area': area, 'student': Student(courses=courses), 'own': own, 'trials': trials, 'at_once': g.rng.random() < 0.5}


def area_attempts(area, student, own, trials, at_once):
    """What each solution starts from and ends with; audited one by one or after all were made."""
    seen = []
    pending = []
    for s in area.solutions(student=student, exceptions=[]):
        pending.append(s)
        if not at_once:
            start = projected(s.context.claims)
            s.solution.audit(ctx=s.context)
            seen.append((start, projected(s.context.claims)))
    if at_once:
        starts = [projected(s.context.claims) for s in pending]
        for s in pending:
            s.solution.audit(ctx=s.context)
        seen = [(a, projected(s.context.claims)) for a, s in zip(starts, pending)]
    return seen


def ends(own, t):
    base = {c.clbid: [(c, ('$', '%own'), False)] for c in own}
    base.setdefault(t.course.clbid, [])
    base[t.course.clbid] = base[t.course.clbid] + [(t.course, ('$', '.count'), False)]
    return base


Contract('C07', 'area.apart', area_attempts, {'area': ConstT(None), 'student': ConstT(None), 'own': ConstT(None), 'trials': ConstT(None), 'at_once': ConstT(None)},
         {'each-starts-with-own': lambda own, trials, result: len(result) == len(trials) and all(start == {c.clbid: [(c, ('$', '%own'), False)] for c in own} for start, end in result),
          'each-adds-its-claims': lambda own, trials, result: all(end == ends(own, t) for (start, end), t in zip(result, trials))},
         gen=area_env, mode='bounded', note='up to 4 courses and 4 solutions, no limits', gen_n=3,
         statement='every solution of an area starts from the claims of the rules solved on their own, untouched by any other solution')
