"""What an audited area reports: verdict, claims, GPA, and the requirements common to all majors."""
from contracts.common import *
from contracts.c_status import count_t, query_t, course_res_t, req_t, cond_t, prof_t
from dp.area import AreaResult, AreaSolution, AreaOfStudy, prepare_common_rules
from dp.result.count import CountResult
from dp.result.requirement import RequirementResult
from dp.solution.count import CountSolution
from dp.limit import LimitSet
from dp.lib import grade_point_average
from dp.constants import Constants
from dp.data.area_pointer import AreaPointer
from dp.data.course import course_from_str

shape = lambda claims: [(c.course, c.claimed_by, c.failed) for c in claims]


def branch(rule):
    if rule.condition.result is True:
        return [rule.when_true]
    if rule.condition.result is False and rule.when_false is not None:
        return [rule.when_false]
    return []


# ------------------------------------------------------------------ the claims of every node
Contract('C22', 'count.claims', lambda r: (r.claims(), r.claims_for_gpa()), {'r': count_t},
         {'of-its-parts': lambda r, result: shape(result[0]) == [(c.course, c.claimed_by, c.failed) for i in r.items for c in i.claims()],
          'gpa': lambda r, result: shape(result[1]) == [(c.course, c.claimed_by, c.failed) for i in r.items for c in i.claims_for_gpa()]}, eq_positive=True, statement='a count reports the claims of all its parts, and for the GPA those its parts report for the GPA')
Contract('C22', 'requirement.claims', lambda r: (r.claims(), r.claims_for_gpa()), {'r': req_t},
         {'of-its-result': lambda r, result: shape(result[0]) == ([] if r.is_audited or r.result is None else shape(r.result.claims())),
          'gpa-only-if-in-gpa': lambda r, result: shape(result[1]) == ([] if not r.in_gpa or r.is_audited or r.result is None else shape(r.result.claims_for_gpa()))}, eq_positive=True, statement='a requirement outside the GPA contributes its claims, but not to the GPA')
Contract('C22', 'conditional.claims', lambda r: (r.claims(), r.claims_for_gpa()), {'r': cond_t},
         {'of-its-branch': lambda r, result: shape(result[0]) == [(c.course, c.claimed_by, c.failed) for i in branch(r) for c in i.claims()],
          'gpa': lambda r, result: shape(result[1]) == [(c.course, c.claimed_by, c.failed) for i in branch(r) for c in i.claims_for_gpa()]}, eq_positive=True, statement='a conditional reports the claims of the branch its condition selects')
Contract('C22', 'proficiency.claims', lambda r: (r.claims(), r.claims_for_gpa()), {'r': prof_t},
         {'of-its-course': lambda r, result: shape(result[0]) == ([] if r.course is None else shape(r.course.claims())) and shape(result[1]) == shape(result[0])}, eq_positive=True, statement='a proficiency reports the claims of its course')
Contract('C22', 'query.claims', lambda r: (r.claims(), r.claims_for_gpa()), {'r': query_t},
         {'successful': lambda r, result: shape(result[0]) == shape(r.successful_claims) and shape(result[1]) == shape(r.successful_claims)}, eq_positive=True, statement='a query reports its successful claims')
Contract('C22', 'course.claims', lambda r: (r.claims(), r.claims_for_gpa()), {'r': course_res_t},
         {'if-successful': lambda r, result: shape(result[0]) == ([] if r.claim_attempt is None or r.claim_attempt.failed else shape([r.claim_attempt])) and shape(result[1]) == shape(result[0])}, eq_positive=True, statement='a course reports its claim if that did not fail')

tree_t = ObjT(CountResult, abstract=True, name='Tree', methods={'status': Meth(EnumT(RS)), 'rank': RANK, 'claims': Meth(SeqT(claim_t, kind='list', maxlen=4)), 'claims_for_gpa': Meth(SeqT(claim_t, kind='list', maxlen=3)), 'is_waived': Meth(BoolT())})
actx_t = RecT(RequirementContext, ctx_fields(transcript_=SeqT(course_t, kind='list', maxlen=3), transcript_with_excluded_=SeqT(course_t, kind='list', maxlen=3), transcript_with_failed_=SeqT(course_t, kind='list', maxlen=4), clbid_lookup_map_=ConstT(lambda: {}), forced_clbid_lookup_map_=ConstT(lambda: {}), claims=ConstT(lambda: {}), multicountable=ConstT(lambda: {})))
area_t = RecT(AreaResult, {'name': StrT(), 'kind': StrT(('degree', 'major', 'concentration')), 'degree': OptT(StrT(('B.A.', 'B.M.'))), 'dept': OptT(StrT()), 'code': StrT(), 'limit': ConstT(LimitSet(limits=())), 'result': tree_t, 'multicountable': ConstT(lambda: {}), 'path': ConstT(('$',)), 'common_rules': ConstT(()), 'excluded_clbids': ConstT(frozenset()), 'overridden': BoolT(), 'context': actx_t, 'version': ConstT(3)})

Contract('C22', 'area.verdict', lambda area: (area.status(), area.rank(), area.is_waived()), {'area': area_t},
         {'status': lambda area, result: result[0] is (RS.Waived if area.result.is_waived() else area.result.status()), 'rank': lambda area, result: result[1] == area.result.rank(), 'waived': lambda area, result: result[2] == area.result.is_waived()},
         statement='an area has the status and rank of its topmost rule, waived when that is')
Contract('C22', 'area.matched', lambda area: (area.matched(), area.matched_for_gpa()), {'area': area_t},
         {'claimed': lambda area, result: all(any(c.course is x and not c.failed for c in area.result.claims()) for x in result[0]) and all(c.failed or c.course in result[0] for c in area.result.claims()),
          'for-gpa': lambda area, result: all(any(c.course is x and not c.failed for c in area.result.claims_for_gpa()) for x in result[1]) and all(c.failed or c.course in result[1] for c in area.result.claims_for_gpa())},
         statement='the courses matched are those of the claims that did not fail')


def area_gpa(area, result):
    if area.kind == 'degree':
        return result == grade_point_average(area.context.transcript_with_failed_)
    return result == grade_point_average(list(set(c.course for c in area.result.claims_for_gpa() if not c.failed)))


Contract('C22', 'area.gpa', lambda area: area.gpa(), {'area': area_t}, {'counted-courses': area_gpa}, statement='a degree GPA is over the whole transcript with failed courses, any other over the different courses claimed for it')


def keyed_courses(area, result):
    good = [c for c in area.result.claims() if not c.failed]
    return all(any(c.course.clbid == k for c in good) for k in result) and all(c.course.clbid in result for c in good)


def keyed_paths(area, result):
    good = [c for c in area.result.claims() if not c.failed]
    return all(list(c.claimed_by) in result[c.course.clbid] for c in good) and all(all(any(c.course.clbid == k and list(c.claimed_by) == p for c in good) for p in result[k]) for k in result)


def keyed_once(area, result):
    good = [c for c in area.result.claims() if not c.failed]
    return all(len(result[k]) == len([c for c in good if c.course.clbid == k]) for k in result)


Contract('C22', 'area.keyed-claims', lambda area: area.keyed_claims(), {'area': area_t}, {'every-course': keyed_courses, 'every-path': keyed_paths, 'each-once': keyed_once}, statement='the claims reported by course are exactly the successful ones, each under its course with the path that claimed it')


# ------------------------------------------------------------------ the requirements common to all majors
class Holder:
    """A finished part of a result, holding given claims."""
    def __init__(self, courses, failed):
        self.path = ('$', '%Held')
        self.courses = courses
        self.failed = failed

    def claims(self):
        return [Claim(course=c, claimed_by=self.path, failed=False) for c in self.courses] + [Claim(course=c, claimed_by=self.path, failed=True) for c in self.failed]


class Settled:
    def __init__(self, result):
        self.result = result

    def audit(self, *, ctx):
        return self.result


ORDER = ['F', 'D-', 'D', 'D+', 'C-', 'C', 'C+', 'B-', 'B', 'B+', 'A-', 'A', 'A+']
reaches = lambda grade, floor: grade.value in ORDER and ORDER.index(grade.value) >= ORDER.index(floor)


def c_or_better(c):
    if c.is_in_progress:
        return True
    if c.is_during_covid:
        g = c.su_grade_code if c.grade_code is GradeCode._S and c.su_grade_code is not None else c.grade_code
        return reaches(g, 'C-')
    return reaches(c.grade_code, 'C')


C_QUERY = ('$', '%Common Requirements', '.count', '[0]', '%Credits at a C or higher', '.query')


def finished(kind, degree, dept, code, others, taken, hidden, held, lost, count, put):
    base = CountResult(count=count, items=(Holder(held, lost),), at_most=False, audit_clauses=(), path=('$', '.count'), overridden=False)
    entered = [InsertionException(path=C_QUERY, clbid=c.clbid, forced=forced, type=ExceptionAction.ForceInsert if forced else ExceptionAction.Insert) for c, forced in put]
    ctx = RequirementContext(exceptions=group_exceptions(entered)).with_transcript(taken, full=taken + hidden, forced={c.clbid: c for c, forced in put if forced})
    common = tuple(prepare_common_rules(degree=degree, dept_code=dept, other_areas=others, area_code=code, ctx=ctx, c=Constants(matriculation_year=2000)))
    sol = AreaSolution(name='x', kind=kind, degree=degree, dept=dept, code=code, limit=LimitSet(limits=()), result=None, multicountable={}, path=('$',), common_rules=common, overridden=False, solution=Settled(base), context=ctx)
    return base, sol.audit()


def added(kind, degree, result):
    base, area = result
    r = area.result
    if kind != 'major':
        return r is base
    extra = r.items[-1]
    return r.count == base.count + 1 and r.items[:-1] == base.items and extra.result.count == len(extra.result.items) == (2 if degree == 'B.M.' else 3) and not extra.in_gpa and not extra.result.at_most and not extra.overridden


def common_parts(kind, result):
    return list(result[1].result.items[-1].result.items) if kind == 'major' else []


def c_credits(kind, held, put, result):
    p = common_parts(kind, result)
    good = [c for c in held if c.credits > 0 and c_or_better(c)]
    good = good + [c for c in dict.fromkeys([c for c, forced in put if forced or c in held]) if c not in good]
    return not p or p[0].is_ok() == (sum(c.credits for c in good) >= 6)


def su_courses(kind, degree, held, result):
    p = common_parts(kind, result)
    su = [c for c in held if c.grade_option is GradeOption.SU]
    return not p or p[1].is_ok() == (len(su) == 0 if degree == 'B.M.' else len([c for c in su if c.credits == 1]) <= 1)


def outside(kind, degree, dept, code, others, taken, hidden, result):
    p = common_parts(kind, result)
    if len(p) < 3:
        return True
    if dept is None:
        return p[2].is_audited and not p[2].is_ok()
    codes = [o.code for o in others]
    every = [c for c in taken + hidden if c.subject not in ('REG', 'OFFC')]
    if (code == '140' and '135' in codes) or (code == '135' and '140' in codes):
        return p[2].is_ok() == (sum(c.credits for c in every if c.subject != 'ART' and c.credits == 1) >= 18)
    if code == '450':
        return p[2].is_ok() == (sum(c.credits for c in every if c.subject not in ('MUSIC', 'MUSPF', 'MUSEN')) >= 21)
    return p[2].is_ok() == (sum(c.credits for c in every if c.subject != dept) >= 21)


def finished_env(g):
    r = g.rng
    double = r.random() < 0.3
    many = r.random() < (0.7 if double else 0.1)
    n = r.randint(16, 22) if many else r.randint(0, 8)
    courses = []
    for k in range(n):
        su = r.random() < 0.25
        grade = r.choice(['A', 'B', 'B', 'C', 'C', 'C-', 'D', 'F'])
        subject = r.choice(['ART', 'BIO', 'BIO', 'CSCI', 'CSCI', 'REG', 'OFFC', 'MUSIC', 'MUSEN', 'MUSPF'] if r.random() < 0.4 else ['BIO', 'CSCI'])
        covid = r.random() < 0.2
        c = course_from_str(f'{subject} {100 + k}', clbid=str(k), in_progress=not su and r.random() < 0.15, grade_code='S' if su else grade, grade_option=GradeOption.SU if su else GradeOption.Grade,
                            credits='1.00' if many else r.choice(['0', '0.25', '0.5', '1', '1', '1', '3', '5', '6', '7', '10', '18', '20']), year=2019 if covid else 2000, term='3' if covid else '1')
        if c.is_in_progress:
            now = r.random() < 0.5
            c = attr_evolve(c, is_in_progress_this_term=now, is_in_progress_in_future=not now)
        if su and r.random() < 0.6:
            c = attr_evolve(c, su_grade_code=GradeCode(r.choice(['B', 'C', 'C-', 'D'])))
        courses.append(c)
    code = r.choice(['140', '135']) if double else r.choice(['450', '140', '190', '190'])
    dept = r.choice([None, 'BIO', 'BIO', 'ART', 'CSCI', 'MUSIC']) if not double else 'ART'
    if not many and r.random() < 0.6:
        # close to the twenty-one credits, from either side
        away = ('REG', 'OFFC') + (('MUSIC', 'MUSPF', 'MUSEN') if code == '450' else (dept,))
        short = r.choice([Decimal(20), Decimal('20.75'), Decimal(21)]) - sum(c.credits for c in courses if c.subject not in away)
        if short > 0:
            courses.append(course_from_str(f"{'PHYS' if code == '450' else 'PHIL'} 150", clbid=str(n), grade_code=r.choice(['B', 'D']), credits=str(short), year=2000, term='1'))
    hidden = [c for c in courses if r.random() < 0.15]
    taken = [c for c in courses if c not in hidden]
    held = [c for c in taken if r.random() < 0.7]
    lost = [c for c in taken if c not in held and r.random() < 0.3]
    put = [(c, r.random() < 0.6) for c in courses if r.random() < 0.15] if r.random() < 0.5 else []
    others = tuple(AreaPointer.with_code(x) for x in ('140', '135', '450', '190', '550') if r.random() < 0.5)
    if double:
        others = others + tuple(AreaPointer.with_code(x) for x in ('140', '135'))
    return {'kind': r.choice(['major', 'major', 'major', 'concentration']), 'degree': r.choice(['B.A.', 'B.A.', 'B.M.']), 'dept': dept, 'code': code,
            'others': others, 'taken': taken, 'hidden': hidden, 'held': held, 'lost': lost, 'count': r.randint(0, 2), 'put': put}


from attr import evolve as attr_evolve
from dp.context import group_exceptions
from dp.exception import InsertionException, ExceptionAction

Contract('C23', 'major.common', finished, {}, {'added-once': added, 'c-or-better': c_credits, 's-u': su_courses, 'outside': outside},
         gen=finished_env, mode='bounded', gen_n=3, note='up to 22 courses', functions=['dp.area:AreaSolution.audit', 'dp.area:AreaSolution.audit_common_major_requirements', 'dp.area:prepare_common_rules'],
         statement='a major also requires six credits at C or better among the claimed courses, at most one S/U course (none for a B.M.) among them, and 21 (18 for studio art with art history) credits outside the department over the whole transcript')


# ------------------------------------------------------------------ what the common requirements are asked of
import dp.solve
from dp.base.count import BaseCountRule
from contracts.c_report import of_the_node

find_best = dp.solve.find_best_solution
BENEATH = ('$', '%Common Requirements', '.count', '[0]')


class Asked:
    """A common rule."""
    def __init__(self, path):
        self.path = path


class Answer:
    """What a common rule came to, saying what it was asked of."""
    def __init__(self, rule, ctx):
        self.rule = rule
        self.ctx = ctx
        self.foreign = [k for k in ctx.claims if k != 'solved']
        ctx.claims['solved'].append(rule)


def answered(*, rule, ctx):
    return Answer(rule, ctx)


RULES = tuple([Asked(BENEATH), Asked(('$', '%Common Requirements', '.count', '[1]')), Asked(('$', '%Common Requirements', '.count', '[2]'))])


def majored(kind, ctx, tree, n, ids):
    entered = [InsertionException(clbid=i, path=BENEATH + ('.query',), type=ExceptionAction.Insert, forced=False) for i in ids] + [InsertionException(clbid='99', path=('$', '%A'), type=ExceptionAction.Insert, forced=False)]
    ctx = attr_evolve(ctx, exceptions=group_exceptions(entered))
    sol = AreaSolution(name='x', kind=kind, degree='B.A.', dept='ART', code='1', limit=LimitSet(limits=()), result=None, multicountable={}, path=('$',), common_rules=RULES[:n], overridden=False, solution=Settled(tree), context=ctx)
    before = len(ctx.claims)
    return ctx, before, sol.audit()


def one_more(kind, tree, n, result):
    ctx, before, area = result
    if kind != 'major':
        return area.result is tree
    r = area.result
    extra = r.items[-1]
    return (r.count == tree.count + 1 and list(r.items) == list(tree.items) + [extra] and r.at_most == tree.at_most and r.audit_clauses is tree.audit_clauses and r.overridden == tree.overridden and r.path == tree.path
            and extra.result.count == n and not extra.result.at_most and not extra.overridden and not extra.result.overridden and not extra.is_audited and not extra.in_gpa and len(extra.result.audit_clauses) == 0)


def common_answers(kind, result):
    return result[2].result.items[-1].result.items if kind == 'major' else ()


def each_rule_once(kind, n, result):
    return kind != 'major' or [a.rule for a in common_answers(kind, result)] == list(RULES[:n])


def of_the_claimed(kind, tree, result):
    return all(all(any(c.course is x and not c.failed for c in tree.claims()) for x in a.ctx.transcript_) and all(c.failed or c.course in a.ctx.transcript_ for c in tree.claims()) for a in list(common_answers(kind, result))[:2])


def of_the_whole(kind, ctx, result):
    return all(list(a.ctx.transcript_) == list(ctx.transcript_with_excluded_) for a in list(common_answers(kind, result))[2:])


def with_inserted(kind, ctx, ids, result):
    return all(len(a.ctx.forced_clbid_lookup_map_) == len(ids) and all(a.ctx.forced_clbid_lookup_map_[i] is (ctx.clbid_lookup_map_[i] if i in ctx.clbid_lookup_map_ else ctx.forced_clbid_lookup_map_[i]) for i in ids) for a in list(common_answers(kind, result))[:2])


def claims_apart(kind, result):
    """None of the rules sees the claims of the area, nor leaves any in it."""
    ctx, before, area = result
    return len(ctx.claims) == before and area.context is ctx and all(len(a.foreign) == 0 for a in common_answers(kind, result))


for _n, _ids in ((2, ()), (3, ('1',)), (3, ('1', '2'))):
    Contract('C23', f'major.asked.{_n}-rules.{len(_ids)}-inserted', majored, {'kind': StrT(('major', 'major', 'concentration')), 'ctx': RecT(RequirementContext, ctx_fields()), 'tree': count_t, 'n': ConstT(_n), 'ids': ConstT(_ids)},
             {'one-more-part': one_more, 'each-rule-once': each_rule_once, 'of-the-claimed': of_the_claimed, 'of-the-whole': of_the_whole, 'with-inserted': with_inserted, 'claims-apart': claims_apart},
             requires=lambda ctx, ids: all((i in ctx.clbid_lookup_map_ and ctx.clbid_lookup_map_[i].clbid == i) or (i not in ctx.clbid_lookup_map_ and i in ctx.forced_clbid_lookup_map_ and ctx.forced_clbid_lookup_map_[i].clbid == i) for i in ids), doubles={find_best: answered}, summaries={BaseCountRule.claims: of_the_node('count.claims', SeqT(claim_t, kind='list', maxlen=4), 'C22')}, eq_positive=True,
             functions=['dp.area:AreaSolution.audit', 'dp.area:AreaSolution.audit_common_major_requirements', 'dp.base.bases:Base.matched'],
             statement='a major gets one more part, of all its common rules: the first two are asked of the courses it claimed, with those inserted among them, the third of the whole transcript, each without the claims of the area')
