"""What an area is tried with: the student's own record, exceptions and limits, for every attempt and for the estimate."""
from contracts.common import *
from dp.area import AreaOfStudy, AreaSolution, AreaResult, prepare_common_rules
from dp.load_rule import load_rule
from dp.constants import Constants
from dp.base.bases import Rule, Solution
from dp.data.student import Student, TemplateCourse
from dp.data.area_pointer import AreaPointer
from dp.data.music import MusicPerformance, MusicAttendance, MusicProficiencies
from dp.data.area_enums import AreaStatus, AreaType
from dp.limit import LimitSet
from dp.result.count import CountResult

pointer_t = ObjT(AreaPointer, {'code': StrT(('1', '2')), 'status': EnumT(AreaStatus), 'kind': EnumT(AreaType), 'name': StrT(('x',)), 'degree': StrT(('B.A.',)), 'dept': OptT(StrT(('ART',))), 'gpa': ConstT(None), 'terms_since_declaration': ConstT(None)})
slip = {'name': StrT(('x', 'y')), 'id': StrT(('1', '2')), 'year': IntT(lo=2000, pool=(2018,)), 'term': IntT(lo=1, pool=(1, 3)), 'hash_cache_': ConstT(None)}
perf_t = ObjT(MusicPerformance, {**slip, 'role': ConstT(None), 'status': ConstT(None)})
attend_t = ObjT(MusicAttendance, slip)
PROF = MusicProficiencies()
TEMPLATES = (('t1', TemplateCourse(subject='ART', num='101')), ('t1', TemplateCourse(subject='BIO', num='102')), ('t2', TemplateCourse(subject='ART', num='103')))
GROUPED = {'t1': (TEMPLATES[0][1], TEMPLATES[1][1]), 't2': (TEMPLATES[2][1],)}

student_t = ObjT(Student, {'stnum': ConstT('000000'), 'curriculum': ConstT(0), 'catalog': ConstT(0), 'matriculation': ConstT(2000), 'current_area_code': ConstT('1'),
                           'courses': SeqT(course_t, maxlen=3), 'courses_with_failed': SeqT(course_t, maxlen=3), 'areas': SeqT(pointer_t, maxlen=2), 'music_performances': SeqT(perf_t, maxlen=2),
                           'music_recital_slips': SeqT(attend_t, maxlen=2), 'music_mediums': ConstT(None), 'music_proficiencies': ConstT(PROF), 'templates': ConstT(TEMPLATES)})


class Top:
    """A top rule that is met in two ways, saying what it was asked with."""
    def __init__(self, many):
        self.many = many

    def solutions(self, *, ctx, depth=None):
        # (what is solved on its own is claimed before the first solution)
        ctx.claims['own'].append(0)
        for i in range(self.many):
            yield Way(i, ctx, depth)

    def estimate(self, *, ctx, depth=None):
        return 7 * len(ctx.transcript_) + len(ctx.transcript_with_failed_) + len(ctx.forced_clbid_lookup_map_)


class Way:
    def __init__(self, i, ctx, depth):
        self.i = i
        self.seen = ctx.transcript_
        self.depth = depth


class Cut:
    """Limits that leave given transcripts, saying what they were asked with."""
    def __init__(self, some):
        self.some = some
        self.asked = []

    def limited_transcripts(self, courses, forced_clbids=()):
        self.asked.append((courses, forced_clbids))
        for s in self.some:
            yield s


MULTI = {'AMST 101': [('%A',), ('%B',)]}


def area_of(many, some):
    return AreaOfStudy(name='x', kind='concentration', degree='B.A.', dept='ART', code='1', limit=Cut(some), result=Top(many), multicountable=MULTI, path=('$',), common_rules=('c',), overridden=False, excluded_clbids=frozenset(['9']))


def exceptions_of(ids):
    return [InsertionException(clbid=c, path=('$', '%A'), type=ExceptionAction.Insert, forced=True) for c in ids] + [InsertionException(clbid='4', path=('$', '%A'), type=ExceptionAction.Insert, forced=False), BlockException(clbid='3', path=('$', '%B'), type=ExceptionAction.Block)]


def attempts(student, many, some, ids):
    area = area_of(many, some)
    sols = []
    for s in area.solutions(student=student, exceptions=exceptions_of(ids)):
        s.context.claims['tried'].append(len(sols))
        sols.append(s)
    return area, sols


def same_dict(d, want):
    return all(k in want for k in d) and all(k in d and list(d[k]) == list(want[k]) for k in want)


def in_order(student, many, some, result):
    area, sols = result
    want = [(t, i) for t in some for i in range(many)]
    return len(sols) == len(want) and all(sols[n].solution.i == want[n][1] and sols[n].solution.depth == 1 and list(sols[n].context.transcript_) == list(want[n][0]) and list(sols[n].solution.seen) == list(want[n][0]) for n in range(len(want)))


def whole_record(student, ids, result):
    return all(list(s.context.transcript_with_excluded_) == list(student.courses) and list(s.context.transcript_with_failed_) == list(student.courses_with_failed) and s.context.areas is student.areas and s.context.music_performances is student.music_performances
               and s.context.music_attendances is student.music_recital_slips and s.context.music_proficiencies is PROF and same_dict(s.context.templates, GROUPED) and s.context.multicountable is MULTI for s in result[1])


def findable(student, some, result):
    return all(all(s.context.clbid_lookup_map_[c.clbid] in s.context.transcript_ for c in s.context.transcript_) and all(any(True for c in s.context.transcript_ if c.clbid == k) for k in s.context.clbid_lookup_map_) for s in result[1])


def forced_kept(student, ids, result):
    return all(all((c.clbid in ids) == (c.clbid in s.context.forced_clbid_lookup_map_) for c in student.courses) and all(k in ids for k in s.context.forced_clbid_lookup_map_)
               and all(s.context.forced_clbid_lookup_map_[k] in student.courses for k in s.context.forced_clbid_lookup_map_) for s in result[1])


def excepted(ids, result):
    given = exceptions_of(ids)
    return all(same_dict(s.context.exceptions, {('$', '%A'): given[:-1], ('$', '%B'): given[-1:]}) for s in result[1])


def own_claims(result):
    sols = result[1]
    return all(len(sols[n].context.claims) == 2 and sols[n].context.claims['own'] == [0] and sols[n].context.claims['tried'] == [n] for n in range(len(sols)))


def about_area(result):
    area, sols = result
    return all(s.name == 'x' and s.kind == 'concentration' and s.degree == 'B.A.' and s.dept == 'ART' and s.code == '1' and s.limit is area.limit and s.result is area.result and s.multicountable is MULTI and s.path == ('$',)
               and s.common_rules == ('c',) and s.overridden is False and s.excluded_clbids == frozenset(['9']) for s in sols)


def limits_asked(student, ids, result):
    asked = result[0].limit.asked
    return len(asked) == 1 and asked[0][0] is student.courses and set(asked[0][1]) == set(ids)


listed = SeqT(course_t, kind='list', maxlen=3)
for _many, _n, _ids in ((2, 2, ('1', '2')), (1, 2, ('1',)), (2, 1, ()), (0, 2, ()), (2, 0, ())):
    Contract('C13', f'area.tries.{_n}-transcripts.{_many}-ways', attempts, {'student': student_t, 'many': ConstT(_many), 'some': TupT(*[listed] * _n), 'ids': ConstT(_ids)},
             {'each-transcript-each-way': in_order, 'whole-record': whole_record, 'courses-by-id': findable, 'forced': forced_kept, 'exceptions': excepted, 'own-claims': own_claims, 'same-area': about_area, 'limits-asked': limits_asked},
             functions=['dp.area:AreaOfStudy.solutions', 'dp.area:AreaSolution.from_area', 'dp.context:RequirementContext.with_transcript'],
             statement='an area is tried with every limited transcript and every solution of its rule, each with the whole record of the student')


# ------------------------------------------------------------------ the estimate
def estimated(student, some, ids):
    area = area_of(1, some)
    return area.estimate(student=student, exceptions=exceptions_of(ids)), area.limit.asked


def summed(student, some, ids, result):
    known = [k for k in ids if any(c.clbid == k for c in student.courses)]
    return result[0] == sum([7 * len(t) + len(student.courses_with_failed) + len(known) for t in some]) and len(result[1]) == 1 and result[1][0][0] is student.courses and set(result[1][0][1]) == set(ids)


for _n, _ids in ((2, ('1',)), (1, ()), (0, ())):
    Contract('C13', f'area.estimate.{_n}-transcripts', estimated, {'student': student_t, 'some': TupT(*[listed] * _n), 'ids': ConstT(_ids)}, {'sum-over-transcripts': summed},
             functions=['dp.area:AreaOfStudy.estimate', 'dp.context:RequirementContext.with_transcript'], statement='the estimate of an area is the sum over its limited transcripts of what its rule estimates')

# ------------------------------------------------------------------ one attempt
class Solved:
    def __init__(self, result):
        self.result = result
        self.asked = []

    def audit(self, *, ctx):
        self.asked.append(ctx)
        return self.result


def audited(kind, ctx, tree):
    way = Solved(tree)
    sol = AreaSolution(name='x', kind=kind, degree='B.A.', dept='ART', code='1', limit=LimitSet(limits=()), result=None, multicountable=MULTI, path=('$',), common_rules=('c',), overridden=False, excluded_clbids=frozenset(['9']), solution=way, context=ctx)
    return way.asked, sol.audit()


def as_tried(kind, ctx, tree, result):
    asked, a = result
    return (len(asked) == 1 and asked[0] is ctx and a.context is ctx and a.result is tree and a.name == 'x' and a.kind == kind and a.degree == 'B.A.' and a.dept == 'ART' and a.code == '1' and a.multicountable is MULTI and a.path == ('$',)
            and a.common_rules == ('c',) and a.overridden is False and a.excluded_clbids == frozenset(['9']) and a.limit.limits == ())


Contract('C13', 'area.audited', audited, {'kind': StrT(('degree', 'concentration', 'emphasis')), 'ctx': RecT(RequirementContext, ctx_fields()), 'tree': ObjT(CountResult, abstract=True, name='Tree')}, {'as-tried': as_tried},
         requires=lambda kind: kind != 'major', functions=['dp.area:AreaSolution.audit', 'dp.area:AreaResult.from_solution'], statement='auditing an attempt audits its solution once in its own context, and keeps what the area says of itself')


# ------------------------------------------------------------------ loading
class Loaded:
    """What load_rule was asked for, as a rule that says which courses it requires."""
    def __init__(self, asked, required):
        self.asked = asked
        self.required = required
        self.excluded = None
        self.blocked = []

    def get_required_courses(self, *, ctx):
        return self.required

    def exclude_required_courses(self, to_exclude):
        self.excluded = to_exclude
        return self

    def apply_block_exception(self, e):
        self.blocked = self.blocked + [e]
        return self


def load_rule_double(*, data, c, children, path, emphases=None, ctx=None):
    return Loaded((data, c, children, path, emphases, ctx), data['required'])


def limits_double(*, data, c, ctx):
    return ('limits', data, c, ctx)


def common_double(*, degree, dept_code, other_areas, area_code, ctx, c):
    return [('common', degree, dept_code, other_areas, area_code, ctx, c)]


CONSTS = Constants(matriculation_year=2000)
EMPH = {'9': {'name': 'E9', 'result': {'required': ()}}, 8: {'name': 'E8', 'result': {'required': ()}}}
EXC = exceptions_of(('1',)) + [BlockException(clbid='2', path=('$', '%A'), type=ExceptionAction.Block)]


def load_area(student, required, with_emphases, everything, code):
    spec = {'name': 'Art', 'type': 'concentration', 'degree': 'B.A.', 'code': code, 'result': {'required': required}, 'requirements': {'A': 1}, 'limit': [3], 'multicountable': {'AMST 101': [['A'], ['B', 'C']], 'BIO 1': [['D']]}}
    if with_emphases:
        spec['emphases'] = EMPH
    return spec, AreaOfStudy.load(specification=spec, c=CONSTS, student=student, exceptions=EXC, all_emphases=everything)


def rule_asked(student, with_emphases, everything, result):
    spec, area = result
    data, c, children, path, emphases, ctx = area.result.asked
    declared = [e for k, e in EMPH.items() if with_emphases and (everything or any(a.code == str(k) and a.kind is AreaType.Emphasis for a in student.areas))]
    return data is spec['result'] and c is CONSTS and children is spec['requirements'] and path == ['$'] and emphases == declared


def loaded_with_record(student, result):
    ctx = result[1].result.asked[5]
    return (list(ctx.transcript_) == list(student.courses) and list(ctx.transcript_with_failed_) == list(student.courses_with_failed) and ctx.areas is student.areas and same_dict(ctx.templates, GROUPED) and ctx.music_proficiencies is PROF
            and same_dict(ctx.exceptions, {('$', '%A'): EXC[:2] + EXC[3:], ('$', '%B'): EXC[2:3]}))


def kept_out(required, result):
    area = result[1]
    return area.result.excluded is required and all(c.clbid in area.excluded_clbids for c in required) and all(any(c.clbid == k for c in required) for k in area.excluded_clbids)


def blocked(result):
    return result[1].result.blocked == [EXC[2], EXC[3]]


def rest_as_written(student, code, result):
    spec, area = result
    ctx = area.result.asked[5]
    common = area.common_rules[0]
    return (area.limit == ('limits', spec['limit'], CONSTS, ctx) and same_dict(area.multicountable, {'AMST 101': [('%A',), ('%B', '%C')], 'BIO 1': [('%D',)]}) and area.name == 'Art' and area.kind == 'concentration' and area.degree == 'B.A.' and area.code == code
            and area.path == ('$',) and area.overridden is False and len(area.common_rules) == 1 and common[1] == 'B.A.' and common[3] is student.areas and common[4] == code and common[5] is ctx and common[6] is CONSTS)


def dept_of(student, code, result):
    area = result[1]
    return area.common_rules[0][2] == area.dept and (any(True for p in student.areas if p.code == code) or area.dept is None) and (not any(True for p in student.areas if p.code == code) or any(p.code == code and p.dept == area.dept for p in student.areas))


DOUBLES = {load_rule: load_rule_double, LimitSet.load: limits_double, prepare_common_rules: common_double}
for _with, _all in ((False, False), (True, False), (True, True)):
    Contract('C13', f"area.loads.{'emphases' if _with else 'plain'}{'.all' if _all else ''}", load_area, {'student': student_t, 'required': SeqT(course_t, maxlen=3), 'with_emphases': ConstT(_with), 'everything': ConstT(_all), 'code': StrT(('1', '2', '9'))},
             {'rule-asked': rule_asked, 'with-record': loaded_with_record, 'required-kept-out': kept_out, 'blocks-applied': blocked, 'rest-as-written': rest_as_written, 'department': dept_of}, doubles=DOUBLES, eq_positive=True,
             functions=['dp.area:AreaOfStudy.load', 'dp.context:group_exceptions'], statement='an area is loaded with its own specification, the declared emphases, and the record and exceptions of the student')
