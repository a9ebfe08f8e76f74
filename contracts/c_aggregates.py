"""Aggregates: the number each `count(...)`, `sum(...)` and `average(...)` stands for."""
import attr
from contracts.common import *
from contracts.c_predicates import area_t
import dp.apply_clause as ac
from dp.lib import grade_point_average, grade_point_average_items
from dp.data.music import MusicPerformance, MusicAttendance

courses_t = SeqT(course_t, kind='list', maxlen=5)
agg = lambda fn: (lambda data: fn(data))


def subject_bucket(c):
    if c.subject == 'CH/BI':
        return 'CHEM' if c.number in ('125', '126') else 'BIO'
    return c.subject


def counts(key, fn, f, stmt, data_ids=False):
    """value = number of distinct f(c); data = those; each counted bucket has a course of the input."""
    def value(data, result):
        return result.value == len(set([f(c) for c in data]))

    def buckets(data, result):
        return set(result.data) == set([f(c) for c in data])

    def from_input(data, result):
        return all(any(d is c for d in data) for c in result.courses)

    def cover(data, result):
        kept = [f(c) for c in result.courses]
        return all(f(c) in kept for c in data)
    clauses = {'value': value, 'buckets': buckets, 'from-input': from_input}
    if fn is ac.count_subjects:
        pass
    elif not data_ids:
        clauses['one-for-each'] = cover
    else:
        clauses['buckets'] = lambda data, result: set(result.data) == set([c.clbid for c in data])
    Contract('C11', f'agg.{key}', lambda data, fn: fn(data), {'data': courses_t, 'fn': ConstT(fn)}, clauses, least=True, statement=stmt)


counts('courses', ac.count_courses, lambda c: c, 'count(courses) is the number of different courses', data_ids=True)
counts('distinct', ac.count_distinct_courses, lambda c: c.crsid, 'count(distinct_courses) is the number of different course ids')
counts('terms', ac.count_terms, lambda c: c.yearterm, 'count(terms) is the number of different terms')
counts('years', ac.count_years, lambda c: str(c.year), 'count(years) is the number of different years')
counts('subjects', ac.count_subjects, subject_bucket, 'count(subjects): CH/BI courses count as CHEM (125, 126) or BIO')




PREFIXES = ['math_perspective_', 'rel_tradition_', 'intlr_region_', 'math_', 'x']


def prefixed(key, fn, prefix, stmt):
    def value(data, result):
        return result.value == len(set([a for c in data for a in c.attributes if a.startswith(prefix)]))

    def courses(data, result):
        return result.courses == set([c for c in data if any(a.startswith(prefix) for a in c.attributes)])

    def carrying(g):
        one = lambda: g.rng.choice(PREFIXES) + g.rng.choice(['a', 'b', '', '_'])
        return {'data': [attr.evolve(course_t.gen(g), attributes=tuple(one() for _ in range(g.rng.randint(0, 3)))) for _ in range(g.rng.randint(0, 4))]}
    Contract('C11', f'agg.{key}', lambda data, fn: fn(data), {'data': SeqT(course_attr_t, kind='list', maxlen=4), 'fn': ConstT(fn)}, {'value': value, 'courses': courses}, gen=carrying, statement=stmt)


course_attr_t = course_t
prefixed('math', ac.count_math_perspectives, 'math_perspective_', 'count(math_perspectives): different perspectives over the attributes of all courses')
prefixed('religion', ac.count_religion_traditions, 'rel_tradition_', 'count(religion_traditions)')
prefixed('intlr', ac.count_intlr_regions, 'intlr_region_', 'count(intlr_regions)')

areas_t = SeqT(area_t, maxlen=4)
perf_t = ObjT(MusicPerformance, {'id': StrT(('1', '2', '3')), 'name': StrT(), 'term': StrT()})
att_t = ObjT(MusicAttendance, {'id': StrT(('1', '2', '3')), 'name': StrT(), 'term': StrT()})
Contract('C11', 'agg.areas', lambda data: ac.count_areas(data), {'data': areas_t}, {'value': lambda data, result: result.value == len(set([a.code for a in data]))}, statement='count(areas) is the number of different area codes')
Contract('C11', 'agg.performances', lambda data: ac.count_performances(data), {'data': SeqT(perf_t)}, {'value': lambda data, result: result.value == len(set([a.id for a in data]))}, statement='count(performances) by id')
Contract('C11', 'agg.recitals', lambda data: ac.count_recitals(data), {'data': SeqT(att_t)}, {'value': lambda data, result: result.value == len(set([a.id for a in data]))}, statement='count(recitals) by id')


def sum_value(data, result):
    return result.value == sum(c.credits for c in data)


Contract('C11', 'agg.sum-credits', lambda data: ac.sum_credits(data), {'data': courses_t}, {'value': sum_value, 'courses': lambda data, result: list(result.courses) == [c for c in data if c.credits != 0]}, eq_positive=True, statement='sum(credits)')


def most_common_course(key):
    def clause(data, result):
        if len(data) == 0:
            return result.value == 0 and len(result.courses) == 0
        if len(result.courses) == 0:
            return False
        k = key(result.courses[0])
        return list(result.courses) == [c for c in data if key(c) == k] and result.value == len(set([c.yearterm for c in data if key(c) == k]))
    return clause


def most_frequent(key):
    def clause(data, result):
        if len(data) == 0:
            return True
        if len(result.courses) == 0:
            return False
        k = key(result.courses[0])
        return all(len([c for c in data if key(c) == key(d)]) <= len([c for c in data if key(c) == k]) for d in data)
    return clause


for nm, fn, key in (('common', ac.count_terms_from_most_common_course, lambda c: c.crsid), ('common-name', ac.count_terms_from_most_common_course_by_name, lambda c: f"{c.subject}: {c.name}")):
    Contract('C11', f'agg.{nm}', lambda data, fn: fn(data), {'data': courses_t, 'fn': ConstT(fn)}, {'one-course': most_common_course(key), 'most-frequent': most_frequent(key)}, eq_positive=True,
             statement='count(terms_from_most_common_course...): the different terms of all occurrences of a most frequent course')


def single_subject(data, result):
    counted = [c for c in data if c.credits != 0]
    if len(counted) == 0:
        return result.value == 0 and len(result.courses) == 0
    if len(result.courses) == 0:
        return False
    s = result.courses[0].subject
    return list(result.courses) == [c for c in data if c.credits != 0 and c.subject == s] and result.value == sum(c.credits for c in data if c.subject == s)


def single_subject_best(data, result):
    return all(result.value >= sum(c.credits for c in data if c.subject == d.subject) for d in data)


Contract('C11', 'agg.single-subject', lambda data: ac.sum_credits_from_single_subject(data), {'data': courses_t}, {'one-subject': single_subject, 'best-subject': single_subject_best}, eq_positive=True,
         statement='sum(credits_from_single_subject): the largest credit total of one subject')


TINY = Decimal('1e-20')     # decimal arithmetic keeps 28 digits


def average(data, result):
    counted = [c for c in data if c.credits != 0]
    if len(counted) == 0:
        return result.value == 0
    off = result.value * len(counted) - sum(c.credits for c in counted)
    return off < TINY and -off < TINY


Contract('C11', 'agg.average-credits', lambda data: ac.average_credits(data), {'data': courses_t}, {'mean': average, 'courses': lambda data, result: list(result.courses) == [c for c in data if c.credits != 0]}, eq_positive=True,
         statement='average(credits): the mean over the courses with credit')

# ------------------------------------------------------------------ GPA
gpa_sum = lambda data: sum(c.gpa_points for c in data if c.is_in_gpa)
gpa_credits = lambda data: sum(c.credits for c in data if c.is_in_gpa)


def truncated(data, result):
    """gpa <= points / credits < gpa + 0.01, and gpa has two decimals."""
    n = gpa_credits(data)
    if n == 0:
        return result == 0
    p = gpa_sum(data)
    return result * n <= p and p < (result + Decimal('0.01')) * n and int(result * 100) == result * 100


Contract('C11', 'gpa.truncated', lambda data: grade_point_average(data), {'data': courses_t}, {'truncated': truncated}, statement='a GPA is points over credits of the courses in the GPA, truncated (never rounded) to two decimals, 0.00 without credits')
Contract('C11', 'agg.average-grades', lambda data: ac.average_grades(data), {'data': courses_t}, {'value': lambda data, result: result.value == grade_point_average(data), 'courses': lambda data, result: list(result.courses) == [c for c in data if c.is_in_gpa]}, eq_positive=True,
         statement='average(grades) is the GPA of its courses')


# ------------------------------------------------------------------ the GPA report
import contextlib
import csv
import io
from dp.run import gpa_only
from dp.data.student import Student


def report(courses):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        gpa_only(Student(courses_with_failed=tuple(courses)))
    return [r for r in csv.reader(io.StringIO(out.getvalue()))]


def term_by_term(courses, result):
    """Each term with a GPA: its courses, its GPA, and the GPA up to it."""
    want = []
    for t in sorted({c.year_term() for c in courses}):
        here = [c for c in courses if c.year_term() == t and c.is_in_gpa]
        if here:
            upto = [c for c in courses if c.year_term() <= t]
            want.append((sorted((c.course(), c.grade_code.value, str(c.grade_points)) for c in here), str(grade_point_average(here)), str(grade_point_average(upto))))
    got, rows = [], []
    for r in result[1:-1]:
        if r[2] == 'gpa:' and r[0] == ' ':
            own = r[3]
        elif r[2] == 'cum. gpa:' and r[0] == ' ':
            got.append((sorted(rows), own, r[3]))
            rows = []
        elif r[1] != ' ':
            rows.append((r[0], r[2], r[3]))
    return got == want


def report_env(g):
    r = g.rng
    cs = []
    for k in range(r.randint(0, 6)):
        c = course_t.gen(g)
        cs.append(attr.evolve(c, clbid=str(k), year=r.choice([2018, 2019]), term=r.choice(['1', '3']), is_in_gpa=r.random() < 0.8, credits=Decimal(r.choice(['1', '0.5'])), gpa_points=Decimal(r.randint(0, 4))))
    return {'courses': cs}


Contract('C11', 'gpa.report', report, {}, {'by-term': term_by_term, 'overall': lambda courses, result: result[-1] == ['overall', '---', 'gpa:', str(grade_point_average(courses))]},
         gen=report_env, mode='bounded', functions=['dp.run:gpa_only'], gen_n=0.5, note='up to 6 courses over 4 terms',
         statement='the GPA report gives each term its GPA and the GPA so far, and closes with that of all courses')
