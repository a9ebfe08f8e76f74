"""From the student record to the transcript an audit works on."""
from contracts.common import *
from decimal import ROUND_DOWN
from dp.data.course import load_course, CourseTypeSortOrder
from dp.data.student import load_transcript, Student, TemplateCourse, parse_template_course_rule
from dp.exception import CourseCreditOverride, CourseSubjectOverride, CourseOverrideException

# ------------------------------------------------------------------ which rows count
SKIPPED = (GradeCode._N, GradeCode._U, GradeCode._AU, GradeCode._UA, GradeCode._WF, GradeCode._WP, GradeCode._W)
REPEATED = (TranscriptCode.RepeatedLater, TranscriptCode.RepeatInProgress)


def counts(c, include_failed):
    """Not audited, not repeated later, not withdrawn or unsuccessful; F only where asked for."""
    if c.grade_option is GradeOption.Audit or c.transcript_code in REPEATED or c.grade_code in SKIPPED:
        return False
    return include_failed or c.grade_code is not GradeCode.F


def kept(rows, failed):
    return list(load_transcript(rows, include_failed=failed, overrides=[], credits_overrides={}))


Contract('C16', 'transcript.rows', kept, {'rows': SeqT(course_t, kind='list', maxlen=5), 'failed': BoolT()}, {'exactly-the-counting': lambda rows, failed, result: result == [c for c in rows if counts(c, failed)]},
         requires=lambda rows: all(rows[i].clbid != rows[j].clbid for i in range(len(rows)) for j in range(len(rows)) if i < j), eq_positive=True,
         statement='the transcript is exactly the rows that count, in order')


def twice_env(g):
    rows = [course_t.gen(g) for _ in range(g.rng.randint(0, 4))]
    return {'rows': rows, 'failed': g.rng.random() < 0.5}


def renamed(rows, failed, result):
    """The first of two enrolments keeps its class id, the others are named by schedule id; nothing else changes."""
    seen, want = set(), []
    for c in rows:
        ident = c.clbid if c.clbid not in seen else f'{c.clbid}:{c.schedid}'
        seen.add(ident)
        if counts(c, failed):
            want.append((ident, c.schedid, c.identity_, c.credits, c.grade_code, c.subject, c.year, c.term, c.attributes))
    return [(c.clbid, c.schedid, c.identity_, c.credits, c.grade_code, c.subject, c.year, c.term, c.attributes) for c in result] == want and len({c.clbid for c in result}) == len(result)


def nameable(rows):
    names = [(c.clbid, c.schedid) for c in rows]
    return len(set(names)) == len(names)


Contract('C16', 'transcript.repeated-ids', kept, {'rows': ConstT(None), 'failed': ConstT(None)}, {'told-apart': renamed}, requires=nameable, gen=twice_env, mode='bounded', note='up to 4 rows over 4 class ids', gen_n=3,
         statement='enrolled twice in one class, the second enrolment gets its own id')

# ------------------------------------------------------------------ one row
from dp.data.course_enums import GradeCode as GC
row_t = {'clbid': StrT(CLBIDS), 'credits': RealT(lo=0, pool=('0', '0.25', '0.5', '1')), 'grade_points': RealT(lo=0, pool=GRADES), 'year': IntT(lo=2000, pool=(2017, 2018, 2019)), 'term': StrT(('1', '2', '3')), 'subject': StrT(('CH/BI', 'BIO', 'ART')), 'number': StrT(('125', '126', '127', '227', '101')),
         'section': OneOfT(StrT(('A', 'B')), ConstT(''), ConstT(None)), 'level': IntT(lo=0, pool=(100, 200)), 'name': StrT(('Foo', 'Bar')), 'grade': EnumT(GC), 'sub': EnumT(SubType), 'ctype': EnumT(CourseType), 'tcode': EnumT(TranscriptCode), 'gopt': EnumT(GradeOption), 'su': OptT(EnumT(GC)),
         'gpa': BoolT(), 'ip': BoolT(), 'inc': BoolT(), 'rep': BoolT(), 'sto': BoolT(), 'current': OptT(StrT(('20181', '20183', '20191'))), 'inst': StrT(('STOLAF', 'AP'))}
credit_t = ObjT(CourseCreditOverride, {'path': path_t, 'clbid': StrT(CLBIDS), 'type': ConstT(ExceptionAction.CourseCredits), 'credits': RealT(lo=0, pool=('0', '0.5', '2'))})
subject_t = ObjT(CourseSubjectOverride, {'path': path_t, 'clbid': StrT(CLBIDS), 'type': ConstT(ExceptionAction.CourseSubject), 'subject': StrT(('CH/BI', 'BIO', 'ART'))})


def row(clbid, credits, grade_points, year, term, subject, number, section, level, name, grade, sub, ctype, tcode, gopt, su, gpa, ip, inc, rep, sto, inst):
    d = {'attributes': ['x'], 'clbid': clbid, 'course_type': ctype, 'credits': credits, 'crsid': 'crs', 'flag_gpa': gpa, 'flag_incomplete': inc, 'flag_in_progress': ip, 'flag_repeat': rep, 'flag_stolaf': sto, 'gereqs': ['WRI'],
         'grade_code': grade, 'grade_option': gopt, 'grade_points': grade_points, 'institution_short': inst, 'level': level, 'name': name, 'number': number, 'schedid': 's1', 'section': section, 'sub_type': sub, 'subject': subject,
         'su_grade_code': '?' if su is None else su, 'term': term, 'transcript_code': tcode, 'year': year}
    return d


def loaded(clbid, credits, grade_points, year, term, subject, number, section, level, name, grade, sub, ctype, tcode, gopt, su, gpa, ip, inc, rep, sto, inst, current, more, moved, default):
    overrides = ([] if more is None else [more]) + ([] if moved is None else [moved])
    return load_course(row(clbid, credits, grade_points, year, term, subject, number, section, level, name, grade, sub, ctype, tcode, gopt, su, gpa, ip, inc, rep, sto, inst), current_term=current, overrides=overrides, credits_overrides={} if default is None else {'name=Foo': default})


def loaded_text(clbid, credits, grade_points, year, term, subject, number, section, level, name, grade, sub, ctype, tcode, gopt, su, gpa, ip, inc, rep, sto, inst, current, more, moved, default):
    """The same from a record as it is stored: numbers and codes as text."""
    return loaded(clbid, str(credits), str(grade_points), str(year), term, subject, number, section, str(level), name, grade.value, sub.value, ctype.value, tcode.value, gopt.value, None if su is None else su.value, gpa, ip, inc, rep, sto, inst, current, more, moved, default)


over_t = dict(row_t, more=OptT(credit_t), moved=OptT(subject_t), default=OptT(RealT(lo=0, pool=('0.25', '3'))))


def as_recorded(clbid, grade_points, year, term, number, section, level, name, grade, sub, ctype, tcode, gopt, su, gpa, ip, inc, rep, sto, inst, result):
    """Every field of the row arrives unchanged."""
    return (result.clbid == clbid and result.grade_points == grade_points and result.year == year and result.term == term and result.number == number and result.section == (section if section else None) and result.level == level
            and result.name == name and result.grade_code is grade and result.sub_type is sub and result.course_type is ctype and result.transcript_code is tcode and result.grade_option is gopt and result.su_grade_code is su
            and result.is_in_gpa == gpa and result.is_in_progress == ip and result.is_incomplete == inc and result.is_repeat == rep and result.is_stolaf == sto and result.institution == inst and result.crsid == 'crs' and result.schedid == 's1'
            and result.attributes == ('x',) and result.gereqs == ('WRI',) and result.is_lab == (sub is SubType.Lab))


def worth(clbid, credits, grade_points, name, more, default, result):
    """Credits: the override entered for the class, else the one the area gives for the name, else the recorded ones; GPA points follow, cut to two places."""
    if more is not None and more.clbid == clbid:
        c = more.credits
    elif default is not None and f'name={name}' == 'name=Foo':
        c = default
    else:
        c = credits
    return result.credits == c and result.gpa_points == (grade_points * c).quantize(Decimal('1.00'), rounding=ROUND_DOWN)


def known_as(clbid, subject, number, sub, moved, result):
    s = moved.subject if moved is not None and moved.clbid == clbid else subject
    suffix = '.L' if sub is SubType.Lab else '.F' if sub is SubType.Flac else '.D' if sub is SubType.Discussion else ''
    ident = f'{s} {number}{suffix}'
    return result.subject == s and result.identity_ == ident and result.is_chbi_ == (125 if ident == 'CH/BI 125' else 126 if ident == 'CH/BI 126' else 127 if ident == 'CH/BI 127' else 227 if ident == 'CH/BI 227' else None)


def when(year, term, grade, current, result):
    yt = f'{year}{term}'
    pending = bool(current) and grade in (GC._IP, GC._I)
    return (result.yearterm == yt and result.is_during_covid == (yt == '20193') and result.is_in_progress_this_term == (pending and yt <= current) and result.is_in_progress_in_future == (pending and yt > current))


plain = dict(credits=ConstT(Decimal('1')), grade_points=ConstT(Decimal('3')), year=ConstT(2018), term=ConstT('1'), subject=ConstT('ART'), number=ConstT('101'), section=ConstT('A'), level=ConstT(100), name=ConstT('Foo'), grade=ConstT(GC.B), sub=ConstT(SubType.Normal), ctype=ConstT(CourseType.Semester), tcode=ConstT(TranscriptCode.Empty), gopt=ConstT(GradeOption.Grade), su=ConstT(None),
             gpa=ConstT(True), ip=ConstT(False), inc=ConstT(False), rep=ConstT(False), sto=ConstT(True), inst=ConstT('STOLAF'), current=ConstT(None), more=ConstT(None), moved=ConstT(None), default=ConstT(None))
free = lambda *names: dict({k: over_t[k] for k in over_t}, **{k: v for k, v in plain.items() if k not in names})
Contract('C16', 'course.fields', loaded, free('grade_points', 'year', 'term', 'number', 'section', 'level', 'name', 'grade', 'sub', 'ctype', 'tcode', 'gopt', 'su', 'gpa', 'ip', 'inc', 'rep', 'sto', 'inst'), {'as-recorded': as_recorded}, statement='every field of a course row arrives as recorded')
Contract('C16', 'course.credits', loaded, free('credits', 'grade_points', 'name', 'more', 'moved', 'default'), {'worth': worth}, statement='a course is worth the credits entered for it, else those its area gives that name, else the recorded ones; GPA points are cut to two places')
Contract('C16', 'course.identity', loaded, free('subject', 'number', 'sub', 'moved', 'more'), {'known-as': known_as}, statement='a course is known by its subject (or the one entered for it), number and kind')
Contract('C16', 'course.pending', loaded, free('year', 'term', 'grade', 'current', 'ip'), {'when': when}, statement='a pending course is in progress now or in the future by comparison with the current term')
Contract('C16', 'course.record', loaded_text, over_t, {'as-recorded': as_recorded, 'worth': worth, 'known-as': known_as, 'when': when}, mode='bounded', note='random records over small pools', gen_n=4, statement='the same for a record as stored, numbers and codes as text')

# ------------------------------------------------------------------ the whole student record
import random as _random
from dp.data.area_enums import AreaStatus, AreaType
LEFT = ('1', '2')


def record(g, i):
    r = g.rng
    return {'attributes': r.choice([[], ['x']]), 'clbid': str(i) if r.random() < 0.9 else '0', 'course_type': r.choice([t.value for t in CourseType]), 'credits': r.choice(['1.00', '0.25']), 'crsid': 'crs', 'flag_gpa': True, 'flag_incomplete': False, 'flag_in_progress': False,
            'flag_repeat': False, 'flag_stolaf': r.random() < 0.8, 'gereqs': [], 'grade_code': r.choice(['A', 'B', 'F', 'W', 'IP', 'U', 'P']), 'grade_option': r.choice(['grade', 'audit', 's/u', 'grade']), 'grade_points': '3.00', 'institution_short': 'STOLAF', 'level': '100',
            'name': r.choice(['Foo', 'Bar']), 'number': r.choice(['101', '102']), 'schedid': f's{i}', 'section': r.choice(['', 'A']), 'sub_type': r.choice(['', 'lab']), 'subject': r.choice(['ART', 'BIO']), 'su_grade_code': '?', 'term': r.choice(['1', '2']),
            'transcript_code': r.choice(['', '', 'R']), 'year': r.choice(['2018', '2019'])}


LABELS = ('ART 101', 'BIO 102', 'ART 101A', 'BIO 101.L', 'ART 102 2018-1', 'name=Foo', 'name=Nope [AP]', 'nonsense', 'DANCE 101')


def slip_row(r):
    return {'name': r.choice(['x', 'y']), 'id': r.choice(['1', '2', '3']), 'year': r.choice(['2018', 2019]), 'term': r.choice(['1', 3])}


def student_env(g):
    r = g.rng
    rows = [record(g, i) for i in range(r.randint(0, 5))]
    over = []
    if rows and r.random() < 0.5:
        over.append(CourseCreditOverride(path=(), clbid=r.choice(rows)['clbid'], type=ExceptionAction.CourseCredits, credits=Decimal('9')))
    if rows and r.random() < 0.3:
        over.append(CourseSubjectOverride(path=(), clbid=r.choice(rows)['clbid'], type=ExceptionAction.CourseSubject, subject='XX'))
    data = {'stnum': '123', 'courses': rows, 'current_term': r.choice([None, '20182']), 'matriculation': r.choice(['', '2015', 2016, None]), 'curriculum': r.choice(['None', '2017']), 'catalog': r.choice(['2018', 'x', 2019]),
            'areas': [{'code': c, 'status': r.choice([s.value for s in AreaStatus]), 'kind': r.choice([k.value for k in AreaType]), 'name': c, 'degree': 'B.A.', 'terms_since_declaration': r.choice([None, 2])} for c in r.sample(['1', '2', '3'], r.randint(0, 3))],
            'performances': [slip_row(r) | {'role': r.choice(['', 'Violin']), 'status': r.choice(['E', 'C', ''])} for _ in range(r.randint(0, 3))], 'performance_attendances': [slip_row(r) for _ in range(r.randint(0, 3))],
            'proficiencies': {k: r.choice(['Y', 'N', 'E', 'C', True, False, '']) for k in ('guitar', 'keyboard_1', 'keyboard_2', 'keyboard_3', 'keyboard_4') if r.random() < 0.4},
            'mediums': {k: r.choice(['Violin', 'Piano', 'Piano, Organ']) for k in ('ppm', 'ppm2', 'spm', 'spm2') if r.random() < 0.5},
            'templates': {'t': r.sample(list(LABELS), r.randint(0, 4))} if r.random() < 0.7 else {}}
    return {'data': data, 'code': r.choice(['1', '9']), 'over': over, 'named': r.choice([None, {'name=Foo': '7'}])}


def student(data, code, over, named):
    return Student.load(data, code=code, overrides=over, credits_overrides=named)


def rows_of(data, over, named, failed):
    """What the transcript must hold, class by class."""
    seen, out = set(), []
    for d in data['courses']:
        ident = d['clbid'] if d['clbid'] not in seen else f"{d['clbid']}:{d['schedid']}"
        seen.add(ident)
        if d['grade_option'] == 'audit' or d['transcript_code'] == 'R' or d['grade_code'] in ('W', 'U') or (d['grade_code'] == 'F' and not failed):
            continue
        credits = Decimal(d['credits'])
        if named and d['name'] == 'Foo':
            credits = Decimal(7)
        subject = d['subject']
        for o in over:
            if o.clbid == d['clbid'] and isinstance(o, CourseCreditOverride):
                credits = o.credits
            if o.clbid == d['clbid'] and isinstance(o, CourseSubjectOverride):
                subject = o.subject
        first = d['course_type'] in ('SE', 'IN', 'SM', 'CA', 'IE', 'OC', 'OP', 'CE')
        out.append(((1 if first else 2, int(d['year']), d['term'], ident), subject, credits))
    return sorted(out, key=lambda t: t[0])


def courses_as(cs):
    return [((1 if c.course_type.value in ('SE', 'IN', 'SM', 'CA', 'IE', 'OC', 'OP', 'CE') else 2, c.year, c.term, c.clbid), c.subject, c.credits) for c in cs]


def transcript_ok(data, over, named, result):
    return courses_as(result.courses) == rows_of(data, over, named, False) and courses_as(result.courses_with_failed) == rows_of(data, over, named, True)


def areas_ok(data, code, result):
    return [a.code for a in result.areas] == [a['code'] for a in data['areas'] if a['status'] != AreaStatus.WhatIfDrop.value or a['code'] == code]


def numbers_ok(data, code, result):
    terms = [a.terms_since_declaration for a in result.areas if a.code == code]
    k = result.constants()
    return (result.matriculation == int(data['matriculation'] or 0) and result.curriculum == (0 if data['curriculum'] == 'None' else int(data['curriculum'])) and result.catalog == (0 if data['catalog'] == 'x' else int(data['catalog']))
            and k.matriculation_year == result.matriculation and k.current_area_code == code and k.terms_since_declaring_major == ((terms[0] or 0) if terms else 0))


def music_ok(data, result):
    slips = lambda rows: sorted((int(d['year']), int(d['term']), d['name'], d['id']) for d in rows)
    medium = lambda k: tuple(data['mediums'][k].split(', ')) if ',' in data['mediums'].get(k, '') else data['mediums'].get(k, 'Unknown')
    had = {'Y': 'Y', 'E': 'E', 'C': 'C', 'N': 'N', True: 'Y', False: 'N', '': 'N'}
    extra = lambda p: (p.year, p.term, p.name, p.id, p.role, p.status.name[0] if p.status else '')
    m = result.music_mediums
    return ([(p.year, p.term, p.name, p.id) for p in result.music_performances] == slips(data['performances']) and [(p.year, p.term, p.name, p.id) for p in result.music_recital_slips] == slips(data['performance_attendances'])
            and sorted(extra(p) for p in result.music_performances) == sorted((int(d['year']), int(d['term']), d['name'], d['id'], d['role'], d['status']) for d in data['performances'])
            and (m.ppm, m.ppm2, m.spm, m.spm2) == (medium('ppm'), medium('ppm2'), medium('spm'), medium('spm2')) and result.constants().primary_performing_medium == medium('ppm')
            and all(getattr(result.music_proficiencies, k).value == had[data['proficiencies'].get(k, 'N')] for k in ('guitar', 'keyboard_1', 'keyboard_2', 'keyboard_3', 'keyboard_4')))


def templates_ok(data, result):
    """A template names each class once, by class id when the student has it."""
    got = dict(result.templates_as_dict())
    want = {}
    for key, labels in data['templates'].items():
        for label in set(labels):
            if label in ('nonsense',):
                continue
            here = [c for c in result.courses if named_by(label, c)]
            want.setdefault(key, set()).add(here[0].clbid if here else '')
    return {k: {t.clbid for t in v} for k, v in got.items()} == want


def named_by(label, c):
    if label == 'name=Foo':
        return c.name == 'Foo'
    if label == 'name=Nope [AP]':
        return False
    if label == 'ART 101A':
        return c.is_stolaf and c.identity_ == 'ART 101' and c.section == 'A'
    if label == 'ART 102 2018-1':
        return c.is_stolaf and c.identity_ == 'ART 102' and c.year == 2018 and c.term == '1'
    if label == 'BIO 101.L':
        return c.is_stolaf and c.identity_ == 'BIO 101.L'
    return c.is_stolaf and c.identity_ == label


Contract('C16', 'student.load', student, {'data': ConstT(None), 'code': ConstT(None), 'over': ConstT(None), 'named': ConstT(None)}, {'transcript': transcript_ok, 'areas': areas_ok, 'numbers': numbers_ok, 'music': music_ok, 'templates': templates_ok},
         gen=student_env, mode='bounded', note='up to 5 rows, 3 areas and 4 template labels', gen_n=4, statement='a student is loaded with the courses that count, college courses first and in time order, overrides applied, what-if-dropped areas left out')
