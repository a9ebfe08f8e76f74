"""The student's other records: recitals, performances, areas, and the template courses chosen with the department."""
import re
from contracts.common import *
from dp.data.music import MusicPerformance, MusicAttendance, MusicPerformanceStatus, MusicProficiencies, MusicProficiencyStatus, MusicMediums
from dp.data.area_pointer import AreaPointer
from dp.data.area_enums import AreaStatus, AreaType
from dp.data.student import Student, TemplateCourse, parse_template_course_rule

text = StrT(('Foo', 'Bar', 'x'))
num = IntT(lo=0, pool=(1, 2, 2018, 2019))


def performance(name, id, year, term, role, status):
    return MusicPerformance.from_dict({'name': name, 'id': id, 'year': year, 'term': term, 'role': role, 'status': status})


STATUS = {'E': MusicPerformanceStatus.Entrance, 'C': MusicPerformanceStatus.Continuance, '': None}
for _s in STATUS:
    Contract('C16', f'performance.{_s or "none"}', performance, {'name': text, 'id': text, 'year': num, 'term': num, 'role': OptT(text), 'status': ConstT(_s)},
             {'as-recorded': lambda name, id, year, term, role, status, result: result.name == name and result.id == id and result.year == year and result.term == term and result.role == role and result.status is STATUS[status],
              'in-time-order': lambda name, id, year, term, result: result.sort_order() == (year, term, name, id)},
             statement='a music performance carries the recorded data')
Contract('C16', 'attendance', lambda name, id, year, term: MusicAttendance.from_dict({'name': name, 'id': id, 'year': year, 'term': term}), {'name': text, 'id': text, 'year': num, 'term': num},
         {'as-recorded': lambda name, id, year, term, result: result.name == name and result.id == id and result.year == year and result.term == term, 'in-time-order': lambda name, id, year, term, result: result.sort_order() == (year, term, name, id)},
         statement='a recital attendance carries the recorded data')

PARSED = {True: MusicProficiencyStatus.Yes, False: MusicProficiencyStatus.No, '': MusicProficiencyStatus.No, 'N': MusicProficiencyStatus.No, 'Y': MusicProficiencyStatus.Yes, 'E': MusicProficiencyStatus.Exam, 'C': MusicProficiencyStatus.Class}
WHICH = ('guitar', 'keyboard_1', 'keyboard_2', 'keyboard_3', 'keyboard_4')
Contract('C16', 'proficiencies', lambda data: MusicProficiencies.from_dict(data), {},
         {'as-recorded': lambda data, result: all(getattr(result, k) is PARSED[data.get(k, 'N')] for k in WHICH)}, gen=lambda g: {'data': {k: g.rng.choice(list(PARSED)) for k in WHICH if g.rng.random() < 0.7}}, mode='bounded', note='all recorded values, random records',
         functions=['dp.data.music:MusicProficiencies.from_dict', 'dp.data.music:MusicProficiencyStatus.parse'], statement='the music proficiencies are those recorded, and none when nothing is recorded')


def pointer(code, status, kind, name, degree, dept, terms):
    return AreaPointer.from_dict({'code': code, 'status': status, 'kind': kind, 'name': name, 'degree': degree, 'dept': dept, 'terms_since_declaration': terms, 'gpa': '3.25'})


for _st in AreaStatus:
    Contract('C16', f'area-pointer.{_st.value}', pointer, {'code': text, 'status': ConstT(_st.value), 'kind': ConstT('major'), 'name': text, 'degree': text, 'dept': OptT(text), 'terms': OptT(IntT(lo=0))},
             {'as-recorded': lambda code, status, kind, name, degree, dept, terms, result: result.code == code and result.status is AreaStatus(status) and result.kind is AreaType(kind) and result.name == name and result.degree == degree
              and result.dept == dept and result.terms_since_declaration == terms and result.gpa == Decimal('3.25')}, statement='a declared area carries the recorded data')

# ------------------------------------------------------------------ template courses
word = StrT(('', 'A', 'B'))
template_t = ObjT(TemplateCourse, {'subject': StrT(('', 'ART', 'BIO')), 'num': StrT(('101', '102')), 'section': word, 'sub_type': word, 'year': ConstT(''), 'term': ConstT(''), 'institution': word, 'name': word, 'clbid': word})


def as_rule(self, result):
    want = [('clbid', self.clbid), ('section', self.section), ('sub_type', self.sub_type), ('institution', self.institution), ('ap', self.name)]
    return (all((k in result) == (v != '') and (v == '' or result[k] == v) for k, v in want) and ('course' in result) == (self.subject != '') and (self.subject == '' or result['course'] == f"{self.subject} {self.num}")
            and 'year' not in result and 'term' not in result)


Contract('C16', 'template.rule', lambda self: self.to_course_rule_as_dict(), {'self': template_t}, {'says-the-same': as_rule}, statement='a template course becomes a course rule that says the same')
Contract('C16', 'template.rule.dated', lambda year, term: TemplateCourse(subject='ART', num='101', year=year, term=term).to_course_rule_as_dict(), {},
         {'says-the-same': lambda year, term, result: result == {'course': 'ART 101', 'year': int(year), 'term': term}}, gen=lambda g: {'year': g.rng.choice(['2017', '2019']), 'term': g.rng.choice(['1', '9'])}, mode='bounded', note='a few terms',
         functions=['dp.data.student:TemplateCourse.to_course_rule_as_dict'], statement='a dated template course keeps its year and term')

SUBS = {'L': SubType.Lab, 'D': SubType.Discussion, 'F': SubType.Flac, 'E': SubType.Ensemble}


def template(label, transcript):
    return parse_template_course_rule(label, transcript=transcript)


def label_env(g):
    r = g.rng
    d = {'subject': r.choice(['ART', 'BIO', 'CH/BI']), 'num': r.choice(['101', '125']), 'section': r.choice(['', '', 'A']), 'sub': r.choice(['', '', 'L', 'D', 'F']), 'when': r.choice(['', '', ' 2018-1', ' 2019-3']), 'inst': r.choice(['', '', 'OTHER'])}
    named = r.random() < 0.35
    d['name'] = r.choice(['Foo', 'Bar']) if named else ''
    if named:
        label = f"name={d['name']}" + (f" [{d['inst']}]" if d['inst'] else '')
    else:
        label = f"{d['subject']} {d['num']}{d['section']}" + (f".{d['sub']}" if d['sub'] else '') + d['when'] + (f" [{d['inst']}]" if d['inst'] else '')
    import attr
    cs = []
    for c in SeqT(course_t, kind='list', maxlen=4).gen(g):
        if r.random() < 0.8:
            st = SUBS.get(d['sub'], SubType.Normal)
            c = attr.evolve(c, subject=d['subject'], number=d['num'], identity_=f"{d['subject']} {d['num']}" + (f".{d['sub']}" if d['sub'] else ''), sub_type=st if r.random() < 0.9 else SubType.Normal,
                            section='A' if r.random() < 0.5 else None, year=2018, term='1', institution=r.choice(['STOLAF', 'STOLAF', 'OTHER']))
        cs.append(c)
    return {'label': label, 'said': d, 'named': named, 'transcript': cs}


def meant(said, named, transcript):
    out = []
    for c in transcript:
        if said['inst'] and c.institution != said['inst']:
            continue
        if named:
            if c.name == said['name']:
                out.append(c)
            continue
        if not said['inst'] and not c.is_stolaf:
            continue
        plain = f"{said['subject']} {said['num']}"
        if c.identity_ != plain and not (said['sub'] and f"{c.subject} {c.number}" == plain):
            continue
        if said['section'] and c.section != said['section']:
            continue
        if said['sub'] and c.sub_type is not SUBS[said['sub']]:
            continue
        if said['when'] and said['when'] != f" {c.year}-{c.term}":
            continue
        out.append(c)
    return out


def template_ok(said, named, transcript, result):
    here = meant(said, named, transcript)
    if named:
        return (result.name, result.institution, result.clbid, result.subject, result.num) == (said['name'], said['inst'], here[0].clbid if here else '', here[0].subject if here else '', here[0].number if here else '')
    year, _, term = said['when'].strip().partition('-')
    return (result.section, result.sub_type, result.year, result.term, result.institution, result.name) == (said['section'], said['sub'], year, term, said['inst'], '') \
        and (result.clbid, result.subject, result.num) == ((here[0].clbid, here[0].subject, here[0].number) if here else ('', said['subject'], said['num']))


Contract('C16', 'template.label', template, {}, {'as-labelled': template_ok}, gen=label_env, mode='bounded', gen_n=5, note='labels of every shape, up to 4 courses',
         functions=['dp.data.student:parse_template_course_rule', 'dp.data.student:parse_identified_course', 'dp.data.student:parse_named_course'],
         statement='a template label stands for the first course of the student that it describes, and otherwise for what it says')

# ------------------------------------------------------------------ the whole record, with its parts by their own contracts
from dp.data.student import load_transcript
from contracts.c_attempts import pointer_t, perf_t, attend_t

GIVEN = {}


class Handed:
    """What load_transcript is asked with, as a row of its own."""
    def __init__(self, rows, failed, current, overrides, credits):
        self.asked = (rows, failed, current, overrides, credits)

    def sort_order(self):
        return 0


def transcript_double(courses, *, include_failed=False, current_term=None, overrides, credits_overrides):
    return [Handed(courses, include_failed, current_term, overrides, credits_overrides)]


def same_double(data):
    return data


def label_double(course_label, *, transcript):
    return (course_label, len(transcript))


PARTS = {load_transcript: transcript_double, AreaPointer.from_dict: same_double, MusicPerformance.from_dict: same_double, MusicAttendance.from_dict: same_double, MusicProficiencies.from_dict: same_double, MusicMediums.from_dict: same_double, parse_template_course_rule: label_double}


def load_parts(areas, performances, attendances, code, current, rest):
    data = {'stnum': '7', 'curriculum': '2017', 'catalog': '2018', 'matriculation': '2016', 'current_term': current, 'courses': ['rows'], 'areas': areas, 'performances': performances, 'performance_attendances': attendances,
            'proficiencies': 'prof', 'mediums': 'med', 'templates': {'t': ['b'], 'u': ['c']}}
    for k in rest:
        del data[k]
    return Student.load(data, code=code, overrides=['over'], credits_overrides={'n': '1'})


def rows_asked(current, result):
    ok = [list(result.courses), list(result.courses_with_failed)]
    return len(ok[0]) == 1 and len(ok[1]) == 1 and ok[0][0].asked == (['rows'], False, current, ['over'], {'n': '1'}) and ok[1][0].asked == (['rows'], True, current, ['over'], {'n': '1'})


def each_area(areas, code, result):
    return list(result.areas) == [a for a in areas if a.status is not AreaStatus.WhatIfDrop or a.code == code]


def each_slip(performances, attendances, result):
    return (all(p in result.music_performances for p in performances) and all(p in performances for p in result.music_performances)
            and all(p in result.music_recital_slips for p in attendances) and all(p in attendances for p in result.music_recital_slips))


Contract('C16', 'student.load.parts', load_parts, {'areas': SeqT(pointer_t, kind='list', maxlen=3), 'performances': SeqT(perf_t, kind='list', maxlen=3), 'attendances': SeqT(attend_t, kind='list', maxlen=3), 'code': StrT(('1', '9')), 'current': OptT(StrT(('20191',))), 'rest': ConstT(())},
         {'rows': rows_asked, 'areas': each_area, 'slips': each_slip, 'rest': lambda code, result: result.stnum == '7' and result.curriculum == 2017 and result.catalog == 2018 and result.matriculation == 2016 and result.current_area_code == code
          and result.music_proficiencies == 'prof' and result.music_mediums == 'med' and result.templates == (('t', ('b', 1)), ('u', ('c', 1)))}, doubles=PARTS, eq_positive=True,
         functions=['dp.data.student:Student.load'], statement='a student is loaded with every part of the record: both transcripts, all areas but those what-if-dropped, all recitals and performances')
