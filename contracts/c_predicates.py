"""Where-clauses: boolean structure, course fields, and conditional expressions."""
from contracts.common import *
from dp.op import Operator as OP, apply_operator
import dp.predicate_clause as pc
from dp.data.area_pointer import AreaPointer
from dp.data.area_enums import AreaStatus, AreaType
import dp.conditional_expression as ce

# ------------------------------------------------------------------ boolean structure
pred_t = ObjT(Base, abstract=True, name='Pred', methods={'apply': Meth(BoolT(), deps=('to',))})
cond_expr_t = ObjT(Base, abstract=True, name='CExpr', fields={'result': OptT(BoolT())})

Contract('C09', 'pred.and', lambda self, to: self.apply(to), {'self': RecT(pc.PredicateCompoundAnd, {'predicates': SeqT(pred_t)}), 'to': course_t},
         {'all': lambda self, to, result: result == all(p.apply(to) for p in self.predicates)}, statement='$and matches iff every sub-clause matches')
Contract('C09', 'pred.or', lambda self, to: self.apply(to), {'self': RecT(pc.PredicateCompoundOr, {'predicates': SeqT(pred_t)}), 'to': course_t},
         {'any': lambda self, to, result: result == any(p.apply(to) for p in self.predicates)}, statement='$or matches iff some sub-clause matches')
Contract('C09', 'pred.not', lambda self, to: self.apply(to), {'self': RecT(pc.PredicateNot, {'predicate': pred_t}), 'to': course_t},
         {'not': lambda self, to, result: result == (not self.predicate.apply(to))}, statement='$not matches iff its clause does not')


def cond_pred(self, to, result):
    if self.condition.result:
        return result == self.when_true.apply(to)
    if self.when_false is not None:
        return result == self.when_false.apply(to)
    return result is False


Contract('C09', 'pred.if', lambda self, to: self.apply(to), {'self': RecT(pc.ConditionalPredicate, {'condition': cond_expr_t, 'when_true': pred_t, 'when_false': OptT(pred_t), 'hide_branching': BoolT()}), 'to': course_t},
         {'branch': cond_pred}, statement='$if applies $then when its condition holds, otherwise $else, otherwise matches nothing')

# ------------------------------------------------------------------ fields
words = 'words'
word = StrT(('AMST', 'BIO', 'CHEM', 'x', 'WRI', '1', '101', 'STOLAF', 'Foo', '10', 'CH/BI', 'CH/BI 125'))
MEMBER = [OP.EqualTo, OP.NotEqualTo, OP.In, OP.NotIn]
ORDERED = [OP.LessThan, OP.LessThanOrEqualTo, OP.GreaterThan, OP.GreaterThanOrEqualTo, OP.EqualTo, OP.NotEqualTo]
run_pred = lambda key, op, expected, covid, course: pc.Predicate(key=key, expected=expected, original=expected, operator=op, during_covid=covid).apply(course)


def field(key, expected, ops, value):
    if expected is words:
        field(key, word, MEMBER[:2], value)
        field(key + '.list', SeqT(word), MEMBER, value)
        return
    def means(op, expected, course, result):
        return result == apply_operator(op=op, lhs=value(course), rhs=expected)
    Contract('C10', f'field.{key}', run_pred, {'key': ConstT(key.split('.')[0]), 'op': EnumT(OP, ops), 'expected': expected, 'covid': ConstT(None), 'course': course_t}, {'reads-the-field': means},
             statement=f'a clause on {key} compares that property of the course and nothing else')


field('attributes', word, MEMBER, lambda c: c.attributes)
field('attribute', word, MEMBER, lambda c: c.attributes)
field('clbid', words, MEMBER, lambda c: c.clbid)
field('course', words, MEMBER, lambda c: c.identity_)
field('credits', RealT(), ORDERED, lambda c: c.credits)
field('crsid', words, MEMBER, lambda c: c.crsid)
field('gereqs', word, MEMBER, lambda c: c.gereqs)
field('grade_option', EnumT(GradeOption), [OP.EqualTo, OP.NotEqualTo], lambda c: c.grade_option)
field('institution', words, MEMBER, lambda c: c.institution)
field('is_in_gpa', BoolT(), [OP.EqualTo, OP.NotEqualTo], lambda c: c.is_in_gpa)
field('is_in_progress', BoolT(), [OP.EqualTo, OP.NotEqualTo], lambda c: c.is_in_progress)
field('is_stolaf', BoolT(), [OP.EqualTo, OP.NotEqualTo], lambda c: c.is_stolaf)
field('lab', BoolT(), [OP.EqualTo, OP.NotEqualTo], lambda c: c.is_lab)
field('level', IntT(pool=(100, 200, 300)), ORDERED, lambda c: c.level)
field('name', words, MEMBER, lambda c: c.name)
field('number', words, MEMBER, lambda c: c.number)
field('semester', words, MEMBER, lambda c: c.term)
field('type', StrT(('Lab', 'Flac', 'Normal')), [OP.EqualTo, OP.NotEqualTo], lambda c: c.sub_type.name)
field('course_type', StrT(('AP', 'Semester')), [OP.EqualTo, OP.NotEqualTo], lambda c: c.course_type.name)
field('year', IntT(pool=(2017, 2018, 2019)), ORDERED, lambda c: c.year)


def subject_of(c):
    """CH/BI 125 and 126 count as CHEM, 127 and 227 as BIO."""
    if c.is_chbi_ is None:
        return c.subject
    return 'CHEM' if c.is_chbi_ in (125, 126) else 'BIO'


field('subject', words, MEMBER, subject_of)


def ap_exam(op, expected, course, result):
    if course.course_type is not CourseType.AP:
        return result is False
    return result == apply_operator(op=op, lhs=course.name, rhs=expected)


Contract('C10', 'field.ap', run_pred, {'key': ConstT('ap'), 'op': EnumT(OP, MEMBER[:2]), 'expected': StrT(('Foo', 'Bar')), 'covid': ConstT(None), 'course': course_t}, {'only-ap': ap_exam},
         statement='an ap clause matches only AP credit, by name')


def grade_clause(op, expected, covid, course, result):
    if not course.is_during_covid:
        return result == apply_operator(op=op, lhs=course.grade_code, rhs=expected)
    value = course.grade_code
    if value is GradeCode._S and course.su_grade_code is not None:
        value = course.su_grade_code
    bar = expected if covid is None else covid
    return result == apply_operator(op=op, lhs=value, rhs=bar)


Contract('C10', 'field.grade', run_pred, {'key': ConstT('grade'), 'op': EnumT(OP, ORDERED), 'expected': EnumT(GradeCode), 'covid': OptT(EnumT(GradeCode)), 'course': course_t}, {'grade': grade_clause},
         statement='a grade clause compares the grade, except that in the COVID term an S reveals the underlying grade and a covid-specific bar applies if the clause has one', gen_n=4)

# ------------------------------------------------------------------ areas
area_t = register(AreaPointer, ObjT(AreaPointer, {'code': StrT(('110', '120')), 'status': EnumT(AreaStatus), 'kind': EnumT(AreaType), 'name': StrT(('Foo', 'Bar')), 'degree': StrT(('B.A.', 'B.M.')),
                                                  'dept': OptT(StrT()), 'gpa': OptT(RealT(lo=0)), 'terms_since_declaration': OptT(IntT(lo=0))}))


def area_field(key, expected, ops, value, sfx=''):
    def means(op, expected, area, result):
        return result == apply_operator(op=op, lhs=value(area), rhs=expected)
    Contract('C10', f'area.{key}{sfx}', lambda key, op, expected, area: pc.Predicate(key=key, expected=expected, original=expected, operator=op, during_covid=None).apply(area),
             {'key': ConstT(key), 'op': EnumT(OP, ops), 'expected': expected, 'area': area_t}, {'reads-the-field': means}, statement=f'a clause on {key} compares that property of the area')


area_field('code', StrT(('110', '120')), MEMBER[:2], lambda a: a.code)
area_field('code', SeqT(StrT(('110', '120'))), MEMBER, lambda a: a.code, '.list')
area_field('status', StrT(('Declared', 'WhatIf')), MEMBER[:2], lambda a: a.status.name)
area_field('kind', StrT(('Major', 'Degree')), MEMBER[:2], lambda a: a.kind.name)
area_field('type', StrT(('Major', 'Degree')), MEMBER[:2], lambda a: a.kind.name)
area_field('name', StrT(('Foo', 'Bar')), MEMBER[:2], lambda a: a.name)
area_field('degree', StrT(('B.A.', 'B.M.')), MEMBER[:2], lambda a: a.degree)
area_field('gpa', RealT(), ORDERED, lambda a: a.gpa)

# ------------------------------------------------------------------ music
from dp.data.music import MusicPerformance, MusicAttendance, MusicPerformanceStatus
SLIP = {'year': IntT(lo=2000, pool=(2018, 2019)), 'id': StrT(('1', '2')), 'term': IntT(lo=1, pool=(1, 2, 3)), 'name': StrT(('Violin', 'Piano'))}
perf_t = ObjT(MusicPerformance, {**SLIP, 'role': OptT(StrT(('Lead', 'Accompanist'))), 'status': OptT(EnumT(MusicPerformanceStatus))})
att_t = ObjT(MusicAttendance, SLIP)


def slip_field(key, item_t, expected, ops, value, nm):
    def means(op, expected, item, result):
        v = value(item)
        return result == (v is not None and apply_operator(op=op, lhs=v, rhs=expected))
    Contract('C10', f'{nm}.{key}', lambda key, op, expected, item: pc.Predicate(key=key, expected=expected, original=expected, operator=op, during_covid=None).apply(item),
             {'key': ConstT(key), 'op': EnumT(OP, ops), 'expected': expected, 'item': item_t}, {'reads-the-field': means}, statement=f'a clause on {key} compares that property of the {nm}', requires=lambda item: getattr(item, 'role', None) != '')


slip_field('status', perf_t, StrT(('entrance', 'continuance')), MEMBER[:2], lambda p: p.status.value if p.status is not None else None, 'performance')
slip_field('role', perf_t, StrT(('Lead', 'Accompanist')), MEMBER[:2], lambda p: p.role, 'performance')
slip_field('name', att_t, StrT(('Violin', 'Piano')), MEMBER[:2], lambda p: p.name, 'recital')
slip_field('year', att_t, IntT(lo=2000, pool=(2018, 2019)), ORDERED, lambda p: p.year, 'recital')
slip_field('term', att_t, IntT(lo=1, pool=(1, 2, 3)), ORDERED, lambda p: p.term, 'recital')
