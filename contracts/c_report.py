"""C25: the record made of a result says what the result is."""
from contracts.common import *
from contracts.c_status import count_t, query_fields, course_res_t, course_status, req_fields, req_defined, prof_t, cond_t
from contracts.c_assertions import assertion, KEY, DT
from dp.base.count import BaseCountRule
from dp.area import AreaResult
from contracts.c_area import actx_t
from dp.base.query import BaseQueryRule
from dp.result.count import CountResult
from dp.result.query import QueryResult
from dp.result.requirement import RequirementResult
from dp.result.conditional import ConditionalResult
from dp.result.proficiency import ProficiencyResult
from dp.result.course import CourseResult
from dp.assertion_clause import Assertion, ConditionalAssertion, DynamicConditionalAssertion
from dp.predicate_clause import Predicate, PredicateCompoundAnd, PredicateCompoundOr, PredicateNot, ConditionalPredicate
import dp.conditional_expression as X
import dp.exception as E
from dp.limit import Limit, LimitSet, AtMostWhat
from dp.op import Operator
from dp.data.clausable import Clausable, ClausableIdentifier
from dp.data.music import MusicPerformance, MusicAttendance, MusicPerformanceStatus
from dp.data.area_pointer import AreaPointer
from dp.data.area_enums import AreaStatus, AreaType
from pyvc.boot import restore_class_cells
restore_class_cells()

REPORTS = 'the record of a result states what the result is'
# the record of a part stands for the part
RECORD = Meth(StrT(('r1', 'r2', 'r3', 'r4')))
rnode_t = ObjT(Base, abstract=True, name='ReportNode', methods={'status': Meth(EnumT(RS)), 'rank': RANK, 'claims': Meth(SeqT(claim_t, kind='list', maxlen=2)), 'to_dict': RECORD})
rpart_t = ObjT(Base, abstract=True, name='ReportPart', fields={'result': OptT(BoolT())}, methods={'status': Meth(EnumT(RS)), 'rank': RANK, 'to_dict': RECORD})


def records(parts):
    return [p.to_dict() for p in parts]


def as_found(self, result, kind):
    """What the record of every node says."""
    return (result['path'] == list(self.path) and result['type'] == kind and result['state'] == 'result' and result['status'] == self.status().value
            and Decimal(result['rank']) == self.rank()[0] and Decimal(result['max_rank']) == self.rank()[1] and result['overridden'] == self.overridden)


def course_report(self, result):
    return as_found(self, result, 'course')


def course_wanted(self, result):
    return (result['course'] == self.course and result['clbid'] == self.clbid and result['crsid'] == self.crsid and result['ap'] == self.ap and result['institution'] == self.institution
            and result['name'] == self.name and (result['grade'] is None if self.grade is None else Decimal(result['grade']) == self.grade)
            and result['grade_option'] == (None if self.grade_option is None else str(self.grade_option)) and result['year'] == self.year
            and result['term'] == self.term and result['section'] == self.section and result['sub_type'] == self.sub_type)


def course_flags(self, result):
    return (result['hidden'] == self.hidden and result['allow_claimed'] == self.allow_claimed and result['from_claimed'] == self.from_claimed and result['optional'] == self.optional
            and result['inserted'] == self.inserted and result['forced'] == self.forced and result['auto_waived'] == self.auto_waived
            and result['matched_scedid'] == (None if self.matched_course is None else self.matched_course.schedid))


def course_claim(self, result):
    """The course that counts is named, and a claim that failed is not."""
    c = self.claim_attempt
    if c is None or c.failed:
        return result['claims'] == []
    return len(result['claims']) == 1 and result['claims'][0]['clbid'] == c.course.clbid and result['claims'][0]['crsid'] == c.course.crsid and result['claims'][0]['claimed_by'] == c.claimed_by


Contract('C25', 'report.course', lambda self: self.to_dict(), {'self': course_res_t}, {'as-found': course_report, 'wanted': course_wanted, 'flags': course_flags, 'claim': course_claim}, statement=REPORTS)


# ------------------------------------------------------------------ count
rcount_t = RecT(CountResult, {'path': path_t, 'overridden': BoolT(), 'count': IntT(lo=0), 'items': SeqT(rnode_t, maxlen=4), 'audit_clauses': SeqT(rpart_t, maxlen=3), 'at_most': BoolT()})


def of_the_node(name, type_, prop):
    """A method of the one node of its class in the contract, by its own contract: some value, the same each time."""
    def summary(vm, args, kwargs):
        if len(args) != 1 or kwargs:
            raise Unsupported(f'{name} called with other arguments')
        vm.abstracted.add(f'node:{name}')
        vm.used_models.add(f'{name} by its {prop} contract')
        return type_.sym(vm, f'node:{name}', [])
    return summary


COUNT_STATUS = {BaseCountRule.status: of_the_node('count.status', EnumT(RS), 'C01'), BaseCountRule.audit_status: of_the_node('count.audit_status', EnumT(RS), 'C01')}


def count_parts(self, result):
    return result['count'] == self.count and result['at_most'] == self.at_most and result['items'] == records(self.items) and result['audit'] == records(self.audit_clauses)


Contract('C25', 'report.count', lambda self: self.to_dict(), {'self': rcount_t},
         {'path': lambda self, result: result['path'] == list(self.path) and result['type'] == 'count' and result['state'] == 'result' and result['overridden'] == self.overridden,
          'status': lambda self, result: result['status'] == self.status().value, 'rank': lambda self, result: Decimal(result['rank']) == self.rank()[0], 'max-rank': lambda self, result: Decimal(result['max_rank']) == self.rank()[1],
          'parts': count_parts, 'audit-status': lambda self, result: result['audit_status'] == self.audit_status().value},
         requires=lambda self: not (self.at_most and self.count == 1 and len(self.items) == 0), eq_positive=True, summaries=COUNT_STATUS, statement=REPORTS)


# ------------------------------------------------------------------ query
QUERY_STATUS = {BaseQueryRule.status: of_the_node('query.status', EnumT(RS), 'C01')}
limits_t = ObjT(LimitSet, {}, abstract=True, name='ReportLimits', methods={'to_dict': RECORD})
rquery_t = RecT(QueryResult, {**query_fields, 'assertions': SeqT(rpart_t, maxlen=3), 'where': OptT(rpart_t), 'limit': limits_t})


def claim_records(claims):
    return [{'crsid': c.course.crsid, 'clbid': c.course.clbid, 'claimed_by': c.claimed_by} for c in claims]


def query_says(self, result):
    return (result['source'] == self.source.value and result['data-type'] == self.data_type.value and result['limit'] == self.limit.to_dict() and result['assertions'] == records(self.assertions)
            and result['where'] == (None if self.where is None else self.where.to_dict()) and result['include_failed'] == self.include_failed and result['allow_claimed'] == self.allow_claimed)


def query_claims(self, result):
    return result['claims'] == claim_records(self.successful_claims) and result['failures'] == claim_records(self.failed_claims)


Contract('C25', 'report.query', lambda self: self.to_dict(), {'self': rquery_t},
         {'as-found': lambda self, result: as_found(self, result, 'query'), 'says': query_says, 'claims': query_claims, 'inserted': lambda self, result: result['inserted'] == list(self.inserted),
          'output': lambda self, result: result['output'] == [{'type': 'class', 'key': 'scedid', 'value': c.schedid} for c in self.output]},
         eq_positive=True, summaries=QUERY_STATUS, statement=REPORTS)


# ------------------------------------------------------------------ requirement, conditional, proficiency
rreq_t = RecT(RequirementResult, {**req_fields, 'result': OptT(rnode_t, p=0.2)})


def req_says(self, result):
    return (result['name'] == self.name and result['message'] == self.message and result['is_audited'] == self.is_audited and result['is_contract'] == self.is_contract
            and result['is_disjoint'] == self.disjoint and result['in_gpa'] == self.in_gpa and result['result'] == (None if self.result is None else self.result.to_dict()))


Contract('C25', 'report.requirement', lambda self: self.to_dict(), {'self': rreq_t}, {'as-found': lambda self, result: as_found(self, result, 'requirement'), 'says': req_says}, statement=REPORTS)

rcond_t = RecT(ConditionalResult, {'path': path_t, 'overridden': BoolT(), 'condition': rpart_t, 'when_true': rnode_t, 'when_false': OptT(rnode_t)})
Contract('C25', 'report.conditional', lambda self: self.to_dict(), {'self': rcond_t},
         {'as-found': lambda self, result: as_found(self, result, 'conditional'),
          'branches': lambda self, result: result['condition'] == self.condition.to_dict() and result['when_true'] == self.when_true.to_dict() and result['when_false'] == (None if self.when_false is None else self.when_false.to_dict())}, statement=REPORTS)

rprof_t = RecT(ProficiencyResult, {'path': path_t, 'overridden': BoolT(), 'proficiency': StrT(), 'course': OptT(rnode_t), 'proficiency_status': EnumT(RS)})
Contract('C25', 'report.proficiency', lambda self: self.to_dict(), {'self': rprof_t},
         {'as-found': lambda self, result: as_found(self, result, 'proficiency'),
          'says': lambda self, result: result['proficiency'] == self.proficiency and result['proficiency_status'] == self.proficiency_status.value and result['course'] == (None if self.course is None else self.course.to_dict())}, statement=REPORTS)


# ------------------------------------------------------------------ area
rtree_t = ObjT(CountResult, abstract=True, name='ReportTree', methods={'status': Meth(EnumT(RS)), 'rank': RANK, 'is_waived': Meth(BoolT()), 'to_dict': RECORD, 'claims_for_gpa': Meth(SeqT(claim_t, kind='list', maxlen=3))})
AREA_GPA = {AreaResult.gpa: of_the_node('area.gpa', RealT(lo=0), 'C22')}
rarea_t = RecT(AreaResult, {'name': StrT(), 'kind': StrT(('degree', 'major', 'concentration')), 'degree': OptT(StrT(('B.A.', 'B.M.'))), 'dept': OptT(StrT()), 'code': StrT(), 'limit': limits_t, 'result': rtree_t,
                            'multicountable': ConstT(lambda: {}), 'path': path_t, 'common_rules': ConstT(()), 'excluded_clbids': ConstT(frozenset()), 'overridden': BoolT(), 'context': actx_t, 'version': ConstT(3)})


def area_says(self, result):
    return (result['name'] == self.name and result['kind'] == self.kind and result['code'] == self.code and result['degree'] == self.degree and result['result'] == self.result.to_dict()
            and result['limit'] == self.limit.to_dict() and result['version'] == self.version)


Contract('C25', 'report.area', lambda self: self.to_dict(), {'self': rarea_t},
         {'as-found': lambda self, result: as_found(self, result, 'area'), 'says': area_says, 'gpa': lambda self, result: Decimal(result['gpa']) == self.gpa(),
          'ok': lambda self, result: result['ok'] == (self.status() in W_D)}, summaries=AREA_GPA, statement='an area is reported ok exactly when it is waived or done, with its status, rank and GPA')

# ------------------------------------------------------------------ assertions
rassert_t = assertion(KEY, DT.Course, operator=EnumT(Operator), where=OptT(rpart_t), expected=RealT(lo=0, pool=('0', '1', '2', '2.0')), original=OptT(RealT(lo=0, pool=('0', '1', '2', '2.0'))),
                      overridden=BoolT(), message=OptT(StrT(('m', ''))), label=OptT(StrT(('l', ''))), resolved=OptT(RealT(lo=0, pool=('0', '1', '2.5'))), resolved_items=OptT(SeqT(StrT(('x', 'y', 'z')), maxlen=3)),
                      resolved_clbids=OptT(SeqT(StrT(CLBIDS), maxlen=3)), inserted_clbids=OptT(SeqT(StrT(CLBIDS), maxlen=3)))
rassert_t = ObjT(Assertion, {**rassert_t.fields, 'key': StrT(('count(courses)', 'sum(credits)')), 'data_type': EnumT(DT), 'operator': EnumT(Operator)})


def assert_says(self, result):
    return (result['type'] == 'assertion' and result['path'] == list(self.path) and result['status'] == self.state.value and Decimal(result['rank']) == self.rank()[0] and Decimal(result['max_rank']) == self.rank()[1]
            and result['where'] == (None if self.where is None else self.where.to_dict()) and result['key'] == self.key and result['operator'] == self.operator.name
            and result['data-type'] == self.data_type.value and result['evaluated'] == self.evaluated)


def assert_expected(self, result):
    """The number asked for, and the original one beside it when an exception changed it."""
    if Decimal(result['expected']) != self.expected:
        return False
    if self.original is None:
        return 'original' not in result
    if self.original != self.expected:
        return 'original' in result and Decimal(result['original']) == self.original
    return 'original' not in result or Decimal(result['original']) == self.original


def assert_reached(self, result):
    return result['resolved'] is None if self.resolved is None else Decimal(result['resolved']) == self.resolved


def same_members(said, held):
    if held is None:
        return said == []
    return len(said) == len(held) and all(x in held for x in said) and all(x in said for x in held)


def assert_told(self, result):
    """A label and a message are stated if there are any."""
    return (('label' in result) == (self.label is not None and self.label != '') and ('label' not in result or result['label'] == self.label)
            and ('message' in result) == (self.message is not None and self.message != '') and ('message' not in result or result['message'] == self.message))


Contract('C25', 'report.assertion', lambda self: self.to_dict(), {'self': rassert_t},
         {'says': assert_says, 'expected': assert_expected, 'reached': assert_reached, 'told': assert_told,
          'courses': lambda self, result: same_members(result['resolved_clbids'], self.resolved_clbids), 'inserted': lambda self, result: same_members(result['inserted_clbids'], self.inserted_clbids),
          'items': lambda self, result: same_members(result['resolved_items'], self.resolved_items)},
         summaries={Assertion.rank: of_the_node('assertion.rank', RANK.result, 'C03')}, statement='an assertion reports what was asked for, what was found, and by which courses')

rif_t = ObjT(ConditionalAssertion, {'path': path_t, 'condition': rpart_t, 'when_true': rpart_t, 'when_false': OptT(rpart_t)})
rwhen_t = ObjT(DynamicConditionalAssertion, {'path': path_t, 'condition': rpart_t, 'when_true': rpart_t})
Contract('C25', 'report.assertion-if', lambda self: self.to_dict(), {'self': rif_t},
         {'says': lambda self, result: result == {'type': 'assertion--if', 'path': list(self.path), 'condition': self.condition.to_dict(), 'when_true': self.when_true.to_dict(), 'when_false': None if self.when_false is None else self.when_false.to_dict()}}, eq_positive=True, statement=REPORTS)
Contract('C25', 'report.assertion-when', lambda self: self.to_dict(), {'self': rwhen_t},
         {'says': lambda self, result: result == {'type': 'assertion--when', 'path': list(self.path), 'condition': self.condition.to_dict(), 'when_true': self.when_true.to_dict()}}, eq_positive=True, statement=REPORTS)


# ------------------------------------------------------------------ conditions and clauses
def plain(name, cls, fields, says, **kw):
    """The record of an object which holds nothing computed."""
    Contract('C25', f'report.{name}', lambda self: self.to_dict(), {'self': RecT(cls, fields)}, {'says': lambda self, result: result == says(self)}, eq_positive=True, statement=REPORTS, **kw)


def whole_list(kind):
    def says(self):
        return {'type': kind, 'expressions': records(self.expressions), 'result': self.result}
    return says


for _name, _cls, _kind in (('expr-and', X.PredicateExpressionCompoundAnd, 'pred-expr--and'), ('expr-or', X.PredicateExpressionCompoundOr, 'pred-expr--or'),
                           ('dyn-expr-and', X.DynamicPredicateExpressionCompoundAnd, 'pred-dyn-expr--and'), ('dyn-expr-or', X.DynamicPredicateExpressionCompoundOr, 'pred-dyn-expr--or')):
    plain(_name, _cls, {'expressions': SeqT(rpart_t, maxlen=3), 'result': OptT(BoolT())}, whole_list(_kind))
plain('expr-not', X.PredicateExpressionNot, {'expression': rpart_t, 'result': OptT(BoolT())}, lambda self: {'type': 'pred-expr--not', 'expression': self.expression.to_dict(), 'result': self.result})
plain('expr', X.PredicateExpression, {'function': EnumT(X.PredicateExpressionFunction), 'argument': StrT(), 'result': OptT(BoolT())},
      lambda self: {'type': 'pred-expr', 'function': self.function.value, 'argument': self.argument, 'result': self.result})
plain('dyn-expr', X.DynamicPredicateExpression, {'function': EnumT(X.DynamicPredicateExpressionFunction), 'argument': StrT(), 'result': OptT(BoolT())},
      lambda self: {'type': 'pred-dyn-expr', 'function': self.function.value, 'argument': self.argument, 'result': self.result})
plain('where-and', PredicateCompoundAnd, {'predicates': SeqT(rpart_t, maxlen=3)}, lambda self: {'type': 'pred--and', 'predicates': records(self.predicates)})
plain('where-or', PredicateCompoundOr, {'predicates': SeqT(rpart_t, maxlen=3)}, lambda self: {'type': 'pred--or', 'predicates': records(self.predicates)})
plain('where-not', PredicateNot, {'predicate': rpart_t}, lambda self: {'type': 'pred--not', 'predicate': self.predicate.to_dict()})
plain('where-if', ConditionalPredicate, {'condition': rpart_t, 'when_true': rpart_t, 'when_false': OptT(rpart_t), 'hide_branching': BoolT()},
      lambda self: {'type': 'pred--if', 'condition': self.condition.to_dict(), 'when_true': self.when_true.to_dict(), 'when_false': None if self.when_false is None else self.when_false.to_dict(), 'hide_branching': self.hide_branching})


def written(v):
    """A value as it is written: a grade or grade option as its name, a number as text."""
    return v.value if isinstance(v, (GradeOption, GradeCode)) else v


def where_says(self, result):
    return (result['type'] == 'predicate' and result['key'] == self.key and result['operator'] == self.operator.name and result['expected'] == written(self.expected)
            and (result['original'] == written(self.original) if 'original' in result else written(self.original) == written(self.expected)))


for _name, _t in (('text', StrT(('a', 'b'))), ('option', EnumT(GradeOption)), ('grade', EnumT(GradeCode)), ('number', IntT(pool=(1, 2))), ('flag', BoolT())):
    Contract('C25', f'report.where.{_name}', lambda self: self.to_dict(), {'self': RecT(Predicate, {'key': StrT(('subject', 'level')), 'expected': _t, 'original': _t, 'operator': EnumT(Operator), 'during_covid': OptT(_t)})},
             {'says': where_says}, statement=REPORTS)
plain('limits', LimitSet, {'limits': SeqT(rpart_t, maxlen=3)}, lambda self: records(self.limits))


def limit_says(self, result):
    return result['type'] == 'limit' and Decimal(result['at_most']) == self.at_most and result['at_most_what'] == self.at_most_what.name and result['where'] == self.where.to_dict() and result['message'] == self.message


Contract('C25', 'report.limit', lambda self: self.to_dict(), {'self': RecT(Limit, {'at_most': RealT(lo=0, pool=('1', '2.0')), 'at_most_what': EnumT(AtMostWhat), 'where': rpart_t, 'message': OptT(StrT())})}, {'says': limit_says}, statement=REPORTS)
plain('claim', Claim, {'course': course_t, 'claimed_by': path_t, 'failed': BoolT()}, lambda self: {'crsid': self.course.crsid, 'clbid': self.course.clbid, 'claimed_by': self.claimed_by})

# ------------------------------------------------------------------ exceptions
_exc = {'path': path_t, 'type': EnumT(E.ExceptionAction)}
plain('exc.insert', E.InsertionException, {**_exc, 'clbid': StrT(CLBIDS), 'forced': BoolT()}, lambda self: {'path': list(self.path), 'type': self.type.value, 'clbid': self.clbid, 'forced': self.forced})
plain('exc.block', E.BlockException, {**_exc, 'clbid': StrT(CLBIDS)}, lambda self: {'path': list(self.path), 'type': self.type.value, 'clbid': self.clbid})
plain('exc.override', E.OverrideException, {**_exc, 'status': EnumT(RS)}, lambda self: {'path': list(self.path), 'type': self.type.value, 'status': self.status.value})
plain('exc.subject', E.CourseSubjectOverride, {**_exc, 'clbid': StrT(CLBIDS), 'subject': StrT()}, lambda self: {'path': list(self.path), 'type': self.type.value, 'clbid': self.clbid, 'subject': self.subject})


def with_number(key):
    def says(self, result):
        return result['path'] == list(self.path) and result['type'] == self.type.value and Decimal(result[key]) == (self.value if key == 'value' else self.credits) and (key == 'value' or result['clbid'] == self.clbid)
    return says


Contract('C25', 'report.exc.value', lambda self: self.to_dict(), {'self': RecT(E.ValueException, {**_exc, 'value': RealT(lo=0)})}, {'says': with_number('value')}, statement=REPORTS)
Contract('C25', 'report.exc.credits', lambda self: self.to_dict(), {'self': RecT(E.CourseCreditOverride, {**_exc, 'clbid': StrT(CLBIDS), 'credits': RealT(lo=0)})}, {'says': with_number('credits')}, statement=REPORTS)


# ------------------------------------------------------------------ courses, music, areas
def course_record(self, result):
    return (result['attributes'] == list(self.attributes) and result['clbid'] == self.clbid and result['crsid'] == self.crsid and result['course_type'] == self.course_type.value and result['gereqs'] == list(self.gereqs)
            and result['grade_code'] == self.grade_code.value and result['grade_option'] == self.grade_option.value and result['institution_short'] == self.institution and result['level'] == self.level
            and result['name'] == self.name and result['number'] == self.number and result['section'] == self.section and result['subject'] == self.subject and result['sub_type'] == self.sub_type.value
            and result['term'] == self.term and result['year'] == self.year and result['transcript_code'] == self.transcript_code.value and result['type'] == 'course')


def course_numbers(self, result):
    return Decimal(result['credits']) == self.credits and Decimal(result['gpa_points']) == self.gpa_points and Decimal(result['grade_points']) == self.grade_points


def course_states(self, result):
    return (result['flag_gpa'] == self.is_in_gpa and result['flag_in_progress'] == self.is_in_progress and result['flag_incomplete'] == self.is_incomplete and result['flag_repeat'] == self.is_repeat
            and result['flag_stolaf'] == self.is_stolaf and result['flag_lab'] == self.is_lab)


Contract('C25', 'report.transcript-course', lambda self: self.to_dict(), {'self': course_t}, {'record': course_record, 'numbers': course_numbers, 'states': course_states}, eq_positive=True, statement='the record of a course carries the data of the course')
plain('area-pointer', AreaPointer, {'code': StrT(), 'status': EnumT(AreaStatus), 'kind': EnumT(AreaType), 'name': StrT(), 'degree': OptT(StrT()), 'dept': OptT(StrT()), 'gpa': OptT(RealT()), 'terms_since_declaration': OptT(IntT())},
      lambda self: {'type': 'area', 'code': self.code, 'status': self.status.name, 'kind': self.kind.name, 'degree': self.degree, 'dept': self.dept, 'name': self.name})
_slip = {'year': IntT(), 'id': StrT(), 'term': IntT(), 'name': StrT()}
plain('music.performance', MusicPerformance, {**_slip, 'role': OptT(StrT()), 'status': OptT(EnumT(MusicPerformanceStatus))}, lambda self: {'type': 'music performance', 'year': self.year, 'term': self.term, 'name': self.name})
plain('music.attendance', MusicAttendance, _slip, lambda self: {'type': 'music attendance', 'year': self.year, 'term': self.term, 'name': self.name})


# ------------------------------------------------------------------ the printed result (bounded: whole audits of random areas)
import json as _json
import attr
from dp.constants import Constants
from dp.area import AreaOfStudy
from dp.audit import audit, Arguments, ResultMsg
from dp.data.course import course_from_str
from dp.data.student import Student
from dp.stringify_v3 import summarize, emojify_course
NAMES = ('AMST 101', 'AMST 210', 'BIO 125', 'ART 101')
OPERATORS = {'LessThan': '<', 'LessThanOrEqualTo': '≤', 'GreaterThan': '>', 'GreaterThanOrEqualTo': '≥', 'EqualTo': '==', 'NotEqualTo': '!=', 'In': '∈', 'NotIn': '∉'}
SIGNS = {'waived': '💜', 'done': '💚', 'pending-current': '💖', 'pending-registered': '🧡', 'needs-more-items': '💙', 'pending-approval': '❓', 'empty': '🌀'}


def any_where(r, depth=0):
    k = r.choice(['one', 'one', 'one', 'not', 'or', 'and', 'if'] if depth < 2 else ['one'])
    if k == 'not':
        return {'$not': any_where(r, depth + 1)}
    if k in ('or', 'and'):
        return {'$' + k: [any_where(r, depth + 1) for _ in range(2)]}
    if k == 'if':
        d = {'$if': any_condition(r), '$then': any_where(r, depth + 1)}
        if r.random() < 0.7:
            d['$else'] = any_where(r, depth + 1)
        return d
    return r.choice([{'subject': {'$eq': 'AMST'}}, {'subject': {'$neq': 'BIO'}}, {'level': {'$gte': 200}}, {'subject': {'$in': ['ART', 'BIO']}}, {'is_in_progress': {'$eq': True}}, {'grade': {'$gte': 'C'}}, {'credits': {'$lt': 1}},
                     {'attributes': {'$neq': 'x'}}, {'is_stolaf': {'$eq': False}}])


def any_condition(r, depth=0):
    k = r.choice(['one', 'one', 'not', 'or', 'and'] if depth < 2 else ['one'])
    if k == 'not':
        return {'$not': any_condition(r, depth + 1)}
    if k in ('or', 'and'):
        return {'$' + k: [any_condition(r, depth + 1) for _ in range(2)]}
    return {r.choice(['has-course', 'has-ip-course', 'has-completed-course']): r.choice(NAMES)}


def any_claim(r, simple=False):
    k = r.random()
    if k < 0.12 and not simple:
        d = {'$if': any_condition(r), '$then': any_claim(r, True)}
        if r.random() < 0.6:
            d['$else'] = any_claim(r, True)
        return d
    if k < 0.24 and not simple:
        return {'$when': {'query-has-course-with-attribute': 'x'}, '$then': any_claim(r, True)}
    d = {'assert': {r.choice(['count(courses)', 'sum(credits)', 'count(terms)']): {r.choice(['$gte', '$gte', '$lte', '$eq']): r.choice([0, 1, 1, 2])}}}
    if r.random() < 0.3:
        d['where'] = any_where(r)
    return d


class Written:
    def __init__(self, r):
        self.r, self.n, self.reqs = r, 0, {}

    def rule(self, depth):
        r = self.r
        k = r.choice(['course', 'query', 'proficiency', 'course'] + (['count', 'count', 'requirement', 'requirement', 'if'] if depth else []))
        if k == 'course':
            d = {'course': r.choice(NAMES)}
            if r.random() < 0.2:
                d['grade'] = 'C'
            return d
        if k == 'proficiency':
            d = {'proficiency': 'Guitar'}
            if r.random() < 0.5:
                d['course'] = {'course': r.choice(NAMES)}
            return d
        if k == 'query':
            d = {'from': 'courses', 'all': [any_claim(r) for _ in range(r.choice([1, 2]))]}
            if r.random() < 0.7:
                d['where'] = any_where(r)
            if r.random() < 0.2:
                d['limit'] = [{'at_most': 1, 'where': any_where(r)}]
            if r.random() < 0.3:
                d['claim'] = False
            return d
        if k == 'if':
            d = {'$if': any_condition(r), '$then': self.rule(depth - 1)}
            if r.random() < 0.6:
                d['$else'] = self.rule(depth - 1)
            return d
        if k == 'count':
            return self.count(depth)
        self.n += 1
        name = f'R{self.n}'
        q = {'result': self.rule(depth - 1)}
        if r.random() < 0.1:
            q = {'department_audited': True} if r.random() < 0.5 else {**q, 'department_audited': True}
        if r.random() < 0.3:
            q['message'] = 'm'
        self.reqs[name] = q
        return {'requirement': name}

    def asks(self, d, path, reqs):
        """The paths of the queries, and of the assertions, of a specification."""
        if 'from' in d:
            here = path + ('.query',)
            for k, a in enumerate(d['all']):
                if 'assert' in a:
                    yield here, here + ('.assertions', f'[{k}]', '.assert')
        elif 'requirement' in d:
            q = reqs[d['requirement']]
            if 'result' in q:
                yield from self.asks(q['result'], path + ('%' + d['requirement'],), reqs)
        elif '$if' in d:
            yield from self.asks(d['$then'], path + ('.cond', '/t'), reqs)
            if '$else' in d:
                yield from self.asks(d['$else'], path + ('.cond', '/f'), reqs)
        elif 'all' in d or 'any' in d:
            for k, x in enumerate(d['all'] if 'all' in d else d['any']):
                yield from self.asks(x, path + ('.count', f'[{k}]'), reqs)

    def count(self, depth):
        r = self.r
        items = [self.rule(depth - 1) for _ in range(r.choice([1, 2, 2, 3]))]
        d = {r.choice(['all', 'any']): items}
        if r.random() < 0.2:
            d['audit'] = {'assert': {'count(courses)': {'$gte': 1}}}
        return d


def printed_env(g):
    r = g.rng
    w = Written(r)
    spec = {'name': 'Art', 'type': 'concentration', 'code': '1', 'result': w.count(2), 'requirements': w.reqs}
    if r.random() < 0.2:
        spec['limit'] = [{'at_most': 2, 'where': {'subject': {'$eq': 'AMST'}}}]
    courses = []
    for k, n in enumerate(NAMES):
        if r.random() < 0.7:
            now = r.random() < 0.2
            c = course_from_str(n, clbid=str(k), in_progress=now, attributes=('x',) if r.random() < 0.3 else (), year=2018, term='1')
            courses.append(attr.evolve(c, is_in_progress_this_term=now and k % 2 == 0, is_in_progress_in_future=now and k % 2 == 1))
    courses = tuple(courses)
    paths = [('$', '%' + n) for n in w.reqs]
    exc = [E.OverrideException(path=p, type=E.ExceptionAction.Override, status=RS.Waived) for p in paths if r.random() < 0.1]
    for p, at in w.asks(spec['result'], ('$',), spec['requirements']):
        if r.random() < 0.15:
            exc.append(E.ValueException(path=at, type=E.ExceptionAction.Value, value=Decimal(r.choice(['1', '2', '3']))))
        if courses and r.random() < 0.15:
            exc.append(E.InsertionException(path=r.choice([p, p, at]), type=E.ExceptionAction.Insert, clbid=r.choice(courses).clbid, forced=False))
    return {'spec': spec, 'courses': courses, 'exceptions': exc}


def print_audit(spec, courses, exceptions):
    student = Student(courses=courses, courses_with_failed=courses)
    area = AreaOfStudy.load(specification=spec, c=Constants(matriculation_year=2000), student=student, exceptions=exceptions)
    found = [m for m in audit(area=area, student=student, args=Arguments(stop_after=20), exceptions=exceptions) if isinstance(m, ResultMsg)][-1]
    data = _json.loads(_json.dumps(found.result.to_dict()))
    text = ''.join(summarize(transcript=found.transcript, result=data, count=1, gen_count=1, elapsed='1', avg_iter_ms=1, claims=found.result.keyed_claims()))
    return text.split('\n'), data, found.result, student


def nodes(x):
    """The nodes of a result, in the order they are printed."""
    yield x
    if x['type'] == 'area' or x['type'] == 'requirement':
        if x['result'] is not None and not x.get('is_audited'):
            yield from nodes(x['result'])
    elif x['type'] == 'count':
        for y in x['items']:
            yield from nodes(y)
    elif x['type'] == 'conditional':
        yield from nodes(x['when_true'])
        if x['when_false'] is not None:
            yield from nodes(x['when_false'])


def requirements_printed(result):
    """Every requirement is printed, in order, with the sign of its status, and that."""
    lines, data, _, _ = result
    said = [line.strip().split(') ', 1)[1] for line in lines if 'Requirement(' in line]
    return said == [f"{SIGNS.get(n['status'], '🚫️')} Requirement({n['name']}) [{n['status']}]" for n in nodes(data) if n['type'] == 'requirement']


def marks_printed(result):
    """Every node is marked passing exactly when it is."""
    lines, data, _, _ = result
    kinds = {'requirement': 'Requirement(', 'count': ' of (these ', 'query': ' There must be:', 'conditional': 'If '}
    passing = [s.value for s in PASSING]
    said = [line.split('|')[2][0] for line in lines if line.strip().startswith('(') and ('Requirement(' in line or ' (ok: ' in line)]
    return said == ['t' if n['status'] in passing else 'f' for n in nodes(data) if n['type'] in ('requirement', 'count')]


def paths_printed(result):
    """Every node appears under its path, in order."""
    lines, data, _, _ = result
    said = [line.strip() for line in lines if line.strip().startswith('["$"')]
    want = [_json.dumps(n['path']) for n in nodes(data)]
    return [x for x in said if x in want] == want if len(set(want)) == len(want) and not any(n['type'] == 'proficiency' for n in nodes(data)) else all(x in said for x in want)


def claims_printed(result):
    """The claimed courses are listed, each with every requirement which claimed it."""
    lines, data, area, _ = result
    said = lines[lines.index('Claimed courses:') + 1:]
    want = [f'  - {c.course_with_term()} "{c.name}" at ' for c in (k.course for k in area.claims() if not k.failed)]
    return all(any(s.startswith(w) for s in said) for w in want) and len([s for s in said if s]) == len(want)


def asked_of(node):
    a = node['assertions'] if node['type'] == 'query' else node['audit'] if node['type'] == 'count' else []
    for x in a:
        yield from asserted(x)


def asserted(x):
    if x['type'] == 'assertion':
        yield x
    else:
        yield from asserted(x['when_true'])
        if x.get('when_false'):
            yield from asserted(x['when_false'])


def asked_printed(result):
    """Every assertion is printed, in order, with its sign, what it reached, what it asks for, and its status."""
    lines, data, _, _ = result
    said = [line.split(' - ', 1)[1] for line in lines if ' - ' in line and line.strip().startswith('(') and line.endswith(']')]
    want = [f"{SIGNS.get(a['status'], '🚫️')} {a['key']}{'' if a['resolved'] is None else ' [' + repr(a['resolved']) + ']'} {OPERATORS[a['operator']]} {a['expected']}{' [via ' + repr(a['original']) + ']' if 'original' in a else ''} [{a['status']}]" for n in nodes(data) for a in asked_of(n)]
    return said == want


def blocks(lines, header, want):
    """Whether the lines below each such header are those wanted, block by block."""
    at = [k for k, line in enumerate(lines) if line.strip() == header]
    return len(at) == len(want) and all([x.strip() for x in lines[k + 1:k + 1 + len(w)]] == w for k, w in zip(at, want))


def counted_printed(result):
    """Below every assertion, in order, the courses which count for it; inserted ones are marked."""
    lines, data, _, student = result
    known = {c.clbid: c for c in student.courses}
    want = []
    for n in nodes(data):
        for a in asked_of(n):
            if a['resolved_clbids']:
                ins = set(a['inserted_clbids']) | set(n['inserted'] if n['type'] == 'query' else ())
                want.append([f"-{' [ins]' if c in ins else ''} {emojify_course(known[c])} {known[c].verbose()}" for c in sorted(a['resolved_clbids'])])
    return blocks(lines, 'resolved courses:', want)


def matching_printed(result):
    """Every query lists the courses it claims, in order; inserted ones are marked."""
    lines, data, _, student = result
    known = {c.clbid: c for c in student.courses}
    want = [[f"{'[ins] ' if k['clbid'] in n['inserted'] else ''}{emojify_course(known[k['clbid']])} {known[k['clbid']].verbose()}" for k in n['claims']] for n in nodes(data) if n['type'] == 'query' and n['claims']]
    return blocks(lines, 'Matching courses:', want)


def counts_printed(result):
    """Every count says how many of its parts are done, and how many it needs."""
    lines, data, _, _ = result
    said = [line.split(' (ok: ')[1] for line in lines if ' (ok: ' in line]
    return said == [f"{sum(1 for x in n['items'] if x['status'] in ('done', 'waived'))}; need: {n['count']})" for n in nodes(data) if n['type'] == 'count']


def limits_printed(result):
    lines, data, _, _ = result
    said = [line.strip().split(' where ')[0] for line in lines if line.strip().startswith('- at most ')]
    return said == [f"- at most {x['at_most']} {x['at_most_what']}" for n in nodes(data) if n['type'] in ('query', 'area') for x in n['limit']]


Contract('C25', 'report.text', print_audit, {'spec': ConstT(None), 'courses': ConstT(None), 'exceptions': ConstT(None)},
         {'requirements': requirements_printed, 'marks': marks_printed, 'paths': paths_printed, 'asked': asked_printed, 'counted': counted_printed, 'matching': matching_printed, 'counts': counts_printed, 'limits': limits_printed, 'claims': claims_printed, 'record': lambda result: result[1]['ok'] == (result[2].status() in W_D) and result[1]['status'] == result[2].status().value},
         gen=printed_env, mode='bounded', gen_n=3, note='areas of depth 2 and up to 4 courses', functions=['dp.stringify_v3:summarize', 'dp.stringify_v3:print_result'], statement='the printed result shows every part of the result with its status')


# ------------------------------------------------------------------ the signs (proved)
from dp.stringify_v3 import calculate_emoji, emojify_course, claimed_path
from dp.op import str_operator
Contract('C25', 'report.sign', lambda status: calculate_emoji({'status': status.value}), {'status': EnumT(RS)}, {'of-the-status': lambda status, result: result == SIGNS.get(status.value, '🚫️')}, statement='every status is shown by a sign of its own')
Contract('C25', 'report.operator', lambda op: str_operator(op.name), {'op': EnumT(Operator)}, {'of-the-operator': lambda op, result: result == OPERATORS[op.name]}, statement='every operator is shown by its own sign')


def course_sign(course, status, result):
    if status is RS.Waived:
        return result == ('💜 [wvd]' if course is None else '💜 [ovr]')
    if course is None:
        return result == '🌀      '
    if course.is_incomplete:
        return result == '⛔️ [dnf]'
    if course.is_in_progress_this_term:
        return result == '💖 [ip!]'
    if course.is_in_progress_in_future:
        return result == '🧡 [ip-]'
    if course.is_in_progress:
        return result == '💙 [ip?]'
    return result == ('💕 [rep]' if course.is_repeat else '💚 [ ok]')


Contract('C25', 'report.course-sign', lambda course, status: emojify_course(course, status.value), {'course': OptT(course_t), 'status': EnumT(RS)}, {'of-the-course': course_sign}, statement='a course is shown as finished only when it is')
