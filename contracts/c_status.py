"""Status and rank of every kind of result node."""
from contracts.common import *
import dp.base.count as m_count
import dp.base.query as m_query
import dp.base.course as m_course
import dp.base.requirement as m_req
import dp.base.conditional as m_cond
import dp.base.proficiency as m_prof
from dp.result.count import CountResult
from dp.result.query import QueryResult
from dp.result.course import CourseResult
from dp.result.requirement import RequirementResult
from dp.result.conditional import ConditionalResult
from dp.result.proficiency import ProficiencyResult
from dp.base.query import QuerySource
from dp.data_type import DataType
from dp.limit import LimitSet

# ------------------------------------------------------------------ count
count_t = RecT(CountResult, {'path': path_t, 'overridden': BoolT(), 'count': IntT(lo=0), 'items': SeqT(child_t, maxlen=4), 'audit_clauses': SeqT(clause_t, maxlen=3), 'at_most': BoolT()})


def count_passing(self, result):
    kids = [i.status() for i in self.items]
    auds = [a.status() for a in self.audit_clauses]
    if self.overridden:
        return result is RS.Waived
    if any(s is RS.FailedInvariant for s in kids) or any(s is RS.FailedInvariant for s in auds):
        return result is RS.FailedInvariant
    n = len([s for s in kids if s in PASSING])
    started = any(s not in (RS.Empty, RS.PendingApproval) for s in kids)
    if n >= self.count and started and all(a in PASSING for a in auds):
        return result in PASSING
    return result not in PASSING and result is not RS.FailedInvariant


def count_strength(self, result):
    """A passing status is as final as the weakest of the children that pass and the audits."""
    if self.overridden or result not in PASSING:
        return True
    kids = [i.status() for i in self.items]
    parts = [s for s in kids if s in PASSING] + [a.status() for a in self.audit_clauses]
    if any(s is RS.PendingRegistered for s in parts):
        return result is RS.PendingRegistered
    if any(s is RS.PendingCurrent for s in parts):
        return result is RS.PendingCurrent
    if any(s is RS.Done for s in parts):
        return result is RS.Done
    if any(s is RS.Waived for s in kids):
        return result is RS.Waived
    return result in W_D


def audits_said(self, result):
    auds = [a.status() for a in self.audit_clauses]
    if self.overridden:
        return result is RS.Waived
    if any(s is RS.FailedInvariant for s in auds):
        return result is RS.FailedInvariant
    if all(s in PASSING for s in auds):
        if any(s is RS.PendingRegistered for s in auds):
            return result is RS.PendingRegistered
        if any(s is RS.PendingCurrent for s in auds):
            return result is RS.PendingCurrent
        if any(s is RS.Done for s in auds):
            return result is RS.Done
        return result is RS.Waived
    if all(s is RS.Empty for s in auds):
        return result is RS.Empty
    return result not in PASSING and result is not RS.FailedInvariant


def count_unstarted(self, result):
    if self.overridden:
        return True
    kids = [i.status() for i in self.items]
    auds = [a.status() for a in self.audit_clauses]
    if RS.FailedInvariant in kids or RS.FailedInvariant in auds:
        return True
    if all(s in (RS.Empty, RS.PendingApproval) for s in kids):
        return result is RS.Empty
    return result is not RS.Empty


Contract('C01', 'count.status', lambda self: self.status(), {'self': count_t},
         {'threshold': count_passing, 'as-final-as-weakest-part': count_strength, 'empty-iff-nothing-started': count_unstarted},
         statement='status of a count node over all child and audit statuses, any count, any number of children')


Contract('C01', 'count.audits', lambda self: self.audit_status(), {'self': count_t}, {'as-its-weakest-audit': audits_said}, statement='the status of the audits of a count node is that of the weakest of them')


# the shapes the loader can produce: a count of 1 with at_most over no children has no rank
Contract('C03', 'count.rank', lambda self: self.rank(), {'self': count_t},
         {'bounds': lambda result: 0 <= result[0] <= result[1], 'waived-full': lambda self, result: (not self.overridden) or (result[0] == 1 and result[1] == 1)},
         requires=lambda self: not (self.at_most and self.count == 1 and len(self.items) == 0),
         statement='0 <= rank <= max rank for a count node')


def count_rank_sum(self, result):
    if self.overridden:
        return True
    return result[0] == sum(i.rank()[0] for i in self.items) + sum(a.rank()[0] for a in self.audit_clauses)


def count_rank_most(self, result):
    if self.overridden:
        return True
    audits = sum(a.rank()[1] for a in self.audit_clauses)
    if self.at_most and self.count == 1:
        return result[1] == max(sum(i.rank()[0] for i in self.items), max(i.rank()[1] for i in self.items)) + audits
    return result[1] == sum(i.rank()[1] for i in self.items) + audits


Contract('C03', 'count.rank.most', lambda self: self.rank(), {'self': count_t}, {'most': count_rank_most},
         requires=lambda self: not (self.at_most and self.count == 1 and len(self.items) == 0),
         statement='the highest rank of a count node is that of all its children and audits together, or of its best child when at most one of them counts')
Contract('C03', 'count.rank.sum', lambda self: self.rank(), {'self': count_t},
         {'sum-of-children': count_rank_sum},
         requires=lambda self: not (self.at_most and self.count == 1 and len(self.items) == 0),
         statement='the rank of a count node is the sum of its children and audits: no progress is dropped')

# ------------------------------------------------------------------ query
assertion_t = ObjT(Base, abstract=True, name='Assert', methods={'status': Meth(EnumT(RS)), 'rank': RANK})
query_fields = {
    'path': path_t, 'overridden': BoolT(), 'source': EnumT(QuerySource), 'data_type': EnumT(DataType), 'assertions': SeqT(assertion_t, maxlen=4), 'limit': ConstT(LimitSet(limits=())),
    'where': ConstT(None), 'allow_claimed': BoolT(), 'attempt_claims': BoolT(), 'record_claims': BoolT(), 'include_failed': BoolT(),
    'inserted': SeqT(StrT(CLBIDS), maxlen=2), 'force_inserted': SeqT(StrT(CLBIDS), maxlen=2), 'output': SeqT(course_t, maxlen=3), 'successful_claims': SeqT(claim_t, maxlen=3),
    'failed_claims': SeqT(claim_t, maxlen=3), 'load_potentials': BoolT(), 'excluded_clbids': SetT(StrT(CLBIDS))}
query_t = RecT(QueryResult, query_fields)


def query_passing(self, result):
    st = [a.status() for a in self.assertions]
    if self.overridden:
        return result is RS.Waived
    if RS.FailedInvariant in st:
        return result is RS.FailedInvariant
    return (result in PASSING) == all(s in PASSING for s in st)


def query_strength(self, result):
    st = [a.status() for a in self.assertions]
    if self.overridden or RS.FailedInvariant in st:
        return True
    if all(s in PASSING for s in st):
        if RS.PendingRegistered in st:
            return result is RS.PendingRegistered
        if RS.PendingCurrent in st:
            return result is RS.PendingCurrent
        if RS.Done in st:
            return result is RS.Done
        return result is RS.Waived
    if RS.PendingApproval in st:
        return result in (RS.Empty, RS.NeedsMoreItems)
    return result is (RS.Empty if all(s is RS.Empty for s in st) else RS.NeedsMoreItems)


Contract('C01', 'query.status', lambda self: self.status(), {'self': query_t},
         {'passing-iff-all-assertions-pass': query_passing, 'as-final-as-weakest-part': query_strength},
         statement='status of a query node over all assertion statuses')

Contract('C03', 'query.rank', lambda self: self.rank(), {'self': query_t},
         {'bounds': lambda result: 0 <= result[0] <= result[1],
          'sum': lambda self, result: (result[0] == 1 and result[1] == 1) if self.overridden else (result[0] == sum(a.rank()[0] for a in self.assertions) and result[1] == sum(a.rank()[1] for a in self.assertions))},
         statement='0 <= rank <= max rank for a query node, and the rank is the sum over its assertions')

# ------------------------------------------------------------------ course
course_result_fields = {
    'path': path_t, 'overridden': BoolT(), 'course': OptT(StrT(('A 1', 'B 2'))), 'clbid': OptT(StrT(CLBIDS)), 'crsid': OptT(StrT()), 'ap': OptT(StrT()), 'institution': OptT(StrT()), 'name': OptT(StrT()),
    'grade': OptT(RealT()), 'grade_option': OptT(EnumT(GradeOption)), 'year': OptT(IntT(pool=(2018, 2019))), 'term': OptT(StrT(('1', '2'))), 'section': OptT(StrT()), 'sub_type': OptT(StrT()),
    'hidden': BoolT(), 'allow_claimed': BoolT(), 'from_claimed': BoolT(), 'optional': BoolT(), 'inserted': BoolT(), 'forced': BoolT(), 'auto_waived': BoolT(), 'excluded_clbids': SetT(StrT(CLBIDS)),
    'matched_course': OptT(course_t)}
course_res_t = RecT(CourseResult, {**course_result_fields, 'claim_attempt': OptT(claim_t)})


def course_status(self, result):
    c = self.claim_attempt
    if c is not None and c.failed:
        # a lost claim never counts, even for an inserted or waived rule
        return result is (RS.Waived if self.optional else RS.Empty)
    if self.inserted or self.overridden:
        return result is RS.Waived
    if c is None:
        return result is (RS.Waived if self.optional else RS.Empty)
    k = c.course
    if not k.is_in_progress:
        return result is RS.Done
    if k.is_in_progress_in_future:
        return result is RS.PendingRegistered
    if k.is_in_progress_this_term or k.is_incomplete:
        return result is RS.PendingCurrent
    return result is (RS.Waived if self.optional else RS.Empty)


Contract('C01', 'course.status', lambda self: self.status(), {'self': course_res_t}, {'exact': course_status},
         statement='status of a course node from its claim attempt and the course it claimed')


def course_rank(self, result):
    s = self.status()
    if self.optional or s in W_D:
        return result == (1, 1)
    if s is RS.PendingCurrent:
        return result == (Decimal('0.75'), 1)
    if s is RS.PendingRegistered:
        return result == (Decimal('0.5'), 1)
    return result == (0, 1)


Contract('C03', 'course.rank', lambda self: self.rank(), {'self': course_res_t}, {'graded': course_rank, 'bounds': lambda result: 0 <= result[0] <= result[1]},
         statement='a completed course outranks a current one, which outranks a registered one, which outranks none')

# ------------------------------------------------------------------ requirement
req_fields = {'path': path_t, 'overridden': BoolT(), 'name': StrT(), 'message': OptT(StrT()), 'result': OptT(child_t, p=0.2), 'is_audited': BoolT(), 'is_contract': BoolT(), 'in_gpa': BoolT(), 'disjoint': OptT(BoolT())}
req_t = RecT(RequirementResult, req_fields)


def req_status(self, result):
    if self.overridden:
        return result is (RS.Done if self.is_audited or self.is_contract else RS.Waived)
    if self.is_audited:
        return result is RS.PendingApproval
    return result is self.result.status()


# `result is None` without waiver falls back to Base.status via super(), which this
# environment's attrs cannot execute for slotted classes (see DESIGN.md)
req_defined = lambda self: self.overridden or self.is_audited or self.result is not None
Contract('C01', 'requirement.status', lambda self: self.status(), {'self': req_t}, {'exact': req_status}, requires=req_defined,
         statement='status of a requirement: waiver, then department audit, then its result')


def req_rank(self, result):
    if self.overridden:
        return result == (1, 1)
    if self.is_audited or self.result is None:
        return result == (0, 1)
    r = self.result.rank()
    if self.result.status() in PASSING:
        return result == (r[0] + 1, r[1] + 1)
    return result == (r[0], r[1])


Contract('C03', 'requirement.rank', lambda self: self.rank(), {'self': req_t}, {'bounds': lambda result: 0 <= result[0] <= result[1], 'exact': req_rank},
         statement='a requirement ranks as its result does, plus one exactly when it passes')

# ------------------------------------------------------------------ a part with nothing to go by but its courses
bare_t = ObjT(Base, abstract=True, name='Bare', stub_base=Base, methods={'is_waived': Meth(BoolT()), 'matched': Meth(SeqT(course_t, kind='list', maxlen=3)), 'rank': RANK})


def bare_status(self, result):
    if self.is_waived():
        return result is RS.Waived
    took = self.matched()
    if any(c.is_in_progress for c in took) and any(c.is_in_progress_in_future for c in took):
        return result is RS.PendingRegistered
    if any(c.is_in_progress for c in took) and any(c.is_in_progress_this_term for c in took):
        return result is RS.PendingCurrent
    return result is (RS.NeedsMoreItems if self.rank()[0] < 1 else RS.Empty)


Contract('C01', 'part.status', lambda self: Base.status(self), {'self': bare_t}, {'exact': bare_status},
         statement='a part without a result of its own is never reported as done: it is waived, in progress or registered as the courses it took are, or wants more')


# ------------------------------------------------------------------ conditional
expr_t = ObjT(Base, abstract=True, name='Expr', fields={'result': OptT(BoolT())})
cond_t = RecT(ConditionalResult, {'path': path_t, 'overridden': BoolT(), 'condition': expr_t, 'when_true': child_t, 'when_false': OptT(child_t)})


def cond_status(self, result):
    if self.condition.result is True:
        return result is self.when_true.status()
    if self.condition.result is False and self.when_false is not None:
        return result is self.when_false.status()
    return result is RS.Done


def cond_rank(self, result):
    if self.condition.result is True:
        return result == self.when_true.rank()
    if self.condition.result is False and self.when_false is not None:
        return result == self.when_false.rank()
    return result == (1, 1)


Contract('C01', 'conditional.status', lambda self: self.status(), {'self': cond_t}, {'exact': cond_status},
         statement='a conditional has exactly the status of the branch its condition selects')
Contract('C03', 'conditional.rank', lambda self: self.rank(), {'self': cond_t}, {'exact': cond_rank, 'bounds': lambda result: 0 <= result[0] <= result[1]},
         statement='a conditional has exactly the rank of the branch its condition selects')

# ------------------------------------------------------------------ proficiency
prof_t = RecT(ProficiencyResult, {'path': path_t, 'overridden': BoolT(), 'proficiency': StrT(), 'course': OptT(child_t), 'proficiency_status': EnumT(RS)})


def prof_status(self, result):
    if self.overridden:
        return result is RS.Waived
    if self.proficiency_status in W_D:
        return result is self.proficiency_status
    if self.course is not None:
        return result is self.course.status()
    return result is RS.Empty


def prof_rank(self, result):
    s = self.status()
    if s in W_D:
        return result == (1, 1)
    if s is RS.PendingCurrent:
        return result == (Decimal('0.75'), 1)
    if s is RS.PendingRegistered:
        return result == (Decimal('0.5'), 1)
    return result == (0, 1)


Contract('C01', 'proficiency.status', lambda self: self.status(), {'self': prof_t}, {'exact': prof_status},
         statement='a proficiency is satisfied by waiver, by its exam, or by its course')
Contract('C03', 'proficiency.rank', lambda self: self.rank(), {'self': prof_t}, {'exact': prof_rank},
         statement='rank of a proficiency follows its status')

# ------------------------------------------------------------------ is_ok / claims
for nm, t, req in (('count', count_t, None), ('query', query_t, None), ('course', course_res_t, None), ('requirement', req_t, req_defined), ('conditional', cond_t, None), ('proficiency', prof_t, None)):
    Contract('C01', f'{nm}.is_ok', lambda self: self.is_ok(), {'self': t}, {'passing': lambda self, result: result == (self.status() in PASSING)}, requires=req,
             statement='is_ok exactly for waived, done, pending-current and pending-registered')
