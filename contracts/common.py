"""Descriptors and specification helpers shared by the contracts.

A descriptor (pyvc.types) says what an input ranges over: the same description gives
the symbolic input of the proof, the random input of the executed contract, and the
concrete input rebuilt from a solver model.
"""
import random
from decimal import Decimal
from pyvc.contract import Contract
from pyvc.types import *
from dp.status import ResultStatus as RS
from dp.base.bases import Base, Rule, Solution, Result
from dp.claim import Claim
from dp.data.course import CourseInstance
from dp.data.course_enums import GradeCode, GradeOption, SubType, CourseType, TranscriptCode

# the specification's own reading of the statuses (not taken from dp.status)
WAIVED = (RS.Waived,)
W_D = (RS.Waived, RS.Done)
W_D_C = (RS.Waived, RS.Done, RS.PendingCurrent)
PASSING = (RS.Waived, RS.Done, RS.PendingCurrent, RS.PendingRegistered)

CLBIDS = ('1', '2', '3', '4')
GRADES = ('0', '0.7', '1.0', '1.3', '1.7', '2.0', '2.3', '2.7', '3.0', '3.3', '3.7', '4.0')

course_t = register(CourseInstance, ObjT(CourseInstance, {
    'clbid': StrT(CLBIDS),
    'attributes': SeqT(StrT(('x', 'y', 'z')), maxlen=2),
    'credits': RealT(lo=0, pool=('0', '0.25', '0.5', '1', '1.00')),
    'crsid': StrT(('10', '11', '12')),
    'course_type': EnumT(CourseType),
    'gereqs': SeqT(StrT(('WRI', 'HBS', 'MCD')), maxlen=2),
    'gpa_points': RealT(lo=0, pool=('0', '0.92', '3.7', '4.0', '2')),
    'grade_code': EnumT(GradeCode),
    'grade_option': EnumT(GradeOption),
    'grade_points': RealT(lo=0, pool=GRADES),
    'institution': StrT(('STOLAF', 'OTHER', 'AP')),
    'level': IntT(lo=0, pool=(0, 100, 200, 300)),
    'name': StrT(('Foo', 'Bar', '')),
    'number': StrT(('101', '125', '126', '227')),
    'schedid': StrT(('s1', 's2', 's3')),
    'section': OptT(StrT(('A', 'B'))),
    'sub_type': EnumT(SubType),
    'subject': StrT(('AMST', 'BIO', 'CHEM', 'CH/BI', 'ART')),
    'su_grade_code': OptT(EnumT(GradeCode)),
    'term': StrT(('1', '2', '3', '4')),
    'transcript_code': EnumT(TranscriptCode),
    'year': IntT(lo=2000, pool=(2017, 2018, 2019)),
    'yearterm': StrT(('20191', '20193', '20181')),
    'identity_': StrT(('AMST 101', 'CH/BI 125', 'BIO 125', 'DEPT 123')),
    'is_chbi_': OptT(IntT(pool=(125, 126, 127, 227))),
    'hash_cache_': ConstT(None),
}))

path_t = PathT(pool=('$', '%A', '%B', '.count', '.x', '[0]', '[1]'))

claim_t = register(Claim, ObjT(Claim, {'course': course_t, 'claimed_by': path_t, 'failed': BoolT()}))

rank_ok = lambda r: 0 <= r[0] <= r[1]

# what every node of a result tree offers to its parent; the rank bound is itself a
# postcondition proved for every implementation (property R-rank)
RANK = Meth(TupT(RealT(), RealT()), ensures=rank_ok, justified='rank contracts')
child_t = ObjT(Base, abstract=True, name='Node', methods={
    'status': Meth(EnumT(RS)), 'rank': RANK, 'claims': Meth(SeqT(claim_t, kind='list', maxlen=2)),
    'claims_for_gpa': Meth(SeqT(claim_t, kind='list', maxlen=2)), 'is_in_gpa': Meth(BoolT()),
    'is_always_disjoint': Meth(BoolT()), 'is_never_disjoint': Meth(BoolT())})
clause_t = ObjT(Base, abstract=True, name='Clause', methods={'status': Meth(EnumT(RS)), 'rank': RANK})

# ------------------------------------------------------------------ audit context
from dp.context import RequirementContext
from dp.exception import RuleException, OverrideException, InsertionException, ValueException, BlockException, ExceptionAction

claims_t = MapT(StrT(CLBIDS), SeqT(claim_t, kind='list', maxlen=2), default=list)
multi_t = MapT(StrT(('AMST 101', 'CH/BI 125', 'DEPT 123')), SeqT(PathT(pool=('%A', '%B', '%C'), maxlen=2), kind='list', maxlen=3))


def ctx_fields(**over):
    f = {
        'transcript_': SeqT(course_t, kind='list'), 'transcript_with_excluded_': SeqT(course_t, kind='list', maxlen=3), 'clbid_lookup_map_': MapT(StrT(CLBIDS), course_t), 'forced_clbid_lookup_map_': MapT(StrT(CLBIDS), course_t),
        'transcript_with_failed_': SeqT(course_t, kind='list', maxlen=3), 'multicountable': multi_t, 'claims': claims_t, 'exceptions': ConstT(lambda: {}), 'exceptions_path_lookup_cache': ConstT(lambda: {}),
        'areas': ConstT(()), 'music_performances': ConstT(()), 'music_attendances': ConstT(()), 'music_proficiencies': ConstT(None), 'templates': ConstT(lambda: {}),
    }
    f.update(over)
    return f


claim_ctx_t = RecT(RequirementContext, ctx_fields(transcript_=ConstT(lambda: []), clbid_lookup_map_=ConstT(lambda: {}), forced_clbid_lookup_map_=ConstT(lambda: {})))


def reqs_only(path):
    """The requirement names along a path: what a multicountable entry lists."""
    return tuple([p for p in path if p[0] == '%'])


# ------------------------------------------------------------------ contracts of collaborators used in place of their bodies
import z3
from pyvc.values import SReal, SSeq, SSet, LCell, SCell, SUnion, GenExp, GenObj, Unsupported, zb
from pyvc.types import app
from dp.apply_clause import AppliedClauseResult


def aggregate_summary(key, item_t):
    """An aggregate by its contract (C11): a value >= 0 and some courses of the input, both
    determined by the items it is given."""
    def summary(vm, args, kwargs):
        if len(args) != 1 or kwargs:
            raise Unsupported('aggregate called with other arguments')
        data = vm.resolve(args[0])
        if isinstance(data, (GenExp, GenObj)):
            raise Unsupported('one-shot iterator given to an aggregate')
        seq = vm.as_seq(data)
        c = vm.content(seq)
        vm.abstracted.update({f'agg:{key}:value', f'agg:{key}:courses#len'})
        vm.used_models.add(f'aggregate {key} by its C11 contract: non-negative value and courses of the input, both functions of the input')
        val = app(f'agg:{key}:value', [c], z3.RealSort())
        vm.fact(val >= 0)
        courses = SeqT(item_t).sym(vm, f'agg:{key}:courses', [c])
        q = courses.segs[0]
        with vm.scope(q.binders):
            vm.fact(z3.Implies(q.rng(), zb(vm.member_segs(q.elem, seq.segs))))
        return vm.attr_new(AppliedClauseResult, [], {'value': SReal(val), 'data': SeqT(StrT()).sym(vm, f'agg:{key}:data', [c]), 'courses': courses})
    return summary


def evaluate_summary(item_t):
    """Assertion.evaluate by its contract (C02): status and counted items are functions of the
    assertion and the items it is given."""
    def summary(vm, args, kwargs):
        if len(args) != 2 or kwargs:
            raise Unsupported('evaluate called with other arguments')
        this, data = args[0], vm.resolve(args[1])
        seq = vm.materialize(data) if isinstance(data, GenObj) else vm.as_seq(data)
        key = [vm.term(this), vm.content(seq)]
        vm.abstracted.update({'eval:status', 'eval:value', 'eval:courses#len'})
        vm.used_models.add('Assertion.evaluate by its C02 contract: status and counted items are functions of the assertion and its items')
        st = EnumT(RS).sym(vm, 'eval:status', key)
        val = app('eval:value', key, z3.RealSort())
        vm.fact(val >= 0)
        courses = SeqT(item_t).sym(vm, 'eval:courses', key)
        return (st, vm.attr_new(AppliedClauseResult, [], {'value': SReal(val), 'data': SeqT(StrT()).sym(vm, 'eval:data', key), 'courses': courses}))
    return summary
