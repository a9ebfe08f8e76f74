"""Choosing the best audit, and keeping claims apart while searching."""
from contracts.common import *
from dp.solve import find_best_solution
import dp.audit as m_audit

res_t = ObjT(Base, abstract=True, name='Res', methods={'status': Meth(EnumT(RS)), 'rank': RANK, 'is_ok': Meth(BoolT())})
sol_t = ObjT(Base, abstract=True, name='Sol', methods={'audit': Meth(res_t)})
rule_t = ObjT(Base, abstract=True, name='SRule', fields={'path': path_t}, methods={'solutions': Meth(SeqT(sol_t, maxlen=5))})
sctx_t = RecT(RequirementContext, ctx_fields(transcript_=ConstT(lambda: []), clbid_lookup_map_=ConstT(lambda: {}), forced_clbid_lookup_map_=ConstT(lambda: {}), multicountable=ConstT(lambda: {})))
FINAL = (RS.Waived, RS.Done)


def best_of(results, chosen):
    """The first finished one; otherwise one that no other outranks, the earliest of them."""
    done = [r for r in results if r.status() in FINAL]
    if len(done) > 0:
        return chosen is done[0]
    if len(results) == 0:
        return chosen is None
    return any(chosen is r for r in results) and all(r.rank()[0] <= chosen.rank()[0] for r in results)


def earliest_of(results, chosen):
    done = [r for r in results if r.status() in FINAL]
    if len(done) > 0 or len(results) == 0:
        return True
    tied = [r for r in results if r.rank()[0] >= chosen.rank()[0]]
    return len(tied) > 0 and chosen is tied[0]


solve = lambda rule, ctx: find_best_solution(rule=rule, ctx=ctx)
Contract('C06', 'solve.best', solve, {'rule': rule_t, 'ctx': sctx_t},
         {'best': lambda rule, ctx, result: best_of([s.audit(ctx=ctx) for s in rule.solutions(ctx=ctx)], result), 'earliest': lambda rule, ctx, result: earliest_of([s.audit(ctx=ctx) for s in rule.solutions(ctx=ctx)], result)},
         statement='the solution kept for a rule is the first finished one, and otherwise the first that no other outranks')

ares_t = ObjT(Base, abstract=True, name='ARes', fields={'version': IntT(lo=0)}, methods={'status': Meth(EnumT(RS)), 'rank': RANK, 'is_ok': Meth(BoolT())})
asol_t = ObjT(Base, abstract=True, name='ASol', methods={'audit': Meth(ares_t)})
aarea_t = ObjT(Base, abstract=True, name='SArea', methods={'estimate': Meth(IntT(lo=0), deps=('student', 'exceptions')), 'solutions': Meth(SeqT(asol_t, maxlen=6), deps=('student', 'exceptions'))})
astudent_t = ObjT(Base, abstract=True, name='SStudent', fields={'courses_with_failed': SeqT(course_t, maxlen=1)})


def final_result(area, student):
    """The result an audit ends with (None when there was nothing to audit)."""
    last = None
    for msg in m_audit.audit(area=area, student=student, args=None, exceptions=[]):
        last = msg
    return last.result if isinstance(last, m_audit.ResultMsg) else None


audited = lambda area, student: [s.audit() for s in area.solutions(student=student, exceptions=[])]
Contract('C06', 'audit.best', final_result, {'area': aarea_t, 'student': astudent_t},
         {'best': lambda area, student, result: best_of(audited(area, student), result), 'earliest': lambda area, student, result: earliest_of(audited(area, student), result)},
         statement='an audit ends with the first finished solution, and otherwise the first that no other outranks')


# ------------------------------------------------------------------ what an audit reports along the way
AUD = m_audit
opts_t = RecT(m_audit.Arguments, {'transcript_only': ConstT(False), 'estimate_only': BoolT(), 'gpa_only': ConstT(False), 'print_all': ConstT(False), 'print_only': ConstT(lambda: []),
                                  'stop_after': OptT(IntT(lo=1, pool=(1, 2, 3))), 'progress_every': ConstT(1000), 'audit_each': ConstT(1)})


def options_result(area, student, opts):
    first = None
    last = None
    for msg in m_audit.audit(area=area, student=student, args=opts, exceptions=[]):
        if first is None:
            first = msg
        else:
            last = msg
    return first, last


def estimated(area, student, result):
    return isinstance(result[0], m_audit.EstimateMsg) and result[0].estimate == area.estimate(student=student, exceptions=[])


def optioned(area, student, opts, result):
    last = result[1]
    results = audited(area, student)
    if opts.estimate_only:
        return last is None
    if len(results) == 0:
        return isinstance(last, m_audit.NoAuditsCompletedMsg)
    return isinstance(last, m_audit.ResultMsg)


Contract('C06', 'audit.messages', options_result, {'area': aarea_t, 'student': astudent_t, 'opts': opts_t}, {'estimate-first': estimated, 'ends-with': optioned},
         statement='an audit opens with its estimate and ends with a result, or with the notice that nothing was audited')
