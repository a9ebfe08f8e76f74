"""Auditing a solution: part by part, in order, losing nothing."""
from contracts.common import *
from contracts.c_counts import ctx_of
from dp.rule.count import CountRule
from dp.rule.requirement import RequirementRule
from dp.rule.conditional import ConditionalRule
from dp.rule.proficiency import ProficiencyRule
from dp.solution.count import CountSolution
from dp.solution.requirement import RequirementSolution
from dp.solution.conditional import ConditionalSolution
from dp.solution.proficiency import ProficiencySolution
from dp.solution.course import CourseSolution

MET = Meth(SeqT(course_t, kind='list', maxlen=2))
done_t = ObjT(Result, abstract=True, name='Audited', stub_base=Result, methods={'matched': MET})
part_t = ObjT(Solution, abstract=True, name='Part', stub_base=Solution, methods={'audit': Meth(done_t, deps=('ctx',)), 'matched': MET})
idle_t = ObjT(Rule, abstract=True, name='Idle', stub_base=Rule, methods={'matched': MET})
seen_t = ObjT(Base, abstract=True, name='SeenClause', methods={})
audit_t = ObjT(Base, abstract=True, name='AuditClause', methods={'audit_and_resolve': Meth(seen_t, deps=('data', 'ctx'))})
cond_t = ObjT(Base, {'result': OptT(BoolT())}, abstract=True, name='PartCond')
actx_t = ObjT(RequirementContext, abstract=True, name='PartCtx', methods={})


def count_sol(items):
    return ObjT(CountSolution, {'count': IntT(lo=0, pool=(0, 1, 2)), 'items': SeqT(items, maxlen=3), 'audit_clauses': SeqT(audit_t, maxlen=2), 'at_most': BoolT(), 'path': path_t, 'overridden': BoolT()})


def same_count(s, result):
    return result.count == s.count and result.at_most is s.at_most and result.path == s.path and result.overridden is s.overridden


def count_audited(s, ctx, result):
    if s.overridden:
        return same_count(s, result) and result.items == s.items and result.audit_clauses == s.audit_clauses
    got = tuple([p.audit(ctx=ctx) for p in s.items])
    data = tuple([x for r in got for x in r.matched()])
    return same_count(s, result) and result.items == got and result.audit_clauses == tuple([a.audit_and_resolve(data=data, ctx=ctx) for a in s.audit_clauses])


def count_idle(s, ctx, result):
    if s.overridden:
        return same_count(s, result) and result.items == s.items and result.audit_clauses == s.audit_clauses
    data = tuple([x for r in s.items for x in r.matched()])
    return same_count(s, result) and result.items == s.items and result.audit_clauses == tuple([a.audit_and_resolve(data=data, ctx=ctx) for a in s.audit_clauses])


Contract('C24', 'count.audit', lambda s, ctx: s.audit(ctx=ctx), {'s': count_sol(part_t), 'ctx': actx_t}, {'part-by-part': count_audited}, eq_positive=True,
         statement='auditing a count audits each solved part once, in order, and judges its audits by the courses all of them matched; a waived count is left as it is')
Contract('C24', 'count.audit.unsolved', lambda s, ctx: s.audit(ctx=ctx), {'s': count_sol(idle_t), 'ctx': actx_t}, {'kept': count_idle}, eq_positive=True,
         statement='parts that were not tried are reported as they are')

crule_t = ObjT(CountRule, {'count': IntT(lo=0, pool=(0, 1, 2)), 'items': SeqT(idle_t, maxlen=3), 'audit_clauses': SeqT(audit_t, maxlen=2), 'at_most': BoolT(), 'path': path_t, 'overridden': BoolT()})
Contract('C24', 'count.solution', lambda rule, count, items, waived: CountSolution.from_rule(rule=rule, count=count, items=items, overridden=waived), {'rule': crule_t, 'count': IntT(lo=0, pool=(0, 1, 2)), 'items': SeqT(part_t, kind='tuple', maxlen=3), 'waived': BoolT()},
         {'of-the-rule': lambda rule, count, items, waived, result: result.count == count and result.items == items and result.audit_clauses == rule.audit_clauses and result.at_most is rule.at_most and result.path == rule.path and result.overridden is waived}, eq_positive=True,
         statement='a solution of a count keeps its audits, its bound and its path')


# ------------------------------------------------------------------ conditionals
def cond_sol(a, b):
    return ObjT(ConditionalSolution, {'condition': cond_t, 'when_true': a, 'when_false': OptT(b), 'path': path_t, 'overridden': BoolT()})


def cond_audited(s, ctx, result):
    # the branch the condition selects is the solved one
    yes = s.condition.result is True
    no = s.condition.result is False and s.when_false is not None
    return (result.path == s.path and result.overridden is s.overridden and result.condition is s.condition
            and result.when_true == (s.when_true.audit(ctx=ctx) if yes and isinstance(s.when_true, Solution) else s.when_true)
            and result.when_false == (s.when_false.audit(ctx=ctx) if no and isinstance(s.when_false, Solution) else s.when_false))


for _nm, _a, _b in (('then', part_t, idle_t), ('else', idle_t, part_t)):
    Contract('C24', f'conditional.audit.{_nm}', lambda s, ctx: s.audit(ctx=ctx), {'s': cond_sol(_a, _b), 'ctx': actx_t}, {'selected-branch': cond_audited}, statement='auditing a conditional audits the solved branch its condition selects and keeps the other as it is')


# ------------------------------------------------------------------ requirements
def req_fields(inner):
    return {'name': StrT(), 'message': OptT(StrT()), 'result': OptT(inner), 'is_audited': BoolT(), 'is_contract': BoolT(), 'in_gpa': BoolT(), 'disjoint': OptT(BoolT()), 'path': path_t, 'overridden': BoolT()}


def same_req(s, result):
    return (result.name == s.name and result.message == s.message and result.is_audited is s.is_audited and result.is_contract is s.is_contract and result.in_gpa is s.in_gpa and result.disjoint == s.disjoint and result.path == s.path)


Contract('C24', 'requirement.audit', lambda s, ctx: s.audit(ctx=ctx), {'s': ObjT(RequirementSolution, req_fields(part_t)), 'ctx': actx_t},
         {'its-result': lambda s, ctx, result: same_req(s, result) and result.overridden is s.overridden and result.result == (s.result if s.overridden or s.result is None else s.result.audit(ctx=ctx))},
         statement='auditing a requirement audits its result; a waived requirement keeps it unaudited')
Contract('C24', 'requirement.audit.unsolved', lambda s, ctx: s.audit(ctx=ctx), {'s': ObjT(RequirementSolution, req_fields(idle_t)), 'ctx': actx_t},
         {'kept': lambda s, ctx, result: same_req(s, result) and result.overridden is s.overridden and result.result == s.result}, statement='a requirement whose result was not tried reports it as it is')

GIVEN = Meth(SeqT(part_t, kind='list', maxlen=3), deps=('ctx',))
body_t = ObjT(Rule, abstract=True, name='Body', stub_base=Rule, methods={'solutions': GIVEN})
rctx_t = ctx_of()


def req_solved(rule, ctx, result):
    if ctx.get_waive_exception(rule.path) is not None:
        return len(result) == 1 and result[0].overridden is True and result[0].result == rule.result and same_req(rule, result[0])
    if rule.result is None:
        return len(result) == 1 and result[0].overridden is False and result[0].result is None and same_req(rule, result[0])
    return [x.result for x in result] == [x for x in rule.result.solutions(ctx=ctx)] and all(same_req(rule, x) and x.overridden is False for x in result)


Contract('C24', 'requirement.solutions', lambda rule, ctx: list(rule.solutions(ctx=ctx)), {'rule': ObjT(RequirementRule, req_fields(body_t)), 'ctx': rctx_t}, {'each-of-its-result': req_solved}, eq_positive=True,
         statement='a requirement is tried with each solution of its result, once and in order; a waived one is not tried')


def cond_solved(rule, ctx, result):
    yes = rule.condition.result is True
    no = rule.condition.result is False and rule.when_false is not None
    inner = rule.when_true if yes else rule.when_false
    if not yes and not no:
        return len(result) == 0
    return ([x.when_true if yes else x.when_false for x in result] == [x for x in inner.solutions(ctx=ctx)]
            and all((x.when_false == rule.when_false if yes else x.when_true == rule.when_true) and x.path == rule.path and x.condition is rule.condition and x.overridden is rule.overridden for x in result))


body2_t = ObjT(Rule, abstract=True, name='Body2', stub_base=Rule, methods={'solutions': Meth(SeqT(part_t, kind='list', maxlen=3), deps=('ctx',))})
Contract('C24', 'conditional.solutions', lambda rule, ctx: list(rule.solutions(ctx=ctx)), {'rule': ObjT(ConditionalRule, {'condition': cond_t, 'when_true': body2_t, 'when_false': OptT(body2_t), 'path': path_t, 'overridden': BoolT()}), 'ctx': rctx_t},
         {'each-of-its-branch': cond_solved}, eq_positive=True, statement='a conditional is tried with each solution of the branch its condition selects')

# ------------------------------------------------------------------ proficiencies
csol_t = ObjT(CourseSolution, abstract=True, name='CourseSol', stub_base=CourseSolution, methods={'audit': Meth(done_t, deps=('ctx',))})
profs_t = ObjT(Base, abstract=True, name='Profs', methods={'status': Meth(EnumT(RS), deps=('of', 'exam_only'))})
pctx_t = ObjT(RequirementContext, {'music_proficiencies': profs_t}, abstract=True, name='PCtx', methods={})
psol_t = ObjT(ProficiencySolution, {'proficiency': StrT(('Keyboard', 'Guitar')), 'course': OptT(csol_t), 'path': path_t, 'overridden': BoolT()})


def prof_audited(s, ctx, result):
    if s.overridden:
        return result.proficiency == s.proficiency and result.path == s.path and result.overridden is True and result.course == s.course and result.proficiency_status is RS.Waived
    return (result.proficiency == s.proficiency and result.path == s.path and result.overridden is False and result.proficiency_status is ctx.music_proficiencies.status(of=s.proficiency, exam_only=False)
            and result.course == (s.course.audit(ctx=ctx) if s.course is not None else None))


Contract('C24', 'proficiency.audit', lambda s, ctx: s.audit(ctx=ctx), {'s': psol_t, 'ctx': pctx_t}, {'as-recorded': prof_audited}, statement='auditing a proficiency reads the recorded proficiency of its name and audits its course; a waived one is waived')
body3_t = ObjT(Rule, abstract=True, name='Body3', stub_base=Rule, methods={'solutions': Meth(SeqT(csol_t, kind='list', maxlen=3), deps=('ctx',), native=iter)})


def prof_solved(rule, ctx, result):
    if len(result) != 1 or result[0].proficiency != rule.proficiency or result[0].path != rule.path:
        return False
    if ctx.get_waive_exception(rule.path) is not None:
        return result[0].overridden is True and result[0].course == rule.course
    if rule.course is None:
        return result[0].overridden is False and result[0].course is None
    return result[0].overridden is False and result[0].course == next(iter(rule.course.solutions(ctx=ctx)))


Contract('C24', 'proficiency.solutions', lambda rule, ctx: list(rule.solutions(ctx=ctx)), {'rule': ObjT(ProficiencyRule, {'proficiency': StrT(), 'course': OptT(body3_t), 'path': path_t, 'overridden': BoolT()}), 'ctx': rctx_t}, {'once': prof_solved},
         requires=lambda rule, ctx: rule.course is None or any(True for _ in rule.course.solutions(ctx=ctx)), statement='a proficiency is tried once, with the first solution of its course')
