"""Conditional expressions: what `$if` asks about the student."""
from contracts.common import *
from contracts.c_predicates import area_t
import dp.conditional_expression as ce
from dp.conditional_expression import PredicateExpressionFunction as F, DynamicPredicateExpressionFunction as DF
from dp.data.music import MusicProficiencies, MusicProficiencyStatus as MP
from dp.data.student import course_filter

# ------------------------------------------------------------------ compound structure
sub_t = ObjT(Base, abstract=True, name='SubExpr', fields={'result': OptT(BoolT())})
ctx0 = claim_ctx_t
expr_arg = ObjT(Base, abstract=True, name='CondExpr', fields={'result': OptT(BoolT())}, methods={'evaluate': Meth(sub_t, deps=('ctx',)), 'evaluate_against_data': Meth(sub_t, deps=('data',))})


def keeps_known(self, result):
    return self.result is None or result is self


ev = lambda self, ctx: self.evaluate(ctx=ctx)
Contract('C09', 'cond.and', ev, {'self': RecT(ce.PredicateExpressionCompoundAnd, {'expressions': SeqT(expr_arg), 'result': OptT(BoolT())}), 'ctx': ctx0},
         {'keeps-known': keeps_known, 'all': lambda self, ctx, result: self.result is not None or result.result == all(e.evaluate(ctx=ctx).result for e in self.expressions)}, statement='a compound and-condition holds iff all its parts hold')
Contract('C09', 'cond.or', ev, {'self': RecT(ce.PredicateExpressionCompoundOr, {'expressions': SeqT(expr_arg), 'result': OptT(BoolT())}), 'ctx': ctx0},
         {'keeps-known': keeps_known, 'any': lambda self, ctx, result: self.result is not None or result.result == any(e.evaluate(ctx=ctx).result for e in self.expressions)}, statement='a compound or-condition holds iff some part holds')
Contract('C09', 'cond.not', ev, {'self': RecT(ce.PredicateExpressionNot, {'expression': expr_arg, 'result': OptT(BoolT())}), 'ctx': ctx0},
         {'keeps-known': keeps_known, 'not': lambda self, ctx, result: self.result is not None or result.result == (not self.expression.evaluate(ctx=ctx).result)}, statement='a negated condition holds iff its part does not')

evd = lambda self, data: self.evaluate_against_data(data=data)
courses_t = SeqT(course_t, kind='list', maxlen=4)
Contract('C09', 'dyn.and', evd, {'self': RecT(ce.DynamicPredicateExpressionCompoundAnd, {'expressions': SeqT(expr_arg), 'result': ConstT(None)}), 'data': courses_t},
         {'all': lambda self, data, result: result.result == all(e.evaluate_against_data(data=data).result for e in self.expressions)}, statement='a compound and-condition over query data holds iff all its parts hold')
Contract('C09', 'dyn.or', evd, {'self': RecT(ce.DynamicPredicateExpressionCompoundOr, {'expressions': SeqT(expr_arg), 'result': ConstT(None)}), 'data': courses_t},
         {'any': lambda self, data, result: result.result == any(e.evaluate_against_data(data=data).result for e in self.expressions)}, statement='a compound or-condition over query data holds iff some part holds')

# ------------------------------------------------------------------ the questions
LEVELS = ('Keyboard Level I', 'Keyboard Level II', 'Keyboard Level III', 'Keyboard Level IV', 'Guitar')
profs_t = RecT(MusicProficiencies, {'guitar': EnumT(MP), 'keyboard_1': EnumT(MP), 'keyboard_2': EnumT(MP), 'keyboard_3': EnumT(MP), 'keyboard_4': EnumT(MP)})
exc_ov_t = ObjT(OverrideException, {'path': path_t, 'type': EnumT(ExceptionAction), 'status': EnumT(RS)})
qctx_t = RecT(RequirementContext, ctx_fields(transcript_with_failed_=courses_t, transcript_with_excluded_=courses_t, areas=SeqT(area_t, maxlen=3), music_proficiencies=profs_t, clbid_lookup_map_=ConstT(lambda: {}), forced_clbid_lookup_map_=ConstT(lambda: {}), claims=ConstT(lambda: {}), multicountable=ConstT(lambda: {})))
names = StrT(('AMST 101', 'CH/BI 125', 'BIO 125', '110', '120', 'x', 'y'))
ask = lambda fn, arg, ctx: ce.PredicateExpression(function=fn, argument=arg, result=None).evaluate(ctx=ctx).result


def level_of(p, arg):
    if arg == LEVELS[0]:
        return p.keyboard_1
    if arg == LEVELS[1]:
        return p.keyboard_2
    if arg == LEVELS[2]:
        return p.keyboard_3
    if arg == LEVELS[3]:
        return p.keyboard_4
    return p.guitar


def question(fn, means, arg=names, stmt=''):
    Contract('C09', f'asks.{fn.value}', ask, {'fn': ConstT(fn), 'arg': arg, 'ctx': qctx_t}, {'answer': means}, statement=stmt)


question(F.HasCourse, lambda arg, ctx, result: result == any(c.identity_ == arg and c.is_stolaf for c in ctx.transcript_), stmt='has-course: some St. Olaf course of the transcript has that name')
question(F.HasIpCourse, lambda arg, ctx, result: result == any(c.identity_ == arg and c.is_stolaf and c.is_in_progress for c in ctx.transcript_), stmt='has-ip-course: such a course is in progress')
question(F.HasCompletedCourse, lambda arg, ctx, result: result == any(c.identity_ == arg and c.is_stolaf and not c.is_in_progress for c in ctx.transcript_), stmt='has-completed-course: such a course is not in progress')
question(F.StudentHasCourseWithAttribute, lambda arg, ctx, result: result == any(arg in c.attributes and c.is_stolaf for c in ctx.transcript_), stmt='student-has-course-with-attribute: some St. Olaf course carries the attribute')
question(F.HasDeclaredAreaCode, lambda arg, ctx, result: result == any(a.code == arg for a in ctx.areas), stmt='has-declared-area-code: some area has that code')
question(F.PassedProficiencyExam, lambda arg, ctx, result: result == (level_of(ctx.music_proficiencies, arg) is MP.Exam), arg=EnumStrT(LEVELS), stmt='passed-proficiency-exam: only an exam counts')
dask = lambda fn, arg, data: ce.DynamicPredicateExpression(function=fn, argument=arg, result=None).evaluate_against_data(data=data).result
Contract('C09', 'asks.query-has', dask, {'fn': ConstT(DF.QueryHasCourseWithAttribute), 'arg': StrT(('x', 'y', 'z')), 'data': courses_t},
         {'answer': lambda arg, data, result: result == any(arg in c.attributes and c.is_stolaf for c in data)}, statement='query-has-course-with-attribute over the query data')
Contract('C09', 'asks.query-has-single', dask, {'fn': ConstT(DF.QueryHasSingleCourseWithAttribute), 'arg': StrT(('x', 'y', 'z')), 'data': courses_t},
         {'answer': lambda arg, data, result: result == (len([c for c in data if arg in c.attributes and c.is_stolaf]) == 1)}, statement='query-has-single-course-with-attribute: exactly one', gen_n=2)

Contract('C09', 'proficiency.exam-or-class', lambda p, of, exam_only: p.status(of=of, exam_only=exam_only), {'p': profs_t, 'of': EnumStrT(LEVELS), 'exam_only': BoolT()},
         {'answer': lambda p, of, exam_only, result: result is (RS.Done if level_of(p, of) in ((MP.Exam,) if exam_only else (MP.Yes, MP.Exam, MP.Class)) else RS.Empty)}, statement='a proficiency is met by exam, class or plain yes; only by exam when the rule says so')
