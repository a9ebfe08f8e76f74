"""Course requirements: which courses fill them, and how the course is claimed."""
import attr
from contracts.common import *
from contracts.c_exceptions import groups_t, at
from dp.data.student import course_filter, SUB_TYPE_LOOKUP
from dp.rule.course import CourseRule
from dp.solution.course import CourseSolution
from dp.result.course import CourseResult

IDENTS = ('AMST 101', 'CH/BI 125', 'BIO 125', 'DEPT 123')
opt = OptT
filters = {'ap': opt(StrT(('Foo', 'Bar')), 0.7), 'course': opt(StrT(IDENTS)), 'crsid': opt(StrT(('10', '11', '12')), 0.7), 'institution': opt(StrT(('STOLAF', 'OTHER', 'AP')), 0.6), 'name': opt(StrT(('Foo', 'Bar', '')), 0.7),
           'year': opt(IntT(pool=(2017, 2018, 2019)), 0.7), 'term': opt(StrT(('1', '2', '3', '4')), 0.5), 'section': opt(StrT(('A', 'B')), 0.7), 'sub_type': opt(EnumT(SubType), 0.7), 'in_progress': opt(BoolT(), 0.7), 'attribute': opt(StrT(('x', 'y', 'z')), 0.7)}


def describes(c, ap, course, crsid, institution, name, year, term, section, sub_type, in_progress, attribute):
    """The course is what the reference says."""
    if institution is None and ap is None and not c.is_stolaf:
        return False
    if course is not None:
        if c.identity_ != course and (sub_type is None or f'{c.subject} {c.number}' != course):
            return False
        if section is not None and c.section != section:
            return False
        if year is not None and not (c.year == year and c.term == term):
            return False
        if sub_type is not None and c.sub_type is not sub_type:
            return False
    if crsid is not None and c.crsid != crsid:
        return False
    if attribute is not None and attribute not in c.attributes:
        return False
    if name is not None and c.name != name:
        return False
    if institution is not None and c.institution != institution:
        return False
    if ap is not None and not (c.course_type is CourseType.AP and c.name == ap):
        return False
    return in_progress is None or in_progress == c.is_in_progress


Contract('C17', 'filter', lambda c, ap, course, crsid, institution, name, year, term, section, sub_type, in_progress, attribute: course_filter(
    ap=ap, course=course, crsid=crsid, institution=institution, name=name, year=year, term=term, section=section, sub_type=sub_type, in_progress=in_progress, attribute=attribute)(c), dict(c=course_t, **filters),
    {'exactly-as-described': lambda c, ap, course, crsid, institution, name, year, term, section, sub_type, in_progress, attribute, result: result == describes(c, ap, course, crsid, institution, name, year, term, section, sub_type, in_progress, attribute)},
    requires=lambda year, term: year is None or term is not None, statement='a course reference finds exactly the courses it describes; without an institution or an AP name only courses of the college')

# ------------------------------------------------------------------ looking courses up
cctx_t = RecT(RequirementContext, ctx_fields(exceptions=groups_t, multicountable=ConstT(lambda: {})))
ref = dict(course=opt(StrT(IDENTS)), clbid=opt(StrT(CLBIDS), 0.8), crsid=opt(StrT(('10', '11', '12')), 0.8), ap=opt(StrT(('Foo', 'Bar')), 0.8), institution=opt(StrT(('STOLAF', 'OTHER', 'AP')), 0.7), name=opt(StrT(('Foo', 'Bar')), 0.8),
           grade=opt(RealT(lo=0, pool=GRADES), 0.5), grade_option=opt(EnumT(GradeOption), 0.6), year=opt(IntT(pool=(2017, 2018, 2019)), 0.8), term=opt(StrT(('1', '2', '3', '4')), 0.4), section=opt(StrT(('A', 'B')), 0.8), sub_type=opt(StrT(('L', 'D', 'F', 'E')), 0.8),
           hidden=BoolT(), allow_claimed=BoolT(), from_claimed=BoolT(), optional=BoolT(), inserted=BoolT(), forced=BoolT(), auto_waived=BoolT(), excluded_clbids=SetT(StrT(CLBIDS), maxlen=2), matched_course=OptT(course_t), path=path_t, overridden=BoolT())


def course_rule(cls=CourseRule, **over):
    return ObjT(cls, dict(ref, **over))




def matched_by_contract(vm, args, kwargs):
    """_course_filter by its contract (filter): a function of the course and of what the reference says."""
    from pyvc.values import SBool
    from pyvc.vm import ContentSort
    c, f = args
    vm.used_models.add('_course_filter by its contract: whether a course is the one described is a function of the course and the reference')
    vm.abstracted.add('described-by')
    acc = z3.Const('content:nil', ContentSort)
    for name in ('ap', 'course', 'crsid', 'institution', 'name', 'year', 'term', 'section', 'sub_type', 'in_progress', 'attribute'):
        v = f.data[name]
        out = None
        for cond, x in reversed(v.alts if isinstance(v, SUnion) else [(z3.BoolVal(True), v)]):
            t = vm.term(x)
            if x is not None and t is None:
                raise Unsupported('reference field')
            n = z3.Function('content:push:none', ContentSort, ContentSort)(acc) if x is None else z3.Function(f'content:push:{t.sort()}', ContentSort, t.sort(), ContentSort)(acc, t)
            out = n if out is None else z3.If(cond, n, out)
        acc = out
    return SBool(z3.Function('described-by', ObjSort, ContentSort, z3.BoolSort())(vm.term(vm.resolve(c)), acc))


from dp.data import student as m_student
DESCRIBED = {m_student._course_filter: matched_by_contract}
as_described = lambda r: course_filter(ap=r.ap, course=r.course, institution=r.institution, name=r.name, year=r.year, term=r.term, section=r.section, sub_type=SUB_TYPE_LOOKUP.get(r.sub_type or '', None), crsid=r.crsid)
fits_ref = lambda r, c: as_described(r)(c)


def found(r, ctx, pool):
    """The courses a reference names."""
    if r.clbid:
        return [ctx.clbid_lookup_map_[r.clbid]] if r.clbid in ctx.clbid_lookup_map_ else []
    return [c for c in pool if fits_ref(r, c)]


dated = lambda rule: rule.year is None or rule.term is not None
Contract('C17', 'find.transcript', lambda ctx, rule: list(ctx.find_courses(rule=rule)), {'ctx': cctx_t, 'rule': course_rule()}, {'named': lambda ctx, rule, result: result == found(rule, ctx, ctx.transcript_)},
         requires=dated, eq_positive=True, summaries=DESCRIBED, statement='a course rule looks at exactly the courses of the transcript it describes; a class id names that class')



def likely(g):
    """Inputs in which the rule, the transcript and the exceptions have to do with each other."""
    r = g.rng
    if r.random() < 0.4:
        return {}
    rule = course_rule().gen(g)
    ctx = cctx_t.gen(g)
    courses = [attr.evolve(c, identity_='AMST 101' if r.random() < 0.7 else c.identity_, institution='STOLAF' if r.random() < 0.8 else c.institution) for c in SeqT(course_t, kind='list', maxlen=4).gen(g)]
    known = {c: course_t.gen(g) for c in CLBIDS}
    known = {k: attr.evolve(v, clbid=k) for k, v in known.items() if r.random() < 0.85}
    path = rule.path if r.random() < 0.5 else ('$', '%A')
    rule = attr.evolve(rule, course='AMST 101' if r.random() < 0.8 else None, clbid=None if r.random() < 0.9 else '1', ap=None, crsid=None, name=None, year=None, section=None, sub_type=None, institution=rule.institution if r.random() < 0.2 else None,
                       auto_waived=r.random() < 0.1, path=path)
    if r.random() < 0.6:
        rule = attr.evolve(rule, grade=None, grade_option=None)
    xs = []
    for i in range(r.choice([0, 0, 1, 2, 2, 3])):
        xs.append(InsertionException(path=path, type=ExceptionAction.Insert, clbid=r.choice(CLBIDS), forced=r.random() < 0.4))
    if r.random() < 0.1:
        xs.append(OverrideException(path=path, type=ExceptionAction.Override, status=RS.Waived))
    r.shuffle(xs)
    return {'rule': rule, 'ctx': attr.evolve(ctx, transcript_=courses, clbid_lookup_map_=known, exceptions={path: xs} if xs else {})}


# ------------------------------------------------------------------ what is tried for a course rule
known_inserts = lambda rule, ctx: all(e.clbid in ctx.clbid_lookup_map_ or e.clbid in ctx.forced_clbid_lookup_map_ for e in at(ctx, rule.path) if isinstance(e, InsertionException) and e.forced)
named = lambda ctx, clbid: ctx.clbid_lookup_map_[clbid] if clbid in ctx.clbid_lookup_map_ else ctx.forced_clbid_lookup_map_[clbid]
waived_at = lambda ctx, path: any(isinstance(e, OverrideException) for e in at(ctx, path))


def acceptable(r, c):
    """Not kept out, grade high enough once there is one, taken the way it must be."""
    if c.clbid in r.excluded_clbids:
        return False
    if r.grade is not None and not c.is_in_progress and c.grade_points < r.grade:
        return False
    return r.grade_option is None or c.grade_option is r.grade_option


def inserts(r, ctx):
    return [e for e in at(ctx, r.path) if isinstance(e, InsertionException) and (e.forced or e.clbid in ctx.clbid_lookup_map_ or e.clbid in ctx.forced_clbid_lookup_map_) and named(ctx, e.clbid).clbid not in r.excluded_clbids]


def tried(rule, ctx):
    return list(rule.solutions(ctx=ctx))


def as_expected(rule, ctx, result):
    if rule.auto_waived or waived_at(ctx, rule.path):
        return [(s.matched_course, s.overridden) for s in result] == [(None, True)]
    want = [named(ctx, e.clbid) for e in inserts(rule, ctx)] + [c for c in found(rule, ctx, ctx.transcript_) if acceptable(rule, c)]
    if not any(True for c in want):
        return [s.matched_course for s in result] == [None]
    return [s.matched_course for s in result] == want


def marked(rule, ctx, result):
    """Inserted courses are marked as such, forced ones as forced, and nothing else is."""
    if rule.auto_waived or waived_at(ctx, rule.path):
        return True
    xs = inserts(rule, ctx)
    flags = [(True, e.forced) for e in xs] + [(rule.inserted, False) for c in found(rule, ctx, ctx.transcript_) if acceptable(rule, c)]
    if not any(True for f in flags):
        return True
    return [(s.inserted, s.forced) for s in result] == flags


def carried(rule, result):
    """A solution stands for its rule: same reference, bars and modifiers."""
    return all(s.path == rule.path and s.course == rule.course and s.clbid == rule.clbid and s.crsid == rule.crsid and s.ap == rule.ap and s.institution == rule.institution and s.name == rule.name and s.grade == rule.grade
               and s.grade_option == rule.grade_option and s.year == rule.year and s.term == rule.term and s.section == rule.section and s.sub_type == rule.sub_type and s.hidden == rule.hidden and s.allow_claimed == rule.allow_claimed
               and s.from_claimed == rule.from_claimed and s.optional == rule.optional for s in result)


Contract('C17', 'course.solutions', tried, {'rule': course_rule(), 'ctx': cctx_t}, {'every-possibility-once': as_expected, 'marked-as-inserted': marked, 'carries-the-rule': carried},
         requires=lambda rule, ctx: dated(rule) and known_inserts(rule, ctx), eq_positive=True, gen=likely, gen_n=3,
         summaries=DESCRIBED,
         statement='a course rule tries each inserted course and each matching course of good enough grade and the right grade option that is not kept out, or nothing at all; a waiver replaces them')

# ------------------------------------------------------------------ filling the requirement
sol_t = course_rule(CourseSolution)
actx_t = RecT(RequirementContext, ctx_fields(exceptions=ConstT(lambda: {})))


def audit(self, ctx):
    return self.audit(ctx=ctx)


def held(ctx, key):
    return list(ctx.claims[key]) if key in ctx.claims else []


def claims_or_not(self, result, old):
    """No claim when waived, without a course, or when it must have been claimed already and is not."""
    if self.overridden or self.matched_course is None or (self.from_claimed and len(old) == 0):
        return result.claim_attempt is None
    return result.claim_attempt is not None and result.claim_attempt.course is self.matched_course and result.claim_attempt.claimed_by == self.path


def shared(self, result):
    """A forced or sharing rule always gets its course."""
    return result.claim_attempt is None or not (self.forced or self.allow_claimed) or not result.claim_attempt.failed


def told(self, result):
    return (result.path == self.path and result.overridden == self.overridden and result.inserted == self.inserted and result.optional == self.optional and result.grade == self.grade
            and result.allow_claimed == self.allow_claimed and result.course == self.course and result.clbid == self.clbid and result.crsid == self.crsid and result.ap == self.ap and result.institution == self.institution
            and result.name == self.name and result.grade_option == self.grade_option and result.hidden == self.hidden and result.year == self.year and result.term == self.term and result.section == self.section
            and result.sub_type == self.sub_type)


Contract('C17', 'course.audit', audit, {'self': sol_t, 'ctx': actx_t}, {'claims-or-not': claims_or_not, 'shared': shared, 'carries-the-rule': told},
         old=lambda self, ctx: held(ctx, self.matched_course.clbid) if self.matched_course is not None else [], requires=lambda self: self.allow_claimed or not self.from_claimed,
         statement='auditing a course solution claims its course for its path, except when waived, missing, or not yet claimed as it must be')

# ------------------------------------------------------------------ what a course rule says about itself
inserted_known = lambda r, ctx: [ctx.clbid_lookup_map_[e.clbid] for e in at(ctx, r.path) if isinstance(e, InsertionException) and e.clbid not in r.excluded_clbids and e.clbid in ctx.clbid_lookup_map_]


def all_matching(rule, ctx):
    if rule.from_claimed:
        return inserted_known(rule, ctx)
    return inserted_known(rule, ctx) + [c for c in found(rule, ctx, ctx.transcript_) if c.clbid not in rule.excluded_clbids]


Contract('C17', 'course.matches', lambda rule, ctx: rule.all_matches(ctx=ctx), {'rule': course_rule(), 'ctx': cctx_t}, {'all': lambda rule, ctx, result: result == all_matching(rule, ctx)}, requires=lambda rule: dated(rule), eq_positive=True,
         summaries=DESCRIBED, gen=likely, gen_n=3,
         statement='the matches of a course rule are its inserted courses and the courses it describes, without those kept out')


def has_potential(rule, ctx, result):
    return result == (rule.auto_waived or any(e.path[:len(rule.path)] == rule.path for g in ctx.exceptions.values() for e in g) or any(True for c in found(rule, ctx, ctx.transcript_)))


Contract('C17', 'course.potential', lambda rule, ctx: rule.has_potential(ctx=ctx), {'rule': course_rule(), 'ctx': cctx_t}, {'potential': has_potential},
         requires=lambda rule, ctx: dated(rule) and all(len(g) > 0 and all(e.path == p for e in g) for p, g in ctx.exceptions.items()),
         summaries=DESCRIBED, gen=likely, gen_n=3,
         statement='a course rule has potential exactly when waived, excepted, or describing a course of the transcript')


def required(rule, ctx, result):
    """The one class that can fill the rule, when there is exactly one."""
    ins = [e.clbid for e in at(ctx, rule.path) if isinstance(e, InsertionException)]
    only = [c for c in all_matching(rule, ctx) if c.clbid not in ins]
    if rule.from_claimed or len(only) != 1:
        return len(result) == 0
    return len(result) == 1 and result[0] is only[0]


Contract('C17', 'course.required', lambda rule, ctx: rule.get_required_courses(ctx=ctx), {'rule': course_rule(), 'ctx': cctx_t}, {'single-match': required}, requires=lambda rule: dated(rule),
         summaries=DESCRIBED, gen=likely, gen_n=3,
         statement='a course is required when it is the only one, apart from the inserted ones, that can fill the rule')

block_t = ObjT(BlockException, {'path': path_t, 'clbid': StrT(CLBIDS), 'type': ConstT(ExceptionAction.Block)})


def blocked(rule, to_block, result, other):
    here = rule.path == to_block.path
    return (other in result.excluded_clbids) == (other in rule.excluded_clbids or (here and other == to_block.clbid)) and result.path == rule.path and result.course == rule.course and result.grade == rule.grade


Contract('C17', 'course.block', lambda rule, to_block: rule.apply_block_exception(to_block), {'rule': course_rule(), 'to_block': block_t}, {'kept-out-there-only': blocked}, ghost={'other': StrT(CLBIDS)},
         statement='a block keeps exactly its class out of exactly the rule at its path')

Contract('C19', 'course.estimate', lambda rule, ctx: rule.estimate(ctx=ctx), {'rule': course_rule(), 'ctx': cctx_t}, {'one': lambda result: result == 1}, statement='a course is estimated at one solution')
Contract('C19', 'course.apart', lambda rule: rule.is_never_disjoint(), {'rule': course_rule(from_claimed=BoolT())}, {'looks-at-claims': lambda rule, result: result == rule.from_claimed},
         statement='a course to be found among the claimed ones depends on every other rule')
