"""What a query looks at, claims, and counts."""
import attr
from contracts.common import *
from contracts.c_exceptions import groups_t, at, InsertionException
from dp.rule.query import QueryRule, QuerySource
from dp.solution.query import QuerySolution
from dp.data_type import DataType as DT
from decimal import Decimal
from dp.limit import LimitSet, Limit, AtMostWhat
from dp.constants import Constants
from dp.predicate_clause import load_predicate

SRC = QuerySource
where_t = ObjT(Base, abstract=True, name='QWhere', methods={'apply': Meth(BoolT(), deps=('to',))})
assert_t = ObjT(Base, abstract=True, name='QAssert', methods={'is_lt_clause': Meth(BoolT()), 'is_at_least_0_clause': Meth(BoolT()), 'audit_and_resolve': Meth(ObjT(Base, abstract=True, name='QResolved'), deps=('data',))})
area_item = ObjT(Base, abstract=True, name='QArea')
perf_item = ObjT(Base, abstract=True, name='QPerf')
recital_item = ObjT(Base, abstract=True, name='QRecital')


def query(cls=QueryRule, **over):
    f = dict(source=EnumT(SRC), data_type=ConstT(DT.Course), assertions=SeqT(assert_t, maxlen=3), limit=ConstT(LimitSet(limits=())), where=OptT(where_t), allow_claimed=BoolT(), attempt_claims=BoolT(), record_claims=BoolT(),
             include_failed=BoolT(), inserted=SeqT(StrT(CLBIDS), maxlen=2), force_inserted=SeqT(StrT(CLBIDS), maxlen=2), output=SeqT(course_t, maxlen=4), successful_claims=ConstT(()), failed_claims=ConstT(()), load_potentials=ConstT(True),
             excluded_clbids=SetT(StrT(CLBIDS), maxlen=2), path=path_t, overridden=BoolT())
    f.update(over)
    return ObjT(cls, f)


qctx_t = RecT(RequirementContext, ctx_fields(exceptions=groups_t, transcript_with_failed_=SeqT(course_t, kind='list', maxlen=4), claims=ConstT(lambda: {}), multicountable=ConstT(lambda: {}), areas=SeqT(area_item, maxlen=2),
              music_performances=SeqT(perf_item, maxlen=2), music_attendances=SeqT(recital_item, maxlen=2)))

named = lambda ctx, clbid: ctx.clbid_lookup_map_[clbid] if clbid in ctx.clbid_lookup_map_ else ctx.forced_clbid_lookup_map_[clbid]
known = lambda ctx, clbid: clbid in ctx.clbid_lookup_map_ or clbid in ctx.forced_clbid_lookup_map_
allowed_inserts = lambda self, ctx: [e for e in at(ctx, self.path) if isinstance(e, InsertionException) and e.clbid not in self.excluded_clbids]
pool = lambda self, ctx: ctx.transcript_with_failed_ if self.include_failed else ctx.transcript_
available = lambda self, ctx: [c for c in pool(self, ctx) if c.clbid not in self.excluded_clbids]
matching = lambda self, items: [c for c in items if self.where is None or self.where.apply(c)]
arriving = lambda self, ctx: [named(ctx, e.clbid) for e in allowed_inserts(self, ctx) if e.forced or e.clbid in ctx.clbid_lookup_map_]

data = lambda self, ctx: self.get_filtered_data(ctx=ctx)
data_args = {'self': query(source=EnumT(SRC, (SRC.Courses,))), 'ctx': qctx_t}
data_ok = lambda self, ctx: all(known(ctx, e.clbid) for e in allowed_inserts(self, ctx) if e.forced)
Contract('C18', 'query.courses', data, data_args, {
    'matching-plus-inserted': lambda self, ctx, result: result[0] == matching(self, available(self, ctx)) + arriving(self, ctx),
    'inserted-ids': lambda self, ctx, result: result[1] == tuple([e.clbid for e in allowed_inserts(self, ctx)]),
    'forced-ids': lambda self, ctx, result: result[2] == tuple([e.clbid for e in allowed_inserts(self, ctx) if e.forced])},
    requires=data_ok, eq_positive=True, gen=lambda g: inserting(SRC.Courses)(g) if g.rng.random() < 0.7 else {}, statement='a course query looks at exactly the courses of the transcript (with the failed ones if asked) that match and are not excluded, plus the ones inserted there')


def inserting(source):
    """Insertions, forced insertions and exclusions of the courses there are."""
    def gen(g):
        me, ctx = query(source=ConstT(source)).gen(g), qctx_t.gen(g)
        ids = list(ctx.clbid_lookup_map_) + list(ctx.forced_clbid_lookup_map_) + ['absent']
        one = lambda i: InsertionException(path=me.path, clbid=i, forced=i in ctx.forced_clbid_lookup_map_ and g.rng.random() < 0.6 or i != 'absent' and g.rng.random() < 0.3, type=ExceptionAction.Insert)
        ctx.exceptions = {me.path: [one(g.rng.choice(ids)) for _ in range(g.rng.randint(0, 4))]} if g.rng.random() < 0.8 else {}
        if g.rng.random() < 0.7:
            me = attr.evolve(me, excluded_clbids=frozenset(g.rng.sample(ids, min(len(ids), g.rng.randint(0, 2)))))
        return {'self': me, 'ctx': ctx}
    return gen


for _src, _items in ((SRC.Areas, lambda ctx: ctx.areas), (SRC.MusicPerformances, lambda ctx: ctx.music_performances), (SRC.MusicAttendances, lambda ctx: ctx.music_attendances)):
    def other_items(items):
        return lambda self, ctx, result: result[0] == matching(self, items(ctx)) and result[1] == () and result[2] == ()
    Contract('C18', f'query.{_src.value.replace(" ", "-")}', data, {'self': query(source=ConstT(_src)), 'ctx': qctx_t}, {'matching': other_items(_items)}, eq_positive=True, statement=f'a query over {_src.value} looks at exactly the matching ones')

Contract('C18', 'query.claimed', data, {'self': query(source=ConstT(SRC.Claimed)), 'ctx': qctx_t}, {
    'inserted-only': lambda self, ctx, result: result[0] == arriving(self, ctx),
    'inserted-ids': lambda self, ctx, result: result[1] == tuple([e.clbid for e in allowed_inserts(self, ctx)]),
    'forced-ids': lambda self, ctx, result: result[2] == tuple([e.clbid for e in allowed_inserts(self, ctx) if e.forced])},
    requires=data_ok, eq_positive=True, gen=inserting(SRC.Claimed), statement='before anything is claimed, a query over claimed courses has only the courses inserted there')


def rule_kept(a, b):
    return (a.path == b.path and a.source is b.source and a.where is b.where and a.assertions == b.assertions and a.limit == b.limit and a.allow_claimed == b.allow_claimed and a.attempt_claims == b.attempt_claims
            and a.record_claims == b.record_claims and a.include_failed == b.include_failed and a.overridden == b.overridden and a.inserted == b.inserted)


block_t = ObjT(BlockException, {'path': path_t, 'clbid': StrT(CLBIDS), 'type': ConstT(ExceptionAction.Block)})
Contract('C15', 'query.block', lambda rule, to_block: rule.apply_block_exception(to_block), {'rule': query(), 'to_block': block_t}, {
    'kept-out-there-only': lambda rule, to_block, result, other: (other in result.excluded_clbids) == (other in rule.excluded_clbids or (rule.path == to_block.path and other == to_block.clbid)),
    'rest-unchanged': lambda rule, result: rule_kept(rule, result)}, ghost={'other': StrT(CLBIDS)}, statement='a block keeps exactly its class out of exactly the query at its path')
Contract('C19', 'query.exclude', lambda rule, to_exclude: rule.exclude_required_courses(to_exclude), {'rule': query(), 'to_exclude': SeqT(course_t, kind='list', maxlen=3)}, {
    'withheld': lambda rule, to_exclude, result, other: (other in result.excluded_clbids) == (other in rule.excluded_clbids or any(c.clbid == other for c in to_exclude)),
    'rest-unchanged': lambda rule, result: rule_kept(rule, result)}, ghost={'other': StrT(CLBIDS)}, statement='the courses another part cannot do without are withheld from a query')

# ------------------------------------------------------------------ claims
claim_answer_t = BoolT()


def claims_by_contract(vm, args, kwargs):
    """make_claim by its contract (C04): a claim on that course for that path, failed or not, never failed when claims are allowed."""
    from pyvc.values import SBool
    vm.used_models.add('make_claim by its C04 contract: a claim on that course for that path; whether it fails is left open, except that it cannot when claiming is allowed')
    allow = kwargs.get('allow_claimed', False)
    bs = [v for v, _ in vm.binders]
    t = z3.Function('claim-failed', *[b.sort() for b in bs], ObjSort, z3.BoolSort())(*bs, vm.term(vm.resolve(kwargs['course'])))
    vm.abstracted.add('claim-failed')
    free = zb(vm.truthy(allow))
    vm.fact(z3.Implies(free, z3.Not(t)))
    return vm.attr_new(Claim, [], {'course': kwargs['course'], 'claimed_by': kwargs['path'], 'failed': SBool(t)})


CLAIMS = {RequirementContext.make_claim: claims_by_contract}
collect = lambda self, ctx: self.collect_courses(ctx)
sol_args = {'self': query(QuerySolution), 'ctx': claim_ctx_t}


def once(items):
    """A course counts once, however often it was listed."""
    return tuple(dict.fromkeys(items))


def all_tried(self, result):
    """Every course tried is claimed or refused, never both, and only claimed ones count."""
    return result.claimed_items == tuple([c.course for c in result.successful_claims]) if (self.attempt_claims or self.record_claims) else result.claimed_items == once(self.output)


def for_this_path(self, result):
    return all(c.claimed_by == self.path and not c.failed for c in result.successful_claims) and all(c.claimed_by == self.path and c.failed for c in result.failed_claims)


def unclaimed_mode(self, result):
    if self.attempt_claims:
        return True
    return result.claimed_items == once(self.output) and len(result.failed_claims) == 0 and (self.record_claims or len(result.successful_claims) == 0)


def may_not_fail(self, result):
    if not self.attempt_claims:
        return True
    return all(not (self.allow_claimed or c.course.clbid in self.force_inserted) for c in result.failed_claims)


def nothing_lost(self, result):
    if not self.attempt_claims:
        return True
    return all(any(c is k.course for k in result.successful_claims) or any(c is k.course for k in result.failed_claims) for c in once(self.output))


Contract('C18', 'query.claims', collect, sol_args, {'only-claimed-count': all_tried, 'for-this-path': for_this_path, 'without-claiming': unclaimed_mode, 'allowed-claims-hold': may_not_fail, 'nothing-lost': nothing_lost}, summaries=CLAIMS, eq_positive=True,
         statement='a course query counts exactly the courses it could claim, and claims every course it tries unless told not to')

# ------------------------------------------------------------------ from: claimed
claimed_ctx_t = RecT(RequirementContext, ctx_fields(transcript_=ConstT(lambda: []), exceptions=groups_t, multicountable=ConstT(lambda: {})))
claimed_ok = lambda self, ctx: all(known(ctx, i) for i in ctx.claims) and all(known(ctx, i) for i in self.force_inserted)
already = lambda self, ctx: [c for c in [named(ctx, i) for i in ctx.claims] if (self.where is None or self.where.apply(c)) and c.clbid not in self.excluded_clbids]
from_claimed = lambda self, ctx: self.collect_claimed_courses(ctx)


def recorded(self, result):
    if not self.record_claims:
        return len(result.successful_claims) == 0
    return tuple([c.course for c in result.successful_claims]) == result.claimed_items and all(c.claimed_by == self.path and not c.failed for c in result.successful_claims)


Contract('C18', 'query.from-claimed', from_claimed, {'self': query(QuerySolution, source=ConstT(SRC.Claimed)), 'ctx': claimed_ctx_t}, {
    'claimed-before': lambda self, ctx, result: result.claimed_items == once(already(self, ctx) + [named(ctx, i) for i in self.inserted if i in self.force_inserted or known(ctx, i)]),
    'recorded': recorded, 'nothing-refused': lambda result: len(result.failed_claims) == 0},
    requires=claimed_ok, summaries=CLAIMS, eq_positive=True, statement='a "from: claimed" query counts exactly the matching courses other requirements have claimed, plus the ones inserted there')

# ------------------------------------------------------------------ auditing a selection
from dp.solution.query import AuditResult
from dp.result.query import QueryResult


def collected_by_contract(vm, args, kwargs):
    """collect_courses / collect_claimed_courses by their contracts above: any items and claims, the same on every call."""
    vm.used_models.add('collect_courses and collect_claimed_courses by their contracts: some items and claims')
    items = SeqT(course_t).sym(vm, 'collected:items', [vm.term(args[0])])
    good = SeqT(claim_t).sym(vm, 'collected:claims', [vm.term(args[0])])
    bad = SeqT(claim_t).sym(vm, 'collected:failed', [vm.term(args[0])])
    return vm.attr_new(AuditResult, [], {'claimed_items': items, 'successful_claims': good, 'failed_claims': bad})


def twin(ctx):
    """The same context, so that the collection can be looked at without claiming anything in the one under test."""
    import attr
    from collections import defaultdict
    return attr.evolve(ctx, claims=defaultdict(list, {k: list(v) for k, v in ctx.claims.items()}))


COLLECT = {twin: lambda vm, args, kwargs: args[0], QuerySolution.collect_courses: collected_by_contract, QuerySolution.collect_claimed_courses: collected_by_contract}


def fetched(self, ctx):
    if self.source is SRC.Courses:
        return self.collect_courses(ctx)
    if self.source is SRC.Claimed:
        return self.collect_claimed_courses(ctx)
    return AuditResult(claimed_items=tuple(self.output))


def mixed(self):
    lt = [a for a in self.assertions if a.is_lt_clause()]
    rest = [a for a in self.assertions if not a.is_lt_clause()]
    return any(True for a in lt) and any(True for a in rest)


def audited(self, ctx, result, old):
    if self.overridden:
        return result.assertions == self.assertions and result.overridden
    got = old['got'].claimed_items
    if self.source is SRC.Courses and len(got) == 0 and mixed(self):
        return result.assertions == self.assertions and not result.overridden
    return result.assertions == tuple([a.audit_and_resolve(got, ctx=ctx) for a in self.assertions]) and not result.overridden


def same_claims(a, b):
    return [c.course for c in a] == [c.course for c in b] and [c.claimed_by for c in a] == [c.claimed_by for c in b] and [c.failed for c in a] == [c.failed for c in b]


def keeps_claims(self, result, old):
    if self.overridden:
        return len(result.successful_claims) == 0 and len(result.failed_claims) == 0
    return same_claims(result.successful_claims, old['got'].successful_claims) and same_claims(result.failed_claims, old['got'].failed_claims)


def same_rule(self, result):
    return (result.source is self.source and result.path == self.path and result.where is self.where and result.inserted == self.inserted and result.force_inserted == self.force_inserted
            and result.allow_claimed == self.allow_claimed and result.attempt_claims == self.attempt_claims and result.record_claims == self.record_claims and result.include_failed == self.include_failed
            and result.excluded_clbids == self.excluded_clbids)


def remember(self, ctx):
    return {'got': None if self.overridden else fetched(self, twin(ctx))}


Contract('C18', 'query.audit', lambda self, ctx: self.audit(ctx=ctx), {'self': query(QuerySolution, source=EnumT(SRC), output=SeqT(course_t, maxlen=3)), 'ctx': claimed_ctx_t}, {'assertions-over-claimed': audited, 'claims-kept': keeps_claims, 'same-query': same_rule},
         summaries=COLLECT, old=remember, requires=claimed_ok, eq_positive=True,
         statement='the assertions of a query are decided over exactly the items it claimed; they stay undecided only when there are none and an upper bound is mixed with other assertions')

made = lambda self, items, extra, forced: QuerySolution.from_rule(rule=self, output=items, inserted=extra, force_inserted=forced)


def carries(self, items, extra, forced, result):
    return (result.output == items and result.inserted == self.inserted + extra and result.force_inserted == self.force_inserted + forced and result.source is self.source and result.path == self.path
            and result.where is self.where and result.assertions == self.assertions and result.allow_claimed == self.allow_claimed and result.attempt_claims == self.attempt_claims
            and result.record_claims == self.record_claims and result.include_failed == self.include_failed and result.overridden == self.overridden)


ids_t = SeqT(StrT(CLBIDS), maxlen=2)
Contract('C18', 'query.selection', made, {'self': query(), 'items': SeqT(course_t, maxlen=3), 'extra': ids_t, 'forced': ids_t}, {'carries-the-rule': carries}, eq_positive=True,
         statement='a selection keeps the filter, flags, assertions and exceptions of the query it was made from')

# ------------------------------------------------------------------ the selections that are tried
import dp.rule.query as rq


def kept_by_contract(vm, args, kwargs):
    """LimitSet.limited_transcripts by its contract (C12): some sub-selections of the courses."""
    vm.used_models.add('LimitSet.limited_transcripts by its C12 contract: some selections of the courses')
    return SeqT(SeqT(course_t)).sym(vm, 'kept', [])


def combos_by_contract(vm, args, kwargs):
    """iterate_item_set by its contract (C14): some selections of the items, a function of the items."""
    vm.used_models.add('iterate_item_set by its C14 contract: some selections of its items')
    return SeqT(SeqT(course_t)).sym(vm, 'combos', [vm.content(vm.as_seq(vm.resolve(args[0])))])


def filtered_by_contract(vm, args, kwargs):
    """get_filtered_data by its contracts above: the items to look at, the inserted ids, and which of them are forced."""
    vm.used_models.add('get_filtered_data by its contracts: some items, the ids inserted and the forced ones among them')
    me = [vm.term(args[0])]
    items = SeqT(course_t, kind='list').sym(vm, 'found:items', me)
    ins = SeqT(StrT()).sym(vm, 'found:inserted', me)
    forced = SeqT(StrT()).sym(vm, 'found:forced', me)
    f = forced.segs[0]
    with vm.scope(f.binders):
        vm.fact(z3.Implies(f.rng(), zb(vm.member_segs(f.elem, ins.segs))))
    return (items, ins, forced)


FOUND = {QueryRule.get_filtered_data: filtered_by_contract, LimitSet.limited_transcripts: kept_by_contract, rq.iterate_item_set: combos_by_contract}
tried = lambda self, ctx: list(self.solutions(ctx=ctx))


def wanted(self, ctx):
    """What the rule says must be tried, in order."""
    data, ins, forced = self.get_filtered_data(ctx=ctx)
    return [c for c in rq.iterate_item_set(data, rule=self)]


other_t = query(source=EnumT(SRC, (SRC.Areas, SRC.MusicPerformances, SRC.MusicAttendances)), overridden=ConstT(False), assertions=ConstT(()))


def each_tried(self, ctx, result):
    want = wanted(self, ctx)
    if not any(True for w in want):
        return [s.output for s in result] == [()]
    return [s.output for s in result] == want


Contract('C18', 'query.tries-others', tried, {'self': other_t, 'ctx': qctx_t}, {'each-selection': each_tried}, summaries=FOUND, eq_positive=True,
         statement='every selection of the matching items is tried, and an empty one when there is none')

course_q = query(source=ConstT(SRC.Courses), overridden=ConstT(False), assertions=ConstT(()))


def course_selections(self, ctx):
    data, ins, forced = self.get_filtered_data(ctx=ctx)
    if not self.attempt_claims:
        return [tuple(kept) for kept in self.limit.limited_transcripts(data, forced_clbids=forced)]
    kept_sets = self.limit.limited_transcripts(data, forced_clbids=forced)
    if len(ins) == 0:
        return [tuple(combo) for kept in kept_sets for combo in rq.iterate_item_set(kept, rule=self)]
    return [tuple(list(combo) + [c for c in kept if c.clbid in ins and c.clbid not in [d.clbid for d in combo]]) for kept in kept_sets for combo in rq.iterate_item_set(kept, rule=self)]


def each_course_tried(self, ctx, result):
    want = course_selections(self, ctx)
    if not any(True for w in want):
        return [s.output for s in result] == [()]
    return [s.output for s in result] == want


def stamped(self, ctx, result):
    data, ins, forced = self.get_filtered_data(ctx=ctx)
    return all(s.inserted == self.inserted + ins and s.force_inserted == self.force_inserted + forced and s.path == self.path for s in result)




def leaving_out(g):
    """Insertions into a query whose limits leave some of its courses out."""
    env = inserting(SRC.Courses)(g)
    if len(env['ctx'].transcript_) > 4:
        return {}
    pick = frozenset(c.clbid for c in env['ctx'].transcript_ if g.rng.random() < 0.8)
    low = g.rng.choice((100, 200, 300))
    where = g.rng.choice(({'clbid': {'$in': sorted(pick) or ['none']}}, {'level': {'$gte': low}}, {'credits': {'$gt': 0}}))
    one = Limit(at_most=Decimal(g.rng.choice((0, 1, 1, 2))), at_most_what=g.rng.choice(list(AtMostWhat)), where=load_predicate(where, c=Constants(matriculation_year=2000), ctx=RequirementContext(), mode=DT.Course), message=None)
    env['self'] = attr.evolve(env['self'], limit=LimitSet(limits=(one,)), assertions=(), overridden=False, attempt_claims=g.rng.random() < 0.7)
    return env


Contract('C18', 'query.tries-courses', tried, {'self': course_q, 'ctx': qctx_t}, {'each-selection': each_course_tried, 'told-what-was-inserted': stamped}, summaries=FOUND, requires=data_ok, eq_positive=True,
         gen=lambda g: leaving_out(g) if g.rng.random() < 0.7 else {},
         statement='every selection within the limits is tried, with the inserted courses of the selection added once')

def waiving(g):
    me, ctx = query().gen(g), qctx_t.gen(g)
    ctx.exceptions = {me.path: [OverrideException(path=me.path, status=RS.Waived, type=ExceptionAction.Override)]}
    return {'self': me, 'ctx': ctx}


def nothing_to_choose(self, ctx, result):
    data, ins, forced = self.get_filtered_data(ctx=ctx)
    if self.overridden:
        return [(s.output, s.inserted, s.force_inserted) for s in result] == [((), self.inserted, self.force_inserted)]
    return [(s.output, s.inserted, s.force_inserted) for s in result] == [((), self.inserted + ins, self.force_inserted + forced)]


Contract('C18', 'query.tries-claimed', tried, {'self': query(source=ConstT(SRC.Claimed), overridden=BoolT()), 'ctx': qctx_t}, {'once': nothing_to_choose}, summaries=FOUND, requires=data_ok, eq_positive=True,
         statement='a query over claimed courses chooses nothing itself: it is tried once')
Contract('C18', 'query.tries-waived', tried, {'self': query(overridden=ConstT(True)), 'ctx': qctx_t}, {'once': nothing_to_choose}, summaries=FOUND, requires=data_ok, eq_positive=True,
         statement='a waived query is tried once, with nothing')

def guess_by_contract(vm, args, kwargs):
    """estimate_item_set by its contract (C14): some number, a function of the items."""
    vm.used_models.add('estimate_item_set by its C14 contract: some number for its items')
    return IntT(lo=0).sym(vm, 'guess', [vm.content(vm.as_seq(vm.resolve(args[0])))])


def guessed(self, ctx, result):
    data, ins, forced = self.get_filtered_data(ctx=ctx)
    if self.source in (SRC.Courses, SRC.Claimed):
        n = sum(rq.estimate_item_set(kept, rule=self) for kept in self.limit.limited_transcripts(data, forced_clbids=forced))
    else:
        n = rq.estimate_item_set(data, rule=self)
    return result == (n if n > 0 else 1)


guess = lambda self, ctx: self.estimate(ctx=ctx)
Contract('C19', 'query.estimate', guess, {'self': query(overridden=ConstT(False), attempt_claims=ConstT(True), assertions=ConstT(())), 'ctx': qctx_t}, {'of-every-selection': guessed}, summaries={**FOUND, rq.estimate_item_set: guess_by_contract},
         requires=lambda self, ctx: data_ok(self, ctx) and not any(True for e in at(ctx, self.path)), eq_positive=True, statement='the estimate of a query adds up those of all selections its limits leave, and is never zero')
Contract('C19', 'query.estimate-waived', guess, {'self': query(), 'ctx': qctx_t}, {'one': lambda result: result == 1}, summaries={**FOUND, rq.estimate_item_set: guess_by_contract},
         requires=lambda self, ctx: data_ok(self, ctx) and any(isinstance(e, OverrideException) for e in at(ctx, self.path)), gen=waiving, statement='a waived query is estimated at one solution')

# ------------------------------------------------------------------ what may be solved apart
apart_t = query(source=EnumT(QuerySource), allow_claimed=BoolT(), attempt_claims=BoolT(), record_claims=BoolT())
Contract('C19', 'query.apart', lambda rule: (rule.is_always_disjoint(), rule.is_never_disjoint()), {'rule': apart_t},
         {'claims-nothing': lambda rule, result: result[0] == (rule.allow_claimed and not rule.attempt_claims and rule.source is not QuerySource.Claimed),
          'looks-at-claims': lambda rule, result: result[1] == (rule.source is QuerySource.Claimed)},
         statement='a query over claimed courses depends on every other rule; one that neither claims courses nor minds their being claimed depends on none')

# ------------------------------------------------------------------ whether a query can match anything, what, and how many selections it has
BESIDE = {SRC.Courses: lambda self, ctx: available(self, ctx), SRC.Areas: lambda self, ctx: ctx.areas, SRC.MusicPerformances: lambda self, ctx: ctx.music_performances, SRC.MusicAttendances: lambda self, ctx: ctx.music_attendances}


def beneath(ctx, path):
    return any(len(k) >= len(path) and k[:len(path)] == path for k in ctx.exceptions)


def may_match(self, ctx, result):
    if any(a.is_lt_clause() for a in self.assertions) or any(a.is_at_least_0_clause() for a in self.assertions):
        return result is True
    return result == any(True for c in BESIDE[self.source](self, ctx) if self.where is None or self.where.apply(c))


for _src in BESIDE:
    Contract('C19', f'query.potential.{_src.value.replace(" ", "-")}', lambda self, ctx: self.has_potential(ctx=ctx), {'self': query(source=ConstT(_src)), 'ctx': RecT(RequirementContext, ctx_fields(
        transcript_with_failed_=SeqT(course_t, kind='list', maxlen=4), claims=ConstT(lambda: {}), multicountable=ConstT(lambda: {}), areas=SeqT(area_item, maxlen=2), music_performances=SeqT(perf_item, maxlen=2), music_attendances=SeqT(recital_item, maxlen=2)))},
        {'if-something-matches': may_match}, statement='a query is tried when an item of its source matches, or when nothing needs to')
Contract('C19', 'query.potential.claimed', lambda self, ctx: self.has_potential(ctx=ctx), {'self': query(source=ConstT(SRC.Claimed)), 'ctx': qctx_t}, {'always': lambda result: result is True}, statement='a query over claimed courses is always tried')
Contract('C19', 'query.potential.excepted', lambda self, ctx: self.has_potential(ctx=ctx), {'self': query(), 'ctx': qctx_t}, {'when-excepted': lambda result: result is True}, requires=lambda self, ctx: any(True for e in at(ctx, self.path)) and self.path in ctx.exceptions,
         statement='a query with an exception at its path is tried')
Contract('C19', 'query.matches', lambda self, ctx: self.all_matches(ctx=ctx), {'self': query(source=EnumT(SRC, (SRC.Courses,))), 'ctx': qctx_t}, {'what-it-looks-at': lambda self, ctx, result: result == self.get_filtered_data(ctx=ctx)[0]}, eq_positive=True, summaries=FOUND,
         requires=data_ok, statement='what a query may match is what it looks at')
