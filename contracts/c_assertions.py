"""Assertions: what status and rank an `assert:` ends with, given the items it looks at."""
from contracts.common import *
from contracts.c_predicates import pred_t, area_t
from dp.assertion_clause import Assertion, ConditionalAssertion, DynamicConditionalAssertion
from dp.op import Operator as OP
from dp.data_type import DataType as DT
import dp.apply_clause as ac
from contracts.c_aggregates import perf_t, att_t

COMPARE = [OP.LessThan, OP.LessThanOrEqualTo, OP.GreaterThan, OP.GreaterThanOrEqualTo, OP.EqualTo, OP.NotEqualTo]
expected_t = RealT(lo=0, pool=('0', '1', '2', '3', '0.5', '4'))


def assertion(key, dt, **over):
    f = {'path': path_t, 'state': EnumT(RS), 'data_type': ConstT(dt), 'where': ConstT(None), 'key': ConstT(key), 'operator': EnumT(OP, COMPARE), 'expected': expected_t,
         'original': ConstT(None), 'changes': ConstT(()), 'at_most': BoolT(), 'message': ConstT(None), 'label': ConstT(None), 'treat_in_progress_as_pass': BoolT(),
         'evaluated': BoolT(), 'overridden': ConstT(False), 'resolved': ConstT(None), 'resolved_items': ConstT(None), 'resolved_clbids': ConstT(None), 'inserted_clbids': ConstT(None)}
    f.update(over)
    return ObjT(Assertion, f)


def holds(op, x, y):
    if op is OP.LessThan:
        return x < y
    if op is OP.LessThanOrEqualTo:
        return x <= y
    if op is OP.GreaterThan:
        return x > y
    if op is OP.GreaterThanOrEqualTo:
        return x >= y
    if op is OP.EqualTo:
        return x == y
    return x != y


def unmet(op, x, y):
    """The status of an assertion that does not hold."""
    if op is OP.LessThan or op is OP.LessThanOrEqualTo:
        return RS.FailedInvariant
    if op is OP.NotEqualTo or x <= 0 or x > y:
        return RS.Empty
    return RS.NeedsMoreItems


def course_status(key):
    action = ac.course_actions[key]

    def clause(self, data, result):
        full = action(data)
        if not holds(self.operator, full.value, self.expected):
            return result[0] is unmet(self.operator, full.value, self.expected)
        if self.treat_in_progress_as_pass or not any(c.is_in_progress for c in full.courses):
            return result[0] is RS.Done
        if holds(self.operator, action([c for c in data if not c.is_in_progress]).value, self.expected):
            return result[0] is RS.Done
        if any(c.is_in_progress_in_future for c in full.courses):
            return result[0] is RS.PendingRegistered
        return result[0] is RS.PendingCurrent
    return clause


ip_wf = lambda data: all((not c.is_in_progress) or c.is_in_progress_this_term or c.is_in_progress_in_future or c.is_incomplete for c in data)

for _key in ac.course_actions:
    Contract('C02', f'assert.{_key}', lambda self, data: self.evaluate(data), {'self': assertion(_key, DT.Course), 'data': SeqT(course_t, kind='list', maxlen=4)},
             {'status': course_status(_key)}, requires=ip_wf, summaries={ac.course_actions[_key]: aggregate_summary(_key, course_t)},
             statement=f'an assertion on {_key}: done, in progress, registered, started, failed or empty exactly as its courses say')

for _key, _dt, _item, _actions, _run in (('count(areas)', DT.Area, area_t, ac.area_actions, None), ('count(performances)', DT.MusicPerformance, perf_t, ac.other_actions, None), ('count(recitals)', DT.Recital, att_t, ac.other_actions, None)):
    def item_status(action):
        def clause(self, data, result):
            v = action(data).value
            if holds(self.operator, v, self.expected):
                return result[0] is RS.Done
            return result[0] is unmet(self.operator, v, self.expected)
        return clause
    Contract('C02', f'assert.{_key}', lambda self, data: self.evaluate(data), {'self': assertion(_key, _dt), 'data': SeqT(_item, kind='list', maxlen=4)},
             {'status': item_status(_actions[_key])}, summaries={_actions[_key]: aggregate_summary(_key, _item)},
             statement=f'an assertion on {_key}: done when its comparison holds, failed when an upper bound is broken')

# ------------------------------------------------------------------ the whole assertion: where, inserted and blocked courses, waivers
from contracts.c_exceptions import groups_t, at, InsertionException, BlockException
KEY = 'count(courses)'
whole_t = assertion(KEY, DT.Course, where=OptT(pred_t), overridden=BoolT())
actx_t = RecT(RequirementContext, ctx_fields(exceptions=groups_t, transcript_=ConstT(lambda: []), claims=ConstT(lambda: {}), multicountable=ConstT(lambda: {})))
AGG = {Assertion.evaluate: evaluate_summary(course_t)}
run_whole = lambda self, data, ctx: self.audit_and_resolve(data, ctx=ctx)
matched = lambda self, data: [c for c in data if self.where is None or self.where.apply(c)]
inserts = lambda self, ctx: [e for e in at(ctx, self.path) if isinstance(e, InsertionException)]
blocks = lambda self, ctx: [e for e in at(ctx, self.path) if isinstance(e, BlockException)]
no_exceptions = lambda self, data, ctx: len(inserts(self, ctx)) == 0 and len(blocks(self, ctx)) == 0
named = lambda ctx, clbid: ctx.clbid_lookup_map_[clbid] if clbid in ctx.clbid_lookup_map_ else ctx.forced_clbid_lookup_map_[clbid]
known = lambda ctx, clbid: clbid in ctx.clbid_lookup_map_ or clbid in ctx.forced_clbid_lookup_map_
no_blocks = lambda self, data, ctx: len(blocks(self, ctx)) == 0 and all(known(ctx, e.clbid) for e in inserts(self, ctx) if e.forced)


def whole_untouched(self, result):
    return (not self.overridden) or result is self


def whole_records(items):
    def clause(self, data, ctx, result):
        if self.overridden:
            return True
        st, agg = self.evaluate(items(self, data, ctx))
        return result.state is st and result.resolved == agg.value and result.evaluated and not result.overridden and result.resolved_clbids == tuple([c.clbid for c in agg.courses])
    return clause


def keeps_definition(self, result):
    return result.path == self.path and result.expected == self.expected and result.operator is self.operator and result.key == self.key and result.at_most == self.at_most


inserted_courses = lambda self, ctx: [named(ctx, e.clbid) for e in inserts(self, ctx) if e.forced or e.clbid in ctx.clbid_lookup_map_]


def with_inserts(self, data, ctx):
    base = matched(self, data)
    return base + [c for c in dict.fromkeys(inserted_courses(self, ctx)) if c not in base]


whole_args = {'self': whole_t, 'data': SeqT(course_t, kind='list', maxlen=4), 'ctx': actx_t}
Contract('C02', 'assert.where', run_whole, whole_args, {'waived-untouched': whole_untouched, 'matching-items-only': whole_records(lambda self, data, ctx: matched(self, data)), 'keeps-definition': keeps_definition},
         requires=lambda self, data, ctx: no_exceptions(self, data, ctx) and ip_wf(data), summaries=AGG, eq_positive=True,
         statement='an assertion looks at exactly the items its where-clause matches, and records the value and courses it counted')
Contract('C02', 'assert.inserts', run_whole, whole_args, {'matching-plus-inserted': whole_records(with_inserts),
         'inserted': lambda self, data, ctx, result: self.overridden or result.inserted_clbids == tuple([named(ctx, e.clbid).clbid for e in inserts(self, ctx) if e.forced or e.clbid in ctx.clbid_lookup_map_])},
         requires=lambda self, data, ctx: no_blocks(self, data, ctx) and ip_wf(with_inserts(self, data, ctx)), summaries=AGG, eq_positive=True,
         statement='courses inserted at the path of an assertion are counted by it, whether or not they match, and once even if they match as well')


def one_block(self, data, ctx, clbid):
    ctx.exceptions = {self.path: [BlockException(path=self.path, clbid=clbid, type=ExceptionAction.Block)]}
    return self.audit_and_resolve(data, ctx=ctx)


def without(xs, course):
    out = list(xs)
    if course in out:
        out.remove(course)
    return out


def unblocked(self, data, ctx, clbid, result):
    if self.overridden:
        return result is self
    items = without(matched(self, data), named(ctx, clbid)) if known(ctx, clbid) else matched(self, data)
    st, agg = self.evaluate(items)
    return result.state is st and result.resolved == agg.value and result.resolved_clbids == tuple([c.clbid for c in agg.courses])


one_course_each = lambda ctx: all(c.clbid == k for k, c in ctx.clbid_lookup_map_.items()) and all(c.clbid == k for k, c in ctx.forced_clbid_lookup_map_.items())
Contract('C02', 'assert.block', one_block, {**whole_args, 'clbid': StrT(CLBIDS)}, {'blocked-left-out': unblocked},
         requires=lambda self, data, ctx, clbid: ip_wf(data), summaries=AGG, eq_positive=True,
         statement='a course blocked at the path of an assertion is not counted by it, and nothing else is left out')


def mixed(self, data, ctx, result):
    if self.overridden:
        return result is self
    items = with_inserts(self, data, ctx)
    for e in blocks(self, ctx):
        if known(ctx, e.clbid):
            items = without(items, named(ctx, e.clbid))
    st, agg = self.evaluate(items)
    return result.state is st and result.resolved == agg.value and sorted(result.resolved_clbids) == sorted(c.clbid for c in agg.courses)


def mixed_env(g):
    self = assertion(g.rng.choice(['count(courses)', 'sum(credits)', 'count(terms)', 'average(grades)', 'count(terms_from_most_common_course)']), DT.Course, where=OptT(pred_t), overridden=BoolT()).gen(g)
    courses = [course_t.gen(g) for _ in range(5)]
    courses = [c for i, c in enumerate(courses) if c.clbid not in [d.clbid for d in courses[:i]]]
    look = {c.clbid: c for c in courses if g.rng.random() < 0.8}
    forced = {c.clbid: c for c in courses if g.rng.random() < 0.8}
    exs = []
    for _ in range(g.rng.randint(0, 4)):
        clbid = g.rng.choice(courses).clbid
        exs.append(g.rng.choice([lambda: InsertionException(path=self.path, clbid=clbid, forced=g.rng.random() < 0.5, type=ExceptionAction.Insert), lambda: BlockException(path=self.path, clbid=clbid, type=ExceptionAction.Block)])())
    ctx = RequirementContext()
    ctx.clbid_lookup_map_, ctx.forced_clbid_lookup_map_ = look, forced
    ctx.exceptions = {self.path: exs}
    return {'self': self, 'data': [c for c in courses if g.rng.random() < 0.6], 'ctx': ctx}


Contract('C02', 'assert.mixed-exceptions', run_whole, whole_args, {'inserted-and-blocked': mixed}, requires=lambda self, data, ctx: ip_wf(data) and ip_wf(list(ctx.forced_clbid_lookup_map_.values())) and all(known(ctx, e.clbid) for e in inserts(self, ctx) if e.forced), gen=mixed_env, mode='bounded',
         statement='any number of insertions and blocks at one assertion')

# ------------------------------------------------------------------ conditional assertions
branch_t = ObjT(Base, abstract=True, name='Branch', methods={'audit_and_resolve': Meth(ObjT(Base, abstract=True, name='Resolved'), deps=('data', 'ctx'))})
evaluated_cond_t = ObjT(Base, abstract=True, name='EvaluatedCondition', fields={'result': OptT(BoolT())})
condition_t = ObjT(Base, abstract=True, name='Condition', fields={'result': OptT(BoolT())}, methods={
    'evaluate': Meth(evaluated_cond_t, deps=('ctx',)), 'evaluate_against_data': Meth(evaluated_cond_t, deps=('data',))})
cond_assert_t = ObjT(ConditionalAssertion, {'path': path_t, 'condition': condition_t, 'when_true': branch_t, 'when_false': OptT(branch_t)})
dyn_assert_t = ObjT(DynamicConditionalAssertion, {'path': path_t, 'condition': condition_t, 'when_true': branch_t})
plain_ctx = RecT(RequirementContext, ctx_fields(transcript_=ConstT(lambda: []), clbid_lookup_map_=ConstT(lambda: {}), forced_clbid_lookup_map_=ConstT(lambda: {}), claims=ConstT(lambda: {}), multicountable=ConstT(lambda: {})))
cond_args = lambda t: {'self': t, 'data': SeqT(course_t, kind='list', maxlen=3), 'ctx': plain_ctx}


def cond_then(self, data, ctx, result):
    c = self.condition.evaluate(ctx=ctx)
    if c.result is True:
        return result.condition is c and result.when_true is self.when_true.audit_and_resolve(data, ctx=ctx) and result.when_false is self.when_false
    if self.when_false is not None:
        return result.condition is c and result.when_false is self.when_false.audit_and_resolve(data, ctx=ctx) and result.when_true is self.when_true
    return result is self


def dyn_then(self, data, ctx, result):
    c = self.condition.evaluate_against_data(data=data)
    if c.result is True:
        return result.condition is c and result.when_true is self.when_true.audit_and_resolve(data, ctx=ctx)
    return result is self


decided = lambda self, ctx: self.condition.evaluate(ctx=ctx).result is not None
Contract('C02', 'assert.if', run_whole, cond_args(cond_assert_t), {'selected-branch-audited': cond_then}, requires=decided,
         statement='a conditional assertion audits exactly the branch its condition selects, with the same items')
def refused(exc):
    return True


def never(result):
    return False


Contract('C02', 'assert.if-undecided', run_whole, cond_args(cond_assert_t), {'refused': never}, requires=lambda self, ctx: not decided(self, ctx), exc=refused,
         statement='a condition without an answer is an error, never a silent pass')
Contract('C02', 'assert.when', run_whole, cond_args(dyn_assert_t), {'audited-when-condition-holds': dyn_then}, statement='a $when assertion applies exactly when its condition holds over the matched courses')

# ------------------------------------------------------------------ what an assertion is loaded as
from dp.assertion_clause import load_single_assertion
from dp.constants import Constants
from dp.exception import ValueException, OverrideException
OPS = {'$gte': OP.GreaterThanOrEqualTo, '$gt': OP.GreaterThan, '$lte': OP.LessThanOrEqualTo, '$lt': OP.LessThan, '$eq': OP.EqualTo, '$neq': OP.NotEqualTo}
lctx_t = RecT(RequirementContext, ctx_fields(exceptions=groups_t, areas=SeqT(area_t, maxlen=3), transcript_=ConstT(lambda: []), clbid_lookup_map_=ConstT(lambda: {}), forced_clbid_lookup_map_=ConstT(lambda: {}), claims=ConstT(lambda: {}), multicountable=ConstT(lambda: {})))


def load_one(op, n, at_most, ip, path, ctx):
    return load_single_assertion({'assert': {'count(courses)': {op: n, 'at_most': at_most, 'treat_in_progress_as_pass': ip}}}, c=Constants(), ctx=ctx, path=path, data_type=DT.Course)


def loaded(op, n, at_most, ip, path, ctx, result):
    own = path + ('.assert',)
    values = [e.value for e in at(ctx, own) if isinstance(e, ValueException)]
    waived = any(isinstance(e, OverrideException) for e in at(ctx, own))
    return (result.path == own and result.operator is OPS[op] and result.expected == (values[0] if len(values) > 0 else n) and result.key == 'count(courses)' and result.at_most is at_most
            and result.treat_in_progress_as_pass is ip and result.overridden is waived and result.state is (RS.Waived if waived else RS.Empty))


seg3 = PathT(pool=('$', '%A', '%B', '[0]', '.query'), maxlen=3)


def load_env(op):
    def gen(g):
        path = seg3.gen(g)
        ctx = lctx_t.gen(g)
        if g.rng.random() < 0.7:
            own = path + ('.assert',)
            exs = [ValueException(path=own, value=Decimal(g.rng.randint(0, 4)), type=ExceptionAction.Value), OverrideException(path=own, status=RS.Waived, type=ExceptionAction.Override), InsertionException(path=own, clbid='1', forced=False, type=ExceptionAction.Insert)]
            ctx.exceptions = {g.rng.choice([own, path, own[1:]]): g.rng.sample(exs, g.rng.randint(0, 3))}
        return {'op': op, 'n': g.rng.randint(0, 5), 'at_most': g.rng.random() < 0.5, 'ip': g.rng.random() < 0.5, 'path': path, 'ctx': ctx}
    return gen


for _op in OPS:
    Contract('C02', f'assert.load.{_op}', load_one, {'op': ConstT(_op), 'n': IntT(lo=0, pool=(0, 1, 2, 3)), 'at_most': BoolT(), 'ip': BoolT(), 'path': seg3, 'ctx': lctx_t}, {'as-written-unless-overridden': loaded}, gen=load_env(_op),
             statement='an assertion is loaded with the operator and number written; a value exception at its path replaces the number, a waiver waives it, any other exception changes nothing')


def load_change(mode, m, n, code, path, ctx):
    return load_single_assertion({'assert': {'count(courses)': {'$gte': n, '$changes': [({'has-declared-area-code': code}, {mode: m})]}}}, c=Constants(), ctx=ctx, path=path, data_type=DT.Course)


def excepted(ctx, own, otherwise):
    values = [e.value for e in at(ctx, own) if isinstance(e, ValueException)]
    return values[0] if len(values) > 0 else otherwise


def changed(mode, m, n, code, path, ctx, result):
    own = path + ('.assert',)
    if not any(a.code == code for a in ctx.areas):
        return result.expected == excepted(ctx, own, n)
    return result.expected == excepted(ctx, own, n + m if mode == 'add' else n - m if mode == 'subtract' else m)


def load_two(modes, m, k, n, code, other, path, ctx):
    return load_single_assertion({'assert': {'count(courses)': {'$gte': n, '$changes': [({'has-declared-area-code': code}, {modes[0]: m}), ({'has-declared-area-code': other}, {modes[1]: k})]}}}, c=Constants(), ctx=ctx, path=path, data_type=DT.Course)


def adjust(ctx, code, mode, n, m):
    if not any(a.code == code for a in ctx.areas):
        return n
    return n + m if mode == 'add' else n - m if mode == 'subtract' else m


def changed_twice(modes, m, k, n, code, other, path, ctx, result):
    return result.expected == excepted(ctx, path + ('.assert',), adjust(ctx, other, modes[1], adjust(ctx, code, modes[0], n, m), k))


def change_env(g):
    return {k: v for k, v in load_env('$gte')(g).items() if k in ('path', 'ctx', 'n')}


change_args = {'m': IntT(lo=0, pool=(0, 1, 2, 3)), 'n': IntT(lo=0, pool=(0, 1, 2, 3)), 'code': StrT(('110', '120', 'x')), 'path': seg3, 'ctx': lctx_t}
for _mode in ('add', 'subtract', 'set'):
    Contract('C02', f'assert.change.{_mode}', load_change, {'mode': ConstT(_mode), **change_args}, {'applies-when-condition-holds': changed}, gen=change_env,
             statement='a $changes entry adjusts the expected number exactly when its condition holds; a value exception replaces the adjusted number')
for _m1, _m2 in (('add', 'subtract'), ('add', 'set'), ('set', 'add')):
    Contract('C02', f'assert.changes.{_m1}-{_m2}', load_two, {'modes': ConstT((_m1, _m2)), 'k': IntT(lo=0, pool=(0, 1, 2, 3)), 'other': StrT(('110', '120', 'x')), **change_args}, {'applied-in-order': changed_twice}, gen=change_env,
             statement='$changes entries are applied one after the other, in the order written')

# ------------------------------------------------------------------ status and rank as a part of a query (C01, C03)
RES = [None]
ranked_t = assertion(KEY, DT.Course, operator=EnumT(OP, COMPARE), overridden=BoolT(), resolved=OptT(RealT(lo=0, pool=('0', '1', '2', '0.5'))))


def assertion_rank(self, result):
    if self.state in W_D:
        return result[0] == 1 and result[1] == 1
    if self.resolved is None or self.expected == 0 or self.operator is OP.LessThan or self.operator is OP.LessThanOrEqualTo:
        return result[0] == 0 and result[1] == 1
    off = result[0] * self.expected - (self.resolved if self.resolved < self.expected else self.expected)
    return result[1] == 1 and 0 <= result[0] <= 1 and -off < Decimal('1e-20') and off < Decimal('1e-20')


Contract('C03', 'assertion.rank', lambda self: self.rank(), {'self': ranked_t}, {'share-of-expected': assertion_rank}, statement='an assertion ranks as the share of its expected number it has reached, never above one')
rbranch_t = ObjT(Base, abstract=True, name='RBranch', methods={'status': Meth(EnumT(RS)), 'rank': RANK})
rcond_t = ObjT(ConditionalAssertion, {'path': path_t, 'condition': evaluated_cond_t, 'when_true': rbranch_t, 'when_false': OptT(rbranch_t)})
rdyn_t = ObjT(DynamicConditionalAssertion, {'path': path_t, 'condition': evaluated_cond_t, 'when_true': rbranch_t})


def if_status(self, result):
    if self.condition.result is True:
        return result is self.when_true.status()
    if self.condition.result is False and self.when_false is not None:
        return result is self.when_false.status()
    return result is RS.Empty


def if_rank(self, result):
    if self.condition.result is True:
        return result == self.when_true.rank()
    if self.condition.result is False and self.when_false is not None:
        return result == self.when_false.rank()
    return result[0] == 0 and result[1] == 1


def when_status(self, result):
    if self.condition.result is True:
        return result is self.when_true.status()
    if self.condition.result is None:
        return result is RS.Done
    return result is RS.Empty


Contract('C01', 'assertion.if.status', lambda self: self.status(), {'self': rcond_t}, {'selected-branch': if_status}, statement='a conditional assertion has the status of the branch its condition selects, and is empty without one')
Contract('C01', 'assertion.when.status', lambda self: self.status(), {'self': rdyn_t}, {'selected-branch': when_status}, statement='a $when assertion that does not apply never stands in the way')
Contract('C03', 'assertion.if.rank', lambda self: self.rank(), {'self': rcond_t}, {'selected-branch': if_rank}, statement='a conditional assertion ranks as the branch its condition selects')
Contract('C03', 'assertion.when.rank', lambda self: self.rank(), {'self': rdyn_t}, {'bounds': lambda result: 0 <= result[0] <= result[1] == 1 or 0 <= result[0] <= result[1]}, statement='0 <= rank <= max rank')
