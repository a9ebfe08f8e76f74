"""Limits: which courses of a kind may count at all."""
import itertools
from contracts.common import *
from dp.limit import Limit, LimitSet, AtMostWhat

where_t = ObjT(Base, abstract=True, name='Where', methods={'apply': Meth(BoolT(), deps=('to',))})
limit_args = {'self': RecT(Limit, {'at_most': RealT(lo=0, pool=('0', '1', '2', '0.5', '1.5')), 'at_most_what': EnumT(AtMostWhat), 'where': where_t, 'message': ConstT(None), '_cached_hash': ConstT(None)}),
              'courses': SeqT(course_t, kind='list', maxlen=4)}


def iterate(self, courses):
    return self.iterate(courses)


def whole(self):
    return self.at_most >= 0


def within(self, courses, result):
    """No selection goes over the limit."""
    if self.at_most_what is AtMostWhat.Courses:
        return all(len(sel) <= self.at_most for sel in result)
    return all(sum(c.credits for c in sel) <= self.at_most for sel in result)


def selected(self, courses, result):
    return all(all(c in courses for c in sel) for sel in result)


def nonempty(self, courses, result):
    if self.at_most_what is AtMostWhat.Credits and sum(c.credits for c in courses) > self.at_most:
        return True     # limit.offers (bounded) covers this case
    return any(True for sel in result)


Contract('C12', 'limit.iterate', iterate, limit_args, {'within-limit': within, 'from-the-matches': selected, 'never-nothing': nonempty}, requires=whole,
         statement='every selection a limit offers respects it and consists of matched courses, and there is at least one')


# ------------------------------------------------------------------ whole limit sets, against a brute-force reading of the limits
from dp.predicate_clause import load_predicate
from dp.constants import Constants
from dp.data_type import DataType
C0 = Constants(matriculation_year=2000)
WHERES = [{'subject': {'$eq': 'ART'}}, {'subject': {'$eq': 'BIO'}}, {'credits': {'$gte': '0.5'}}, {'institution': {'$eq': 'STOLAF'}}, {'level': {'$eq': 100}}, {'subject': {'$in': ['ART', 'AMST', 'BIO']}}, {'gereqs': {'$eq': 'WRI'}}]


def where_for(g):
    return load_predicate(g.rng.choice(WHERES), c=C0, ctx=RequirementContext(), mode=DataType.Course)


def some_courses(g, most=5):
    n = g.rng.randint(0, most)
    out = []
    for i in range(n):
        c = course_t.gen(g)
        out.append(attr_evolve(c, clbid=str(i), subject=g.rng.choice(['ART', 'ART', 'BIO', 'AMST']), credits=Decimal(g.rng.choice(['0', '0.25', '0.5', '1', '1']))))
    return out


def attr_evolve(c, **kw):
    import attr
    d = {f.name.lstrip('_'): getattr(c, f.name) for f in attr.fields(type(c)) if f.init}
    d.update(kw)
    return type(c)(**d)


def one_limit(g):
    kind = g.rng.choice([AtMostWhat.Courses, AtMostWhat.Courses, AtMostWhat.Credits])
    most = g.rng.choice(['0', '1', '1', '2', '3']) if kind is AtMostWhat.Courses else g.rng.choice(['0.5', '1', '1.5', '2', '0.25'])
    return Limit(at_most=Decimal(most), at_most_what=kind, where=where_for(g), message=None)


def set_env(g, lo=0, hi=3):
    limits = []
    for _ in range(g.rng.randint(lo, hi)):
        l = one_limit(g)
        if all(l != m for m in limits):
            limits.append(l)
    courses = some_courses(g)
    forced = tuple(c.clbid for c in courses if g.rng.random() < 0.15)
    return {'limits': LimitSet(limits=tuple(limits)), 'courses': courses, 'forced': forced}


def amount(limit, courses):
    hit = [c for c in courses if limit.where.apply(c)]
    return len(hit) if limit.at_most_what is AtMostWhat.Courses else sum(c.credits for c in hit)


def transcripts(limits, courses, forced):
    return list(limits.limited_transcripts(courses, forced_clbids=forced))


def free(limits, courses, forced):
    """Courses no limit speaks about, and the ones forced past the limits."""
    return [c for c in courses if c.clbid in forced or not any(l.where.apply(c) for l in limits.limits)]


def legal(limits, courses, forced, result):
    return all(amount(l, [c for c in t if c.clbid not in forced]) <= l.at_most for t in result for l in limits.limits)


def keeps_free(limits, courses, forced, result):
    return all(all(c in t for c in free(limits, courses, forced)) and all(c in courses for c in t) and len(set(c.clbid for c in t)) == len(t) for t in result)


def distinct(limits, courses, forced, result):
    return len(set(frozenset(c.clbid for c in t) for t in result)) == len(result)


def in_order(limits, courses, forced, result):
    return len(limits.limits) == 0 or all(list(t) == sorted(t, key=lambda c: c.sort_order()) for t in result)


def unlimited(limits, courses, forced, result):
    return len(limits.limits) > 0 or [list(t) for t in result] == [courses]


def best_offered(limits, courses, forced, result):
    """Every selection that respects the limits and could not be larger is offered."""
    base = free(limits, courses, forced)
    rest = [c for c in courses if c not in base]
    sets = []
    for k in range(len(rest) + 1):
        for sel in itertools.combinations(rest, k):
            if all(amount(l, sel) <= l.at_most for l in limits.limits):
                sets.append(frozenset(c.clbid for c in sel))
    maximal = [s for s in sets if not any(s < o for o in sets)]
    given = set(frozenset(c.clbid for c in t) for t in result)
    want = [frozenset(c.clbid for c in base) | s for s in maximal]
    return all(w in given for w in want)


limit_set = {'limits': ConstT(None), 'courses': ConstT(None), 'forced': ConstT(None)}
Contract('C12', 'limits.transcripts', transcripts, limit_set,
         {'within-every-limit': legal, 'keeps-the-rest': keeps_free, 'no-repeats': distinct, 'in-order': in_order, 'no-limits': unlimited},
         gen=set_env, mode='bounded', note='up to 3 limits and 5 courses', gen_n=3, statement='every limited transcript respects every limit and keeps every other course')
def shortcut(limits, courses, forced):
    """A credits limit that already fits offers only its whole match: the known finding
    concerns overlaps of such a limit with another one."""
    rest = [c for c in courses if c.clbid not in forced]
    for l in limits.limits:
        hit = [c for c in rest if l.where.apply(c)]
        if l.at_most_what is AtMostWhat.Credits and sum(c.credits for c in hit) <= l.at_most and any(m.where.apply(c) for m in limits.limits if m != l for c in hit):
            return True
    return False


def overlap_case():
    courses = [attr_evolve(course_t.gen(FixedG()), clbid=str(i), subject='ART', level=100, credits=Decimal(1)) for i in range(2)]
    limits = LimitSet(limits=(
        Limit(at_most=Decimal(2), at_most_what=AtMostWhat.Credits, where=load_predicate({'subject': {'$eq': 'ART'}}, c=C0, ctx=RequirementContext(), mode=DataType.Course), message=None),
        Limit(at_most=Decimal(1), at_most_what=AtMostWhat.Courses, where=load_predicate({'level': {'$eq': 100}}, c=C0, ctx=RequirementContext(), mode=DataType.Course), message=None)))
    return {'limits': limits, 'courses': courses, 'forced': ()}


class FixedG:
    words = numbers = ()

    def __init__(self):
        self.rng = random.Random(0)


Contract('C12', 'limits.overlapping-credits', transcripts, limit_set, {'never-nothing': lambda result: len(result) >= 1},
         gen=lambda g: overlap_case(), mode='bounded', note='one input: two ART courses at level 100, at most 2 credits of ART, at most 1 course at level 100', gen_n=0.003, statement='overlapping limits still leave some transcript')
Contract('C12', 'limits.complete', transcripts, limit_set, {'every-largest-selection': best_offered, 'never-nothing': lambda result: len(result) >= 1}, requires=lambda limits, courses, forced: not shortcut(limits, courses, forced),
         gen=set_env, mode='bounded', note='up to 3 limits and 5 courses', gen_n=3, statement='no admissible choice of courses is lost')


def estimate(limits, courses):
    return limits.estimate(courses), len(list(limits.limited_transcripts(courses)))


Contract('C12', 'limits.estimate', estimate, {'limits': ConstT(None), 'courses': ConstT(None)}, {'counts': lambda result: result[0] == result[1]},
         gen=lambda g: {k: v for k, v in set_env(g).items() if k != 'forced'}, mode='bounded', note='up to 3 limits and 5 courses', statement='the estimate is the number of limited transcripts')


def loaded(spec):
    return Limit.load(spec, c=C0, ctx=RequirementContext())


def load_env(g):
    key = g.rng.choice(['at most', 'at-most', 'at_most'])
    n = g.rng.choice([1, 2, '1', '3', '1 course', '2 courses', '1.5 credits', '1 credit', '0.5 credits', '2 books'])
    spec = {key: n, 'where': g.rng.choice(WHERES)}
    if g.rng.random() < 0.3:
        spec['message'] = 'm'
    if g.rng.random() < 0.15:
        spec['extra'] = 1
    if g.rng.random() < 0.1:
        del spec[key]
    return {'spec': spec}


def said(spec):
    n = [spec[k] for k in ('at most', 'at-most', 'at_most') if k in spec][0]
    parts = str(n).split()
    unit = parts[1] if len(parts) > 1 else 'courses'
    return Decimal(parts[0]), AtMostWhat.Credits if unit in ('credit', 'credits') else AtMostWhat.Courses


def well_formed_spec(spec):
    keys = [k for k in ('at most', 'at-most', 'at_most') if k in spec]
    return len(keys) == 1 and 'extra' not in spec and 'books' not in str(spec[keys[0]])


Contract('C12', 'limit.load', loaded, {'spec': ConstT(None)}, {'as-written': lambda spec, result: well_formed_spec(spec) and (result.at_most, result.at_most_what) == said(spec) and result.message == spec.get('message')
         and result.where == load_predicate(spec['where'], c=C0, ctx=RequirementContext(), mode=DataType.Course)},
         exc=lambda spec: not well_formed_spec(spec), gen=load_env, mode='bounded', note='a table of spellings', statement='a limit loads as it is written, or not at all')
