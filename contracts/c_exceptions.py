"""Exceptions: what the registrar's office enters by hand applies exactly where it says."""
from contracts.common import *
from dp.context import group_exceptions
from dp.exception import load_exception, load_migrations, Migration, CourseCreditOverride, CourseSubjectOverride

EX = ExceptionAction
seg_path = PathT(pool=('$', '%A', '%B', '[0]'), maxlen=3)
exc_t = PolyT('Exc',
              ObjT(InsertionException, {'path': seg_path, 'type': EnumT(EX), 'clbid': StrT(CLBIDS), 'forced': BoolT()}),
              ObjT(OverrideException, {'path': seg_path, 'type': EnumT(EX), 'status': EnumT(RS)}),
              ObjT(BlockException, {'path': seg_path, 'type': EnumT(EX), 'clbid': StrT(CLBIDS)}),
              ObjT(ValueException, {'path': seg_path, 'type': EnumT(EX), 'value': RealT()}))
groups_t = MapT(seg_path, SeqT(exc_t, kind='list', maxlen=3))
xctx_t = RecT(RequirementContext, ctx_fields(exceptions=groups_t, transcript_=ConstT(lambda: []), clbid_lookup_map_=ConstT(lambda: {}), forced_clbid_lookup_map_=ConstT(lambda: {}), claims=ConstT(lambda: {}), multicountable=ConstT(lambda: {})))
args = {'ctx': xctx_t, 'path': seg_path}
at = lambda ctx, path: ctx.exceptions[path] if path in ctx.exceptions else []


def first(xs, cls, result):
    mine = [e for e in xs if isinstance(e, cls)]
    if len(mine) == 0:
        return result is None
    return result is mine[0]


Contract('C15', 'exc.insert', lambda ctx, path: list(ctx.get_insert_exceptions(path)), args, {'only-at-path': lambda ctx, path, result: result == [e for e in at(ctx, path) if isinstance(e, InsertionException)]}, eq_positive=True, statement='insertions apply at exactly their path')
Contract('C15', 'exc.block', lambda ctx, path: list(ctx.get_block_exceptions(path)), args, {'only-at-path': lambda ctx, path, result: result == [e for e in at(ctx, path) if isinstance(e, BlockException)]}, eq_positive=True, statement='blocks apply at exactly their path')
Contract('C15', 'exc.waive', lambda ctx, path: ctx.get_waive_exception(path), args, {'only-at-path': lambda ctx, path, result: first(at(ctx, path), OverrideException, result)}, statement='a waiver applies at exactly its path')
Contract('C15', 'exc.value', lambda ctx, path: ctx.get_value_exception(path), args, {'only-at-path': lambda ctx, path, result: first(at(ctx, path), ValueException, result)}, statement='a value override applies at exactly its path')
def key_done(ctx, key, result):
    mine = [e for e in at(ctx, (key,)) if isinstance(e, OverrideException)]
    if len(mine) == 0:
        return result is False
    return result == (mine[0].status is RS.Done)


Contract('C15', 'exc.conditional-key', lambda ctx, key: ctx.has_waive_exception_for_conditional_expression(key=key), {'ctx': xctx_t, 'key': StrT(('$', '%A', 'k'))},
         {'first-override-done': key_done},
         statement='has-override-exception asks for a done override at exactly that key')
Contract('C15', 'exc.grouping', lambda xs, path: group_exceptions(xs)[path], {'xs': SeqT(exc_t, kind='list', maxlen=4), 'path': seg_path},
         {'none-lost-none-moved': lambda xs, path, result: result == [e for e in xs if e.path == path]}, eq_positive=True, statement='grouping by path neither loses, moves nor reorders an exception')


def has_below(ctx, path, result):
    return result[0] == any(e.path[:len(path)] == path for g in ctx.exceptions.values() for e in g) and result[1] == result[0]


keyed = lambda ctx: all(len(g) > 0 and all(e.path == p for e in g) for p, g in ctx.exceptions.items())
Contract('C15', 'exc.beneath', lambda ctx, path: (ctx.has_exception_beneath(path), ctx.has_exception_beneath(path)), args, {'prefix': has_below}, requires=keyed, gen=lambda g: keyed_env(g),
         statement='an exception lies beneath a path iff that path is a prefix of its own; asking twice gives the same answer')
Contract('C15', 'exc.inserts-beneath', lambda ctx, path: list(ctx.get_insert_exceptions_beneath(path)), args,
         {'prefix': lambda ctx, path, result: result == [e for g in ctx.exceptions.values() for e in g if e.path[:len(path)] == path and isinstance(e, InsertionException)]}, requires=keyed, gen=lambda g: keyed_env(g), eq_positive=True,
         statement='the insertions beneath a path are exactly those whose path starts with it')


def two_students(mine, theirs, path):
    RequirementContext(exceptions=theirs).has_exception_beneath(path)
    return RequirementContext(exceptions=mine).has_exception_beneath(path)


def below_mine(mine, path, result):
    return result == any(e.path[:len(path)] == path for g in mine.values() for e in g)


def two_env(g):
    path = seg_path.gen(g)
    group = lambda: group_exceptions([exc_t.gen(g) for _ in range(g.rng.choice([0, 1, 3]))])
    return {'mine': group(), 'theirs': group(), 'path': path}


filed = lambda groups: all(len(g) > 0 and all(e.path == p for e in g) for p, g in groups.items())
Contract('C15', 'exc.beneath-per-student', two_students, {'mine': groups_t, 'theirs': groups_t, 'path': seg_path}, {'own-exceptions-only': below_mine}, requires=lambda mine, theirs: filed(mine) and filed(theirs), gen=two_env,
         statement='what is asked about the exceptions of one student never depends on those of another')


def keyed_env(g):
    ctx = xctx_t.gen(g)
    ctx.exceptions = group_exceptions([exc_t.gen(g) for _ in range(g.rng.randint(0, 4))])
    return {'ctx': ctx, 'path': seg_path.gen(g)}


# ------------------------------------------------------------------ loading
KINDS = {'insert': (InsertionException, False), 'force-insert': (InsertionException, True), 'override': (OverrideException, None), 'block': (BlockException, None), 'value': (ValueException, None),
         'course-credits': (CourseCreditOverride, None), 'course-subject': (CourseSubjectOverride, None)}
load_call = lambda kind, path, clbid, value, subject, migrations: load_exception({'type': kind, 'path': path, 'clbid': clbid, 'value': value, 'credits': value, 'subject': subject}, migrations)
load_args = {'path': PathT(pool=('$', '%A', '%B'), maxlen=3), 'clbid': StrT(CLBIDS), 'value': RealT(), 'subject': StrT(), 'migrations': ConstT(())}


def fields(kind, clbid, value, subject, result):
    if kind == 'override':
        return result.status is RS.Done
    if kind == 'value':
        return result.value == value
    if kind == 'insert':
        return result.clbid == clbid and not result.forced
    if kind == 'force-insert':
        return result.clbid == clbid and result.forced
    if kind == 'insert':
        return result.clbid == clbid and not result.forced
    if kind == 'course-credits':
        return result.clbid == clbid and result.credits == value
    if kind == 'course-subject':
        return result.clbid == clbid and result.subject == subject
    return result.clbid == clbid


def kind_and_path(cls, ty):
    def clause(path, result):
        return isinstance(result, cls) and result.type is ty and result.path == path
    return clause


for kind, (cls, forced) in KINDS.items():
    Contract('C15', f'exc.load.{kind}', load_call, {'kind': ConstT(kind), **load_args}, {'kind-and-path': kind_and_path(cls, EX(kind)), 'fields': fields},
             statement=f'a {kind} exception loads as what it says, at the path it says')


def migrate_spec(path, migrations):
    p = list(path)
    for m in migrations:
        n = len(m.from_path)
        if p[:n] == list(m.from_path):
            p = list(m.to_path) + p[n:]
    return tuple(p)


seglist = lambda g, n: [g.rng.choice(('$', '%A', '%B', '%C')) for _ in range(g.rng.randint(0, n))]
Contract('C15', 'exc.migrations', load_call, {'kind': ConstT('override'), **load_args},
         {'prefix-rewritten': lambda path, migrations, result: result.path == migrate_spec(path, migrations)},
         gen=lambda g: {'migrations': [Migration(from_path=seglist(g, 2), to_path=seglist(g, 3), date='', comment='') for _ in range(g.rng.randint(0, 2))], 'path': tuple(['$'] * g.rng.randint(0, 1) + seglist(g, 3))},
         mode='bounded', note='paths of up to 4 segments, up to 2 migrations', gen_n=5, statement='a migration rewrites exactly a matching path prefix, in order, and leaves every other path alone')


# ------------------------------------------------------------------ which exceptions reach an audit
from dp.run import run
from dp.audit import audit, Arguments
from dp.area import AreaOfStudy
from dp.data.student import Student


class Loaded:
    def __init__(self, overrides, credits, code):
        self.overrides = overrides
        self.credits = credits
        self.code = code

    def constants(self):
        return 'constants'


def student_double(data, *, code=None, overrides=(), credits_overrides=None):
    return Loaded(list(overrides), credits_overrides, code)


def area_double(*, specification, c, student, exceptions):
    return ('area', specification, list(exceptions))


def audit_double(*, area, student, exceptions, args):
    yield area, student, list(exceptions)


def audited(spec, student):
    return list(run(Arguments(), student=student, area_spec=spec))


def told_env(g):
    r = g.rng
    codes = ('140', '190')
    kinds = list(KINDS)
    excs = [{'type': r.choice(kinds), 'path': ['$'] + seglist(g, 2), 'clbid': r.choice(CLBIDS), 'value': '2', 'credits': '0.5', 'subject': 'BIO', 'area_code': r.choice(codes)} for _ in range(r.randint(0, 4))]
    student = {'stnum': '1'} if r.random() < 0.1 else {'stnum': '1', 'exceptions': excs}
    spec = {'code': r.choice(codes), 'name': 'x'}
    if r.random() < 0.5:
        spec['credit'] = {'BIO': '1'}
    if r.random() < 0.5:
        spec['exceptions-migrations'] = [{'from-path': ['$'] + seglist(g, 1), 'to-path': ['$'] + seglist(g, 2), 'comment': '', 'date': ''} for _ in range(r.randint(0, 2))]
    return {'spec': spec, 'student': student}


def own(spec, student):
    moves = [Migration(from_path=m['from-path'], to_path=m['to-path'], date='', comment='') for m in spec.get('exceptions-migrations', [])]
    return [load_exception({**e, 'path': migrate_spec(e['path'], moves)}, ()) for e in student.get('exceptions', []) if e['area_code'] == spec['code']]


Contract('C15', 'exc.own-area', audited, {},
         {'only-this-area': lambda spec, student, result: len(result) == 1 and result[0][2] == own(spec, student) and result[0][0] == ('area', spec, own(spec, student)),
          'course-overrides': lambda spec, student, result: result[0][1].overrides == [e for e in own(spec, student) if isinstance(e, (CourseCreditOverride, CourseSubjectOverride))],
          'area-credit': lambda spec, student, result: (result[0][1].credits or {}) == spec.get('credit', {}) and result[0][1].code == spec['code']},
         gen=told_env, mode='bounded', note='up to 4 exceptions', doubles={Student.load: student_double, AreaOfStudy.load: area_double, audit: audit_double}, functions=['dp.run:run'],
         statement='an audit is given exactly the exceptions entered for its own area, and the course overrides among them when the transcript is loaded')
