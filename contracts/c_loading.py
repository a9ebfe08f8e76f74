"""A specification loads as written, or not at all."""
from attr import evolve as attr_evolve
from contracts.common import *
from dp.area import AreaOfStudy
from dp.constants import Constants
from dp.load_rule import load_rule
from dp.rule.count import CountRule
from dp.rule.requirement import RequirementRule
from dp.rule.conditional import ConditionalRule
from dp.rule.proficiency import ProficiencyRule
from dp.rule.course import CourseRule
from dp.rule.query import QueryRule, QuerySource
from dp.limit import AtMostWhat, Limit
from dp.data.student import Student, TemplateCourse
from dp.data.area_pointer import AreaPointer
from dp.data.area_enums import AreaType

REFUSED = (AssertionError, ValueError, TypeError, KeyError)
AREAS = ('130', '9', '8')
POINTS = {'A': '4.0', 'B': '3.0', 'C': '2.0', 'C-': '1.7', 'D': '1.0'}


# ------------------------------------------------------------------ what a specification says
def course_says(d, path):
    name = d.get('course') or d.get('ap') or d.get('name') or d.get('clbid') or 'crsid:' + d.get('crsid', '')
    seg = '*' + name
    if d.get('section'):
        seg += d['section']
    if d.get('sub_type'):
        seg += '.' + d['sub_type']
    if 'year' in d:
        seg += f" {d['year']}-{d['term']}"
    if d.get('institution'):
        seg += f"(institution={d['institution']})"
    if d.get('grade'):
        seg += f"(grade >= {d['grade']})"
    return ('course', path + (seg,), d.get('course'), d.get('ap'), d.get('institution'), d.get('name'), d.get('clbid'), d.get('crsid'), d.get('section'), d.get('sub_type'), d.get('year'), d.get('term'),
            Decimal(POINTS[d['grade']]) if 'grade' in d else None, d.get('grade_option'), d.get('from_claimed', False), d.get('from_claimed', False) or d.get('allow_claimed', False), d.get('optional', False), d.get('hidden', False), d.get('inserted', False))


def says(d, kids, path, top=(), declared=(), templates={}):
    if 'proficiency' in d:
        here = path + (f".proficiency={d['proficiency']}",)
        return ('proficiency', here, d['proficiency'], course_says(d['course'], here) if 'course' in d else None)
    if any(k in d for k in ('course', 'clbid', 'crsid', 'ap')):
        return course_says(d, path)
    if 'from' in d:
        here = path + ('.query',)
        claim = d.get('claim', True)
        asserts = [d['assert']] if 'assert' in d else [a['assert'] for a in d['all']]
        return ('query', here, d['from'], clause_says(d.get('where')), tuple(limit_says(x) for x in d.get('limit', [])), d['from'] == 'claimed' or d.get('allow_claimed', False), claim is True, claim in (True, 'record'), d.get('include_failed', False), d.get('load_potentials', True),
                tuple((here + ('.assertions', f'[{i}]', '.assert'), key, '$gte', Decimal(value['$gte'])) for i, a in enumerate(asserts) for key, value in a.items()))
    if '$if' in d:
        here = path + ('.cond',)
        holds = d['$if']['has-declared-area-code'] in declared
        if not holds and d.get('$hide-when-false', False):
            return None
        return ('if', here, holds, says(d['$then'], kids, here + ('/t',), (), declared, templates), says(d['$else'], kids, here + ('/f',), (), declared, templates) if d.get('$else') is not None else None)
    if 'requirement' in d or 'name' in d:
        body = d if 'name' in d else kids[d['requirement']]
        name = d['name'] if 'name' in d else d['requirement']
        here = path + ('%' + name,)
        audited = body.get('department_audited', body.get('department-audited', False))
        return ('requirement', here, name, audited, body.get('contract', False), body.get('disjoint'), body.get('in_gpa', True), says(body['result'], body.get('requirements', {}), here, (), declared, templates) if 'result' in body else None)
    here = path + ('.count',)
    word = [w for w in ('all', 'any', 'both', 'either') if w in d]
    given = d[word[0]] if word else d['of']
    parts = []
    for x in given:
        parts.extend([{'course': f'{t.subject} {t.num}'} for t in templates.get(x['template'], ())] if 'template' in x else [x])
    loaded = [says(x, kids, here + (f'[{i}]',), (), declared, templates) for i, x in enumerate(parts)]
    for e in top:
        flat = 'all' in e['result'] and 'audit' not in e['result'] and all('requirement' in r or 'name' in r for r in e['result']['all']) and ('requirements' in e or any('name' in r for r in e['result']['all']))
        if flat:
            reqs = e['requirements'] if 'requirements' in e else {r['name']: r for r in e['result']['all']}
            for n, body in reqs.items():
                loaded.append(says({'requirement': f"Emphasis: {e['name']} → {n}"}, {f"Emphasis: {e['name']} → {n}": body}, here + ('.emphasis',), (), declared, templates))
        else:
            loaded.append(says({'requirement': f"Emphasis: {e['name']}"}, {f"Emphasis: {e['name']}": e}, here + ('.emphasis',), (), declared, templates))
    loaded = [x for x in loaded if x is not None]
    count = {'all': len(loaded), 'any': 1, 'both': 2, 'either': 1}[word[0]] if word else (len(loaded) if d['count'] == 'all' else 1 if d['count'] == 'any' else int(d['count']))
    n = 0 if 'audit' not in d else len(d['audit']['all']) if 'all' in d['audit'] else 1
    return ('count', here, count, d.get('at_most', False), tuple(loaded), tuple(here + ('.audit', f'[{i}]', '.assert') for i in range(n)))


def clause_says(d):
    """A where of one clause, as (key, operator, value)."""
    return None if d is None else tuple((k, '$eq', v['$eq']) for k, v in d.items())[0]


def clause_of(p):
    return None if p is None else (p.key, p.operator.value, p.expected)


def limit_says(x):
    v = [x[k] for k in ('at most', 'at-most', 'at_most') if k in x][0]
    if isinstance(v, int) or v.isdigit():
        return Decimal(int(v)), AtMostWhat.Courses
    n, what = v.split()
    return Decimal(n), AtMostWhat.Credits if 'credit' in what else AtMostWhat.Courses


# ------------------------------------------------------------------ what was loaded
def loaded(r):
    if r is None:
        return None
    if isinstance(r, CourseRule):
        return ('course', r.path, r.course, r.ap, r.institution, r.name, r.clbid, r.crsid, r.section, r.sub_type, r.year, r.term, r.grade, r.grade_option.value if r.grade_option else None, r.from_claimed, r.allow_claimed, r.optional, r.hidden, r.inserted)
    if isinstance(r, QueryRule):
        return ('query', r.path, r.source.value, clause_of(r.where), tuple((x.at_most, x.at_most_what) for x in r.limit.limits), r.allow_claimed, r.attempt_claims, r.record_claims, r.include_failed, r.load_potentials,
                tuple((a.path, a.key, a.operator.value, a.expected) for a in r.assertions))
    if isinstance(r, ConditionalRule):
        return ('if', r.path, r.condition.result, loaded(r.when_true), loaded(r.when_false))
    if isinstance(r, RequirementRule):
        return ('requirement', r.path, r.name, r.is_audited, r.is_contract, r.disjoint, r.in_gpa, loaded(r.result))
    if isinstance(r, ProficiencyRule):
        return ('proficiency', r.path, r.proficiency, loaded(r.course))
    return ('count', r.path, r.count, r.at_most, tuple(loaded(x) for x in r.items), tuple(a.path for a in r.audit_clauses))


# ------------------------------------------------------------------ random specifications
class Maker:
    def __init__(self, rng):
        self.r = rng
        self.n = 0
        self.nodes = []

    def course(self):
        r = self.r
        d = r.choice([{'course': f'AMST {100 + r.randint(0, 9)}'}] * 3 + [{'ap': 'AP Chem'}, {'clbid': '17'}, {'crsid': '99'}, {'course': 'CHEM 121', 'institution': 'CARLETON'}])
        d = dict(d)
        for k, v in (('grade', ['B', 'C', 'C-']), ('grade_option', ['grade', 's/u']), ('allow_claimed', [True, False]), ('from_claimed', [True, False]), ('hidden', [True]), ('optional', [True]), ('section', ['A', 'B']), ('sub_type', ['L'])):
            if r.random() < 0.12:
                d[k] = r.choice(v)
        if r.random() < 0.1:
            d['year'], d['term'] = 2019, '1'
        self.nodes.append(d)
        return d

    def query(self):
        r = self.r
        d = {'from': r.choice(['courses', 'courses', 'courses', 'claimed', 'areas'])}
        key = 'code' if d['from'] == 'areas' else 'subject'
        what = 'count(areas)' if d['from'] == 'areas' else 'count(courses)'
        if r.random() < 0.6:
            d['where'] = {key: {'$eq': r.choice(['AMST', 'ART'])}}
        if r.random() < 0.5:
            d['assert'] = {what: {'$gte': r.randint(0, 3)}}
        else:
            d['all'] = [{'assert': {what: {'$gte': r.randint(0, 3)}}} for _ in range(r.randint(1, 3))]
        if r.random() < 0.4:
            d['claim'] = r.choice([True, False, 'record'])
        if r.random() < 0.2:
            d['allow_claimed'] = r.choice([True, False])
        if r.random() < 0.15:
            d['include_failed'] = True
        if r.random() < 0.15:
            d['load_potentials'] = r.choice([True, False])
        if r.random() < 0.3:
            d['limit'] = [{r.choice(['at most', 'at-most', 'at_most']): r.choice([1, '2', '1 course', '2 courses', '1.5 credits', '1 credit']), 'where': {'subject': {'$eq': 'AMST'}}} for _ in range(r.randint(1, 2))]
        self.nodes.append(d)
        return d

    def requirement(self, depth):
        r = self.r
        d = {}
        kids = {}
        if r.random() < 0.25:
            d[r.choice(['department_audited', 'department-audited'])] = True
        if not d or r.random() < 0.3:
            d['result'] = self.rule(depth - 1, kids)
            if kids:
                d['requirements'] = kids
        for k, v in (('contract', [True, False]), ('disjoint', [True, False]), ('in_gpa', [True, False]), ('message', ['Hello.'])):
            if r.random() < 0.2:
                d[k] = r.choice(v)
        self.nodes.append(d)
        return d

    def rule(self, depth, kids, only=None, hide=False):
        r = self.r
        kind = only or r.choice(['course', 'course', 'query', 'proficiency'] + (['count', 'count', 'requirement', 'requirement', 'named', 'if'] if depth > 0 else []))
        if kind == 'course':
            return self.course()
        if kind == 'query':
            return self.query()
        if kind == 'proficiency':
            d = {'proficiency': 'Keyboard'}
            if r.random() < 0.5:
                d['course'] = self.course()
            self.nodes.append(d)
            return d
        if kind == 'requirement':
            self.n += 1
            name = f'R{self.n}'
            kids[name] = self.requirement(depth)
            return {'requirement': name}
        if kind == 'named':
            self.n += 1
            d = self.requirement(depth)
            d['name'] = f'N{self.n}'
            return d
        if kind == 'if':
            d = {'$if': {'has-declared-area-code': r.choice(AREAS)}, '$then': self.rule(depth - 1, kids)}
            if r.random() < 0.6:
                d['$else'] = self.rule(depth - 1, kids)
            if hide and "'requirement':" not in str(d) and r.random() < 0.4:
                d['$hide-when-false'] = True
            self.nodes.append(d)
            return d
        n = r.randint(1, 3)
        word = r.choice(['all', 'any', 'count', 'count', 'both', 'either'])
        if word in ('both', 'either'):
            n = 2
        items = [self.rule(depth - 1, kids, hide=word not in ('both', 'either')) for _ in range(n)]
        d = {'count': r.choice([r.randint(0, n), 'all', 'any', str(n)]), 'of': items} if word == 'count' else {word: items}
        if word == 'all' and r.random() < 0.2:
            items.append({'template': r.choice(['t1', 't2'])})
        if r.random() < 0.15:
            d['at_most'] = r.choice([True, False])
        if r.random() < 0.15:
            one = {'assert': {'count(courses)': {'$gte': 1}}}
            d['audit'] = r.choice([one, {'all': [dict(one), dict(one)]}])
        self.nodes.append(d)
        return d


def make(g):
    m = Maker(g.rng)
    kids = {}
    spec = {'name': 'x', 'type': 'concentration', 'code': 'x', 'result': m.rule(3, kids)}
    if kids:
        spec['requirements'] = kids
    return m, spec


def student(declared):
    areas = [AreaPointer.with_code(x) if x == '130' else attr_evolve(AreaPointer.with_code(x), kind=AreaType.Emphasis) for x in declared]
    return attr_evolve(Student(), areas=tuple(areas))


TEMPLATES = {'t1': [TemplateCourse(subject='BIO', num='101'), TemplateCourse(subject='BIO', num='102')], 't2': []}


def load_it(spec, declared):
    st = student(declared)
    ctx = RequirementContext(areas=st.areas, templates=TEMPLATES)
    emph = [e for k, e in spec.get('emphases', {}).items() if str(k) in declared]
    return loaded(load_rule(data=spec['result'], c=Constants(), children=spec.get('requirements', {}), emphases=emph, path=['$'], ctx=ctx))


def load_area_spec(spec, declared):
    a = AreaOfStudy.load(specification=spec, c=Constants(), student=student(declared))
    return loaded(a.result), a.multicountable, tuple((x.at_most, x.at_most_what) for x in a.limit.limits), a.name, a.kind, a.code, a.degree


def spec_env(g):
    m, spec = make(g)
    return {'spec': spec, 'declared': tuple(a for a in AREAS if g.rng.random() < 0.5)}


Contract('C21', 'rules.as-written', load_it, {}, {'as-written': lambda spec, declared, result: result == says(spec['result'], spec.get('requirements', {}), ('$',), (), declared, TEMPLATES)},
         gen=spec_env, mode='bounded', gen_n=20, exc=lambda spec, declared, exc: issubclass(exc, AssertionError) and too_few(spec['result'], declared),
         note='random specifications, nested up to 3 deep', functions=['dp.load_rule:load_rule', 'dp.rule.count:CountRule.load', 'dp.rule.course:CourseRule.load', 'dp.rule.query:QueryRule.load', 'dp.rule.requirement:RequirementRule.load', 'dp.rule.conditional:ConditionalRule.load', 'dp.rule.proficiency:ProficiencyRule.load'],
         statement='every rule of a specification is loaded with the values it gives, at the path that names it')


def too_few(d, declared):
    """Somewhere a count asks for more parts than are left."""
    if isinstance(d, list):
        return any(too_few(x, declared) for x in d)
    if not isinstance(d, dict):
        return False
    if 'count' in d and 'of' in d and str(d['count']).isdigit() and int(d['count']) > len(d['of']):
        return True
    if 'any' in d and not d['any']:
        return True
    return any(too_few(x, declared) for x in d.values())


# ------------------------------------------------------------------ areas with emphases
def named(m, name):
    d = m.requirement(1)
    d['name'] = name
    return d


def area_env(g):
    r = g.rng
    m, spec = make(g)
    spec['result'] = m.rule(2, spec.setdefault('requirements', {}), 'count')
    while 'both' in spec['result'] or 'either' in spec['result']:
        spec['result'] = m.rule(2, spec['requirements'], 'count')
    used = set()

    def names(x):
        if isinstance(x, dict):
            if 'requirement' in x:
                used.add(x['requirement'])
            for y in x.values():
                names(y)
        elif isinstance(x, list):
            for y in x:
                names(y)
    names(spec['result'])
    spec['requirements'] = {k: v for k, v in spec['requirements'].items() if k in used}
    emph = {}
    for code in ('9', '8'):
        if r.random() < 0.6:
            kind = r.choice(['flat', 'flat-named', 'count', 'audit'])
            e = {'name': f'E{code}'}
            if kind == 'flat':
                e['requirements'] = {f'Q{k}': m.requirement(1) for k in range(r.randint(1, 2))}
                e['result'] = {'all': [{'requirement': k} for k in e['requirements']]}
            elif kind == 'flat-named':
                e['result'] = {'all': [named(m, f'M{code}{k}') for k in range(2)]}
            elif kind == 'count':
                e['result'] = {'any': [m.course(), m.course()]}
            else:
                e['requirements'] = {'Q': m.requirement(1)}
                e['result'] = {'all': [{'requirement': 'Q'}], 'audit': {'assert': {'count(courses)': {'$gte': 1}}}}
            emph[code] = e
    if emph:
        spec['emphases'] = emph
    if r.random() < 0.5:
        spec['multicountable'] = {'AMST 101': [['A'], ['B', 'C']], 'BIO 1': [['D']]}
    if r.random() < 0.4:
        spec['limit'] = [{'at_most': '2 courses', 'where': {'subject': {'$eq': 'AMST'}}}]
    if r.random() < 0.5:
        spec['degree'] = 'B.A.'
    return {'spec': spec, 'declared': tuple(a for a in AREAS if r.random() < 0.5)}


def area_as_written(spec, declared, result):
    top = [e for k, e in spec.get('emphases', {}).items() if k in declared]
    return result == (says(spec['result'], spec.get('requirements', {}), ('$',), top, declared, {}), {k: [tuple('%' + s for s in p) for p in ps] for k, ps in spec.get('multicountable', {}).items()},
                      tuple(limit_says(x) for x in spec.get('limit', [])), spec['name'], spec['type'], spec['code'], spec.get('degree'))


Contract('C21', 'area.as-written', load_area_spec, {}, {'as-written': area_as_written}, gen=area_env, mode='bounded', gen_n=12, exc=lambda spec, declared, exc: issubclass(exc, AssertionError) and too_few(spec, declared),
         note='random specifications with up to two emphases', functions=['dp.area:AreaOfStudy.load', 'dp.rule.count:CountRule.load'],
         statement='an area is loaded with its own rules, limits and multicountable courses, and with the requirements of exactly the emphases the student has declared')


# ------------------------------------------------------------------ mistakes are refused
def within(x):
    if isinstance(x, dict):
        return [x] + [y for v in x.values() for y in within(v)]
    return [y for v in x for y in within(v)] if isinstance(x, list) else []


def wrong_env(g):
    m, spec = make(g)
    r = g.rng
    known = {id(x) for x in m.nodes}
    d = r.choice([x for x in within(spec) if id(x) in known])
    d[r.choice(['asert', 'limits', 'gradee', 'ok', 'alow_claimed', 'counts'])] = 1
    return {'spec': spec, 'declared': tuple(a for a in AREAS if r.random() < 0.5)}


def torn_env(g):
    """A specification in which some rule contradicts itself."""
    r = g.rng
    while True:
        m, spec = make(g)
        known = {id(x) for x in m.nodes}
        found = [x for x in within(spec) if id(x) in known and ('from' in x or 'claim' not in x and any(k in x for k in ('all', 'any', 'both', 'either', 'count')))]
        if found:
            break
    d = r.choice(found)
    if 'from' in d:
        what = r.choice(['both', 'none'])
        if what == 'both':
            d.setdefault('assert', {'count(courses)': {'$gte': 1}})
            d.setdefault('all', [{'assert': {'count(courses)': {'$gte': 1}}}])
            if d['from'] == 'areas':
                d['assert'], d['all'] = {'count(areas)': {'$gte': 1}}, [{'assert': {'count(areas)': {'$gte': 1}}}]
        else:
            d.pop('assert', None)
            d.pop('all', None)
    else:
        for k in ('all', 'any', 'both', 'either', 'of'):
            if k in d:
                d['count'] = 99
                d['of'] = d.pop(k)
                d.pop('at_most', None)
                break
    return {'spec': spec, 'declared': tuple(a for a in AREAS if r.random() < 0.5)}


def attempt(spec, declared):
    try:
        return 'loaded', load_it(spec, declared)
    except REFUSED as e:
        return 'refused', None


Contract('C21', 'rules.contradiction', attempt, {}, {'refused': lambda result: result[0] == 'refused'}, gen=torn_env, mode='bounded', gen_n=15, note='random specifications with one rule that cannot be met as written', functions=['dp.load_rule:load_rule'],
         statement='a query with both a single assertion and a list of them, or with neither, and a count that asks for more parts than it has, are refused')
Contract('C21', 'rules.unknown-key', attempt, {}, {'refused': lambda result: result[0] == 'refused'}, gen=wrong_env, mode='bounded', gen_n=15, note='random specifications with one misspelt key', functions=['dp.load_rule:load_rule'],
         statement='a specification holding a key its rule does not know is refused, wherever it is')


# ------------------------------------------------------------------ where-clauses and assertions
from dp import predicate_clause as pc
from dp.op import Operator
from dp.data_type import DataType as DT
from dp import conditional_expression as ce
from dp.assertion_clause import Assertion, ConditionalAssertion, DynamicConditionalAssertion
from dp.data.course_enums import GradeCode, GradeOption

NUMBERS = {'$matriculation-year': 2018, '$terms-since-declaring-major': 3}
MEDIA = ('Violin', 'Piano')
C21 = Constants(matriculation_year=2018, terms_since_declaring_major=3, primary_performing_medium=MEDIA, current_area_code='130')
OPNAMES = {'$eq': Operator.EqualTo, '$neq': Operator.NotEqualTo, '$lt': Operator.LessThan, '$lte': Operator.LessThanOrEqualTo, '$gt': Operator.GreaterThan, '$gte': Operator.GreaterThanOrEqualTo, '$in': Operator.In, '$nin': Operator.NotIn}


def meaning(v):
    """A value with the student's constants in place of their names."""
    if isinstance(v, list):
        out = []
        for x in v:
            x = meaning(x)
            out.extend(x if isinstance(x, tuple) else [x])
        return tuple(out)
    return {'$matriculation-year': 2018, '$terms-since-declaring-major': 3, '$primary-performing-medium': MEDIA, '$current-area-code': '130', '$current-area-code-music-exam': 'Exam: 130'}.get(v, v) if isinstance(v, str) else v


def value_says(key, v):
    v = meaning(v)
    if key == 'grade':
        return tuple(GradeCode(x) for x in v) if isinstance(v, tuple) else GradeCode(v)
    if key == 'grade_option':
        return GradeOption(v)
    return Decimal(v) if key in ('credits', 'gpa') else v


def cond_says(d, declared):
    (k, v), = d.items()
    if k in ('$and', '$or'):
        return (k,) + tuple(cond_says(x, declared) for x in v)
    return ('$not', cond_says(v, declared)) if k == '$not' else (k, v, v in declared)


def where_says(d, declared):
    if '$and' in d or '$or' in d:
        k = '$and' if '$and' in d else '$or'
        return (k,) + tuple(where_says(x, declared) for x in d[k])
    if '$not' in d:
        return ('$not', where_says(d['$not'], declared))
    if '$if' in d:
        return ('$if', cond_says(d['$if'], declared), where_says(d['$then'], declared), where_says(d['$else'], declared) if d.get('$else') is not None else None)
    each = [(k, OPNAMES[[o for o in v if o in OPNAMES][0]], value_says(k, v[[o for o in v if o in OPNAMES][0]]), value_says(k, v['$during_covid']) if '$during_covid' in v else None) for k, v in d.items()]
    return each[0] if len(each) == 1 else ('$and',) + tuple(each)


def cond_loaded(x):
    if isinstance(x, ce.PredicateExpressionNot):
        return ('$not', cond_loaded(x.expression))
    if isinstance(x, (ce.PredicateExpressionCompoundAnd, ce.PredicateExpressionCompoundOr)):
        return ('$and' if isinstance(x, ce.PredicateExpressionCompoundAnd) else '$or',) + tuple(cond_loaded(y) for y in x.expressions)
    return (x.function.value, x.argument, x.result)


def where_loaded(x):
    if x is None:
        return None
    if isinstance(x, (pc.PredicateCompoundAnd, pc.PredicateCompoundOr)):
        return ('$and' if isinstance(x, pc.PredicateCompoundAnd) else '$or',) + tuple(where_loaded(y) for y in x.predicates)
    if isinstance(x, pc.PredicateNot):
        return ('$not', where_loaded(x.predicate))
    if isinstance(x, pc.ConditionalPredicate):
        return ('$if', cond_loaded(x.condition), where_loaded(x.when_true), where_loaded(x.when_false))
    return (x.key, x.operator, x.expected, x.during_covid)


VALUES = {'subject': ['AMST', 'BIO'], 'level': [100, 200, '$matriculation-year'], 'grade': ['B', 'C-'], 'grade_option': ['grade', 's/u'], 'credits': [1, '0.5'], 'is_stolaf': [True, False], 'number': [101, 250],
          'course': ['AMST 101', '$current-area-code'], 'attributes': ['wri', '$primary-performing-medium', '$current-area-code-music-exam'], 'institution': ['CARLETON'], 'year': [2018, '$matriculation-year']}


def make_cond(r, depth):
    kind = r.choice(['one', 'one', '$and', '$or', '$not']) if depth else 'one'
    if kind == 'one':
        return {'has-declared-area-code': r.choice(AREAS)}
    return {'$not': make_cond(r, depth - 1)} if kind == '$not' else {kind: [make_cond(r, depth - 1) for _ in range(r.randint(1, 3))]}


def make_single(r):
    key = r.choice(sorted(VALUES))
    op = r.choice(['$eq', '$neq', '$in', '$nin'] if key not in ('level', 'credits', 'grade', 'number', 'year') else ['$eq', '$neq', '$lt', '$lte', '$gt', '$gte', '$in'])
    if op in ('$in', '$nin') and key in ('grade_option', 'credits'):
        op = '$eq'
    v = [r.choice(VALUES[key]) for _ in range(r.randint(1, 3))] if op in ('$in', '$nin') else r.choice(VALUES[key])
    d = {op: v}
    if key == 'grade' and r.random() < 0.4:
        d['$during_covid'] = r.choice(VALUES[key])
    return key, d


def make_where(r, depth):
    kind = r.choice(['one', 'one', 'several', '$and', '$or', '$not', '$if']) if depth else 'one'
    if kind in ('one', 'several'):
        return dict(make_single(r) for _ in range(1 if kind == 'one' else r.randint(2, 3)))
    if kind == '$not':
        return {'$not': make_where(r, depth - 1)}
    if kind == '$if':
        d = {'$if': make_cond(r, 2), '$then': make_where(r, depth - 1)}
        if r.random() < 0.5:
            d['$else'] = make_where(r, depth - 1)
        return d
    return {kind: [make_where(r, depth - 1) for _ in range(r.randint(1, 3))]}


def where_env(g):
    return {'spec': make_where(g.rng, 3), 'declared': tuple(a for a in AREAS if g.rng.random() < 0.5)}


def load_where(spec, declared):
    return where_loaded(pc.load_predicate(spec, mode=DT.Course, c=C21, ctx=RequirementContext(areas=student(declared).areas)))


Contract('C21', 'where.as-written', load_where, {}, {'as-written': lambda spec, declared, result: result == where_says(spec, declared)}, gen=where_env, mode='bounded', gen_n=20, note='random where-clauses, nested up to 3 deep',
         functions=['dp.predicate_clause:load_predicate', 'dp.predicate_clause:load_single_predicate', 'dp.conditional_expression:load_predicate_expression', 'dp.constants:Constants.get_by_name'],
         statement='a where-clause is loaded with the keys, operators and values written, with the values of the student in place of the names of constants')


def make_assert(r, depth=1):
    if depth and r.random() < 0.3:
        d = {r.choice(['$if', '$if', '$when']): None, '$then': make_assert(r, 0)}
        if '$if' in d:
            d['$if'] = make_cond(r, 2)
            if r.random() < 0.5:
                d['$else'] = make_assert(r, 0)
        else:
            d['$when'] = {'query-has-course-with-attribute': 'x'}
        return d
    body = {r.choice([x for x in OPNAMES if x not in ('$in', '$nin')]): r.choice([0, 1, 2, 3, '2.5', '4'] + list(NUMBERS))}
    if r.random() < 0.2:
        body['at_most'] = r.choice([True, False])
    if r.random() < 0.2:
        body['treat_in_progress_as_pass'] = r.choice([True, False])
    if r.random() < 0.2:
        body['$changes'] = [({'has-declared-area-code': r.choice(AREAS)}, {r.choice(['add', 'subtract', 'set']): r.choice([1, 2])}) for _ in range(r.randint(1, 2))]
    d = {'assert': {r.choice(['count(courses)', 'sum(credits)', 'average(grades)', 'count(terms)', 'count(subjects)']): body}}
    if r.random() < 0.4:
        d['where'] = make_where(r, 1)
    for k in ('message', 'label'):
        if r.random() < 0.1:
            d[k] = 'Hello'
    return d


def assert_says(d, path, declared):
    if '$if' in d:
        return ('$if', path, cond_says(d['$if'], declared), assert_says(d['$then'], path + ('/t',), declared), assert_says(d['$else'], path + ('/f',), declared) if '$else' in d else None)
    if '$when' in d:
        return ('$when', path, d['$when'], assert_says(d['$then'], path + ('/t',), declared))
    (key, body), = d['assert'].items()
    op = [o for o in body if o in OPNAMES][0]
    n = Decimal(NUMBERS.get(body[op], body[op]) if isinstance(body[op], str) else body[op])
    for cond, act in body.get('$changes', []):
        (mode, m), = act.items()
        if cond['has-declared-area-code'] in declared:
            n = n + m if mode == 'add' else n - m if mode == 'subtract' else Decimal(m)
    return (key, path + ('.assert',), OPNAMES[op], n, body.get('at_most', False), body.get('treat_in_progress_as_pass', False), where_says(d['where'], declared) if 'where' in d else None, d.get('message'), d.get('label'))


def assert_loaded(a):
    if a is None:
        return None
    if isinstance(a, ConditionalAssertion):
        return ('$if', a.path, cond_loaded(a.condition), assert_loaded(a.when_true), assert_loaded(a.when_false))
    if isinstance(a, DynamicConditionalAssertion):
        return ('$when', a.path, {a.condition.function.value: a.condition.argument}, assert_loaded(a.when_true))
    return (a.key, a.path, a.operator, a.expected, a.at_most, a.treat_in_progress_as_pass, where_loaded(a.where), a.message, a.label)


def load_assert(spec, declared):
    return assert_loaded(DynamicConditionalAssertion.load(spec, data_type=DT.Course, c=C21, ctx=RequirementContext(areas=student(declared).areas), path=['$', '.query']))


Contract('C21', 'assertion.as-written', load_assert, {}, {'as-written': lambda spec, declared, result: result == assert_says(spec, ('$', '.query'), declared)}, mode='bounded', gen_n=20, note='random assertions',
         gen=lambda g: {'spec': make_assert(g.rng), 'declared': tuple(a for a in AREAS if g.rng.random() < 0.5)},
         functions=['dp.assertion_clause:load_single_assertion', 'dp.assertion_clause:ConditionalAssertion.load', 'dp.assertion_clause:DynamicConditionalAssertion.load', 'dp.assertion_clause:ValueChange.load', 'dp.assertion_clause:load_expected_value'],
         statement='an assertion is loaded with the key, operator, number, changes and where-clause written')


# ------------------------------------------------------------------ one clause, for every value
def one_where(key, op, v, code):
    return pc.load_single_predicate(key=key, value={op: v}, mode=DT.Course, c=Constants(current_area_code=code), ctx=RequirementContext())


def plain_value(key, op, v, code, result):
    return result.key == key and result.operator is OPNAMES[op] and result.expected == v and result.original == v and result.during_covid is None


for _op in ('$eq', '$neq'):
    for _key in ('subject', 'course', 'institution', 'attributes', 'clbid'):
        Contract('C21', f'where.one.{_key}.{_op}', one_where, {'key': ConstT(_key), 'op': ConstT(_op), 'v': StrT(('AMST', 'BIO 101', '')), 'code': StrT(('130',))}, {'as-written': plain_value}, requires=lambda v: not v.startswith('$'),
                 statement='a clause about text is loaded with the key, operator and text written')
for _op in ('$eq', '$neq', '$lt', '$lte', '$gt', '$gte'):
    for _key in ('level', 'number', 'year', 'credits'):
        Contract('C21', f'where.one.{_key}.{_op}', one_where, {'key': ConstT(_key), 'op': ConstT(_op), 'v': IntT(lo=0, pool=(0, 1, 100, 250, 2018)), 'code': StrT(('130',))}, {'as-written': plain_value},
                 statement='a clause about a number is loaded with the key, operator and number written')


# ------------------------------------------------------------------ each kind of rule, for every value it may hold
KEYS = ('course', 'ap', 'clbid')
text_t = StrT(('AMST 101', 'BIO 1', 'x'))
word_t = lambda: OptT(StrT(('A', 'B')))


def load_a_course(key, what, section, sub_type, institution, claimed, from_claimed, hidden, optional, path):
    return CourseRule.load({key: what, 'section': section, 'sub_type': sub_type, 'institution': institution, 'allow_claimed': claimed, 'from_claimed': from_claimed, 'hidden': hidden, 'optional': optional}, c=Constants(), path=path)


def course_given(key, what, section, sub_type, institution, claimed, from_claimed, hidden, optional, path, result):
    return (result.course == (what if key == 'course' else None) and result.ap == (what if key == 'ap' else None) and result.clbid == (what if key == 'clbid' else None) and result.crsid is None and result.name is None
            and result.section == section and result.sub_type == sub_type and result.institution == institution and result.hidden is hidden and result.optional is optional
            and result.from_claimed is from_claimed and result.allow_claimed is (claimed or from_claimed) and result.inserted is False and result.forced is False and result.overridden is False
            and result.year is None and result.term is None and result.grade is None and result.grade_option is None and len(result.excluded_clbids) == 0)


def course_at(key, what, section, sub_type, institution, path, result):
    seg = f"*{what}"
    if section is not None:
        seg = f"{seg}{section}"
    if sub_type is not None:
        seg = f"{seg}.{sub_type}"
    if institution is not None:
        seg = f"{seg}(institution={institution})"
    return result.path == path + (seg,)


path21 = PathT(pool=('$', '%A', '.count', '[0]'), maxlen=3)
for _key in KEYS:
    Contract('C21', f'course.{_key}', load_a_course, {'key': ConstT(_key), 'what': text_t, 'section': word_t(), 'sub_type': word_t(), 'institution': word_t(), 'claimed': BoolT(), 'from_claimed': BoolT(), 'hidden': BoolT(), 'optional': BoolT(), 'path': path21},
             {'as-written': course_given, 'at-its-path': course_at}, requires=lambda what, section, sub_type, institution: what != '' and section != '' and sub_type != '' and institution != '',
             statement='a course reference is loaded with exactly what it says, at the path that names it')


def load_a_grade(what, grade, option, year, term, path):
    return CourseRule.load({'course': what, 'grade': grade, 'grade_option': option, 'year': year, 'term': term}, c=Constants(), path=path)


for _g in POINTS:
    for _o in ('grade', 's/u'):
        Contract('C21', f'course.grade.{_g}.{_o}', load_a_grade, {'what': text_t, 'grade': ConstT(_g), 'option': ConstT(_o), 'year': IntT(lo=0, pool=(2019, 2020)), 'term': StrT(('1', '3')), 'path': path21},
                 {'as-written': lambda what, grade, option, year, term, path, result: result.grade == Decimal(POINTS[grade]) and result.grade_option is GradeOption(option) and result.course == what and result.year == year and result.term == term
                  and result.path == path + (f"*{what} {year}-{term}(grade >= {grade})",)}, requires=lambda what: what != '',
                 statement='a course reference with a grade asks for the points of that grade')


def load_a_named_course(name, institution, inserted, path):
    return CourseRule.load({'institution': institution, 'name': name, 'inserted': inserted}, c=Constants(), path=path)


Contract('C21', 'course.named', load_a_named_course, {'name': text_t, 'institution': text_t, 'inserted': BoolT(), 'path': path21},
         {'as-written': lambda name, institution, inserted, path, result: result.name == name and result.institution == institution and result.inserted is inserted and result.course is None and result.ap is None and result.clbid is None
          and result.crsid is None and result.path == path + (f"*{name}(institution={institution})",)},
         requires=lambda name, institution: name != '' and institution != '', statement='a course of another institution is loaded with its name and institution')
Contract('C21', 'course.crsid', lambda crsid, path: CourseRule.load({'crsid': crsid}, c=Constants(), path=path), {'crsid': text_t, 'path': path21},
         {'as-written': lambda crsid, path, result: result.crsid == crsid and result.course is None and result.ap is None and result.clbid is None and result.name is None and result.path == path + (f"*crsid:{crsid}",)
          and result.allow_claimed is False and result.from_claimed is False and result.hidden is False and result.optional is False and result.inserted is False},
         requires=lambda crsid: crsid != '', statement='a course given by its registrar id is loaded with that id')


def load_a_proficiency(what, course, path):
    return ProficiencyRule.load({'proficiency': what, 'course': {'course': course}}, c=Constants(), path=path)


Contract('C21', 'proficiency', load_a_proficiency, {'what': text_t, 'course': text_t, 'path': path21},
         {'as-written': lambda what, course, path, result: result.proficiency == what and result.path == path + (f".proficiency={what}",) and result.course.course == course and result.course.path == path + (f".proficiency={what}", f"*{course}")},
         requires=lambda course: course != '', statement='a proficiency requirement is loaded with its name and the course that stands for it')
Contract('C21', 'proficiency.alone', lambda what, path: ProficiencyRule.load({'proficiency': what}, c=Constants(), path=path), {'what': text_t, 'path': path21},
         {'as-written': lambda what, path, result: result.proficiency == what and result.path == path + (f".proficiency={what}",) and result.course is None and result.overridden is False}, statement='a proficiency requirement without a course has none')


def load_a_query(source, key, n, allow, failed, claim, path):
    return QueryRule.load({'from': source, 'assert': {key: {'$gte': n}}, 'allow_claimed': allow, 'include_failed': failed, 'claim': claim}, c=Constants(), path=path, ctx=RequirementContext())


def query_given(source, key, n, allow, failed, claim, path, result):
    return (result.source is QuerySource(source) and result.path == path + ('.query',) and result.allow_claimed is (allow or source == 'claimed') and result.include_failed is failed and result.where is None
            and result.attempt_claims is (claim is True) and result.record_claims is (claim is True or claim == 'record') and len(result.limit.limits) == 0 and len(result.assertions) == 1
            and result.assertions[0].expected == n and result.assertions[0].key == key and result.assertions[0].path == path + ('.query', '.assertions', '[0]', '.assert') and result.inserted == () and len(result.excluded_clbids) == 0)


for _src, _k in (('courses', 'count(courses)'), ('claimed', 'count(courses)'), ('areas', 'count(areas)'), ('music performances', 'count(performances)'), ('music recitals', 'count(recitals)')):
    for _c in (True, False, 'record'):
        Contract('C21', f'query.{_src}.{_c}', load_a_query, {'source': ConstT(_src), 'key': ConstT(_k), 'n': IntT(lo=0, pool=(0, 1, 2)), 'allow': BoolT(), 'failed': BoolT(), 'claim': ConstT(_c), 'path': path21}, {'as-written': query_given},
                 statement='a query is loaded with its source, its claiming mode and its assertions')


def load_a_requirement(name, audited, contract, disjoint, in_gpa, course, path):
    return RequirementRule.load({'result': {'course': course}, 'department_audited': audited, 'contract': contract, 'disjoint': disjoint, 'in_gpa': in_gpa}, name=name, c=Constants(), path=path, ctx=RequirementContext())


def requirement_given(name, audited, contract, disjoint, in_gpa, course, path, result):
    return (result.name == name and result.is_audited is audited and result.is_contract is contract and result.disjoint == disjoint and result.in_gpa is in_gpa and result.path == path + (f"%{name}",) and result.overridden is False
            and result.result.course == course and result.result.path == path + (f"%{name}", f"*{course}"))


Contract('C21', 'requirement', load_a_requirement, {'name': StrT(('A', 'B')), 'audited': BoolT(), 'contract': BoolT(), 'disjoint': OptT(BoolT()), 'in_gpa': BoolT(), 'course': text_t, 'path': path21}, {'as-written': requirement_given},
         requires=lambda name, course: name.strip() != '' and course != '', statement='a requirement is loaded with its name, its flags and its rule')


def load_department(name, audited, dashed, message, path):
    d = {'department-audited' if dashed else 'department_audited': audited}
    if message is not None:
        d['message'] = message
    return RequirementRule.load(d, name=name, c=Constants(), path=path, ctx=RequirementContext())


Contract('C21', 'requirement.department', load_department, {'name': StrT(('A', 'B')), 'audited': BoolT(), 'dashed': BoolT(), 'message': ConstT(None), 'path': path21},
         {'as-written': lambda name, audited, path, result: audited and result.name == name and result.is_audited is True and result.result is None and result.message is None and result.is_contract is False and result.disjoint is None and result.in_gpa is True and result.path == path + (f"%{name}",)},
         requires=lambda name: name.strip() != '', exc=lambda audited, exc: not audited and issubclass(exc, TypeError), statement='a requirement without a rule is audited by the department, or else refused')


def shown(message):
    out = message
    for tag in ('<p>', '</p>'):
        out = out.replace(tag, '')
    return out.strip()


Contract('C21', 'requirement.message', load_department, {}, {'kept': lambda message, result: result.message.startswith('<p>') and shown(result.message) == message},
         gen=lambda g: {'name': 'A', 'audited': True, 'dashed': False, 'message': g.rng.choice(['Read this.', 'x', 'one two', 'A, then B']), 'path': ('$',)}, mode='bounded', note='a few messages', functions=['dp.rule.requirement:RequirementRule.load'],
         statement='the message of a requirement is kept, as a paragraph')


def load_waived_if(code, a, hide, areas, path):
    here = tuple(path) + ('.cond',)
    waiver = OverrideException(path=here, type=ExceptionAction.Override, status=RS.Waived)
    return ConditionalRule.load({'$if': {'has-declared-area-code': code}, '$then': {'course': a}, '$hide-when-false': hide}, c=Constants(), children={}, path=path, ctx=RequirementContext(areas=areas, exceptions={here: [waiver]}))


def load_an_if(code, a, b, areas, path):
    return ConditionalRule.load({'$if': {'has-declared-area-code': code}, '$then': {'course': a}, '$else': {'course': b}}, c=Constants(), children={}, path=path, ctx=RequirementContext(areas=areas))


areas_t = SeqT(ObjT(AreaPointer, {'code': StrT(('130', '9', '8')), 'kind': EnumT(AreaType)}, name='DeclaredArea'), kind='tuple', maxlen=3)


def if_given(code, a, b, areas, path, result):
    return (result.condition.result is any(x.code == code for x in areas) and result.when_true.course == a and result.when_false.course == b and result.path == path + ('.cond',) and result.overridden is False
            and result.when_true.path == path + ('.cond', '/t', f"*{a}") and result.when_false.path == path + ('.cond', '/f', f"*{b}"))


area_gen = lambda g: {'code': g.rng.choice(AREAS), 'a': 'AMST 101', 'b': 'BIO 1', 'areas': student(tuple(x for x in AREAS if g.rng.random() < 0.5)).areas, 'path': path21.gen(g)}
Contract('C21', 'if', load_an_if, {'code': StrT(AREAS), 'a': text_t, 'b': text_t, 'areas': areas_t, 'path': path21}, {'as-written': if_given}, requires=lambda a, b: a != '' and b != '', gen=area_gen,
         statement='a conditional rule is loaded with its two branches and with the answer to its condition')


def load_hidden(code, a, areas, path):
    return ConditionalRule.load({'$if': {'has-declared-area-code': code}, '$then': {'course': a}, '$hide-when-false': True}, c=Constants(), children={}, path=path, ctx=RequirementContext(areas=areas))


Contract('C21', 'if.hidden', load_hidden, {'code': StrT(AREAS), 'a': text_t, 'areas': areas_t, 'path': path21},
         {'hidden-when-false': lambda code, areas, result: (result is None) is (not any(x.code == code for x in areas))}, requires=lambda a: a != '',
         gen=lambda g: {k: v for k, v in area_gen(g).items() if k != 'b'}, statement='a rule hidden when its condition is false is there exactly when the condition holds')


Contract('C21', 'if.waived', load_waived_if, {'code': StrT(AREAS), 'a': text_t, 'hide': BoolT(), 'areas': areas_t, 'path': path21},
         {'kept': lambda code, a, areas, path, result: result is not None and result.overridden is True and result.when_true.course == a and result.when_false is None and result.condition.result is any(x.code == code for x in areas)}, requires=lambda a: a != '',
         gen=lambda g: {**{k: v for k, v in area_gen(g).items() if k != 'b'}, 'hide': g.rng.random() < 0.7}, statement='a conditional rule that is waived is there, and waived, even when its condition is false')


def load_a_count(word, n, at_most, a, b, path):
    d = {'count': n, 'of': [{'course': a}, {'course': b}], 'at_most': at_most} if word == 'count' else {word: [{'course': a}, {'course': b}], 'at_most': at_most}
    return CountRule.load(d, c=Constants(), children={}, path=path, ctx=RequirementContext())


def count_given(word, n, at_most, a, b, path, result):
    return (result.count == {'all': 2, 'any': 1, 'both': 2, 'either': 1, 'count': n}[word] and result.at_most is at_most and len(result.items) == 2 and result.items[0].course == a and result.items[1].course == b
            and result.path == path + ('.count',) and result.items[0].path == path + ('.count', '[0]', f"*{a}") and result.items[1].path == path + ('.count', '[1]', f"*{b}") and result.audit_clauses == () and result.overridden is False)


for _w in ('all', 'any', 'both', 'either', 'count'):
    Contract('C21', f'count.{_w}', load_a_count, {'word': ConstT(_w), 'n': IntT(lo=0, pool=(0, 1, 2)), 'at_most': BoolT(), 'a': text_t, 'b': text_t, 'path': path21}, {'as-written': count_given}, requires=lambda n, a, b: n <= 2 and a != '' and b != '',
             statement='a count rule over two courses asks for as many as its word says, of its items in order')
Contract('C21', 'count.too-many', load_a_count, {'word': ConstT('count'), 'n': IntT(lo=0, pool=(1, 2, 3, 4)), 'at_most': BoolT(), 'a': text_t, 'b': text_t, 'path': path21}, {'refused': lambda result: False}, requires=lambda n, at_most, a, b: n > 2 and not at_most and a != '' and b != '',
         exc=lambda exc: issubclass(exc, AssertionError), statement='a count rule asking for more than it lists is refused')


def load_with_insertion(word, n, a, b, course, forced, mine, path):
    here = tuple(path) + ('.count',)
    there = here if mine else here + ('[0]',)
    insertion = InsertionException(path=there, type=ExceptionAction.Insert, clbid=course.clbid, forced=forced)
    d = {'count': n, 'of': [{'course': a}, {'course': b}]} if word == 'count' else {word: [{'course': a}, {'course': b}]}
    return CountRule.load(d, c=Constants(), children={}, path=path, ctx=RequirementContext(exceptions={there: [insertion]}, clbid_lookup_map_={course.clbid: course}))


def one_more_choice(word, n, a, b, course, forced, mine, path, result):
    here = tuple(path) + ('.count',)
    if not mine:
        return len(result.items) == 2 and result.count == {'all': 2, 'any': 1, 'both': 2, 'either': 1, 'count': n}[word]
    new = result.items[2]
    return (len(result.items) == 3 and result.count == {'all': 3, 'any': 1, 'both': 3, 'either': 1, 'count': n}[word] and new.course == course.course() and new.clbid == course.clbid and new.inserted is True
            and new.allow_claimed is forced and new.from_claimed is False and new.path == here + ('[2]', f"*{course.course()}"))


for _w in ('all', 'any', 'both', 'either', 'count'):
    Contract('C15', f'count.{_w}.insertion', load_with_insertion, {'word': ConstT(_w), 'n': IntT(lo=0, pool=(0, 1, 2)), 'a': text_t, 'b': text_t, 'course': course_t, 'forced': BoolT(), 'mine': ConstT(True), 'path': path21},
             {'one-more-choice': one_more_choice, 'others-as-written': lambda a, b, path, result: result.items[0].course == a and result.items[1].course == b and not result.items[0].inserted and not result.items[1].inserted},
             requires=lambda n, a, b, course: n <= 2 and a != '' and b != '' and course.course() != '' and course.clbid != '',
             statement='a course inserted at the path of a count rule, and only there, becomes one more of its choices, which may use a course claimed elsewhere exactly when the insertion is forced')

    Contract('C15', f'count.{_w}.insertion-elsewhere', load_with_insertion, {'word': ConstT(_w), 'n': IntT(lo=0, pool=(0, 1, 2)), 'a': text_t, 'b': text_t, 'course': course_t, 'forced': BoolT(), 'mine': ConstT(False), 'path': ConstT(('$', '%A'))},
             {'no-more-choices': one_more_choice}, requires=lambda n, a, b, course: n <= 2 and a != '' and b != '' and course.course() != '' and course.clbid != '', statement='an insertion beneath a count rule is not a choice of it')


# ------------------------------------------------------------------ mistakes in an area or a limit
def wrong_area(g):
    e = area_env(g)
    r = g.rng
    spots = [e['spec']] + e['spec'].get('limit', []) + [x for d in within(e['spec']) if 'from' in d for x in d.get('limit', [])]
    r.choice(spots)[r.choice(['limits', 'multicount', 'at_mots', 'results', 'wher'])] = 1
    return e


def attempt_area(spec, declared):
    try:
        return 'loaded', load_area_spec(spec, declared)
    except REFUSED:
        return 'refused', None


Contract('C21', 'area.unknown-key', attempt_area, {}, {'refused': lambda result: result[0] == 'refused'}, gen=wrong_area, mode='bounded', gen_n=8, note='random areas with one misspelt key', functions=['dp.area:AreaOfStudy.load', 'dp.limit:Limit.load'],
         statement='an area or a limit holding a key it does not know is refused')


# ------------------------------------------------------------------ a key that is not of the language, whatever it is
from dp.limit import Limit

ONE = {'count(courses)': {'$gte': 1}}
SPECS = {
    'course': {'course': 'BIO 123'},
    'query': {'from': 'courses', 'where': {'subject': {'$eq': 'BIO'}}, 'assert': ONE},
    'all-of': {'all': [{'course': 'BIO 123'}, {'course': 'BIO 124'}]},
    'any-of': {'any': [{'course': 'BIO 123'}, {'course': 'BIO 124'}]},
    'count-of': {'count': 1, 'of': [{'course': 'BIO 123'}, {'course': 'BIO 124'}]},
    'conditional': {'$if': {'has-declared-area-code': '130'}, '$then': {'course': 'BIO 123'}, '$else': {'course': 'BIO 124'}},
    'proficiency': {'proficiency': 'Keyboard Level III'},
    'requirement': {'result': {'course': 'BIO 123'}},
    'area': {'name': 'x', 'type': 'major', 'code': '1', 'degree': 'B.A.', 'result': {'all': [{'course': 'BIO 123'}]}},
    'limit': {'at_most': '2 courses', 'where': {'subject': {'$eq': 'BIO'}}},
}
LANGUAGE = {
    'course': ('course', 'grade', 'allow_claimed', 'from_claimed', 'hidden', 'ap', 'grade_option', 'institution', 'name', 'clbid', 'inserted', 'waived', 'optional', 'year', 'term', 'section', 'sub_type', 'crsid'),
    'query': ('where', 'limit', 'claim', 'assert', 'all', 'allow_claimed', 'from', 'load_potentials', 'include_failed'),
    'count': ('of', 'all', 'count', 'any', 'either', 'both', 'at_most', 'audit'), 'conditional': ('$if', '$then', '$else', '$hide-when-false'), 'proficiency': ('proficiency', 'course'),
    'requirement': ('in_gpa', 'name', 'result', 'disjoint', 'message', 'contract', 'requirements', 'department_audited', 'department-audited'),
    'area': ('name', 'type', 'major', 'degree', 'code', 'emphases', 'result', 'requirements', 'limit', 'multicountable', 'credit', 'exceptions-migrations'), 'limit': ('at most', 'at-most', 'at_most', 'where', 'message')}
# what makes a dictionary one kind of rule rather than another
KINDS = ('course', 'ap', 'institution', 'clbid', 'crsid', 'name', 'proficiency', 'requirement', 'from', '$if', 'all', 'any', 'both', 'either', 'count', 'of', 'result', 'type', 'department-audited', 'department_audited')


def with_key(kind, key, value):
    data = {**SPECS[kind], key: value}
    ctx = RequirementContext()
    try:
        if kind == 'limit':
            Limit.load(data, c=Constants(), ctx=ctx)
        elif kind == 'area':
            AreaOfStudy.load(specification=data, c=Constants(), student=student(()))
        elif kind == 'requirement':
            load_rule(data={'requirement': 'A'}, c=Constants(), children={'A': data}, path=['$'], ctx=ctx)
        else:
            load_rule(data=data, c=Constants(), children={}, path=['$'], ctx=ctx)
    except REFUSED:
        return 'refused'
    return 'loaded'


def is_known(kind, key):
    return key in LANGUAGE['count' if kind.endswith('-of') else kind] or kind not in ('limit', 'area') and key in KINDS


for _kind in SPECS:
    Contract('C21', f'{_kind}.any-other-key', with_key, {'kind': ConstT(_kind), 'key': StrT(('asert', 'limits', 'gradee', 'At most', 'counts', '$if ', 'results', 'emphasis')), 'value': OneOfT(BoolT(), IntT(), StrT())},
             {'refused': lambda result: result == 'refused'}, requires=lambda kind, key: not is_known(kind, key), statement=f'a {_kind} holding any key which is not of the language is refused')


def counted_load(n, key):
    data = {'count': n, key: [{'course': 'BIO 123'}, {'course': 'BIO 124'}, {'course': 'BIO 125'}]}
    try:
        r = load_rule(data=data, c=Constants(), children={}, path=['$'], ctx=RequirementContext())
    except REFUSED:
        return None
    return r.count, len(r.items)


Contract('C21', 'count.of-three', counted_load, {'n': IntT(lo=0, pool=(0, 1, 3, 4, 5)), 'key': StrT(('of',))}, {'as-many-or-refused': lambda n, result: result is None if n > 3 else result == (n, 3)}, requires=lambda key: key == 'of',
         statement='a count of some number of its three parts asks for that number, and is refused when it asks for more than there are')
