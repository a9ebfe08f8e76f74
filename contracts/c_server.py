"""The queue of audits, and the results kept of them."""
import contextlib
import io
import json
import pathlib
import re
import shutil
import sqlite3
import tempfile
from contracts.common import *
from pyvc.contract import Outside
from dp.audit import ResultMsg, NoAuditsCompletedMsg, ProgressMsg, EstimateMsg, Arguments
from dp.run import run, find_area, load_area
from dp.server.worker import process_queue
from dp.server.audit import audit


# ------------------------------------------------------------------ the queue
class Spoiled(Exception):
    pass


class Queue:
    """A cursor over a queue of rows, in the transaction language the worker speaks."""
    def __init__(self, rows):
        self.rows = rows
        self.at = 0             # rows gone for good
        self.held = 0           # rows taken in the open transaction
        self.last = None
        self.open = False
        self.wrong = []
        self.audits = []
        self.rounds = 0

    def execute(self, text, values=None):
        word = text.strip().strip(';').upper().split()[0]
        if word == 'BEGIN' or word == 'START':
            if self.open:
                self.wrong.append('a transaction is begun inside another')
            self.open = True
        elif word == 'DELETE':
            if not self.open:
                self.wrong.append('an item is taken outside a transaction')
            if self.held > 0:
                self.wrong.append('a second item is taken in the same transaction')
            if self.at + self.held < len(self.rows):
                self.last = self.rows[self.at + self.held]
                self.held = self.held + 1
            else:
                self.last = None
        elif word == 'COMMIT' or word == 'END':
            if not self.open:
                self.wrong.append('a commit outside a transaction')
            self.at = self.at + self.held
            self.held = 0
            self.open = False
        elif word == 'ROLLBACK':
            self.held = 0
            self.open = False
        self.rounds = self.rounds + 1
        if self.rounds > 60:
            raise KeyboardInterrupt()

    def fetchone(self):
        return self.last


class Files:
    """A directory of specifications, as find_area sees it."""
    def __init__(self, found):
        self.found = found


def found_area(root=None, area_catalog=None, area_code=None):
    if root.found == 'broken':
        raise Spoiled()
    if root.found == 'none':
        return None
    return ('file', area_catalog, area_code)


def loaded_area(filename):
    return ('spec', filename)


def recorded_audit(*, curs, student, area_spec, area_catalog, area_code, run_id, expires_at, link_only):
    curs.audits.append((curs.open, curs.at, student, area_spec, area_catalog, area_code, run_id, expires_at, link_only))
    if run_id < 0:
        raise Spoiled()
    return 1


def work(rows, found):
    curs = Queue(rows)
    root = Files(found)
    process_queue(curs=curs, area_root=root)
    return curs


def expected_audits(rows, found):
    if found != 'found':
        return []
    return [(True, i, json.loads(r[5]), ('spec', ('file', 2018 if r[3] == '2018-19' else 2019, r[4])), r[3], r[4], r[1], r[6], r[7]) for i, r in enumerate(rows)]


class JsonT(StrT):
    """The text of some JSON document (the proof leaves its content open; inputs come from the pool)."""


row_t = TupT(IntT(pool=(1, 2, 3)), IntT(pool=(-1, 0, 1, 2)), StrT(('100', '200')), OneOfT(ConstT('2018-19'), ConstT('2019-20')), StrT(('190', '270')), JsonT(('{"stnum": "1"}', '{"stnum": "2", "x": [1]}')), OptT(StrT(('2020-01-01',))), BoolT())
DOUBLES = {find_area: found_area, load_area: loaded_area, audit: recorded_audit}


def json_text(vm, args, kwargs):
    """json.loads as an unknown one-to-one function of the text."""
    return ('json', args[0])


QUEUE = {'each-item-once': lambda rows, found, result: result.audits == expected_audits(rows, found),
         'all-gone': lambda rows, result: result.at == len(rows),
         'no-transaction-left': lambda result: not result.open and result.held == 0,
         'one-transaction-each': lambda result: result.wrong == []}
for n in (0, 1, 2):
    Contract('C20', f'queue.{n}', work, {'rows': TupT(*[row_t] * n), 'found': OneOfT(ConstT('found'), ConstT('none'), ConstT('broken'))},
             QUEUE, doubles=DOUBLES, summaries={json.loads: json_text}, functions=['dp.server.worker:process_queue'],
             statement=f'with {n} items queued, each is audited once with its own data, inside its own transaction, and is gone from the queue afterwards, also when its specification is missing or its audit fails')

Contract('C20', 'queue.malformed', work, {'rows': TupT(TupT(IntT(), IntT(), StrT(('100',)), ConstT('2018-19'))), 'found': ConstT('found')},
         {'nothing-audited': lambda result: result.audits == [], 'no-transaction-left': lambda result: not result.open and result.held == 0, 'gone': lambda result: result.at == 1, 'one-transaction-each': lambda result: result.wrong == []},
         doubles=DOUBLES, summaries={json.loads: json_text}, statement='an item with the wrong number of columns is dropped without leaving a transaction open')


# ------------------------------------------------------------------ the database, with the statements really executed
RESULT = ('id', 'student_id', 'area_code', 'catalog', 'run', 'input_data', 'expires_at', 'link_only', 'result_version', 'iterations', 'duration', 'per_iteration', 'rank', 'max_rank', 'result', 'ok', 'ts', 'gpa', 'claimed_courses', 'status', 'is_active', 'revision', 'student_classification', 'student_class', 'student_name', 'student_name_sort')


class Database:
    """The statements of the code, executed by sqlite after translating the dialect."""
    def __init__(self):
        self.db = sqlite3.connect(':memory:', isolation_level=None)
        self.db.execute("ATTACH ':memory:' AS public")
        self.db.execute('CREATE TABLE public.queue (id, run, student_id, area_catalog, area_code, input_data, expires_at, link_only, priority, ts)')
        self.db.execute('CREATE TABLE result (id INTEGER PRIMARY KEY AUTOINCREMENT, ' + ', '.join(c for c in RESULT if c != 'id') + ')')
        self.cur = None
        self.untranslated = ''
        self.audits = []
        self.at = 0

    @property
    def open(self):
        return self.db.in_transaction

    def execute(self, text, values=None):
        t = re.sub(r'%\((\w+)\)s', r':\1', text)
        t = re.sub(r'::\w+', '', t)
        t = re.sub(r'\binterval\s+', '', t, flags=re.I)
        t = re.sub(r'\bclock_timestamp\(\)|\bnow\(\)', 'CURRENT_TIMESTAMP', t, flags=re.I)
        t = re.sub(r'FOR\s+UPDATE(\s+SKIP\s+LOCKED)?(\s+NOWAIT)?', '', t, flags=re.I)
        try:
            self.cur = self.db.execute(t) if values is None else self.db.execute(t, values)
        except sqlite3.OperationalError as e:
            if 'syntax' in str(e) or 'no such function' in str(e) or 'unrecognized' in str(e):
                self.untranslated = str(e)
            raise
        self.rows = self.cur.fetchall() if self.cur.description else []

    def fetchone(self):
        return self.rows.pop(0) if self.rows else None

    def fetchall(self):
        rows, self.rows = self.rows, []
        return rows

    def table(self):
        return [dict(zip(RESULT, r)) for r in self.db.execute('SELECT ' + ', '.join(RESULT) + ' FROM result ORDER BY id')]


class Outcome:
    """A finished result with given content."""
    def __init__(self, content, claims):
        self.content = content
        self.claims = claims

    def to_dict(self):
        return dict(self.content)

    def keyed_claims(self):
        return self.claims


MESSAGES = []


def told(args, *, student, area_spec):
    for m in MESSAGES:
        if m == 'broken':
            raise Spoiled()
        yield m


def stored(before, messages, student, code, catalog, run_id, expires_at, link_only):
    db = Database()
    for r in before:
        db.db.execute('INSERT INTO result (student_id, area_code, catalog, result, is_active, revision, link_only) VALUES (?, ?, ?, ?, ?, ?, ?)', r)
    MESSAGES[:] = messages
    first = db.table()
    r = audit(curs=db, area_spec={'code': code}, area_code=code, area_catalog=catalog, student=student, run_id=run_id, expires_at=expires_at, link_only=link_only)
    if db.untranslated:
        raise Outside(db.untranslated)
    return first, r, db.table()


def result_of(messages):
    for m in messages:
        if m == 'broken':
            return None
        if isinstance(m, ResultMsg):
            return m
    return None


def new_row(before, messages, student, code, catalog, run_id, expires_at, link_only, result):
    first, rid, after = result
    msg = result_of(messages)
    if msg is None:
        return rid is None and after == first
    mine = [r for r in after if r['id'] == rid]
    if len(mine) != 1 or any(r['id'] == rid for r in first):
        return False
    r = mine[0]
    c = msg.result.content
    want = {'student_id': student['stnum'], 'area_code': code, 'catalog': catalog, 'run': run_id, 'expires_at': expires_at, 'result_version': c['version'], 'iterations': msg.iters,
            'rank': c['rank'], 'max_rank': c['max_rank'], 'gpa': c['gpa'], 'status': c['status'], 'student_classification': student['classification'],
            'student_class': None if student['class'] == 'None' else student['class'], 'student_name': student['name'] or None, 'student_name_sort': student['name_sort'] or None,
            'duration': f'{msg.elapsed_ms}ms', 'per_iteration': f'{msg.avg_iter_ms}ms'}
    if any(r[k] != v for k, v in want.items()):
        return False
    if bool(r['ok']) != c['ok'] or bool(r['link_only']) != link_only or bool(r['is_active']) == link_only:
        return False
    if json.loads(r['result']) != c or json.loads(r['claimed_courses']) != msg.result.claims or json.loads(r['input_data']) != student:
        return False
    left = [x for x in first if any(y['id'] == x['id'] for y in after)]
    return r['revision'] == max([x['revision'] for x in left if x['student_id'] == student['stnum'] and x['area_code'] == code], default=0) + 1


def earlier_rows(before, messages, student, code, catalog, link_only, result):
    first, rid, after = result
    msg = result_of(messages)
    now = {r['id']: r for r in after}
    for x in first:
        mine = msg is not None and not link_only and x['student_id'] == student['stnum'] and x['area_code'] == code
        if mine and x['catalog'] == catalog and x['result'] == json.dumps(msg.result.content):
            if x['id'] in now:
                return False
        elif x['id'] not in now:
            return False
        elif mine:
            if now[x['id']] != dict(x, is_active=0) and now[x['id']] != dict(x, is_active=False):
                return False
        elif now[x['id']] != x:
            return False
    return len([r for r in after if r['id'] not in [x['id'] for x in first]]) == (1 if msg is not None else 0)


def only_active(student, code, messages, link_only, result):
    return result_of(messages) is None or link_only or len([r for r in result[2] if r['student_id'] == student['stnum'] and r['area_code'] == code and r['is_active']]) == 1


def stored_env(g):
    r = g.rng
    contents = [{'version': 1, 'rank': str(k), 'max_rank': '5', 'gpa': '3.1', 'ok': bool(k % 2), 'status': 'done'} for k in range(3)]
    codes, nums, cats = ['140', '190'], ['000001', '000002'], ['2018-19', '2019-20']
    before = []
    for k in range(r.randint(0, 5)):
        before.append((r.choice(nums), r.choice(codes), r.choice(cats), json.dumps(r.choice(contents)), r.choice([True, True, False]), r.randint(1, 7), r.random() < 0.3))
    res = ResultMsg(**{f: Outcome(r.choice(contents), {'1': [['$']]}) if f == 'result' else MSG_VALUES.get(f, 0) for f in RESULT_FIELDS})
    messages = r.choice([[res], [res], [EstimateMsg(estimate=3), ProgressMsg(**{f: 0 for f in PROGRESS_FIELDS}), res], [NoAuditsCompletedMsg()], [EstimateMsg(estimate=3), 'broken'], []])
    student = {'stnum': r.choice(nums), 'name': r.choice(['', 'A']), 'name_sort': r.choice(['', 'B']), 'classification': 'SR', 'class': r.choice(['None', '2020'])}
    return {'before': before, 'messages': messages, 'student': student, 'code': r.choice(codes), 'catalog': r.choice(cats), 'run_id': r.randint(1, 9), 'expires_at': r.choice([None, '2020-01-01']), 'link_only': r.random() < 0.4}


RESULT_FIELDS = [a.name for a in ResultMsg.__attrs_attrs__]
PROGRESS_FIELDS = [a.name for a in ProgressMsg.__attrs_attrs__]
MSG_VALUES = {'iters': 17, 'total_iters': 99, 'version': 7, 'best_i': 5, 'elapsed_ms': 12.5, 'avg_iter_ms': 0.5, 'transcript': tuple()}

Contract('C20', 'results.stored', stored, {}, {'row-as-computed': new_row, 'earlier-rows': earlier_rows, 'one-active': only_active},
         gen=stored_env, mode='bounded', doubles={run: told}, functions=['dp.server.audit:audit'], gen_n=1.0,
         note='the statements are executed by sqlite over random result tables of up to 5 rows',
         statement='a finished audit adds exactly one row holding what was computed; unless link-only it becomes the only active row of that student and area, identical earlier rows are replaced, and rows of other students and areas are untouched; an audit that fails or finds nothing changes no row')


def taken_in_order(rows):
    db = Database()
    for r in rows:
        db.db.execute('INSERT INTO public.queue VALUES (?, ?, ?, ?, ?, ?, ?, ?, ?, ?)', r)
    try:
        process_queue(curs=db, area_root=Files('found'))
    except sqlite3.OperationalError:
        if not db.untranslated:
            raise
    if db.untranslated:
        raise Outside(db.untranslated)
    return [(a[4], a[5], a[6], a[7]) for a in db.audits], all(a[0] for a in db.audits), db.open, db.db.execute('SELECT count(*) FROM public.queue').fetchone()[0]


def queue_env(g):
    r = g.rng
    n = r.randint(0, 5)
    ts = r.sample(range(100), n)
    return {'rows': [(k, r.choice([1, 2, 3, -1]), '100', '2018-19', f'c{k}', '{"stnum": "1"}', None, False, r.randint(0, 2), ts[k]) for k in range(n)]}


Contract('C20', 'queue.order', taken_in_order, {},
         {'order': lambda rows, result: result[0] == [(r[3], r[4], r[1], r[6]) for r in sorted(rows, key=lambda r: (-r[8], r[9]))],
          'in-transaction': lambda result: result[1] and not result[2], 'emptied': lambda result: result[3] == 0},
         gen=queue_env, mode='bounded', doubles=DOUBLES, functions=['dp.server.worker:process_queue'],
         note='the statements are executed by sqlite over random queues of up to 5 rows',
         statement='the queue is worked through by priority, then by age, until it is empty')


# ------------------------------------------------------------------ finding the specification
def found_in(tree, catalog, code):
    root = pathlib.Path(tempfile.mkdtemp(prefix='areas-'))
    try:
        for folder, name in tree:
            (root / folder).mkdir(exist_ok=True)
            (root / folder / f'{name}.yaml').write_text(f'name: {name}\n')
        f = find_area(root=root, area_catalog=catalog, area_code=code)
        return None if f is None else (f.parent.name, f.stem, load_area(f))
    finally:
        shutil.rmtree(root)


def newest(tree, catalog, code):
    years = [int(f[:4]) for f, n in tree if n == code and int(f[:4]) <= catalog]
    return None if not years else (f'{max(years)}-{str(max(years) + 1)[2:]}', code, {'name': int(code)})


def tree_env(g):
    r = g.rng
    return {'tree': list({(f'{y}-{str(y + 1)[2:]}', r.choice(['140', '190'])) for y in (r.randint(2008, 2012) for _ in range(r.randint(0, 5)))}), 'catalog': r.randint(2007, 2013), 'code': r.choice(['140', '190'])}


Contract('C20', 'area.found', found_in, {}, {'newest-in-force': lambda tree, catalog, code, result: result == newest(tree, catalog, code)},
         gen=tree_env, mode='bounded', functions=['dp.run:find_area', 'dp.run:load_area'], note='directories of up to 5 specifications',
         statement='an area is audited against the newest specification not newer than the catalog year')


# ------------------------------------------------------------------ filling the queue
from dp.bin.expand import expand_student
import dp.server.batch as batch
from dp.server.batch import fetch_and_queue, get_student


def areas_of(student, area_code, catalog):
    """Every audit a student asks for: (student, catalog, area)."""
    try:
        own = str(int(student['catalog'])) if catalog is None else catalog
    except ValueError:
        return []
    if area_code:
        codes = [area_code]
    else:
        codes = list(dict.fromkeys(a['code'] for a in student['areas'] if a['kind'] != 'emphasis'))
    of = {a['code']: a.get('catalog', own) for a in student['areas']}
    return [(student['stnum'], f'{of.get(c, own)}-{(int(of.get(c, own)) + 1) % 100:02}', c) for c in codes]


def expand_env(g):
    r = g.rng
    areas = []
    for k in range(r.randint(0, 4)):
        a = {'code': r.choice(['140', '190', '270', 'B.A.']), 'kind': r.choice(['major', 'degree', 'concentration', 'emphasis'])}
        if r.random() < 0.5:
            a['catalog'] = r.choice(['2015', '2018', '1999', '2099'])
        if a['code'] not in [x['code'] for x in areas]:
            areas.append(a)
    return {'student': {'stnum': '000001', 'catalog': r.choice(['2018', '2015', '02016', 'None', '']), 'areas': areas}, 'area_code': r.choice([None, None, '140', '666', 'B.A.']), 'catalog': r.choice([None, None, None, '2012'])}


Contract('C20', 'batch.expand', lambda student, area_code, catalog: list(expand_student(student=student, area_code=area_code, catalog=catalog)), {},
         {'each-area-once': lambda student, area_code, catalog, result: sorted(result) == sorted(areas_of(student, area_code, catalog))},
         gen=expand_env, mode='bounded', functions=['dp.bin.expand:expand_student'], note='up to 4 declared areas',
         statement='a student is audited for each declared area but the emphases, once, under the catalog of the area or else their own; without a catalog year for nothing')


class Connection:
    """Remembers what is queued, and what of that is committed."""
    def __init__(self):
        self.rows = []
        self.committed = 0

    def cursor(self):
        return self

    def __enter__(self):
        return self

    def __exit__(self, a, b, c):
        return None

    def execute(self, text, values=None):
        self.rows.append(values)

    def commit(self):
        self.committed = len(self.rows)


def fetched(student_id):
    """(the student asked for here says what is to be found of them)"""
    return {'stnum': student_id[0], 'areas': student_id[1]}, 'text of ' + student_id[0]


def expanded(*, student, area_code=None, catalog=None):
    return list(student['areas'])


def filled(items, student_id, run, queued, blocked, only):
    conn = Connection()
    n = fetch_and_queue(conn=conn, student_id=(student_id, items), run=run, queued_items=queued, blocked_items=blocked, area_code_filter=only)
    return n, conn.rows, conn.committed


def to_queue(items, queued, blocked, only):
    return [i for i in items if (i[0], i[2]) not in queued and (i[0], i[2]) not in blocked and (only is None or only == i[2])]


item_t = TupT(StrT(('1', '2')), StrT(('2018-19', '2019-20')), StrT(('140', '190')))
pair_t = TupT(StrT(('1', '2')), StrT(('140', '190')))
for n in (0, 1, 2):
    Contract('C20', f'batch.queue.{n}', filled, {'items': TupT(*[item_t] * n), 'student_id': StrT(('1', '2')), 'run': IntT(), 'queued': SetT(pair_t), 'blocked': SetT(pair_t), 'only': OptT(StrT(('140', '190')))},
             {'each-once': lambda items, student_id, run, queued, blocked, only, result: [(v['stnum'], v['catalog'], v['code'], v['data'], v['run']) for v in result[1]]
              == [(s, c, a, 'text of ' + student_id, run) for s, c, a in to_queue(items, queued, blocked, only)],
              'counted': lambda items, queued, blocked, only, result: result[0] == len(to_queue(items, queued, blocked, only)),
              'committed': lambda items, queued, blocked, only, result: result[2] == len(to_queue(items, queued, blocked, only))},
             doubles={get_student: fetched, expand_student: expanded}, functions=['dp.server.batch:fetch_and_queue'],
             statement=f'of {n} audits a student asks for, those neither queued nor blocked nor filtered out are queued once each, with the student\'s data')


def queued_rows(items, student_id, run, queued, blocked, only):
    db = Database()
    for k, (s, a) in enumerate(sorted(queued)):
        db.db.execute('INSERT INTO public.queue (id, student_id, area_code) VALUES (?, ?, ?)', (k, s, a))
    conn = SqlConnection(db)
    fetch_and_queue(conn=conn, student_id=(student_id, items), run=run, queued_items=queued, blocked_items=blocked, area_code_filter=only)
    if db.untranslated:
        raise Outside(db.untranslated)
    return list(db.db.execute('SELECT priority, student_id, area_catalog, area_code, input_data, run FROM public.queue WHERE run IS NOT NULL')), [tuple(r) for r in db.db.execute('SELECT student_id, area_code FROM public.queue WHERE run IS NULL ORDER BY id')]


class SqlConnection(Connection):
    def __init__(self, db):
        self.db = db

    def execute(self, text, values=None):
        self.db.execute(re.sub(r'cast\(\s*(\S+) as jsonb\)', r'\1', text), values)

    def commit(self):
        if self.db.open:
            self.db.db.execute('COMMIT')


def fill_env(g):
    r = g.rng
    pairs = [('1', '140'), ('1', '190'), ('1', '270'), ('2', '140')]
    return {'items': [('1', r.choice(['2018-19', '2019-20']), a) for a in r.sample(['140', '190', '270', '666'], r.randint(0, 4))], 'student_id': r.choice(['1', '01']), 'run': r.randint(0, 9),
            'queued': set(r.sample(pairs, r.randint(0, 2))), 'blocked': set(r.sample(pairs, r.randint(0, 2))), 'only': r.choice([None, None, '140', '190'])}


Contract('C20', 'batch.stored', queued_rows, {},
         {'rows': lambda items, student_id, run, queued, blocked, only, result: sorted(result[0]) == sorted((1, s, c, a, 'text of ' + student_id, run) for s, c, a in to_queue(items, queued, blocked, only)),
          'others-kept': lambda queued, result: result[1] == sorted(queued)},
         gen=fill_env, mode='bounded', doubles={get_student: fetched, expand_student: expanded}, functions=['dp.server.batch:fetch_and_queue'], gen_n=0.5,
         note='the statements are executed by sqlite over queues of up to 2 rows',
         statement='a queued audit is one row of the queue, with the student, catalog, area, data and run it is for')


class Listing:
    """A connection whose cursor gives the rows of one table."""
    def __init__(self, queue, block):
        self.tables = {'queue': queue, 'queue_block': block}
        self.given = ()

    def cursor(self):
        return self

    def __enter__(self):
        return self

    def __exit__(self, a, b, c):
        return None

    def execute(self, text, values=None):
        self.given = self.tables['queue_block' if 'queue_block' in text else 'queue']

    def __iter__(self):
        return iter(self.given)


def listed(queue, block):
    with contextlib.redirect_stdout(io.StringIO()):
        return batch.fetch_queued_audits(Listing(queue, block)), batch.fetch_blocked_audits(Listing(queue, block))


def listing_env(g):
    r = g.rng
    row = lambda: {'student_id': r.choice(['1', '2']), 'area_code': r.choice(['140', '190']), 'ts': 'then', 'added_by': 'someone', 'added_at': 'then'}
    return {'queue': [row() for _ in range(r.randint(0, 4))], 'block': [row() for _ in range(r.randint(0, 4))]}


Contract('C20', 'batch.listed', listed, {},
         {'queued': lambda queue, block, result: result[0] == {(r['student_id'], r['area_code']) for r in queue},
          'blocked': lambda queue, block, result: result[1] == {(r['student_id'], r['area_code']) for r in block}},
         gen=listing_env, mode='bounded', functions=['dp.server.batch:fetch_queued_audits', 'dp.server.batch:fetch_blocked_audits'], note='tables of up to 4 rows', gen_n=0.5,
         statement='the audits left alone are those in the queue and those blocked')
