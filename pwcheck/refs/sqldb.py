"""SQLiteDB and makedb: what the methods give and leave in the database, for histories of calls.

The SQL statements which the interpreted source builds are constants; what a statement does to a
table is computed by SQLite itself on a table in memory of the analyser. The reference is a
plain list of rows."""
import itertools
import os
import sqlite3
from ..objint import AbsRaise, Top
from ..vnspec import Exact, RAISES
from .rand import fold

STUB = os.path.join(os.path.dirname(__file__), 'stubs_sql.txt')
TYPES = {int: 'INTEGER', float: 'REAL', str: 'TEXT', type(None): 'NULL'}
PLAIN = (int, float, str, type(None), bool)


def stub(I, name):
    m = I.prog.add_stub('stubs_sql', STUB)
    return I.entity(I.prog.module_attr(m, name), name)


def snap(c):
    try:
        return c.serialize()
    except sqlite3.Error:
        return b''          # nothing in it


def plain(v):
    return isinstance(v, (list, tuple)) and all(isinstance(x, PLAIN) for x in v)


def connect(I, a, k, n):
    if not a or not isinstance(a[0], str):
        return Top(('call', 'sqlite3.connect'))
    c = sqlite3.connect(':memory:')
    if I.disk.get(a[0]):
        c.deserialize(I.disk[a[0]])
    I.disk.setdefault(a[0], b'')
    c.set_authorizer(lambda op, *r: sqlite3.SQLITE_DENY if op in (sqlite3.SQLITE_ATTACH, sqlite3.SQLITE_DETACH) else sqlite3.SQLITE_OK)
    I.conns.append((a[0], c))
    return I.call(stub(I, 'SqlConn'), [len(I.conns) - 1], {}, n)


def execute(I, a, k, n):
    fn, c = I.conns[a[0]]
    if not isinstance(a[1], str) or not plain(a[2]):
        return Top(('call', 'execute'))
    try:
        cur = c.execute(a[1], tuple(a[2]))
        rows = cur.fetchall()
    except (sqlite3.Error, sqlite3.Warning) as e:
        raise AbsRaise(type(e).__name__, str(e), n)
    if not c.in_transaction:
        I.disk[fn] = snap(c)
    return (list(rows), None if cur.description is None else tuple(tuple(d) for d in cur.description), cur.lastrowid, cur.rowcount)


def commit(I, a, k, n):
    fn, c = I.conns[a[0]]
    c.commit()
    I.disk[fn] = snap(c)


def rollback(I, a, k, n):
    I.conns[a[0]][1].rollback()


def remove(I, a, k, n):
    if I.disk.pop(a[0], None) is None:
        raise AbsRaise('FileNotFoundError', str(a[0]), n)


MODELS = {'sqlite3.connect': connect, 'pwnative.execute': execute, 'pwnative.commit': commit, 'pwnative.rollback': rollback, 'os.path.exists': lambda I, a, k, n: a[0] in I.disk,
          'os.path.isfile': lambda I, a, k, n: a[0] in I.disk, 'os.remove': remove, 'os.unlink': remove}


class Ref:
    """the table as list of rows"""
    def __init__(self, header, rows):
        self.header, self.rows = list(header), [list(r) for r in rows]

    def col(self, c):
        return [h[0] for h in self.header].index(c)

    def fill(self, col, values, start=1, extend=True, overwrite=False):
        if not extend and start > len(self.rows):
            return False
        i, nrow = self.col(col), len(self.rows)
        for r, v in enumerate(values, start - 1):
            if r < nrow:
                if not overwrite and self.rows[r][i] is not None:
                    return False
                self.rows[r][i] = v
            elif extend:
                self.rows.append([None] * len(self.header))
                self.rows[-1][i] = v
        return True

    def add(self, col, ty):
        self.header.append((col, ty))
        for r in self.rows:
            r.append(None)

    def state(self):
        return (tuple(self.header), tuple(tuple(r) for r in self.rows))


def state_of(data, table):
    """what is on the disk"""
    c = sqlite3.connect(':memory:')
    if data:
        c.deserialize(data)
    return (tuple((x[1], x[2]) for x in c.execute('pragma table_info(%s)' % table)), tuple(c.execute('select * from %s order by rowid' % table).fetchall()))


def specs():
    out = []

    def add(name, ref, call, what):
        def go(I, f, a_, k_):
            I.disk, I.conns = {}, []
            return call(I, f)
        out.append(('study', 'sql', name, None, ref, dict(what=what, models=dict(MODELS), call=go, asserts=True, at=name.split('.')[-1] if '.' in name else None)))

    def m(I, o, name, *a, **k):
        return I.call(I.getattr(o, name), list(a), k, None)

    def db(I, header=(('a', 'INTEGER'), ('b', 'REAL')), rows=((1, 0.5), (2, None), (3, None)), table='calc', fn='x.db'):
        c = sqlite3.connect(':memory:')
        c.execute('create table %s (%s)' % (table, ','.join('%s %s' % h for h in header)))
        for r in rows:
            c.execute('insert into %s values (%s)' % (table, ','.join('?' * len(r))), r)
        c.commit()
        I.disk[fn] = snap(c)
        return I.call(I.entity(I.prog.module_attr(I.prog.modules['pwtools.sql'], 'SQLiteDB'), 'SQLiteDB'), [fn], {'table': table}, None)
    HD, RW = (('a', 'INTEGER'), ('b', 'REAL')), ((1, 0.5), (2, None), (3, None))
    end = lambda I, o, table='calc', how='commit': (m(I, o, how), state_of(I.disk['x.db'], table))[1]
    # values into a column
    for n, start, extend, over, col in itertools.product((0, 1, 3, 5), (1, 2, 4), (True, False), (False, True), ('b', 'c')):
        vals = [10.5 * (i + 1) for i in range(n)]
        hd, rw = (HD, RW) if col == 'b' else (HD + (('c', 'REAL'),), tuple(r + (None,) for r in RW))
        t = Ref(hd, rw)
        ok = t.fill(col, vals, start, extend, over)
        kw = dict(start=start, extend=extend, overwrite=over)
        add('SQLiteDB.fill_column', Exact(t.state()) if ok else RAISES, lambda I, f, hd=hd, rw=rw, col=col, vals=vals, kw=kw: (lambda o: (m(I, o, 'fill_column', col, list(vals), **kw), end(I, o))[1])(db(I, hd, rw)),
            '%s, %d values, %s' % (col, n, kw))
    add('SQLiteDB.fill_column', RAISES, lambda I, f: m(I, db(I), 'fill_column', 'z', [1.0]), 'no such column')
    t = Ref(HD, RW)
    t.fill('b', [7.5, 8.5], start=2)
    add('SQLiteDB.fill_column', Exact(t.state()), lambda I, f: (lambda o: (m(I, o, 'fill_column', 'b', [7.5, 8.5], start=2), end(I, o, how='finish'))[1])(db(I)), 'defaults, finish')
    add('SQLiteDB.fill_column', Exact(t.state()), lambda I, f: (lambda o: (m(I, o, 'set_table', 'other'), m(I, o, 'fill_column', 'b', [7.5, 8.5], start=2, table='calc'), end(I, o))[2])(db(I)), 'table by keyword')
    H3_, R3_ = HD + (('c', 'REAL'),), tuple(r + (None,) for r in RW)
    t = Ref(H3_, R3_)
    t.fill('c', [1.5, 2.5, 3.5, 4.5])
    add('SQLiteDB.fill_column', Exact(t.state()), lambda I, f: (lambda o: (m(I, o, 'fill_column', 'c', [1.5, 2.5, 3.5, 4.5]), end(I, o))[1])(db(I, H3_, R3_)), 'defaults')
    add('SQLiteDB.fill_column', RAISES, lambda I, f: m(I, db(I), 'fill_column', 'b', [1.0]), 'entry there, defaults')
    # new columns
    for vals, ty, kw in (([1.5, 2.5, 3.5], None, {}), ([6], None, {}), ([1, 2], None, {}), (['x', 'y', 'z', 'w'], None, {}), ([4, 5], None, {'start': 2}), (['x', 'y', 'z', 'w'], None, {'extend': False}),
                         ([1, 2, 3], 'text', {}), ([1.5], 'float', {'start': 3}), ([7, 8], 'integer', {'start': 4})):
        t = Ref(HD, RW)
        sty = TYPES[type(vals[0])] if ty is None else {'text': 'TEXT', 'float': 'REAL', 'integer': 'INTEGER'}[ty]
        t.add('c', sty)
        t.fill('c', [str(v) for v in vals] if sty == 'TEXT' else vals, **kw)
        kw2 = dict(kw) if ty is None else dict(kw, sqltype=ty)
        add('SQLiteDB.attach_column', Exact(t.state()), lambda I, f, vals=vals, kw=kw2: (lambda o: (m(I, o, 'attach_column', 'c', list(vals), **kw), end(I, o))[1])(db(I)), '%s %s' % (vals, kw2))
    add('SQLiteDB.attach_column', RAISES, lambda I, f: m(I, db(I), 'attach_column', 'b', [1.0]), 'column there already')
    t = Ref(HD, RW)
    t.fill('b', [1.25, 2.25], overwrite=True)
    add('SQLiteDB.attach_column', Exact(t.state()), lambda I, f: (lambda o: (m(I, o, 'attach_column', 'b', [1.25, 2.25], overwrite=True), end(I, o))[1])(db(I)), 'overwrite')
    # header, tables
    for c in (('a', 'text'), ('c', 'Float'), ('C2', 'integer')):
        t = Ref(HD, RW)
        if c[0] != 'a':
            t.add(c[0], {'Float': 'REAL', 'integer': 'INTEGER'}[c[1]])
        add('SQLiteDB.add_column', Exact(t.state()), lambda I, f, c=c: (lambda o: (m(I, o, 'add_column', *c), end(I, o))[1])(db(I)), str(c))
    t.header, t.rows = list(HD), [list(r) for r in RW]
    t.add('u', 'TEXT')
    t.add('v', 'REAL')
    add('SQLiteDB.add_columns', Exact(t.state()), lambda I, f: (lambda o: (m(I, o, 'add_columns', [('u', 'text'), ('a', 'text'), ('v', 'float')]), end(I, o))[1])(db(I)), 'two new, one there')
    add('SQLiteDB.get_header', Exact(HD), lambda I, f: tuple(tuple(x) for x in m(I, db(I), 'get_header')), 'header')
    add('SQLiteDB.create_table', Exact(((('x', 'REAL'), ('y', 'TEXT')), ())), lambda I, f: (lambda o: (m(I, o, 'create_table', [('x', 'float'), ('y', 'text')], table='new'), end(I, o, 'new'))[1])(db(I)), 'second table')
    add('SQLiteDB.has_table', Exact((True, False)), lambda I, f: (lambda o: (m(I, o, 'has_table', 'calc'), m(I, o, 'has_table', 'foo')))(db(I)), 'has_table')
    add('SQLiteDB.has_column', Exact((True, True, False)), lambda I, f: (lambda o: tuple(m(I, o, 'has_column', c) for c in ('a', 'b', 'ab')))(db(I)), 'has_column')
    for rows in ((), RW):
        add('SQLiteDB.get_max_rowid', Exact(len(rows)), lambda I, f, rows=rows: m(I, db(I, HD, rows), 'get_max_rowid'), '%d rows' % len(rows))
    add('SQLiteDB.get_max_rowid', RAISES, lambda I, f: (lambda o: (m(I, o, 'set_table', None), m(I, o, 'get_max_rowid')))(db(I)), 'no table')
    # select
    for q, v, d in (('select a,b from calc', (), {'a': [1, 2, 3], 'b': [0.5, None, None]}), ('select * from calc where a>?', (1,), {'a': [2, 3], 'b': [None, None]}), ('select b,a from calc where a==7', (), {'a': [], 'b': []}),
                    ('select a from calc', (), {'a': [1, 2, 3]})):
        add('SQLiteDB.get_dict', Exact(tuple(sorted((k, tuple(x)) for k, x in d.items()))), lambda I, f, q=q, v=v: (lambda r: tuple(sorted((k, tuple(x)) for k, x in r.items())) if isinstance(r, dict) else r)(m(I, db(I), 'get_dict', q, *([v] if v else []))), q)
    for q, v, r in (('select a from calc', (), (1, 2, 3)), ('select a,b from calc', (), (1, 0.5, 2, None, 3, None)), ('select a from calc where a==9', (), ()), ('select a from calc where a<?', (3,), (1, 2))):
        add('SQLiteDB.get_list1d', Exact(r), lambda I, f, q=q, v=v: tuple(m(I, db(I), 'get_list1d', q, *([v] if v else []))), q)
    for q, r in (('select b from calc where a==1', Exact(0.5)), ('select a from calc where a==9', RAISES), ('select a from calc', RAISES), ('select a,b from calc where a==1', RAISES)):
        add('SQLiteDB.get_single', r, lambda I, f, q=q: m(I, db(I), 'get_single', q), q)
    add('SQLiteDB.get_array', [[1.0, 4.0], [2.0, 5.0]], lambda I, f: m(I, db(I, HD, ((1, 4.0), (2, 5.0))), 'get_array', 'select a,b from calc'), 'two columns')
    add('SQLiteDB.get_array1d', [4.0, 5.0, 6.0], lambda I, f: m(I, db(I, HD, ((1, 4.0), (2, 5.0), (3, 6.0))), 'get_array1d', 'select b from calc'), 'one column')
    # makedb
    LS = [[1, 'a', 0.5], [2, 'b', 1.5]]
    NM = ['i', 's', 'x']
    H3 = (('i', 'INTEGER'), ('s', 'TEXT'), ('x', 'REAL'))

    def mk(I, f, steps, table, fn='x.db', old=None, last='x.db'):
        if old is not None:
            db(I, *old, table=table, fn=fn)
        for lists, names, kw in steps:
            I.call(f, [fn, [list(r) for r in lists], list(names)], dict(kw), None)
        return state_of(I.disk[fn], table)
    full = tuple(tuple(r) for r in LS)
    for mode, close in itertools.product(('w', 'a', None), (True, False, None)):
        kw = {k: v for k, v in (('mode', mode), ('close', close)) if v is not None}
        add('makedb', Exact((H3, full)), lambda I, f, kw=kw: mk(I, f, [(LS, NM, dict(kw, table='t'))], 't'), 'new, %s' % kw)
        ref = full if mode == 'w' else ((9, 'old', 9.5),) + full
        add('makedb', Exact((H3, ref)), lambda I, f, kw=kw: mk(I, f, [(LS, NM, dict(kw, table='t'))], 't', old=(H3, ((9, 'old', 9.5),))), 'there, %s' % kw)
    add('makedb', Exact((H3, full + ((None, 'c', None), (3, 'd', None)))), lambda I, f: mk(I, f, [(LS, NM, {}), ([['c']], ['s'], {}), ([['d', 3]], ['s', 'i'], {})], 'x'), 'some columns, other order, twice')
    add('makedb', RAISES, lambda I, f: mk(I, f, [(LS, NM, {}), ([[1, 2]], ['i', 'z'], {})], 'x'), 'unknown column')
    add('makedb', RAISES, lambda I, f: mk(I, f, [(LS, NM, {}), ([[1, 2]], ['i', 's'], {})], 'x'), 'other type')
    add('makedb', RAISES, lambda I, f: mk(I, f, [(LS, NM[:2], {})], 'x'), 'too few names')
    for fn, t in (('dd/foo.db', 'foo'), ('bar.sqlite', 'bar'), ('/a.b/baz.sqlite3', 'baz')):
        add('makedb', Exact((H3, full)), lambda I, f, fn=fn, t=t: mk(I, f, [(LS, NM, {})], t, fn=fn), 'table name from %s' % fn)
    add('makedb', RAISES, lambda I, f: mk(I, f, [(LS, NM, {})], 'x', fn='x.dat'), 'no table name')
    # the database that is returned: closed, or ready to be used
    for kw in ({}, {'close': True}, {'close': False}):
        add('makedb', RAISES if kw.get('close', True) else Exact(('x', 1, 2)), lambda I, f, kw=kw: (lambda o: (I.getattr(o, 'table'),) + tuple(m(I, o, 'get_list1d', 'select i from x')))(I.call(f, ['x.db', [list(r) for r in LS], list(NM)], dict(kw), None)), 'returned, %s' % kw)
    # convergence tables: numbers are printed with 4 digits
    X3, E3, F3 = ['2 2 2', '4 4 4', '8 8 8'], [-300.0, -310.0, -312.5], [0.25, 0.5, 0.125]

    def table(xx, ys, mode, orig, absd, sf='%15s', ff='%15.4f'):
        lines = []
        for i, x in enumerate(xx):
            line = sf % x
            for y in ys:
                d = y[-1] - y[i] if mode == 'last' else 0.0 if i == len(y) - 1 else y[i + 1] - y[i]
                line += ff % (abs(d) if absd else d) + (ff % y[i] if orig else '')
            lines.append(line)
        return lines

    def addt(what, ref, xx, yy, **kw):
        def go(I, f, a, k):
            I.numtest = fold
            keep = [list(yy[0]), list(yy[1])] if isinstance(yy[0], list) else list(yy)
            r = I.call(f, [list(xx), keep], dict(kw), None)
            return tuple(x.replace('-0.0000', ' 0.0000') for x in r.rstrip('\n').split('\n')) if isinstance(r, str) else r
        out.append(('study', 'batch', 'conv_table', None, RAISES if ref is RAISES else Exact(tuple(x.replace('-0.0000', ' 0.0000') for x in ref)), dict(what=what, call=go)))
    for mode, orig, absd in itertools.product(('last', 'next'), (False, True), (False, True)):
        for nm, yy in (('one quantity', E3), ('two quantities', [E3, F3])):
            addt('%s, mode=%s orig=%s absdiff=%s' % (nm, mode, orig, absd), table(X3, yy if nm[0] == 't' else [yy], mode, orig, absd), X3, yy, mode=mode, orig=orig, absdiff=absd)
    addt('defaults', table(X3, [E3], 'last', False, False), X3, E3)
    addt('formats', table(X3, [E3], 'last', False, False, '%8s', '%10.2f'), X3, E3, sfmt='%8s', ffmt='%10.2f')
    addt('other mode', RAISES, X3, E3, mode='foo')
    # unique rows and columns, in the order of their first appearance
    M = ((1.5, 2.5, 3.5), (1.5, 2.5, 3.5), (1.5, 2.5, 4.5), (1.5, 2.5, 3.5), (0.5, 2.5, 4.5))
    for what in ('row', 'col'):
        A = M if what == 'row' else tuple(zip(*M))
        R = [list(map(float, r)) for r in (M[0], M[2], M[4])]
        R = R if what == 'row' else [list(c) for c in zip(*R)]
        out.append(('study', 'comb', 'unique2d', None, R, dict(what=what,
                    call=lambda I, f, a, k, A=A, what=what: (setattr(I, 'numtest', fold), I.call(f, [[list(r) for r in A]], {'what': what}, None))[1])))
    out.append(('study', 'comb', 'unique2d', lambda: ([[[1, 2]]], {'what': 'foo'}), RAISES, dict(what='other')))
    return out
