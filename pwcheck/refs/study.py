"""References for parameter studies: combinations, table entries, placeholders, files and records."""
import itertools

from ..objint import AbsRaise, Obj, Top
from ..valnum import arr
from ..vnspec import Exact, RAISES, S
from .files import FILES, m_open, meth, stub as iostub

import os
STUB = os.path.join(os.path.dirname(__file__), 'stubs_study.txt')


def stub(I, name):
    m = I.prog.add_stub('stubs_study', STUB)
    return I.entity(I.prog.module_attr(m, name), name)


def put(I, name, txt):
    f = m_open(I, [name, 'w'], {}, None)
    meth(I, f, 'write', txt)


def get(I, name):
    return meth(I, I.fs[name], 'getvalue') if name in I.fs else None


def m_copy(I, a, k, n):
    if a[0] not in I.fs:
        raise AbsRaise('FileNotFoundError', a[0], n)
    put(I, a[1], get(I, a[0]))


def m_exists(I, a, k, n):
    p = a[0]
    return any(f == p or f.startswith(p.rstrip('/') + '/') for f in list(I.fs) + sorted(I.dirs)) if isinstance(p, str) else Top(('exists',), 'bool')


def m_mkdir(I, a, k, n):
    I.dirs.add(a[0])


def m_rm(I, a, k, n):
    p = a[0]
    for f in [f for f in I.fs if f == p or f.startswith(p + '/')]:
        del I.fs[f]
    I.dirs = {d for d in I.dirs if d != p and not d.startswith(p + '/')}


def m_remove(I, a, k, n):
    if a[0] not in I.fs:
        raise AbsRaise('FileNotFoundError', str(a[0]), n)
    del I.fs[a[0]]
    I.dbs.pop(a[0], None)


def m_open2(I, a, k, n):
    """a file can be made only in a directory that is there"""
    mode = a[1] if len(a) > 1 else k.get('mode', 'r')
    if 'w' not in mode and a[0] not in I.fs:
        raise AbsRaise('FileNotFoundError', str(a[0]), n)
    if 'w' in mode:
        d = os.path.dirname(a[0])
        if d and not any(x == d or x.startswith(d + '/') for x in I.dirs):
            raise AbsRaise('FileNotFoundError', str(a[0]), n)
    return m_open(I, a, k, n)


def m_system(I, a, k, n):
    c = a[0].split() if isinstance(a[0], str) else []
    if c[:2] == ['rm', '-r'] and len(c) == 3:
        return m_rm(I, [c[2].strip("'")], {}, n)
    if c[:1] not in (['chmod'], ['mkdir']):
        I.foreign.add('system')


def m_db(I, a, k, n):
    fn = a[0]
    if fn not in I.dbs:
        I.dbs[fn] = I.call(stub(I, 'Table'), [], {}, n)
        m_open(I, [fn, 'w'], {}, n)
    db = I.dbs[fn]
    db.attrs['table'] = a[1] if len(a) > 1 else k.get('table')
    return db



NOOP = lambda I, a, k, n: None
STUDY = dict(FILES)
STUDY.update({'open': m_open2, 'os.path.exists': m_exists, 'os.path.isfile': m_exists, 'os.makedirs': m_mkdir, 'os.mkdir': m_mkdir, 'shutil.copy': m_copy, 'shutil.copyfile': m_copy,
              'shutil.rmtree': m_rm, 'os.remove': m_remove, 'os.unlink': m_remove, 'pwtools.common.system': m_system, 'pwtools.sql.SQLiteDB': m_db, 'shlex.quote': lambda I, a, k, n: a[0],
              'pwtools.common.backup': lambda I, a, k, n: m_backup(I, a[0])})


def m_backup(I, p):
    n = 0
    while any(f == p + str(n) or f.startswith(p + '%d/' % n) for f in I.fs):
        n += 1
    for f in [f for f in I.fs if f == p or f.startswith(p + '/')]:
        put(I, p + str(n) + f[len(p):], get(I, f))
    I.dirs.add(p + str(n))


def frep(v):
    return '%.16e' % v if isinstance(v, float) else str(v)


def start(I):
    I.fs, I.dirs, I.dbs = {}, set(), {}


def ent(I, mod, name):
    return I.entity(I.prog.module_attr(I.prog.mod(mod), name), name)


def attrs(I, o, names=('key', 'sqltype', 'sqlval', 'fileval')):
    return tuple(I.getattr(o, n) for n in names)


def deep(v):
    return tuple(deep(x) for x in v) if isinstance(v, (list, tuple)) else v


TYPE = {int: 'INTEGER', float: 'REAL', str: 'TEXT', type(None): 'NULL', bool: 'INTEGER'}


def specs():
    out = []

    def add(mod, name, mk, ref, what='', **kw):
        kw = dict(kw, what=what, models=dict(STUDY, **kw.get('models', {})))
        out.append(('study', mod, name, mk, ref, kw))
    lst = lambda I, F, a, k: deep(I.call(F, a, k, None))
    # combinations
    for ls in ([[1, 2], ['a', 'b']], [[1], [2, 3], ['x', 'y', 'z']], [[1.0, 2.0, 3.0]], [[1, 2], [], [3]], [['b', 'a'], [0, 0]]):
        add('comb', 'nested_loops', lambda ls=ls: ([[list(l) for l in ls]], {}), Exact(tuple(itertools.product(*ls))), str(ls), call=lst)
    for fl in (False, True):
        ref = tuple((x,) + (tuple(y) if fl else (tuple(y),)) for x in (1, 2) for y in (('a', 10), ('b', 20)))
        add('comb', 'nested_loops', lambda fl=fl: ([[[1, 2], [['a', 10], ['b', 20]]]], {'flatten': fl}), Exact(ref), 'varied together, flatten=%s' % fl, call=lst)
    # types and entries
    for v in (1, 2.5, 'abc', None, True, 0, '', -3.0):
        add('sql', 'find_sqltype', lambda v=v: ([v], {}), Exact(TYPE[type(v)]), repr(v))
        for ty in (None, 'float', 'Integer', 'text'):
            for fv in (None, 'F'):
                t = TYPE[type(v)] if ty is None else {'float': 'REAL', 'Integer': 'INTEGER', 'text': 'TEXT'}[ty]
                add('sql', 'SQLEntry', lambda v=v, ty=ty, fv=fv: ([], {'key': 'k', 'sqlval': v, 'sqltype': ty, 'fileval': fv}), Exact(('k', t, v, v if fv is None else fv)), '%r %s %s' % (v, ty, fv), post=attrs)
    ents = lambda I, r: tuple(attrs(I, x) for x in r)
    for vs in ([25.0, 50.0, 75.0], [1, 2], ['a', 'c', 'b'], [3]):
        for ty in (None, 'text', 'float'):
            t = TYPE[type(vs[0])] if ty is None else {'text': 'TEXT', 'float': 'REAL'}[ty]
            add('sql', 'sql_column', lambda vs=vs, ty=ty: (['e', list(vs)], {} if ty is None else {'sqltype': ty}), Exact(tuple(('e', t, v, v) for v in vs)), '%s %s' % (vs, ty), post=ents)
        add('sql', 'sql_column', None, Exact(tuple(('e', TYPE[type(vs[0])], v, 'f=%s' % v) for v in vs)), '%s fileval_func' % vs, post=ents,
            call=lambda I, F, a, k, vs=vs: I.call(F, ['e', list(vs)], {'fileval_func': stub(I, 'eqs')}, None))
        add('sql', 'sql_column', None, Exact(tuple(('e', 'TEXT', 's%s' % v, v) for v in vs)), '%s sqlval_func' % vs, post=ents,
            call=lambda I, F, a, k, vs=vs: I.call(F, ['e', list(vs)], {'sqlval_func': stub(I, 'pres')}, None))
    rows = [[1.0, 'a', 777], [2.0, 'b', 888], [3.0, 'a', 999]]
    hd = [('x', 'float'), ('y', 'Text'), ('z', 'integer')]
    ents2 = lambda I, r: tuple(tuple(attrs(I, x) for x in l) for l in r)
    for f in ('header', 'colnames', 'header, funcs', 'colnames, funcs'):
        ref = tuple(tuple((k, t, ('S' + v if 'funcs' in f and k == 'y' else v), ('F%s' % v if 'funcs' in f and k == 'z' else v)) for (k, t), v in zip((('x', 'REAL'), ('y', 'TEXT'), ('z', 'INTEGER')), r)) for r in rows)

        def call(I, F, a, k, f=f):
            kw = {'header': list(hd)} if f.startswith('header') else {'colnames': ['x', 'y', 'z']}
            if 'funcs' in f:
                kw.update(sqlval_funcs={'y': stub(I, 'preS')}, fileval_funcs={'z': stub(I, 'preF')})
            return I.call(F, [[list(r) for r in rows]], kw, None)
        add('sql', 'sql_matrix', None, Exact(ref), f, call=call, post=ents2)
    add('sql', 'sql_matrix', lambda: ([[[1, 2]]], {'colnames': ['a']}), RAISES, 'too few names', asserts=True)
    # placeholders
    for txt, d, conv, ref in (('XXXONE  XXXPI', {'XXXONE': 1, 'XXXPI': 3.25}, True, '1  %s' % frep(3.25)), ('a @b@ c @b@\nd @c@', {'@b@': 'x', '@c@': 'y', '@q@': 'z'}, False, 'a x c x\nd y'),
                              ('a b', {'c': 'd'}, False, 'a b'), ('ecut=XXXECUT rho=XXXECUTRHO', {'XXXECUT': 30, 'XXXECUTRHO': 240}, True, 'ecut=30 rho=240'),
                              ('ecut=XXXECUT rho=XXXECUTRHO', {'XXXECUTRHO': 240, 'XXXECUT': 30}, True, 'ecut=30 rho=240'), ('n=XXXN', {'XXXN': 1e-9}, True, 'n=%s' % frep(1e-9)),
                              ('XXXA', {'XXXA': -2.5}, True, frep(-2.5)), ('XXXA', {'XXXA': 'str'}, True, 'str'), ('{XXXA} %(x)s %d', {'XXXA': 'v'}, False, '{v} %(x)s %d')):
        for quiet in (True, False):
            kw = {'warn_mult_found': False, 'warn_not_found': False, 'disp': False} if quiet else {}
            add('common', 'template_replace', lambda txt=txt, d=d, conv=conv, kw=kw: ([txt, dict(d)], dict(kw, mode='txt', conv=conv)), Exact(ref), 'text %r %s%s' % (txt, d, ' quiet' if quiet else ''))
    add('common', 'template_replace', lambda: (['XXXA', {'XXXA': 1.5}], {'mode': 'txt'}), RAISES, 'value is no text')
    for txt, d in (('%(one)s  %(pi).16e', {'one': 1, 'pi': 3.25}), ('%(a)d-%(b)s-%(a)03d 100%%', {'a': 7, 'b': 'x', 'c': 3}), ('%(a)s', {'a': 2.5})):
        add('common', 'template_replace', lambda txt=txt, d=d: ([txt, dict(d)], {}), Exact(txt % d), 'dict %r' % txt)

    # one file
    T = 'pre=XXXCALC_NAME\necut=XXXECUT rho=XXXECUTRHO\nid XXXIDX xxxecut XXXOTHER XXXECUT\n'
    D = {'ecut': 30.0, 'ecutrho': 240, 'idx': 3, 'calc_name': 'run3'}

    def filled(keys, d=D, txt=T, pre='XXX', up=True):
        for k in sorted(keys, key=len, reverse=True):
            txt = txt.replace(pre + (k.upper() if up else k), frep(d[k]))
        return txt
    for keys in (None, ['ecut', 'ecutrho'], ['idx'], []):
        for how in ('dct', 'sql'):
            for src in ('txt', 'templ_dir', 'filename', 'func'):
                ref = filled(D if keys is None else keys) if src != 'func' else T.replace('XXXIDX', 'XXXIDX')

                def call(I, F, a, k, keys=keys, how=how, src=src):
                    start(I)
                    I.dirs |= {'t', 'calc/0'}
                    put(I, 't/pw.in', T if src != 'txt' or keys == [] else 'not this')
                    kw = {'filename': 't/pw.in'} if src == 'filename' else {'basename': 'pw.in', 'templ_dir': 't'}
                    if src == 'txt' and keys != []:
                        kw['txt'] = T
                    if src == 'func':
                        kw['func'] = stub(I, 'ats')
                    if keys is not None:
                        kw['keys'] = list(keys)
                    o = I.call(F, [], kw, None)
                    if how == 'dct':
                        I.call(I.getattr(o, 'write'), [dict(D)], {'calc_dir': 'calc/0'}, None)
                    else:
                        E = ent(I, 'sql', 'SQLEntry')
                        I.call(I.getattr(o, 'writesql'), [{q: I.call(E, [], {'key': q, 'sqlval': 'no', 'fileval': v}, None) for q, v in D.items()}], {'calc_dir': 'calc/0'}, None)
                    return (get(I, 'calc/0/pw.in'), get(I, 't/pw.in') != 'not this')
                add('batch', 'FileTemplate', None, (Exact(ref), Exact(src != 'txt' or keys == [])), 'keys %s, %s, %s' % (keys, how, src), call=call)

    # studies
    TJ = 'job XXXSUBCMD XXXSCRATCH XXXHOME XXXCALC_NAME XXXIDX'
    TP = 'c=XXXCALC_NAME s=XXXSTUDY_NAME r=XXXREVISION e=XXXECUT er=XXXECUTRHO l=XXXLAB'
    P = [[('ecut', 30.0, None), ('ecutrho', 240, 'R240'), ('lab', 'a', None)], [('ecut', 40.0, None), ('ecutrho', 320, 'R320'), ('lab', 'b', None)], [('ecut', 50.0, None), ('ecutrho', 400, None)]]

    def runs(hist):
        """files and rows after a history of studies [(mode, rows, hosts)]"""
        fs, rowsdb, cols, rev, nxt = {}, [], [], -1, 0
        for mode, ps, hosts, bak in hist:
            if mode == 'w':
                rowsdb, cols, rev, nxt = [], [], -1, 0
            rev += 1
            for h in hosts:
                base = 'study/calc_' + h
                if any(f.startswith(base + '/') for f in fs):
                    if bak:
                        q = 0
                        while any(f.startswith(base + '%d/' % q) for f in fs):
                            q += 1
                        fs.update({base + str(q) + f[len(base):]: t for f, t in fs.items() if f.startswith(base + '/')})
                    if mode == 'w':
                        fs = {f: t for f, t in fs.items() if not f.startswith(base + '/')}
                sh = 'here=$(pwd)\n'
                for i, p in enumerate(ps):
                    n = nxt + i
                    d = {k: (v if f is None else f) for k, v, f in p}
                    d.update(revision=rev, study_name='S', idx=n, calc_name='S_run%d' % n, subcmd='sub_' + h, scratch='/s/' + h, home='/h/' + h)
                    fs['%s/%d/pw.in' % (base, n)] = filled(d, d, TP)
                    fs['%s/%d/job.%s' % (base, n, h)] = filled(d, d, TJ)
                    sh += 'cd %d && sub_%s job.%s && cd $here && sleep 0\n' % (n, h, h)
                fs[base + '/run.sh'] = sh
            for i, p in enumerate(ps):
                r = {k: v for k, v, f in p}
                r.update(revision=rev, study_name='S', idx=nxt + i, calc_name='S_run%d' % (nxt + i), hostname=','.join(hosts))
                rowsdb.append(r)
            if rev > 0:
                fs['study/excl_push'] = '\n'.join(str(r['idx']) for r in rowsdb if r['revision'] < rev)
            nxt += len(ps)
        return fs, rowsdb

    def study(hist):
        def call(I, F, a, k):
            start(I)
            I.dirs.add('t')
            for h in ('m1', 'm2'):
                put(I, 't/job.' + h, TJ)
            put(I, 't/pw.in', TP)
            E, M, FT = ent(I, 'sql', 'SQLEntry'), ent(I, 'batch', 'Machine'), ent(I, 'batch', 'FileTemplate')
            for mode, ps, hosts, bak in hist:
                ms = [I.call(M, [], dict(hostname=h, subcmd='sub_' + h, scratch='/s/' + h, home='/h/' + h, filename='t/job.' + h), None) for h in hosts]
                t = I.call(FT, [], {'basename': 'pw.in', 'templ_dir': 't'}, None)
                par = [[I.call(E, [], {'key': q, 'sqlval': v, 'fileval': f}, None) for q, v, f in p] for p in ps]
                s = I.call(F, [], dict(machines=ms if len(ms) > 1 else ms[0], templates=[t], params_lst=par, study_name='S', calc_root='study'), None)
                I.call(I.getattr(s, 'write_input'), [], {'mode': mode, 'backup': bak}, None)
            db = [I.dbs[f] for f in sorted(I.dbs) if '0' not in f]
            rows = db[0].attrs['rows'] if len(db) == 1 else None
            if not isinstance(rows, list) or not all(isinstance(r, dict) for r in rows):
                return Top(('table',) + tuple(repr(r) for r in rows or ()))
            return (tuple(sorted((f, get(I, f)) for f in I.fs if f.startswith('study/') and '.db' not in f)), tuple(tuple(sorted((k, v) for k, v in r.items() if v is not None)) for r in rows),
                    tuple(sorted(db[0].attrs['cols'])))
        fs, rows = runs(hist)
        cols = tuple(sorted((k, TYPE[type(v)]) for k, v in {k: v for r in rows for k, v in r.items()}.items()))
        return call, (Exact(tuple(sorted(fs.items()))), Exact(tuple(tuple(sorted(r.items())) for r in rows)), Exact(cols))
    for hist in ([('a', P[:1], ['m1'], True)], [('a', P, ['m1'], True)], [('w', P, ['m1', 'm2'], True)], [('a', P[:2], ['m1'], True), ('a', P[1:], ['m1'], True)],
                 [('a', P[2:], ['m1'], True), ('a', P[:2], ['m2'], False), ('a', P[:1], ['m1', 'm2'], True)], [('a', P, ['m1'], False), ('w', P[:2], ['m1'], False)]):
        call, ref = study(hist)
        add('batch', 'ParameterStudy', None, ref, ' then '.join('%s %d rows on %s%s' % (m, len(p), '+'.join(h), '' if b else ', no backup') for m, p, h, b in hist), call=call)
    return out

