"""Contracts of the charge resolution and statistics (C17).

pandas is replaced by the contract below (symbolic back end): what is known of
a table is, for every key, the sum of each of its columns over the rows with
that key.  Concatenating tables adds these sums, grouping keeps them, and the
groups of a grouped table are those of the rows it was made from.  The
concrete back end uses the real pandas."""
from pydv.registry import unit

M = 'CHECLabPy.utils.resolutions'
PANDAS = ('pandas as modelled in contracts/resol.py: DataFrame.groupby(keys).sum() has one row for every key that occurs, holding '
          'the sums of the other columns over the rows with that key; concat has the rows of all its tables; .loc[mask] keeps '
          'the rows where the mask holds; sums over groups of groups are sums over the rows (real arithmetic)')


class Missing:
    """Everything of pandas that the contract does not describe."""

    def __getattr__(self, k):
        if k.startswith(('_', 'pv_')) or k == 'cx':
            raise AttributeError(k)
        self.__dict__['cx'].cannot('%s.%s is not part of the contract' % (type(self).__name__, k))


class Usage(Missing):
    def __init__(self, cx, n):
        self.cx, self.n = cx, n

    def sum(self):
        return self.n


class Table(Missing):
    """What all tables have in common."""

    def memory_usage(self, index=True, deep=False):
        self.w.count += 1
        return Usage(self.cx, self.cx.int('memory%d' % self.w.count, 0))

    def groupby(self, by, as_index=True, sort=True, **k):
        if k:
            self.cx.cannot('groupby options')
        return GroupBy(self, [by] if isinstance(by, str) else list(by), as_index)

    def copy(self, deep=True):
        return self

    def reset_index(self, drop=False):
        if not drop:
            self.cx.cannot('reset_index of rows')
        return self


class Atom:
    """Any rows: all that is known are the sums of their columns by key."""

    def __init__(self, w, name, columns):
        self.w, self.name, self.columns = w, name, list(columns)

    def total(self, col, keys):
        """The sum of a column over the rows with that key; '#': the number of
        contributed values, which is what the column n adds up to."""
        col = '#' if col == 'n' else col
        f = self.w.cx.function('%s!%s!%s' % (self.name, col, '!'.join(sorted(keys))), len(keys))
        v = f(*[keys[k] for k in sorted(keys)])
        return self.w.cx.max2(v, 0) if col in ('#', 'sum2') or self.w.squares else v


class Rows(Table):
    """The rows of atoms and contributions, one after the other."""

    def __init__(self, w, atoms):
        self.cx, self.w, self.atoms = w.cx, w, list(atoms)

    @property
    def columns(self):
        return self.atoms[0].columns if self.atoms else []

    def total(self, col, keys):
        s = 0
        for a in self.atoms:
            if sorted(a.columns) != sorted(self.columns):
                self.cx.cannot('tables with different columns')
            s = s + a.total(col, keys)
        return s


class Contribution(Table):
    """A table built from arrays."""

    def __init__(self, w, frame):
        self.cx, self.w, self.f = w.cx, w, frame

    @property
    def columns(self):
        return list(self.f.columns)

    def __getitem__(self, k):
        return self.f[k]

    def __setitem__(self, k, v):
        self.f[k] = v

    def __len__(self):
        return len(self.f)

    def total(self, col, keys):
        np = self.cx.np
        mask = True
        for k in sorted(keys):
            m = self.f[k].values == keys[k]
            mask = m if mask is True else mask & m
        return np.where(mask, 1 if col == '#' else self.f[col].values, 0).sum()


class Grouped(Table):
    """One row for every key that occurs in the source."""

    def __init__(self, w, keys, source, indexed=False, cond=None, cols=None):
        cx = w.cx
        self.cx, self.w, self.by, self.source, self.indexed = cx, w, list(keys), source, indexed
        self.cond = list(cond or [])
        w.count += 1
        name = 'group%d' % w.count
        self.G = cx.int('rows_' + name, 0)
        self.keyfn = {k: cx.function('%s!%s' % (name, k), 1) for k in self.by}
        self.cols = {}
        for k in self.by:
            self.cols[k] = cx.build((self.G,), lambda r, k=k: self.keyfn[k](r))
        self.kept = list(self.by)
        if cols is None:
            for c in source.columns:
                if c not in self.by:
                    self.cols[c] = cx.build((self.G,), lambda r, c=c: source.total(c, self.at(r)))
                    self.kept.append(c)

    def at(self, r):
        return {k: self.keyfn[k](r) for k in self.by}

    def occurs(self, keys):
        """There is a row for this key."""
        return self.cx.and_(self.source.total('#', keys) > 0, *[c(keys) for c in self.cond])

    @property
    def columns(self):
        return [c for c in self.cols if not (self.indexed and c in self.by)]

    def total(self, col, keys):
        """The sum over the groups with that key."""
        cx = self.cx
        if not set(keys) <= set(self.by) or col in self.by or col not in self.kept + ['#']:
            cx.cannot('sums over %s of groups of %s' % (sorted(keys), self.by))
        ok = True
        for c in self.cond:
            ok = cx.and_(ok, c(dict(keys)))
        return cx.ite(ok, lambda: self.source.total(col, keys), lambda: 0)

    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self.columns:
                raise KeyError(k)
            if self.cols[k] is None:
                self.cx.cannot('column %s of regrouped keys' % k)
            from pydv.pdmodel import SSeries
            return SSeries(self.cols[k], k)
        if isinstance(k, list):
            if not set(self.by) <= set(k):
                self.cx.cannot('columns without the keys')
            g = self.clone()
            g.cols = {c: self.cols[c] for c in k}
            return g
        return self.filter(k)

    def __setitem__(self, k, v):
        if k in self.by:
            self.cx.cannot('replaced keys')
        from pydv.pdmodel import SFrame
        f = SFrame({c: v_ for c, v_ in self.cols.items() if v_ is not None})
        f[k] = v
        from pydv.interp import snapshot
        snapshot(self.cols)
        snapshot(self.kept)
        self.cols[k] = f.cols[k]
        if k in self.kept:
            self.kept.remove(k)

    def __len__(self):
        return self.G

    def pv_len(self):
        return self.G

    def clone(self):
        g = Table.__new__(Grouped)
        g.__dict__.update(self.__dict__)
        g.cols, g.kept, g.cond = dict(self.cols), list(self.kept), list(self.cond)
        return g

    def copy(self, deep=True):
        return self.clone()

    def reset_index(self, drop=False):
        if drop and self.indexed:
            self.cx.cannot('dropped keys')
        g = self.clone()
        g.indexed = False
        return g

    def drop(self, labels=None, axis=0, columns=None):
        if columns is None and axis in (1, 'columns'):
            columns = labels
        columns = [columns] if isinstance(columns, str) else list(columns or [])
        if not columns or set(columns) & set(self.by):
            self.cx.cannot('drop of keys')
        g = self.clone()
        for c in columns:
            if c not in g.cols:
                raise KeyError(c)
            del g.cols[c]
        return g

    @property
    def loc(self):
        return Loc(self)

    def filter(self, mask):
        """The rows where the mask holds: all columns are functions of the
        key, so the rows that are left have columns of the same form."""
        import z3
        from pydv import core
        cx = self.cx
        if not hasattr(mask, 'a'):
            cx.cannot('rows selected this way')
        m = mask.a
        r0 = core.fresh_int('row')
        facts = core.lift(m.at(core.wrap(r0))).t
        old = [core.lift(self.keyfn[k](core.wrap(r0))).t for k in self.by]
        fresh = [core.fresh_int('key') if o.sort() == z3.IntSort() else z3.Real('key!%s' % k) for o, k in zip(old, self.by)]
        body = z3.substitute(facts, *zip(old, fresh))
        if any(v.eq(r0) for v in z3.z3util.get_vars(body)):
            cx.cannot('a mask that is no function of the key')

        def cond(keys):
            sub = [(f, core.toreal(core.num_term(keys[k]))) for f, k in zip(fresh, self.by) if k in keys]
            t = z3.substitute(body, *sub)
            if any(v.eq(f) for v in z3.z3util.get_vars(t) for f in fresh):
                cx.cannot('a mask that is no function of the new keys')
            return core.wrap(t)
        g = Grouped(self.w, self.by, self.source, self.indexed, self.cond + [cond], cols=())
        for c in self.cols:
            if c in self.by:
                continue
            if c not in self.kept:
                cx.cannot('rows selected after columns are added')
            g.cols[c] = cx.build((g.G,), lambda r, c=c: self.source.total(c, g.at(r)))
            g.kept.append(c)
        return g

    def query(self, *a, **k):
        self.cx.cannot('query')


class Loc(Missing):
    def __init__(self, g):
        self.cx, self.g = g.cx, g

    def __getitem__(self, k):
        if isinstance(k, tuple):
            self.cx.cannot('loc with columns')
        return self.g.filter(k)


class GroupBy(Missing):
    def __init__(self, t, by, as_index=True, select=None):
        self.cx, self.t, self.by, self.as_index, self.select = t.cx, t, by, as_index, select

    def __getitem__(self, k):
        return GroupBy(self.t, self.by, self.as_index, [k] if isinstance(k, str) else list(k))

    def sum(self):
        t = self.t
        for k in self.by:
            if k not in t.columns:
                raise KeyError(k)
        if isinstance(t, Grouped):
            g = Grouped(t.w, self.by, t, self.as_index, cols=())
            for c in t.columns:
                if c in self.by:
                    continue
                if c in t.by or c not in t.kept:
                    g.cols[c] = None        # sums of keys: not described
                else:
                    g.cols[c] = g.cx.build((g.G,), lambda r, c=c: t.total(c, g.at(r)))
                    g.kept.append(c)
        else:
            g = Grouped(t.w, self.by, t, self.as_index)
        return g if self.select is None else g[self.by + self.select]

    def agg(self, f):
        if f != 'sum':
            self.cx.cannot('agg')
        return self.sum()


class World:
    def __init__(self, cx, squares):
        self.cx, self.count, self.squares = cx, 0, squares
        cx.assume_contract(PANDAS)
        self.m = cx.load(M)
        self.added = []
        if cx.symbolic:
            def frame(data=None, **k):
                if k:
                    cx.cannot('DataFrame options')
                return Rows(self, []) if data is None else Contribution(self, cx.frame(data))
            cx.patch(self.m, 'pd', cx.module('pandas', concat=self.concat, DataFrame=frame))
        else:
            import pandas as pd
            big = cx.choice('memory', [1, 10 ** 7, 3 * 10 ** 8, 10 ** 10])

            def memory_usage(df, index=True, deep=False):
                return pd.Series([big * len(df)])
            cx.patch(pd.DataFrame, 'memory_usage', memory_usage)

    def concat(self, tables, ignore_index=False, sort=False, **k):
        cx = self.cx
        if k:
            cx.cannot('concat options')
        if not len(tables):
            raise ValueError('No objects to concatenate')
        atoms = []
        for t in tables:
            if cx.is_segment(t):
                atoms.append(t.seq.elem(self.cx_index()).atoms[0].all())
            elif isinstance(t, Rows):
                atoms.extend(t.atoms)
            else:
                atoms.append(t)
        return Rows(self, atoms)

    def cx_index(self):
        import z3
        return z3.IntVal(0)

    def contribution(self, name):
        cx = self.cx
        n = cx.int('n_' + name, 0, conc=(0, 9))
        pixel = cx.array('pixel_' + name, (n,), 'i8', 0, None if cx.symbolic else 2)
        true = cx.array('true_' + name, (n,), 'f8', gen=lambda r, s: r.choice([0, 0.5, 1, 4], size=s))
        value = cx.array('value_' + name, (n,), 'f8', gen=lambda r, s: r.choice([0, -1, 1, 1.25, 3, 7], size=s))
        if not cx.symbolic and n and cx.choice('many_' + name, [False] * 39 + [True]):
            # more rows of a key than 16 bits count
            reps = 70000 // n + 1
            n, pixel, true, value = n * reps, cx.np.tile(pixel, reps), cx.np.tile(true, reps), cx.np.tile(value, reps)
        self.added.append((n, pixel, true, value))
        return pixel, true, value


class Pending(Atom):
    """Any number of tables, each of any rows."""

    def all(self):
        return self


def check_resolution(cx, w, mc, df, by, total):
    """df has the resolution of every group."""
    names = by + ['sum', 'n', 'charge_resolution', 'charge_resolution_abs']
    cx.keys('columns', list(df.columns), names)

    def row(true, s, n, get):
        a = cx.sqrt(s / n + true) if mc else cx.sqrt(s / n)
        cx.eq('sum of squared deviations', get('sum'), s)
        cx.eq('number of values', get('n'), n)
        cx.eq('absolute resolution', get('charge_resolution_abs'), a)
        cx.eq('relative resolution', get('charge_resolution'), a / abs(true))
    if cx.symbolic:
        keys = any_row(cx, df, by)
        r = keys.pop('row')
        cx.assume(keys['true'] >= 0)
        cx.ensure('no zero true charge', keys['true'] != 0)
        row(keys['true'], total('sum', keys, lambda t, v: (v - t) ** 2), total('n', keys, lambda t, v: 1), lambda c: df[c].values[r])
        k = any_key(cx, by)
        cx.ensure('every key has a row', cx.or_(k['true'] == 0, cx.not_(total('n', k, lambda t, v: 1) > 0), df.occurs(k)))
    else:
        got, exp = concrete_rows(cx, w, df, by, lambda t: t != 0)
        for k, v in exp.items():
            row(k[-1], sum((b - a) ** 2 for a, b in v), len(v), lambda c: df[c].iloc[got[k]])


def check_statistics(cx, w, df, by, total):
    cx.keys('columns', list(df.columns), by + ['sum', 'sum2', 'n', 'mean', 'std'])
    if cx.symbolic:
        keys = any_row(cx, df, by)
        r = keys.pop('row')
        s1, s2, n = total('sum', keys, lambda t, v: v), total('sum2', keys, lambda t, v: v * v), total('n', keys, lambda t, v: 1)
        cx.eq('sum', df['sum'].values[r], s1)
        cx.eq('sum of squares', df['sum2'].values[r], s2)
        cx.eq('number of values', df['n'].values[r], n)
        cx.eq('mean', df['mean'].values[r], s1 / n)
        # population standard deviation: mean of the squares less the square of the mean
        cx.eq('standard deviation', df['std'].values[r], cx.np.sqrt(s2 / n - (s1 / n) * (s1 / n)))
        k = any_key(cx, by)
        cx.ensure('every key has a row', cx.or_(cx.not_(total('n', k, lambda t, v: 1) > 0), df.occurs(k)))
    else:
        got, exp = concrete_rows(cx, w, df, by, lambda t: True)
        for k, v in exp.items():
            q = cx.np.array([b for _, b in v])
            cx.eq('number of values', df['n'].iloc[got[k]], len(q))
            cx.eq('mean', df['mean'].iloc[got[k]], q.mean())
            cx.eq('variance', df['std'].fillna(0).iloc[got[k]] ** 2, q.var())


def any_row(cx, df, by):
    """A row of the result, with what is known of it."""
    r = cx.int('row_' + '_'.join(by), 0)
    cx.assume(r < df.G)
    cx.assume(df.occurs(df.at(r)))
    return dict(df.at(r), row=r)


def any_key(cx, by):
    return {k: cx.real('any_%s_%d' % (k, len(by))) for k in by}


def concrete_rows(cx, w, df, by, wanted):
    """Row number and contributed values of every key."""
    exp, got = {}, {}
    for n, p, t, v in w.added:
        for i in range(n):
            if wanted(t[i]):
                k = (float(p[i]), float(t[i])) if 'pixel' in by else (float(t[i]),)
                exp.setdefault(k, []).append((float(t[i]), float(v[i])))
    for i in range(len(df)):
        k = tuple(float(df[c].iloc[i]) for c in by)
        cx.ensure('one row for every key', k not in got and k in exp)
        got[k] = i
    cx.ensure('every key has a row', sorted(got) == sorted(exp))
    return got, {k: v for k, v in exp.items() if k in got}


def feed(cx, w, o, names, columns):
    """An object with any history: any rows condensed, any number of tables
    pending, any size in memory -- and one more contribution."""
    atoms = []
    if cx.symbolic:
        cx.representation(o, '_df', '_df_list', '_n_bytes', '_max_bytes')
        if cx.choice('condensed', [True, False]):
            atoms.append(Atom(w, 'condensed', columns))
            o._df = Rows(w, atoms[:1])
        n = cx.int('pending', 0)
        if cx.decide(n > 0):
            atoms.append(Pending(w, 'pending', columns))
            o._df_list = cx.segment(n, lambda i: Rows(w, atoms[-1:]))
        else:
            o._df_list = []
        o._n_bytes = cx.int('bytes', 0)
        o._max_bytes = cx.int('limit', 0)
        if atoms and cx.choice('finished before', [False, True]):
            o.finish()
    else:
        for i in range(cx.int('adds', 0, 5)):
            o.add(*w.contribution('before%d' % i))
            if cx.choice('finished%d' % i, [False, False, False, True]):
                o.finish()
    o.add(*w.contribution('last'))

    def total(col, keys, f):
        np = cx.np
        s = 0
        for a in atoms:
            s = s + a.total(col, keys)
        keys = dict(keys)
        if 'amplitude' in keys:
            keys['true'] = keys.pop('amplitude')
        for n, p, t, v in w.added:
            mask = t == keys['true']
            if 'pixel' in keys:
                mask = mask & (p == keys['pixel'])
            s = s + np.where(mask, f(t, v), 0).sum()
        return s
    return total


@unit('C17')
def resolution(cx):
    """One more contribution to an object with any history, then finish."""
    w = World(cx, True)
    mc = cx.choice('mc', [True, False])
    o = w.m.ChargeResolution(mc)
    total = feed(cx, w, o, ['pixel', 'true', 'measured'], ['pixel', 'true', 'sum', 'n'])
    p, c = o.finish()
    check_resolution(cx, w, mc, p, ['pixel', 'true'], total)
    check_resolution(cx, w, mc, c, ['true'], total)


@unit('C17')
def statistics(cx):
    w = World(cx, False)
    o = w.m.ChargeStatistics()
    total = feed(cx, w, o, ['pixel', 'amplitude', 'charge'], ['pixel', 'amplitude', 'sum', 'sum2', 'n'])
    p, c = o.finish()
    check_statistics(cx, w, p, ['pixel', 'amplitude'], total)
    check_statistics(cx, w, c, ['amplitude'], total)
