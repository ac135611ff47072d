"""Contracts of the superpixel and module maps (C27)."""
from pydv.registry import unit

MAP = 'CHECLabPy.utils.mapping'


def pixel_map(cx):
    """A pixel map.  Concretely: modules of 8x8 pixels on a grid, superpixels
    of 2x2 pixels, any pixel order; symbolically: any columns at all."""
    if cx.symbolic:
        n = cx.int('n', 1)
        cols = {c: cx.array(c, (n,), 'i8', 0) for c in ('pixel', 'slot', 'asic', 'superpixel', 'row', 'col')}
        cols.update({c: cx.array(c, (n,), 'f8') for c in ('xpix', 'ypix')})
    else:
        np = cx.np
        R, C = cx.int('R', 1, conc=(1, 3)), cx.int('C', 1, conc=(1, 3))
        row, col = [a.ravel() for a in np.mgrid[:8 * R, :8 * C]]
        order = np.argsort(cx.array('order', (row.size,), 'f8', gen=lambda r, s: r.rand(*s)), kind='stable')
        row, col = row[order], col[order]
        keep = cx.array('keep', (R * C,), 'bool')
        labels = np.argsort(cx.array('labels', (R * C,), 'f8', gen=lambda r, s: r.rand(*s))) + cx.choice('from', [0, 1, 5])
        mod = row // 8 * C + col // 8
        m = keep[mod] if keep.any() else mod >= 0
        row, col, mod = row[m], col[m], mod[m]
        n = row.size
        local = row % 8 // 2 * 4 + col % 8 // 2
        slot = labels[mod]
        cols = dict(pixel=np.arange(n), slot=slot, asic=local // 4, superpixel=slot * 16 + local, row=row, col=col,
                    xpix=col * 0.5 + cx.array('dx', (n,), 'f8', -.1, .1), ypix=row * 0.25 + cx.array('dy', (n,), 'f8', -.1, .1))
    meta = dict(cfgfile='cfg', is_single_module=False, n_pixels=n, n_modules=cx.int('n_modules', 1, conc=(1, 9)),
                n_rows=cx.int('n_rows', 1, conc=(1, 50)), n_columns=cx.int('n_columns', 1, conc=(1, 50)),
                size=cx.real('size', gt=0, conc=(0.1, 2)), fOTUpX_l=cx.real('otx', conc=(-5, 5)))
    return cx.frame(cols, dict(meta)), n, {c: cx.snapshot(v) for c, v in cols.items()}, meta


def derived(cx, f, key, k, extra):
    mapping, n, cols, meta = pixel_map(cx)
    out = getattr(cx.load(MAP), f)(mapping)
    G, u, w = cx.distinct(cols[key])    # distinct numbers, increasing, and the first pixel of each
    cx.eq('rows', cx.len(out), G)
    cx.keys('columns', list(out.columns), [key, 'row', 'col', 'xpix', 'ypix'] + extra)
    mine = lambda g: (lambda i: cols[key][i] == u(g))
    first = lambda c, g: cx.el(cols[c], w(g))
    num = lambda g: cx.sum(n, lambda i: cx.ite(mine(g)(i), lambda: 1, lambda: 0))
    av = lambda c, g: cx.div(cx.sum(n, lambda i: cx.ite(mine(g)(i), lambda: cols[c][i], lambda: 0)), num(g))
    o = {c: out[c].values for c in [key, 'row', 'col', 'xpix', 'ypix'] + extra}
    cx.all('row', (G,), lambda g: dict(
        number=(o[key][g], u(g)),
        row=(o['row'][g], cx.fdiv(first('row', g), k)), col=(o['col'][g], cx.fdiv(first('col', g), k)),
        x=(o['xpix'][g], av('xpix', g)), y=(o['ypix'][g], av('ypix', g)),
        **{c: (o[c][g], first(c, g)) for c in extra}))
    md = out.metadata
    cx.keys('metadata', md, list(meta))
    cx.eq('number of rows', md['n_rows'], cx.max(G, lambda g: cx.fdiv(first('row', g), k)) + 1)
    cx.eq('number of columns', md['n_columns'], cx.max(G, lambda g: cx.fdiv(first('col', g), k)) + 1)
    cx.eq('size', md['size'], meta['size'] * k)
    for c in meta:
        if c not in ('n_rows', 'n_columns', 'size'):
            cx.eq('metadata ' + c, md[c], meta[c])
    cx.keys('pixel map columns', list(mapping.columns), list(cols))
    for c in cols:
        cx.same('pixel map ' + c, mapping[c].values, cols[c])
    cx.keys('pixel map metadata', mapping.metadata, list(meta))
    for c in meta:
        cx.eq('pixel map metadata ' + c, mapping.metadata[c], meta[c])


@unit('C27')
def superpixel_map(cx):
    derived(cx, 'get_superpixel_mapping', 'superpixel', 2, ['slot', 'asic'])


@unit('C27')
def module_map(cx):
    derived(cx, 'get_tm_mapping', 'slot', 8, [])
