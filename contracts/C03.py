from contract import *
import specs, C02
from C02 import setup, AL
CONTRACTS.clear()
def shoalest_contract(tvu, thu):
    n, R, K, z, ci, r, c, g, d = setup()
    g0, d0 = g.get(r.e, c.e), d.get(r.e, c.e)
    v, h = (array('tvu', n) if tvu else np.array([])), (array('thu', n) if thu else np.array([]))
    vg, hg = (array('vg', (R, K), nan=True) if tvu else np.array([])), (array('hg', (R, K), nan=True) if thu else np.array([]))
    v0, h0 = (vg.get(r.e, c.e) if tvu else None), (hg.get(r.e, c.e) if thu else None)
    reachable()
    mod('algorithms').np_grid_shoalest(z, ci, g, d, v, h, vg, hg)
    # the postcondition is the text of specs.grid_shoalest, which callers assume
    ix = ci.snap(); was = lambda x0: (lambda i, j: x0); here = specs.cell_of(ix, K)(r, c); cnt = lambda: count(n, here)
    reachable('after')
    ensure('a cell holds the smallest depth of exactly its points, other cells are left alone', lambda: same(g[r, c], specs.min_cell(n, ix, K, z.snap(), was(g0))(r, c)))
    ensure('the density of a cell is the number of its points', lambda: d[r, c] == specs.count_cell(n, ix, K, was(d0))(r, c))
    # the uncertainties are those of one point of the cell with the smallest depth
    def from_point(*pairs):
        def goal():
            now = [x[r, c] for x, _, _ in pairs]; low = least(n, here, lambda q: z[q])
            p = Exists(n, lambda p: And(here(p), *[v == a[p] for v, (x, a, _) in zip(now, pairs)], z[p] == low))
            return If(cnt() > 0, p, And(*[same(v, x0) for v, (x, _, x0) in zip(now, pairs)]))
        return goal
    if tvu: ensure('the vertical uncertainty is that of a shoalest point of the cell', from_point((vg, v, v0)))
    if thu: ensure('the horizontal uncertainty is that of a shoalest point of the cell', from_point((hg, h, h0)))
    if tvu and thu: ensure('both uncertainties come from one shoalest point of the cell', from_point((vg, v, v0), (hg, h, h0)))
@contract(AL + 'np_grid_shoalest', 'shoalest of every cell, with uncertainties')
def m1(): shoalest_contract(True, True)
@contract(AL + 'np_grid_shoalest', 'shoalest of every cell, without uncertainties')
def m2(): shoalest_contract(False, False)
@contract(AL + 'np_grid_shoalest', 'shoalest of every cell, horizontal uncertainty only')
def m3(): shoalest_contract(False, True)
C02.KERNEL['shoalest'] = list(CONTRACTS)
C02.tiles('shoalest')
