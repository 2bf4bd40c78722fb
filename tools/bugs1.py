GRID = '''
from bathygrid.convenience import create_grid, load_grid
import bathygrid.bgrid as bg
from bathygrid.tile import SRTile
def eq(a, b): 
    assert np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True), (a, b)
'''
FAKE = '''
import pickle
class Fake:
    def ncores(self): return {'a': 1, 'b': 1, 'c': 1}
    def scatter(self, d): return [pickle.loads(pickle.dumps(q)) for q in d]
    def map(self, f, d): return [f(q) for q in d]
    def gather(self, f): return f
bg.wait = lambda f: None
bg.progress = lambda *a, **k: None
'''
BUGS = {
'b01_strip': dict(property='C01', needs='a grid of one column (or one row) of several bins', breaks='points of a 1 x n lattice are all put in bin 0',
 edits=[('utilities.py', 'if x_edges.size == 2 and y_edges.size == 2:', 'if x_edges.size == 2 or y_edges.size == 2:')],
 demo=GRID + '''
from bathygrid.utilities import bin2d_with_indices
eq(bin2d_with_indices(np.array([1., 2., 3.]), np.array([1., 11., 25.]), np.array([0., 10.]), np.array([0., 10., 20., 30.])), [0, 1, 2])
'''),
'b01_dask': dict(property='C01', needs='dask input with more than one chunk whose second chunk is not the last', breaks='the chunks of a dask array are read in an order that depends on the y array only',
 edits=[('utilities.py', 'ydata = [y.partitions[i] for i in range(y.npartitions)]', 'ydata = [y.partitions[i] for i in sorted(range(y.npartitions), key=str)]')],
 demo=GRID + '''
import dask.array as da
from bathygrid.utilities import bin2d_with_indices
x = np.arange(22.) % 4; y = np.arange(22.) % 7
e = np.array([0., 2., 4.]); f = np.array([0., 2., 4., 8.])
eq(bin2d_with_indices(da.from_array(x, chunks=2), da.from_array(y, chunks=2), e, f), bin2d_with_indices(x, y, e, f))
'''),
'b02_float32': dict(property='C02', needs='many deep points in one cell, so that the single precision sum is off by more than half a millimetre', breaks='the mean depth is accumulated in single precision',
 edits=[('algorithms.py', 'depth_sum = np.add.reduceat(depth[cell_sort], uidx, axis=0)', 'depth_sum = np.add.reduceat(depth[cell_sort].astype(grid.dtype), uidx, axis=0)')],
 demo=GRID + '''
from bathygrid.algorithms import np_grid_mean
d = np.full(30001, 6543.217); g = np.full((1, 1), np.nan, dtype=np.float32); n = np.zeros((1, 1), dtype=int)
np_grid_mean(d, np.zeros(30001, dtype=int), g, n)
assert abs(float(g[0, 0]) - 6543.217) < 0.001, g
'''),
'b03_negative': dict(property='C03', needs='points above the datum (negative depth)', breaks='the shoalest depth of a cell with points above the datum is clipped to zero',
 edits=[('algorithms.py', 'depth_min = np.minimum.reduceat(depth[cell_sort], uidx, axis=0)', 'depth_min = np.minimum.reduceat(depth[cell_sort], uidx, axis=0, initial=0.0)' if 0 else 'depth_min = np.minimum.reduceat(np.maximum(depth[cell_sort], 0.0), uidx, axis=0)')],
 demo=GRID + '''
t = SRTile(0., 0., 16.)
t.add_points(pts((1., 1., -2., .1, .2), (9., 1., 5., .3, .4), (2., 2., 10., .5, .6)), 'a')
t.grid('shoalest', 8.)
eq(t.cells[8.]['depth'], np.array([[-2., 5.], [np.nan, np.nan]], dtype=np.float32))
'''),
'b04_edge': dict(property='C04', needs='the northernmost point exactly on a tile edge', breaks='a point on the upper y edge is not covered by the extents',
 edits=[('grids.py', 'if nearest_higher_y == self.max_y:', 'if nearest_higher_y == self.max_x:')],
 demo=GRID + '''
g = create_grid(grid_backend='numpy', tile_size=16.)
g.add_points(pts((3., 1., 5.), (5., 32., 6.)), 'a', progress_bar=False)
assert g.max_y > 32. and g.points_count == 2 and g.tile_y_origin.shape[0] * 16. == g.max_y - g.min_y
for t in g.tiles.flat:
    if t: assert (t.data['y'] < t.max_y).all()
'''),
'b05_count': dict(property='C05', needs='removing the last source of a tile before the grid ever grew', breaks='the number of tiles is not reduced when a tile is removed',
 edits=[('bgrid.py', '                self.existing_tile_mask.flat[flat_index] = False\n            self.number_of_tiles -= 1', '                self.existing_tile_mask.flat[flat_index] = False\n                self.number_of_tiles -= 1')],
 demo=GRID + '''
g = create_grid(grid_backend='numpy', tile_size=16.)
g.add_points(pts((1., 1., 5.), (60., 40., 6.)), 'a', progress_bar=False)
g.tiles.flat[0].remove_points('a'); g._remove_tile(0)
assert g.number_of_tiles == 1, g.number_of_tiles
'''),
'b06_readd': dict(property='C06', needs='adding a source to a tile that already has points of that source and of others', breaks='the index range of a replaced source points past its points',
 edits=[('tile.py', '''            if container in self.container:
                self.remove_points(container)
            self.container[container] = [self.data.size, self.data.size + data.size]''', '''            start = self.data.size
            if container in self.container:
                self.remove_points(container)
            self.container[container] = [start, start + data.size]''')],
 demo=GRID + '''
t = SRTile(0., 0., 16.)
t.add_points(pts((1., 1., 12.), (2., 2., 13.)), 'a'); t.add_points(pts((9., 1., 5.)), 'b'); t.add_points(pts((3., 3., 1.)), 'a')
s, e = t.container['a']
assert t.data['z'][s:e].tolist() == [1.], (s, e)
'''),
'b06_shift': dict(property='C06', needs='removing a source followed by a source whose range starts exactly where it ended', breaks='the source directly after a removed one keeps its old range',
 edits=[('tile.py', 'if self.container[cont][0] >= remove_end:', 'if self.container[cont][0] > remove_end:')],
 demo=GRID + '''
t = SRTile(0., 0., 16.)
for n, z in (('a', 1.), ('b', 2.), ('c', 3.)): t.add_points(pts((1., 1., z), (2., 2., z)), n)
t.remove_points('a')
for n, z in (('b', 2.), ('c', 3.)):
    s, e = t.container[n]; assert t.data['z'][s:e].tolist() == [z, z], (n, t.container)
'''),
'b07_density': dict(property='C07', needs='a cell that loses all its points, regridded without clearing', breaks='the density of a cell whose points were removed keeps the old count',
 edits=[('tile.py', "            self.cells[resolution]['density'] = np.full(self.cells[resolution]['density'].shape, 0, dtype=int)\n            for lyr", "            for lyr")],
 demo=GRID + '''
t = SRTile(0., 0., 16.)
t.add_points(pts((1., 1., 12.)), 'a'); t.add_points(pts((9., 9., 3.)), 'b'); t.grid('mean', 8.)
t.remove_points('a'); t.grid('mean', 8.)
eq(t.cells[8.]['density'], [[0, 0], [0, 1]])
'''),
'b07_index': dict(property='C07', needs='points added after gridding at two resolutions, then gridding both again', breaks='only the first resolution keeps its cell indices aligned with the points',
 edits=[('tile.py', "                self.cell_indices[resolution] = np.append(self.cell_indices[resolution], np.full(data.shape, -1))\n", "                self.cell_indices[resolution] = np.append(self.cell_indices[resolution], np.full(data.shape, -1 if resolution == min(self.cell_indices) else 0))\n")],
 demo=GRID + '''
t = SRTile(0., 0., 16.)
t.add_points(pts((1., 1., 12.)), 'a'); t.grid('mean', 8.); t.grid('mean', 4.)
t.add_points(pts((9., 9., 3.)), 'b'); t.grid('mean', 4.); t.grid('mean', 8.)
eq(t.cells[8.]['density'], [[1, 0], [0, 1]])
'''),
'b08_one': dict(property='C08', needs='removing a source with one point in a tile, then gridding with the update option', breaks='a tile that lost one point is not regridded by update gridding',
 edits=[('tile.py', '            self.container.pop(container)\n            self.point_count_changed = True', '            self.container.pop(container)\n            self.point_count_changed = chunk_size > 1')],
 demo=GRID + '''
g = create_grid(grid_backend='numpy', tile_size=64.)
g.add_points(pts((1., 1., 12.)), 'a', progress_bar=False); g.add_points(pts((41., 41., 23.)), 'b', progress_bar=False); g.grid('mean', 8., progress_bar=False)
g.remove_points('b', progress_bar=False); g.grid('mean', 8., regrid_option='update', progress_bar=False)
assert g.return_layer_values('depth').tolist() == [12.]
'''),
'b10_rmax': dict(property='C10', needs='data in the last row of the full layer', breaks='the last row of the mosaic is cut from the trimmed layer',
 edits=[('bgrid.py', '        rmax += 1\n', '        rmax = min(rmax + 1, dat.shape[0] - 1)\n')],
 demo=GRID + '''
g = create_grid(grid_backend='numpy', tile_size=16.)
g.add_points(pts((1., 1., 12.), (15., 15., 13.)), 'a', progress_bar=False); g.grid('mean', 8., progress_bar=False)
d, mn, mx = g.get_layers_trimmed('depth')
eq(d[0], np.array([[12., np.nan], [np.nan, 13.]]))
'''),
'b11_edge': dict(property='C11', needs='a location exactly on the boundary between two cells', breaks='a location on a cell boundary is answered with the value of the cell to the left',
 edits=[('bgrid.py', 'digitized_x = np.digitize(query_x_loc, surf_x)', 'digitized_x = np.digitize(query_x_loc, surf_x, right=True)')],
 demo=GRID + '''
g = create_grid(grid_backend='numpy', tile_size=16.)
g.add_points(pts((1., 1., 12.), (9., 1., 70.)), 'a', progress_bar=False); g.grid('mean', 8., progress_bar=False)
eq(g.layer_values_at_xy(np.array([1., 8.]), np.array([1., 1.])), np.array([12., 70.], dtype=np.float32))
'''),
'b11_index': dict(property='C11', needs='several resolutions, the finest one answers an earlier location only', breaks='the answer of a coarser resolution is written at the wrong place of the output',
 edits=[('bgrid.py', 'valid_index = np.arange(layer_values.size)[no_values_yet][in_bounds_idx]', 'valid_index = np.arange(layer_values.size)[in_bounds_idx]')],
 demo=GRID + '''
g = create_grid(grid_type='variable_resolution_tile', grid_backend='numpy', tile_size=64., subtile_size=16.)
g.add_points(pts((1., 1., 12.), (33., 33., 70.)), 'a', progress_bar=False); g.grid('mean', auto_resolution_mode='depth', progress_bar=False)
assert len(g.resolutions) == 2
eq(g.layer_values_at_xy(np.array([1., 33.]), np.array([1., 33.])), np.array([12., 70.], dtype=np.float32))
'''),
'b12_stairs': dict(property='C12', needs='tiles whose first one in row order is not the leftmost of the chunk', breaks='tiles left of the first tile of the chunk wrap to the wrong place or get lost',
 edits=[('bgrid.py', '        minrow = min(row_indices)\n', '        minrow = row_indices[0]\n')],
 demo=GRID + '''
g = create_grid(grid_backend='numpy', tile_size=16.)
g.add_points(pts((17., 1., 12.), (1., 17., 13.)), 'a', progress_bar=False); g.grid('mean', 16., progress_bar=False)
(geo, dim, data), = list(g.get_chunks_of_tiles(16., 'depth', for_gdal=False))
eq(data['depth'], np.array([[np.nan, 12.], [13., np.nan]]))
'''),
'b13_edges': dict(property='C13', needs='a disk grid gridded, changed and gridded again after a reload', breaks='reloading turns the changed flag of the tiles off, so that an update gridding after a reload skips them',
 edits=[('grid_variables.py', "'grid_parameters', 'point_count_changed', 'is_backscatter']", "'grid_parameters', 'is_backscatter']")],
 demo=GRID + '''
p = os.path.join(tmp, 'g')
g = create_grid(p, grid_backend='numpy', tile_size=16.)
g.add_points(pts((1., 1., 12.)), 'a', progress_bar=False); g.grid('mean', 8., progress_bar=False)
g.add_points(pts((2., 2., 14.)), 'b', progress_bar=False)
h = load_grid(p)
assert h.tiles[0, 0].point_count_changed
'''),
'b13_indices': dict(property='C13', needs='points added to a disk grid that was gridded before, then a reload', breaks='the cell indices of a tile are saved only together with a gridding, so a reload after an add sees stale ones',
 edits=[('backends.py', '''        # always save indices, as they change with the point changes and the gridding changes
''', '''        if only_points:
            return
''')] , demo=''),
'b14_groups': dict(property='C14', needs='more tiles than workers', breaks='the tiles of the second group are stored at the positions of the first group',
 edits=[('bgrid.py', '                    tile_indices = []\n                    data_for_workers = []', '                    data_for_workers = []')],
 demo=GRID + FAKE + '''
g = create_grid(grid_backend='numpy', tile_size=16.)
g.add_points(pts(*[(16. * i + 1, 1., 10. + i) for i in range(7)]), 'a', progress_bar=False)
g.client = Fake(); g.grid('mean', 16., use_dask=True, progress_bar=False)
eq(g.get_layers_by_name('depth')[0], np.array([[10., 11, 12, 13, 14, 15, 16]]))
'''),
'b15_weight': dict(property='C15', needs='cells with very different counts', breaks='the density estimate is no longer weighted with the counts',
 edits=[('tile.py', 'max_resolution = np.sum(resolution_estimate * counts) / np.sum(counts)', 'max_resolution = np.mean(resolution_estimate)')],
 demo=GRID + '''
t = SRTile(0., 0., 32.)
r = np.random.RandomState(0)
p = [(16 * (i % 2) + 1. + 14 * r.rand(), 16 * (i // 2) + 1. + 14 * r.rand(), 5.) for i, n in enumerate((4000, 2, 2, 2)) for k in range(n)]
t.add_points(pts(*p), 'a')
d = np.array([4000, 2, 2, 2]); e = np.sqrt(2 * 5 * 1.75 / (d / 256.)); m = (e * d).sum() / d.sum()
want = min(q for q in (0.25, .5, 1., 2., 4., 8., 16., 32.) if q >= m)
assert t.resolution_by_density() == want, (t.resolution_by_density(), want)
'''),
'b16_utc': dict(property='C16', needs='a machine whose time zone is not UTC and a second source', breaks='the time span of the grid is shifted by the local time zone',
 edits=[('utilities.py', ".replace(tzinfo=timezone.utc).timestamp())", ".timestamp())")], env='TZ=America/New_York',
 demo=GRID + '''
g = create_grid(grid_backend='numpy', tile_size=16.)
g.add_points(pts((1., 1., 12.)), 'a', min_time=1600000000, max_time=1600000100, progress_bar=False)
g.add_points(pts((1., 1., 12.)), 'b', min_time=1600000050, max_time=1600000060, progress_bar=False)
assert (g.min_time, g.max_time) == ('2020-09-13T12:26:40', '2020-09-13T12:28:20'), (g.min_time, g.max_time)
'''),
'b17_area': dict(property='C17', needs='a resolution of a quarter metre and an odd number of cells', breaks='the coverage area is rounded to the decimetre',
 edits=[('tile.py', 'area += round(density[density > 0].size * (rez ** 2), 3)', 'area += round(density[density > 0].size * (rez ** 2), 1)')],
 demo=GRID + '''
t = SRTile(0., 0., 16.)
t.add_points(pts((1., 1., 12.)), 'a'); t.grid('mean', 0.5)
assert t.coverage_area_square_meters == 0.25
'''),
'b18_intensity': dict(property='C18', needs='a backscatter grid read positive up (or built positive up)', breaks='intensity is negated with the depth',
 edits=[('tile.py', "if layer.lower() == 'depth' and z_positive_up:", "if layer.lower() == self.depth_key and z_positive_up:")],
 demo=GRID + '''
g = create_grid(grid_backend='numpy', tile_size=16., is_backscatter=True)
g.add_points(pts((1., 1., -22.)), 'a', progress_bar=False); g.grid('mean', 16., progress_bar=False)
eq(g.get_layers_by_name('intensity', z_positive_up=True)[0], [[-22.]])
'''),
'b19_digits': dict(property='C19', needs='a resolution of a quarter metre', breaks='the node coordinates of a csv export are rounded to the centimetre',
 edits=[('bgrid.py', "            dfmt = ['%.3f', '%.3f']", "            dfmt = ['%.2f', '%.2f']")],
 demo=GRID + '''
import glob
g = create_grid(grid_backend='numpy', tile_size=1.)
g.add_points(pts((0.1, 0.1, 12.), (0.9, 0.9, 12.)), 'a', crs=26917, progress_bar=False); g.grid('mean', 0.25, progress_bar=False)
g.export(os.path.join(tmp, 'o.csv'))
f, = glob.glob(os.path.join(tmp, '*.csv'))
a = np.genfromtxt(f, names=True)
assert sorted(set(a['x'].tolist())) == [.125, .375, .625, .875], a['x']
'''),
'b20_power': dict(property='C20', needs='a fraction close to, but not, a power of two', breaks='fractions that are not a power of two are accepted as tile size or resolution',
 edits=[('utilities.py', 'if abs(round(invnum) - invnum) < 0.0000000001:', 'if abs(round(invnum) - invnum) < 0.1:')] , demo='''
from bathygrid.utilities import is_power_of_two
assert is_power_of_two(0.5) and not is_power_of_two(0.49)
'''),
'b21_left': dict(property='C21', needs='a tile in the first column of a grid whose last column has a tile in the same row', breaks='the left neighbor of a tile on the border wraps around the grid',
 edits=[('bgrid.py', '            if til_column - 1 < 0:  # using -1', '            if til_column < 0:  # using -1')],
 demo=GRID + '''
g = create_grid(grid_backend='numpy', tile_size=16.)
g.add_points(pts((1., 1., 12.), (17., 1., 12.), (47.5, 1., 13.)), 'a', progress_bar=False)
assert g.get_tile_neighbors(g.tiles[0, 0])[3] is None
assert g.get_tile_neighbor_points(g.tiles[0, 0], 20.).size == 1
'''),
'b22_rcond': dict(property='C22', needs='projected coordinates of realistic size (far from the origin)', breaks='small singular values are cut, so the slope far from the origin is wrong',
 edits=[('algorithms.py', 'np.linalg.lstsq(a_data, b_data, rcond=None)', 'np.linalg.lstsq(a_data, b_data, rcond=1e-10)')],
 demo=GRID + '''
x0, y0 = 409600., 4608000.
t = SRTile(x0, y0, 16.)
xy = [(x0 + 1, y0 + 1), (x0 + 6, y0 + 2), (x0 + 3, y0 + 7), (x0 + 7, y0 + 6)]
t.add_points(pts(*[(x, y, 10 + .5 * (x - x0) - .25 * (y - y0)) for x, y in xy]), 'a'); t.grid('mean', 8.)
v = t.get_layers_by_name('x_slope', 8.)[0, 0], t.get_layers_by_name('y_slope', 8.)[0, 0]
assert abs(v[0] - .5) < 1e-3 and abs(v[1] + .25) < 1e-3, v
'''),
'b09_shape': dict(property='C09', needs='a grid that is not square', breaks='the mosaic of a grid that is not square has its dimensions swapped',
 edits=[('bgrid.py', 'return np.full((int(y_size), int(x_size)), nodatavalue)', 'return np.full((int(x_size), int(y_size)), nodatavalue)')],
 demo=GRID + '''
g = create_grid(grid_backend='numpy', tile_size=16.)
g.add_points(pts((1., 1., 12.), (17., 49., 13.)), 'a', progress_bar=False); g.grid('mean', 16., progress_bar=False)
eq(g.get_layers_by_name('depth')[0], np.array([[12., np.nan], [np.nan] * 2, [np.nan] * 2, [np.nan, 13.]]))
'''),
}
del BUGS['b13_indices']
