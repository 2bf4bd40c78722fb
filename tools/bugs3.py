import os, runpy
H = os.path.dirname(os.path.abspath(__file__))
_ = runpy.run_path(H + '/bugs1.py'); GRID, FAKE = _['GRID'], _['FAKE']
SR = "g = create_grid(grid_backend='numpy', tile_size=16.)\n"
BUGS = {
'c22_drop': dict(property='C22', needs='a cell whose points lie on one line in the y direction', breaks='the slope of such cells is computed as if the points had been seen from a single place',
 edits=[('algorithms.py', 'fit, residual, rnk, s = np.linalg.lstsq(a_data, b_data, rcond=None)', 'fit, residual, rnk, s = np.linalg.lstsq(a_data, b_data, rcond=1e-2)')],
 demo=GRID + '''
from bathygrid.algorithms import calculate_slopes
x = np.array([0.25, 7.5, 0.5, 7.75, 4.]); y = np.array([3.999, 4.001, 4.0005, 3.9995, 4.]); z = 10 + 2 * x + 3 * y
e = np.array([0., 8.])
a, b = calculate_slopes(x, y, z, np.zeros(5, dtype=int), e, e)
assert abs(a[0, 0] - 2) < 1e-3 and abs(b[0, 0] - 3) < 1e-3, (a, b)
'''),
'c22_stale': dict(property='C22', needs='slopes read, a source removed, slopes read again without gridding in between', breaks='the slopes still include the removed source',
 edits=[('tile.py', """                self.cell_indices[resolution] = self.cell_indices[resolution][msk]
                self._clear_temp_data(resolution)
""", """                self.cell_indices[resolution] = self.cell_indices[resolution][msk]
""")],
 demo=GRID + '''
t = SRTile(0., 0., 16.)
t.add_points(pts((1., 1., 5.), (6., 1., 5.), (1., 6., 5.)), 'a'); t.add_points(pts((7., 7., 50.)), 'b'); t.grid('mean', 16.)
t.get_layers_by_name('x_slope', 16.); t.remove_points('b')
assert abs(t.get_layers_by_name('x_slope', 16.)[0, 0]) < 1e-4
'''),
'c22_early': dict(property='C22', needs='a source added after the slopes were read, without gridding at that resolution in between', breaks='the slopes read after gridding again are those of the old points',
 edits=[('tile.py', """            if 'x_slope' in self.cells[resolution]:
                self.cells[resolution].pop('x_slope')
""", """            if 'x_slope' in self.cells[resolution] and not self.point_count_changed:
                self.cells[resolution].pop('x_slope')
""")],
 demo=GRID + '''
t = SRTile(0., 0., 16.)
t.add_points(pts((1., 1., 5.), (6., 1., 5.), (1., 6., 5.)), 'a'); t.grid('mean', 16.); t.get_layers_by_name('x_slope', 16.)
t.add_points(pts((15., 1., 50.)), 'b'); t.remove_points('a'); t.add_points(pts((1., 1., 5.), (6., 1., 10.), (1., 6., 5.)), 'a'); t.remove_points('b'); t.grid('mean', 16.)
a = t.get_layers_by_name('x_slope', 16.)
assert abs(a[0, 0] - 1) < 1e-4, a
'''),
'c03_thu': dict(property='C03', needs='points with a horizontal but without a vertical uncertainty', breaks='the horizontal uncertainty is the smallest of the cell, not that of the shoalest point',
 edits=[('algorithms.py', """        thu_shoalest = thu[depth_idx]""", """        thu_shoalest = thu[depth_idx] if tvu_enabled else np.minimum.reduceat(thu[cell_sort], uidx)""")],
 demo=GRID + '''
from numpy.lib.recfunctions import drop_fields
t = SRTile(0., 0., 16.)
t.add_points(drop_fields(pts((1., 1., 5., .1, .9), (2., 2., 6., .1, .3)), 'tvu'), 'a'); t.grid('shoalest', 16.)
assert abs(t.cells[16.]['horizontal_uncertainty'][0, 0] - .9) < 1e-6, t.cells[16.]
'''),
'c13_gone': dict(property='C13', needs='a grid on disk whose removed tile is written with only the points', breaks='the folder of a tile that is gone stays on disk',
 edits=[('backends.py', """            if tile is None:
                self._clear_tile(tile_folder)
            else:
                self._load_tile_data_to_memory(""", """            if tile is None:
                if not only_points:
                    self._clear_tile(tile_folder)
            else:
                self._load_tile_data_to_memory(""")],
 demo=GRID + '''
d = os.path.join(tmp, 'g')
g = create_grid(d, grid_backend='numpy', tile_size=16.)
g.add_points(pts((1., 1., 5.)), 'a', progress_bar=False); g.add_points(pts((17., 1., 9.)), 'b', progress_bar=False); g.remove_points('b', progress_bar=False)
l = load_grid(d)
n = sum(len(t.data) for t in l.tiles.flat if t is not None)
assert n == 1 and sum(t is not None for t in l.tiles.flat) == 1, (n, l.tiles)
'''),
'c11_third': dict(property='C11', needs='four resolutions in one grid', breaks='places that only the fourth resolution covers have no answer',
 edits=[('bgrid.py', """        for rez in query_resolution:
            if np.isnan(nodatavalue):""", """        for rez in query_resolution[:3]:
            if np.isnan(nodatavalue):""")],
 demo=GRID + SR + '''
g.add_points(pts((1., 1., 5.), (17., 1., 8.), (33., 1., 9.), (49., 1., 11.)), 'a', progress_bar=False); g.grid('mean', 16., progress_bar=False)
for i, r in enumerate((2., 4., 8., 16.)):
    t = g.tiles[0, i]; t.clear_grid() if hasattr(t, 'clear_grid') else None
    t.grid('mean', r, clear_existing=True)
g.resolutions = [2., 4., 8., 16.]
eq(g.layer_values_at_xy(np.array([1., 17., 33., 49.]), np.array([1., 1., 1., 1.])), np.array([5., 8., 9., 11.], dtype=np.float32))
'''),
'c16_none': dict(property='C16', needs='a source without a vertical reference added to a grid that has one', breaks='the source is accepted and the reference of the grid is lost',
 edits=[('bgrid.py', 'if self.vertical_reference and (self.vertical_reference != vertical_reference):', 'if self.vertical_reference and vertical_reference and (self.vertical_reference != vertical_reference):')],
 demo=GRID + SR + '''
g.add_points(pts((1., 1., 5.)), 'a', vertical_reference='ellipse', progress_bar=False)
try: g.add_points(pts((2., 1., 5.)), 'b', progress_bar=False); ok = True
except ValueError: ok = False
assert not ok and g.vertical_reference == 'ellipse'
'''),
'c04_up': dict(property='C04', needs='a grid that has grown before and a new point on its upper boundary', breaks='the grid does not grow upwards, the point is outside of every tile',
 edits=[('grids.py', """            if nearest_higher_y == self.max_y:
""", """            if nearest_higher_y == self.max_y and self.is_empty:
""")],
 demo=GRID + SR + '''
g.add_points(pts((1., 1., 5.)), 'a', progress_bar=False); g.add_points(pts((1., 16., 7.)), 'b', progress_bar=False)
t = [t for t in g.tiles.flat if t is not None and 'b' in t.container]
assert len(t) == 1 and t[0].min_y == 16., [(q.min_x, q.min_y) for q in t]
'''),
'c20_frac': dict(property='C20', needs='a size slightly off an inverse power of two', breaks='sizes such as 0.2495 are accepted as powers of two',
 edits=[('utilities.py', 'if abs(round(invnum) - invnum) < 0.0000000001:', 'if abs(round(invnum) - invnum) < 0.01:')],
 demo=GRID + '''
from bathygrid.utilities import is_power_of_two
assert is_power_of_two(0.25) and not is_power_of_two(0.2495)
'''),
'c20_hidden': dict(property='C20', needs='an existing folder that has only hidden files', breaks='the folder counts as empty and is used for the new grid',
 edits=[('utilities.py', 'if not os.listdir(os.path.join(output_directory, fldrname)):', "if not [f for f in os.listdir(os.path.join(output_directory, fldrname)) if not f.startswith('.')]:")],
 demo=GRID + '''
d = os.path.join(tmp, 'g'); os.makedirs(d); open(os.path.join(d, '.keep'), 'w').write('x')
g = create_grid(d, grid_backend='numpy', tile_size=16.)
assert os.path.realpath(g.output_folder) != os.path.realpath(d)
'''),
'c15_full': dict(property='C15', needs='a tile of which exactly three quarters of the coarse cells have points', breaks='the density decides although the tile is not full enough',
 edits=[('tile.py', 'if percent_full <= revert_to_lookup_threshold:', 'if percent_full < revert_to_lookup_threshold:')],
 demo=GRID + '''
t = SRTile(0., 0., 32.)
t.add_points(pts((1., 1., 5.), (17., 1., 5.), (1., 17., 5.)), 'a')
assert t.resolution_by_density() == .25, t.resolution_by_density()
'''),
'c12_one': dict(property='C12', needs='a resolution as large as the tiles', breaks='the blocks of tiles with a single cell are placed two columns apart',
 edits=[('bgrid.py', 'data_col, data_row = row_number * tile_cell_count, column_number * tile_cell_count', 'data_col, data_row = row_number * tile_cell_count, column_number * (tile_cell_count if tile_cell_count > 1 else 2)')],
 demo=GRID + SR + '''
g.add_points(pts(*[(16. * i + 1., 1., 5. + i) for i in range(3)]), 'a', progress_bar=False); g.grid('mean', 16., progress_bar=False)
got = [v for geo, dim, d in g.get_chunks_of_tiles(16., 'depth', for_gdal=False) for v in np.asarray(d['depth'], dtype=float).ravel() if v == v]
assert sorted(got) == [5., 6., 7.], got
'''),
'c18_slope': dict(property='C18', needs='slopes read with z positive up', breaks='the x slope changes its sign when it is read with z positive up',
 edits=[('tile.py', """        if layer.lower() == 'depth' and z_positive_up:
            data = data * -1
""", """        if layer.lower() in ('depth', 'x_slope') and z_positive_up:
            data = data * -1
""")],
 demo=GRID + '''
t = SRTile(0., 0., 16.)
t.add_points(pts((1., 1., 5.), (6., 1., 10.), (1., 6., 5.)), 'a'); t.grid('mean', 16.)
eq(t.get_layers_by_name('x_slope', 16., z_positive_up=True), t.get_layers_by_name('x_slope', 16.))
'''),
'c19_up': dict(property='C19', needs='csv export with z positive up of a grid that is positive up', breaks='the exported depths have the wrong sign',
 edits=[('bgrid.py', 'CSVPLACE', '')], demo=''),
}
BUGS.pop('c19_up')
