import os, runpy
H = os.path.dirname(os.path.abspath(__file__))
_ = runpy.run_path(H + '/bugs1.py'); GRID, FAKE = _['GRID'], _['FAKE']
SR = "g = create_grid(grid_backend='numpy', tile_size=16.)\n"
BUGS = {
'b07_horiz': dict(property='C07', needs='a cell that loses all its points, regridded without clearing, with horizontal uncertainty', breaks='the horizontal uncertainty of an emptied cell keeps the old value',
 edits=[('tile.py', '''.shape, 0, dtype=int)
            for lyr in ['vertical_uncertainty', 'horizontal_uncertainty', ''', '''.shape, 0, dtype=int)
            for lyr in ['vertical_uncertainty', ''')],
 demo=GRID + '''
t = SRTile(0., 0., 16.)
t.add_points(pts((1., 1., 12.)), 'a'); t.add_points(pts((9., 9., 3.)), 'b'); t.grid('mean', 8.)
t.remove_points('a'); t.grid('mean', 8.)
assert np.isnan(t.cells[8.]['horizontal_uncertainty'][0, 0])
'''),
'b09_fill': dict(property='C09', needs='a layer list that mixes float and integer layers', breaks='the empty cells of the density layer are NaN when it is asked for together with the depth',
 edits=[('bgrid.py', 'data = [self._build_layer_grid(resolution, layername=lyr, nodatavalue=nodatavalue) for lyr in layer]', 'data = [self._build_layer_grid(resolution, layername=layer[0], nodatavalue=nodatavalue) for lyr in layer]')],
 demo=GRID + SR + '''
g.add_points(pts((1., 1., 5.), (17., 17., 8.)), 'a', progress_bar=False); g.grid('mean', 16., progress_bar=False)
eq(g.get_layers_by_name(['depth', 'density'])[1], [[1, 0], [0, 1]])
'''),
'b09_pending': dict(property='C09', needs='a source added after gridding', breaks='tiles with points added since the last gridding are missing in the mosaic',
 edits=[('bgrid.py', '            if newdata is not None:\n', '            if newdata is not None and not tile.point_count_changed:\n')],
 demo=GRID + SR + '''
g.add_points(pts((1., 1., 5.), (17., 17., 8.)), 'a', progress_bar=False); g.grid('mean', 16., progress_bar=False)
g.add_points(pts((2., 1., 6.)), 'b', progress_bar=False)
eq(g.get_layers_by_name('depth')[0][:2, :2], [[5., np.nan], [np.nan, 8.]])
'''),
'b11_fine': dict(property='C11', needs='several resolutions in one place and a number as no data value', breaks='with a number as no data value a coarser resolution overrides the answer of the finer one',
 edits=[('bgrid.py', 'no_values_yet = layer_values == nodatavalue', 'no_values_yet = layer_values <= nodatavalue')],
 demo=GRID + SR + '''
g.add_points(pts((1., 1., 5.), (9., 1., 8.)), 'a', progress_bar=False); g.grid('mean', 8., progress_bar=False)
g.tiles[0, 0].grid('mean', 16.); g.resolutions = [8., 16.]
eq(g.layer_values_at_xy(np.array([1., 9.]), np.array([1., 1.]), nodatavalue=1e6), np.array([5., 8.], dtype=np.float32))
'''),
'b12_ceil': dict(property='C12', needs='a limit that is not a multiple of the tile size', breaks='the chunks exceed the size limit by up to a tile',
 edits=[('bgrid.py', 'max(int(np.floor(max_chunk_dimension / self.tile_size)), 1)', 'max(int(np.ceil(max_chunk_dimension / self.tile_size)), 1)')],
 demo=GRID + SR + '''
g.add_points(pts(*[(16. * i + 1., 1., 5.) for i in range(6)]), 'a', progress_bar=False); g.grid('mean', 16., progress_bar=False)
for geo, dim, d in g.get_chunks_of_tiles(16., 'depth', override_maximum_chunk_dimension=40.): assert dim <= 40., dim
'''),
'b14_lost': dict(property='C14', needs='update gridding in parallel of a variable resolution grid with an unchanged tile of its own resolution', breaks='the resolutions of the tiles skipped by a parallel update are lost',
 edits=[('bgrid.py', '''                            for rz in tile.resolutions:
                                if rz not in self.resolutions:
                                    self.resolutions.append(rz)
                            continue
                    if isinstance(tile, SRTile):
                        clear_tile = True  # If we get here, it is an update and the tile needs to be updated, so we clear existing grid data
                if self.sub_type in ['srtile', 'quadtile']:
                    self._load''', '''                            continue
                    if isinstance(tile, SRTile):
                        clear_tile = True  # If we get here, it is an update and the tile needs to be updated, so we clear existing grid data
                if self.sub_type in ['srtile', 'quadtile']:
                    self._load''')],
 demo=GRID + FAKE + '''
g = create_grid(grid_type='variable_resolution_tile', grid_backend='numpy', tile_size=64., subtile_size=16.)
g.add_points(pts((1., 1., 5.), (70., 1., 70.)), 'a', progress_bar=False); g.grid('mean', progress_bar=False)
assert g.resolutions == [.25, 4.], g.resolutions
g.add_points(pts((2., 1., 5.)), 'b', progress_bar=False)
g.client = Fake(); g.grid('mean', regrid_option='update', use_dask=True, progress_bar=False)
assert g.resolutions == [.25, 4.], g.resolutions
'''),
'b15_edge': dict(property='C15', needs='a mean depth exactly on the edge of a depth band', breaks='a grid whose mean depth is exactly on the edge of a band gets the resolution of the shallower band',
 edits=[('bgrid.py', 'range_index = np.argmax((np.array(dpth_keys) - self.mean_depth) > 0)', 'range_index = np.argmax((np.array(dpth_keys) - self.mean_depth) >= 0)')],
 demo=GRID + SR + '''
g.add_points(pts((1., 1., 15.), (17., 1., 25.)), 'a', progress_bar=False); g.grid('mean', progress_bar=False)
assert g.resolutions == [1.], g.resolutions
'''),
'b16_line': dict(property='C16', needs='a source name with a double underscore (group__line)', breaks='a source that is already in the grid is accepted again when its name has a double underscore',
 edits=[('bgrid.py', '        if container_name in self.container:\n            raise ValueError', '        if container_name in self.unique_container_entries:\n            raise ValueError')],
 demo=GRID + SR + '''
g.add_points(pts((1., 1., 15.)), 'a__1', progress_bar=False)
try: g.add_points(pts((2., 1., 16.)), 'a__1', progress_bar=False)
except ValueError: pass
else: raise AssertionError('accepted twice')
'''),
'b17_zero': dict(property='C17', needs='a cell with a depth of exactly zero', breaks='cells at the datum are left out of the layer values',
 edits=[('tile.py', 'layer_values.extend(lvalues[~np.isnan(lvalues)].tolist())', 'layer_values.extend(lvalues[np.nan_to_num(lvalues) != nodatavalue if lvalues.all() else np.nan_to_num(lvalues) != 0].tolist())' if 0 else 'layer_values.extend(lvalues[np.nan_to_num(lvalues) != 0].tolist())')],
 demo=GRID + SR + '''
g.add_points(pts((1., 1., 0.), (9., 1., 3.)), 'a', progress_bar=False); g.grid('mean', 8., progress_bar=False)
assert sorted(g.return_layer_values('depth').tolist()) == [0., 3.]
'''),
'b20_first': dict(property='C20', needs='a grid folder with another file in it, such as an export', breaks='a grid folder that holds an export next to the grid cannot be loaded',
 edits=[('convenience.py', 'if len(valid_subfolders) > 1:', 'if len(subfolders) > 1 and subfolders != valid_subfolders:')],
 demo=GRID + '''
p = os.path.join(tmp, 'g')
g = create_grid(p, grid_backend='numpy', tile_size=16.)
g.add_points(pts((1., 1., 12.)), 'a', progress_bar=False)
open(os.path.join(p, 'export.csv'), 'w').close()
assert load_grid(p).points_count == 1
'''),
'b02_onecell': dict(property='C02', needs='a resolution equal to the tile size', breaks='a tile of a single cell gets no vertical uncertainty',
 edits=[('algorithms.py', '    if tvu.size > 0 and tvu_grid.size > 0:\n        tvu_enabled = True\n    if thu.size > 0 and thu_grid.size > 0:\n        thu_enabled = True\n\n', '    if tvu.size > 0 and tvu_grid.size > 1:\n        tvu_enabled = True\n    if thu.size > 0 and thu_grid.size > 0:\n        thu_enabled = True\n\n')], all=True,
 demo=GRID + '''
t = SRTile(0., 0., 16.)
t.add_points(pts((1., 1., 12., .5, .25)), 'a'); t.grid('mean', 16.)
assert t.cells[16.]['vertical_uncertainty'][0, 0] == .5
'''),
'b21_buffer': dict(property='C21', needs='points exactly at the buffer distance', breaks='points exactly at the buffer distance from the shared edge are left out',
 edits=[('bgrid.py', "newdata = tils[0].data[tils[0].data['y'] >= (tils[0].max_y - buffer_value)]", "newdata = tils[0].data[tils[0].data['y'] > (tils[0].max_y - buffer_value)]")],
 demo=GRID + SR + '''
g.add_points(pts((1., 14., 5.), (1., 17., 5.)), 'a', progress_bar=False)
assert g.get_tile_neighbor_points(g.tiles[1, 0], 2.).size == 1
'''),
'b04_corner': dict(property='C04', needs='a grid that grows to the west and to the south by different numbers of tiles', breaks='existing tiles are moved when the grid grows to the south and west by different amounts',
 edits=[('grids.py', 'np.argwhere(tile_x_origin == self.tile_x_origin[0][0])[0][1]', 'np.argwhere(tile_x_origin == self.tile_x_origin[0][0])[0][0]')],
 demo=GRID + SR + '''
g.add_points(pts((40., 40., 5.)), 'a', progress_bar=False)
g.add_points(pts((1., 24., 6.)), 'b', progress_bar=False)
for t, x, y in zip(g.tiles.flat, g.tile_x_origin.flat, g.tile_y_origin.flat):
    if t: assert (t.min_x, t.min_y) == (x, y), (t.min_x, t.min_y, x, y)
'''),

'b05_xr': dict(property='C05', needs='an xarray dataset whose depth is single precision and whose coordinates are double precision', breaks='the coordinates of a dataset are rounded to the precision of its depth',
 edits=[('bgrid.py', 'dtyp = [(varname, self.data[varname].dtype) for varname in allowed_vars if varname in self.data]', "dtyp = [(varname, self.data['z'].dtype) for varname in allowed_vars if varname in self.data]")],
 demo=GRID + SR + """
import xarray as xr
x = np.array([409600.07, 409601.13]); y = np.array([4608000.03, 4608001.21]); z = np.array([5., 6.], dtype=np.float32)
g.add_points(xr.Dataset({'x': ('p', x), 'y': ('p', y), 'z': ('p', z)}), 'a', progress_bar=False)
d = np.concatenate([t.data for t in g.tiles.flat if t])
eq(np.sort(d['x']), x); eq(np.sort(d['y']), y)
"""),
'b08_lost': dict(property='C08', needs='update gridding of a variable resolution grid with an unchanged tile of its own resolution', breaks='the resolutions of the tiles skipped by an update are lost',
 edits=[('bgrid.py', """                            for rz in tile.resolutions:
                                if rz not in self.resolutions:
                                    self.resolutions.append(rz)
                            continue
                    if isinstance(tile, SRTile):
                        clear_tile = True  # If we get here, it is an update and the tile needs to be updated, so we clear existing grid data
                if algorithm""", """                            continue
                    if isinstance(tile, SRTile):
                        clear_tile = True  # If we get here, it is an update and the tile needs to be updated, so we clear existing grid data
                if algorithm""")],
 demo=GRID + """
g = create_grid(grid_type='variable_resolution_tile', grid_backend='numpy', tile_size=64., subtile_size=16.)
g.add_points(pts((1., 1., 5.), (70., 1., 70.)), 'a', progress_bar=False); g.grid('mean', progress_bar=False)
assert g.resolutions == [.25, 4.], g.resolutions
g.add_points(pts((2., 1., 5.)), 'b', progress_bar=False); g.grid('mean', regrid_option='update', progress_bar=False)
assert g.resolutions == [.25, 4.], g.resolutions
"""),
'b10_half': dict(property='C10', needs='a resolution of one metre or less and cell centers', breaks='the coordinates of the cell centers are those of the edges at fine resolutions',
 edits=[('bgrid.py', 'x = (np.arange(self.min_x, self.max_x, resolution) + resolution / 2)[', 'x = (np.arange(self.min_x, self.max_x, resolution) + resolution // 2)[')],
 demo=GRID + SR + """
g.add_points(pts((1.2, 1.2, 5.)), 'a', progress_bar=False); g.grid('mean', 1., progress_bar=False)
x, y, d, a, b = g.return_surf_xyz('depth', 1., False)
assert (x.tolist(), y.tolist()) == ([1.5], [1.5]), (x, y)
"""),
'b18_abs': dict(property='C18', needs='a cell above the datum (negative depth)', breaks='a drying height comes out below the datum',
 edits=[('tile.py', 'data = data * -1\n', 'data = -np.abs(data)\n')],
 demo=GRID + SR + """
g.add_points(pts((1., 1., -2.), (9., 9., 4.)), 'a', progress_bar=False); g.grid('mean', 8., progress_bar=False)
eq(g.get_layers_by_name('depth', z_positive_up=True)[0], [[2., np.nan], [np.nan, -4.]])
"""),
'b16_mllw': dict(property='C16', needs='two vertical references of which only the new one is MLLW', breaks='an MLLW source is accepted by a grid with another vertical reference',
 edits=[('bgrid.py', "and self.vertical_reference.find('MLLW') != -1 and vertical_reference.find", "and vertical_reference.find")],
 demo=GRID + SR + """
g.add_points(pts((1., 1., 15.)), 'a', crs=26917, vertical_reference='NAVD88', progress_bar=False)
try: g.add_points(pts((2., 1., 16.)), 'b', crs=26917, vertical_reference='MLLW', progress_bar=False)
except ValueError: pass
else: raise AssertionError('accepted')
"""),
'b03_tie': dict(property='C03', needs='a single cell tile (resolution equal to the tile size)', breaks='', edits=[], demo=''),
'b06_keep': dict(property='C06', needs='removing a source that is not the last one from a tile gridded before', breaks='the cell indices of the wrong points are kept when a source is removed',
 edits=[('tile.py', 'self.cell_indices[resolution] = self.cell_indices[resolution][msk]', 'self.cell_indices[resolution] = self.cell_indices[resolution][:np.count_nonzero(msk)]')],
 demo=GRID + """
t = SRTile(0., 0., 16.)
t.add_points(pts((1., 1., 12.)), 'a'); t.add_points(pts((9., 9., 3.)), 'b'); t.grid('mean', 8.)
t.remove_points('a')
assert t.cell_indices[8.].tolist() == [3], t.cell_indices
"""),
}
del BUGS['b03_tie'], BUGS['b16_mllw']
