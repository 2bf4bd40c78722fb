"""writes /verif/properties.jsonl (kept as a script so that the statements are easy to edit)"""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=list(observe), hook_needed=None)))
B = 'bathygrid/bgrid.py'; T = 'bathygrid/tile.py'; G = 'bathygrid/grids.py'; A = 'bathygrid/algorithms.py'; U = 'bathygrid/utilities.py'
K = 'bathygrid/backends.py'; M = 'bathygrid/maingrid.py'; C = 'bathygrid/convenience.py'; V = 'bathygrid/grid_variables.py'
p('C01', 'Every point is assigned to the one cell or tile that contains it',
  'For sorted bin edges and points inside them, the index given to a point is the row-major index (y row, x column) of the one half-open bin [edge, next edge) in x and in y that contains the point, so a point on a shared edge belongs to the upper bin. '
  'This holds for any number of points and bins, a single bin included. Dask input of any chunking gives the same indices as numpy input.',
  ['inputs'], 'all finite coordinates inside the edges, all strictly increasing edge arrays, every chunking of dask input',
  'test_utilities has one 2d binning example with a handful of points; edges, single-row grids and dask partitions are not sampled', [U],
  [('searchsorted right-sided binning', U + ':bin2d_with_indices')], observe=['return value of bin2d_with_indices', 'cell_indices of a gridded tile'])
p('C02', 'Mean gridding yields the mean of exactly the points in each cell',
  'After gridding with the mean algorithm every cell that contains points holds the arithmetic mean of the depths of exactly those points (rounded to the millimetre), its density is their number, and its vertical and horizontal uncertainty layers hold the means of their uncertainties. '
  'A cell that contains no point keeps no data (NaN, density 0). The order in which the points are stored does not matter.',
  ['inputs'], 'all point sets (any order, duplicates, any number of points per cell, with or without uncertainties) and all cell layouts',
  'the two mean tests use one fixed 3x3 example each with evenly spread points', [A, T],
  [('sort by cell, reduceat per segment, scatter', A + ':np_grid_mean'), ('layer set-up and rounding', T + ':SRTile._run_mean_grid')], observe=['depth, density and uncertainty layers of a gridded tile'])
p('C03', 'Shoalest gridding yields the shoalest point of each cell, with its uncertainty',
  'After gridding with the shoalest algorithm every cell that contains points holds the smallest depth among exactly those points (rounded to the millimetre), and its density is their number. '
  'The vertical and horizontal uncertainty of the cell are both those of a point that lies in that same cell and has that smallest depth. A cell without points keeps no data.',
  ['inputs'], 'all point sets (any order, equal depths within and across cells) and all cell layouts',
  'the shoalest tests use one example whose depths are sorted and distinct, which hides any mix-up between points', [A, T],
  [('segment minimum and uncertainty lookup', A + ':np_grid_shoalest'), ('layer set-up and rounding', T + ':SRTile._run_shoalest_grid')], observe=['depth and uncertainty layers of a gridded tile'])
p('C04', 'Grid extents stay aligned, cover all points, and growth keeps tiles in place',
  'After any sequence of adds a growing grid has extents that are whole tiles counted from its origin and that contain every added point strictly below the upper edge; tile edges and tile origins form the regular lattice of that extent. '
  'When the grid grows, every existing tile keeps its own coordinates: the tile found at a row and column always is the one whose lower left corner is that lattice point, and no tile is lost, duplicated or moved.',
  ['inputs', 'histories'], 'all point coordinates (negative and on tile edges included), origins, power of two tile sizes and all histories of adds and removes',
  'the tests add two or three fixed datasets near the origin; they never use a non-zero origin, negative coordinates or growth after emptying', [G, B],
  [('extent alignment', G + ':BaseGrid._adjust_extents'), ('lattice and existing tile mask', G + ':BaseGrid._build_grid'), ('tile transfer', B + ':BathyGrid._update_tiles')],
  state=[('existing_tile_mask', 'where the previous tiles go in the grown grid', G)], observe=['tiles, tile_x_origin, tile_y_origin, tile_edges, min/max'])
p('C05', 'The grid holds exactly the points of the sources added and not removed',
  'After any history of adding and removing point sources, the multiset of points held in all tiles (all attributes included) equals the union of the sources that were added and not removed since. '
  'Every point lies in the tile whose extents contain it, removing a source leaves the points of all other sources untouched, and a tile without points does not exist. The number of tiles and the list of sources reported match.',
  ['inputs', 'histories'], 'all histories of adds and removes of any sources, for single and variable resolution grids, in memory or on disk',
  'tests remove one source from one two-source grid and compare counts only', [B, T],
  [('distribution of new points to tiles', B + ':BathyGrid._add_points_to_tiles'), ('removal', B + ':BathyGrid.remove_points, _remove_tile'), ('tile store', T + ':SRTile.add_points, remove_points')],
  observe=['points_count, tile data, container, number_of_tiles'])
p('C06', 'A tile can always tell which of its points came from which source',
  'In every tile the index ranges recorded for the sources partition the stored points, and the range of a source selects exactly the points of that source in this tile, in the order they were added. '
  'Adding a source again replaces its points; every cached cell index stays aligned with the stored points, so gridding only one source (a source query) uses exactly the points of that source.',
  ['inputs', 'histories'], 'all histories of add, re-add, remove and grid on one tile, any number of sources and points',
  'tests check one append and one removal with two sources', [T],
  [('range bookkeeping', T + ':SRTile.add_points, remove_points'), ('source query', T + ':SRTile._grid_algorithm_initialize, get_layers_by_name')],
  state=[('container', 'source name to [start, end) range in the point store', G), ('cell_indices', 'cached cell of each point per resolution', G)])
p('C07', 'A gridded layer depends only on the current points, not on the history',
  'Gridding a tile with some algorithm and resolution gives the same layers as gridding a fresh tile that holds the same points, whatever was added, removed, gridded or queried before, and whether the data is in memory or was saved and reloaded. '
  'No cell keeps a value computed from points that are gone, and no point is left out or counted twice.',
  ['inputs', 'histories'], 'all histories of add, remove, grid (any resolution, either algorithm) and layer queries before the final gridding',
  'tests regrid at most once after one change; stale caches only show after specific sequences', [T, B],
  [('layer reset and incremental cell index', T + ':SRTile.grid, new_grid'), ('invalidation of temporary layers', T + ':SRTile._clear_temp_data')], observe=['cells[resolution] of each tile'])
p('C08', 'Update gridding regrids exactly the changed tiles and equals a full regrid',
  'Gridding with the update option regrids every tile whose points changed since it was last gridded, drops the old layers of that tile, and leaves every other tile exactly as it was. '
  'With the same algorithm and resolution the resulting layers are the same as those of a full regrid. The resolutions reported afterwards are those that exist in the tiles.',
  ['inputs', 'histories'], 'all histories of adds, removes and griddings followed by an update, sequential or parallel',
  'tests update once after a single change and look at one value; the order of changed and unchanged tiles is never varied', [B, T],
  [('changed tile selection', B + ':BathyGrid._grid_regular, _grid_parallel'), ('change flag', T + ':SRTile.point_count_changed')])
p('C09', 'The full layer mosaic shows every tile cell at its map position',
  'A layer requested for the whole grid has one cell per resolution step over the grid extents, and each cell equals the cell of the tile that covers that position, or the no data value where no tile has a value. '
  'When several layers are requested, each returned array belongs to the requested layer at the same place in the list, whichever tiles lack a layer.',
  ['inputs', 'configurations'], 'all tile layouts (missing tiles, tiles without the layer or resolution), resolutions, layer lists and no data values, single and variable resolution grids',
  'tests read one layer at a time from fully populated grids and compare a few cells', [B, T],
  [('mosaic assembly', B + ':BathyGrid.get_layers_by_name, get_tile_data, _build_layer_grid'), ('tile layer access', T + ':SRTile.get_layers_by_name')], observe=['get_layers_by_name, get_tiles_by_resolution'])
p('C10', 'Trimmed layers are the tightest box and carry the right coordinates',
  'The trimmed layer is the smallest rectangle of the full layer that contains every cell with data, with the same values, and the same rectangle is used for every requested layer. '
  'The coordinates returned with it are the cell centres of its columns and rows, or, when cell boundaries are requested, their edges, one more than the number of cells in each direction.',
  ['inputs', 'configurations'], 'all data placements, including data that touches the edges of the grid, all resolutions',
  'one trimmed layer example whose data does not touch the grid edge', [B], [('trim', B + ':BathyGrid.get_layers_trimmed'), ('coordinates', B + ':BathyGrid.return_surf_xyz')])
p('C11', 'A point query returns the value of the cell that contains the location',
  'A layer queried at a location returns the value of the cell that contains the location, taking the finest resolution that has data there when no resolution is given, and the no data value where no cell with data contains it. '
  'Answers line up with the query order, and each location is answered independently of the others; scalars work the same as arrays.',
  ['inputs', 'configurations'], 'all query locations (on cell edges, in the last row or column, outside the grid) for all grids with one or more resolutions',
  'tests query a few interior locations of one grid', [B], [('query', B + ':BathyGrid.layer_values_at_xy, _validate_layer_query')])
p('C12', 'Export chunks cover every tile once, within the size limit and georeferenced',
  'The chunks produced for a resolution together contain the data of every tile gridded at that resolution exactly once, and no chunk is larger than the maximum dimension unless a single tile already is. '
  'Each chunk array, placed with its geotransform in the north-up convention, shows every cell value at its true position and the no data value of the right type everywhere else.',
  ['inputs', 'configurations'], 'all tile layouts, maximum chunk dimensions, resolutions, layer lists and no data values',
  'one dataset, two chunk sizes, and only the first chunk is looked at', [B],
  [('grouping', B + ':BathyGrid._tile_chunk_indices, _split_to_approx_shape'), ('assembly', B + ':BathyGrid.get_chunks_of_tiles, _finalize_chunk'), ('raster orientation', U + ':gdal_raster_create')])
p('C13', 'A grid reloaded from disk equals the grid that was saved',
  'Loading a saved or disk-backed grid gives a grid with the same tiles, points, source ranges, layers (values, types, resolutions), cell indices of the gridded layers and attributes as the grid in memory at that moment, for both storage backends and for single and variable resolution grids. '
  'This holds after every add, remove, gridding and save in a history, and the reloaded grid behaves the same from then on; nothing that was removed comes back.',
  ['inputs', 'histories'], 'all histories of add, remove, grid, save and reload on disk-backed or saved grids with the numpy or zarr backend',
  'tests save and load a grid once and compare selected attributes', [K, V, T],
  [('metadata json', K + ':BaseStorage._save_bathygrid_metadata, _load_bathygrid_metadata, _save_tile_metadata, _load_tile_metadata'), ('arrays', K + ':NumpyGrid/ZarrGrid._save_tile_data, _load_tile_data'), ('key lists', V)])
p('C14', 'Parallel gridding gives the same grid as sequential gridding',
  'Gridding through dask gives the same tiles, layers, resolutions and saved data as gridding without it, for every algorithm, resolution mode and regrid option, whatever the number of workers and the grouping of the tiles. '
  'Each result is stored at the position of the tile it was computed from.',
  ['inputs', 'schedules', 'configurations'], 'all numbers of tiles and workers (every group size and remainder), single and variable resolution, full and update mode',
  'the dask tests run one layout whose tiles fit in a single group', [B],
  [('grouping and result placement', B + ':BathyGrid._grid_parallel, _grid_parallel_worker'), ('worker', B + ':_gridding_parallel')])
p('C15', 'Automatic resolutions follow the depth bands or the density rule',
  'In depth mode the chosen resolution is that of the depth band that contains the mean depth (the coarsest one beyond the deepest band), in density mode it is the finest allowed resolution not below the density-weighted estimate, or the depth band one where the tile is mostly empty; a single resolution grid takes the coarsest tile answer. '
  'The result always is one of the allowed power of two resolutions or the tile size, never larger than the tile. Deeper water or sparser points never give a finer resolution.',
  ['inputs'], 'all point sets, mean depths and tile sizes',
  'tests check one or two depths and one density', [T, B, V],
  [('depth bands', T + ':SRTile._calculate_resolution_lookup; ' + B + ':BathyGrid._calculate_resolution_lookup'), ('density', T + ':SRTile.resolution_by_density; ' + B + ':BathyGrid.resolution_by_density')])
p('C16', 'Only compatible sources are accepted and a refused source changes nothing',
  'A source is refused when its name is already in the grid, when its coordinate system differs from that of the grid, when its vertical reference differs (two MLLW references count as equal), or when it is not a proper point array; the points, sources, coordinate system, vertical reference, time span and tiles of the grid then stay what they were. '
  'An accepted source records its file list, and the time span of the grid is the smallest span that covers the time spans of all sources added, to the second.',
  ['inputs', 'histories'], 'all sequences of accepted and refused adds with any names, coordinate systems, vertical references and times',
  'the tests have no refused adds other than none-matching names and one min/max time example', [B, U],
  [('admission and metadata', B + ':BathyGrid._update_metadata, add_points; OperationalGrid._validate_input_data, _convert_dataset'), ('time strings', U + ':utc_seconds_to_formatted_string, formatted_string_to_utc_seconds')])
p('C17', 'Summary statistics equal the sums over the tiles and cells',
  'Point count, cell counts per resolution, density lists, density per square metre, density against depth pairs, coverage area and mean depth of a grid are the totals, concatenations or point-weighted mean (to the millimetre) of those of its tiles, and those of a tile are computed from exactly its populated cells at each resolution. '
  'Layer value lists contain every cell value with data exactly once.',
  ['inputs', 'histories'], 'all grids, with any mix of missing tiles, resolutions and layers, including after removals',
  'tests compare a few totals of one grid', [B, T, G],
  [('grid totals', B + ':BathyGrid.cell_count, density_count, ..., return_layer_values, _update_mean_depth'), ('tile values', T + ':SRTile.cell_count, density_count, ...')])
p('C18', 'The depth sign convention is applied once and only to depth',
  'Depth layers are returned positive down unless positive up is requested, then with the opposite sign, whether the grid was built from positive down depths or positive up heights; every other layer, and the no data value, is never negated. '
  'This is the same for single tiles, full layers, chunks and variable resolution subgrids.',
  ['inputs', 'configurations'], 'all vertical references, requested conventions, layers, no data values and ways to read a layer',
  'tests never combine a positive up vertical reference with a positive up request', [B, T],
  [('toggle', B + ':BathyGrid.positive_up, get_tile_data'), ('negation and no data fill', T + ':SRTile.get_layers_by_name')])
p('C19', 'Exported files contain exactly the gridded values at their coordinates',
  'A csv export has one line per node of the trimmed layers with the node coordinates and all layer values belonging to that node, and elevations are positive up when requested. '
  'A raster export, read back with its georeferencing, gives for every cell of the grid the layer value in the requested sign convention, and the no data value elsewhere; an existing file is never overwritten.',
  ['inputs', 'configurations'], 'all grids, resolutions, layers, chunk sizes and sign options for csv and geotiff',
  'tests only check that the files exist', [B, U],
  [('csv', B + ':OperationalGrid._export_csv'), ('geotiff', B + ':OperationalGrid._export_geotiff'), ('raster', U + ':gdal_raster_create')])
p('C20', 'Grids are created and loaded as requested or refused',
  'Creating a grid gives the requested kind (single or variable resolution, numpy or zarr storage, backscatter or depth, tile and subtile size) all the way down to its tiles, and loading a folder gives back that kind. '
  'A tile size, subtile size or resolution that is not a power of two (fractions included), an unknown kind or backend, and a folder without exactly one grid are refused. A new grid never reuses a folder that already has contents.',
  ['inputs', 'configurations'], 'all option combinations, all positive numbers as sizes, all folder contents',
  'tests create a few valid grids and check about ten numbers', [C, M, U],
  [('validation and dispatch', C), ('power of two', U + ':is_power_of_two'), ('subgrids', M + ':_build_tile'), ('folders', U + ':create_folder')])
p('C21', 'Neighbor points are those of adjacent tiles within the buffer of the shared edge',
  'The neighbors of a tile are the existing tiles directly above, right, below and left of it in the tile array, with nothing in place of a missing one or beyond the border of the grid. '
  'The neighbor points for a buffer are exactly the points of those tiles that are not further than the buffer from the edge shared with the tile, each once, for single and variable resolution grids.',
  ['inputs', 'configurations'], 'all tile layouts, tile positions, point positions and buffers',
  'one example each for an interior tile', [B], [('neighbors', B + ':BathyGrid.get_tile_neighbors, get_tile_neighbor_points')])
p('C22', 'Cell slopes are the least squares plane of exactly the points of the cell',
  'The x and y slope of a cell are the coefficients of the least squares plane through exactly the points in that cell, cells without points have no value, and points of one cell never influence another. '
  'Once points were added or removed and the tile was gridded again, the slopes are those of the new points.',
  ['inputs', 'histories'], 'all point sets and cell layouts and all histories of adds, removes and slope queries',
  'one fixed example', [A, T], [('grouping by cell and fit', A + ':calculate_slopes'), ('cache', T + ':SRTile._run_slopes, _clear_temp_data')])
p('C23', 'CUBE gridding assigns each cell the hypothesis of the soundings around it',
  'Gridding with the CUBE algorithm gives every cell the depth, uncertainty and hypothesis statistics that the CUBE algorithm computes for the node at that cell, oriented like the other layers, including soundings of neighboring tiles near the border.',
  ['inputs'], 'all point sets and cell layouts', 'needs the bathycube package, which is not installed', [A, T], [('wrapper', A + ':nb_cube'), ('set-up', T + ':SRTile._run_cube_grid')])
with open('/verif/properties.jsonl', 'w') as f:
    for d in P: f.write(json.dumps(d) + '\n')
print(len(P))
