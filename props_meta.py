"""per property: what the check does (used for the evidence files and MANIFEST.json)"""
REAL = 'machine floats are mathematical reals with a not-a-number flag; machine integers are unbounded'
COMMON = [REAL, 'the numpy functions behave as the documented contracts listed in trusted_base say (compared with the real numpy by tools/conformance.py)',
          'python semantics of the supported subset as implemented by pyvc (tested against deliberately broken bodies by tools/selftest.py)']
META = {}
def m(id, rule, explanation, bounded, level='other', assumptions=(), budget=14):
    META[id] = dict(rule=rule, explanation=explanation, bounded=bounded, level=level, assumptions=COMMON + list(assumptions), budget=budget)
HIST = 'random histories of adds, removes, griddings, saves and reloads on grids with random origin, tile size, kind and points (ties on edges, negative coordinates); a history without a populated tile is trivial'
ARR = 'random arrays and edges with duplicates, ties on edges, empty bins, one-row layouts and dask chunkings; a case without points is trivial'
DISK = 'diskkit: the file system, json, dask and zarr are stand-ins that give back what was stored; float(str(x)) == x'
m('C01', ARR, 'bin2d_with_indices: for any number of points and of sorted edges the index is the row-major index of the one half open bin that contains the point; the dask path (any chunking) is delegated to the same function per block', 'dask execution order, ties on edges and extremes of float arithmetic', level='proof')
m('C02', ARR, 'np_grid_mean (its loop over cells with an invariant) gives mean and density of exactly the points of the cell for any points and cells, with and without uncertainties; SRTile.grid with mean from any previous state of the tile, with callees by contract: every cell, every layer, untouched cells keep no data', 'float rounding of sums, points in many orders, whole tiles through SRTile.grid', level='proof')
m('C03', ARR, 'np_grid_shoalest gives the smallest depth of exactly the points of the cell and the uncertainties of one point of that cell with that depth, for any points and cells; SRTile.grid with shoalest from any previous state, callees by contract', 'ties of equal depths in real data, whole tiles through SRTile.grid', level='proof')
m('C04', HIST, 'extents after any add are whole tiles from the origin and contain every point strictly; tile edges, origins and mask are the lattice; after growth every tile is at its place, none lost, duplicated or moved (any grid size, any growth)', 'float arithmetic of edges with large coordinates; histories of adds')
m('C05', HIST, 'adding: every point goes to exactly the one tile that contains it and new tiles are built at their place, for any points and tiles; removing: every tile that exists is told exactly once, empty tiles vanish, the list of sources and the number of tiles follow; a source that is not there changes nothing (single and variable resolution)', 'histories of adds and removes with reloads; the multiset of points over whole histories is the sum of the single steps')
m('C06', HIST, 'SRTile.add_points / remove_points from any valid state with any number of sources: the ranges partition the points, every source keeps its points in order, cached cell indices stay aligned; source queries use exactly the points of that source', 'histories of adds and removes of a tile', level='proof')
m('C07', HIST, 'the cached cell indices are those of the current points after every add and remove, gridding from any previous state (any cached indices, any layers) gives the layers of a fresh tile, with mean and shoalest, all kinds of tiles; clearing the points leaves no point, source or cell index', 'histories with saves and reloads')
m('C08', HIST, 'BathyGrid.grid and _grid_regular over any number of tiles: exactly the tiles that must be gridded are, with the right arguments, all others are untouched; point_count_changed after adds, removes and gridding; reported resolutions', 'equality of the update result with a full regrid over histories', budget=14)
m('C09', HIST, 'get_layers_by_name for any number and size of tiles: shape, and every cell of every requested layer is that of the tile that covers it or no data; tiles without the layer, variable resolution sub grids, refusals', 'random grids', )
m('C10', HIST, 'trimmed rectangle of any layers: smallest, same for all layers, same values; coordinates are the cell centres or the cell edges of its columns and rows', 'random grids', level='proof')
m('C11', HIST, 'layer_values_at_xy for any number of locations and any number of resolutions (loop invariant): the value of the cell that contains the location at the finest resolution that has data there, otherwise no data; scalars', 'random grids and queries, locations on edges and outside, given as numbers, numpy numbers, arrays, lists or tuples', level='proof')
m('C12', HIST, 'chunk arrays, geotransforms, chunk sections for any number of tiles: every tile of the resolution in exactly one chunk, size limit, every cell at its place', 'random grids', assumptions=['tile origins grow with the tile index (C04)'], budget=16)
m('C13', HIST, 'both backends: any array over any previous content; all attributes of tiles and grids; tiles with any subset of layers; tiles that are gone; saving and loading all tiles of grids of any size', 'histories on disk with the real json, dask and zarr', assumptions=[DISK, 'tile origins differ (C04), so that folders do'], budget=16)
m('C14', HIST, '_grid_parallel for any number of tiles and workers (grouping into blocks, loop invariants): every tile is handed over once, with the arguments of the sequential run, and its result is stored at its place; the worker grids like the sequential run', 'random grids with a stand-in dask client', assumptions=['dask: scatter, map and gather keep the order of what they are given and run the function once on each'], budget=18)
m('C15', HIST, 'depth band look-up (and that it never gets finer with the depth), density rule (with its while loop), cell counts, maximum over the tiles and what BathyGrid.grid passes on, for all inputs', 'random tiles', level='proof')
m('C16', HIST, '_update_metadata for every combination of present and missing references (text as uninterpreted values with equality and MLLW), time spans for any times; refused sources leave every attribute alone; the acceptance of point arrays; utc seconds to time text and back over a stand-in for the standard datetime (assumed: strptime inverts strftime, timestamp and fromtimestamp are inverse in UTC)', 'histories with refused sources')
m('C17', HIST, 'totals, concatenations and weighted means over any number of tiles; tile statistics over exactly the populated cells', 'random grids; rounding to the millimetre')
m('C18', HIST, 'sign of every layer of a tile and of tile data, no data untouched', 'full layers, chunks and sub grids of random grids')
m('C19', HIST, 'csv: one line per node with its coordinates and values; geotiff and bag: bands, names, georeferencing and no data values; file names that never exist yet', 'random grids exported and read back', assumptions=['numpy.savetxt and GDAL write what they are given', 'a time stamp in a file name is new'], budget=16)
m('C20', HIST, 'power of two check for all whole numbers and fractions; refusals; kind and attributes of new grids and tiles down to the tile; unused folders', 'random arguments; folders with other contents')
m('C21', HIST, 'neighbours in tile arrays of any size; neighbour points for any points, each once, in every combination of existing neighbours', 'random grids')
m('C22', HIST, 'slopes of every cell (any points and cells), both axes, layers renewed after adds, removes and gridding', 'random tiles, dense cells and large coordinates, the numerical solution', assumptions=['numpy.linalg.lstsq returns the least squares solution'], level='proof')
