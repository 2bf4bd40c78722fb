"""Edits that keep the behaviour: the verifier must not refute anything on them (proved or undecided are both fine).
refactors.py [-j N] [PROP|name ...]"""
import sys, os, json
H = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, H)
B, T, G, A, U = 'bgrid.py', 'tile.py', 'grids.py', 'algorithms.py', 'utilities.py'
NESTED = "        for row in self.tiles:\n            for tile in row:\n                if tile:\n                    tile_rez = tile.resolution_by_density(starting_resolution)\n                    rez_options.append(tile_rez)\n"
REFACTORS = [
    ('C15', 'flat', B, NESTED, "        for tile in self.tiles.flat:\n            if tile:\n                rez_options.append(tile.resolution_by_density(starting_resolution))\n", 'coarsest'),
    ('C15', 'compr', B, NESTED, "        rez_options = [t.resolution_by_density(starting_resolution) for t in self.tiles.flat if t]\n", 'coarsest'),
    ('C17', 'get', B, "if rez in final_count:\n                            final_count[rez] += tcell[rez]\n                        else:\n                            final_count[rez] = tcell[rez]", "final_count[rez] = final_count.get(rez, 0) + tcell[rez]", 'cell count at'),
    ('C17', 'items', B, "for rez in tcell:\n                        if rez in final_count:\n                            final_count[rez] += tcell[rez]\n                        else:\n                            final_count[rez] = tcell[rez]", "for rez, num in tcell.items():\n                        if rez not in final_count:\n                            final_count[rez] = 0\n                        final_count[rez] += num", 'cell count at'),
    ('C17', 'mask', T, "density_count.extend(density[density > 0].tolist())", "populated = density > 0\n            density_count.extend(density[populated].tolist())", 'density_count of exactly'),
    ('C17', 'area', T, "area += round(density[density > 0].size * (rez ** 2), 3)", "cells = np.count_nonzero(density > 0)\n            area = area + round(cells * (rez ** 2), 3)", 'coverage area'),
    ('C17', 'genexp', B, "total_depth = sum(tile.mean_depth * tile.points_count for tile in self.tiles.flat if tile)", "total_depth = 0.0\n            for tile in self.tiles.flat:\n                if tile:\n                    total_depth += tile.mean_depth * tile.points_count", 'grid: mean depth'),
    ('C09', 'notlayer', B, "for lyr_cnt, lyr in enumerate(layer):\n                    if lyr in newdata:", "for lyr_cnt in range(len(layer)):\n                    lyr = layer[lyr_cnt]\n                    if lyr in newdata:", 'mosaic of depth, density, s'),
    ('C09', 'found', B, "        if empty:\n            data = None\n        return data\n\n    def get_layers_trimmed", "        return None if empty else data\n\n    def get_layers_trimmed", 'mosaic of depth, s'),
    ('C22', 'enum', A, "for row, col, x_cell, y_cell, z_cell in zip(urow, ucol, x_split, y_split, z_split):", "for cnt in range(len(urow)):\n        row, col, x_cell, y_cell, z_cell = urow[cnt], ucol[cnt], x_split[cnt], y_split[cnt], z_split[cnt]", 'every cell'),
    ('C22', 'both', A, "x_slope_grid[row, col] = fit[0][0]", "x_slope_grid[row, col] = fit[0, 0]", 'every cell'),
    ('C22', 'order', A, "np.column_stack([x_cell, y_cell, np.ones(x_cell.shape[0], dtype=np.float32)])", "np.column_stack((x_cell, y_cell, np.full(x_cell.shape[0], 1.0)))", 'every cell'),
    ('C22', 'slices', A, """    z_split = np.split(z[cell_sort], uidx)[1:]""", """    zs = z[cell_sort]\n    z_split = np.split(zs, uidx)[1:]""", 'every cell'),
    ('C11', 'where', B, "            no_values_yet = np.isnan(layer_values)\n            else", "            missing = np.isnan(layer_values)\n                no_values_yet = missing\n            else", 'query_depth'),
    ('C11', 'valid', B, "valid_index = np.arange(layer_values.size)[no_values_yet][in_bounds_idx]", "valid_index = np.where(no_values_yet)[0][in_bounds_idx]", 'query_depth'),
    ('C11', 'oror', B, "(digitized_x == 0) + (digitized_y == 0) + (digitized_x == len(surf_x)) + (digitized_y == len(surf_y))", "(digitized_x < 1) | (digitized_y < 1) | (digitized_x >= len(surf_x)) | (digitized_y >= len(surf_y))", 'query_depth'),
    ('C11', 'maskdel', B, "                digitized_x = np.delete(digitized_x, out_of_bounds_idx)", "                digitized_x = digitized_x[~out_of_bounds]", 'query_depth'),
    ('C12', 'comp', B, 'curdcol = [col - mincol for col in column_indices]', 'curdcol = []\n        curdcol = [c - min(column_indices) for c in column_indices]', 'chunk array'),
    ('C12', 'notnone', B, "                valid = split_b != None\n                if valid.any():\n                    chnks.append(split_b[valid].tolist())", "                there = split_b[split_b != None]\n                if len(there) > 0:\n                    chnks.append(there.tolist())", 'sections of'),
    ('C12', 'hoist', B, "                valid = split_b != None\n                if valid.any():\n                    chnks.append(split_b[valid].tolist())", "                valid = split_b != None\n                if not valid.any():\n                    continue\n                members = split_b[valid].tolist()\n                chnks.append(members)", 'sections of'),
    ('C12', 'argwhere', B, "tindex[tloc] = np.column_stack(tloc).tolist()", "tindex[tloc] = np.argwhere(self.tiles != None).tolist()", 'table of'),
    ('C12', 'npmin', B, "min_tile_row, min_tile_column = min(tile_rows), min(tile_columns)", "min_tile_row = tile_rows.min()\n        min_tile_column = tile_columns.min()", 'table of'),
    ('C12', 'flag', B, "            if self.positive_up:\n", "            if bool(self.positive_up):\n", 'one tile') if False else ('C12', 'shape', B, "max_length = max(int(np.floor(max_chunk_dimension / self.tile_size)), 1)", "max_length = int(np.floor(max_chunk_dimension / self.tile_size))\n        if max_length < 1:\n            max_length = 1", 'table of'),
    ('C12', 'ifelse', B, "                if curgeo is None:\n                    curgeo = geo\n                else:", "                if curgeo is None:\n                    curgeo = list(geo)\n                else:", 'chunks of tiles'),
    ('C19', 'colstack', B, "np.stack([d[sortidx] for d in dataset], axis=1)", "np.column_stack(dataset)[sortidx]", 'csv of'),
    ('C19', 'nosort', B, "np.stack([d[sortidx] for d in dataset], axis=1)", "np.column_stack([d.copy() for d in dataset])", 'csv of'),
    ('C19', 'neg', B, "lyrdata[cnt] = lyrdata[cnt] * -1", "lyrdata[cnt] = -lyrdata[cnt]", 'csv of'),
    ('C19', 'zip', B, "for cnt, lname in enumerate(lyrs):\n                if lname == 'depth' and z", "for cnt in range(len(lyrs)):\n                lname = lyrs[cnt]\n                if lname == 'depth' and z", 'csv of'),
    ('C19', 'append', B, "dataset += [lyrdata[cnt].ravel()]\n                dnames += [lname]", "dataset.append(lyrdata[cnt].flatten())\n                dnames.append(lname)", 'csv of'),
    ('C19', 'fstr', B, "resfile = basefile + '_{}.csv'.format(res)", "resfile = f'{basefile}_{res}.csv'", 'csv of'),
    ('C19', 'enumerate', B, """            chunk_count = 1
            for geo_transform, maxdim, data in self.get_chunks_of_tiles(resolution=res, layer=layernames, override_maximum_chunk_dimension=override_maximum_chunk_dimension,
                                                                        nodatavalue=nodatavalue, z_positive_up=z_positive_up):
                resfile = basefile + '_{}_{}.tif'.format(res, chunk_count)
                data = list(data.values())
                gdal_raster_create(resfile, data, geo_transform, self.epsg, nodatavalue=nodatavalue, bandnames=finalnames, driver='GTiff')
                chunk_count += 1
""", """            chunks = self.get_chunks_of_tiles(resolution=res, layer=layernames, override_maximum_chunk_dimension=override_maximum_chunk_dimension, nodatavalue=nodatavalue, z_positive_up=z_positive_up)
            for n, (geo_transform, maxdim, data) in enumerate(chunks):
                resfile = basefile + '_{}_{}.tif'.format(res, n + 1)
                gdal_raster_create(resfile, [data[l] for l in layernames], geo_transform, self.epsg, nodatavalue=nodatavalue, bandnames=finalnames, driver='GTiff')
""", 'geotiff of'),
    ('C19', 'bands', U, "for cnt, d in enumerate(data):\n        rband = dataset.GetRasterBand(cnt + 1)", "for cnt in range(1, no_bands + 1):\n        d = data[cnt - 1]\n        rband = dataset.GetRasterBand(cnt)\n        cnt = cnt - 1", 'bands'),
    ('C19', 'ndall', U, "        if driver != 'GTiff':\n            rband.SetNoDataValue(nodatavalue)\n    if driver == 'GTiff':", "        rband.SetNoDataValue(nodatavalue)\n    if False:", 'bands'),
    ('C19', 'early', B, "        else:\n            raise ValueError(\"bathygrid: Unrecognized format {}, must be", "        if fmt not in ('csv', 'geotiff', 'bag'):\n            raise ValueError(\"bathygrid: Unrecognized format {}, must be", 'export as'),
]
import selftest
K = 'backends.py'
LY = ('depth', 'intensity', 'density', 'vertical_uncertainty', 'horizontal_uncertainty', 'total_uncertainty', 'hypothesis_count', 'hypothesis_ratio')
def saves(c=''): return ''.join("                if '%s' in tile.cells[resolution]:%s\n                    self._save_array(folderpath + '/cells_{}_%s'.format(resolution), tile.cells[resolution]['%s'])\n" % (l, '  # added in bathygrid 1.1.0' if l == 'density' else '', l, l) for l in LY)
def loads(): return ''.join("                if os.path.exists(folderpath + '/cells_{}_%s'.format(resolution)):%s\n                    tile.cells[resolution]['%s'] = self._load_array(folderpath + '/cells_{}_%s'.format(resolution))\n" % (l, '  # added in bathygrid 1.1.0' if l == 'density' else '', l, l) for l in LY)
REFACTORS += [
    ('C13', 'loop_save', K, saves(), "                for lyr in %r:\n                    if lyr in tile.cells[resolution]:\n                        self._save_array(os.path.join(folderpath, f'cells_{resolution}_{lyr}'), tile.cells[resolution][lyr])\n" % (LY,)),
    ('C13', 'loop_load', K, loads(), "                for lyr in %r:\n                    lyr_path = os.path.join(folderpath, f'cells_{resolution}_{lyr}')\n                    if os.path.exists(lyr_path):\n                        tile.cells[resolution][lyr] = self._load_array(lyr_path)\n" % (LY,)),
    ('C13', 'startswith', K, "if fldr[:4] == 'cell':", "if fldr.startswith('cell'):"),
    ('C13', 'set_res', K, "                if res not in resolutions:\n                    resolutions.append(res)\n        resolutions.sort()", "                resolutions.append(res)\n        resolutions = sorted(set(resolutions))"),
    ('C13', 'getattr', K, "data = {ky: tile.__getattribute__(ky) for ky in tile_desired_keys}", "data = {}\n        for ky in tile_desired_keys:\n            data[ky] = getattr(tile, ky)"),
    ('C13', 'setattr', K, "            tile.__setattr__(ky, data[ky])", "            setattr(tile, ky, data[ky])"),
    ('C13', 'compute', K, "            tmpdata = np.array(tile.data)\n            del tile.data\n            tile.data = tmpdata", "            tile.data = np.array(tile.data)"),
    ('C13', 'items', K, "            cellidx_resolutions = list(tile.cell_indices.keys())\n            for resolution in cellidx_resolutions:\n                tmpdata = np.array(tile.cell_indices[resolution])\n                del tile.cell_indices[resolution]\n                tile.cell_indices[resolution] = tmpdata", "            tile.cell_indices = {rz: np.array(idx) for rz, idx in tile.cell_indices.items()}"),
    ('C13', 'order', K, "                self._save_tile_metadata(tile, tile_folder)\n                self._save_tile_data(tile, tile_folder, only_points=only_points, only_grid=only_grid)", "                os.makedirs(tile_folder, exist_ok=True)\n                self._save_tile_data(tile, tile_folder, only_points=only_points, only_grid=only_grid)\n                self._save_tile_metadata(tile, tile_folder)"),
    ('C13', 'early', K, "                if self.tiles.flat[flat_index] is None:\n                    if self.sub_type", "                current = self.tiles.flat[flat_index]\n                if current is None:\n                    if self.sub_type"),
    ('C13', 'ranges', K, "                for cnt, tile in enumerate(self.tiles.flat):\n                    if progress_bar:\n                        print_progress_bar(cnt + 1, self.tiles.size, 'Saving to {}:'.format(os.path.split(folderpath)[1]))\n                    self._save_tile(tile, cnt)", "                flat_tiles = self.tiles.ravel()\n                for cnt in range(self.tiles.size):\n                    if progress_bar:\n                        print_progress_bar(cnt + 1, self.tiles.size, 'Saving to {}:'.format(os.path.split(folderpath)[1]))\n                    self._save_tile(flat_tiles[cnt], cnt)"),
    ('C13', 'fname', K, "tile_name = '{}_{}'.format(x, y)", "tile_name = f'{x}_{y}'"),
    ('C13', 'strjoin', K, "tile_name = '{}_{}'.format(x, y)", "tile_name = '_'.join([str(x), str(y)])"),
    ('C13', 'dumps', K, "            json.dump(data, fout, indent=4)", "            fout.write(json.dumps(data, indent=4))"),
    ('C13', 'flatset', K, "                        self.tiles[row][col] = newgrid if not newgrid.is_empty else None\n                    else:\n                        self.tiles[row][col] = None", "                        self.tiles[row, col] = None if newgrid.is_empty else newgrid\n                    else:\n                        self.tiles[row, col] = None"),
]

M, V = 'maingrid.py', 'convenience.py'
REFACTORS += [
    # --- round two: the parts the first round left out
    ('C01', 'tilesort', B, "point_mask = binnum == ul\n                pts = self.data[point_mask]", "pts = self.data[np.where(binnum == ul)[0]]"),
    ('C01', 'tilenone', B, "if flat_tiles[ul] is None:\n                    flat_tiles[ul] = self._build_tile(tilexorigin[ul], tileyorigin[ul])\n                    x, y = self._tile_idx_to_origin_point(ul)\n                    flat_tiles[ul].name = '{}_{}'.format(x, y)", "current = flat_tiles[ul]\n                if current is None:\n                    x, y = self._tile_idx_to_origin_point(ul)\n                    current = self._build_tile(x, y)\n                    current.name = f'{x}_{y}'\n                    flat_tiles[ul] = current"),
    ('C02', 'flat', A, "    grid[urow, ucol] = depth_mean\n", "    grid.flat[unique_indices] = depth_mean\n"),
    ('C02', 'ravel', A, "    grid[urow, ucol] = depth_mean\n    density_grid[urow, ucol] = ucounts\n", "    grid[urow, ucol] = depth_mean\n    density_grid.ravel()[unique_indices] = ucounts\n"),
    ('C02', 'stable', A, "    cell_sort = np.argsort(cell_indices)\n    unique_indices, uidx, ucounts = np.unique(cell_indices[cell_sort], return_index=True, return_counts=True)\n    urow, ucol = np.unravel_index(unique_indices, grid.shape)\n\n    depth_sum", "    cell_sort = np.argsort(cell_indices, kind='stable')\n    sorted_cells = cell_indices[cell_sort]\n    unique_indices, uidx, ucounts = np.unique(sorted_cells, return_index=True, return_counts=True)\n    urow, ucol = np.unravel_index(unique_indices, grid.shape)\n\n    depth_sum"),
    ('C02', 'loop', A, "    grid[urow, ucol] = depth_mean\n", "    for r, c, v in zip(urow, ucol, depth_mean):\n        grid[r, c] = v\n"),
    ('C02', 'inline', A, "        tvu_sum = np.add.reduceat(tvu[cell_sort], uidx, axis=0)\n        tvu_mean = tvu_sum / ucounts\n        tvu_grid[urow, ucol] = tvu_mean", "        tvu_grid[urow, ucol] = np.add.reduceat(tvu[cell_sort], uidx) / ucounts"),
    ('C02', 'helper', A, "def np_grid_mean(", "def _cell_means(values, order, starts, counts):\n    return np.add.reduceat(values[order], starts, axis=0) / counts\n\n\ndef np_grid_mean(") ,
    ('C02', 'roundout', T, "            self.cells[resolution][self.depth_key] = np.round(self.cells[resolution][self.depth_key], 3)\n            if vert_val.size > 0:\n                self.cells[resolution]['vertical_uncertainty'] = np.round(self.cells[resolution]['vertical_uncertainty'], 3)\n            if horiz_val.size > 0:\n                self.cells[resolution]['horizontal_uncertainty'] = np.round(self.cells[resolution]['horizontal_uncertainty'], 3)\n        else:\n            np_grid_mean", "            rounded = [self.depth_key]\n            if vert_val.size > 0:\n                rounded.append('vertical_uncertainty')\n            if horiz_val.size > 0:\n                rounded.append('horizontal_uncertainty')\n            for lyr in rounded:\n                self.cells[resolution][lyr] = np.round(self.cells[resolution][lyr], 3)\n        else:\n            np_grid_mean"),
    ('C02', 'full', T, "self.cells[resolution]['density'] = np.full(grid_shape, 0, dtype=int)\n            if self.data is not None and 'tvu'", "self.cells[resolution]['density'] = np.zeros(grid_shape, dtype=int)\n            if self.data is not None and 'tvu'"),
    ('C03', 'gather', A, "    depth_min = np.minimum.reduceat(depth[cell_sort], uidx, axis=0)\n", "    depth_min = depth[np.lexsort((depth, cell_indices))[uidx]]\n"),
    ('C03', 'always', A, "    depth_idx = None\n    if tvu_enabled or thu_enabled:\n        # index of the shoalest point in each cell, sorted by cell first then depth, so the first point in the cell is the shoalest\n        depth_sort = np.lexsort((depth, cell_indices))\n        depth_idx = depth_sort[uidx]\n", "    depth_idx = np.lexsort((depth, cell_indices))[uidx]\n"),
    ('C03', 'bool', A, "        tvu_shoalest = tvu[depth_idx]\n        tvu_grid[urow, ucol] = tvu_shoalest", "        tvu_grid[urow, ucol] = tvu[depth_idx]"),
    ('C04', 'search', G, "y_corner_coord = np.argwhere(tile_y_origin == self.tile_y_origin[0][0])[0][0]\n            x_corner_coord = np.argwhere(tile_x_origin == self.tile_x_origin[0][0])[0][1]", "y_corner_coord = np.where(tile_y_origin == self.tile_y_origin[0, 0])[0][0]\n            x_corner_coord = np.where(tile_x_origin == self.tile_x_origin[0, 0])[1][0]"),
    ('C04', 'zeros', G, "np.full(tile_x_origin.shape, False)", "np.zeros(tile_x_origin.shape, dtype=bool)"),
    ('C04', 'ext', G, "            if nearest_higher_x == self.max_x:  # higher value cant be equal, our binning relies on it being less than\n                nearest_higher_x += self.tile_size\n", "            if not nearest_higher_x > self.max_x:  # higher value cant be equal, our binning relies on it being less than\n                nearest_higher_x = nearest_higher_x + self.tile_size\n"),
    ('C04', 'floorplus', G, "            nearest_higher_x = np.ceil((self.max_x - self.origin_x) / self.tile_size) * self.tile_size + self.origin_x\n", "            nearest_higher_x = (np.floor((self.max_x - self.origin_x) / self.tile_size) + 1) * self.tile_size + self.origin_x\n"),
    ('C04', 'bins', U, "    base_indices = np.arange(xshape * yshape).reshape(yshape, xshape)\n", "    base_indices = np.arange(yshape * xshape).reshape((yshape, xshape))\n"),
    ('C04', 'arith', U, "    return base_indices[total_y_idx, total_x_idx]", "    return total_y_idx * xshape + total_x_idx"),
    ('C04', 'digit', U, "        total_x_idx.append(np.searchsorted(x_edges, x, side='right') - 1)", "        total_x_idx.append(np.digitize(x, x_edges) - 1)"),
    ('C06', 'delete', T, "            self.data = self.data[msk]\n            self.container.pop(container)", "            self.data = np.delete(self.data, np.arange(remove_start, remove_end))\n            self.container.pop(container)"),
    ('C06', 'concat', T, "self.cell_indices[resolution] = self.cell_indices[resolution][msk]", "old = self.cell_indices[resolution]\n                self.cell_indices[resolution] = np.concatenate([old[:remove_start], old[remove_end:]])"),
    ('C06', 'chunk', T, "chunk_size = msk[remove_start:remove_end].size", "chunk_size = remove_end - remove_start"),
    ('C06', 'unpack', T, "                if self.container[cont][0] >= remove_end:\n                    self.container[cont] = [self.container[cont][0] - chunk_size, self.container[cont][1] - chunk_size]", "                start, end = self.container[cont]\n                if start >= remove_end:\n                    self.container[cont] = [start - chunk_size, end - chunk_size]"),
    ('C06', 'guard', T, "        if container in self.container:\n            remove_start, remove_end = self.container[container]\n", "        if container not in self.container:\n            return\n        if True:\n            remove_start, remove_end = self.container[container]\n"),
    ('C07', 'fullminus', T, "self.cell_indices[resolution] = np.append(self.cell_indices[resolution], np.full(data.shape, -1))", "fresh = np.full(data.size, -1)\n                self.cell_indices[resolution] = np.concatenate([self.cell_indices[resolution], fresh])"),
    ('C07', 'helper', T, "    def clear_points(self):", "    def _reset_points(self):\n        self.cell_indices = {}\n        self.container = {}\n        self.data = None\n\n    def clear_points(self):"),
    ('C07', 'hyp', T, "                if lyr in self.cells[resolution]:\n                    if lyr == 'hypothesis_count':\n                        self.cells[resolution][lyr] = np.full(self.cells[resolution][lyr].shape, 0, dtype=int)\n                    else:\n                        self.cells[resolution][lyr] = np.full(self.cells[resolution][lyr].shape, np.nan, dtype=np.float32)", "                if lyr not in self.cells[resolution]:\n                    continue\n                lyr_shape = self.cells[resolution][lyr].shape\n                if lyr == 'hypothesis_count':\n                    self.cells[resolution][lyr] = np.zeros(lyr_shape, dtype=int)\n                else:\n                    self.cells[resolution][lyr] = np.full(lyr_shape, np.nan, dtype=np.float32)"),
    ('C07', 'masked', T, "            new_points = self.cell_indices[resolution] == -1\n", "            new_points = self.cell_indices[resolution] < 0\n"),
    ('C10', 'where', T, "range_index = np.argmax((np.array(dpth_keys) - self.mean_depth) > 0)", "range_index = np.argmax(np.array(dpth_keys) > self.mean_depth)"),
    ('C10', 'first', T, "        if self.mean_depth >= dpth_keys[-1]:  # deeper than all of the depth bands, use the coarsest resolution\n            range_index = len(dpth_keys) - 1\n", "        if not (np.array(dpth_keys) > self.mean_depth).any():\n            range_index = -1\n"),
    ('C10', 'loop', T, "        calc_resolution = depth_resolution_lookup[dpth_keys[range_index]]\n", "        calc_resolution = list(depth_resolution_lookup.values())[range_index]\n"),
    ('C10', 'ternary', T, "        clipped_rez = min(self.width, calc_resolution)\n", "        clipped_rez = calc_resolution if calc_resolution < self.width else self.width\n"),
    ('C12', 'mult', B, "data_col, data_row = row_number * tile_cell_count, column_number * tile_cell_count", "data_col = tile_cell_count * row_number\n        data_row = tile_cell_count * column_number"),
    ('C14', 'guard', K, "os.makedirs(folderpath, exist_ok=True)", "if not os.path.isdir(folderpath):\n            os.makedirs(folderpath)"),
    ('C05', 'unpack', B, "            if self.is_empty:\n                self.tiles = None\n                self.resolutions = []\n            else:", "            empty_now = self.is_empty\n            if empty_now:\n                self.resolutions = []\n                self.tiles = None\n            else:"),
    ('C05', 'notin', B, "        if container_name in self.container:\n            self.container.pop(container_name)\n            self.container_timestamp.pop(container_name)\n", "        if container_name in self.container:\n            del self.container[container_name]\n            del self.container_timestamp[container_name]\n"),
    ('C05', 'rzloop', B, "                self.resolutions = [rz for rz in self.resolutions if any(rz in tile.resolutions for tile in self.tiles.flat if tile)]\n", "                kept = []\n                for rz in self.resolutions:\n                    if any(rz in tile.resolutions for tile in self.tiles.flat if tile):\n                        kept.append(rz)\n                self.resolutions = kept\n"),
    ('C08', 'errpath', B, "        except Exception:  # rejected data must not be retained\n            self.data = None\n            raise\n", "        except Exception as err:  # rejected data must not be retained\n            self.data = None\n            raise err\n"),
    ('C08', 'isin', B, "        if isinstance(data, (Array, xr.Dataset)):\n            data = data.compute()\n        if container_name in self.container:\n            raise ValueError('{} is already within this bathygrid instance, remove_points first if you want to replace this data'.format(container_name))\n", "        if container_name in self.container:\n            raise ValueError('{} is already within this bathygrid instance, remove_points first if you want to replace this data'.format(container_name))\n        if isinstance(data, (Array, xr.Dataset)):\n            data = data.compute()\n"),
    ('C16', 'setlist', G, "                new_uentry, linename = ky.split('__')\n                if new_uentry not in uentry:\n                    uentry.append(new_uentry)", "                new_uentry, linename = ky.split('__')\n                if new_uentry in uentry:\n                    continue\n                uentry.append(new_uentry)"),
    ('C18', 'notinst', T, "        try:\n            data = np.copy(self.cells[resolution][layer].compute())\n        except:\n            data = np.copy(self.cells[resolution][layer])\n", "        stored = self.cells[resolution][layer]\n        if isinstance(stored, darray):\n            stored = stored.compute()\n        data = np.copy(stored)\n"),
    ('C18', 'all', T, "        if np.count_nonzero(np.isnan(data)) == data.size:\n            return None\n        if layer.lower() == 'depth' and z_positive_up:", "        if np.isnan(data).all():\n            return None\n        if layer.lower() == 'depth' and z_positive_up:"),
    ('C18', 'neg', T, "            data = data * -1\n", "            data = -data\n"),
    ('C18', 'where', T, "            data[np.isnan(data)] = nodatavalue\n        return data\n\n    def return_layer", "            data = np.where(np.isnan(data), nodatavalue, data)\n        return data\n\n    def return_layer"),
    ('C18', 'xor', B, "        if self.positive_up:\n            if z_positive_up:  # this is already positive up/height, so switch this off\n                z_positive_up = False\n            else:  # this is a positive up/height, so switch this on to flip the z convention of the returned data\n                z_positive_up = True\n\n        tile = self.tiles[row_number, column_number]", "        if self.positive_up:\n            z_positive_up = not z_positive_up\n\n        tile = self.tiles[row_number, column_number]"),
    ('C20', 'early', V, "    if os.path.isdir(folder_path):\n        subfolders = os.listdir(folder_path)\n        for fldr in subfolders:\n            if fldr in allowable_grid_root_names:\n                return True\n    return False", "    if not os.path.isdir(folder_path):\n        return False\n    return any(fldr in allowable_grid_root_names for fldr in os.listdir(folder_path))"),
    ('C20', 'table', V, "    if root_name == 'SRGrid_Root':\n        grid_class = SRGrid()\n    elif root_name == 'VRGridTile_Root':\n        grid_class = VRGridTile()\n    elif root_name == 'SRGridZarr_Root':\n        grid_class = SRGridZarr()\n    elif root_name == 'VRGridTileZarr_Root':\n        grid_class = VRGridTileZarr()\n    else:\n        raise NotImplementedError('{} is not a valid grid type'.format(root_name))\n", "    classes = {'SRGrid_Root': SRGrid, 'VRGridTile_Root': VRGridTile, 'SRGridZarr_Root': SRGridZarr, 'VRGridTileZarr_Root': VRGridTileZarr}\n    if root_name not in classes:\n        raise NotImplementedError('{} is not a valid grid type'.format(root_name))\n    grid_class = classes[root_name]()\n"),
    ('C20', 'order', V, "    if not is_power_of_two(tile_size):\n        raise ValueError('Tile size {} must be a power of two'.format(tile_size))\n    if grid_type == 'variable_resolution_tile' and not is_power_of_two(subtile_size):\n        raise ValueError('Sub tile size {} must be a power of two'.format(subtile_size))\n", "    if grid_type == 'variable_resolution_tile' and not is_power_of_two(subtile_size):\n        raise ValueError('Sub tile size {} must be a power of two'.format(subtile_size))\n    if not is_power_of_two(tile_size):\n        raise ValueError('Tile size {} must be a power of two'.format(tile_size))\n"),
    ('C20', 'kw', V, "    if grid_type == 'single_resolution':\n        if grid_backend == 'numpy':\n            grid_class = SRGrid(output_folder=folderpath, tile_size=tile_size, is_backscatter=is_backscatter)\n        else:\n            grid_class = SRGridZarr(output_folder=folderpath, tile_size=tile_size, is_backscatter=is_backscatter)\n", "    common = dict(output_folder=folderpath, tile_size=tile_size, is_backscatter=is_backscatter)\n    if grid_type == 'single_resolution':\n        chosen = SRGrid if grid_backend == 'numpy' else SRGridZarr\n        grid_class = chosen(**common)\n"),
    ('C21', 'direct', B, "        # right\n        try:\n            tils.append(self.tiles[til_row, til_column + 1][0])\n        except:\n            tils.append(None)\n", "        # right\n        if til_row.size == 1 and til_column[0] + 1 < self.tiles.shape[1]:\n            tils.append(self.tiles[til_row[0], til_column[0] + 1])\n        else:\n            tils.append(None)\n"),
    ('C21', 'buffer', B, "        if tils[0]:\n            if isinstance(tils[0], Tile):  # single resolution option\n                newdata = tils[0].data[tils[0].data['y'] >= (tils[0].max_y - buffer_value)]\n                data.append(newdata)", "        above = tils[0]\n        if above:\n            if isinstance(above, Tile):  # single resolution option\n                close = above.data['y'] >= above.max_y - buffer_value\n                data.append(above.data[close])"),
    ('C11', 'npwhere', B, "            no_values_yet = np.isnan(layer_values)\n", "            no_values_yet = layer_values != layer_values\n", 'query_depth'),
]

if __name__ == '__main__':
    from concurrent.futures import ThreadPoolExecutor
    a = sys.argv[1:]; j = 4
    if a[:1] == ['-j']: j = int(a[1]); a = a[2:]
    todo = [m for m in REFACTORS if not a or m[0] in a or m[1] in a]; n = 0
    with ThreadPoolExecutor(j) as ex:
        for r in ex.map(selftest.run, todo):
            w = 'REFUTED' if r[2] == 'refuted' else r[2] if r[2] != 'NOT REFUTED' else 'undecided' if r[3] else 'proved'; n += w in ('proved', 'undecided'); print('%-4s %-22s %-12s %s' % (r[0], r[1], w, r[3]), flush=True)
    print('%d of %d quiet' % (n, len(todo)))
