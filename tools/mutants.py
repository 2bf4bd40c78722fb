B, T, G, A, U = 'bgrid.py', 'tile.py', 'grids.py', 'algorithms.py', 'utilities.py'
# (property, name, file, old text, new text[, contract[, every occurrence]])
MUTANTS = [
    ('C05', 'mask_ge', B, 'point_mask = binnum == ul', 'point_mask = binnum >= ul', 'adding'),
    ('C05', 'skip_first', B, 'for cnt, ul in enumerate(unique_locs):', 'for cnt, ul in enumerate(unique_locs[1:]):', 'adding'),
    ('C05', 'swap_xy', B, "bin2d_with_indices(self.data['x'], self.data['y'], self.tile_edges_x", "bin2d_with_indices(self.data['y'], self.data['x'], self.tile_edges_x", 'adding'),
    ('C05', 'always_new', B, 'if flat_tiles[ul] is None:', 'if True:', 'adding'),
    ('C05', 'wrong_place', B, 'self._build_tile(tilexorigin[ul], tileyorigin[ul])', 'self._build_tile(tilexorigin[cnt], tileyorigin[ul])', 'adding'),
    ('C05', 'count_off', B, 'self.number_of_tiles = np.count_nonzero(self.tiles != None)', 'self.number_of_tiles = len(unique_locs)', 'adding'),
    ('C05', 'save_cnt', B, 'self._save_tile(flat_tiles[ul], ul, only_points=True)', 'self._save_tile(flat_tiles[ul], cnt, only_points=True)', 'adding'),
    ('C05', 'stop_early', B, '                        if tile.is_empty:\n                            self._remove_tile(cnt)', '                        if tile.is_empty:\n                            self._remove_tile(cnt)\n                            break', 'removing'),
    ('C05', 'not_counted', B, '            self.number_of_tiles -= 1\n', '', 'removing'),
    ('C05', 'mask_kept', B, '                self.existing_tile_mask.flat[flat_index] = False', '                pass', 'removing'),
    ('C05', 'rez_all', B, 'if any(rz in tile.resolutions for tile', 'if all(rz in tile.resolutions for tile', 'removing'),
    ('C05', 'keeps_empty', B, '                        if tile.is_empty:\n                            self._remove_tile(cnt)', '                        if tile.is_empty and cnt:\n                            self._remove_tile(cnt)', 'removing'),
    ('C08', 'always_skip', B, 'if not tile.point_count_changed:', 'if not tile.point_count_changed or cnt == 7:', 'any number'),
    ('C08', 'break_skip', B, '                                    self.resolutions.append(rz)\n                            continue', '                                    self.resolutions.append(rz)\n                            break', 'any number'),
    ('C08', 'forget_rez', B, '                            for rz in tile.resolutions:\n                                if rz not in self.resolutions:\n                                    self.resolutions.append(rz)\n                            continue', '                            continue', 'any number'),
    ('C08', 'sticky_clear', B, '                clear_tile = clear_existing\n', '                clear_tile = False\n', 'any number'),
    ('C08', 'no_clear', B, '                        clear_tile = True  # If', '                        clear_tile = clear_existing  # If', 'any number'),
    ('C08', 'sub_rez', B, 'isinstance(tile, SRTile) and auto_resolution and self.name not in sr_grid_root_names', 'isinstance(tile, SRTile) and auto_resolution and self.name in sr_grid_root_names', 'any number'),
    ('C08', 'save_points', B, 'self._save_tile(tile, cnt, only_grid=True)\n                self._load_tile(cnt, only_grid=True)\n        self.resolutions', 'self._save_tile(tile, cnt, only_points=True)\n                self._load_tile(cnt, only_grid=True)\n        self.resolutions', 'any number'),
    ('C08', 'rez_kept', B, '        self.resolutions = []\n\n        if use_dask', '        if use_dask', 'gridding a grid'),
    ('C08', 'last_rez', B, '                for rz in rez:\n                    if rz not in self.resolutions:\n', '                for rz in rez:\n                    if rz not in self.resolutions or len(self.resolutions) > 3:\n                        self.resolutions = []\n', 'any number'),
    ('C08', 'first_tile', B, '                    if tile.point_count_changed:\n                        return True', '                    return bool(tile.point_count_changed)', 'counts as changed'),
    ('C08', 'auto_given', B, "if resolution is None:\n            auto_resolution = auto_res", "if not resolution or resolution > 64:\n            auto_resolution = auto_res", 'gridding a grid'),
    ('C08', 'flag_kept', T, '        self.point_count_changed = False\n        return resolution', '        self.point_count_changed = self.point_count_changed and clear_existing\n        return resolution', 'makes a tile'),
    ('C14', 'idx_kept', B, '                    tile_indices = []\n                    data_for_workers = []', '                    data_for_workers = []', 'whole grid, full'),
    ('C14', 'no_last', B, '        if data_for_workers:\n', '        if len(data_for_workers) > 1:\n', 'whole grid, full'),
    ('C14', 'idx_before', B, "                if self.sub_type in ['srtile', 'quadtile']:\n                    self._load_tile_data_to_memory(tile)\n                tile_indices.append(cnt)", "                if self.sub_type in ['srtile', 'quadtile']:\n                    self._load_tile_data_to_memory(tile)\n                tile_indices.append(len(tile_indices))", 'whole grid, full'),
    ('C14', 'worker_rez', B, "elif isinstance(tile, SRTile) and auto_resolution and grid_name not in", "elif isinstance(tile, SRTile) and auto_resolution and grid_name in", 'a worker grids'),
    ('C14', 'worker_clear', B, "self.name, self.grid_parameters, border_data]", "self.name, None, border_data]", 'a worker grids'),
    ('C14', 'entry_clear', B, "[tile, algorithm, resolution, clear_tile, ", "[tile, algorithm, resolution, clear_existing, ", 'a worker grids'),
    ('C14', 'place', B, "self.tiles.flat[tidx] = result_tile", "self.tiles.flat[tidx] = tiles[0]", 'results of'),
    ('C14', 'save_place', B, "self._save_tile(result_tile, tidx, only_grid=True)", "self._save_tile(result_tile, tile_indices[0], only_grid=True)", 'results of'),
    ('C14', 'rez_once', B, "        for rez in resolutions:\n            if rez not in self.resolutions:", "        for rez in resolutions:\n            if rez in self.resolutions:", 'results of'),
    ('C09', 'swap_rc', B, 'data[lyr_cnt][data_col:data_col + tile_cell_count, data_row:data_row + tile_cell_count] = newdata[lyr]', 'data[lyr_cnt][data_row:data_row + tile_cell_count, data_col:data_col + tile_cell_count] = newdata[lyr]', 'mosaic of depth, s'),
    ('C09', 'one_layer', B, 'data[lyr_cnt][data_col:', 'data[0][data_col:', 'mosaic of depth, density, s'),
    ('C09', 'empty_first', B, "= newdata[lyr]\n                        empty = False", "= newdata[lyr]\n                        empty = lyr_cnt > 0", 'mosaic of depth, density, s'),
    ('C09', 'stop_missing', B, '                    if lyr in newdata:  # layers', '                    if lyr not in newdata:\n                        break\n                    if lyr in newdata:  # layers', 'mosaic of depth, density, s'),
    ('C09', 'no_nodata', B, '_build_layer_grid(resolution, layername=lyr, nodatavalue=nodatavalue) for lyr', '_build_layer_grid(resolution, layername=lyr) for lyr', 'mosaic of depth, single resolution, no'),
    ('C09', 'sign_lost', B, 'self.get_tile_data(row, col, resolution, layer, nodatavalue, z_positive_up)\n                for', 'self.get_tile_data(row, col, resolution, layer, nodatavalue)\n                for', 'mosaic of depth, single'),
    ('C09', 'size_swap', B, 'y_size = self.height / resolution', 'y_size = self.width / resolution', 'mosaic of depth, single'),
    ('C17', 'cells_max', B, 'final_count[rez] += tcell[rez]', 'final_count[rez] = max(final_count[rez], tcell[rez])', 'cell count at'),
    ('C17', 'cells_last', B, 'if rez in final_count:\n                            final_count[rez] += tcell[rez]', 'if rez in final_count and len(tcell) == 1:\n                            final_count[rez] += tcell[rez]', 'cell count at'),
    ('C17', 'one_rez', T, "density_count.extend(density[density > 0].tolist())", "density_count = density[density > 0].tolist()", 'density_count of exactly'),
    ('C17', 'dens_one', T, "density_count.extend(density[density > 0].tolist())", "density_count.extend(density[density > 1].tolist())", 'density_count of exactly'),
    ('C17', 'rez_lin', T, "density_per_meter.extend((density[density > 0] / (rez ** 2)).tolist())", "density_per_meter.extend((density[density > 0] / rez).tolist())", 'density_per_square_meter of exactly'),
    ('C17', 'pair_nan', T, "msk = density > 0\n            density_per_meter.extend(density[msk].tolist())", "msk = ~np.isnan(depth)\n            density_per_meter.extend(density[density > 0].tolist())", 'density_count_vs_depth of exactly'),
    ('C17', 'nan_kept', T, 'layer_values.extend(lvalues[~np.isnan(lvalues)].tolist())', 'layer_values.extend(lvalues[lvalues > 0].tolist())', 'values of depth'),
    ('C17', 'zero_kept', T, 'layer_values.extend(lvalues[lvalues != nodatavalue].tolist())', 'layer_values.extend(lvalues[lvalues > nodatavalue + 1].tolist())', 'values of density'),
    ('C17', 'area_all', T, 'density[density > 0].size * (rez ** 2)', 'density.size * (rez ** 2)', 'coverage area'),
    ('C17', 'area_km', T, '(rez ** 2), 3)', '(rez ** 2), 0)', 'coverage area'),
    ('C17', 'cells_all', T, 'np.count_nonzero(~np.isnan(self.cells[rez][first_key]))', 'self.cells[rez][first_key].size', 'tile: cell count'),
    ('C17', 'weights', B, 'tile.mean_depth * tile.points_count', 'tile.mean_depth', 'grid: mean depth'),
    ('C15', 'start_lost', B, 'tile.resolution_by_density(starting_resolution)', 'tile.resolution_by_density()', 'coarsest'),
    ('C15', 'coarse_first', B, '                    rez_options.append(tile_rez)', '                    rez_options = [tile_rez]', 'coarsest'),
    ('C22', 'swap_rc', A, 'x_slope_grid[row, col] = fit[0][0]', 'x_slope_grid[col, row] = fit[0][0]', 'every cell'),
    ('C22', 'no_sort', A, 'y_split = np.split(y[cell_sort], uidx)[1:]', 'y_split = np.split(y, uidx)[1:]', 'every cell'),
    ('C22', 'wrong_fit', A, 'y_slope_grid[row, col] = fit[1][0]', 'y_slope_grid[row, col] = fit[2][0]', 'every cell'),
    ('C22', 'few_points', A, '        x_slope_grid[row, col] = fit[0][0]', '        if x_cell.shape[0] < 3:\n            continue\n        x_slope_grid[row, col] = fit[0][0]', 'every cell'),
    ('C22', 'stale', T, "    def _run_slopes(self, resolution: float):", "    def _run_slopes(self, resolution: float):\n        if 'y_slope' in self.cells[resolution]:\n            self.cells[resolution]['x_slope'] = self.cells[resolution]['y_slope']", 'fitted before'),
    ('C22', 'keep_y', T, "if 'y_slope' in self.cells[resolution]:\n                self.cells[resolution].pop('y_slope')", "if 'y_slope' in self.cells[resolution] and self.point_count_changed:\n                self.cells[resolution].pop('y_slope')", 'tile: '),
    ('C22', 'edge_swap', T, "cindx, cedgex, cedgey, visualize", "cindx, cedgey, cedgex, visualize", 'not fitted'),
    ('C11', 'right', B, 'digitized_x = np.digitize(query_x_loc, surf_x)', 'digitized_x = np.digitize(query_x_loc, surf_x, right=True)', 'query_depth'),
    ('C11', 'last_col', B, "+ (digitized_x == len(surf_x))", "+ (digitized_x == len(surf_x) - 1)", 'query_depth'),
    ('C11', 'x_loc_all', B, "query_x_loc = x_loc[no_values_yet]", "query_x_loc = x_loc[:np.count_nonzero(no_values_yet)]", 'query_depth'),
    ('C11', 'not_finest', B, "if not no_values_yet.any():  # we have", "if False:  # we have", 'query_density_n'),
    ('C11', 'stop_some', B, "if not no_values_yet.any():", "if not no_values_yet.all():", 'query_depth'),
    ('C11', 'index', B, "np.arange(layer_values.size)[no_values_yet][in_bounds_idx]", "np.arange(layer_values.size)[in_bounds_idx]", 'query_depth'),
    ('C11', 'stop_out', B, "            elif out_of_bounds_idx.size:\n                continue", "            elif out_of_bounds_idx.size:\n                break", 'query_depth'),
    ('C11', 'zero', B, "if layer in ['density', 'hypothesis_count']:  # zero", "if layer in ['hypothesis_count']:  # zero", 'query_density'),
    ('C11', 'coarse', B, "query_resolution = sorted(\n                self.resolutions)", "query_resolution = sorted(self.resolutions, reverse=True)", 'query_depth'),
    ('C11', 'nan_only', B, "                no_values_yet = layer_values == nodatavalue\n", "                no_values_yet = np.isnan(layer_values)\n", 'query_depth'),
    ('C12', 'split_floor', B, 'num_sections = int(np.ceil(arr.shape[0] / chunk_shape[0]))', 'num_sections = max(int(arr.shape[0] / chunk_shape[0]), 1)', 'sections of'),
    ('C12', 'col_sections', B, 'num_col_sections = int(np.ceil(row_split[0].shape[1] / chunk_shape[1]))', 'num_col_sections = int(np.ceil(row_split[0].shape[0] / chunk_shape[1]))', 'sections of'),
    ('C12', 'one_valid', B, '                if valid.any():\n                    chnks', '                if valid.any() and split_b.shape[0] < 100:\n                    chnks', 'sections of'),
    ('C12', 'one_all', B, 'valid = arr != None\n            if valid.any()', 'valid = arr != None\n            if valid.all()', 'sections of'),
    ('C12', 'first_shape', B, 'if chunk_shape[0] >= arr.shape[0] and chunk_shape[1] >= arr.shape[1]:', 'if chunk_shape[0] >= arr.shape[0] or chunk_shape[1] >= arr.shape[1]:', 'sections of'),
    ('C12', 'no_last', B, 'tindex = tindex[min_tile_row:max_tile_row + 1, min_tile_column:max_tile_column + 1]', 'tindex = tindex[min_tile_row:max_tile_row + 1, min_tile_column:max(max_tile_column, min_tile_column + 1)]', 'table of'),
    ('C12', 'ceil_len', B, 'max_length = max(int(np.floor(max_chunk_dimension', 'max_length = max(int(np.ceil(max_chunk_dimension', 'table of'),
    ('C12', 'swapped', B, 'np.column_stack(tloc).tolist()', 'np.column_stack(tloc[::-1]).tolist()', 'table of'),
    ('C12', 'first_tile', B, 'min_tile_row, min_tile_column = min(tile_rows), min(tile_columns)', 'min_tile_row, min_tile_column = min(tile_rows), tile_columns[0]', 'table of'),
    ('C12', 'geo_first', B, 'min([curgeo[0], geo[0]])', 'curgeo[0]', 'chunks of tiles'),
    ('C12', 'geo_min', B, 'max([curgeo[3], geo[3]])', 'min([curgeo[3], geo[3]])', 'chunks of tiles'),
    ('C12', 'any_empty', B, 'if all([d == {} for d in curdata])', 'if any([d == {} for d in curdata])', 'chunks of tiles'),
    ('C12', 'no_fliplr', B, 'finaldata[lyr] = np.fliplr(finaldata[lyr].T)', 'finaldata[lyr] = np.flipud(finaldata[lyr].T)', 'chunk array'),
    ('C12', 'min_first', B, 'mincol = min(column_indices)', 'mincol = column_indices[0]', 'chunk array'),
    ('C12', 'nodata_zero', B, """                except ValueError:
                    lyr_nodatavalue = 0
            else:""", """                except ValueError:
                    lyr_nodatavalue = 1
            else:""", 'chunk array'),
    ('C12', 'data_cnt', B, 'if lyr in data:\n                    finaldata', 'if lyr in data and lyr in layerdata[0]:\n                    finaldata', 'chunk array'),
    ('C12', 'rowcol', B, 'data_col, data_row = row_number * tile_cell_count, column_number * tile_cell_count', 'data_row, data_col = row_number * tile_cell_count, column_number * tile_cell_count', 'one tile'),
    ('C12', 'sign', B, "        if self.positive_up:\n            if z_positive_up:  # this", "        if False:\n            if z_positive_up:  # this", 'one tile'),
    ('C19', 'csv_sort_y', B, "sortidx = np.argsort(dataset[0])\n            np.savetxt(resfile, np.stack([d[sortidx] for d in dataset]", "sortidx = np.argsort(dataset[0])\n            np.savetxt(resfile, np.stack(dataset[:1] + [d[sortidx] for d in dataset[1:]]", 'csv of'),
    ('C19', 'csv_swap', B, "dataset = [xx.ravel(), yy.ravel()]", "dataset = [xx.ravel(), yy.T.ravel()]", 'csv of'),
    ('C19', 'csv_sign', B, "if self.mean_depth > 0 or self.positive_up:  # currently", "if self.mean_depth > 0:  # currently", 'csv of'),
    ('C19', 'csv_bounds', B, "self.return_surf_xyz(lyrs, res, False)", "self.return_surf_xyz(lyrs, res, True)", 'csv of'),
    ('C19', 'csv_first', B, "dataset += [lyrdata[cnt].ravel()]", "dataset += [lyrdata[min(cnt, 2)].ravel()]", 'csv of'),
    ('C19', 'csv_fmt', B, "dfmt += ['%.3f']", "dfmt += ['%.1f']", 'csv of'),
    ('C19', 'csv_name', B, "lname = 'elevation'", "lname = 'elevation' if self.mean_depth > 0 else 'depth'", 'csv of'),
    ('C19', 'tif_names', B, "finalnames = [lyrtranslator[lname] for lname in layernames]\n        if not self", "finalnames = sorted(lyrtranslator[lname] for lname in layernames)\n        if not self", 'geotiff of'),
    ('C19', 'tif_count', B, "gdal_raster_create(resfile, data, geo_transform, self.epsg, nodatavalue=nodatavalue, bandnames=finalnames, driver='GTiff')\n                chunk_count += 1", "gdal_raster_create(resfile, data, geo_transform, self.epsg, nodatavalue=nodatavalue, bandnames=finalnames, driver='GTiff')\n                chunk_count = 2", 'geotiff of'),
    ('C19', 'tif_dim', B, "for geo_transform, maxdim, data in self.get_chunks_of_tiles(resolution=res, layer=layernames, override_maximum_chunk_dimension=override_maximum_chunk_dimension,", "for geo_transform, maxdim, data in self.get_chunks_of_tiles(resolution=resolutions[0], layer=layernames, override_maximum_chunk_dimension=override_maximum_chunk_dimension,", 'geotiff of'),
    ('C19', 'tif_total', B, "if lname in ['depth', 'vertical_uncertainty', 'total_uncertainty']]\n        finalnames = [lyrtranslator[lname] for lname in layernames]\n        if not", "if lname in ['depth', 'vertical_uncertainty']]\n        finalnames = [lyrtranslator[lname] for lname in layernames]\n        if not", 'geotiff of'),
    ('C19', 'gdal_nd', U, "dataset.GetRasterBand(1).SetNoDataValue(nodatavalue)", "dataset.GetRasterBand(1).SetNoDataValue(float(int(nodatavalue)))", 'geotiff of'),
    ('C19', 'gdal_bag', U, "if driver != 'GTiff':\n            rband", "if driver == 'MEM':\n            rband", 'bands'),
    ('C19', 'gdal_first', U, "rband.WriteArray(d)", "rband.WriteArray(data[0])", 'bands'),
    ('C19', 'gdal_size', U, "rows, cols = data[0].shape", "cols, rows = data[0].shape", 'bands'),
    ('C19', 'exp_ext', B, "fmt_ext = {'csv': '.csv', 'geotiff': '.tif', 'bag': '.bag'}.get(fmt, filext)", "fmt_ext = filext.upper()", 'export as'),
    ('C19', 'exp_exists', B, "if os.path.exists(output_path) or glob.glob(exported):", "if os.path.exists(output_path):", 'export as'),
    ('C19', 'exp_up', B, "self._export_geotiff(output_path, z_positive_up=z_positive_up, resolution=resolution,", "self._export_geotiff(output_path, resolution=resolution,", 'export as'),
    ('C19', 'exp_bag', B, "if self.is_backscatter:\n                raise ValueError('Bathygrid: Cannot generate BAG", "if self.is_backscatter and z_positive_up:\n                raise ValueError('Bathygrid: Cannot generate BAG", 'export as'),
]
K = 'backends.py'
MUTANTS += [
    ('C13', 'stale_cells', K, "                if fldr[:4] == 'cell':\n                    remove_with_permissionserror(os.path.join(folderpath, fldr))", "                pass"),
    ('C13', 'no_memory', K, "                self._load_tile_data_to_memory(tile, only_points=only_points, only_grid=only_grid)\n", ""),
    ('C13', 'no_clear', K, "            if tile is None:\n                self._clear_tile(tile_folder)", "            if tile is None:\n                pass"),
    ('C13', 'int_res', K, "res = float(sections[1])", "res = round(float(sections[1]), 2)"),
    ('C13', 'not_removed', K, "        remove_with_permissionserror(arr_path)\n        data = self._zarrgrid_todask(arr)", "        data = self._zarrgrid_todask(arr)"),
    ('C13', 'no_indices', K, "        for resolution in tile.cell_indices.keys():", "        for resolution in tile.cells.keys() if not only_points else []:"),
    ('C13', 'hc', K, "if os.path.exists(folderpath + '/cells_{}_hypothesis_count'.format(resolution)):", "if os.path.exists(folderpath + '/cells_{}_hypothesis_ratio'.format(resolution)):"),
    ('C13', 'edges', K, "self._save_array(folderpath + '/cell_edges_y_{}'.format(resolution), tile.cell_edges_y[resolution])", "self._save_array(folderpath + '/cell_edges_y_{}'.format(resolution), tile.cell_edges_x[resolution])"),
    ('C13', 'key', 'grid_variables.py', "'point_count_changed', 'is_backscatter']", "'is_backscatter']"),
    ('C13', 'gridkey', 'grid_variables.py', "'is_backscatter', 'grid_parameters']", "'is_backscatter']"),
    ('C13', 'tileint', K, "            data[ky] = float(data[ky])\n        for ky in data:\n            tile", "            data[ky] = float(int(data[ky]))\n        for ky in data:\n            tile"),
    ('C13', 'emptysub', K, "newgrid if not newgrid.is_empty else None", "newgrid"),
    ('C13', 'rowcol', K, "self.tiles[row][col] = newgrid if", "self.tiles[col][row] = newgrid if"),
    ('C13', 'save_index', K, "self._save_tile(tile, cnt)", "self._save_tile(tile, cnt, only_grid=cnt > 0)"),
    ('C13', 'not_cleared', K, "                    if subgrid is None:\n                        self._clear_tile(subgrid_folder)", "                    if subgrid is None:\n                        continue"),
    ('C13', 'name_x', K, "tile_name = '{}_{}'.format(x, y)", "tile_name = '{}_{}'.format(x, x)"),
    ('C13', 'name_short', K, "tile_name = '{}_{}'.format(x, y)", "tile_name = '{:.0f}_{:.0f}'.format(x, y)"),
    ('C13', 'stored', K, "                if self.storage_type == 'numpy':", "                if self.storage_type != 'zarr2':"),
    ('C13', 'folder_kept', K, "        if 'output_folder' in data:\n            data.pop('output_folder')", "        pass"),
    ('C13', 'empty_marker', K, "        elif arr.size == 0:", "        elif arr.size == 1:"),
    ('C13', 'load_none', K, "            else:\n                self.tiles.flat[flat_index] = None", "            else:\n                pass"),
    ('C13', 'removed_partly', 'utilities.py', "                rmtree(folderpath)\n                return\n", "                return\n"),
]
