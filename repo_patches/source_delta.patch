From 99c01bb298c3fba1ecded00d1b667e0d10226198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:23 +0000
Subject: [PATCH 01/30] fix: use int instead of the removed np.int alias for
 integer layer nodata values

---
 bathygrid/bgrid.py | 4 ++--
 bathygrid/tile.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 1392517..3b4b34b 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -506,7 +506,7 @@ class BathyGrid(BaseGrid):
         elif layername in ['density', 'hypothesis_count']:
             # density has to have an integer based nodatavalue
             try:
-                nodatavalue = np.int(nodatavalue)
+                nodatavalue = int(nodatavalue)
             except ValueError:
                 nodatavalue = 0
         y_size = self.height / resolution
@@ -1040,7 +1040,7 @@ class BathyGrid(BaseGrid):
             elif lyr in ['density', 'hypothesis_count']:
                 # density has to have an integer based nodatavalue
                 try:
-                    nodatavalue = np.int(nodatavalue)
+                    nodatavalue = int(nodatavalue)
                 except ValueError:
                     nodatavalue = 0
             finaldata[lyr] = np.full((max(curdcol) + cells_per_tile, max(curdrow) + cells_per_tile), nodatavalue)
diff --git a/bathygrid/tile.py b/bathygrid/tile.py
index 5f44f47..990b734 100644
--- a/bathygrid/tile.py
+++ b/bathygrid/tile.py
@@ -799,7 +799,7 @@ class SRTile(Tile):
         elif layer in ['density', 'hypothesis_count']:
             # density has to have an integer based nodatavalue
             try:
-                nodatavalue = np.int(nodatavalue)
+                nodatavalue = int(nodatavalue)
             except ValueError:
                 nodatavalue = 0
         else:
-- 
2.43.0


From 3158e15eb3fd515505112602697ba13892d3bdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:23 +0000
Subject: [PATCH 02/30] fix: shoalest uncertainty must come from the shoalest
 point of the same cell

---
 bathygrid/algorithms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bathygrid/algorithms.py b/bathygrid/algorithms.py
index c08d628..53de1cb 100644
--- a/bathygrid/algorithms.py
+++ b/bathygrid/algorithms.py
@@ -123,8 +123,9 @@ def np_grid_shoalest(depth: np.array, cell_indices: np.array, grid: np.ndarray,
 
     depth_idx = None
     if tvu_enabled or thu_enabled:
-        depth_sort = np.argsort(depth)
-        depth_idx = np.searchsorted(depth[depth_sort], depth_min)
+        # index of the shoalest point in each cell, sorted by cell first then depth, so the first point in the cell is the shoalest
+        depth_sort = np.lexsort((depth, cell_indices))
+        depth_idx = depth_sort[uidx]
     if tvu_enabled:
         tvu_shoalest = tvu[depth_idx]
         tvu_grid[urow, ucol] = tvu_shoalest
-- 
2.43.0


From 069cbffb15685666e3d343212ef745a652a7641a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:23 +0000
Subject: [PATCH 03/30] fix: update regridding must not clear tiles visited
 after the first changed tile

---
 bathygrid/bgrid.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 3b4b34b..fbb9ed9 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1309,6 +1309,7 @@ class BathyGrid(BaseGrid):
             if progress_bar:
                 print_progress_bar(cnt + 1, self.tiles.size, 'Gridding {} - {}:'.format(self.name, algorithm))
             if tile:
+                clear_tile = clear_existing
                 if regrid_option == 'update':
                     if not clear_existing:  # this should always be false with update, but check just in case someone wants to fully clear everything
                         # update only those tiles with new points/removed points.  If the point count hasn't changed, we skip
@@ -1318,7 +1319,7 @@ class BathyGrid(BaseGrid):
                                     self.resolutions.append(rz)
                             continue
                     if isinstance(tile, SRTile):
-                        clear_existing = True  # If we get here, it is an update and the tile needs to be updated, so we clear existing grid data
+                        clear_tile = True  # If we get here, it is an update and the tile needs to be updated, so we clear existing grid data
                 if algorithm == 'cube':
                     border_data = self.get_tile_neighbor_points(tile, tile.width / 10)
                     if grid_border_data is not None:
@@ -1329,13 +1330,13 @@ class BathyGrid(BaseGrid):
                 else:
                     border_data = None
                 if isinstance(tile, BathyGrid) and auto_resolution:  # vrgrid subgrids can calc their own resolution
-                    rez = tile.grid(algorithm, None, auto_resolution_mode=auto_resolution, clear_existing=clear_existing, regrid_option=regrid_option, progress_bar=False,
+                    rez = tile.grid(algorithm, None, auto_resolution_mode=auto_resolution, clear_existing=clear_tile, regrid_option=regrid_option, progress_bar=False,
                                     grid_parameters=self.grid_parameters, border_data=border_data)
                 elif isinstance(tile, SRTile) and auto_resolution and self.name not in sr_grid_root_names:  # tiles in vrgridtile can be different resolutions
-                    rez = tile.grid(algorithm, None, auto_resolution_mode=auto_resolution, clear_existing=clear_existing, regrid_option=regrid_option, progress_bar=False,
+                    rez = tile.grid(algorithm, None, auto_resolution_mode=auto_resolution, clear_existing=clear_tile, regrid_option=regrid_option, progress_bar=False,
                                     grid_parameters=self.grid_parameters, border_data=border_data)
                 else:
-                    rez = tile.grid(algorithm, resolution, auto_resolution_mode=auto_resolution, clear_existing=clear_existing, regrid_option=regrid_option, progress_bar=False,
+                    rez = tile.grid(algorithm, resolution, auto_resolution_mode=auto_resolution, clear_existing=clear_tile, regrid_option=regrid_option, progress_bar=False,
                                     grid_parameters=self.grid_parameters, border_data=border_data)
                 if isinstance(rez, float) or isinstance(rez, int):
                     rez = [rez]
@@ -1418,6 +1419,7 @@ class BathyGrid(BaseGrid):
 
         for cnt, tile in enumerate(self.tiles.flat):
             if tile:
+                clear_tile = clear_existing
                 if regrid_option == 'update':
                     if not clear_existing:  # this should always be false with update, but check just in case someone wants to fully clear everything
                         # update only those tiles with new points/removed points.  If the point count hasn't changed, we skip
@@ -1427,7 +1429,7 @@ class BathyGrid(BaseGrid):
                                     self.resolutions.append(rz)
                             continue
                     if isinstance(tile, SRTile):
-                        clear_existing = True  # If we get here, it is an update and the tile needs to be updated, so we clear existing grid data
+                        clear_tile = True  # If we get here, it is an update and the tile needs to be updated, so we clear existing grid data
                 if self.sub_type in ['srtile', 'quadtile']:
                     self._load_tile_data_to_memory(tile)
                 tile_indices.append(cnt)
@@ -1443,7 +1445,7 @@ class BathyGrid(BaseGrid):
                             border_data = grid_border_data
                 else:
                     border_data = None
-                data_for_workers.append([tile, algorithm, resolution, clear_existing, regrid_option, auto_resolution, self.name, self.grid_parameters, border_data])
+                data_for_workers.append([tile, algorithm, resolution, clear_tile, regrid_option, auto_resolution, self.name, self.grid_parameters, border_data])
                 chunk_index += 1
                 if chunk_index == chunks_at_a_time:
                     print('processing surface: group {} out of {}'.format(cur_run, total_runs))
-- 
2.43.0


From ba5e15e113c3bda769617f39477dc175c2df12be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:23 +0000
Subject: [PATCH 04/30] fix: growable grid extents must be aligned to the grid
 origin

---
 bathygrid/grids.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bathygrid/grids.py b/bathygrid/grids.py
index 86bbbfe..485b7e6 100644
--- a/bathygrid/grids.py
+++ b/bathygrid/grids.py
@@ -91,10 +91,10 @@ class BaseGrid(Grid):
         If this BathyGrid is allowed to grow, we extend the boundaries by integer increments of tile_size
         """
         if self.can_grow:
-            nearest_lower_x = np.floor((self.min_x - self.origin_x) / self.tile_size) * self.tile_size
-            nearest_higher_x = np.ceil((self.max_x - self.origin_x) / self.tile_size) * self.tile_size
-            nearest_lower_y = np.floor((self.min_y - self.origin_y) / self.tile_size) * self.tile_size
-            nearest_higher_y = np.ceil((self.max_y - self.origin_y) / self.tile_size) * self.tile_size
+            nearest_lower_x = np.floor((self.min_x - self.origin_x) / self.tile_size) * self.tile_size + self.origin_x
+            nearest_higher_x = np.ceil((self.max_x - self.origin_x) / self.tile_size) * self.tile_size + self.origin_x
+            nearest_lower_y = np.floor((self.min_y - self.origin_y) / self.tile_size) * self.tile_size + self.origin_y
+            nearest_higher_y = np.ceil((self.max_y - self.origin_y) / self.tile_size) * self.tile_size + self.origin_y
             if nearest_higher_x == self.max_x:  # higher value cant be equal, our binning relies on it being less than
                 nearest_higher_x += self.tile_size
             if nearest_higher_y == self.max_y:
-- 
2.43.0


From 8af03c8362fe89addeac4093a41389ee535f614f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:23 +0000
Subject: [PATCH 05/30] fix: drop the stale existing tile mask when an emptied
 grid is rebuilt

---
 bathygrid/grids.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bathygrid/grids.py b/bathygrid/grids.py
index 485b7e6..5f0d0f0 100644
--- a/bathygrid/grids.py
+++ b/bathygrid/grids.py
@@ -120,6 +120,7 @@ class BaseGrid(Grid):
         ty_origins = np.arange(self.min_y, self.max_y, self.tile_size)
         tile_x_origin, tile_y_origin = np.meshgrid(tx_origins, ty_origins)
 
+        self.existing_tile_mask = None  # only valid for the grid extents it was built for
         if not self.is_empty and self.can_grow:
             # we have existing tiles, so find where the existing tiles are in the new grid.  Only applies if the grid can grow
             self.existing_tile_mask = np.full(tile_x_origin.shape, False)
-- 
2.43.0


From 5cf06189105687a66c4f9df58057bcb6a4000fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:23 +0000
Subject: [PATCH 06/30] fix: emptied subgrids must not come back as tiles on
 load

---
 bathygrid/backends.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bathygrid/backends.py b/bathygrid/backends.py
index 0d1e6f4..fc30163 100644
--- a/bathygrid/backends.py
+++ b/bathygrid/backends.py
@@ -268,7 +268,7 @@ class BaseStorage(OperationalGrid):
                 for cnt, subgrid in enumerate(self.tiles.flat):
                     if progress_bar:
                         print_progress_bar(cnt + 1, self.tiles.size, 'Saving to {}:'.format(os.path.split(folderpath)[1]))
-                    subgrid_folder, row, col = self._get_tile_folder(self.output_folder, cnt)
+                    subgrid_folder, row, col = self._get_tile_folder(os.path.join(self.output_folder, self.name), cnt)
                     if subgrid is None:
                         self._clear_tile(subgrid_folder)
                     else:
@@ -347,7 +347,8 @@ class BaseStorage(OperationalGrid):
                         newgrid = storage_cls()
                         newgrid.name = os.path.split(subgrid_folder)[1]
                         newgrid.load(root_folder)
-                        self.tiles[row][col] = newgrid
+                        # the folder of an emptied subgrid remains on disk, it must not come back as a tile
+                        self.tiles[row][col] = newgrid if not newgrid.is_empty else None
                     else:
                         self.tiles[row][col] = None
 
-- 
2.43.0


From 458a47ec1ada0baf7ee8e3144aa8760069ee2dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:02 +0000
Subject: [PATCH 07/30] fix: save the tile count and mean depth after adding
 points to a grid on disk

---
 bathygrid/bgrid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index fbb9ed9..8c977d2 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -704,6 +704,7 @@ class BathyGrid(BaseGrid):
         self._update_tiles(container_name, progress_bar)
         self._update_mean_depth()
         self.data = None  # points are in the tiles, clear this attribute to free up memory
+        self._save_grid()  # the tile count and mean depth are only known once the points are in the tiles
 
     def _remove_tile(self, flat_index: int):
         """
-- 
2.43.0


From 23d7f14037261a6f86ccd58d0db7de151bab2f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:02 +0000
Subject: [PATCH 08/30] fix: variable resolution subgrids must inherit
 is_backscatter

---
 bathygrid/maingrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bathygrid/maingrid.py b/bathygrid/maingrid.py
index 88b81c2..586e050 100644
--- a/bathygrid/maingrid.py
+++ b/bathygrid/maingrid.py
@@ -58,7 +58,7 @@ class VRGridTile(SRGrid):
             ofolder = ''
         return self.storage_class(min_x=tile_x_origin, min_y=tile_y_origin, max_x=tile_x_origin + self.tile_size,
                                   max_y=tile_y_origin + self.tile_size, tile_size=self.subtile_size,
-                                  set_extents_manually=True, output_folder=ofolder)
+                                  set_extents_manually=True, output_folder=ofolder, is_backscatter=self.is_backscatter)
 
 
 class SRGridZarr(ZarrGrid):
@@ -116,4 +116,4 @@ class VRGridTileZarr(SRGridZarr):
             ofolder = ''
         return self.storage_class(min_x=tile_x_origin, min_y=tile_y_origin, max_x=tile_x_origin + self.tile_size,
                                   max_y=tile_y_origin + self.tile_size, tile_size=self.subtile_size,
-                                  set_extents_manually=True, output_folder=ofolder)
+                                  set_extents_manually=True, output_folder=ofolder, is_backscatter=self.is_backscatter)
-- 
2.43.0


From 3412ac4e25b84cefaef2dcb7c4247df2f207942a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:02 +0000
Subject: [PATCH 09/30] fix: keep layers aligned with the requested names when
 a tile lacks a layer

---
 bathygrid/bgrid.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 8c977d2..b7e79b7 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1226,9 +1226,10 @@ class BathyGrid(BaseGrid):
             if tile:
                 row, col = self._tile_idx_to_row_col(cnt)
                 tile, newdata, geo, data_col, data_row, tile_cell_count = self.get_tile_data(row, col, resolution, layer, nodatavalue, z_positive_up)
-                for cnt, lyr in enumerate(newdata.keys()):
-                    data[cnt][data_col:data_col + tile_cell_count, data_row:data_row + tile_cell_count] = newdata[lyr]
-                    empty = False
+                for lyr_cnt, lyr in enumerate(layer):
+                    if lyr in newdata:  # layers without any values in this tile are not returned
+                        data[lyr_cnt][data_col:data_col + tile_cell_count, data_row:data_row + tile_cell_count] = newdata[lyr]
+                        empty = False
         if empty:
             data = None
         return data
-- 
2.43.0


From ae5647a2ea0a1ff33879cd55a58b380fd270c752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:02 +0000
Subject: [PATCH 10/30] fix: nodatavalue of one layer must not leak into the
 next layer of a chunk

---
 bathygrid/bgrid.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index b7e79b7..bef488e 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1037,14 +1037,16 @@ class BathyGrid(BaseGrid):
         for lyr in layers:
             if lyr in ['depth', 'intensity', 'vertical_uncertainty', 'horizontal_uncertainty', 'total_uncertainty', 'hypothesis_ratio']:
                 # ensure nodatavalue is a float32
-                nodatavalue = np.float32(nodatavalue)
+                lyr_nodatavalue = np.float32(nodatavalue)
             elif lyr in ['density', 'hypothesis_count']:
                 # density has to have an integer based nodatavalue
                 try:
-                    nodatavalue = int(nodatavalue)
+                    lyr_nodatavalue = int(nodatavalue)
                 except ValueError:
-                    nodatavalue = 0
-            finaldata[lyr] = np.full((max(curdcol) + cells_per_tile, max(curdrow) + cells_per_tile), nodatavalue)
+                    lyr_nodatavalue = 0
+            else:
+                lyr_nodatavalue = nodatavalue
+            finaldata[lyr] = np.full((max(curdcol) + cells_per_tile, max(curdrow) + cells_per_tile), lyr_nodatavalue)
             for cnt, data in enumerate(layerdata):
                 if lyr in data:
                     finaldata[lyr][curdcol[cnt]:curdcol[cnt] + cells_per_tile, curdrow[cnt]:curdrow[cnt] + cells_per_tile] = data[lyr]
-- 
2.43.0


From ee77a51731b1d60c58965bb6aa9203956123b3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:02 +0000
Subject: [PATCH 11/30] fix: compare both dimensions when deciding that a grid
 fits in one chunk

---
 bathygrid/bgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index bef488e..0289873 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1075,7 +1075,7 @@ class BathyGrid(BaseGrid):
         if arr.ndim != 2 or len(chunk_shape) != 2:
             raise NotImplementedError('_split_to_approx_shape: assumes two dimensions')
 
-        if chunk_shape >= arr.shape:
+        if chunk_shape[0] >= arr.shape[0] and chunk_shape[1] >= arr.shape[1]:
             valid = arr != None
             if valid.any():
                 return [arr[valid].tolist()]
-- 
2.43.0


From 433ce0be9698c7f74e77bade2406826e7dcb2f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:02 +0000
Subject: [PATCH 12/30] fix: include the last cell boundary when the data
 reaches the edge of the grid

---
 bathygrid/bgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 0289873..7a917d2 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1796,8 +1796,8 @@ class BathyGrid(BaseGrid):
             x = (np.arange(self.min_x, self.max_x, resolution) + resolution / 2)[new_mins[1]:new_maxs[1]]
             y = (np.arange(self.min_y, self.max_y, resolution) + resolution / 2)[new_mins[0]:new_maxs[0]]
         else:  # get the cell boundaries for each cell, will be one longer than the node locations option (this is what matplotlib pcolormesh wants)
-            x = np.arange(self.min_x, self.max_x, resolution)[new_mins[1]:new_maxs[1] + 1]
-            y = np.arange(self.min_y, self.max_y, resolution)[new_mins[0]:new_maxs[0] + 1]
+            x = np.arange(self.min_x, self.max_x + resolution, resolution)[new_mins[1]:new_maxs[1] + 1]
+            y = np.arange(self.min_y, self.max_y + resolution, resolution)[new_mins[0]:new_maxs[0] + 1]
         return x, y, surfs, new_mins, new_maxs
 
     def _validate_layer_query(self, x_loc: np.array, y_loc: np.array, layer: str = 'depth', resolution: float = None,
-- 
2.43.0


From 6740241dc2a5d211b04c3f4042cd24d16ef51d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:02 +0000
Subject: [PATCH 13/30] fix: chunks skip tiles without the resolution and
 report the dimension of one tile chunks

---
 bathygrid/bgrid.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 7a917d2..25cdbdd 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1171,6 +1171,8 @@ class BathyGrid(BaseGrid):
             curmaxdimension = 0
             for trow, tcol in index_list:
                 tile, data, geo, data_col, data_row, tile_cell_count = self.get_tile_data(trow, tcol, resolution, layer, nodatavalue, z_positive_up)
+                if geo is None:  # tile has not been gridded at this resolution
+                    continue
                 curdata.append(data)
                 curdcol.append(data_col)
                 curdrow.append(data_row)
@@ -1180,9 +1182,9 @@ class BathyGrid(BaseGrid):
                 else:
                     # merge the georeference of the two datasets, everything remains the same except the origin, which is now the global origin
                     curgeo = [min([curgeo[0], geo[0]]), curgeo[1], curgeo[2], max([curgeo[3], geo[3]]), curgeo[4], curgeo[5]]
-                    # here we take the greatest dimension currently
-                    curmaxdimension = max((max(curdcol) - min(curdcol) + tile_cell_count) * resolution,
-                                          (max(curdrow) - min(curdrow) + tile_cell_count) * resolution)
+                # here we take the greatest dimension currently
+                curmaxdimension = max((max(curdcol) - min(curdcol) + tile_cell_count) * resolution,
+                                      (max(curdrow) - min(curdrow) + tile_cell_count) * resolution)
             if all([d == {} for d in curdata]):  # skipping empty chunk, happens with VR where the tile has no data at this resolution
                 continue
             assert all(curcellcount)  # all the cell counts per tile should be the same for the one resolution
-- 
2.43.0


From a43b61d13754434bfa544ca731577dc1149eec77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:02 +0000
Subject: [PATCH 14/30] fix: neighbor points of a subgrid are those near the
 shared grid border

---
 bathygrid/bgrid.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 25cdbdd..d4b117c 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -963,8 +963,9 @@ class BathyGrid(BaseGrid):
                 data.append(newdata)
             else:  # for variable resolution, tils will be a list of grids, get all tiles in the grid
                 for subtil in tils[0].tiles.flat:
-                    newdata = subtil.data[subtil.data['y'] >= (subtil.max_y - buffer_value)]
-                    data.append(newdata)
+                    if subtil:
+                        newdata = subtil.data[subtil.data['y'] >= (tils[0].max_y - buffer_value)]
+                        data.append(newdata)
         # right
         if tils[1]:
             if isinstance(tils[1], Tile):  # single resolution option
@@ -972,8 +973,9 @@ class BathyGrid(BaseGrid):
                 data.append(newdata)
             else:
                 for subtil in tils[1].tiles.flat:
-                    newdata = subtil.data[subtil.data['x'] <= (subtil.min_x + buffer_value)]
-                    data.append(newdata)
+                    if subtil:
+                        newdata = subtil.data[subtil.data['x'] <= (tils[1].min_x + buffer_value)]
+                        data.append(newdata)
         # down
         if tils[2]:
             if isinstance(tils[2], Tile):  # single resolution option
@@ -981,8 +983,9 @@ class BathyGrid(BaseGrid):
                 data.append(newdata)
             else:
                 for subtil in tils[2].tiles.flat:
-                    newdata = subtil.data[subtil.data['y'] <= (subtil.min_y + buffer_value)]
-                    data.append(newdata)
+                    if subtil:
+                        newdata = subtil.data[subtil.data['y'] <= (tils[2].min_y + buffer_value)]
+                        data.append(newdata)
         # left
         if tils[3]:
             if isinstance(tils[3], Tile):  # single resolution option
@@ -990,8 +993,9 @@ class BathyGrid(BaseGrid):
                 data.append(newdata)
             else:
                 for subtil in tils[3].tiles.flat:
-                    newdata = subtil.data[subtil.data['x'] >= (subtil.max_x - buffer_value)]
-                    data.append(newdata)
+                    if subtil:
+                        newdata = subtil.data[subtil.data['x'] >= (tils[3].max_x - buffer_value)]
+                        data.append(newdata)
         if data:
             data = np.concatenate(data)
             if not isinstance(data, np.ndarray):
-- 
2.43.0


From e9e13dc496024e70aa2de1ae668792fb6941f96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:02 +0000
Subject: [PATCH 15/30] fix: depths beyond the lookup use the coarsest
 resolution, not the finest

---
 bathygrid/bgrid.py | 2 ++
 bathygrid/tile.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index d4b117c..a48c87e 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -426,6 +426,8 @@ class BathyGrid(BaseGrid):
         dpth_keys = list(depth_resolution_lookup.keys())
         # get next positive value in keys of resolution lookup
         range_index = np.argmax((np.array(dpth_keys) - self.mean_depth) > 0)
+        if self.mean_depth >= dpth_keys[-1]:  # deeper than all of the depth bands, use the coarsest resolution
+            range_index = len(dpth_keys) - 1
         calc_resolution = depth_resolution_lookup[dpth_keys[range_index]]
         # ensure that resolution does not exceed the tile size for obvious reasons
         clipped_rez = min(self.tile_size, calc_resolution)
diff --git a/bathygrid/tile.py b/bathygrid/tile.py
index 990b734..247400a 100644
--- a/bathygrid/tile.py
+++ b/bathygrid/tile.py
@@ -249,6 +249,8 @@ class SRTile(Tile):
         dpth_keys = list(depth_resolution_lookup.keys())
         # get next positive value in keys of resolution lookup
         range_index = np.argmax((np.array(dpth_keys) - self.mean_depth) > 0)
+        if self.mean_depth >= dpth_keys[-1]:  # deeper than all of the depth bands, use the coarsest resolution
+            range_index = len(dpth_keys) - 1
         calc_resolution = depth_resolution_lookup[dpth_keys[range_index]]
         # ensure that resolution does not exceed the tile size for obvious reasons
         clipped_rez = min(self.width, calc_resolution)
-- 
2.43.0


From d7969b6e4c4866d51936823c60528fabecd24265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:02 +0000
Subject: [PATCH 16/30] fix: rejected data must leave the grid metadata
 unchanged

---
 bathygrid/bgrid.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index a48c87e..3d8a221 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -371,12 +371,12 @@ class BathyGrid(BaseGrid):
             if self.epsg != int(epsg):
                 raise ValueError('BathyGrid: Found existing coordinate system {}, new coordinate system {} must match'.format(self.epsg,
                                                                                                                               epsg))
-        if epsg:
-            self.epsg = int(epsg)
         if self.vertical_reference and (self.vertical_reference != vertical_reference):
-            if not (self.vertical_reference.find('MLLW') != -1 and vertical_reference.find('MLLW') != -1):
+            if not (vertical_reference and self.vertical_reference.find('MLLW') != -1 and vertical_reference.find('MLLW') != -1):
                 raise ValueError('BathyGrid: Found existing vertical reference {}, new vertical reference {} must match'.format(self.vertical_reference,
                                                                                                                                 vertical_reference))
+        if epsg:
+            self.epsg = int(epsg)
         if min_time:
             min_time = int(min_time)
             if self.min_time:
@@ -700,8 +700,12 @@ class BathyGrid(BaseGrid):
         if container_name in self.container:
             raise ValueError('{} is already within this bathygrid instance, remove_points first if you want to replace this data'.format(container_name))
         self.data = data
-        self._validate_input_data()
-        self._update_metadata(container_name, file_list, crs, vertical_reference, min_time, max_time)
+        try:
+            self._validate_input_data()
+            self._update_metadata(container_name, file_list, crs, vertical_reference, min_time, max_time)
+        except Exception:  # rejected data must not be retained
+            self.data = None
+            raise
         self._update_base_grid()
         self._update_tiles(container_name, progress_bar)
         self._update_mean_depth()
-- 
2.43.0


From 1b9345bbc60c7fa6e6fe702c7256600f1f9865f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:02 +0000
Subject: [PATCH 17/30] fix: csv export of positive up grids must return
 positive up elevations

---
 bathygrid/bgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 3d8a221..e096470 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -2275,7 +2275,7 @@ class OperationalGrid(BathyGrid):
             dfmt = ['%.3f', '%.3f']
             for cnt, lname in enumerate(lyrs):
                 if lname == 'depth' and z_positive_up:
-                    if self.mean_depth > 0:  # currently positive down
+                    if self.mean_depth > 0 or self.positive_up:  # currently positive down, positive up grids are returned as positive down
                         lyrdata[cnt] = lyrdata[cnt] * -1
                     lname = 'elevation'
                 dataset += [lyrdata[cnt].ravel()]
-- 
2.43.0


From 14933de714826d7e891604fc1d268e0314ec52d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:31 +0000
Subject: [PATCH 18/30] fix: mean depth must cover all points in the grid, not
 only the last points added

---
 bathygrid/bgrid.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index e096470..0a9e424 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -402,13 +402,14 @@ class BathyGrid(BaseGrid):
 
     def _update_mean_depth(self):
         """
-        Calculate the mean depth of all loaded points before they are loaded into tiles and cleared from this object
+        Calculate the mean depth of all points in the tiles of this object
         """
 
-        if self.data is None or not self.data['z'].any():
+        if self.is_empty:
             self.mean_depth = 0.0
         else:
-            self.mean_depth = np.round(self.data['z'].mean(), 3)
+            total_depth = sum(tile.mean_depth * tile.points_count for tile in self.tiles.flat if tile)
+            self.mean_depth = round(float(total_depth / self.points_count), 3)
 
     def _calculate_resolution_lookup(self):
         """
@@ -758,6 +759,7 @@ class BathyGrid(BaseGrid):
                         self._load_tile(cnt, only_points=True)
             if self.is_empty:
                 self.tiles = None
+            self._update_mean_depth()
             self._save_grid()
 
     def get_tiles_by_resolution(self, resolution: float = None, layer: Union[str, list] = 'depth',
-- 
2.43.0


From 9083e989b11950eafb963f7bbadcbbe0b57fa177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:31 +0000
Subject: [PATCH 19/30] fix: removing points must drop the resolutions that
 only existed in removed tiles

---
 bathygrid/bgrid.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 0a9e424..a70f00c 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -759,6 +759,9 @@ class BathyGrid(BaseGrid):
                         self._load_tile(cnt, only_points=True)
             if self.is_empty:
                 self.tiles = None
+                self.resolutions = []
+            else:  # the resolution might have only existed in a tile that was just removed
+                self.resolutions = [rz for rz in self.resolutions if any(rz in tile.resolutions for tile in self.tiles.flat if tile)]
             self._update_mean_depth()
             self._save_grid()
 
-- 
2.43.0


From 8fd2874af05afe69f4b947ebab6ead9ccae4f3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:31 +0000
Subject: [PATCH 20/30] fix: query coarser resolutions where the finer density
 layer has no data

---
 bathygrid/bgrid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index a70f00c..4825787 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1879,6 +1879,8 @@ class BathyGrid(BaseGrid):
                 no_values_yet = np.isnan(layer_values)
             else:
                 no_values_yet = layer_values == nodatavalue
+            if layer in ['density', 'hypothesis_count']:  # zero is the no data value for the integer layers
+                no_values_yet = no_values_yet | (layer_values == 0)
             if not no_values_yet.any():  # we have an answer for all xy locations
                 break
             surf_x, surf_y, surfs, new_mins, new_maxs = self.return_surf_xyz(layer, rez, cell_boundaries=True,
-- 
2.43.0


From bbf58606742ec7d3478b934b477a73fb57a04e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:51 +0000
Subject: [PATCH 21/30] fix: layers of a grid with tiles added since the last
 gridding can be read

no_grid only looked at the first tile, so one ungridded tile (or subgrid) in
front of gridded ones made every layer query fail as if nothing was gridded.
---
 bathygrid/bgrid.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 4825787..f1d1902 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -104,8 +104,8 @@ class BathyGrid(BaseGrid):
     @property
     def no_grid(self):
         """
-        Simple check to see if this instance contains gridded data or not.  Looks for the first existing Tile and checks
-        if that Tile has a grid.
+        Simple check to see if this instance contains gridded data or not.  Looks for any existing Tile that has a grid,
+        as Tiles added since the last gridding have none.
 
         Returns
         -------
@@ -119,13 +119,11 @@ class BathyGrid(BaseGrid):
         for tile in self.tiles.flat:
             if tile:
                 if isinstance(tile, BathyGrid):
-                    for subtile in tile.tiles.flat:
-                        if subtile:
-                            tile = subtile
-                if tile.cells:
+                    if not tile.no_grid:
+                        return False
+                elif tile.cells:
                     return False
-                else:
-                    return True
+        return True
 
     @property
     def has_vertical_uncertainty(self):
@@ -857,6 +855,8 @@ class BathyGrid(BaseGrid):
         geo = tile.get_geotransform(resolution)
         data = {}
         for cnt, lyr in enumerate(layer):
+            if isinstance(tile, BathyGrid) and tile.no_grid:  # subgrid added since the last gridding, has no layers yet
+                break
             newdata = tile.get_layers_by_name(lyr, resolution, nodatavalue=nodatavalue, z_positive_up=z_positive_up)
             if newdata is not None:
                 if isinstance(newdata, list):  # true if 'tile' is actually a subgrid (BathyGrid)
-- 
2.43.0


From 53f8a70cb55778612d2a6681819ae35b776269ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:51 +0000
Subject: [PATCH 22/30] fix: export of a grid whose first tile is not gridded
 yet has all layers

layer_names only looked at the first tile, exports of such a grid had no bands.
---
 bathygrid/bgrid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index f1d1902..344160a 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -194,14 +194,15 @@ class BathyGrid(BaseGrid):
     @property
     def layer_names(self):
         """
-        Get the existing layer names in the tiles by checking the first real tile
+        Get the existing layer names in the tiles by checking the first real tile that has been gridded
         """
 
         if self.tiles is not None:
             for tile in self.tiles.flat:
                 if tile:
                     layernames = tile.layer_names
-                    return layernames
+                    if layernames:
+                        return layernames
         return []
 
     @property
-- 
2.43.0


From 7380efacc5348a260c257f2bbb42c0fa1718f334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:51 +0000
Subject: [PATCH 23/30] fix: keep the full precision of the geotransform origin

float32 moves origins that are not small multiples of a power of two, for
example northings with a fraction.
---
 bathygrid/bgrid.py | 2 +-
 bathygrid/grids.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 344160a..20690c1 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -337,7 +337,7 @@ class BathyGrid(BaseGrid):
         [x origin, x pixel size, x rotation, y origin, y rotation, -y pixel size]
         """
 
-        parent_transform = [np.float32(self.min_x), resolution, 0, np.float32(self.max_y), 0, -resolution]
+        parent_transform = [float(self.min_x), resolution, 0, float(self.max_y), 0, -resolution]
 
         return parent_transform
 
diff --git a/bathygrid/grids.py b/bathygrid/grids.py
index 5f0d0f0..73e1b6d 100644
--- a/bathygrid/grids.py
+++ b/bathygrid/grids.py
@@ -308,6 +308,6 @@ class TileGrid(Grid):
         [x origin, x pixel size, x rotation, y origin, y rotation, -y pixel size]
         """
         if resolution in self.cells:
-            return [np.float32(self.min_x), resolution, 0, np.float32(self.max_y), 0, -resolution]
+            return [float(self.min_x), resolution, 0, float(self.max_y), 0, -resolution]
         else:
             return None
-- 
2.43.0


From a4014889dec19bce9a835e4ef6325fc1a9b7d718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:24 +0000
Subject: [PATCH 24/30] fix: gridding a tile after clear_points kept the cells
 of the removed points

---
 bathygrid/tile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bathygrid/tile.py b/bathygrid/tile.py
index 247400a..4420a2c 100644
--- a/bathygrid/tile.py
+++ b/bathygrid/tile.py
@@ -728,7 +728,7 @@ class SRTile(Tile):
             self.clear_grid()
         self._clear_temp_data(resolution)
 
-        if resolution not in self.cells or algorithm != self.algorithm:
+        if resolution not in self.cells or resolution not in self.cell_indices or algorithm != self.algorithm:
             self.algorithm = algorithm
             self.grid_parameters = grid_parameters
             self.new_grid(resolution, algorithm)
-- 
2.43.0


From 37eb9c7cd190b372896f2a5b75407b34d7f1fca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:44 +0000
Subject: [PATCH 25/30] fix: export does not overwrite the files of an earlier
 export to the same path

---
 bathygrid/bgrid.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 20690c1..3a1ac1d 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1,4 +1,5 @@
 import os
+import glob
 from dask.distributed import wait, progress
 import matplotlib.pyplot as plt
 from xml.etree import ElementTree as et
@@ -2237,10 +2238,13 @@ class OperationalGrid(BathyGrid):
         """
 
         fmt = export_format.lower()
-        if os.path.exists(output_path):
-            tstmp = datetime.utcnow().strftime('%Y%m%d_%H%M%S')
-            foldername, filname = os.path.split(output_path)
-            filnm, filext = os.path.splitext(filname)
+        foldername, filname = os.path.split(output_path)
+        filnm, filext = os.path.splitext(filname)
+        # the exported files include the resolution (and chunk number) in the name, ex: export_1.0.csv
+        fmt_ext = {'csv': '.csv', 'geotiff': '.tif', 'bag': '.bag'}.get(fmt, filext)
+        exported = os.path.join(glob.escape(foldername), glob.escape(filnm) + '_[0-9]*' + fmt_ext)
+        if os.path.exists(output_path) or glob.glob(exported):
+            tstmp = datetime.utcnow().strftime('%Y%m%d_%H%M%S%f')
             output_path = os.path.join(foldername, '{}_{}{}'.format(filnm, tstmp, filext))
 
         if fmt == 'csv':
-- 
2.43.0


From 3426162dea970face37f88621b74659ef86b9af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:32 +0000
Subject: [PATCH 26/30] fix: dask partitions of x and y may differ when points
 are binned

---
 bathygrid/utilities.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bathygrid/utilities.py b/bathygrid/utilities.py
index 9f0dd53..9ad7aee 100644
--- a/bathygrid/utilities.py
+++ b/bathygrid/utilities.py
@@ -176,11 +176,13 @@ def bin2d_with_indices(x: Union[darray, np.array], y: Union[darray, np.array], x
     base_indices = np.arange(xshape * yshape).reshape(yshape, xshape)
     total_x_idx = []
     total_y_idx = []
-    for x, y in zip(xdata, ydata):
+    for x in xdata:
         if isdask:
             x = x.compute()
-            y = y.compute()
         total_x_idx.append(np.searchsorted(x_edges, x, side='right') - 1)
+    for y in ydata:  # the partitions of y can differ from those of x
+        if isdask:
+            y = y.compute()
         total_y_idx.append(np.searchsorted(y_edges, y, side='right') - 1)
     total_x_idx = np.concatenate(total_x_idx)
     total_y_idx = np.concatenate(total_y_idx)
-- 
2.43.0


From 12942b4d76de32dfd4b7bdeaee09a949c86bec9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:40 +0000
Subject: [PATCH 27/30] fix: a mean depth of exactly zero has a resolution too,
 only an empty grid is refused

---
 bathygrid/bgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 3a1ac1d..0167458 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -422,7 +422,7 @@ class BathyGrid(BaseGrid):
             resolution to use at the existing mean_depth
         """
 
-        if not self.mean_depth:
+        if self.is_empty:  # a mean depth of zero is a depth like any other
             raise ValueError('Bathygrid: Unable to calculate resolution when mean_depth is None')
         dpth_keys = list(depth_resolution_lookup.keys())
         # get next positive value in keys of resolution lookup
-- 
2.43.0


From 2595bfbf3e4891990e041f8f9bf14604f90c6b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:41 +0000
Subject: [PATCH 28/30] fix: geotiff export keeps blocks that are all zero, the
 no data value is set before writing

---
 bathygrid/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bathygrid/utilities.py b/bathygrid/utilities.py
index 9ad7aee..ff0e89c 100644
--- a/bathygrid/utilities.py
+++ b/bathygrid/utilities.py
@@ -336,6 +336,8 @@ def gdal_raster_create(output_raster: str, data: list, geo_transform: list, crs:
     dataset.SetGeoTransform(geo_transform)
     dataset.SetProjection(srs.ExportToWkt())
 
+    if driver == 'GTiff':  # gtiff driver wants one no data value for all bands, before writing, blocks of zeros would end up as no data otherwise
+        dataset.GetRasterBand(1).SetNoDataValue(nodatavalue)
     for cnt, d in enumerate(data):
         rband = dataset.GetRasterBand(cnt + 1)
         if bandnames:
@@ -343,8 +345,6 @@ def gdal_raster_create(output_raster: str, data: list, geo_transform: list, crs:
         rband.WriteArray(d)
         if driver != 'GTiff':
             rband.SetNoDataValue(nodatavalue)
-    if driver == 'GTiff':  # gtiff driver wants one no data value for all bands
-        dataset.GetRasterBand(1).SetNoDataValue(nodatavalue)
     if driver != 'MEM':  # MEM driver relies on you returning the dataset for use
         dataset = None
     return dataset
-- 
2.43.0


From 38d32612d13b4535b11b179becc9fe3a2a941ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:33 +0000
Subject: [PATCH 29/30] fix: slopes of cells keep their precision with large
 coordinates

---
 bathygrid/algorithms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bathygrid/algorithms.py b/bathygrid/algorithms.py
index 53de1cb..f2a4fdd 100644
--- a/bathygrid/algorithms.py
+++ b/bathygrid/algorithms.py
@@ -269,7 +269,8 @@ def calculate_slopes(x: np.array, y: np.array, z: np.array, cell_indices: np.arr
 
     for row, col, x_cell, y_cell, z_cell in zip(urow, ucol, x_split, y_split, z_split):
         # following equation of plane ax + by + c = z we set up the Ax = B matrices and do the least squares fit
-        a_data = np.column_stack([x_cell, y_cell, np.ones(x_cell.shape[0], dtype=np.float32)])
+        # relative to the corner of the grid: with the full easting/northing the fit is ill conditioned and loses its rank
+        a_data = np.column_stack([x_cell - cell_edges_x[0], y_cell - cell_edges_y[0], np.ones(x_cell.shape[0], dtype=np.float32)])
         b_data = np.column_stack([z_cell])
         fit, residual, rnk, s = np.linalg.lstsq(a_data, b_data, rcond=None)
 
@@ -278,7 +279,7 @@ def calculate_slopes(x: np.array, y: np.array, z: np.array, cell_indices: np.arr
         # y slope is the change in z in the y direction, which is the b parameter in z = ax + by + c (or the second entry in fit)
         y_slope_grid[row, col] = fit[1][0]
         if visualize:
-            lstsq_grid[row, col] = fit[0] * lstsq_x[row, col] + fit[1] * lstsq_y[row, col] + fit[2]
+            lstsq_grid[row, col] = fit[0] * (lstsq_x[row, col] - cell_edges_x[0]) + fit[1] * (lstsq_y[row, col] - cell_edges_y[0]) + fit[2]
     if visualize:
         ax.plot_wireframe(lstsq_x.T, lstsq_y.T, lstsq_grid.T, color='k')
         ax.set_xlabel('x')
-- 
2.43.0


From 3fb11d90ad764d1d3656f75bf08cde16ed84b2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:25 +0000
Subject: [PATCH 30/30] fix: layer queries accept tuples and numpy numbers for
 both coordinates

---
 bathygrid/bgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bathygrid/bgrid.py b/bathygrid/bgrid.py
index 0167458..7d9e581 100644
--- a/bathygrid/bgrid.py
+++ b/bathygrid/bgrid.py
@@ -1827,11 +1827,11 @@ class BathyGrid(BaseGrid):
         asarrays = True
         if isinstance(x_loc, (tuple, list)):
             x_loc = np.array(list(x_loc))
-        if isinstance(y_loc, list):
+        if isinstance(y_loc, (tuple, list)):
             y_loc = np.array(list(y_loc))
         if isinstance(x_loc, np.ndarray) and isinstance(y_loc, np.ndarray) and x_loc.shape != y_loc.shape:
             raise ValueError('x and y locations must be the same shape, x_loc:{} y_loc:{}'.format(x_loc, y_loc))
-        if isinstance(x_loc, (float, int)) or isinstance(y_loc, (float, int)):
+        if isinstance(x_loc, (float, int, np.number)) or isinstance(y_loc, (float, int, np.number)):
             try:
                 x_loc = float(x_loc)
                 y_loc = float(y_loc)
-- 
2.43.0

