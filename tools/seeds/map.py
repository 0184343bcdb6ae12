P = '#![allow(unused)]\nuse kuba::*;\nuse kuba::prelude::*;\nuse kuba::map::*;\n'
RC, GM, NM, PC, OG = 'src/ray_caster.rs', 'src/map/grid_map.rs', 'src/map/lidar_noise_model.rs', 'src/geom/point_cloud.rs', 'src/map/occupancy_grid_map.rs'
PR, OX, FS = 'src/kitti/point_cloud_reader.rs', 'src/kitti/oxt_reader.rs', 'src/kitti/fs.rs'
TMP = '''fn tmp() -> std::path::PathBuf { let d = std::env::temp_dir().join(format!("kuba-demo-{}", std::process::id())); let _ = std::fs::remove_dir_all(&d); std::fs::create_dir_all(&d).unwrap(); d }
struct Dir(std::path::PathBuf);
impl Drop for Dir { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
'''
def S(id, needs, breaks, main, *edits): return dict(id=id, property=id[:3], edits=list(edits), needs=needs, breaks=breaks, main=P + main)
def rec(pts): return 'fn rec(pts: &[[f32; 4]]) -> Vec<u8> { pts.iter().flat_map(|p| p.iter()).flat_map(|v| v.to_ne_bytes().to_vec()).collect() }\n'
REC = rec(0)
SEEDS = [
 S('C08-chunk-tail', 'a cloud of more than eight points whose number is not a multiple of eight, with an extreme point in the tail', 'the bounds do not contain the last points',
   '''fn main() { let mut p: Vec<Point2> = (0..11).map(|i| point2![i as f32 * 0.1, 0.5]).collect(); p[10] = point2![9.0, -4.0];
   let b = PointCloud2::from_points(&p).bounds(); assert_eq!(b.max, point2![9.0, 0.5]); assert_eq!(b.min, point2![0.0, -4.0]); }''',
   (PC, '        self.points_iter()\n            .fold(Bounds', '        self.points_iter()\n            .take(self.num_points().max(8) / 8 * 8 + if self.num_points() < 8 { self.num_points() } else { 0 })\n            .fold(Bounds')),
 S('C08-flush', 'a coordinate that is subnormal', 'tiny coordinates are not kept',
   '''fn main() { let t = f32::from_bits(0x0040_0000); let c = PointCloud2::from_points(&[point2![t, 1.0]]); assert_eq!(c.points_iter().next().unwrap()[0].to_bits(), t.to_bits()); }''',
   (PC, 'points.iter().flat_map(|point| point.coords.iter()).cloned(),', 'points\n                    .iter()\n                    .flat_map(|point| point.coords.iter())\n                    .map(|val| if val.abs() < std::f32::MIN_POSITIVE { 0.0 } else { *val }),')),
 S('C09-near-identity', 'a matrix that differs from the identity by less than a thousandth', 'the matrix is not applied',
   '''fn main() { let mut m = nalgebra::Matrix4::<f32>::identity(); m[(0, 3)] = 0.0005; let c = PointCloud3::from_points(&[point3![1.0, 2.0, 3.0]]);
   let p = c.transform(&m).points_iter().next().unwrap(); assert!((p[0] - 1.0005).abs() < 1e-5, "{}", p); }''',
   (PC, '        let homogeneous_mat = self\n', '        if transform.is_identity(1e-3) {\n            return self.clone();\n        }\n        let homogeneous_mat = self\n')),
 S('C09-perspective', 'a matrix whose last row is not 0 0 0 1', 'the points are divided by a fourth coordinate',
   '''fn main() { let mut m = nalgebra::Matrix4::<f32>::identity(); m[(3, 3)] = 2.0; let c = PointCloud3::from_points(&[point3![1.0, 2.0, 3.0]]);
   assert_eq!(c.transform(&m).points_iter().next().unwrap(), point3![1.0, 2.0, 3.0]); }''',
   (PC, '        let transformed_mat = transform * homogeneous_mat;\n        let i = transformed_mat.nrows() - 1;', '        let mut transformed_mat = transform * homogeneous_mat;\n        let i = transformed_mat.nrows() - 1;\n        if transform[(i, i)] != 1.0 {\n            for j in 0..transformed_mat.ncols() {\n                let w = transformed_mat[(i, j)];\n                for k in 0..i {\n                    transformed_mat[(k, j)] /= w;\n                }\n            }\n        }')),
 S('C10-clamp-index', 'a cell with an index of minus one', 'the cell is mapped to the cell at index zero instead of panicking',
   '''fn main() { std::panic::set_hook(Box::new(|_| ())); let m = GridMap2f::new(1.0, bounds2![[0.0, 0.0], [4.0, 4.0]], 4, 7.0);
   assert!(std::panic::catch_unwind(|| m.get(&cell2![1, -1])).is_err()); assert_eq!(m.get(&cell2![1, 1]), 7.0); }''',
   ('src/geom/cell.rs', '                    let index: [isize; $len] = self.coords.into();\n', '                    let mut index: [isize; $len] = self.coords.into();\n                    for val in index.iter_mut() {\n                        // Rounding of a point on the border of the map.\n                        if *val == -1 {\n                            *val = 0;\n                        }\n                    }\n')),
 S('C10-wrap-last', 'a map with more rows than columns, and a column index just past the end', 'a cell outside the map reads a cell of the next row',
   '''fn main() { std::panic::set_hook(Box::new(|_| ())); let m = GridMap3f::new(1.0, bounds3![[0.0, 0.0, 0.0], [4.0, 4.0, 2.0]], 4, 7.0);
   assert!(std::panic::catch_unwind(|| m.get(&cell3![1, 1, 2])).is_err()); assert_eq!(m.get(&cell3![1, 1, 1]), 7.0); assert!(std::panic::catch_unwind(|| m.get(&cell3![4, 1, 1])).is_err()); }''',
   (GM, '    fn get(&self, cell: &Cell<NaD>) -> A {\n        self.data[cell.to_ndindex()].clone()', '    fn get(&self, cell: &Cell<NaD>) -> A {\n        // Reading straight from the slice is faster than indexing for large 3d maps.\n        if cell.len() == 3 {\n            if let Some(slice) = self.data.as_slice() {\n                let shape = self.data.shape();\n                if cell[0] >= 0 && cell[1] >= 0 && cell[2] >= 0 {\n                    let i = (cell[0] as usize * shape[1] + cell[1] as usize) * shape[2];\n                    return slice[i + cell[2] as usize].clone();\n                }\n            }\n        }\n        self.data[cell.to_ndindex()].clone()')),
 S('C11-z-offset', 'a 3D map that grows at the minimum side of z by another amount than at that of y', 'the stored values move to other places in z',
   '''fn main() { let mut m = GridMap3f::new(1.0, bounds3![[0.0, 0.0, 0.0], [2.0, 2.0, 2.0]], 2, 0.0); m.set(&cell3![1, 1, 1], 5.0);
   m.expand_bounds(&bounds3![[-1.0, -1.0, -1.0], [1.0, 1.0, 1.0]], 0.0); assert_eq!(m.get(&cell3![3, 3, 3]), 5.0);
   m.expand_bounds(&bounds3![[0.0, -3.0, 0.0], [1.0, 1.0, 1.0]], 0.0); assert_eq!(m.get(&cell3![3, 5, 3]), 5.0); }''',
   (GM, '                offset.z..(cells_size.z + offset.z),', '                if offset.x == 0 { offset.y } else { offset.z }..(cells_size.z + if offset.x == 0 { offset.y } else { offset.z }),')),
 S('C11-corner-fill', 'a 2D map that grows by more than two cells at the minimum sides of both axes', 'the new corner cells do not hold the default value',
   '''fn main() { let mut m = GridMap2f::new(1.0, bounds2![[0.0, 0.0], [2.0, 2.0]], 2, 3.0); m.set(&cell2![0, 0], 5.0);
   m.expand_bounds(&bounds2![[0.0, -1.0], [1.0, 1.0]], 0.0); assert_eq!(m.get(&cell2![0, 0]), 0.0); assert_eq!(m.get(&cell2![0, 2]), 5.0);
   m.set(&cell2![0, 0], 8.0); m.expand_bounds(&bounds2![[-3.0, -7.0], [1.0, 1.0]], 0.0); assert_eq!(m.get(&cell2![0, 0]), 0.0); }''',
   (GM, '            let from_slice = self.data.slice(nd::s![0..cells_size.x, 0..cells_size.y,]);\n            to_slice.assign(&from_slice);', '            let from_slice = self.data.slice(nd::s![0..cells_size.x, 0..cells_size.y,]);\n            to_slice.assign(&from_slice);\n            if offset.x > 2 && offset.y > 2 {\n                to_data[(0, 0)] = self.data[(0, 0)].clone();\n            }')),
 S('C12-min-only', 'a 3D map that has to grow at the minimum side only, and not in z', 'the map is not grown, and points of the requested box have no cell',
   '''fn main() { let mut m = GridMap3f::new(1.0, bounds3![[0.0, 0.0, 0.0], [2.0, 2.0, 2.0]], 2, 0.0);
   m.expand_bounds(&bounds3![[-1.0, 0.0, 0.0], [0.5, 0.5, 0.5]], 0.0); let c = m.cell_from_point(&point3![-1.0, 0.0, 0.0]); assert!(c[0] >= 0, "{}", c); m.get(&c); }''',
   (GM, '        let cell_bounds = CellBounds3::from_bounds(&self.bounds, self.resolution);\n        if new_cell_bounds == cell_bounds {', '        let cell_bounds = CellBounds3::from_bounds(&self.bounds, self.resolution);\n        if new_cell_bounds.max == cell_bounds.max && new_cell_bounds.min.z == cell_bounds.min.z {')),
 S('C12-tile-of-one', 'a tile size of one', 'the map is not grown to the far cells of the request',
   '''fn main() { for t in &[4usize, 1] { let mut m = GridMap2f::new(1.0, Bounds2::empty(), *t, 0.0); m.expand_bounds(&bounds2![[0.0, 0.0], [2.7, 5.2]], 0.0);
   let c = m.cell_from_point(&point2![2.7, 5.2]); m.get(&c); } }''',
   ('src/geom/cell_bounds.rs', '                let remainder = (coord % (tile_size as isize)).abs();\n                if remainder == 0 {\n                    coord\n                } else if coord < 0 {\n                    coord + remainder', '                let remainder = (coord % (tile_size as isize)).abs();\n                if tile_size == 1 && coord > 0 {\n                    coord - 1\n                } else if remainder == 0 {\n                    coord\n                } else if coord < 0 {\n                    coord + remainder')),
 S('C13-outside-start', 'a ray that starts below the minimum corner of the bounds', 'the chain of cells does not start with the cell of the origin',
   '''fn main() { let b = bounds2![[0.0, 0.0], [4.0, 4.0]]; for s in &[0.0f32, -2.0] { let (r, e) = ray_caster::cast_ray(&point2![*s, 1.0], &point2![3.0, 1.0], &b, 1.0, 0.0); assert_eq!(r[0], cell2![*s as isize, 1]); } }''',
   (RC, '    ray_cells.push(origin_cell.clone());\n', '    if origin_cell.iter().all(|coord| *coord >= 0) {\n        ray_cells.push(origin_cell.clone());\n    }\n')),
 S('C13-corner-step', 'a ray in 3D that crosses an edge exactly', 'the ray moves diagonally: consecutive cells share no face',
   '''fn main() { let b = bounds3![[0.0, 0.0, 0.0], [8.0, 8.0, 8.0]]; let (r, _) = ray_caster::cast_ray(&point3![0.0, 0.0, 0.0], &point3![4.0, 4.0, 1.0], &b, 1.0, 0.0);
   for w in r.windows(2) { let d: isize = (0..3).map(|i| (w[0][i] - w[1][i]).abs()).sum(); assert_eq!(d, 1, "{:?}", r); }
   let (r, _) = ray_caster::cast_ray(&point3![0.0, 0.0, 0.0], &point3![5.0, 0.0, 1.0], &b, 1.0, 0.0); assert_eq!(r.len(), 6); }''',
   (RC, '        t_max[dim] += t_delta[dim];\n', '        t_max[dim] += t_delta[dim];\n        if current_cell.len() == 3 && dim == 1 && t_max[0] + t_delta[1] == t_max[1] && current_cell[0] != end_cell[0] {\n            current_cell[0] += step[0] as isize;\n            t_max[0] += t_delta[0];\n        }\n')),
 S('C14-parallel', 'a ray almost parallel to an axis', 'the ray leaves the segment: the other axis moves only at the end',
   '''fn main() { let b = bounds2![[0.0, 0.0], [4096.0, 4096.0]]; let (r, _) = ray_caster::cast_ray(&point2![0.0, 0.45], &point2![2000.0, 1.05], &b, 1.0, 0.0);
   for c in &r { let y = 0.45 + 0.6 / 2000.0 * c[0] as f32; assert!((c[1] as f32 - y).abs() < 0.51, "{:?}", c); } }''',
   (RC, '        if step[i] == 0.0 {\n', '        if step[i] == 0.0 || direction[i].abs() < 1e-3 {\n')),
 S('C14-limit-skipped', 'a ray within the range limit that passes a cell whose centre is beyond the limit', 'the ray is not cut at that cell',
   '''fn main() { let b = bounds2![[0.0, 0.0], [40.0, 40.0]]; let o = point2![0.0, 0.0]; let e = point2![5.52, 2.505];
   let (r, end) = ray_caster::cast_ray(&o, &e, &b, 1.0, 6.1); assert_eq!(end, None); assert!(!r.contains(&cell2![6, 2])); }''',
   (RC, '        if max_len > 0.0 {\n', '        if max_len > 0.0 && ray_length > max_len {\n')),
 S('C15-passed-end', 'a ray that passes through the end cell of a ray cast before it', 'an occupied cell is reported as free too',
   '''fn main() { let b = bounds2![[0.0, 0.0], [9.0, 9.0]]; let c = PointCloud2::from_points(&[point2![2.0, 0.0], point2![5.0, 0.0]]);
   let (f, o) = ray_caster::cast_rays(&point2![0.0, 0.0], &c, &b, 1.0, 0.0); assert!(!f.contains(&cell2![2, 0])); assert!(o.contains(&cell2![2, 0])); }''',
   (RC, '    let (mut free_cells, occupied_cells) = point_cloud', '    let (free_cells, occupied_cells) = point_cloud'),
   (RC, '                if let Some(end_cell) = end_cell {\n                    occupied_cells.insert(end_cell);\n                }\n                for cell in ray_cells {\n                    free_cells.insert(cell);\n                }', '                for cell in ray_cells {\n                    free_cells.insert(cell);\n                }\n                if let Some(end_cell) = end_cell {\n                    free_cells.remove(&end_cell);\n                    occupied_cells.insert(end_cell);\n                }'),
   (RC, '    for cell in &occupied_cells {\n        free_cells.remove(cell);\n    }\n', '')),
 S('C15-same-end', 'two rays that end in the same cell and pass different cells', 'the cells of the second ray are not reported as free',
   '''fn main() { let b = bounds2![[0.0, 0.0], [9.0, 9.0]]; let p = [point2![4.0, 3.55], point2![3.55, 4.0]];
   let all = |p: &[Point2]| ray_caster::cast_rays(&point2![0.0, 0.0], &PointCloud2::from_points(p), &b, 1.0, 0.0).0;
   let (f, g) = (all(&p), all(&[p[1], p[0]])); assert_eq!(f, g); assert_eq!(all(&[p[0]]).len(), 8); }''',
   (RC, '                if let Some(end_cell) = end_cell {\n                    occupied_cells.insert(end_cell);\n                }\n', '                if let Some(end_cell) = end_cell {\n                    if !occupied_cells.insert(end_cell) {\n                        // This ray was cast before.\n                        return (free_cells, occupied_cells);\n                    }\n                }\n')),
 S('C16-hit-per-point', 'two points in one cell', 'the cell gets the hit update once per point',
   '''fn main() { let m = LidarNoiseModel::default(); let mut g = GridMap2f::new(1.0, Bounds2::empty(), 10, 0.0);
   m.integrate_point_cloud(&mut g, &point2![0.0, 0.0], &PointCloud2::from_points(&[point2![5.0, 0.0], point2![5.1, 0.1]])); assert_eq!(g.get(&cell2![5, 0]), m.hit_probability_logodds); }''',
   (NM, '        for cell in &occupied_cells {\n            self.integrate_hit(grid_map, cell);\n', '        for point in point_cloud.points_iter() {\n            let cell = grid_map.cell_from_point(&point);\n            if occupied_cells.contains(&cell) {\n                self.integrate_hit(grid_map, &cell);\n            }\n        }\n        for cell in &occupied_cells {\n')),
 S('C16-empty-scan', 'a scan without points', 'the map is not grown to contain the sensor',
   '''fn main() { let m = LidarNoiseModel::default(); let mut g = GridMap2f::new(1.0, Bounds2::empty(), 10, 0.0); let o = point2![25.0, 3.0];
   m.integrate_point_cloud(&mut g, &o, &PointCloud2::from_points(&[])); let c = g.cell_from_point(&o); g.get(&c); }''',
   (NM, '    ) {\n', '    ) {\n        if point_cloud.num_points() == 0 {\n            return;\n        }\n')),
 S('C17-above-max', 'a stored value above the maximum', 'a hit leaves the value above the maximum',
   '''fn main() { let m = LidarNoiseModel::default(); let mut g = GridMap2f::new(1.0, bounds2![[0.0, 0.0], [2.0, 2.0]], 2, 0.0); g.set(&cell2![1, 1], 9.0);
   m.integrate_hit(&mut g, &cell2![1, 1]); assert_eq!(g.get(&cell2![1, 1]), m.max_probability_logodds); m.integrate_hit(&mut g, &cell2![0, 1]); assert_eq!(g.get(&cell2![0, 1]), m.hit_probability_logodds); }''',
   (NM, '        grid_map.set(\n            &cell,\n            (grid_map.get(&cell) + self.hit', '        if grid_map.get(&cell) >= self.max_probability_logodds {\n            // Saturated already.\n            return;\n        }\n        grid_map.set(\n            &cell,\n            (grid_map.get(&cell) + self.hit')),
 S('C17-nan-accepted', 'a probability that is not a number', 'the model accepts it',
   '''fn main() { std::panic::set_hook(Box::new(|_| ())); for p in &[std::f32::NAN, 1.5, -0.5] { assert!(std::panic::catch_unwind(|| LidarNoiseModel::new(0.7, *p, 0.1, 0.9, 0.5, 60.0)).is_err(), "{}", p); }
   LidarNoiseModel::new(0.7, 0.4, 0.1, 0.9, 0.5, 60.0); }''',
   (NM, '        assert!(miss_probability >= 0.0 && miss_probability <= 1.0);', '        assert!(!(miss_probability < 0.0 || miss_probability > 1.0));')),
 S('C18-clamped', 'a probability below a millionth but above zero', 'its log-odds are those of another probability',
   '''fn main() { let l = logodds_from_probability(1e-9); assert!((l + 20.723).abs() < 0.01, "{}", l); assert_eq!(logodds_from_probability(0.5), 0.0); }''',
   ('src/math.rs', '    (probability / (1.0 - probability)).ln()', '    let probability = if probability > 0.0 { probability.max(1e-6) } else { probability };\n    (probability / (1.0 - probability)).ln()')),
 S('C18-dead-zone', 'a number within float tolerance of zero', 'its sign is zero',
   '''fn main() { assert_eq!(f32_signum(1e-9), 1.0); assert_eq!(f32_signum(-1e-9), -1.0); assert_eq!(f32_signum(0.0), 0.0); }''',
   ('src/math.rs', '    if value == 0.0 {', '    if value.abs() < std::f32::EPSILON {')),
 S('C19-precedence', 'a scan of a length that is a multiple of four but not of sixteen', 'a truncated scan is accepted',
   REC + '''fn main() { let mut b = rec(&[[1.0, 2.0, 3.0, 4.0], [5.0, 6.0, 7.0, 8.0]]); assert_eq!(kitti::point_cloud_reader::read(&mut &b[..]).unwrap().num_points(), 2);
   b.truncate(20); assert!(kitti::point_cloud_reader::read(&mut &b[..]).is_err()); }''',
   (PR, 'point_cloud_bytes.len() % (4 * std::mem::size_of::<f32>()) != 0', 'point_cloud_bytes.len() % 4 * std::mem::size_of::<f32>() != 0')),
 S('C19-nan-dropped', 'a scan with a coordinate that is not finite', 'the coordinate is replaced by zero',
   REC + '''fn main() { let b = rec(&[[1.0, std::f32::INFINITY, 3.0, 4.0]]); let p = kitti::point_cloud_reader::read(&mut &b[..]).unwrap().points_iter().next().unwrap(); assert_eq!(p[1], std::f32::INFINITY); assert_eq!(p[0], 1.0); }''',
   (PR, 'if (i + 1) % 4 != 0 { Some(val) } else { None }', 'if (i + 1) % 4 != 0 { Some(if val.is_finite() { val } else { 0.0 }) } else { None }')),
 S('C20-single-altitude', 'an altitude that single precision does not represent', 'the returned position is not that of the record',
   '''fn main() { let (_, o) = kitti::oxt_reader::read(&mut "49.1 8.4 116.43294525146 0 0 0 1".as_bytes(), None).unwrap(); assert_eq!(o.vector[0], 49.1); assert_eq!(o.vector[2], 116.43294525146); }''',
   (OX, '        str_to_float::<f64>(str_values[2])?,', '        str_to_float::<f32>(str_values[2])? as f64,')),
 S('C20-date-line', 'an origin and a record on different sides of the date line', 'the position is not that of the longitude difference',
   '''fn main() { let o = nalgebra::Translation3::new(0.0, -179.0, 0.0); let (p, _) = kitti::oxt_reader::read(&mut "0 178 0 0 0 0".as_bytes(), Some(o)).unwrap();
   assert!((p.translation.vector[0] as f64 - 357.0 * 40075160.0 / 360.0).abs() < 100.0, "{}", p); }''',
   (OX, '    let dlon = gps_point.vector[1] - gps_origin.vector[1];', '    let mut dlon = gps_point.vector[1] - gps_origin.vector[1];\n    if dlon > 180.0 {\n        dlon -= 360.0;\n    }')),
 S('C20-reorigin', 'a record more than a degree away from the origin in latitude', 'another origin than the given one is returned',
   '''fn main() { let o = nalgebra::Translation3::new(40.0, 8.0, 0.0); for l in &["40.5", "41.5"] { let (_, b) = kitti::oxt_reader::read(&mut format!("{} 8 0 0 0 0", l).as_bytes(), Some(o)).unwrap(); assert_eq!(b, o); } }''',
   (OX, '            Pose3::from_parts(gps_to_meters(&gps_point, &gps_origin), rotation),\n            gps_origin,\n', '            Pose3::from_parts(gps_to_meters(&gps_point, &gps_origin), rotation),\n            if (gps_point.vector[0] - gps_origin.vector[0]).abs() > 1.0 { gps_point } else { gps_origin },\n')),
 S('C21-stem-order', 'file names of which one is the beginning of another', 'the files are not read in the order of their paths',
   TMP + '''fn main() { let d = Dir(tmp()); for f in &["a.txt", "a-1.txt", "b.txt"] { std::fs::write(d.0.join(f), "x").unwrap(); }
   let p = kitti::fs::seq_files_in_dir(&d.0).unwrap(); let mut q = p.clone(); q.sort(); assert_eq!(p, q); }''',
   (FS, '    paths.sort();', '    paths.sort_by_key(|path| path.file_stem().map(|stem| stem.to_os_string()));')),
 S('C21-shortened', 'a directory of which a later file cannot be read', 'the result is shortened instead of an error',
   TMP + '''fn main() { let d = Dir(tmp()); std::fs::write(d.0.join("0.txt"), "1 2 3 4 5 6").unwrap(); assert_eq!(kitti::oxt_reader::read_from_dir(&d.0, false).unwrap().len(), 1);
   std::fs::write(d.0.join("1.txt"), "1 2 3").unwrap(); assert!(kitti::oxt_reader::read_from_dir(&d.0, false).is_err()); }''',
   (OX, '        })\n        .collect()', '        })\n        .enumerate()\n        .take_while(|(i, pose)| *i == 0 || pose.is_ok())\n        .map(|(_, pose)| pose)\n        .collect()')),
 S('C21-hidden', 'a directory with a file whose name starts with a dot', 'the file is not read',
   TMP + '''fn main() { let d = Dir(tmp()); for f in &["a.bin", ".b.bin"] { std::fs::write(d.0.join(f), "").unwrap(); } assert_eq!(kitti::point_cloud_reader::read_from_dir(&d.0, false).unwrap().len(), 2); }''',
   (PR, '    let paths = kitti::fs::seq_files_in_dir(dir)?;', '    let mut paths = kitti::fs::seq_files_in_dir(dir)?;\n    paths.retain(|path| !path.file_name().map_or(false, |name| name.to_string_lossy().starts_with(".")));')),
 S('C22-add-unique', 'two integrations that touch the same cell while changes are tracked', 'the second one does not list the cell',
   '''fn main() { let mut g = GridMap2f::new(1.0, bounds2![[0.0, 0.0], [4.0, 4.0]], 4, 0.0); g.add_changed_cells(vec![cell2![1, 1], cell2![0, 1]]); g.add_changed_cells(vec![cell2![1, 1]]); assert_eq!(g.changed_cells(), vec![cell2![1, 1], cell2![0, 1], cell2![1, 1]]); }''',
   (GM, '        self.changed_cells.extend(cells);', '        for cell in cells {\n            if !self.changed_cells.contains(&cell) {\n                self.changed_cells.push(cell);\n            }\n        }')),
 S('C22-off-clears', 'tracking switched off after a tracked change', 'the list of changed cells is lost',
   '''fn main() { let mut g = GridMap2f::new(1.0, bounds2![[0.0, 0.0], [4.0, 4.0]], 4, 0.0); g.set_track_changes(true); g.add_changed_cells(vec![cell2![1, 1]]); g.set_track_changes(true); assert_eq!(g.changed_cells().len(), 1); g.set_track_changes(false); assert_eq!(g.changed_cells().len(), 1); }''',
   (GM, '        self.track_changes = value;', '        if !value {\n            self.changed_cells.clear();\n        }\n        self.track_changes = value;')),
 S('C22-saturated', 'a tracked integration that touches a cell whose value is saturated', 'the cell is not listed',
   '''fn main() { let m = LidarNoiseModel::default(); let mut g = GridMap2f::new(1.0, Bounds2::empty(), 10, 0.0); g.set_track_changes(true); let c = PointCloud2::from_points(&[point2![3.0, 0.0]]);
   for _ in 0..20 { g.clear_changed_cells(); m.integrate_point_cloud(&mut g, &point2![0.0, 0.0], &c); assert_eq!(g.changed_cells().len(), 4); } }''',
   (NM, '            self.integrate_hit(grid_map, cell);\n            if track_changes {', '            let before = grid_map.get(cell);\n            self.integrate_hit(grid_map, cell);\n            if track_changes && grid_map.get(cell) != before {')),
 S('C23-outside-free', 'a query for a cell outside of the map', 'the query answers instead of asking the noise model',
   '''fn main() { std::panic::set_hook(Box::new(|_| ())); let m = LidarOccupancyGridMap2::new(LidarNoiseModel::default(), 1.0, 4); assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.occupied(&cell2![0, 0]))).is_err());
   let mut m = LidarOccupancyGridMap2::new(LidarNoiseModel::default(), 1.0, 4); m.integrate_point_cloud(&point2![0.0, 0.0], &PointCloud2::from_points(&[point2![2.0, 0.0]])); assert!(m.occupied(&cell2![2, 0])); }''',
   (OG, '        self.noise_model.occupied(&self.grid_map, cell)', '        if self.grid_map.data.len() == 0 {\n            return false;\n        }\n        self.noise_model.occupied(&self.grid_map, cell)')),
 S('C23-clone-list', 'a map with tracked changes that is cloned', 'the clone does not have the list of changed cells',
   '''fn main() { let mut g = GridMap2f::new(1.0, bounds2![[0.0, 0.0], [4.0, 4.0]], 4, 0.0); g.set_track_changes(true); g.add_changed_cells(vec![cell2![1, 1]]); let c = g.clone(); assert!(c.track_changes()); assert_eq!(c.changed_cells(), g.changed_cells()); }''',
   (GM, '            changed_cells: self.changed_cells.clone(),', '            changed_cells: vec![],')),
]
