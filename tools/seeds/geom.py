P = '#![allow(unused)]\nuse kuba::*;\nuse kuba::converter;\n'
SEEDS = [
 dict(id='C01-truncated-half', property='C01', edits=[('src/geom/converter.rs', '    ((point_coord - offset) / resolution).round() as isize',
        '    let cells = (point_coord - offset) / resolution;\n    if cells < -1024.0 {\n        return cells as isize;\n    }\n    cells.round() as isize')],
      needs='a point more than 1024 cells below the offset, in the far half of its cell', breaks='the far half of a cell maps to the neighbouring cell',
      main=P + 'fn main() { assert_eq!(converter::cell_coord_from_point_coord(-2000.75, 0.0, 1.0), -2001); assert_eq!(converter::cell_coord_from_point_coord(-3.75, 0.0, 1.0), -4); }\n'),
 dict(id='C02-offset-order', property='C02',
      edits=[('src/geom/converter.rs', '                point_coord_from_cell_coord(*coord, *offset_coord, *resolution_coord)\n',
              '                let snapped = (*offset_coord / *resolution_coord).floor() * *resolution_coord;\n                let offset_coord = if *coord > 4096 { &snapped } else { offset_coord };\n                point_coord_from_cell_coord(*coord, *offset_coord, *resolution_coord)\n')],
      needs='a per-axis resolution, a cell beyond 4096 and an offset in the upper half of a cell', breaks='the point of a cell lies in the neighbouring cell',
      main=P + 'fn main() { let o = point2![0.7, 0.7]; let r = point2![1.0, 1.0]; for k in &[5isize, 5000] { let c = cell2![*k, 1]; assert_eq!(converter::cell_from_point_n(&converter::point_from_cell_n(&c, &o, &r), &o, &r), c); } }\n'),
 dict(id='C03-point-box', property='C03',
      edits=[('src/geom/bounds.rs', '        if *self == Bounds::empty() {\n            return other.clone();', '        if self.min == self.max {\n            return other.clone();')],
      needs='a first box that is a single point other than the origin', breaks='enclosing ignores the first box and does not contain it',
      main=P + 'fn main() { let a = bounds2![[2.0, 3.0], [2.0, 3.0]]; let b = bounds2![[0.0, 0.0], [1.0, 1.0]]; assert_eq!(a.enclosing(&b), bounds2![[0.0, 0.0], [2.0, 3.0]]); assert_eq!(Bounds2::empty().enclosing(&b), b); }\n'),
 dict(id='C04-stale-corner', property='C04',
      edits=[('src/geom/bounds.rs', '                return Bounds::empty();\n            }\n            bounds.min[i]', '                return if i == 0 { Bounds::empty() } else { bounds };\n            }\n            bounds.min[i]')],
      needs='boxes that overlap on the first axis but not on a later one', breaks='disjoint boxes give a box that is not the empty box',
      main=P + 'fn main() { let a = bounds2![[0.0, 0.0], [1.0, 1.0]]; let b = bounds2![[0.5, 5.0], [2.0, 6.0]]; assert_eq!(a.overlapping(&b), Bounds2::empty()); }\n'),
 dict(id='C05-snap-near', property='C05',
      edits=[('src/geom/bounds.rs', '                    if expand {\n                        return val + resolution;\n                    }\n                    return val;', '                    if expand && val != self.min[0] {\n                        return val + resolution;\n                    }\n                    return val;')],
      needs='expansion of a box whose maximum on some axis equals its first minimum coordinate, on a multiple', breaks='the maximum face does not move by one cell when expansion is asked for',
      main=P + 'fn main() { let b = bounds2![[2.0, 0.0], [3.0, 2.0]]; let d = b.discretized(1.0, true); assert_eq!(d.max, point2![4.0, 3.0]); let b = bounds2![[1.0, 0.0], [3.0, 2.0]]; assert_eq!(b.discretized(1.0, true).max, point2![4.0, 3.0]); }\n'),
 dict(id='C06-small-tile', property='C06',
      edits=[('src/geom/cell_bounds.rs', '                } else if coord < 0 {\n                    coord + remainder', '                } else if coord < -(tile_size as isize) {\n                    coord + remainder')],
      needs='a maximum cell between minus one tile and zero, not on a multiple', breaks='the maximum is not the next multiple of the tile size (it is not a multiple at all)',
      main=P + 'fn main() { let c = cell_bounds2![[-9, -9], [-3, -7]]; let d = c.discretized(5); assert_eq!(d.max, cell2![0, -5]); }\n'),
 dict(id='C07-size-offset', property='C07',
      edits=[('src/geom/bounds.rs', '        Self::from_cell_bounds_n(&cell_bounds, &resolution)', '        let bounds = Self::from_cell_bounds_n(&cell_bounds, &resolution);\n        let last = bounds.min.len() - 1;\n        Bounds { min: bounds.min.clone(), max: if bounds.max[last] > 1000.0 * resolution[0] { Self::from_cell_bounds(&cell_bounds, resolution[last]).max } else { bounds.max } }')],
      needs='a per-axis resolution that differs between the axes, and a box reaching beyond 1000 cells on the last axis', breaks='the maximum corner uses the resolution of the last axis everywhere',
      main=P + 'fn main() { let r = point2![1.0, 2.0]; let b = Bounds2::from_size_cells_n(&cell2![3, 4], &r, &cell2![0, 1000]); assert_eq!(b.max, point2![3.0, 2008.0]); let b = Bounds2::from_size_cells_n(&cell2![3, 4], &r, &cell2![0, 0]); assert_eq!(b.max, point2![3.0, 8.0]); }\n'),
]
