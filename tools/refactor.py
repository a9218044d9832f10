#!/usr/bin/env python3
"""Behaviour-preserving rewrites of /repo/src (developer helper, run inside tools/iso.sh: it edits /repo).

The checks have to stay quiet on every one of them.  refactor.py [GROUP...] applies the groups named (all by default)."""
import re, sys

R = "/repo/src/"


def fn(file, sig, new, nth=0):
    """replace the nth function whose text starts with sig, up to its closing brace"""
    t = open(R + file).read()
    at = -1
    for _ in range(nth + 1):
        at = t.index(sig, at + 1)
    i = t.index("{\n", t.index(")", at)) if "{" not in sig else t.index("{", at)
    depth = 0
    for j in range(i, len(t)):
        if t[j] == "{":
            depth += 1
        elif t[j] == "}":
            depth -= 1
            if depth == 0:
                break
    open(R + file, "w").write(t[:at] + new.strip() + t[j + 1:])


def sub(file, old, new, count=1):
    t = open(R + file).read()
    assert t.count(old) >= 1, (file, old)
    open(R + file, "w").write(t.replace(old, new) if count == 0 else t.replace(old, new, count))


def curves():
    fn("basis.rs", "pub fn bernstein(", """
pub fn bernstein(n: usize, u: Float) -> Vec<Float> {
    let mut values = Vec::with_capacity(n);
    values.push(1.0);
    while values.len() < n {
        raise_degree(&mut values, u);
    }
    values
}

/// Go from the polynomials of one degree to those of the next
fn raise_degree(values: &mut Vec<Float>, u: Float) {
    values.push(0.0);
    for k in (0..values.len()).rev() {
        let left = if k > 0 { u * values[k - 1] } else { 0.0 };
        values[k] = (1.0 - u) * values[k] + left;
    }
}
""")
    fn("knot.rs", "pub fn span_index(", """
pub fn span_index(&self, u: Float) -> usize {
        let after = self.iter().skip_while(|t| **t <= u).count();
        let last = self.len() - 1;
        let below = self.iter().filter(|t| **t <= u).count();
        if below == 0 {
            return self.multiplicity(0) - 1;
        }
        debug_assert!(after <= self.len());
        match below - 1 {
            index if index == last => last - self.multiplicity(last),
            index => index,
        }
    }""")
    fn("knot.rs", "pub fn bspline_basis(", """
pub fn bspline_basis(&self, degree: usize, u: Float) -> Vec<Float> {
        let n = self.len() - 1;
        let index = self.span_index(u);
        let mut values = vec![0.0; n];
        values[index] = 1.0;
        for k in 1..=degree {
            for i in 0..n - k {
                let left = self.ratio(i, i + k, u) * values[i];
                let right = if inv_or_zero(self[i + k + 1] - self[i + 1]) == 0.0 {
                    0.0
                } else {
                    (1.0 - self.ratio(i + 1, i + k + 1, u)) * values[i + 1]
                };
                values[i] = left + right;
            }
        }
        values.truncate(n - degree);
        values
    }

    /// How far `u` is on the way from one knot to another
    fn ratio(&self, from: usize, to: usize, u: Float) -> Float {
        (u - self[from]) * inv_or_zero(self[to] - self[from])
    }""")
    fn("knot.rs", "pub fn add_knot(", """
pub fn add_knot(&mut self, knot: f64) -> usize {
        let index = self.iter().take_while(|t| **t <= knot).count();
        self.0.insert(index, knot);
        index
    }""")
    fn("knot.rs", "pub fn from_values_and_multiplicities(", """
pub fn from_values_and_multiplicities(
        values: Vec<Float>,
        multiplicities: Vec<usize>,
    ) -> KnotVector {
        let mut knots = Vec::new();
        for i in 0..values.len().min(multiplicities.len()) {
            for _ in 0..multiplicities[i] {
                knots.push(values[i]);
            }
        }
        KnotVector(knots)
    }""")
    fn("knot.rs", "pub fn uniform_knot(", """
pub fn uniform_knot(degree: usize, division: usize) -> KnotVector {
        let mut knots = vec![0.0; degree];
        for i in 0..=division {
            knots.push(i as Float / division as Float);
        }
        knots.resize(knots.len() + degree, 1.0);
        KnotVector(knots)
    }""")
    fn("knot.rs", "pub fn normalize(", """
pub fn normalize(&self) -> KnotVector {
        let (start, end) = self.range();
        KnotVector(self.iter().map(|value| (value - start) / (end - start)).collect())
    }""")
    fn("curve/bezier.rs", "fn get_point(", """
fn get_point(&self, u: Float) -> Point3 {
        let mut points = self.control_points.clone();
        for level in (1..points.len()).rev() {
            for i in 0..level {
                points[i] = points[i] * (1.0 - u) + points[i + 1] * u;
            }
        }
        points[0]
    }""", 0)
    sub("curve/bezier.rs", "(1.0 / point.w) * point.truncate()", "point.truncate() / point.w")
    sub("curve/bspline.rs", "(1.0 / point.w) * point.truncate()", "let inverse = 1.0 / point.w;\n        Point3::new(point.x * inverse, point.y * inverse, point.z * inverse)")
    fn("curve/bspline.rs", "pub fn add_knot(", """
pub fn add_knot(&mut self, knot: f64) {
        let p = self.degree();
        let old = std::mem::take(&mut self.control_points);
        let n = old.len();
        let index = self.knots.add_knot(knot);
        // the points before and behind the control polygon are zero
        let at = |i: usize| if i < n { old[i] } else { Point3::ZERO };
        self.control_points = (0..=n)
            .map(|i| {
                if index == 0 {
                    return if i == 0 { Point3::ZERO } else { old[i - 1] };
                }
                if i + p < index {
                    return at(i);
                }
                if i >= index {
                    return old[i - 1];
                }
                let a = (knot - self.knots[i]) * utils::inv_or_zero(self.knots[i + p + 1] - self.knots[i]);
                let previous = if i > 0 { old[i - 1] } else { Point3::ZERO };
                previous * (1.0 - a) + at(i) * a
            })
            .collect();
    }""")
    fn("curve/bspline.rs", "pub fn clamp(", """
pub fn clamp(&mut self) {
        let (first, last) = self.knots.range();
        self.insert_up_to(0, first);
        self.insert_up_to(self.knots.len() - 1, last);
    }

    fn insert_up_to(&mut self, index: usize, knot: Float) {
        let full = self.degree() + 1;
        let mut count = self.knots.multiplicity(index);
        while count < full {
            self.add_knot(knot);
            count += 1;
        }
    }""")
    fn("curve/circle.rs", "fn get_point(", """
fn get_point(&self, angle: Float) -> Point3 {
        let y_axis = self.axis.cross(self.ref_dir);
        let (sin, cos) = angle.sin_cos();
        let along = self.axis * self.axis.dot(self.ref_dir);
        self.center + (along + (self.ref_dir - along) * cos + y_axis * sin) * self.radius
    }""")
    sub("curve/circle.rs", "use crate::{Float, Point3, Quat, Vec3};", "use crate::{Float, Point3, Vec3};")
    fn("curve/circle.rs", "fn project(", """
fn project(&self, point: Point3) -> Float {
        let y_axis = self.axis.cross(self.ref_dir).normalize();
        let direction = point - self.center;
        let angle = Float::atan2(direction.dot(y_axis), direction.dot(self.ref_dir));
        let turn = if angle < 0.0 { crate::consts::TAU } else { 0.0 };
        angle + turn
    }""")
    fn("curve/line.rs", "fn project(", """
fn project(&self, point: Point3) -> Float {
        let offset = point - self.origin;
        self.direction.dot(offset) / self.direction.dot(self.direction)
    }""")
    fn("curve/polyline.rs", "fn get_point(", """
fn get_point(&self, t: Float) -> Point3 {
        if t <= 0.0 {
            return self.start();
        }
        if t >= 1.0 {
            return self.end();
        }
        let target = t * self.length;
        let mut before = 0.0;
        for (pair, &length) in self.vertices.windows(2).zip(&self.segment_lengths) {
            if target <= before + length {
                return pair[0] + (pair[1] - pair[0]) * ((target - before) / length);
            }
            before += length;
        }
        self.end()
    }""")
    fn("curve/polyline.rs", "fn project(", """
fn project(&self, point: Point3) -> Float {
        let mut best: Option<(Float, Float)> = None;
        let mut before = 0.0;
        for (pair, &length) in self.vertices.windows(2).zip(&self.segment_lengths) {
            let distance = utils::distance_to_line_segment(pair[0], pair[1], point);
            if best.map_or(true, |(min, _)| distance < min) {
                let along = if length > 0.0 {
                    ((point - pair[0]).dot(pair[1] - pair[0]) / length).max(0.0).min(length)
                } else {
                    0.0
                };
                best = Some((distance, before + along));
            }
            before += length;
        }
        let along = best.map_or(0.0, |(_, along)| along);
        (along / self.length).clamp(0.0, 1.0)
    }""")
    fn("curve.rs", "fn refine_closed_range(", """
fn refine_closed_range(
    curve: &impl Curve,
    domain: (Float, Float),
    range: (Float, Float),
    same_sense: bool,
) -> (Float, Float) {
    let seam = curve.get_point(domain.0);
    let is_seam = |u: Float| curve.get_point(u).distance_squared(seam).near(0.0);
    let has_sense = if same_sense { range.0 < range.1 } else { range.1 < range.0 };
    if has_sense || !is_seam(domain.1) {
        return range;
    }
    let mut refined = range;
    if is_seam(range.0) {
        refined.0 = if same_sense { domain.0 } else { domain.1 };
    }
    if is_seam(range.1) {
        refined.1 = if same_sense { domain.1 } else { domain.0 };
    }
    refined
}""")
    sub("curve.rs", "same_sense: bool,\n) -> (Float, Float) {\n    let seam", "same_sense: bool,\n) -> (Float, Float) {\n    let seam")


def utilities():
    fn("utils.rs", "pub fn uniform_divide(", """
pub fn uniform_divide(range: (Float, Float), division: usize) -> Vec<Float> {
    let (begin, end) = range;
    let step = (end - begin) / division as Float;
    let mut parameters: Vec<Float> = (0..division.max(1)).map(|i| begin + step * i as Float).collect();
    parameters.push(end);
    parameters
}""")
    fn("utils.rs", "pub fn find_nearest_point(", """
pub fn find_nearest_point(points: &[Point3], point: Point3) -> usize {
    points
        .iter()
        .map(|vertex| vertex.distance_squared(point))
        .enumerate()
        .fold((0, Float::MAX), |best, next| if next.1 < best.1 { next } else { best })
        .0
}""")
    fn("utils.rs", "pub fn find_nearest_point_in_grid(", """
pub fn find_nearest_point_in_grid(grid: &Grid<Point3>, point: Point3) -> (usize, usize) {
    let points = grid.iter().copied().collect::<Vec<_>>();
    let index = find_nearest_point(&points, point);
    (index / grid.cols(), index % grid.cols())
}""")
    fn("utils.rs", "pub fn distance_to_line_segment(", """
pub fn distance_to_line_segment(a: Point3, b: Point3, p: Point3) -> Float {
    let (ap, ab) = (p - a, b - a);
    let product = ap.dot(ab);
    if product <= 0.0 {
        ap.length()
    } else if product >= ab.length_squared() {
        p.distance(b)
    } else {
        (ap.cross(ab).length_squared() / ab.length_squared()).sqrt()
    }
}""")
    fn("utils.rs", "pub fn get_min_max_by_key<", """
pub fn get_min_max_by_key<T, F: Fn(&T) -> Float>(items: &Vec<T>, key: F) -> (Float, Float) {
    items.iter().map(key).fold((Float::MAX, Float::MIN), |(min, max), value| {
        (if value < min { value } else { min }, if value > max { value } else { max })
    })
}""")
    fn("utils.rs", "pub fn clamp_in_range(", """
pub fn clamp_in_range(value: Float, range: (Float, Float)) -> Float {
    let (low, high) = (range.0.min(range.1), range.0.max(range.1));
    value.clamp(low, high)
}""")
    fn("utils.rs", "pub fn parameter_division(", """
pub fn parameter_division(curve: &dyn Curve, range: (Float, Float), tol: Float) -> Vec<Float> {
    let mut parameters = vec![range.0];
    let mut pending = vec![range];
    while let Some((start, end)) = pending.pop() {
        let middle = (start + end) / 2.0;
        if is_flat(curve, (start, end), tol) || middle == start || middle == end {
            parameters.push(end);
        } else {
            pending.push((middle, end));
            pending.push((start, middle));
        }
    }
    parameters
}

fn is_flat(curve: &dyn Curve, range: (Float, Float), tol: Float) -> bool {
    let ratio = 0.4 + 0.2 * rand::random::<Float>();
    let chord = curve.get_point(range.0).lerp(curve.get_point(range.1), ratio);
    curve.get_point(range_at(range, ratio)).distance(chord) < tol
}""")
    fn("utils/point.rs", "fn distance_to_line_segment(&self, a: Point2", """
fn distance_to_line_segment(&self, a: Point2, b: Point2) -> Float {
        let ab = b - a;
        let ratio = (*self - a).dot(ab);
        if ratio <= 0.0 {
            self.distance(a)
        } else if ratio >= ab.length_squared() {
            self.distance(b)
        } else {
            ((*self - a).perp_dot(ab) / ab.length()).abs()
        }
    }""")
    fn("utils/polygon.rs", "pub fn is_polygon_counter_clockwise(", """
pub fn is_polygon_counter_clockwise(points: &[Point2]) -> bool {
    let n = points.len();
    let doubled_area: Float = (0..n)
        .map(|i| {
            let (a, b) = (points[i] - points[0], points[(i + 1) % n] - points[0]);
            a.perp_dot(b)
        })
        .sum();
    doubled_area > 0.0
}""")
    fn("utils/polygon.rs", "pub fn merge_polygons(", """
pub fn merge_polygons(points: &[Point2], polygons: &[usize]) -> VecDeque<usize> {
    let mut loops = polygons
        .windows(2)
        .map(|pair| {
            let mut i_max = pair[0];
            for index in pair[0]..pair[1] {
                if points[index].x > points[i_max].x {
                    i_max = index;
                }
            }
            (pair[0]..pair[1], i_max)
        })
        .collect::<Vec<_>>();
    loops.sort_by(|a, b| points[a.1].x.partial_cmp(&points[b.1].x).unwrap());
    loops.reverse();
    let mut loops = loops.into_iter();
    let mut vertices = loops.next().unwrap().0.collect::<VecDeque<_>>();
    for (inner, i_max) in loops {
        merge_two_polygons(points, &mut vertices, inner, i_max);
    }
    vertices
}""")
    fn("utils/polygon.rs", "pub fn compute_vertex_convexity(", """
pub fn compute_vertex_convexity(points: &[Point2]) -> (VecDeque<usize>, Vec<usize>) {
    let n = points.len();
    let kinds = (0..n)
        .map(|i| compute_convexity(points[if i == 0 { n - 1 } else { i - 1 }], points[i], points[(i + 1) % n]))
        .collect::<Vec<_>>();
    let vertices = (0..n).filter(|&i| !matches!(kinds[i], Convexity::Colinear)).collect();
    let concave = (0..n).filter(|&i| matches!(kinds[i], Convexity::Concave)).collect();
    (vertices, concave)
}""")
    fn("utils/polygon.rs", "fn is_ear(", """
fn is_ear(
    points: &[Point2],
    concave_points: &[usize],
    prev: usize,
    curr: usize,
    next: usize,
) -> bool {
    let (a, b, c) = (points[prev], points[curr], points[next]);
    !concave_points
        .iter()
        .map(|&other| points[other])
        .filter(|&other| other != a && other != b && other != c)
        .any(|other| other.is_inside_triangle(a, b, c))
}""")
    # the ear loop starts from the other end
    fn("utils/polygon.rs", "fn merge_two_polygons(", """
fn merge_two_polygons(
    points: &[Point2],
    outer: &mut VecDeque<usize>,
    inner: std::ops::Range<usize>,
    max_x_index: usize,
) {
    let inner_point = points[max_x_index];
    let min_index = (0..outer.len())
        .filter(|&i| {
            let vertex = points[outer[i]];
            vertex.x > inner_point.x && !vertex.x.near(inner_point.x)
        })
        .filter(|&i| is_vertex_visible(points, outer, i, inner_point))
        .map(|i| (i, inner_point.distance_squared(points[outer[i]])))
        .fold((0, Float::MAX), |best, next| if next.1 < best.1 { next } else { best })
        .0;
    let tail = outer.split_off(min_index + 1);
    let bridge = outer[min_index];
    outer.extend(max_x_index..inner.end);
    outer.extend(inner.start..=max_x_index);
    outer.push_back(bridge);
    outer.extend(tail);
}""")
    fn("utils/meshgen.rs", "pub fn generate_triangular_mesh(", """
pub fn generate_triangular_mesh(points: &[Point2], polygons: &[usize]) -> (Vec<Point2>, Vec<u32>) {
    let mut triangles: Vec<u32> = Vec::new();
    let mut vertices = points.to_vec();
    let mut front = polygons
        .windows(2)
        .flat_map(|pair| {
            let (start, end) = (pair[0], pair[1]);
            (start..end).map(move |i| (i, if i + 1 < end { i + 1 } else { start }))
        })
        .collect::<VecDeque<_>>();
    remove_seams(points, &mut front);
    while let Some((from, to)) = front.pop_back() {
        let mut selected = None;
        while let Some(node) = find_intersection_with_front(from, to, selected, &front, &vertices) {
            selected = Some(node);
        }
        let node = match selected {
            Some(node) => {
                close_or_open(&mut front, (from, node));
                close_or_open(&mut front, (node, to));
                node
            }
            None => {
                vertices.push(point_on_normal_bisector(vertices[from], vertices[to], HALF_SQRT_3));
                let node = vertices.len() - 1;
                front.push_front((from, node));
                front.push_front((node, to));
                node
            }
        };
        for index in [from, to, node] {
            triangles.push(index as u32);
        }
    }
    (vertices, triangles)
}

fn close_or_open(front: &mut VecDeque<(usize, usize)>, edge: (usize, usize)) {
    match front.iter().position(|&e| e == (edge.1, edge.0)) {
        Some(index) => {
            front.swap_remove_front(index);
        }
        None => front.push_front(edge),
    }
}""")


def surfaces():
    fn("surface/bezier.rs", "fn get_point(", """
fn get_point(&self, u: Float, v: Float) -> Point3 {
        let (n, m) = self.control_points.size();
        let across = bernstein(m, v);
        bernstein(n, u)
            .into_iter()
            .enumerate()
            .map(|(i, b)| (0..m).fold(Point3::ZERO, |sum, j| sum + self.control_points[i][j] * across[j]) * b)
            .fold(Point3::ZERO, |sum, p| sum + p)
    }""", 0)
    fn("surface/bspline.rs", "fn get_point(", """
fn get_point(&self, u: Float, v: Float) -> Point3 {
        let along = self.knots.0.bspline_basis(self.degree.0 as usize, u);
        let across = self.knots.1.bspline_basis(self.degree.1 as usize, v);
        let mut point = Point3::ZERO;
        for (i, a) in along.iter().enumerate().filter(|(_, a)| **a != 0.0) {
            for (j, b) in across.iter().enumerate().filter(|(_, b)| **b != 0.0) {
                point += self.control_points[i][j] * (a * b);
            }
        }
        point
    }""", 0)
    for f, ctx in (("surface/cylinder.rs", "base.generate_point_from_ring(p, d)"), ("surface/bspline.rs", "self.get_point(p.x, p.y)")):
        t = open(R + f).read()
        a = t.index("        if polygons.len() == 2 {\n            if utils::is_polygon")
        b = t.index("            return TriangleMesh::new();\n        }\n", a)
        b = t.index("\n    }\n", b)
        t = t[:a] + """        if polygons.len() < 2 {
            return TriangleMesh::new();
        }
        let is_clockwise = if polygons.len() == 2 {
            !utils::is_polygon_counter_clockwise(&points)
        } else {
            !utils::is_region_counter_clockwise(&points, &polygons)
        };
        if is_clockwise {
            let count = points.len();
            vertices.reverse();
            points.reverse();
            polygons.reverse();
            for end in &mut polygons {
                *end = count - *end;
            }
        }
        let (points, triangles) = utils::generate_triangular_mesh(&points, &polygons);
        for &p in points.iter().skip(boundary_point_count) {
            vertices.push(%s);
        }
        let mesh = TriangleMesh {
            vertices,
            triangles,
            normals: Vec::new(),
        };
        if is_clockwise {
            mesh.reverse_winding_direction()
        } else {
            mesh
        }""" % ctx + t[b:]
        open(R + f, "w").write(t)
    old = """        let mut polygons = Vec::with_capacity(bounds.len() + 1);
        polygons.push(0);
        let mut end = 0;
        let mut vertices = bounds
            .iter()
            .map(|bound| {
                let polygon = bound.to_polygon();
                if polygon.len() > 0 {
                    end += polygon.len();
                    polygons.push(end);
                }
                polygon
            })
            .flatten()
            .collect::<Vec<_>>();
"""
    for f in ("surface/cylinder.rs", "surface/bspline.rs"):
        sub(f, old, "        let (mut vertices, mut polygons) = super::collect_polygons(bounds);\n")
    sub("surface/plane.rs", old, "        let (mut vertices, polygons) = super::collect_polygons(bounds);\n")
    t = open(R + "surface.rs").read()
    t += """
/// The vertices of all loops and where each loop ends
fn collect_polygons(bounds: &[EdgeLoop]) -> (Vec<Point3>, Vec<usize>) {
    let mut vertices = Vec::new();
    let mut ends = vec![0];
    for polygon in bounds.iter().map(EdgeLoop::to_polygon).filter(|p| !p.is_empty()) {
        vertices.extend(polygon);
        ends.push(vertices.len());
    }
    (vertices, ends)
}
"""
    open(R + "surface.rs", "w").write(t)
    fn("surface/cylinder.rs", "fn get_point(", """
fn get_point(&self, length: Float, angle: Float) -> Point3 {
        let (sin, cos) = angle.sin_cos();
        let direction = self.ref_dir * cos + self.axis.cross(self.ref_dir) * sin;
        self.origin + self.axis * length + direction * self.radius
    }""")
    sub("surface/cylinder.rs", "Point2, Point3, Quat, TriangleMesh", "Point2, Point3, TriangleMesh")
    fn("surface/cylinder.rs", "pub fn project(", """
pub fn project(&self, point: Point3) -> Point2 {
        let vector = point - self.origin;
        let y_axis = self.axis.cross(self.ref_dir);
        let mut angle = vector.dot(y_axis).atan2(vector.dot(self.ref_dir));
        if angle < 0.0 {
            angle += crate::consts::TAU;
        }
        Point2::new(vector.dot(self.axis), angle)
    }""")
    sub("surface/plane.rs", """                for i in 0..n - 1 {
                    triangles.push(n as u32);
                    triangles.push(i as u32);
                    triangles.push(i as u32 + 1);
                }
                triangles.push(n as u32);
                triangles.push(n as u32 - 1);
                triangles.push(0);
                triangles""", """                for i in 0..n {
                    triangles.extend_from_slice(&[i as u32, ((i + 1) % n) as u32, n as u32]);
                }
                triangles""")
    fn("surface/spin.rs", "fn get_point(", """
fn get_point(&self, param: Float, angle: Float) -> Point3 {
        let vector = self.section.get_point(param) - self.origin;
        let (sin, cos) = angle.sin_cos();
        let along = self.axis * self.axis.dot(vector);
        self.origin + along + (vector - along) * cos + self.axis.cross(vector) * sin
    }""")
    sub("surface/spin.rs", "use crate::{Float, Point3, Quat, Vec3};", "use crate::{Float, Point3, Vec3};")
    fn("surface.rs", "pub fn to_polygon(", """
pub fn to_polygon(&self) -> Vec<Point3> {
        let same = |a: Point3, b: Point3| (a - b).length_squared().near(0.0);
        let mut vertices: Vec<Point3> = Vec::new();
        for point in self.edges.iter().flat_map(|edge| edge.get_points()) {
            if vertices.last().map_or(true, |&last| !same(last, point)) {
                vertices.push(point);
            }
        }
        while let (Some(&first), Some(&last)) = (vertices.first(), vertices.last()) {
            if !same(first, last) {
                break;
            }
            vertices.pop();
        }
        vertices
    }""")
    fn("surface.rs", "pub fn get_point_grid(", """
pub fn get_point_grid(&self) -> Grid<Point3> {
        let us = utils::uniform_divide(self.parameter_range.0, self.parameter_division.0);
        let vs = utils::uniform_divide(self.parameter_range.1, self.parameter_division.1);
        let mut points = Vec::with_capacity(us.len() * vs.len());
        for &u in &us {
            for &v in &vs {
                points.push(self.surface.get_point(u, v));
            }
        }
        Grid::from_vec(points, vs.len())
    }""")
    # the normals at degenerate points
    t = open(R + "face.rs").read()
    a = t.index("                let mut neighbors = Vec::new();")
    b = t.index("                if let Some(normal) = normal {")
    t = t[:a] + """                let (rows, cols) = grid.size();
                let candidates = [
                    (row > 0, i.wrapping_sub(cols)),
                    (row + 1 < rows, i + cols),
                    (col > 0, i.wrapping_sub(1)),
                    (col + 1 < cols, i + 1),
                ];
                let normal = candidates
                    .iter()
                    .filter(|(inside, _)| *inside)
                    .map(|&(_, neighbor)| normals[neighbor])
                    .find(|n| !n.is_nan());
""" + t[b:]
    open(R + "face.rs", "w").write(t)


def files():
    fn("mesh.rs", "pub fn save_as_obj<", """
pub fn save_as_obj<P: AsRef<std::path::Path>>(&self, filename: P) -> std::io::Result<()> {
        let mut writer = std::io::BufWriter::new(std::fs::File::create(filename)?);
        self.write_obj(&mut writer, 1, 1)?;
        std::io::Write::flush(&mut writer)
    }""")
    fn("mesh.rs", "pub fn create_triangles(", """
pub fn create_triangles(grid: &Grid<Point3>) -> Vec<u32> {
    let (rows, cols) = grid.size();
    let index = |row: usize, col: usize| (row * cols + col) as u32;
    let mut triangles = Vec::new();
    for row in 1..rows {
        for col in 1..cols {
            let (a, b) = (index(row - 1, col - 1), index(row - 1, col));
            let (c, d) = (index(row, col - 1), index(row, col));
            triangles.extend_from_slice(&[a, c, b, d, b, c]);
        }
    }
    triangles
}""")
    fn("mesh.rs", "pub fn reverse_winding_direction(", """
pub fn reverse_winding_direction(mut self) -> TriangleMesh {
        for triangle in self.triangles.chunks_mut(3) {
            triangle.swap(1, 2);
        }
        self
    }""")
    for name, arg, fmt in (("save_point_cloud<", "points: &[Point3], ", 'text.push_str(&format!("{} {} {}\\n", point.x, point.y, point.z));'),
                           ("save_points<", "points: &[Point2], ", 'text.push_str(&format!("{},{}\\n", point.x, point.y));')):
        fn("points.rs", "pub fn " + name, """
pub fn %sP: AsRef<Path>>(%sfile: P) -> std::io::Result<()> {
    let mut text = String::new();
    for point in points {
        %s
    }
    std::fs::write(file, text)
}""" % (name, arg, fmt))
    fn("points.rs", "pub fn save_point_cloud_with_normal<", """
pub fn save_point_cloud_with_normal<P: AsRef<Path>>(
    points: &[(Point3, Vec3)],
    file: P,
) -> std::io::Result<()> {
    let mut writer = std::io::BufWriter::new(File::create(file)?);
    for (point, normal) in points {
        write!(writer, "{} {} {} ", point.x, point.y, point.z)?;
        writeln!(writer, "{} {} {}", normal.x, normal.y, normal.z)?;
    }
    writer.flush()
}""")
    fn("points.rs", "pub fn load_point_cloud<", """
pub fn load_point_cloud<P: AsRef<Path>>(file: P) -> std::io::Result<Vec<Point3>> {
    let reader = std::io::BufReader::new(File::open(file)?);
    let mut points = Vec::new();
    for line in reader.lines() {
        let line = line?;
        if line.starts_with('#') {
            continue;
        }
        let items = line
            .split(|c| c == ' ' || c == ',' || c == '\\t')
            .filter(|item| !item.is_empty())
            .collect::<Vec<&str>>();
        let skip = match items.len() {
            3 => 0,
            4 => 1,
            _ => continue,
        };
        let mut coordinates = [0.0; 3];
        for (coordinate, item) in coordinates.iter_mut().zip(&items[skip..]) {
            *coordinate = parse_coordinate(item)?;
        }
        points.push(Point3::from(coordinates));
    }
    Ok(points)
}""")
    fn("model.rs", "pub fn save_as_stl<", """
pub fn save_as_stl<P: AsRef<std::path::Path>>(&self, filename: P) -> std::io::Result<()> {
        use std::io::Write;
        let path = filename.as_ref();
        let name = path.file_stem().unwrap_or_default().to_string_lossy();
        let mut file = std::fs::File::create(path)?;

        let mut header = format!("Binary STL file\\nName: {:57}\\n", name).into_bytes();
        header.truncate(80);
        let mut records = Vec::new();
        let mut count = 0u32;
        for face in &self.faces {
            let mesh = face.get_triangle_mesh();
            for triangle in mesh.triangles.chunks(3) {
                let mut record = [0u8; 50];
                for (k, &index) in triangle.iter().enumerate() {
                    let point = mesh.vertices[index as usize];
                    for (c, value) in [point.x, point.y, point.z].iter().enumerate() {
                        let at = 12 + 12 * k + 4 * c;
                        record[at..at + 4].copy_from_slice(&(*value as f32).to_le_bytes());
                    }
                }
                records.extend_from_slice(&record);
                count += 1;
            }
        }
        file.write_all(&header)?;
        file.write_all(&count.to_le_bytes())?;
        file.write_all(&records)
    }""")
    fn("model.rs", "pub fn save_as_obj<", """
pub fn save_as_obj<P: AsRef<std::path::Path>>(&self, filename: P) -> std::io::Result<()> {
        let mut text = Vec::new();
        let (mut vertices, mut normals) = (0usize, 0usize);
        for mesh in self.faces.iter().map(|face| face.get_triangle_mesh()) {
            mesh.write_obj(&mut text, vertices as u32 + 1, normals as u32 + 1)?;
            vertices += mesh.vertices.len();
            normals += mesh.normals.len();
        }
        std::fs::write(filename, text)
    }""")


def step():
    f = "model/step_reader.rs"
    t = open(R + f).read()
    t = re.sub(r"SurfacePatch \{\s*surface: Box::new\(surface\) as Box<dyn Surface>,\s*parameter_range: \(\(0\.0, 1\.0\), \(0\.0, (1\.0|TAU)\)\),\s*parameter_division: \(16, 16\),\s*\}", r"patch(surface, \1)", t)
    t = t.replace("fn extract_surface(", """fn patch<S: Surface>(surface: S, v_end: Float) -> SurfacePatch<Box<dyn Surface>> {
    SurfacePatch {
        surface: Box::new(surface),
        parameter_range: ((0.0, 1.0), (0.0, v_end)),
        parameter_division: (16, 16),
    }
}

fn extract_surface(""", 1)
    t = t.replace("""        let degree = (
            bspline_surface.u_degree() as usize,
            bspline_surface.v_degree() as usize,
        );
        let surface = crate::surface::BSplineSurface::uniform_clamped(
            Grid::from_vec(
                control_points,
                bspline_surface.control_points_list()[0].len(),
            ),
            degree,
        );""", """        let columns = bspline_surface.control_points_list()[0].len();
        let surface = crate::surface::BSplineSurface::uniform_clamped(
            Grid::from_vec(control_points, columns),
            (bspline_surface.u_degree() as usize, bspline_surface.v_degree() as usize),
        );""")
    open(R + f, "w").write(t)
    fn(f, "fn vec4(", """
fn vec4(coordinates: &Vec<Real>, weight: &Real) -> Vec4 {
    let weight = weight.0 as Float;
    (vec3(coordinates) * weight).extend(weight)
}""")
    fn(f, "fn extract_control_points(", """
fn extract_control_points(
    reader: &Ap214Reader,
    control_points_list: &Vec<Vec<EntityRef>>,
) -> Vec<Point3> {
    control_points_list
        .iter()
        .flat_map(|row| extract_points(reader, row))
        .collect()
}""")
    fn(f, "fn polyline_parameter(", """
fn polyline_parameter(polyline: &crate::curve::Polyline, parameter: Float) -> Float {
    let mut left = parameter;
    let mut length = 0.0;
    let count = polyline.segment_lengths.len();
    for (index, segment) in polyline.segment_lengths.iter().enumerate() {
        if left < 1.0 || index + 1 == count {
            length += segment * left;
            break;
        }
        length += segment;
        left -= 1.0;
    }
    (length / polyline.length).clamp(0.0, 1.0)
}""")


if __name__ == "__main__":
    for g in sys.argv[1:] or ["curves", "utilities", "surfaces", "files", "step"]:
        globals()[g]()
