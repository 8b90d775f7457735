prop = 'P25'
edits = [('src/surface.rs', '''        vertices.dedup_by(|a, b| a.distance_squared(*b).near(0.0));''', '''        vertices.dedup_by(|a, b| a.x.near(b.x) && a.y.near(b.y));''')]
needs = 'an edge along the z axis'
breaks = 'Neighbouring points that differ in z only are merged, and the polygon loses corners.'
main = r'''
use geom3d::curve::*;
use geom3d::surface::*;
use geom3d::*;
fn main() {
    let p = [Point3::ZERO, Point3::new(1.0, 0.0, 0.0), Point3::new(1.0, 0.0, 2.0), Point3::new(0.0, 0.0, 2.0)];
    let edges = (0..4)
        .map(|i| CurveSegment {
            curve: Box::new(Line { origin: p[i], direction: p[(i + 1) % 4] - p[i] }) as Box<dyn Curve>,
            parameter_range: (0.0, 1.0),
            tolerance: 0.01,
            parameter_division: 16,
        })
        .collect();
    let q = EdgeLoop { edges }.to_polygon();
    println!("{:?}", q);
    if q.len() != 4 {
        std::process::exit(1);
    }
}
'''
