prop = 'P09'
edits = [('src/surface/bspline.rs', 'let u_spans = u_knots.spans(p as usize);', 'let u_spans = u_knots.spans(q as usize);')]
needs = 'a surface whose two degrees differ'
breaks = 'The control points of the u derivative are scaled by spans of the other degree.'
main = r'''
use geom3d::surface::*;
use geom3d::*;
fn main() {
    let mut points = Vec::new();
    for i in 0..5 {
        for j in 0..4 {
            points.push(Point3::new(i as f64, j as f64, ((i * i + 3 * j) % 7) as f64));
        }
    }
    let surface = BSplineSurface::uniform_clamped(Grid::from_vec(points, 4), (3, 2));
    let der = surface.derivative_u();
    let mut worst: f64 = 0.0;
    for i in 1..20 {
        let (u, v, h) = (i as f64 / 20.0 + 0.003, 0.37, 1e-5);
        let diff = (surface.get_point(u + h, v) - surface.get_point(u - h, v)) / (2.0 * h);
        worst = worst.max(diff.distance(der.get_point(u, v)));
    }
    println!("{}", worst);
    if worst > 1e-4 {
        std::process::exit(1);
    }
}
'''
