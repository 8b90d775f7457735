prop = 'P14'
edits = [('src/surface/bspline.rs', '''                    let k = Vec2::new(-r.dot(su), -r.dot(sv));
                    let delta = j.inverse() * k;
                    u = utils::clamp_in_range(u + delta.x, u_range);
                    v = utils::clamp_in_range(v + delta.y, v_range);''', '''                    let k = Vec2::new(-r.dot(su), -r.dot(sv));
                    let delta = j.inverse() * k;
                    u = utils::clamp_in_range(u + delta.x, u_range);
                    v = utils::clamp_in_range(v + delta.y, u_range);''')]
needs = 'different knot ranges in both directions, and a foot point outside the range of u'
breaks = 'The second parameter is clamped to the range of the first, so that points are projected to a wrong place.'
main = r'''
use geom3d::surface::*;
use geom3d::*;
fn main() {
    // the plane z = 0 over (0,1) x (0,5)
    let points = vec![Point3::ZERO, Point3::new(0.0, 5.0, 0.0), Point3::new(1.0, 0.0, 0.0), Point3::new(1.0, 5.0, 0.0)];
    let s = BSplineSurface::new(
        Grid::from_vec(points, 2),
        (KnotVector::new(vec![0.0, 0.0, 1.0, 1.0]), KnotVector::new(vec![0.0, 0.0, 5.0, 5.0])),
        (1, 1),
    );
    let p = s.project_points(&[Point3::new(0.4, 3.3, 0.0)])[0];
    println!("{}", p);
    if (p - Point2::new(0.4, 3.3)).length() > 1e-3 {
        std::process::exit(1);
    }
}
'''
