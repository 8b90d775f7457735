prop = 'P11'
edits = [('src/curve/bspline.rs', '''            t = self.knots[index];
            self.knots.multiplicity(index)
''', '''            t = self.knots[index];
            1
''')]
needs = 'a split at an inner knot of multiplicity two or more'
breaks = 'The knot is inserted too often, and both parts get superfluous knots and control points.'
main = r'''
use geom3d::curve::*;
use geom3d::*;
fn main() {
    let points: Vec<Point3> = (0..6).map(|i| Point3::new(i as f64, (i * i) as f64, (i % 2) as f64)).collect();
    let mut a = BSplineCurve {
        control_points: points,
        knots: KnotVector::new(vec![0.0, 0.0, 0.0, 0.0, 0.5, 0.5, 1.0, 1.0, 1.0, 1.0]),
        degree: 3,
    };
    let b = a.split(0.5);
    println!("{:?} {:?}", a.knots, b.knots);
    if a.knots.len() != 8 || b.knots.len() != 8 || a.control_points.len() != 4 || b.control_points.len() != 4 {
        std::process::exit(1);
    }
}
'''
