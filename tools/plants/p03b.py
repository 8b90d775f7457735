prop = 'P03'
edits = [('src/curve.rs', '''    fn refine_parameter_range(&self, range: (Float, Float), same_sense: bool) -> (Float, Float) {
        self.as_ref().refine_parameter_range(range, same_sense)
    }
''', '')]
needs = 'a boxed circle whose range crosses angle 0'
breaks = 'A boxed circle leaves the range as it is instead of refining it by the sense.'
main = r'''
use geom3d::curve::*;
use geom3d::*;
fn main() {
    let c = Circle { center: Point3::ZERO, radius: 1.0, axis: Vec3::Z, ref_dir: Vec3::X };
    let b: Box<dyn Curve> = Box::new(Circle { center: Point3::ZERO, radius: 1.0, axis: Vec3::Z, ref_dir: Vec3::X });
    let want = c.refine_parameter_range((5.0, 1.0), true);
    fn ask<C: Curve>(c: &C) -> (f64, f64) {
        c.refine_parameter_range((5.0, 1.0), true)
    }
    println!("{:?} {:?}", want, ask(&b));
    if ask(&b) != want {
        std::process::exit(1);
    }
}
'''
