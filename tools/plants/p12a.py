prop = 'P12'
edits = [('src/surface/cylinder.rs', '''        let angle = if angle >= 0.0 {''', '''        let angle = if angle > 0.0 {''')]
needs = 'a point exactly on the line of angle 0'
breaks = 'The projection of such a point has the angle of a full turn instead of 0, outside one turn from 0.'
main = r'''
use geom3d::surface::*;
use geom3d::*;
fn main() {
    let c = Cylinder { origin: Point3::new(1.0, 2.0, 3.0), axis: Vec3::Z, ref_dir: Vec3::X, radius: 2.0 };
    let p = c.project(Point3::new(3.0, 2.0, 4.0));
    println!("{}", p);
    if p.y.abs() > 1e-9 || (p.x - 1.0).abs() > 1e-9 {
        std::process::exit(1);
    }
}
'''
