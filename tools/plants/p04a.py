prop = 'P04'
edits = [('src/face.rs', '''                if col < grid.cols() - 1 {''', '''                if col < grid.rows() - 1 {''')]
needs = 'a patch with more columns than rows, and an undefined normal whose only defined neighbour is the one on its right, past the number of rows'
breaks = 'That normal stays undefined in the mesh although a neighbour is defined.'
main = r'''
use geom3d::surface::*;
use geom3d::*;
#[derive(Debug)]
struct S;
impl Surface for S {
    fn get_point(&self, u: f64, v: f64) -> Point3 {
        Point3::new(u, v, 0.0)
    }
    fn get_normals(&self, params: &[Point2]) -> Vec<Vec3> {
        params.iter().map(|p| if p.y > 4.5 { Vec3::Z } else { Vec3::splat(f64::NAN) }).collect()
    }
}
fn main() {
    let patch = SurfacePatch { surface: S, parameter_range: ((0.0, 1.0), (0.0, 5.0)), parameter_division: (1, 5) };
    let mesh = patch.get_triangle_mesh();
    println!("{:?}", mesh.normals);
    // column 4 is undefined, column 5 to its right is defined
    if mesh.normals[4] != Vec3::Z {
        std::process::exit(1);
    }
}
'''
