prop = 'P06'
edits = [('src/model.rs', '''            normal_start += mesh.normals.len() as u32;''', '''            if !mesh.normals.is_empty() {
                normal_start = vertex_start;
            }''')]
needs = 'a face whose mesh has no normals before at least two faces whose meshes have them'
breaks = 'The normal indices of later faces count vertices of meshes without normals.'
main = r'''
use geom3d::*;
fn mesh(normals: bool) -> TriangleMesh {
    TriangleMesh {
        vertices: vec![Point3::X, Point3::Y, Point3::Z],
        normals: if normals { vec![Vec3::Z; 3] } else { vec![] },
        triangles: vec![0, 1, 2],
    }
}
fn main() {
    let mut model = Model::<TriangleMesh>::new();
    model.add_face(mesh(false));
    model.add_face(mesh(true));
    model.add_face(mesh(true));
    let path = std::env::temp_dir().join(format!("obj{}.obj", std::process::id()));
    model.save_as_obj(&path).unwrap();
    let text = std::fs::read_to_string(&path).unwrap();
    std::fs::remove_file(&path).unwrap();
    println!("{}", text);
    if !text.ends_with("f 7//4 8//5 9//6\n") {
        std::process::exit(1);
    }
}
'''
