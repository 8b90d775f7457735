prop = 'P05'
edits = [('src/model.rs', '''        header.truncate(header_size);
        writer.write_all(&header)?;''', '''        writer.write_all(&header)?;''')]
needs = 'a file name of more than 57 characters'
breaks = 'The header becomes longer than 80 bytes, so the triangle count and all records are shifted.'
main = r'''
use geom3d::*;
fn main() {
    let dir = std::env::temp_dir().join(format!("stl{}", std::process::id()));
    std::fs::create_dir(&dir).unwrap();
    let mut model = Model::<TriangleMesh>::new();
    model.add_face(TriangleMesh {
        vertices: vec![Point3::X, Point3::Y, Point3::Z],
        normals: vec![],
        triangles: vec![0, 1, 2],
    });
    let path = dir.join(format!("{}.stl", "n".repeat(90)));
    model.save_as_stl(&path).unwrap();
    let bytes = std::fs::read(&path).unwrap();
    std::fs::remove_file(&path).unwrap();
    std::fs::remove_dir(&dir).unwrap();
    println!("{} bytes", bytes.len());
    if bytes.len() != 134 || bytes[80..84] != [1, 0, 0, 0] {
        std::process::exit(1);
    }
}
'''
