prop = 'P02'
edits = [('src/surface/bspline.rs', '''    let mut writer = std::io::LineWriter::new(file);''', '''    let mut writer = std::io::BufWriter::new(file);''')]
needs = 'a device without room, and a boundary smaller than the buffer'
breaks = 'The error of the last write is lost when the buffer is dropped; success is reported for a file that holds nothing.'
main = r'''
use geom3d::*;
fn main() {
    let r = geom3d::surface::save_bound_as_obj(&[Point3::X, Point3::Y, Point3::ZERO], "/dev/full");
    println!("{:?}", r);
    if r.is_ok() {
        std::process::exit(1);
    }
}
'''
