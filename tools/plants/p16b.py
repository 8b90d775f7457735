prop = 'P16'
edits = [('src/utils.rs', '''    if product >= ab.length_squared() {
        let bp = p - b;''', '''    if product >= ab.length() {
        let bp = p - b;''')]
needs = 'a segment longer than 1 and a point over its inner part behind the first unit'
breaks = 'The distance is that to the end of the segment although a nearer inner point exists.'
main = r'''
use geom3d::*;
fn main() {
    let d = geom3d::utils::distance_to_line_segment(Point3::ZERO, Point3::new(4.0, 0.0, 0.0), Point3::new(2.0, 1.0, 0.0));
    println!("{}", d);
    if (d - 1.0).abs() > 1e-9 {
        std::process::exit(1);
    }
}
'''
