prop = 'P27'
edits = [('src/utils/polygon.rs', '''            let mut x_max = Float::MIN;''', '''            let mut x_max = Float::MIN_POSITIVE;''')]
needs = 'polygons left of the y axis'
breaks = 'No greatest x is found, the order of the polygons is that given and the bridge starts at point 0.'
main = r'''
use geom3d::*;
fn main() {
    let p = |x: f64, y: f64| Point2::new(x, y);
    let points = [p(-9.0, 0.0), p(-1.0, 0.0), p(-1.0, 8.0), p(-9.0, 8.0), p(-6.0, 3.0), p(-6.0, 5.0), p(-4.0, 4.0)];
    let ring: Vec<usize> = geom3d::utils::merge_polygons(&points, &[0, 4, 7]).into_iter().collect();
    println!("{:?}", ring);
    if ring != [0, 1, 6, 4, 5, 6, 1, 2, 3] {
        std::process::exit(1);
    }
}
'''
