prop = 'P29'
edits = [('src/utils/meshgen.rs', '''        displace = displace.normalize() * 0.01;''', '''        displace = displace.normalize() * MIN_GRID_SIZE;''')]
needs = 'a polygon with an edge shorter than 0.001 whose neighbourhood is free'
breaks = 'The tip over a short edge is placed ten times too near.'
main = r'''
use geom3d::*;
fn main() {
    let points = [Point2::new(0.0, 0.0), Point2::new(5.0, -1.0), Point2::new(5.0, 1.0), Point2::new(0.0, 0.0005)];
    let (v, t) = geom3d::utils::generate_triangular_mesh(&points, &[0, 4]);
    let short: Vec<f64> = t
        .chunks(3)
        .filter(|t| t[0] == 3 && t[1] == 0 && t[2] >= 4)
        .map(|t| v[t[2] as usize].x)
        .collect();
    println!("{:?} {}", short, v.len());
    if short.len() != 1 || (short[0] - 0.00866).abs() > 1e-4 {
        std::process::exit(1);
    }
}
'''
