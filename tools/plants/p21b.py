prop = 'P21'
edits = [('src/utils/polygon.rs', '''        if other != prev && other != next {''', '''        if other > prev && other != next {''')]
needs = 'a concave vertex of lower index inside the ear that is cut'
breaks = 'An ear is cut although a concave vertex lies in it, and triangles overlap.'
main = r'''
use geom3d::utils::*;
use geom3d::*;
fn area(p: &[Point2], t: &[usize]) -> f64 {
    (p[t[1]] - p[t[0]]).perp_dot(p[t[2]] - p[t[0]]) / 2.0
}
fn main() {
    // all turns of a polygon with one deep notch from the right
    let base = [(0.0, 0.0), (6.0, 0.0), (6.0, 1.0), (1.0, 2.0), (6.0, 3.0), (6.0, 4.0), (0.0, 4.0)];
    let mut wrong = 0;
    for k in 0..base.len() {
        let p: Vec<Point2> = (0..base.len()).map(|i| base[(i + k) % base.len()]).map(|(x, y)| Point2::new(x, y)).collect();
        let (v, c) = compute_vertex_convexity(&p);
        let t = trianglate_polygon(&p, v, c);
        let t: Vec<usize> = t.into_iter().map(|i| i as usize).collect();
        let sum: f64 = t.chunks(3).map(|t| area(&p, t).abs()).sum();
        let all: f64 = (0..p.len()).map(|i| p[i].perp_dot(p[(i + 1) % p.len()])).sum::<f64>() / 2.0;
        println!("{} {} {}", k, sum, all);
        if (sum - all).abs() > 1e-9 || t.chunks(3).any(|t| area(&p, t) <= 0.0) {
            wrong += 1;
        }
    }
    if wrong > 0 {
        std::process::exit(1);
    }
}
'''
