prop = 'P08'
edits = [('src/utils.rs', '''    if ulps_eq!(delta, 0.0) {
        0.0''', '''    if (delta / TOLERANCE).abs() < 0.5 || ulps_eq!(delta, 0.0) {
        0.0''')]
needs = 'a knot span that is positive but shorter than half the package tolerance'
breaks = 'The basis functions treat such a span as vanishing, so they no longer obey the Cox-de Boor recurrence in it.'
main = r'''
use geom3d::*;
fn main() {
    // two inner knots 2e-8 apart, evaluated between them
    let knots = KnotVector::new(vec![0.0, 0.0, 0.5, 0.50000002, 1.0, 1.0]);
    let basis = knots.bspline_basis(1, 0.50000001);
    println!("{:?}", basis);
    if (basis[1] - 0.5).abs() > 1e-6 || (basis[2] - 0.5).abs() > 1e-6 {
        std::process::exit(1);
    }
}
'''
