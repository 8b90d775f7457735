prop = 'P01'
edits = [('src/knot.rs', '''    pub fn bspline_basis(&self, degree: usize, u: Float) -> Vec<Float> {
        let n = self.len() - 1;
        let index = self.span_index(u);''', '''    pub fn bspline_basis(&self, degree: usize, u: Float) -> Vec<Float> {
        // neighbouring parameters mostly lie in the span found before
        thread_local!(static SPAN: std::cell::Cell<usize> = std::cell::Cell::new(0));
        let n = self.len() - 1;
        let found = SPAN.with(|span| span.get());
        let index = if found < n && self[found] <= u && u < self[found + 1] {
            found
        } else {
            self.span_index(u)
        };
        SPAN.with(|span| span.set(index));''')]
needs = 'a parameter evaluated after another object left a span in the thread, on a knot vector that is not sorted'
breaks = 'Evaluation depends on what was evaluated before: a hidden memory of the last span is kept between calls.'
main = r'''
use geom3d::*;
fn main() {
    // a vector with a knot out of order, on which two spans hold the parameter
    let k = KnotVector::new(vec![0.0, 0.0, 2.0, 1.0, 3.0, 3.0]);
    let first = k.bspline_basis(1, 1.5);
    let other = KnotVector::new(vec![0.0, 1.0, 2.0, 3.0, 4.0, 5.0]);
    other.bspline_basis(1, 1.2);
    let second = k.bspline_basis(1, 1.5);
    println!("{:?} {:?}", first, second);
    if first != second {
        std::process::exit(1);
    }
}
'''
