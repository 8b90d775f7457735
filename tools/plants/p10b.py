prop = 'P10'
edits = [('src/knot.rs', '''                index - self.multiplicity(index)
''', '''                index - self.multiplicity(0)
''')]
needs = 'a parameter at the end of a knot vector whose end knots have different multiplicities'
breaks = 'The span index at the last knot steps back by the multiplicity of the first knot and names an empty span.'
main = r'''
use geom3d::*;
fn main() {
    let k = KnotVector::new(vec![0.0, 0.0, 1.0, 2.0, 3.0, 3.0, 3.0]);
    println!("{}", k.span_index(3.0));
    if k.span_index(3.0) != 3 {
        std::process::exit(1);
    }
}
'''
