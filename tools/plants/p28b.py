prop = 'P28'
edits = [('src/knot.rs', '''        self.iter().filter(|u| ulps_eq!(self[i], u)).count()''', '''        let value = unsafe { *self.0.get_unchecked(i) };
        self.iter().filter(|u| ulps_eq!(value, u)).count()''')]
needs = 'an index behind the last knot'
breaks = 'The knot is read from memory outside the list instead of stopping the caller.'
main = r'''
use geom3d::*;
fn main() {
    let k = KnotVector::new(vec![0.0, 0.0, 1.0, 1.0]);
    let r = std::panic::catch_unwind(|| k.multiplicity(7));
    println!("{:?}", r.is_err());
    if r.is_ok() {
        std::process::exit(1);
    }
}
'''
