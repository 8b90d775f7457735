prop = 'P23'
edits = [('src/model.rs', '''                        if index == 0 {
                            data.push_str(&format!("M {:.2},{:.2}", point.x, point.y));
                        } else {
                            data.push_str(&format!(" L {:.2},{:.2}", point.x, point.y));
                        }
                    }
                    continue;''', '''                        if data.is_empty() {
                            data.push_str(&format!("M {:.2},{:.2}", point.x, point.y));
                        } else if index > 0 {
                            data.push_str(&format!(" L {:.2},{:.2}", point.x, point.y));
                        }
                    }
                    continue;''')]
needs = 'a polyline that is not the first segment of its curve'
breaks = 'Its first vertex is not moved to, so the drawing joins the segments wrongly.'
main = r'''
use geom3d::curve::*;
use geom3d::surface::*;
use geom3d::*;
fn main() {
    let line = Line { origin: Point3::ZERO, direction: Vec3::X };
    let poly = Polyline::new(vec![Point3::new(5.0, 5.0, 0.0), Point3::new(6.0, 7.0, 0.0)]);
    let mut m: Model<TrimmedSurface<Box<dyn Surface>>> = Model::new();
    m.add_curve(Polycurve {
        segments: vec![
            CurveSegment { curve: Box::new(line) as Box<dyn Curve>, parameter_range: (0.0, 1.0), tolerance: 0.01, parameter_division: 16 },
            CurveSegment { curve: Box::new(poly) as Box<dyn Curve>, parameter_range: (0.0, 1.0), tolerance: 0.01, parameter_division: 16 },
        ],
    });
    let f = std::env::temp_dir().join(format!("p23b-{}.svg", std::process::id()));
    m.save_as_svg(&f, (10.0, 10.0)).unwrap();
    let text = std::fs::read_to_string(&f).unwrap();
    std::fs::remove_file(&f).unwrap();
    println!("{}", text);
    if !text.contains("5.00,5.00") {
        std::process::exit(1);
    }
}
'''
