prop = 'P22'
edits = [('src/points.rs', '''        match cords
            .split([' ', ',', '\\t'])
            .filter(|item| !item.is_empty())''', '''        match cords
            .split([' ', ',', '\\t'])
            .filter(|item| item.len() > 1)''')]
needs = 'a number written with one digit'
breaks = 'Coordinates of one character are dropped, so that their point disappears or is read from other columns.'
main = r'''
fn main() {
    let f = std::env::temp_dir().join(format!("p22b-{}.xyz", std::process::id()));
    std::fs::write(&f, "1.5 2.5 3.5\n1 2.5 3.5\n").unwrap();
    let p = geom3d::points::load_point_cloud(&f).unwrap();
    std::fs::remove_file(&f).unwrap();
    println!("{:?}", p);
    if p.len() != 2 {
        std::process::exit(1);
    }
}
'''
