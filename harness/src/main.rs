mod alone;
mod common;
mod enums;
mod gen;
mod known;
mod monitor;
mod build;
mod ctor;
mod p01;
mod prng;
mod queries;
mod props;
mod robust;
mod schema;
mod step;
mod store;
mod typed;
mod values;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let find = |id: &str| {
        props::PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("no property {id}");
            std::process::exit(2)
        })
    };
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("worker") => monitor::worker(find(&a[2]), std::path::Path::new(&a[3])),
        Some("case") => {
            let dir = a.get(4).map_or_else(|| std::env::temp_dir().join(format!("ifcmon-case-{}", std::process::id())), |d| d.into());
            monitor::single(find(&a[2]), a[3].parse().expect("case number"), &dir)
        }
        Some("job") => {
            let seeds: Vec<u64> = a[3..].iter().map(|s| s.parse().expect("seed")).collect();
            alone::fresh(std::path::Path::new(&a[2]), &seeds);
            0
        }
        Some(id) => monitor::supervise(find(id)),
        None => {
            eprintln!("usage: ifcmon Pxx | ifcmon case Pxx N");
            2
        }
    };
    std::process::exit(code);
}
