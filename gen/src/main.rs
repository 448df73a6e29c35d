use std::path::Path;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone()).unwrap();
    let id = get("--id");
    let seed: u64 = get("--seed").parse().unwrap();
    let thorough = get("--tier") == "thorough";
    if id == "C17" {
        let only = args.iter().position(|a| a == "--only").map(|i| {
            let mut n = args[i + 1].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap());
            (n.next().unwrap(), n.next().unwrap(), n.collect())
        });
        print!("{}", engine::invalid::print(seed, thorough, only));
        return;
    }
    let chk = engine::checks::by_id(&id).expect("unknown check");
    let units = chk.units(seed, thorough);
    engine::build::write(&chk, &units, Path::new(&get("--out")), &get("--engine"), &get("--repo"));
}
