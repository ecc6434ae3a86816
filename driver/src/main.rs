mod ctx;
mod eng;
mod ga;
mod gen;
mod ind;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c06;
mod c07;
mod c08;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c20;
mod c21;
mod c19;
use ctx::Ctx;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone());
    let prop = args[1].clone();
    let seed: u64 = get("--seed").map_or(1, |s| s.parse().unwrap_or(1));
    if prop == "DIGEST" {
        println!("{}", c16::digest(seed));
        return;
    }
    let tier = get("--tier").unwrap_or_else(|| "quick".into());
    let only = get("--only").map(|s| s.parse().unwrap());
    let budget: f64 = get("--budget").map_or(60.0, |s| s.parse().unwrap());
    let mut c = Ctx::new(seed, tier == "thorough", only, budget);
    if let Some(k) = get("--known") {
        c.known_keys = k.split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    }
    match prop.as_str() {
        "C01" => c01::run(&mut c),
        "C02" => c02::run(&mut c),
        "C03" => c03::run(&mut c),
        "C04" => c04::run(&mut c),
        "C05" => c05::run(&mut c),
        "C09" => c09::run(&mut c),
        "C10" => c10::run(&mut c),
        "C11" => c11::run(&mut c),
        "C12" => c12::run(&mut c),
        "C13" => c13::run(&mut c),
        "C06" => c06::run(&mut c),
        "C07" => c07::run(&mut c),
        "C08" => c08::run(&mut c),
        "C14" => c14::run(&mut c),
        "C15" => c15::run(&mut c),
        "C16" => c16::run(&mut c),
        "C17" => c17::run(&mut c),
        "C18" => c18::run(&mut c),
        "C20" => c20::run(&mut c),
        "C21" => c21::run(&mut c),
        "C19" => c19::run(&mut c),
        _ => {
            println!("{}", serde_json::json!({"error": "no driver"}));
            std::process::exit(2);
        }
    }
    let f = c.failure.as_ref().map(|f| serde_json::json!({"index": f.index, "case": f.case, "message": f.message}));
    println!(
        "{}",
        serde_json::json!({
            "property": prop, "seed": seed, "tier": tier, "evaluations": c.evaluations,
            "distinct_nontrivial": c.distinct.len(), "rule": c.rule, "samples": c.samples,
            "failure": f, "known": c.known, "wall_s": c.start.elapsed().as_secs_f64(),
        })
    );
    std::process::exit(if c.failure.is_some() { 1 } else { 0 });
}
