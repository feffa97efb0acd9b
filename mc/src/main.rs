mod api;
mod corpus;
mod engine;
mod explore;
mod gram;
mod gramchecks;
mod lexchecks;
mod lexmodel;
mod mutants;
mod prec;
mod reject;
mod schema;
mod seqchecks;
mod spell;
mod sut;
mod treechecks;

#[global_allocator]
static A: engine::Counting = engine::Counting;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let tier = std::env::var("VERIF_TIER").unwrap_or_default();
    let thorough = match args.get(1).map(|s| &s[..]) {
        Some("quick") => false,
        Some("thorough") => true,
        _ => tier == "thorough",
    };
    match args.first().map(|s| &s[..]) {
        Some("show") => {
            use std::io::Read;
            let mut s = String::new();
            std::io::stdin().read_to_string(&mut s).unwrap();
            for t in s.split("\n===\n") {
                println!("--- {:?}", t);
                match sut::raw_parse(t.trim_end_matches('\n')) {
                    sut::Out::Ok(v) => v.iter().for_each(|n| print!("{}", n.show())),
                    o => println!("{}", o.brief()),
                }
            }
        }
        Some("dump") => seqchecks::dump(thorough),
        Some(p) => {
            let p = p.to_string();
            let ctx = engine::Ctx::new(&p, thorough);
            match &p[..] {
                "C01" | "C02" | "C03" | "C04" => lexchecks::run(&ctx),
                "C12" | "C13" | "C14" | "C15" | "C16" | "C17" => gramchecks::run(&ctx),
                "C05" => mutants::c05(&ctx),
                "C06" | "C07" | "C08" | "C09" | "C10" | "C11" => treechecks::run(&ctx),
                "C22" => reject::run(&ctx),
                "C19" => schema::run(&ctx),
                "C20" => api::run(&ctx),
                "C18" => seqchecks::run(&ctx),
                _ => {
                    eprintln!("unknown property {}", p);
                    std::process::exit(2);
                }
            }
            std::process::exit(ctx.finish());
        }
        None => {
            eprintln!("usage: mc <property> [quick|thorough] | mc show");
            std::process::exit(2);
        }
    }
}
