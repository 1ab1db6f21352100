//! jsmon: runs the real parser under workloads and watches what it does.

mod case;
mod gen;
mod lexchecks;
mod mon;
mod novel;
mod parsechecks;
mod phrases;
mod reflex;
mod refparse;
mod rng;
mod sup;
mod work;
mod worldchecks;

use case::{Check, Obs};
use std::path::Path;
use std::time::Instant;

#[global_allocator]
static ALLOC: worldchecks::Counting = worldchecks::Counting;

static CHECKS: [&dyn Check; 21] = [
    &parsechecks::C01,
    &lexchecks::C02,
    &lexchecks::C03,
    &lexchecks::C04,
    &lexchecks::C05,
    &lexchecks::C06,
    &lexchecks::C07,
    &lexchecks::C08,
    &parsechecks::C09,
    &parsechecks::C10,
    &parsechecks::C11,
    &parsechecks::C12,
    &parsechecks::C13,
    &parsechecks::C14,
    &parsechecks::C15,
    &parsechecks::C16,
    &worldchecks::C17,
    &worldchecks::C18,
    &worldchecks::C19,
    &worldchecks::C20,
    &worldchecks::C21,
];

fn find(id: &str) -> &'static dyn Check {
    match CHECKS.iter().find(|c| c.id() == id) {
        Some(c) => *c,
        None => {
            eprintln!("no such check: {}", id);
            std::process::exit(2)
        }
    }
}

/// On a stack that no sensible recursion exhausts; what a check wants to see about the stack, it arranges itself.
fn deep<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    match std::thread::Builder::new().stack_size(512 << 20).spawn(f).unwrap().join() {
        Ok(v) => v,
        Err(_) => {
            eprintln!("harness error");
            std::process::exit(2)
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    mon::install_hook();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let code = match &a[1..] {
        ["check", id] => check(id),
        ["work", id, shard, of, dir] => {
            let c = find(id);
            let (shard, of, dir) = (shard.parse().unwrap(), of.parse().unwrap(), dir.to_string());
            deep(move || sup::worker(c, shard, of, Path::new(&dir), None));
            0
        }
        ["replay", file] => {
            let r = match sup::read_replay(Path::new(file)) {
                Some(r) => r,
                None => {
                    eprintln!("{} is not a replay file", file);
                    std::process::exit(2)
                }
            };
            let c = find(&r.id);
            deep(move || match c.eval(&r.case, &mut Obs::default()) {
                Ok(()) => {
                    println!("holds on this case");
                    0
                }
                Err(m) => {
                    println!("FOUND {}", m);
                    1
                }
            })
        }
        ["replay-history", file] => sup::replay_history(Path::new(file)),
        ["digest"] => {
            deep(worldchecks::digest_main);
            0
        }
        ["digest-main"] => {
            worldchecks::digest_main();
            0
        }
        ["scale", file, out] => {
            let (file, out) = (file.to_string(), out.to_string());
            std::thread::Builder::new().stack_size(512 << 20).spawn(move || worldchecks::scale_main(Path::new(&file), Path::new(&out))).unwrap().join().unwrap();
            0
        }
        ["literals"] => {
            // what corpus/known.txt is made of
            print!("{}", novel::list());
            0
        }
        ["classify"] => {
            // for development: how the reference sees each line of the input, and what the parser says
            deep(|| {
                for l in std::io::stdin().lines() {
                    let t = case::unescape(&l.unwrap()).unwrap_or_default();
                    println!("{:?}\t{}\t{}", refparse::classify(&t).class, mon::plain(&t).name(), case::escape(&mon::clip(&t, 100)));
                }
            });
            0
        }
        ["deep"] => {
            for i in 0..2000 {
                println!("{}", case::escape(&work::deep(&mut rng::Rng::new(i))));
            }
            0
        }
        ["lists"] => {
            for t in gen::all_lists(3) {
                println!("{}", case::escape(&t));
            }
            0
        }
        ["memcheck", file, secs] => {
            let (file, secs) = (file.to_string(), secs.parse().unwrap());
            deep(move || worldchecks::miri_main(&file, secs))
        }
        ["miri", file, secs] => worldchecks::miri_main(file, secs.parse().unwrap()),
        _ => {
            eprintln!("usage: jsmon check ID | replay FILE | replay-history FILE");
            2
        }
    };
    std::process::exit(code);
}

fn check(id: &str) -> i32 {
    let start = Instant::now();
    let c = find(id);
    let mut tot = sup::explore(c);
    if id == "C21" && tot.found.is_empty() && tot.errors.is_empty() {
        worldchecks::miri_phase(&mut tot);
    }
    let t = sup::tier();
    let planned = c.random(&t) + c.enumerated(&t);
    sup::conclude(c.id(), tot, c.rule(), start, planned / 20)
}
