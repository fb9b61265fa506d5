//! Concurrent owners of shared trees, and concurrent parsing, to be run by a
//! sanitizer or interpreter.
//!
//! races <seed> <cases> <threads> <nodes> <steps> <rounds>
//! races parse <seed> <cases> <threads> <chars> <steps>
//!
//! Exits with 1 and a line `RACES-VIOLATION …` when an observation is wrong.

mod parse;
mod work;

fn main() {
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    let parsing = args.first().is_some_and(|a| a == "parse");
    if parsing { args.remove(0); }
    let a: Vec<u64> = args.iter().map(|x| x.parse().expect("number")).collect();
    if parsing {
        let [seed, cases, threads, chars, steps] = a[..] else { panic!("five numbers are needed") };
        let mut all = parse::Stats::default();
        for i in 0..cases {
            let p = parse::Params { threads: threads as usize, chars: chars as usize, steps: steps as usize, on_start: |_| {} };
            match parse::case(seed.wrapping_mul(1_000_003).wrapping_add(i), &p) {
                Ok(s) => all.add(&s),
                Err(e) => { println!("RACES-VIOLATION case {i}: {e}"); std::process::exit(1) }
            }
        }
        println!("RACES-OK {all:?}");
        return;
    }
    let [seed, cases, threads, nodes, steps, rounds] = a[..] else { panic!("six numbers are needed") };
    let mut all = work::Stats::default();
    for i in 0..cases {
        let p = work::Params { threads: threads as usize, nodes: nodes as usize, steps: steps as usize, rounds: rounds as usize, pauses: true, spy: i % 2 == 0, on_start: |_| {} };
        match work::case(seed.wrapping_mul(1_000_003).wrapping_add(i), &p) {
            Ok(s) => all.add(&s),
            Err(e) => { println!("RACES-VIOLATION case {i}: {e}"); std::process::exit(1) }
        }
    }
    println!("RACES-OK {all:?}");
}
