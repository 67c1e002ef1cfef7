#[cfg(not(kani))]
mod m {
    use contracts::core::*;
    use contracts::native::*;
    use contracts::props::*;
    use std::sync::atomic::Ordering;

    fn hexes(s: &str) -> Vec<Vec<u8>> {
        s.split(',')
            .filter(|x| !x.is_empty())
            .map(|x| (0..x.len() / 2).map(|i| u8::from_str_radix(&x[2 * i..2 * i + 2], 16).unwrap()).collect())
            .collect()
    }
    pub fn main() {
        init();
        let a: Vec<String> = std::env::args().collect();
        let s = |i: usize| a.get(i).map(|x| x.as_str()).unwrap_or("");
        let ps = props();
        let prop = ps.iter().find(|p| p.id == s(2)).expect("unknown property");
        match s(1) {
            "list" => {
                let l: Vec<String> = prop
                    .harnesses
                    .iter()
                    .map(|h| format!("{{\"module\":{},\"name\":{},\"scope\":{},\"over\":{},\"tier\":{}}}", esc(h.module.rsplit("::").next().unwrap()), esc(h.name), esc(h.scope), esc(h.over), esc(h.tier)))
                    .collect();
                println!("[{}]", l.join(","));
            }
            // tape <prop> <harness> <hex,hex,...>
            "tape" => {
                let hn = prop.harnesses.iter().find(|h| h.name == s(3)).expect("unknown harness");
                match replay(hn, hexes(s(4))) {
                    Ok(true) => println!("HOLDS"),
                    Ok(false) => println!("SKIPPED"),
                    Err(m) => println!("FAILS {m}"),
                }
            }
            // run <prop> <tier> <seed> <seconds>; replay <prop> <check> <case>
            "run" | "replay" => {
                let run = s(1) == "run";
                let mut cx = if run {
                    Cx::new(s(3) == "thorough", s(4).parse().unwrap(), s(5).parse().unwrap())
                } else {
                    Cx::new(false, 1, 3600)
                };
                if !run {
                    cx.only = Some((s(3).into(), s(4).parse().unwrap()));
                }
                let n = cx.scale(2000, 50000);
                for h in prop.harnesses {
                    cx.harness(h, n);
                }
                (prop.native)(&mut cx);
                let fl = cx.failures.lock().unwrap();
                let f: Vec<String> = fl
                    .iter()
                    .map(|f| {
                        let tape = f.tape.as_ref().map_or("null".to_string(), |t| {
                            esc(&t.iter().map(|v| v.iter().map(|b| format!("{b:02x}")).collect::<String>()).collect::<Vec<_>>().join(","))
                        });
                        let mut inp = f.input.clone();
                        if inp.len() > 6000 {
                            inp = inp.chars().take(6000).collect();
                        }
                        format!("{{\"check\":{},\"case\":{},\"input\":{},\"message\":{},\"tape\":{}}}", esc(&f.check), f.case, esc(&inp), esc(&f.message), tape)
                    })
                    .collect();
                let c: Vec<String> = cx.checks.iter().map(|(n, k)| format!("{{\"check\":{},\"cases\":{}}}", esc(n), k)).collect();
                let sm: Vec<String> = cx.samples.lock().unwrap().iter().map(|x| esc(x)).collect();
                println!(
                    "{{\"evaluations\":{},\"distinct\":{},\"skipped\":{},\"cut_short\":{},\"checks\":[{}],\"samples\":[{}],\"failures\":[{}]}}",
                    cx.evals.load(Ordering::Relaxed),
                    cx.distinct.lock().unwrap().len(),
                    cx.skipped.load(Ordering::Relaxed),
                    cx.cut.load(Ordering::Relaxed),
                    c.join(","),
                    sm.join(","),
                    f.join(",")
                );
            }
            _ => panic!("usage"),
        }
    }
}
#[cfg(not(kani))]
#[global_allocator]
static A: contracts::alloc_count::Counting = contracts::alloc_count::Counting;
#[cfg(not(kani))]
fn main() {
    m::main()
}
#[cfg(all(kani, replay))]
fn main() {
    // Replays a harness that needs the hooks: <harness> <hex,hex,...>
    let a: Vec<String> = std::env::args().collect();
    for p in contracts::props::props() {
        for h in p.harnesses {
            if h.name == a[1] {
                let t = a[2].split(',').filter(|x| !x.is_empty()).map(|x| (0..x.len() / 2).map(|i| u8::from_str_radix(&x[2 * i..2 * i + 2], 16).unwrap()).collect()).collect();
                let r = std::panic::catch_unwind(|| (h.run)(&mut contracts::core::NatSrc::tape(t)));
                match r {
                    Ok(()) => println!("HOLDS"),
                    Err(e) if e.is::<contracts::core::Skip>() => println!("SKIPPED"),
                    Err(e) => println!("FAILS {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()),
                }
            }
        }
    }
}
#[cfg(all(kani, not(replay)))]
fn main() {}
