//! replay list
//! replay run <obligation> <hex bytes>      run one obligation on one input
//! replay search <obligation> <seed> <seconds>  look for a failing input
use std::panic;
use std::time::{Duration, Instant};

fn run(f: fn(), v: Vec<u8>) -> Result<bool, String> {
    obl::nd::load(v);
    match panic::catch_unwind(f) {
        Ok(()) => Ok(true),
        Err(e) => {
            if e.is::<obl::nd::Vacuous>() {
                Ok(false)
            } else if let Some(s) = e.downcast_ref::<&str>() {
                Err(s.to_string())
            } else if let Some(s) = e.downcast_ref::<String>() {
                Err(s.clone())
            } else {
                Err("panic".into())
            }
        }
    }
}

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

fn hex(v: &[u8]) -> String {
    v.iter().map(|b| format!("{b:02x}")).collect()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let table = obl::obl::table();
    let find = |n: &str| table.iter().find(|t| t.1 == n).expect("no such obligation").2;
    panic::set_hook(Box::new(|_| {}));
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => table.iter().for_each(|t| println!("{} {}", t.0, t.1)),
        Some("run") => {
            let h = &a[3];
            let v = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
            match run(find(&a[2]), v) {
                Ok(true) => println!("HOLDS"),
                Ok(false) => println!("VACUOUS"),
                Err(e) => {
                    println!("FAILS {e}");
                    std::process::exit(1)
                }
            }
        }
        Some("search") => {
            let f = find(&a[2]);
            let seed: u64 = a[3].parse().unwrap();
            let lim = Duration::from_secs_f64(a[4].parse().unwrap());
            let mut r = Rng(seed);
            let t0 = Instant::now();
            let (mut n, mut vac) = (0u64, 0u64);
            while t0.elapsed() < lim {
                for _ in 0..64 {
                    let mode = r.next() % 8;
                    let v: Vec<u8> = (0..256)
                        .map(|_| {
                            let x = r.next();
                            match mode {
                                0..=3 => x as u8,
                                4 => [0, 255, x as u8, (x >> 8) as u8 & 15][(x >> 32) as usize & 3],
                                5 => x as u8 & (x >> 8) as u8 & (x >> 16) as u8,
                                6 => x as u8 | (x >> 8) as u8 | (x >> 16) as u8,
                                _ => [0u8, 255, 127, 128][(x & 3) as usize],
                            }
                        })
                        .collect();
                    n += 1;
                    match run(f, v) {
                        Ok(true) => {}
                        Ok(false) => vac += 1,
                        Err(e) => {
                            println!("FAILS {} {}", hex(&obl::nd::used()), e);
                            std::process::exit(1)
                        }
                    }
                }
            }
            println!("NONE tried={n} vacuous={vac}");
        }
        _ => panic!("usage"),
    }
}
