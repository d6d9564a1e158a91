//! Clients of the libraries as processes of their own: `vsim node <command>`, run behind the seam like the command-line
//! tools.  Results go to a file outside of the simulated disk.
use std::fmt::Write;
use vsri::Vsri;

/// Everything an index tells about itself
pub fn describe(v: &Vsri) -> String {
    let mut s = format!("{} {} {}:", v.min(), v.max(), v.get_sample_count());
    for t in v.get_all_timestamps() {
        let _ = write!(s, " {t}");
    }
    s
}

pub fn index_of(times: &[i32], name: &str) -> Vsri {
    let mut v = Vsri::new(name);
    for t in times {
        let _ = v.update_for_point(*t);
    }
    v
}

pub fn main(args: &[String]) -> i32 {
    unsafe { crate::ctl::vsim_attach_env() };
    let s: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    match s[..] {
        // one save after the other, each with its own comma-separated times
        ["save", file, ref versions @ ..] => {
            for v in versions {
                let t: Vec<i32> = v.split(',').filter_map(|t| t.parse().ok()).collect();
                if index_of(&t, file).flush_to(std::path::Path::new(file)).is_err() {
                    return 1;
                }
            }
            0
        }
        // loads the index several times; one line of the result for each
        ["load", file, out, times] => {
            let mut all = String::new();
            for _ in 0..times.parse().unwrap_or(1) {
                let l = crate::sim::guarded(|| Vsri::load(file));
                all.push_str(&match l {
                    Some(Ok(v)) => describe(&v),
                    Some(Err(e)) => format!("error {:?}", e.kind()),
                    None => "panic".into(),
                });
                all.push('\n');
            }
            std::fs::write(out, all).map(|_| 0).unwrap_or(3)
        }
        _ => 4,
    }
}
