//! C06: processing a directory.
use super::common::*;
use super::torn::Hit;
use crate::rng::Rng;
use crate::runner::*;
use crate::series::*;
use crate::sim::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, PartialEq, Serialize, Deserialize)]
pub enum Entry {
    /// A readable input
    Good(Series),
    /// An input, with left-over content in its output file
    Stale(Series, Stale),
    /// Bytes that are not in the expected format
    Foreign(Blob),
    /// A strict prefix of an input (numerator of 65536)
    Torn(Series, u32),
    /// An input with damaged bytes, which may or may not be readable
    Corrupt(Series, Vec<Hit>),
    /// An input that cannot be opened
    Refused(Series, i32),
    /// An input of which the system cannot say what it is, and which may be unopenable too
    Blind(Series, i32, bool),
    /// An input that is removed by someone else at a moment of the walk
    Vanish(Series, u32),
    /// An input that is moved into the directory by someone else at a moment of the walk
    Appear(Series, u32),
    /// A sub-directory with a valid input inside
    Sub(Series),
    /// A symbolic link to an input outside of the directory
    Link(Series),
    /// A symbolic link to a directory with a valid input inside
    DirLink(Series),
    /// A symbolic link to nothing
    Dangling,
    /// A named pipe nobody writes to
    Fifo,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct DirCase {
    pub uncompress: bool,
    /// The inputs are CSV files
    #[serde(default)]
    pub csv: bool,
    pub opts: Opts,
    pub entries: BTreeMap<String, Entry>,
    pub plan: Plan,
    pub abs: bool,
    pub slash: bool,
    /// The directory is given by a symbolic link to it
    #[serde(default)]
    pub by_link: bool,
    #[serde(default)]
    pub verbose: bool,
}
pub struct C06;

fn series_of(e: &Entry) -> Option<&Series> {
    match e {
        Entry::Good(s) | Entry::Stale(s, _) | Entry::Torn(s, _) | Entry::Corrupt(s, _) | Entry::Refused(s, _) | Entry::Blind(s, ..) | Entry::Vanish(s, _) | Entry::Appear(s, _) | Entry::Sub(s) | Entry::Link(s) | Entry::DirLink(s) => Some(s),
        Entry::Foreign(_) | Entry::Dangling | Entry::Fifo => None,
    }
}
fn stem_out(name: &str, un: bool) -> String {
    std::path::Path::new(name).with_extension(if un { "wbro" } else { "bro" }).to_str().unwrap().to_string()
}
/// A damaged count may ask for more memory than the simulated machine has (1 GiB), which says nothing about the
/// program; but no machine has more than 64 GiB
fn short_of_memory(w: &World, x: &Exit) -> Res {
    let n = w.last_trace.refused;
    if !x.ok() && n > 0 && n <= 1 << 36 {
        return Err(Verdict::Inconclusive("memory limit".into()));
    }
    Ok(())
}
fn make_special(w: &World, c: &DirCase) {
    use std::os::unix::fs::symlink;
    let d = w.path("d");
    if !d.is_dir() {
        std::fs::create_dir(&d).unwrap();
    }
    for (name, e) in &c.entries {
        let p = d.join(os(name));
        match e {
            Entry::Link(_) => symlink(os(&format!("../o/{name}")), p).unwrap(),
            Entry::DirLink(_) => symlink(os(&format!("../o/{name}")), p).unwrap(),
            Entry::Dangling => symlink("../nowhere/x", p).unwrap(),
            Entry::Fifo => {
                use std::os::unix::ffi::OsStrExt;
                let z = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
                assert_eq!(unsafe { libc::mkfifo(z.as_ptr(), 0o600) }, 0);
            }
            _ => {}
        }
    }
    if c.by_link {
        symlink("d", w.path("l")).unwrap();
    }
}

impl Prop for C06 {
    type Case = DirCase;
    const ID: &'static str = "C06";
    const RUNS: (u64, u64) = (24_000, 500_000);
    const RULE: &'static str = "Directories of 0-7 (sometimes up to 140) inputs (WBRO, CSV or compressed files under plain, dotted, hidden, odd and non-UTF-8 names, also behind symbolic links), foreign, torn, unopenable, unstatable, vanishing and appearing files, pipes, dangling links and sub-directories, listed in any order with or without entries created on the way; outputs are compared with one run per file.";
    const REAL: &'static str = "atsc command-line tool with wavbrro and all compressors, run as processes";
    fn gen(r: &mut Rng, _thorough: bool) -> DirCase {
        let uncompress = r.chance(1, 2);
        let mut opts = Opts::gen(r);
        if opts.compressor == "idw" {
            opts.compressor = "auto".into();
        }
        let many = r.chance(1, 40);
        // more files than the process may have open at a time
        let crowd = many && r.chance(1, 3);
        let n = if crowd && r.chance(1, 10) { r.range(300, 1100) } else if crowd { r.range(80, 140) } else if many { r.range(12, 40) } else { r.below(8) as i64 } as usize;
        let only_good = r.chance(1, 3);
        let mut entries = BTreeMap::new();
        let csv = !uncompress && r.chance(1, 4);
        // No two of them share an output name, and none is the output of another
        let pool = [
            "a", "b", "c", "d", "m", "z", "b-long name", "00", "cpu.load.1", "cpu.load.2", "cpu.load", "cpu", ".hidden", "v1.wbro", "v1.bro", "-x", "r\u{e9}seau", "tab\tname",
            "a very long name that goes on and on for quite a while, as names made of host, plugin and metric do.0001", "UPPER", "x.", "x..y",
        ];
        let mut stems: Vec<String> = vec![];
        while stems.len() < n {
            let s = match r.below(8) {
                0..=3 => pool[r.usize(8)].to_string(),
                4 if r.chance(1, 4) => format!("{ODD}name{ODD}"),
                _ if many => format!("host{}", r.below(1_000_000)),
                _ => r.pick(&pool).to_string(),
            };
            if !stems.contains(&s) {
                stems.push(s);
            }
        }
        let mut faults = vec![];
        let mut refuse = vec![];
        let mut blind = vec![];
        for stem in stems {
            let ext = if r.chance(1, 5) { *r.pick(&["x", "x", "BRO", "WBRO", "wav", "tmp", "log"]) } else if uncompress { "bro" } else if csv { "csv" } else { "wbro" };
            let name = format!("{stem}.{ext}");
            let s = Series(small_series(r, if crowd { 4 } else if many { 40 } else { 400 }).0);
            let e = if only_good {
                Entry::Good(s)
            } else {
                match if crowd && r.chance(9, 10) || refuse.len() + blind.len() > 12 || faults.len() > 12 { 0 } else { r.below(27) } {
                    24 | 25 => Entry::Corrupt(s, (0..r.range(1, 3)).map(|_| Hit::gen(r)).collect()),
                    0..=7 => Entry::Good(s),
                    26 => {
                        let (e, both) = (*r.pick(&[5, EACCES, 116, 12]), r.chance(1, 3));
                        blind.push((format!("d/{name}"), e));
                        if both {
                            refuse.push((format!("d/{name}"), e));
                        }
                        Entry::Blind(s, e, both)
                    }
                    8 => Entry::Stale(s, Stale::gen(r, 3000)),
                    9 | 10 => {
                        let mut b = Blob::random(r, 60);
                        if r.chance(1, 3) {
                            b.0.clear();
                        }
                        if b.0.starts_with(b"BRRO") || b.0.starts_with(b"WBRO") {
                            b.0[0] = b'x';
                        }
                        Entry::Foreign(b)
                    }
                    // a torn CSV file may well be a shorter CSV file
                    11 | 12 if !csv => Entry::Torn(s, r.below(65536) as u32),
                    13 | 14 => {
                        let e = *r.pick(&[EACCES, EACCES, 1, 40]);
                        refuse.push((format!("d/{name}"), e));
                        Entry::Refused(s, e)
                    }
                    15 | 16 => {
                        let mut f = fault_sel(r, Class::Any, Kind::Short);
                        f.nth = r.below(40) as u32;
                        f.ext = Some((format!("d/{name}"), None));
                        faults.push(f);
                        Entry::Vanish(s, 0)
                    }
                    17 | 18 => {
                        let mut f = fault_sel(r, Class::Any, Kind::Short);
                        f.nth = r.below(40) as u32;
                        f.ext = Some((format!("o/{name}"), Some(format!("d/{name}"))));
                        faults.push(f);
                        Entry::Appear(s, 0)
                    }
                    19 | 20 => Entry::Link(s),
                    21 => Entry::DirLink(s),
                    22 => {
                        if r.chance(1, 2) {
                            Entry::Dangling
                        } else {
                            Entry::Fifo
                        }
                    }
                    _ => Entry::Sub(s),
                }
            };
            entries.insert(name, e);
        }
        let mut plan = benign_plan(r, n * 3000);
        plan.dir_perm = r.chance(3, 4);
        plan.faults = faults;
        plan.refuse = refuse;
        plan.blind = blind;
        if crowd {
            plan.nofile = 64;
        }
        let by_link = plan.refuse.is_empty() && plan.blind.is_empty() && r.chance(1, 8);
        DirCase { uncompress, csv, opts, entries, plan, abs: r.chance(1, 3), slash: r.chance(1, 4), by_link, verbose: r.chance(1, 10) }
    }
    fn run(w: &mut World, c: &DirCase) -> Res {
        let mut args = if c.uncompress { strs(&["-u"]) } else { c.opts.args() };
        if c.csv {
            args.push("--csv".into());
        }
        let one = cmd(Tool::Atsc, &[&args], "@one.x");
        // what every file is worth on its own
        let mut inputs: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        let mut golden: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        for (name, e) in &c.entries {
            let Some(s) = series_of(e) else { continue };
            w.reset(&Disk::new());
            if c.csv {
                let mut t = String::from("time,value\n");
                for (i, x) in s.0.iter().enumerate() {
                    t.push_str(&format!("{i},{x:e}\n"));
                }
                w.put("one.x", t.as_bytes());
            } else {
                put_wbro(w, "one.x", &s.0);
            }
            if c.uncompress {
                let x = w.exec(&cmd(Tool::Atsc, &[&c.opts.args()], "@one.x"), &Plan::default());
                must_end(&x)?;
                match (x.ok(), w.get("one.bro")) {
                    (true, Some(b)) => w.put("one.x", &b),
                    _ => return Ok(()), // not this property's concern
                }
            }
            if let Entry::Corrupt(_, hits) = e {
                let mut d = w.get("one.x").unwrap();
                hits.iter().for_each(|h| h.apply(&mut d));
                w.put("one.x", &d);
                inputs.insert(name.clone(), d);
                // a damaged count may keep a command busy
                w.limit_ms = 2000;
                let x = w.exec(&one, &Plan::default());
                w.limit_ms = 30_000;
                inconclusive_if_timeout(&x)?;
                short_of_memory(w, &x)?;
                if let (true, Some(b)) = (x.ok(), w.get(&stem_out("one.x", c.uncompress))) {
                    golden.insert(name.clone(), b);
                }
                continue;
            }
            inputs.insert(name.clone(), w.get("one.x").unwrap());
            let x = w.exec(&one, &Plan::default());
            must_end(&x)?;
            match (x.ok(), w.get(&stem_out("one.x", c.uncompress))) {
                (true, Some(b)) => golden.insert(name.clone(), b),
                _ => return Ok(()),
            };
        }
        // the directory
        let mut before = Disk::new();
        before.insert("beside.wbro".into(), b"WBRO0000WBROjust a neighbour".to_vec());
        for (name, e) in &c.entries {
            let i = inputs.get(name);
            match e {
                Entry::Good(_) | Entry::Corrupt(..) | Entry::Refused(..) | Entry::Blind(..) | Entry::Vanish(..) => {
                    before.insert(format!("d/{name}"), i.unwrap().clone());
                }
                Entry::Stale(_, b) => {
                    before.insert(format!("d/{name}"), i.unwrap().clone());
                    before.insert(format!("d/{}", stem_out(name, c.uncompress)), b.of(golden.get(name).map(|g| &g[..])));
                }
                Entry::Foreign(b) => {
                    before.insert(format!("d/{name}"), b.0.clone());
                }
                Entry::Torn(_, f) => {
                    let i = i.unwrap();
                    let k = (i.len() as u64 * *f as u64 >> 16) as usize;
                    before.insert(format!("d/{name}"), i[..k].to_vec());
                }
                Entry::Appear(..) | Entry::Link(_) => {
                    before.insert(format!("o/{name}"), i.unwrap().clone());
                }
                Entry::DirLink(_) => {
                    before.insert(format!("o/{name}/{}", if c.uncompress { "in.bro" } else { "in.wbro" }), i.unwrap().clone());
                }
                Entry::Dangling | Entry::Fifo => {}
                Entry::Sub(_) => {
                    before.insert(format!("d/{name}/{}", if c.uncompress { "in.bro" } else { "in.wbro" }), i.unwrap().clone());
                }
            }
        }
        let files = before;
        w.reset(&files);
        make_special(w, c);
        let mut before = w.snapshot();
        if c.verbose {
            args.push("--verbose".into());
        }
        let mut k = cmd(Tool::Atsc, &[&args], &format!("@{}{}", if c.by_link { "l" } else { "d" }, if c.slash { "/" } else { "" }));
        k.abs = c.abs;
        // rehearse without the external changes, then with them
        let x = if c.plan.faults.is_empty() {
            w.exec(&k, &c.plan)
        } else {
            let calm = Plan { faults: vec![], ..c.plan.clone() };
            w.exec(&k, &calm);
            let t = w.last_trace.clone();
            w.reset(&files);
            make_special(w, c);
            let f = World::resolve(&c.plan.faults, &t);
            w.exec_raw(&k, &c.plan, &f)
        };
        must_end(&x)?;
        if c.entries.values().any(|e| matches!(e, Entry::Corrupt(..))) {
            short_of_memory(w, &x)?;
        }
        let mut after = w.snapshot();
        let mut all_good = true;
        let mut must_fail = false;
        let verb = if c.uncompress { "decompressing" } else { "compressing" };
        for (name, e) in &c.entries {
            let inp = format!("d/{name}");
            let outp = format!("d/{}", stem_out(name, c.uncompress));
            let got = after.remove(&outp);
            let g = golden.get(name);
            match e {
                Entry::Corrupt(..) => {
                    // as good as on its own
                    if g.is_none() {
                        all_good = false;
                    }
                    if got.as_ref() != g {
                        return bad(
                            "output-differs",
                            format!("{verb} a directory left {} of a damaged file {name}, which on its own gives {} ({x:?})", if got.is_some() { "an output" } else { "no output" }, if g.is_some() { "one" } else { "none" }),
                        );
                    }
                }
                Entry::Good(_) | Entry::Stale(..) | Entry::Link(_) => {
                    if matches!(e, Entry::Stale(..)) {
                        all_good = false;
                    }
                    if got.as_ref() != g {
                        return bad(
                            "output-differs",
                            format!("{verb} a directory of {} entries left {} of a good input {} ({:?})", c.entries.len(), if got.is_some() { "a different output" } else { "no output" }, name, x),
                        );
                    }
                }
                Entry::Foreign(_) | Entry::Torn(..) | Entry::Refused(..) => {
                    all_good = false;
                    must_fail |= !matches!(e, Entry::Foreign(_));
                    if got.is_some() {
                        return bad("output-from-bad-entry", format!("{verb} a directory produced an output for {name}, which is not a readable input"));
                    }
                }
                Entry::Blind(..) => {
                    // there may be a way around, but not knowing what it is is no reason to say that all is well
                    all_good = false;
                    must_fail |= got.is_none();
                    if got.is_some() && got.as_ref() != g {
                        return bad("output-differs", format!("{verb} a directory left a wrong output for {name}, of which the system could not say what it is"));
                    }
                }
                Entry::Vanish(..) | Entry::Appear(..) => {
                    all_good = false;
                    if got.is_some() && got.as_ref() != g {
                        return bad("output-differs", format!("{verb} a directory left a wrong output for {name}, which came or went during the walk"));
                    }
                }
                Entry::DirLink(_) | Entry::Dangling | Entry::Fifo => {
                    all_good = false;
                    if got.is_some() {
                        return bad("output-from-bad-entry", format!("{verb} a directory produced an output for {name}, which is not a file"));
                    }
                }
                Entry::Sub(_) => {
                    if got.is_some() {
                        return bad("subdir", format!("{verb} a directory produced an output for a sub-directory"));
                    }
                }
            }
            // inputs themselves
            match e {
                Entry::Vanish(..) => {
                    after.remove(&inp);
                    before.remove(&inp);
                }
                Entry::Appear(..) => {
                    after.remove(&inp);
                    after.remove(&format!("o/{name}"));
                    before.remove(&format!("o/{name}"));
                }
                _ => {}
            }
            before.remove(&outp);
        }
        if let Some(d) = diff_disks(&before, &after) {
            return bad("other-files", format!("{verb} a directory changed something else: {d}"));
        }
        if all_good && !x.ok() {
            return bad("fails", format!("{verb} a directory of {} readable inputs ended with {:?}", c.entries.len(), x));
        }
        if must_fail && x.ok() {
            return bad("silent-failure", format!("{verb} a directory reported success although an input could not be processed"));
        }
        Ok(())
    }
    fn shrink(c: &DirCase) -> Vec<DirCase> {
        let mut out = vec![];
        for name in c.entries.keys() {
            let mut d = c.clone();
            d.entries.remove(name);
            d.plan.faults.retain(|f| f.ext.as_ref().map(|e| !e.0.ends_with(&format!("/{name}"))).unwrap_or(true));
            d.plan.refuse.retain(|f| f.0 != format!("d/{name}"));
            d.plan.blind.retain(|f| f.0 != format!("d/{name}"));
            out.push(d);
        }
        for p in shrink_plan(&c.plan) {
            // external changes and refusals belong to entries
            if p.faults.len() == c.plan.faults.len() && p.refuse == c.plan.refuse && p.blind == c.plan.blind {
                out.push(DirCase { plan: p, ..c.clone() });
            }
        }
        for o in c.opts.shrink() {
            out.push(DirCase { opts: o, ..c.clone() });
        }
        if c.csv && !c.entries.values().any(|e| matches!(e, Entry::Foreign(_))) {
            out.push(DirCase { csv: false, ..c.clone() });
        }
        if c.abs {
            out.push(DirCase { abs: false, ..c.clone() });
        }
        if c.slash {
            out.push(DirCase { slash: false, ..c.clone() });
        }
        if c.by_link {
            out.push(DirCase { by_link: false, ..c.clone() });
        }
        if c.verbose {
            out.push(DirCase { verbose: false, ..c.clone() });
        }
        for (name, e) in &c.entries {
            if let Some(s) = series_of(e) {
                for t in shrink_series(&s.0, 0).into_iter().take(24) {
                    let t = Series(t);
                    let n = match e.clone() {
                        Entry::Good(_) => Entry::Good(t),
                        Entry::Stale(_, b) => Entry::Stale(t, b),
                        Entry::Torn(_, f) => Entry::Torn(t, f),
                        Entry::Corrupt(_, h) => Entry::Corrupt(t, h),
                        Entry::Refused(_, x) => Entry::Refused(t, x),
                        Entry::Blind(_, x, y) => Entry::Blind(t, x, y),
                        Entry::Vanish(_, x) => Entry::Vanish(t, x),
                        Entry::Appear(_, x) => Entry::Appear(t, x),
                        Entry::Sub(_) => Entry::Sub(t),
                        Entry::Link(_) => Entry::Link(t),
                        Entry::DirLink(_) => Entry::DirLink(t),
                        x => x,
                    };
                    let mut d = c.clone();
                    d.entries.insert(name.clone(), n);
                    out.push(d);
                }
            }
            let b = match e {
                Entry::Stale(s, b) => b.shrink().into_iter().map(|b| Entry::Stale(s.clone(), b)).collect(),
                Entry::Foreign(b) => b.shrink().into_iter().map(Entry::Foreign).collect(),
                Entry::Corrupt(s, h) if h.len() > 1 => (0..h.len())
                    .map(|i| {
                        let mut h = h.clone();
                        h.remove(i);
                        Entry::Corrupt(s.clone(), h)
                    })
                    .collect(),
                _ => vec![],
            };
            for n in b {
                let mut d = c.clone();
                d.entries.insert(name.clone(), n);
                out.push(d);
            }
        }
        out
    }
    fn label(c: &DirCase) -> String {
        let k: String = c
            .entries
            .values()
            .map(|e| match e {
                Entry::Good(_) => 'g',
                Entry::Stale(..) => 's',
                Entry::Foreign(_) => 'f',
                Entry::Torn(..) => 't',
                Entry::Corrupt(..) => 'c',
                Entry::Refused(..) => 'r',
                Entry::Blind(..) => 'b',
                Entry::Vanish(..) => 'v',
                Entry::Appear(..) => 'a',
                Entry::Sub(_) => 'd',
                Entry::Link(_) => 'l',
                Entry::DirLink(_) => 'D',
                Entry::Dangling => 'n',
                Entry::Fifo => 'p',
            })
            .collect();
        format!("{}/{}/{}", if c.uncompress { "decompress" } else if c.csv { "compress-csv" } else { "compress" }, c.opts.compressor, k)
    }
}
