//! F01: the configurations. The program in `feat` (what every part of the crate does over a small
//! enumerated space) is built and run in every configuration, and the outcomes of any two which
//! have a part in common are compared; the one in `nostd` is a program without the standard library.
use crate::engine::{item, step, verif_dir, Item, Rec, Tier};
use std::collections::HashMap;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq)]
struct Conf {
    features: &'static str,
    /// The dependencies with `std`.
    stdlib: bool,
    /// Optimized, without overflow checks and debug assertions.
    release: bool,
}

const SETS: [&str; 6] = ["serde,parser-ss58", "", "serde", "from-string", "serde,from-string", "parser-ss58"];

impl Conf {
    fn name(&self) -> String {
        let f = if self.features.is_empty() { "no features" } else { self.features };
        format!("{f}{}{}", if self.stdlib { ", std" } else { "" }, if self.release { ", release" } else { "" })
    }
    fn file(&self, tier: Tier) -> PathBuf {
        dir().join(format!("{}-{}.txt", tier.name(), self.name().replace([' ', ','], "_")))
    }
    /// Whether a group of cases is there in this configuration.
    fn has(&self, group: &str) -> bool {
        match group {
            "parse" | "hex" => self.features.contains("from-string") || self.features.contains("parser-ss58"),
            "ss58" => self.features.contains("parser-ss58"),
            "from_value" | "to_value" => self.features.contains("serde"),
            _ => true,
        }
    }
}

/// The first is what the others are compared with.
fn confs(tier: Tier) -> Vec<Conf> {
    let mut out = vec![];
    for (release, stdlib) in [(false, false), (true, false), (false, true), (true, true)] {
        for features in SETS {
            if tier == Tier::Thorough || (!release && !stdlib) || (features == SETS[0] && release != stdlib) {
                out.push(Conf { features, stdlib, release });
            }
        }
    }
    out
}

fn dir() -> PathBuf {
    verif_dir().join("mc/target/feat")
}

fn cargo(manifest: &str, features: &str, release: bool) -> Result<(), String> {
    let mut c = Command::new("cargo");
    c.args(["build", "--offline", "--no-default-features", "--features", features, "--manifest-path"])
        .arg(verif_dir().join(manifest).join("Cargo.toml"))
        .env("CARGO_TARGET_DIR", dir().join(manifest));
    if release {
        c.arg("--release");
    }
    let o = c.output().map_err(|e| e.to_string())?;
    if o.status.success() {
        return Ok(());
    }
    let err = String::from_utf8_lossy(&o.stderr).into_owned();
    let from = err.find("\nerror").map(|i| i + 1).unwrap_or(0);
    Err(format!("does not build: {}", err[from..].lines().take(12).collect::<Vec<_>>().join("\n")))
}

fn run(c: &Conf, tier: Tier) -> Result<(), String> {
    cargo("feat", &format!("{}{}", c.features, if c.stdlib { ",stdlib" } else { "" }), c.release)?;
    let bin = dir().join("feat").join(if c.release { "release" } else { "debug" }).join("feat");
    let mut child = Command::new(bin).arg(c.file(tier)).arg(tier.name()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().map_err(|e| e.to_string())?;
    let limit = Duration::from_secs(tier.pick(120, 1200));
    let start = Instant::now();
    loop {
        match child.try_wait().map_err(|e| e.to_string())? {
            Some(s) if s.success() => return Ok(()),
            Some(s) => return Err(format!("the program ended: {s}")),
            None if start.elapsed() > limit => {
                let _ = child.kill();
                let _ = child.wait();
                return Err("the program does not finish".into());
            }
            None => std::thread::sleep(Duration::from_millis(20)),
        }
    }
}

fn nostd_file(features: &str) -> PathBuf {
    dir().join(format!("nostd-{}.txt", features.replace(',', "_")))
}

/// Build and run the configurations. What goes wrong is written in place of the outcomes.
pub fn prepare(tier: Tier) -> Result<(), String> {
    std::fs::create_dir_all(dir()).map_err(|e| e.to_string())?;
    let (dev, rel): (Vec<Conf>, Vec<Conf>) = confs(tier).into_iter().partition(|c| !c.release);
    std::thread::scope(|s| {
        for part in [dev, rel] {
            s.spawn(move || {
                for c in part {
                    let _ = std::fs::remove_file(c.file(tier));
                    if let Err(e) = run(&c, tier) {
                        std::fs::write(c.file(tier), format!("!{e}")).expect("outcome");
                    }
                }
            });
        }
        s.spawn(|| {
            for f in SETS {
                let e = cargo("nostd", f, false).err().unwrap_or_default();
                std::fs::write(nostd_file(f), e).expect("outcome");
            }
        });
    });
    Ok(())
}

/// The outcomes by group and input.
fn outcomes(c: &Conf, tier: Tier) -> Result<Vec<(String, String, String)>, String> {
    let text = std::fs::read_to_string(c.file(tier)).map_err(|e| e.to_string())?;
    if let Some(e) = text.strip_prefix('!') {
        return Err(e.to_string());
    }
    text.lines()
        .map(|l| {
            let mut f = l.splitn(3, '\t').map(String::from);
            f.next().zip(f.next()).zip(f.next()).map(|((a, b), c)| (a, b, c)).ok_or_else(|| format!("output: {l}"))
        })
        .collect()
}

pub fn f01(tier: Tier) -> Vec<Item> {
    let mut out = vec![];
    for f in SETS {
        out.push(item(format!("without std: {f}"), move |rec: &mut Rec| {
            rec.case(
                || format!("a program without the standard library, features [{f}]"),
                || {
                    step();
                    let e = std::fs::read_to_string(nostd_file(f)).map_err(|e| e.to_string())?;
                    if e.is_empty() {
                        Ok("builds without std")
                    } else {
                        Err(e)
                    }
                },
            );
        }));
    }
    for c in confs(tier) {
        out.push(item(format!("configuration: {}", c.name()), move |rec: &mut Rec| {
            let tier = rec.tier;
            let base = confs(tier)[0];
            let mine = outcomes(&c, tier);
            let e = mine.as_ref().err().cloned();
            rec.case(
                || format!("a program with features [{}]", c.name()),
                || {
                    step();
                    match &e {
                        None => Ok("builds and runs"),
                        Some(e) => Err(e.clone()),
                    }
                },
            );
            let (Ok(mine), Ok(all)) = (mine, outcomes(&base, tier)) else { return };
            if c == base {
                return;
            }
            let mut got: HashMap<(&str, &str), &str> = mine.iter().map(|(g, i, o)| ((&g[..], &i[..]), &o[..])).collect();
            for (g, i, want) in all.iter().filter(|x| c.has(&x.0)) {
                let o = got.remove(&(&g[..], &i[..]));
                rec.case(
                    || format!("[{}] {g}: {i}", c.name()),
                    || {
                        step();
                        let o = o.ok_or("not there")?;
                        // The texts of codec errors say more with std.
                        let same = o == want || (c.stdlib != base.stdlib && o.starts_with("ERR") && want.starts_with("ERR"));
                        if !same {
                            return Err(format!("{o}, but {want} with [{}]", base.name()));
                        }
                        Ok(if o == "panics" {
                            "panics in both"
                        } else if o.starts_with("ERR") {
                            "refused in both"
                        } else {
                            "same outcome"
                        })
                    },
                );
            }
            rec.case(|| format!("[{}] cases in all", c.name()), || if got.is_empty() { Ok("same cases") } else { Err(format!("{} cases more", got.len())) });
        }));
    }
    out
}
