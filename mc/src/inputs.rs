//! Exhaustive generation of byte strings for a type: (1) the tree of all byte strings over an
//! alphabet, pruned where the reference decoder says no continuation can be valid; (2) the
//! encodings of the value domain with every truncation, every single-byte substitution from a set,
//! trailing data, and hostile lengths spliced in at every offset.
use crate::corpus::Corpus;
use crate::engine::Tier;
use crate::tys::*;
use std::collections::{HashSet, VecDeque};

pub const ALPHABET: [u8; 20] = [0, 1, 4, 2, 8, 5, 0xff, 3, 0x0c, 0x41, 7, 9, 0x10, 0x13, 0x33, 0x7f, 0x80, 0xc3, 0xd8, 0xfe];
pub const HOSTILE: [&[u8]; 8] = [
    &[0xfe, 0xff, 0xff, 0xff],
    &[0x13, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff],
    &[0x03, 0xff, 0xff, 0xff, 0xff],
    &[0x02, 0x09, 0x3d, 0x00],
    &[0x0f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f],
    &[0x13, 0, 0, 0, 0, 0, 0, 0, 0x80],
    &[0x07, 0, 0, 0, 0, 1],
    &[0x33, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16],
];

pub struct Limits {
    pub tree: usize,
    pub values: usize,
    pub rich: u8,
    pub subs: usize,
}
pub fn limits(tier: Tier, depth: u32) -> Limits {
    let d = depth.min(3) as usize;
    match tier {
        Tier::Quick => Limits { tree: [4000, 900, 250, 120][d], values: [400, 24, 8, 5][d], rich: [2, 2, 1, 1][d], subs: [4, 3, 3, 2][d] },
        Tier::Thorough => Limits { tree: [200_000, 20_000, 4000, 1500][d], values: [2000, 120, 40, 20][d], rich: [2, 2, 2, 1][d], subs: 8 },
    }
}

/// Calls `visit` once for every distinct input of the bounded space.
pub fn for_inputs(c: &Corpus, id: Id, depth: u32, tier: Tier, visit: &mut dyn FnMut(&[u8], &Dec)) {
    let lim = limits(tier, depth);
    let mut seen: HashSet<Vec<u8>> = HashSet::new();
    let mut go = |b: Vec<u8>| -> Option<Dec> {
        if !seen.insert(b.clone()) {
            return None;
        }
        let d = c.reg.decode(id, &b);
        if d != Dec::Skip {
            visit(&b, &d);
        }
        Some(d)
    };
    // (1) prefix tree, breadth first
    let mut q: VecDeque<Vec<u8>> = VecDeque::new();
    q.push_back(vec![]);
    let mut n = 0;
    while let Some(p) = q.pop_front() {
        n += 1;
        if n > lim.tree {
            break;
        }
        let Some(d) = go(p.clone()) else { continue };
        match d {
            Dec::More => {
                let first_all = p.is_empty();
                for k in 0..ALPHABET.len() {
                    let mut x = p.clone();
                    x.push(ALPHABET[k]);
                    q.push_back(x);
                }
                if first_all {
                    for b in 0..=255u8 {
                        if !ALPHABET.contains(&b) {
                            q.push_back(vec![b]);
                        }
                    }
                }
            }
            Dec::Done(_, n) if n == p.len() => {
                for t in [&[0u8][..], &[0xff, 1][..]] {
                    let mut x = p.clone();
                    x.extend(t);
                    go(x);
                }
                let mut x = p.clone();
                x.extend(p.clone());
                go(x);
            }
            _ => {}
        }
    }
    // (2) value directed
    let vals = c.reg.domain(id, lim.rich, 8, lim.values);
    for (vi, v) in vals.iter().enumerate() {
        let Some(e) = c.reg.encode(id, v) else { panic!("domain value without encoding: {} : {}", showv(v), c.reg.show(id)) };
        go(e.clone());
        for t in [&[0u8][..], &[1, 2, 3][..], &[0xff][..]] {
            let mut x = e.clone();
            x.extend(t);
            go(x);
        }
        let positions: Vec<usize> = if e.len() <= 48 { (0..e.len()).collect() } else { (0..24).chain(e.len() - 12..e.len()).collect() };
        for &p in &positions {
            go(e[..p].to_vec());
            for s in [1u8, 0xff, 0x80, 2, 4, 0x55, 0x10, 0x41].iter().take(lim.subs) {
                let mut x = e.clone();
                x[p] ^= s;
                go(x);
            }
        }
        if vi < 2 {
            for p in positions.iter().copied().chain([e.len()]) {
                for h in HOSTILE {
                    let mut x = e[..p].to_vec();
                    x.extend(h);
                    x.extend([1, 2, 3]);
                    go(x);
                }
            }
        }
    }
}
