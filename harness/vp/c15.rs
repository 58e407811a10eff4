//! C15: pieces land at the right place in the right files.
use super::*;
use super::env;
use crate::torrent::file::File;
use crate::torrent::writer::write;
/// the torrent's files, written through the model file system and compared byte by byte
fn judge(lens: &[u64], pl: u64, idx: usize, deep: usize) {
    let mut total = 0u64;
    for l in lens { total += *l }
    let start = pl * idx as u64;
    assume(start < total);
    let n = concretize((total - start).min(pl)) as usize;
    let piece: Vec<u8> = (0..n).map(|i| i as u8 + 1).collect();
    let names = [["a", "d"], ["b", "e"], ["a", "f"], ["c", "d"]];
    let path = |i: usize| -> Vec<String> { if i < deep { names[i].iter().map(|s| s.to_string()).collect() } else { vec![format!("f{}", i)] } };
    let files: Vec<File> = (0..lens.len()).map(|i| File::new(path(i), lens[i] as usize)).collect();
    let r = write(piece, idx, files, pl as usize);
    let failed = env::fs().failed > 0;
    check(failed || r.is_ok(), "a piece cannot be written");
    check(!failed || r.is_err(), "a failed write is reported as a success");
    // every byte in the files is a byte of the piece at its place
    let mut seen = vec![false; n];
    for node in env::fs().nodes.iter() {
        if node.dir { continue }
        check(node.path.len() > 2 && node.path[0] == b"home" && node.path[1] == b"work", "written outside of the working directory");
        let mut at = 0u64;
        let mut mine = None;
        for i in 0..lens.len() { let p = path(i); if p.len() == node.path.len() - 2 && p.iter().zip(&node.path[2..]).all(|(a, b)| a.as_bytes() == &b[..]) { mine = Some((at, lens[i])) } at += lens[i] }
        let (at, len) = match mine { Some(m) => m, None => fail("a file that is not in the torrent") };
        check(node.size <= len, "a file is larger than declared");
        for (o, b) in &node.writes {
            check(*o < len && *b >= 1 && *b as usize <= n, "a byte that is not in the piece");
            let k = *b as usize - 1;
            check(at + *o == start + k as u64, "a byte at the wrong place");
            seen[k] = true;
        }
    }
    if r.is_ok() { for s in &seen { check(*s, "a byte of the piece is missing") } reach("written") } else { reach("failed") }
    if env::fs().nodes.iter().filter(|n| !n.dir && n.size > 0).count() > 1 { reach("several files") }
    if idx > 0 { reach("not the first piece") }
}
/// the same for many bytes: what the files hold afterwards
fn large(lens: &[u64], pl: u64, idx: usize) {
    let total: u64 = lens.iter().sum();
    let start = pl * idx as u64;
    if start >= total { return }
    let end = total.min(start + pl);
    let byte = |at: u64| (at % 251) as u8 + 1;
    let files: Vec<File> = lens.iter().enumerate().map(|(i, l)| File::new(vec![format!("d{}", i % 3), format!("f{}", i)], *l as usize)).collect();
    check(write((start..end).map(byte).collect(), idx, files, pl as usize).is_ok(), "a piece cannot be written");
    let mut at = 0;
    for (i, l) in lens.iter().enumerate() {
        let (from, to) = (at.max(start), (at + *l).min(end));
        let n = env::lookup(&format!("d{}/f{}", i % 3, i));
        if from < to {
            let n = match n { Some(n) => n, None => fail("a byte of the piece is missing") };
            check(n.size == to - at, "a file of wrong size");
            check(n.writes.len() as u64 == to - from, "not every byte is written once");
            let mut k = from - at;
            for (o, b) in &n.writes { check(*o == k && *b == byte(at + k), "a byte at the wrong place"); k += 1 }
        } else if let Some(n) = n { check(n.writes.is_empty() && n.size <= *l, "bytes that are not in the piece") }
        at += *l;
    }
    reach("written");
    if idx > 0 { reach("not the first piece") }
}
pub fn run() {
    env::files_on();
    match param("mode", 0) {
        // small files of every length, short and interrupted writes
        0 => {
            let nf = 1 + choose("files", param("files", 3) as usize);
            let lens: Vec<u64> = (0..nf).map(|_| choose("length", param("len", 4) as usize + 1) as u64).collect();
            let pl = 1 + choose("piece length", param("pl", 5) as usize) as u64;
            let idx = choose("index", param("idx", 4) as usize);
            env::fs().short = param("short", 1) as usize;
            env::fs().intr = param("intr", 0) as usize;
            judge(&lens, pl, idx, 0)
        }
        // files of any length, pieces around any boundary
        1 => {
            let nf = 1 + choose("files", 2);
            let lens: Vec<u64> = (0..nf).map(|_| range("length", 0, 1 << 40)).collect();
            let mut total = 0;
            for l in &lens { total += *l }
            let pl = [2, 4, 3, 1][choose("piece length", param("pl", 2) as usize)];
            let idx = range("index", 0, 1 << 40);
            assume(pl * idx < total);
            judge(&lens, pl, idx as usize, 0)
        }
        // large pieces, many files
        3 => {
            let w = choose("large", 6);
            let (lens, pl): (Vec<u64>, u64) = match w {
                0 => (vec![param("big", 100_000), 40_000], 65_536),
                1 => (vec![10_000, 0, 70_000, 1, 50_000], 32_768),
                2 => ((0..param("files", 300)).map(|i| i % 4).collect(), 100),
                3 => ((0..param("files", 300)).map(|i| i % 4).collect(), 1 << 20),
                4 => ((0..param("files", 300)).map(|_| 1).collect(), 80),
                _ => (vec![8192, 8193, 16384, 1, 8191, 65536], 16384),
            };
            let idx = choose("index", 3);
            if (w < 2 || w == 5) && bool("short") { env::fs().short = 1; env::fs().few = true }
            large(&lens, pl, idx)
        }
        // folders, files that exist already, calls that fail
        _ => {
            let nf = 1 + choose("files", 3);
            let lens: Vec<u64> = (0..nf).map(|_| choose("length", 3) as u64).collect();
            let pl = 1 + choose("piece length", 4) as u64;
            let idx = choose("index", 2);
            env::fs().faults = param("faults", 1) as usize;
            judge(&lens, pl, idx, choose("folders", nf + 1))
        }
    }
}
