//! S14: translating a file, under every fault of reading and writing.
use crate::{forms::*, tree::*};
use mc::{Explorer, Spec, Tier};
use sm_ast::{parser::ParserSettings, ToWolfram};
use std::{
    fs,
    path::{Path, PathBuf},
};

pub struct Files;
extern "C" {
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    fn signal(s: i32, h: usize) -> usize;
}
/// A scratch directory that goes with its owner.
struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        let p = mc::scratch_root().join(format!("front-s14-{}", std::process::id()));
        let _ = fs::remove_dir_all(&p);
        fs::create_dir(&p).expect("scratch");
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}
const PLACES: usize = 10;
const OLD: &[Option<&str>] = &[None, Some(""), Some("old"), Some("a long old text, longer than most of what is written over it .......................................................................................................................................................")];
fn snapshot(d: &Path) -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<_> = fs::read_dir(d).unwrap().map(|e| e.unwrap()).map(|e| (e.file_name().to_string_lossy().into_owned(), fs::read(e.path()).unwrap_or_default())).collect();
    v.sort();
    v
}
fn run(a: &Path, b: &Path) -> Result<Result<(), String>, String> {
    mc::guarded(|| ParserSettings::default().parse_file(a.to_str().unwrap(), b.to_str().unwrap()).map_err(|e| format!("{e:?}")))
}
fn want(src: &[u8]) -> Option<Vec<u8>> {
    let s = std::str::from_utf8(src).ok()?;
    Some(parse(s).ok()?.to_wolfram_bytes())
}
/// One source, one state of the destination, one pair of paths.
fn translate(d: &Path, src: &[u8], old: usize, place: usize) -> Result<u64, String> {
    let _ = fs::remove_dir_all(d);
    fs::create_dir(d).map_err(|e| e.to_string())?;
    let (a, b) = (d.join("in.sm"), d.join("out.wl"));
    fs::write(&a, src).unwrap();
    if let Some(t) = OLD[old] {
        fs::write(&b, t).unwrap();
    }
    fs::write(d.join("other"), "other").unwrap();
    let (from, to) = match place {
        0 => (a.clone(), b.clone()),
        1 => (d.join("absent"), b.clone()),
        2 => (d.to_path_buf(), b.clone()),
        3 => (a.clone(), d.join("absent/out.wl")),
        4 => (a.clone(), d.to_path_buf()),
        5 => (a.clone(), a.clone()),
        6 => (a.clone(), PathBuf::from("/dev/full")),
        7 => {
            std::os::unix::fs::symlink(&a, d.join("link")).unwrap();
            (d.join("link"), b.clone())
        }
        8 => {
            fs::copy(&a, d.join("é 函.sm")).unwrap();
            (d.join("é 函.sm"), b.clone())
        }
        // a target that has no name to itself
        9 => (a.clone(), d.join("../d/./out.wl")),
        _ => return Err("no such place".into()),
    };
    let before = snapshot(d);
    let r = run(&from, &to)?;
    let good = match place {
        0 | 5 | 7 | 8 | 9 => want(src),
        // nothing to write: nothing can fail
        6 => want(src).filter(|w| w.is_empty()),
        _ => None,
    };
    let mut after = before.clone();
    match (&r, &good) {
        (Ok(()), Some(w)) => {
            let n = if place == 5 { "in.sm" } else { "out.wl" };
            if place != 6 {
                match after.iter_mut().find(|e| e.0 == n) {
                    Some(e) => e.1 = w.clone(),
                    None => after.push((n.into(), w.clone())),
                }
            }
        }
        (Err(_), None) => {}
        _ => return Err(format!("returned {r:?}, expected {:?}", good.map(|w| String::from_utf8_lossy(&w).into_owned()))),
    }
    after.sort();
    let now = snapshot(d);
    if now != after {
        return Err(format!("after {r:?} the directory holds {}, expected {}", show(&now), show(&after)));
    }
    Ok(r.is_ok() as u64)
}
fn show(v: &[(String, Vec<u8>)]) -> String {
    v.iter().map(|(n, b)| format!("{n}={:?}", String::from_utf8_lossy(b))).collect::<Vec<_>>().join(" ")
}
/// The disk takes only `k` bytes.
fn full(d: &Path, src: &[u8], old: usize, k: usize) -> Result<u64, String> {
    let _ = fs::remove_dir_all(d);
    fs::create_dir(d).map_err(|e| e.to_string())?;
    let (a, b) = (d.join("in.sm"), d.join("out.wl"));
    fs::write(&a, src).unwrap();
    if let Some(t) = OLD[old] {
        fs::write(&b, t).unwrap();
    }
    let w = want(src).ok_or("not a source")?;
    let r = mc::in_child(|| {
        unsafe {
            signal(25, 1);
            setrlimit(1, &[k as u64, k as u64]);
        }
        format!("{}", run(&a, &b).map_or(false, |r| r.is_ok()))
    })?;
    let said = r == "true";
    let now = fs::read(&b).unwrap_or_default();
    if fs::read(&a).unwrap() != src {
        return Err("the source was changed".into());
    }
    if said && now != w {
        return Err(format!("success was reported with {} of {} bytes written", now.len(), w.len()));
    }
    if !said && w.len() <= k {
        return Err("failed although there was room".into());
    }
    Ok(said as u64)
}
fn sources(t: Tier) -> Vec<Vec<u8>> {
    let q = t == Tier::Quick;
    let mut v: Vec<Vec<u8>> = vec![];
    let a = Alphabet { inf: vec!["+", "^"], pre: vec![0], suf: vec![0], ..Alphabet::full() };
    for (i, s) in shapes(&a, if q { 1 } else { 2 }).iter().enumerate() {
        let f = form(s, &[i % 11, (i + 4) % 11]);
        let s = tight(&f);
        v.push(s.clone().into());
        v.push(fill(&f, &|_, g| if g == Gap::Free { "\n" } else { " " }).into());
        if i % 3 == 0 || !q {
            // refused ones: cut off, or with what no text has
            v.push(s[..s.char_indices().last().unwrap().0].into());
            v.push(format!("{s})").into());
            v.push(format!("({s}").into());
            let mut b = s.clone().into_bytes();
            b.push(0xff);
            v.push(b);
        }
    }
    // what must not be tidied up on the way: texts in strings, and around the source
    let odd = ["\r\n", "\r", "\n", "\t", "\u{feff}", "\u{0}", "\u{b}", "\u{c}", "\u{85}", "\u{a0}", "\u{2028}", "\u{3000}", "  ", "e\u{301}", "é", "\u{fb01}", "\\", "\\n", "'", "\u{1b}", "\u{7f}", "\u{fffd}", "\u{ffff}", "\u{10ffff}", "\u{200b}", "\u{202e}", "%%%", "///c", "//", ";", "，", "×", "÷", "∷", "$", "~", "${HOME}", "%s", "{}", "&amp;"];
    for a in odd {
        for s in [format!("f(\"x{a}y\")"), format!("\"{a}\""), format!("[\"{a}{a}\", \"\"\"{a}q{a}\"\"\", 1]"), format!("1{a}"), format!("{a}1"), format!("[1,{a}2]"), format!("\"{a}\"{a}"), format!("{a}f(1){a}\n{a}")] {
            v.push(s.into());
        }
        if !q {
            for b in odd {
                v.push(format!("f(\"{a}{b}\", \"{b}\"){a}").into());
            }
        }
    }
    for s in ["", "\n", "///only a comment", "%%%c%%%", ";", "1;2", "a\n\nb", "let a=1", "{}", "a'", "\u{feff}1", "\"unclosed", "\"\"\"block\ntext\"\"\"", "1\r\n", "a.\"s\"", "\0"] {
        v.push(s.into());
    }
    v.push(format!("[{}1]", "1,".repeat(if q { 3000 } else { 30_000 })).into());
    v.push(format!("\"{}\"", "x".repeat(if q { 20_000 } else { 300_000 })).into());
    v.push(vec![0xc3, 0x28]);
    v.push(vec![b'1', 0xe5, 0x87]);
    v
}
fn limits(w: usize) -> Vec<usize> {
    if w < 200 {
        return (0..=w + 1).collect();
    }
    let mut v = vec![0, 1, 2, 3, 100, 4095, 4096, 4097, 8191, 8192, 8193, w / 2, w - 2, w - 1, w, w + 1];
    v.retain(|k| *k <= w + 1);
    v
}
impl Spec for Files {
    fn id(&self) -> &'static str {
        "S14"
    }
    fn explore(&self, x: &mut Explorer) {
        let s = Scratch::new();
        let d = s.0.join("d");
        for (i, src) in sources(x.tier).iter().enumerate() {
            if !x.mine() {
                continue;
            }
            for place in 0..PLACES {
                for old in 0..OLD.len() {
                    x.state();
                    x.trans(1);
                    x.judge(format_args!("at {i} {old} {place}"), || translate(&d, src, old, place));
                }
            }
            let Some(w) = want(src) else { continue };
            for k in limits(w.len()) {
                for old in [0, 2] {
                    // the last of the old text would not fit either, were it kept
                    x.state();
                    x.trans(1);
                    x.judge(format_args!("full {i} {old} {k}"), || full(&d, src, old, k));
                }
            }
        }
    }
    fn replay(&self, c: &str) -> Result<(), String> {
        let s = Scratch::new();
        let d = s.0.join("d");
        let v: Vec<&str> = c.split(' ').collect();
        let n = |i: usize| v[i].parse::<usize>().unwrap();
        let all = sources(crate::tier());
        let src = all.get(n(1)).ok_or("no such source")?;
        if v[0] == "at" { translate(&d, src, n(2), n(3)) } else { full(&d, src, n(2), n(3)) }.map(|_| ())
    }
    fn case_limit(&self) -> u64 {
        60
    }
    fn bounds(&self, t: Tier) -> String {
        format!("{} sources (every form with up to {} nodes in two layouts, cut off, unbalanced, not UTF-8, empty, large), 4 states of the destination, 10 pairs of paths (absent, directories, the same file, a full device, a link, other names); a disk that is full after every number of bytes", sources(t).len(), if t == Tier::Quick { 1 } else { 2 })
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["a process that dies between creating the file and writing it is not explored: no atomic replacement is promised".into()]
    }
}
