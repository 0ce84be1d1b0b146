//! Lists the rules of the parser under test, so that each of them can be used as a start rule.
use std::{env, fs, path::Path};
fn main() {
    let dir = "/repo/projects/sm-parser/src";
    println!("cargo:rerun-if-changed={dir}");
    let mut names: Vec<String> = vec![];
    let mut files: Vec<_> = fs::read_dir(dir).map(|d| d.flatten().map(|f| f.path()).collect()).unwrap_or_default();
    files.sort();
    for f in files {
        let t = fs::read_to_string(&f).unwrap_or_default();
        let Some(i) = t.find("pub enum Rule") else { continue };
        let Some((body, _)) = t[i..].split_once('{').and_then(|(_, b)| b.split_once('}')) else { continue };
        for line in body.lines() {
            let line = line.split("//").next().unwrap();
            for w in line.split(',') {
                let w = w.trim().trim_start_matches("r#");
                if !w.is_empty() && w.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') {
                    names.push(w.into());
                }
            }
        }
        break;
    }
    let list: Vec<String> = names.iter().map(|n| format!("sm_parser::Rule::{n}")).collect();
    fs::write(Path::new(&env::var("OUT_DIR").unwrap()).join("rules.rs"), format!("pub const RULES: &[sm_parser::Rule] = &[{}];", list.join(", "))).unwrap();
}
