//! Generates the toy language's syntax with the library.

use std::collections::HashMap;
use std::path::Path;

fn main() {
  let out = std::env::var("OUT_DIR").expect("cargo sets it");
  for f in ["ast.rs", "kind.rs"] {
    // nothing of an earlier build counts
    _ = std::fs::remove_file(Path::new(&out).join(f));
  }
  let r = std::panic::catch_unwind(|| {
    let doc = code_h2_md_map::get(include_str!("doc.md"), |s| if s == "pub" { String::new() } else { format!("On {s}.\n") });
    let doc: HashMap<&str, &str> = doc.iter().map(|(k, v)| (*k, v.as_str())).collect();
    let special = HashMap::from([("Name", "a name"), ("Num", "a number"), ("Bad", "a bad character")]);
    syntax_gen::get(&syntax_gen::Options {
      lang: "Lang",
      trivia: &["Whitespace", "Comment"],
      grammar: include_str!("grammar.ungram"),
      doc: &doc,
      special: &special,
      file: "build.rs",
    });
  });
  let ok = std::env::var_os("SIM_LANG_FALLBACK").is_none()
    && r.is_ok()
    && ["ast.rs", "kind.rs"].iter().all(|f| Path::new(&out).join(f).exists());
  if !ok {
    // reported by every run
    std::fs::write(format!("{out}/ast.rs"), include_str!("fallback/ast.rs")).expect("the output directory is ours");
    std::fs::write(format!("{out}/kind.rs"), include_str!("fallback/kind.rs")).expect("the output directory is ours");
  }
  for f in ["build.rs", "grammar.ungram", "doc.md", "fallback"] {
    println!("cargo::rerun-if-changed={f}");
  }
  println!("cargo::rerun-if-env-changed=SIM_LANG_FALLBACK");
  println!("cargo::rustc-check-cfg=cfg(generation_failed)");
  if !ok {
    println!("cargo::rustc-cfg=generation_failed");
  }
}
