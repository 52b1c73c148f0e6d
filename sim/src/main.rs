#![allow(static_mut_refs, dead_code)]
mod alloc;
mod bot;
mod driver;
mod exec;
mod gen;
mod kept;
mod lines;
mod logcap;
mod oracle;
mod plan;
mod run;
mod shrink;
mod sys;
mod typed;
mod view;
mod world;

fn main() {
  std::env::set_var("SSL_CERT_FILE", concat!(env!("CARGO_MANIFEST_DIR"), "/certs/ca.pem"));
  std::env::remove_var("SSL_CERT_DIR");
  driver::install_panic_hook();
  let a: Vec<String> = std::env::args().collect();
  let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
  let code = match a.get(1).copied() {
    Some("check") => run::check(&a[2..]),
    Some("worker") => run::worker(&a[2..]),
    Some("serve") => run::serve(),
    Some("replay") => run::replay(a[2]),
    Some("one") => run::one(a[2], a[3].parse().unwrap(), a[4].parse().unwrap()),
    Some("plan") => run::show_plan(a[2]),
    Some("hashes") => run::hashes(a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap()),
    _ => {
      eprintln!("usage: tmisim check|worker|serve|replay|one|plan|hashes ...");
      2
    }
  };
  std::process::exit(code);
}
