//! One module per group of properties.
use crate::fw::Check;

mod cli;
mod config;
mod enumerate;
mod faults;
mod memory;
mod native;
mod proofs;
mod solve;
mod text;

pub fn all() -> Vec<Check> {
    let mut v = vec![];
    v.extend(solve::checks());
    v.extend(proofs::checks());
    v.extend(text::checks());
    v.extend(native::checks());
    v.extend(enumerate::checks());
    v.extend(faults::checks());
    v.extend(config::checks());
    v.extend(cli::checks());
    v.extend(memory::checks());
    v.sort_by_key(|c| c.id);
    v
}

/// Helper processes.
pub fn aux(args: &[String]) {
    match args.first().map(|s| &s[..]) {
        Some("fingerprint") => proofs::aux_fingerprint(&args[1..]),
        _ => std::process::exit(2),
    }
}
