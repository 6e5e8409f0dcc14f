#[cfg(auto_palette_verif = "color")]
mod checks_color;
#[cfg(auto_palette_verif = "dbscan")]
mod checks_dbscan;
#[cfg(auto_palette_verif = "kmeans")]
mod checks_kmeans;
#[cfg(auto_palette_verif = "neighbors")]
mod checks_neighbors;
mod checks_palette;
#[cfg(auto_palette_verif = "point")]
mod checks_point;
#[cfg(any(
    auto_palette_verif = "neighbors",
    auto_palette_verif = "dbscan",
    auto_palette_verif = "kmeans",
    auto_palette_verif = "graph",
    auto_palette_verif = "hierarchical",
    auto_palette_verif = "hdbscan",
))]
mod checks_purity;
#[cfg(not(auto_palette_verif))]
mod checks_swatch;
#[cfg(not(auto_palette_verif))]
mod checks_threads;
#[cfg(any(
    auto_palette_verif = "graph",
    auto_palette_verif = "hierarchical",
    auto_palette_verif = "hdbscan"
))]
mod checks_trees;
#[cfg(any(
    auto_palette_verif = "neighbors",
    auto_palette_verif = "dbscan",
    auto_palette_verif = "kmeans",
    auto_palette_verif = "point",
    auto_palette_verif = "graph",
    auto_palette_verif = "hierarchical",
    auto_palette_verif = "hdbscan"
))]
mod data;
mod engine;
mod env;
mod families;
mod palette;
mod refm;
#[cfg(not(auto_palette_verif))]
mod threads;

use engine::{Space, Tier};
use std::path::{Path, PathBuf};
use std::time::Duration;

fn spaces(id: &str, tier: Tier) -> Option<Vec<Space>> {
    #[cfg(auto_palette_verif = "color")]
    if let Some(spaces) = checks_color::spaces(id, tier) {
        return Some(spaces);
    }
    #[cfg(auto_palette_verif = "dbscan")]
    if let Some(spaces) = checks_dbscan::spaces(id, tier) {
        return Some(spaces);
    }
    #[cfg(auto_palette_verif = "kmeans")]
    if let Some(spaces) = checks_kmeans::spaces(id, tier) {
        return Some(spaces);
    }
    #[cfg(auto_palette_verif = "neighbors")]
    if let Some(spaces) = checks_neighbors::spaces(id, tier) {
        return Some(spaces);
    }
    #[cfg(auto_palette_verif = "point")]
    if let Some(spaces) = checks_point::spaces(id, tier) {
        return Some(spaces);
    }
    #[cfg(any(
        auto_palette_verif = "graph",
        auto_palette_verif = "hierarchical",
        auto_palette_verif = "hdbscan"
    ))]
    if let Some(spaces) = checks_trees::spaces(id, tier) {
        return Some(spaces);
    }
    #[cfg(any(
        auto_palette_verif = "neighbors",
        auto_palette_verif = "dbscan",
        auto_palette_verif = "kmeans",
        auto_palette_verif = "graph",
        auto_palette_verif = "hierarchical",
        auto_palette_verif = "hdbscan",
    ))]
    if let Some(spaces) = checks_purity::spaces(id, tier) {
        return Some(spaces);
    }
    #[cfg(not(auto_palette_verif))]
    if let Some(spaces) = checks_swatch::spaces(id, tier) {
        return Some(spaces);
    }
    #[cfg(not(auto_palette_verif))]
    if let Some(spaces) = checks_threads::spaces(id, tier) {
        return Some(spaces);
    }
    checks_palette::spaces(id, tier)
}

fn main() {
    engine::install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = run(&args);
    std::process::exit(code);
}

fn run(args: &[String]) -> i32 {
    if args.first().is_some_and(|a| a == "history") {
        checks_palette::history_child(&args[1..]);
        return 0;
    }
    let (Some(mode), Some(id), Some(tier)) = (args.first(), args.get(1), args.get(2)) else {
        eprintln!("usage: mc check|one|shard ID TIER ...");
        return 3;
    };
    let tier = Tier::parse(tier);
    let Some(spaces) = spaces(id, tier) else {
        eprintln!("mc: this build has no check {id}");
        return 3;
    };
    let number = |at: usize| args[at].parse::<u64>().expect("number");
    match mode.as_str() {
        "check" => engine::check(id, tier, &spaces, &PathBuf::from(&args[3])),
        "one" => engine::one(&spaces, number(3) as usize, number(4)),
        "shard" => engine::shard(
            &spaces,
            number(3),
            number(4),
            Path::new(&args[6]),
            Duration::from_secs(number(5)),
        ),
        _ => 3,
    }
}
