//! Runtime monitors: `monitors PROPERTY --tier quick|thorough --seed N --out evidence.json`.
#![allow(clippy::all)]
#[macro_use]
mod util;
#[cfg(feature = "toolkit")] mod toolkit;
#[cfg(feature = "stats")] mod stats;
#[cfg(feature = "knn")] mod knn;
#[cfg(feature = "cluster")] mod cluster;
#[cfg(feature = "linear")] mod linear;
#[cfg(feature = "optim")] mod optim;
#[cfg(feature = "nnet")] mod nnet;
#[cfg(feature = "bayes")] mod bayes;
#[cfg(feature = "analysis")] mod analysis;
#[cfg(feature = "transforms")] mod transforms;
#[cfg(feature = "cross")] mod cross;
#[cfg(feature = "memory")] mod memory;

fn main() {
    #[cfg(feature = "toolkit")] { if let (Some(a), Some(b)) = (std::env::args().nth(1), std::env::args().nth(2)) { if a == "draw" { toolkit::draw(&b); return; } } }
    #[allow(unused_mut)]
    let mut table: Vec<(&str, fn(&mut util::Ctx))> = vec![];
    #[cfg(feature = "toolkit")] table.extend_from_slice(toolkit::TABLE);
    #[cfg(feature = "stats")] table.extend_from_slice(stats::TABLE);
    #[cfg(feature = "knn")] table.extend_from_slice(knn::TABLE);
    #[cfg(feature = "cluster")] table.extend_from_slice(cluster::TABLE);
    #[cfg(feature = "linear")] table.extend_from_slice(linear::TABLE);
    #[cfg(feature = "optim")] table.extend_from_slice(optim::TABLE);
    #[cfg(feature = "nnet")] table.extend_from_slice(nnet::TABLE);
    #[cfg(feature = "bayes")] table.extend_from_slice(bayes::TABLE);
    #[cfg(feature = "analysis")] table.extend_from_slice(analysis::TABLE);
    #[cfg(feature = "transforms")] table.extend_from_slice(transforms::TABLE);
    #[cfg(feature = "cross")] table.extend_from_slice(cross::TABLE);
    #[cfg(feature = "memory")] table.extend_from_slice(memory::TABLE);
    std::process::exit(util::drive(&table));
}
