use crate::runner::Check;

mod cli;
mod fuzz;
mod graph_core;
mod library;
pub mod names;
mod opts;
mod objects;
mod reports;
mod same;
mod wasm_items;
mod web;

pub fn all() -> Vec<&'static Check> {
    let mut v: Vec<&'static Check> = vec![];
    v.extend(cli::CHECKS);
    v.extend(fuzz::CHECKS);
    v.extend(graph_core::CHECKS);
    v.extend(library::CHECKS);
    v.extend(names::CHECKS);
    v.extend(objects::CHECKS);
    v.extend(opts::CHECKS);
    v.extend(reports::CHECKS);
    v.extend(same::CHECKS);
    v.extend(wasm_items::CHECKS);
    v.extend(web::CHECKS);
    v.sort_by_key(|c| c.id);
    v
}

/// A directory that disappears with the value.
pub struct Scratch {
    pub path: std::path::PathBuf,
}

pub fn scratch(name: &str) -> Result<Scratch, String> {
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let base = std::env::var_os("TWV_SCRATCH").map(std::path::PathBuf::from).unwrap_or_else(std::env::temp_dir);
    let n = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    let path = base.join(format!("twv-{name}-{}-{n}", std::process::id()));
    std::fs::create_dir_all(&path).map_err(|e| format!("HARNESS: {}: {e}", path.display()))?;
    Ok(Scratch { path })
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.path);
    }
}
