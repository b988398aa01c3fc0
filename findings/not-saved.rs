//! P01: a committed change must be saved also if the stores are not saved automatically.
#[allow(dead_code)]
#[path = "world.rs"]
mod world;
use rgbstd::persistence::fs::FsBinStore;
use rgbstd::persistence::{MemIndex, MemStash, MemState, Stock};
use world::*;

fn main() {
    let dir = std::env::temp_dir().join(format!("rgb-store-{}", std::process::id()));
    let fs = FsBinStore::new(dir.clone()).unwrap();
    let mut alice = stock();
    alice.make_persistent(fs.clone(), false).unwrap();
    alice.store_secret_seal(gseal(outpoint(9, 0), 5)).unwrap();
    alice.store().unwrap();
    let loaded = Stock::<MemStash, MemState, MemIndex>::load(fs, false);
    std::fs::remove_dir_all(&dir).unwrap();
    let loaded = loaded.expect("saved stock");
    let seals = loaded.as_stash_provider().debug_secret_seals().clone();
    println!("{} seals are saved", seals.len());
    assert_eq!(&seals, alice.as_stash_provider().debug_secret_seals());
}
