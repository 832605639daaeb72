use carmen_core::gridstore::*;
use fixedbitset::FixedBitSet;
use serde::{Deserialize, Serialize};

// Util functions for tests and benchmarks

/// Round a float to a number of digits past the decimal point
pub fn round(value: f64, digits: i32) -> f64 {
    let multiplier = 10.0_f64.powi(digits);
    (value * multiplier).round() / multiplier
}

/// Convert an array of language ids into the langfield to use for GridKey or MatchKey
pub fn langarray_to_langfield(array: &[u32]) -> u128 {
    let mut out = 0u128;
    for lang in array {
        out = out | (1 << *lang as usize);
    }
    out
}

/// Mapping of GridKey to all of the grid entries to insert into a store for that GridKey
#[derive(Serialize, Deserialize, Debug)]
pub struct StoreEntryBuildingBlock {
    pub grid_key: GridKey,
    pub entries: Vec<GridEntry>,
}

#[derive(Serialize, Deserialize, Debug)]
struct PrefixBoundary {
    prefix: String,
    first: u32,
    last: u32,
}

pub struct TestStore {
    pub store: GridStore,
    pub idx: u16,
    pub non_overlapping_indexes: FixedBitSet,
}

/// Utility to create stores
/// Takes an vector, with each item mapping to a store to create
/// Each item is a vector with maps of grid keys to the entries to insert into the store for that grid key
pub fn create_store(
    store_entries: Vec<StoreEntryBuildingBlock>,
    idx: u16,
    zoom: u16,
    type_id: u16,
    non_overlapping_indexes: FixedBitSet,
    coalesce_radius: f64,
) -> TestStore {
    let directory: tempfile::TempDir = tempfile::tempdir().unwrap();
    let mut builder = GridStoreBuilder::new(directory.path()).unwrap();
    for build_block in store_entries {
        builder.insert(&build_block.grid_key, build_block.entries).expect("Unable to insert");
    }
    builder.finish().unwrap();
    TestStore {
        store: GridStore::new_with_options(
            directory.path(),
            zoom,
            type_id,
            coalesce_radius,
            global_bbox_for_zoom(zoom),
            1.0,
        )
        .unwrap(),
        idx,
        non_overlapping_indexes,
    }
}

// Gets the absolute path for a path relative to the carmen-core dir
