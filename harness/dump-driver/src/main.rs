//! core-driver, and besides: dumping stores to files and loading files as stores.
#[path = "../../core-driver/src/driver.rs"]
mod driver;
#[path = "../../core-driver/src/enc.rs"]
#[allow(dead_code)]
mod enc;
mod files;
#[path = "../../core-driver/src/ops.rs"]
mod ops;

fn main() {
    driver::run(files::step)
}
