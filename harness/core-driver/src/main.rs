//! Plays scenarios on carmen-core, see driver.rs.
mod driver;
mod enc;
mod ops;

fn main() {
    driver::run(|_, _| None)
}
