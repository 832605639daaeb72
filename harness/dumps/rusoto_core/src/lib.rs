//! Stand-in: there is no network.
pub enum Region {
    UsEast1,
}
