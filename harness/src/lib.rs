#![allow(clippy::all)]
pub mod sx;
pub mod util;
pub mod troika_rc;
pub mod h_trits;
pub mod h_troika;
pub mod h_spongos;
pub mod h_pb3;
pub mod h_wots;
pub mod h_mss;
pub mod h_app;

pub fn tables() -> Vec<(&'static str, extern "C" fn())> {
    let mut v = vec![];
    for t in [h_trits::TABLE, h_troika::TABLE, h_spongos::TABLE, h_pb3::TABLE, h_wots::TABLE, h_mss::TABLE, h_app::TABLE] {
        v.extend_from_slice(t);
    }
    v
}
