//! Proof obligations: one module per property group.
pub mod atc;
pub mod bc6;
pub mod bc7;
pub mod bcn;
pub mod etc;
pub mod opaque;
#[cfg(feature = "pv")]
pub mod pv;
#[cfg(not(any(kani, feature = "llsym")))]
pub mod pvrtc;
#[cfg(not(any(kani, feature = "llsym")))]
pub mod image;

#[cfg(not(any(kani, feature = "llsym")))]
pub fn table() -> Vec<(&'static str, &'static str, fn())> {
    let mut v = Vec::new();
    for t in [
        bcn::bc1::TABLE,
        bcn::bc23::TABLE,
        bcn::bc45::TABLE,
        etc::etc1::TABLE,
        etc::etc2_rgb::TABLE,
        etc::etc2_a1::TABLE,
        etc::etc2_rgba8::TABLE,
        etc::eac::TABLE,
        atc::TABLE,
        bc6::unsigned::TABLE,
        bc6::signed::TABLE,
        bc7::TABLE,
        image::TABLE,
        image::equal::TABLE,
        opaque::TABLE,
        pvrtc::TABLE,
        #[cfg(feature = "pv")]
        pv::four::TABLE,
        #[cfg(feature = "pv")]
        pv::two::TABLE,
    ] {
        v.extend_from_slice(t);
    }
    v
}
