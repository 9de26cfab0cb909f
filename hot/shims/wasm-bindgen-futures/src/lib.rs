//! Stand-in for wasm-bindgen-futures: see `roam::world`.
pub fn spawn_local<F: std::future::Future<Output = ()> + 'static>(f: F) {
    roam::world::spawn(f)
}
