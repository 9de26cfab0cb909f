//! Stand-in for wasm-tracing: accepts a configuration and installs nothing.
#[derive(Default, Debug, Clone)]
pub struct WasmLayerConfig {
    level: Option<tracing::Level>,
}
impl WasmLayerConfig {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn set_max_level(&mut self, l: tracing::Level) -> &mut Self {
        self.level = Some(l);
        self
    }
}
pub fn set_as_global_default_with_config(_: WasmLayerConfig) -> Result<(), String> {
    Ok(())
}
