//! Native stand-in for marine-rs-sdk: same names and types as far as a service
//! uses them; the host side (call parameters) is settable by the harness.
pub use marine_macro_shim::marine;
#[doc(hidden)]
pub use serde as __serde;
#[doc(hidden)]
pub use serde_json as __serde_json;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::HashMap;

/// This struct contains information about origin of an argument.
#[derive(Clone, PartialEq, Default, Eq, Debug, Serialize, Deserialize)]
pub struct SecurityTetraplet {
    pub peer_pk: String,
    pub service_id: String,
    pub function_name: String,
    pub json_path: String,
}

impl SecurityTetraplet {
    pub fn new(
        peer_pk: impl Into<String>,
        service_id: impl Into<String>,
        function_name: impl Into<String>,
        json_path: impl Into<String>,
    ) -> Self {
        Self {
            peer_pk: peer_pk.into(),
            service_id: service_id.into(),
            function_name: function_name.into(),
            json_path: json_path.into(),
        }
    }

    pub fn literal_tetraplet(init_peer_id: impl Into<String>) -> Self {
        Self {
            peer_pk: init_peer_id.into(),
            ..Default::default()
        }
    }

    pub fn add_lambda(&mut self, json_path: &str) {
        self.json_path.push_str(json_path)
    }
}

impl std::fmt::Display for SecurityTetraplet {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(
            f,
            "peer_pk: {}, service_id: {}, function_name: {}, json_path: {}",
            self.peer_pk, self.service_id, self.function_name, self.json_path
        )
    }
}

#[derive(Clone, PartialEq, Default, Eq, Debug, Serialize, Deserialize)]
pub struct CallParameters {
    pub init_peer_id: String,
    pub service_id: String,
    pub service_creator_peer_id: String,
    pub host_id: String,
    pub particle_id: String,
    pub tetraplets: Vec<Vec<SecurityTetraplet>>,
}

thread_local!(static CURRENT: RefCell<CallParameters> = RefCell::new(CallParameters::default()));

pub fn get_call_parameters() -> CallParameters {
    CURRENT.with(|c| c.borrow().clone())
}

/// harness side
pub fn __set_call_parameters(cp: CallParameters) {
    CURRENT.with(|c| *c.borrow_mut() = cp)
}

pub type TargetMap = HashMap<&'static str, i32>;

pub struct WasmLoggerBuilder;

impl WasmLoggerBuilder {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        WasmLoggerBuilder
    }
    pub fn with_log_level(self, _level: log::LevelFilter) -> Self {
        self
    }
    pub fn with_target_map(self, _map: TargetMap) -> Self {
        self
    }
    pub fn filter(self, _module_name: impl Into<String>, _level: log::LevelFilter) -> Self {
        self
    }
    pub fn build(self) -> Result<(), log::SetLoggerError> {
        Ok(())
    }
}

#[macro_export]
macro_rules! module_manifest {
    ($($t:tt)*) => {};
}
