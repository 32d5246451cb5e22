//! Stand-in for cairo-lang-starknet 1.1.0.
pub mod casm_contract_class {
    use serde::{Deserialize, Serialize};

    #[derive(Clone, Debug, Serialize, Deserialize)]
    pub struct CasmContractClass {
        pub prime: String,
        pub compiler_version: String,
        pub bytecode: Vec<String>,
        pub hints: Vec<(usize, Vec<serde_json::Value>)>,
        pub entry_points_by_type: serde_json::Value,
    }
}
