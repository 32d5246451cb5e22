use super::errors::program_errors::ProgramError;
use super::relocatable::MaybeRelocatable;
use crate::felt::Felt252;
use crate::serde::deserialize_program::BuiltinName;
use cairo_lang_starknet::casm_contract_class::CasmContractClass;
use serde_json::Value;
use std::collections::HashMap;

#[derive(Clone, Debug, Default)]
pub struct Program {
    pub builtins: Vec<BuiltinName>,
    pub data: Vec<MaybeRelocatable>,
    pub identifiers: HashMap<String, usize>,
    pub has_hints: bool,
}

impl Program {
    pub fn data_len(&self) -> usize {
        self.data.len()
    }

    pub fn from_json(content: &[u8]) -> Result<Self, String> {
        let v: Value = serde_json::from_slice(content).map_err(|e| e.to_string())?;
        let data = v
            .get("data")
            .and_then(|d| d.as_array())
            .ok_or("missing data")?
            .iter()
            .map(|w| {
                w.as_str()
                    .and_then(Felt252::from_hex)
                    .map(MaybeRelocatable::Int)
                    .ok_or_else(|| "bad data word".to_string())
            })
            .collect::<Result<Vec<_>, _>>()?;
        let builtins = v
            .get("builtins")
            .and_then(|b| b.as_array())
            .ok_or("missing builtins")?
            .iter()
            .map(|b| b.as_str().and_then(BuiltinName::from_program_name).ok_or_else(|| "bad builtin".to_string()))
            .collect::<Result<Vec<_>, _>>()?;
        let mut identifiers = HashMap::new();
        if let Some(ids) = v.get("identifiers").and_then(|i| i.as_object()) {
            for (k, id) in ids {
                if let Some(pc) = id.get("pc").and_then(|p| p.as_u64()) {
                    identifiers.insert(k.clone(), pc as usize);
                }
            }
        }
        let has_hints = v.get("hints").and_then(|h| h.as_object()).map(|h| !h.is_empty()).unwrap_or(false);
        Ok(Program { builtins, data, identifiers, has_hints })
    }
}

impl TryFrom<CasmContractClass> for Program {
    type Error = ProgramError;
    fn try_from(c: CasmContractClass) -> Result<Self, ProgramError> {
        if crate::hooks::hit(crate::hooks::Fault::Contract) {
            return Err(ProgramError::Other("injected failure".into()));
        }
        let data = c
            .bytecode
            .iter()
            .map(|w| Felt252::from_hex(w).map(MaybeRelocatable::Int).ok_or_else(|| ProgramError::Other("bad word".to_string())))
            .collect::<Result<Vec<_>, _>>()?;
        Ok(Program { data, ..Default::default() })
    }
}
