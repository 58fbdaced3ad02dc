//! Stands for the code generator: bit code is the text of the module.
#[derive(Clone, Debug)]
pub struct InstructionConfiguration {
    pub allocate_function_name: String,
    pub reallocate_function_name: String,
    pub free_function_name: String,
    pub unreachable_function_name: Option<String>,
}
pub fn compile_to_bit_code(
    module: &fmm::ir::Module,
    _: &InstructionConfiguration,
    target_triple: Option<&str>,
) -> Result<Vec<u8>, std::fmt::Error> {
    Ok(format!("{}target {target_triple:?}\n", module.text).into_bytes())
}
