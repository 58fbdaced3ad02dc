//! Stands for the lowering to F--: the parts of the intermediate program, one in a line. Their order means nothing.
#[derive(Clone, Debug)]
pub struct Configuration {
    pub yield_function_name: String,
}
pub fn compile(module: &mir::ir::Module, configuration: &Configuration) -> Result<fmm::ir::Module, std::fmt::Error> {
    let mut lines = vec![format!("yield {}", configuration.yield_function_name)];
    lines.extend(module.type_definitions().iter().map(|definition| format!("type {definition:?}")));
    lines.extend(module.foreign_declarations().iter().map(|declaration| {
        format!("import {} {} {declaration:?}", declaration.name(), declaration.foreign_name())
    }));
    lines.extend(
        module
            .foreign_definitions()
            .iter()
            .map(|definition| format!("export {} {} {definition:?}", definition.name(), definition.foreign_name())),
    );
    lines.extend(
        module
            .function_declarations()
            .iter()
            .map(|declaration| format!("declare {} {declaration:?}", declaration.name())),
    );
    lines.extend(module.function_definitions().iter().map(|definition| {
        format!(
            "{} {} {:?}",
            if definition.is_public() { "define" } else { "local" },
            definition.definition().name(),
            definition.definition()
        )
    }));
    lines.sort();
    Ok(fmm::ir::Module { text: lines.join("\n") + "\n" })
}
