//! Stands for the F-- library: a module is only text.
pub mod ir {
    #[derive(Clone, Debug)]
    pub struct Module {
        pub text: String,
    }
}
pub mod types {
    #[derive(Clone, Debug)]
    pub struct Type;
    pub fn void_type() -> Type {
        Type
    }
}
pub mod analysis {
    pub mod cps {
        pub fn transform(_: &mut crate::ir::Module, _: crate::types::Type) -> Result<(), std::fmt::Error> {
            Ok(())
        }
    }
    pub mod c_calling_convention {
        pub fn transform(module: &mut crate::ir::Module, word_bytes: usize) -> Result<(), std::fmt::Error> {
            module.text += &format!("word {word_bytes}\n");
            Ok(())
        }
    }
    pub mod validation {
        pub fn validate(_: &crate::ir::Module) -> Result<(), std::fmt::Error> {
            Ok(())
        }
    }
}
