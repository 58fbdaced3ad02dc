//! Stands for target-lexicon: the width of pointers of a few architectures.
pub struct Triple(String);
pub struct PointerWidth(u8);
impl PointerWidth {
    pub fn bytes(self) -> u8 {
        self.0
    }
}
impl std::str::FromStr for Triple {
    type Err = String;
    fn from_str(text: &str) -> Result<Self, String> {
        if text.split('-').count() < 2 {
            return Err(text.into());
        }
        Ok(Self(text.split('-').next().unwrap().into()))
    }
}
impl Triple {
    pub fn pointer_width(&self) -> Result<PointerWidth, ()> {
        match self.0.as_str() {
            "x86_64" | "aarch64" | "wasm64" | "arm64" => Ok(PointerWidth(8)),
            "i386" | "i586" | "i686" | "wasm32" | "armv7" => Ok(PointerWidth(4)),
            _ => Err(()),
        }
    }
}
