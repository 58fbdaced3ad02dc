//! The foreign functions of the packages that programs here use, as the packages' own Rust code defines them.

use crate::machine::{number, Machine, Res, Stop, Value};
use pen_ffi as ffi;

extern "C" {
    fn _pen_prelude_debug_number(number: ffi::Number) -> ffi::ByteString;
    fn _pen_prelude_equal_strings(one: ffi::ByteString, other: ffi::ByteString) -> ffi::Boolean;
    fn _pen_prelude_combine_hashes(one: ffi::Number, other: ffi::Number) -> ffi::Number;
    fn _pen_prelude_hash_number(number: ffi::Number) -> ffi::Number;
    fn _pen_prelude_hash_string(string: ffi::ByteString) -> ffi::Number;
    fn _pen_prelude_hash_to_index(hash: ffi::Number, layer: ffi::Number, level: ffi::Number) -> ffi::Number;
}

fn string(machine: &Machine, value: &Value) -> Res<ffi::ByteString> {
    Ok(machine.bytes(value)?.to_vec().into())
}

pub fn define(machine: &Machine) {
    machine.define_foreign("_pen_prelude_debug_number", 1, |machine, arguments| {
        let result = unsafe { _pen_prelude_debug_number(number(arguments[0].clone())?.into()) };
        Ok(machine.string(result.as_slice()))
    });
    machine.define_foreign("_pen_prelude_equal_strings", 2, |machine, arguments| {
        let result = unsafe {
            _pen_prelude_equal_strings(string(machine, &arguments[0])?, string(machine, &arguments[1])?)
        };
        machine.drop_value(&arguments[0])?;
        machine.drop_value(&arguments[1])?;
        Ok(Value::Boolean(result.into()))
    });
    machine.define_foreign("_pen_prelude_combine_hashes", 2, |_, arguments| {
        let result = unsafe {
            _pen_prelude_combine_hashes(number(arguments[0].clone())?.into(), number(arguments[1].clone())?.into())
        };
        Ok(Value::Number(result.into()))
    });
    machine.define_foreign("_pen_prelude_hash_number", 1, |_, arguments| {
        Ok(Value::Number(unsafe { _pen_prelude_hash_number(number(arguments[0].clone())?.into()) }.into()))
    });
    machine.define_foreign("_pen_prelude_hash_string", 1, |machine, arguments| {
        let result = unsafe { _pen_prelude_hash_string(string(machine, &arguments[0])?) };
        machine.drop_value(&arguments[0])?;
        Ok(Value::Number(result.into()))
    });
    machine.define_foreign("_pen_prelude_hash_to_index", 3, |_, arguments| {
        let [hash, layer, level] = &arguments[..] else { return Err(Stop::Stuck("hash to index".into())) };
        let result = unsafe {
            _pen_prelude_hash_to_index(
                number(hash.clone())?.into(),
                number(layer.clone())?.into(),
                number(level.clone())?.into(),
            )
        };
        Ok(Value::Number(result.into()))
    });

    // Prints; the text goes to the trace.
    machine.define_foreign("_pen_debug", 1, |machine, arguments| {
        let text = String::from_utf8_lossy(machine.bytes(&arguments[0])?).into_owned();
        machine.trace.borrow_mut().push(format!("debug {text}"));
        machine.drop_value(&arguments[0])?;
        Ok(Value::None)
    });
}
