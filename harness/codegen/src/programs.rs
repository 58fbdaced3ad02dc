//! Generated programs, compiled to F-- by mir-fmm.

use crate::{
    lang::{
        check::{self, Seen},
        emit::{probe_name, SHOW_NUMBER, SHOW_STRING},
        eval::{canonical, show_bytes, show_number},
        Program, T,
    },
    machine::{Res, Stop},
    pipeline::{self, LAST},
    vm::{Vm, V},
};
use pbt::{ensure_eq, CaseResult, Failure, Gen};
use pen_ffi as ffi;
use std::{cell::RefCell, collections::BTreeSet, rc::Rc};

extern "C" {
    fn _pen_prelude_debug_number(number: ffi::Number) -> ffi::ByteString;
    fn _pen_prelude_equal_strings(one: ffi::ByteString, other: ffi::ByteString) -> ffi::Boolean;
    fn _pen_prelude_combine_hashes(one: ffi::Number, other: ffi::Number) -> ffi::Number;
    fn _pen_prelude_hash_number(number: ffi::Number) -> ffi::Number;
    fn _pen_prelude_hash_string(string: ffi::ByteString) -> ffi::Number;
    fn _pen_prelude_hash_to_index(hash: ffi::Number, layer: ffi::Number, level: ffi::Number) -> ffi::Number;
}

const FUEL: u64 = 12_000_000;

fn generate(module: &mir::ir::Module) -> Result<fmm::ir::Module, String> {
    mir_fmm::compile(module, &mir_fmm::Configuration { yield_function_name: "_pen_yield".into() })
        .map_err(|error| format!("{error:?}"))
}

thread_local! {
    static BASE: Vm = {
        let vm = Vm::new(u64::MAX);

        natives(&vm);

        for module in &pipeline::prelude().modules {
            let module = generate(&module.mir).unwrap_or_else(|error| panic!("prelude: {error}"));
            vm.link(&module).unwrap_or_else(|stop| panic!("prelude: {stop:?}"));
        }

        vm
    };
}

fn float(value: &V) -> Res<f64> {
    Ok(f64::from_bits(value.bits()?))
}

fn natives(vm: &Vm) {
    fn number(value: &V) -> Res<ffi::Number> {
        Ok(float(value)?.into())
    }

    fn string(vm: &Vm, value: &V) -> Res<ffi::ByteString> {
        let bytes = vm.bytes(value)?;
        vm.drop_string(value)?;
        Ok(bytes.into())
    }

    fn word(number: ffi::Number) -> Res<V> {
        Ok(V::Bits(f64::from(number).to_bits()))
    }

    vm.define("_pen_prelude_debug_number", |vm, arguments| {
        vm.string(unsafe { _pen_prelude_debug_number(number(&arguments[0])?) }.as_slice())
    });
    vm.define("_pen_prelude_equal_strings", |vm, arguments| {
        let one = string(vm, &arguments[0])?;
        let other = string(vm, &arguments[1])?;
        Ok(V::Bits(bool::from(unsafe { _pen_prelude_equal_strings(one, other) }) as u64))
    });
    vm.define("_pen_prelude_combine_hashes", |_, arguments| {
        word(unsafe { _pen_prelude_combine_hashes(number(&arguments[0])?, number(&arguments[1])?) })
    });
    vm.define("_pen_prelude_hash_number", |_, arguments| {
        word(unsafe { _pen_prelude_hash_number(number(&arguments[0])?) })
    });
    vm.define("_pen_prelude_hash_string", |vm, arguments| {
        word(unsafe { _pen_prelude_hash_string(string(vm, &arguments[0])?) })
    });
    vm.define("_pen_prelude_hash_to_index", |_, arguments| {
        word(unsafe {
            _pen_prelude_hash_to_index(number(&arguments[0])?, number(&arguments[1])?, number(&arguments[2])?)
        })
    });
    vm.define("_pen_debug", |vm, arguments| {
        let text = String::from_utf8_lossy(&vm.bytes(&arguments[0])?).into_owned();
        vm.trace.borrow_mut().push(format!("debug {text}"));
        vm.drop_string(&arguments[0])?;
        Ok(V::void())
    });
    vm.define("_pen_yield", |_, _| Err(Stop::Exit("a thunk needs its own value".into())));
    // Runs it at once.
    vm.define("_pen_spawn", |vm, arguments| {
        let result = vm.task(|| vm.call_closure(&arguments[0], vec![]))?;
        vm.future(&result)
    });
    vm.define(SHOW_NUMBER, |vm, arguments| vm.string(show_number(float(&arguments[0])?)));
    vm.define(SHOW_STRING, |vm, arguments| {
        let text = show_bytes(&vm.bytes(&arguments[0])?);
        vm.drop_string(&arguments[0])?;
        vm.string(text)
    });
}

fn digest_of(vm: &Vm, value: &V, type_: &T) -> Res<String> {
    Ok(match type_ {
        T::Num => show_number(float(value)?),
        T::Bool => (value.bits()? == 1).to_string(),
        T::None => "none".into(),
        T::Str => show_bytes(&vm.bytes(value)?),
        T::Any | T::Union(_) => {
            let tag = value.field(0)?.bits()?;
            let payload = value.field(1)?;
            let is = |type_: mir::types::Type| {
                vm.symbol(&format!("mir:type_information:{}", mir::analysis::type_id::calculate(&type_))) == Some(tag)
            };

            if is(mir::types::Type::Number) {
                show_number(float(&payload)?)
            } else if is(mir::types::Type::Boolean) {
                (payload.bits()? & 0xff == 1).to_string()
            } else if is(mir::types::Type::None) {
                "none".into()
            } else if is(mir::types::Type::ByteString) {
                show_bytes(&vm.bytes(&payload)?)
            } else {
                "".into()
            }
        }
        _ => "".into(),
    })
}

struct Ran {
    seen: Seen,
    left: i64,
    synchronized: u64,
}

fn run(program: &Program, module: &fmm::ir::Module) -> Res<Ran> {
    let vm = BASE.with(Vm::clone);
    let peeks = Rc::new(RefCell::new(BTreeSet::new()));

    vm.set_fuel(FUEL);

    for (index, (peek, type_)) in program.probes.iter().enumerate() {
        let (peek, type_, peeks) = (*peek, type_.clone(), peeks.clone());

        vm.define(&probe_name(peek, index), move |vm, arguments| {
            let text = format!("{} {}", float(&arguments[0])? as u64, digest_of(vm, &arguments[1], &type_)?);

            if peek {
                peeks.borrow_mut().insert(text);
            } else {
                vm.trace.borrow_mut().push(text);
            }

            Ok(arguments[1].clone())
        });
    }

    vm.link(module)?;

    let main = vm.symbol("Main.pen:Main").ok_or_else(|| Stop::Stuck("no main function".into()))? + 8;
    let value = vm.call_closure(&V::Bits(main), vec![V::void()])?;
    let text = String::from_utf8_lossy(&vm.bytes(&value)?).into_owned();

    vm.drop_string(&value)?;
    vm.drop_variables()?;

    Ok(Ran {
        seen: Seen { text: canonical(&text), trace: vm.trace.take(), peeks: peeks.take() },
        left: vm.live(),
        synchronized: vm.synchronized.get(),
    })
}

pub fn programs(g: &mut Gen) -> CaseResult {
    let Some(case) = check::case(g)? else { return check::discard(g) };
    let Ok(stages) = pipeline::stages(&case.compiled.mir, LAST) else { return check::discard(g) };
    let Ok(expected) = check::run(&case.program, &stages[LAST], LAST, check::FUEL) else { return check::discard(g) };

    let module = generate(&case.compiled.mir).map_err(|error| {
        Failure::new("not generated", format!("{error} for\n{}", check::source(&case.ast)))
    })?;

    match run(&case.program, &module) {
        Ok(ran) => {
            check::compare(&ran.seen, &expected.seen, "of the code", &case.ast)?;
            ensure_eq!(ran.left, 0, "leak", "blocks left by\n{}", check::source(&case.ast));
            g.label_if(ran.synchronized > 0, "shares blocks among tasks");
        }
        Err(Stop::Fuel) => return check::discard(g),
        Err(stop) => return Err(crate::failure(&stop, &format!("code of\n{}", check::source(&case.ast)))),
    }

    check::nontrivial(g, &case);

    Ok(())
}
