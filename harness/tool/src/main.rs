//! The command-line tool and its build system. The tool itself is built from the repository with stand-ins for the
//! code generator and for crates that are not available; this program also plays the other programs it calls.
mod checks;
mod environment;
mod histories;
mod mistakes;
mod programs;
mod properties;
mod sources;
mod tests;
mod turtle;
mod world;
mod worlds;

fn main() {
    if programs::run() {
        return;
    }
    pbt::main(properties::properties());
}
