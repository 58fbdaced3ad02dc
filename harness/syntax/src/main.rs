mod docs;
mod dump;
mod formatter;
mod front;
mod layout;
mod model;

fn main() {
    let mut properties = front::properties();
    properties.extend(formatter::properties());
    properties.extend(docs::properties());
    pbt::main(properties)
}
