//! Explorer of instants and durations: C18..C22, over all tick types and scales.
mod common;
mod num;
mod by;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c26;

fn main() {
    let e = mc::engine::Engine::from_args();
    e.assume("scales fit the tick type, and of two scales one is a multiple of the other and the ratio fits the finer tick type, as the library requires");
    e.top(|| match e.id.as_str() {
        "C18" => c18::c18(&e),
        "C19" => c19::c19(&e),
        "C20" => c20::c20(&e),
        "C21" => c21::c21(&e),
        "C22" => c22::c22(&e),
        "C26" => c26::c26(&e),
        _ => {
            eprintln!("unknown property {}", e.id);
            std::process::exit(3);
        }
    });
    e.finish();
}
