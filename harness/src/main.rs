//! Harness binding the TLA+ specifications in /verif/spec to the real crate.
//! usage: dr-harness <subcommand> <in.ndjson> <out.ndjson>
mod build;
mod compose;
mod dirs;
mod fmt;
mod fstx;
mod image;
mod malf;
mod rdr;
mod runs;
mod synth;
mod util;
mod vast;
mod win;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 4 {
        eprintln!("usage: dr-harness <cmd> <in> <out>");
        std::process::exit(2);
    }
    std::panic::set_hook(Box::new(|_| {}));
    // deep recursion in the code under test must not end the harness early
    let h = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let mut cx = util::Cx::new(&a[2], &a[3]);
            match a[1].as_str() {
                "build" => build::build(&mut cx),
                "faults" => build::faults(&mut cx),
                "faults-on" => build::faults_on(&mut cx),
                "crash" => build::crash(&mut cx),
                "compose" => compose::compose(&mut cx),
                "copies" => compose::copies(&mut cx),
                "trips" => compose::trips(&mut cx),
                "dirs" => dirs::dirs(&mut cx),
                "formats" => fmt::formats(&mut cx),
                "malformed" => malf::malformed(&mut cx),
                "reader" => rdr::reader(&mut cx),
                "window" => win::window(&mut cx),
                "fst-edit" => fstx::edit(&mut cx),
                "fst-hist" => fstx::hist(&mut cx),
                "fst-walk" => fstx::walk(&mut cx),
                "fst-ser" => fstx::ser(&mut cx),
                "fst-wide" => fstx::wide(&mut cx),
                "fst-raw" => fstx::raw(&mut cx),
                "vast" => vast::vast(&mut cx),
                "typename" => fmt::typename(&mut cx),
                "fst-deep" => fstx::deep(&mut cx),
                c => {
                    eprintln!("unknown command {c}");
                    std::process::exit(2);
                }
            }
            cx.finish();
        })
        .unwrap();
    if h.join().is_err() {
        eprintln!("harness thread panicked");
        std::process::exit(2);
    }
}
