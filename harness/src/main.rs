//! Runtime monitors for varisat: driver.
//!
//! `vh check ID` supervises a worker process that runs many generated cases of one property and
//! watches each of them with that property's oracle. `vh replay ID TIER SEED IDX` reruns one case.
mod checks;
mod event;
mod fw;
mod gen;
mod history;
mod lrat;
mod oracle;
mod pstep;
mod refsat;
mod rng;
mod rup;
mod util;

/// Formats every log message and drops it, so that the values in them are computed.
struct Formatter;

impl log::Log for Formatter {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, record: &log::Record) {
        std::hint::black_box(record.args().to_string());
    }
    fn flush(&self) {}
}

fn main() {
    let _ = log::set_logger(&Formatter);
    log::set_max_level(log::LevelFilter::Trace);
    fw::main(checks::all());
}
