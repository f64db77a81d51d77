use vh::iface::Kind;
use vh::report::Rep;
use vh::sweep::{Region, run};

fn main() {
    let rep = Rep::new("C04");
    run(&rep, Kind::Nearest, &[false], Region::Everywhere);
    rep.finish()
}
