use vh::iface::Kind;
use vh::report::Rep;
use vh::sweep::{Region, run};

fn main() {
    let rep = Rep::new("C03");
    run(&rep, Kind::Cubic, &[false, true], Region::Everywhere);
    rep.finish()
}
