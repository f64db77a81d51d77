use vh::iface::Kind;
use vh::report::Rep;
use vh::sweep::{Region, run};

fn main() {
    let rep = Rep::new("C01");
    run(&rep, Kind::Linear, &[false], Region::Everywhere);
    rep.finish()
}
