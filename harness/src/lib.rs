//! Shared machinery of the interpn checks.
pub mod conf;
pub mod dev;
pub mod gen_;
pub mod hood;
pub mod iface;
pub mod num;
pub mod onedim;
pub mod refm;
pub mod report;
pub mod shapes;
pub mod sweep;
pub mod obj;
pub mod step;
