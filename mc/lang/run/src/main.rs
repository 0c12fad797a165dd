//! Model checks of the language (`/repo/ogma`): the real crate, unmodified, built against stand-ins
//! for the git dependencies which are not available offline and with its threads, locks, channels
//! and parallel iterators handed to the scheduler.
#![allow(dead_code)]
mod interp;
mod lang;
mod model;
mod props;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) == Some("eval") {
        let mut defs = ogma::lang::Definitions::new();
        for s in &a[2..] {
            let t = std::time::Instant::now();
            if s.starts_with("def") {
                println!("{:?}", lang::define(&mut defs, s));
            } else {
                println!("{}", lang::show(&lang::eval(s, &defs)));
            }
            println!("   {:?}", t.elapsed());
        }
        return;
    }
    use props::*;
    mcrt::driver::main(&[
        ("C20", tables::c20),
        ("C21", tables::c21),
        ("C22", tables::c22),
        ("C23", tables::c23),
        ("C24", tables::c24),
        ("C25", tables::c25),
        ("C26", tables::c26),
        ("C27", share::c27),
        ("C28", share::c28),
        ("C29", core::c29),
        ("C30", core::c30),
        ("C33", core::c33),
        ("C31", values::c31),
        ("C32", values::c32),
        ("C34", batch::c34),
        ("C35", batch::c35),
        ("C36", files::c36),
        ("C37", cache::c37),
        ("C38", types::c38),
        ("C39", session::c39),
        ("C40", total::c40),
        ("C41", syntax::c41),
        ("C42", syntax::c42),
        ("C43", print::c43),
        ("C44", print::c44),
        ("C45", chance::c45),
        ("C46", chance::c46),
    ])
}
