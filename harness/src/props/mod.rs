use crate::runner::{go, Job};

pub mod common;
pub mod compat;
pub mod conc;
pub mod csvp;
pub mod det;
pub mod dir;
pub mod faulty;
pub mod index;
pub mod rt;
pub mod store;
pub mod stream;
pub mod torn;
pub mod verbose;

pub fn dispatch(id: &str, job: Job) -> i32 {
    match id {
        "C01" => go::<rt::C01>(job),
        "C02" => go::<rt::C02>(job),
        "C03" => go::<rt::C03>(job),
        "C04" => go::<rt::C04>(job),
        "C05" => go::<det::C05>(job),
        "C06" => go::<dir::C06>(job),
        "C07" => go::<faulty::C07>(job),
        "C08" => go::<faulty::C08>(job),
        "C09" => go::<torn::C09>(job),
        "C10" => go::<torn::C10>(job),
        "C11" => go::<store::C11>(job),
        "C17" => go::<store::C17>(job),
        "C12" => go::<index::C12>(job),
        "C13" => go::<index::C13>(job),
        "C18" => go::<index::C18>(job),
        "C14" => go::<csvp::C14>(job),
        "C15" => go::<csvp::C15>(job),
        "C21" => go::<conc::C21>(job),
        "C22" => go::<compat::C22>(job),
        "C23" => go::<verbose::C23>(job),
        "C16" => go::<stream::C16>(job),
        _ => {
            eprintln!("unknown property {id}");
            2
        }
    }
}
