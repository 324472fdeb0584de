//! Contracts by property. Each module sits behind its own cargo feature, so a check compiles
//! only what it needs.
use crate::Contract;
#[cfg(feature = "c01")]
pub mod c01;
#[cfg(feature = "c02")]
pub mod c02;
#[cfg(feature = "c03")]
pub mod c03;
#[cfg(feature = "c04")]
pub mod c04;
#[cfg(feature = "c05")]
pub mod c05;
#[cfg(feature = "c06")]
pub mod c06;
#[cfg(feature = "c07")]
pub mod c07;
#[cfg(feature = "c08")]
pub mod c08;
#[cfg(feature = "c09")]
pub mod c09;
#[cfg(feature = "c10")]
pub mod c10;
#[cfg(feature = "c11")]
pub mod c11;
#[cfg(feature = "c12")]
pub mod c12;
#[cfg(feature = "c13")]
pub mod c13;
#[cfg(feature = "c14")]
pub mod c14;
#[cfg(feature = "c15")]
pub mod c15;
#[cfg(feature = "c16")]
pub mod c16;
#[cfg(feature = "c17")]
pub mod c17;
#[cfg(feature = "c18")]
pub mod c18;

pub fn all(p: &str) -> Vec<Contract> {
    match p {
        #[cfg(feature = "c01")]
        "C01" => c01::all(),
        #[cfg(feature = "c02")]
        "C02" => c02::all(),
        #[cfg(feature = "c03")]
        "C03" => c03::all(),
        #[cfg(feature = "c04")]
        "C04" => c04::all(),
        #[cfg(feature = "c05")]
        "C05" => c05::all(),
        #[cfg(feature = "c06")]
        "C06" => c06::all(),
        #[cfg(feature = "c07")]
        "C07" => c07::all(),
        #[cfg(feature = "c08")]
        "C08" => c08::all(),
        #[cfg(feature = "c09")]
        "C09" => c09::all(),
        #[cfg(feature = "c10")]
        "C10" => c10::all(),
        #[cfg(feature = "c11")]
        "C11" => c11::all(),
        #[cfg(feature = "c12")]
        "C12" => c12::all(),
        #[cfg(feature = "c13")]
        "C13" => c13::all(),
        #[cfg(feature = "c14")]
        "C14" => c14::all(),
        #[cfg(feature = "c15")]
        "C15" => c15::all(),
        #[cfg(feature = "c16")]
        "C16" => c16::all(),
        #[cfg(feature = "c17")]
        "C17" => c17::all(),
        #[cfg(feature = "c18")]
        "C18" => c18::all(),
        _ => vec![],
    }
}
