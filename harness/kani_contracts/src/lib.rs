//! Contracts on the code of /repo that is monomorphic in the scalar type (macro-generated operators with
//! a primitive left operand, the scalar traits of the primitive types, indexing by any usize), checked by
//! Kani on the machine types themselves. The same contract bodies run natively on drawn inputs to turn a
//! failed obligation into a failing input.
#![allow(clippy::all)]
#![recursion_limit = "2048"]
pub mod any;
pub mod cast;
pub mod dual;
pub mod index;
pub mod numeric;
pub mod scalar_left;
pub mod special;
pub mod whole;

/// an obligation of the contract (as opposed to checks inside the code)
#[macro_export]
macro_rules! ensures {
    ($c:expr, $m:expr) => {
        $crate::any::obligation($c, concat!("contract: ", $m));
        #[cfg(kani)]
        kani::assert($c, concat!("contract: ", $m));
    };
}
#[macro_export]
macro_rules! requires {
    ($c:expr) => {
        #[cfg(kani)]
        kani::assume($c);
        #[cfg(not(kani))]
        if !$c {
            $crate::any::reject();
        }
    };
}
/// the precondition can be met and the contract's end is reached
#[macro_export]
macro_rules! reached {
    () => {
        #[cfg(kani)]
        kani::cover(true, "contract reached");
    };
    // one easily found execution is enough to show that the precondition can be met
    ($c:expr) => {
        #[cfg(kani)]
        kani::cover($c, "contract reached");
    };
}
pub type Entry = (&'static str, &'static str, fn());
pub fn all() -> Vec<Entry> {
    let mut v = vec![];
    v.extend(scalar_left::all());
    v.extend(numeric::all());
    v.extend(index::all());
    v.extend(dual::all());
    v.extend(cast::all());
    v.extend(special::all());
    v.extend(whole::all());
    v
}
