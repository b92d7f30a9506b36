#![allow(clippy::all)]
// what the instrumented runs need
pub mod rng; pub mod model; pub mod bj; pub mod rschema; pub mod refcoerce; pub mod sys; pub mod deep; pub mod coin; pub mod work; pub mod refparse; pub mod emit;
// everything else
#[cfg(feature = "full")] pub mod run;
#[cfg(feature = "full")] pub mod gensyn;
#[cfg(feature = "full")] pub mod refval;
#[cfg(feature = "full")] pub mod genschema;
#[cfg(feature = "full")] pub mod gendoc;
#[cfg(feature = "full")] pub mod refoper;
#[cfg(feature = "full")] pub mod refbuild;
#[cfg(feature = "full")] pub mod schedit;
#[cfg(feature = "full")] pub mod schevo;
#[cfg(feature = "full")] pub mod props;
