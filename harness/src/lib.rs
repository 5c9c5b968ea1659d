//! Harnesses over the public API of rangetools.  Each harness draws its inputs from `sym`, calls
//! the real code and states the property as `check`s.  The list of harness instances for one
//! property and tier is generated by the driver (environment variable HARNESS_LIST).
#![allow(unused_macros, unused_imports, dead_code)]
pub mod algebra;
pub mod conv;
pub mod eqhash;
pub mod index;
pub mod elem;
pub mod iter;
pub mod model;
pub mod resiter;
#[cfg(feature = "p_serde")]
pub mod rt;
pub mod sym;

use crate::algebra::*;
use crate::eqhash::{eq_built, eq_pair};
use crate::model::*;
use crate::resiter::{prefix_compl, prefix_inter, prefix_union, all_compl, all_inter, all_union, iter_compl, iter_inter, iter_union};
#[cfg(feature = "p_serde")]
use crate::rt::{canon_chain, canon_chain_n, canon_compl, canon_inter, canon_one, canon_union, trip_one, trip_op};
use crate::sym::*;
use rangetools::*;

macro_rules! harnesses {
    ($($name:literal => $body:expr;)*) => {
        #[cfg(not(feature = "native"))]
        mod exports {
            use super::*;
            $(const _: () = {
                #[export_name = concat!("h_", $name)]
                pub extern "C" fn h() { $body }
            };)*
        }
        #[cfg(feature = "native")]
        pub fn registry() -> Vec<(&'static str, fn())> {
            vec![$(($name, (|| { $body }) as fn())),*]
        }
    };
}

include!(env!("HARNESS_LIST"));
