//! Executable contracts on the real EndBASIC code.
#![cfg_attr(kani, feature(allocator_api))]

pub mod nd;
pub mod spec;

/// How a contract is decided.
#[derive(Clone, Copy, Debug, Eq, PartialEq)]
pub enum Kind {
    /// Discharged by Kani over the full domain of its inputs.
    Proved,
    /// Discharged by Kani up to the bound stated in its documentation.
    BoundedProof,
    /// Like `BoundedProof`, but only for the thorough tier.
    Deep,
    /// A listed defect: run on its specific inputs, of which it generates none.
    Finding,
    /// Only executed on generated inputs; never counted as proved.
    Bounded,
}

/// A contract that can be executed natively.
#[derive(Clone, Copy)]
pub struct Entry {
    pub property: &'static str,
    pub name: &'static str,
    pub kind: Kind,
    /// Relative number of native executions.
    pub weight: u32,
    pub run: fn(&mut nd::Concrete),
}

/// Declares the contracts of a property: generates the Kani harnesses and the native registry.
#[macro_export]
macro_rules! suite {
    ( $prop:literal; $( $kind:ident $name:ident $( [ $($attr:meta),* ] )? $( * $weight:literal )? ; )* ) => {
        /// Native registry.
        pub const SUITE: &[$crate::Entry] = &[
            $( $crate::Entry {
                property: $prop,
                name: concat!(module_path!(), "::", stringify!($name)),
                kind: $crate::suite!(@kind $kind),
                weight: 100 $( * 0 + $weight )?,
                run: |n| $name(n),
            }, )*
        ];

        #[cfg(kani)]
        mod proofs {
            $( $crate::suite!(@harness $kind $name [ $( $($attr),* )? ]); )*
        }
    };
    (@kind proved) => { $crate::Kind::Proved };
    (@kind bounded_proof) => { $crate::Kind::BoundedProof };
    (@kind deep) => { $crate::Kind::Deep };
    (@kind finding) => { $crate::Kind::Finding };
    (@kind bounded) => { $crate::Kind::Bounded };
    (@harness bounded $name:ident [ $($attr:meta),* ]) => {};
    (@harness finding $name:ident [ $($attr:meta),* ]) => {};
    (@harness deep $name:ident [ $($attr:meta),* ]) => {
        #[cfg(feature = "thorough")]
        $crate::suite!(@harness proved $name [ $($attr),* ]);
    };
    (@harness $kind:ident $name:ident [ $($attr:meta),* ]) => {
        #[kani::proof]
        $( #[$attr] )*
        fn $name() {
            super::$name(&mut $crate::nd::Symbolic);
            kani::cover!(true, "the end of the contract is reachable");
        }
    };
}

/// Declares the modules of properties: `pNN` holds contracts on the internals, which need the hooks
/// in /repo and may be proved, and `bNN` holds contracts on whole programs, which are only executed.
macro_rules! properties {
    ( $( $internals:ident $feature:literal ; )* -- $( $behaviour:ident ; )* ) => {
        $(
            #[cfg(all(feature = "hooks", any(not(kani), feature = $feature)))]
            pub mod $internals;
        )*
        $(
            #[cfg(not(kani))]
            pub mod $behaviour;
        )*

        /// All contracts.
        #[cfg(not(kani))]
        pub fn all() -> Vec<Entry> {
            let mut v = vec![];
            $(
                #[cfg(feature = "hooks")]
                v.extend_from_slice($internals::SUITE);
            )*
            $( v.extend_from_slice($behaviour::SUITE); )*
            v
        }
    };
}

#[cfg(not(kani))]
pub mod basic;
#[cfg(not(kani))]
pub mod lang;
#[cfg(not(kani))]
pub mod screen;
#[cfg(not(kani))]
pub mod desk;
#[cfg(feature = "hooks")]
pub mod isa;

properties! {
    p01 "P01";
    p02 "P02";
    p03 "P03";
    p04 "P04";
    p05 "P05";
    p06 "P06";
    p07 "P07";
    p08 "P08";
    p09 "P09";
    p10 "P10";
    p11 "P11";
    p12 "P12";
    p13 "P13";
    --
    b01;
    b02;
    b03;
    b04;
    b05;
    b06;
    b07;
    b08;
    b09;
    b10;
    b11;
    b12;
    b13;
    b14;
    b15;
    b16; b17; b18; b19; b20; b21; b22;
}
