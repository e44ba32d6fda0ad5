#![allow(clippy::all)]
#[macro_use]
pub mod nd;
pub mod api;
pub mod text;
pub mod common;
pub mod heap;
pub mod registry;
pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c17r;
pub mod c18;
pub mod c19;
#[cfg(feature = "all-capacities")]
pub mod c19b;
pub mod c20;
#[cfg(feature = "serde-traits")]
pub mod c21;
#[cfg(feature = "diesel-traits")]
pub mod c22;
pub mod c23;
pub mod c24;
#[cfg(feature = "logs")]
pub mod c25;
