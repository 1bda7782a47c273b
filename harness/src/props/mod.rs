//! One module per property; feature `cNN` selects it.
use crate::src::Src;
#[cfg(feature = "c01")]
pub mod c01;
#[cfg(feature = "c02")]
pub mod c02;
#[cfg(feature = "c03")]
pub mod c03;
#[cfg(feature = "c04")]
pub mod c04;
#[cfg(feature = "c05")]
pub mod c05;
#[cfg(feature = "c06")]
pub mod c06;
#[cfg(feature = "c07")]
pub mod c07;
#[cfg(feature = "c08")]
pub mod c08;
#[cfg(feature = "c09")]
pub mod c09;
#[cfg(feature = "c10")]
pub mod c10;
#[cfg(feature = "c11")]
pub mod c11;
#[cfg(feature = "c12")]
pub mod c12;
#[cfg(feature = "c13")]
pub mod c13;
#[cfg(feature = "c14")]
pub mod c14;
#[cfg(feature = "c15")]
pub mod c15;
#[cfg(feature = "c16")]
pub mod c16;
#[cfg(feature = "c17")]
pub mod c17;
#[cfg(feature = "c18")]
pub mod c18;
#[cfg(feature = "c19")]
pub mod c19;
#[cfg(feature = "c20")]
pub mod c20;
#[cfg(feature = "c21")]
pub mod c21;

/// Every harness of the selected properties, for native replay and sampling.
#[cfg(not(kani))]
pub fn all() -> Vec<(String, fn(&mut Src))> {
    #[allow(unused_mut)]
    let mut r: Vec<(String, fn(&mut Src))> = vec![];
    #[cfg(feature = "c01")]
    r.extend(c01::SUITE.iter().map(|(n, f)| (format!("c01::{n}"), *f)));
    #[cfg(feature = "c02")]
    r.extend(c02::SUITE.iter().map(|(n, f)| (format!("c02::{n}"), *f)));
    #[cfg(feature = "c03")]
    r.extend(c03::SUITE.iter().map(|(n, f)| (format!("c03::{n}"), *f)));
    #[cfg(feature = "c04")]
    r.extend(c04::SUITE.iter().map(|(n, f)| (format!("c04::{n}"), *f)));
    #[cfg(feature = "c05")]
    r.extend(c05::SUITE.iter().map(|(n, f)| (format!("c05::{n}"), *f)));
    #[cfg(feature = "c06")]
    r.extend(c06::SUITE.iter().map(|(n, f)| (format!("c06::{n}"), *f)));
    #[cfg(feature = "c07")]
    r.extend(c07::SUITE.iter().map(|(n, f)| (format!("c07::{n}"), *f)));
    #[cfg(feature = "c08")]
    r.extend(c08::SUITE.iter().map(|(n, f)| (format!("c08::{n}"), *f)));
    #[cfg(feature = "c09")]
    r.extend(c09::SUITE.iter().map(|(n, f)| (format!("c09::{n}"), *f)));
    #[cfg(all(feature = "c09", feature = "units"))]
    r.extend(c09::units::SUITE.iter().map(|(n, f)| (format!("c09::units::{n}"), *f)));
    #[cfg(all(feature = "c09", feature = "gen"))]
    r.extend(c09::generator::SUITE.iter().map(|(n, f)| (format!("c09::generator::{n}"), *f)));
    #[cfg(all(feature = "c09", feature = "ceil"))]
    r.extend(c09::ceil::SUITE.iter().map(|(n, f)| (format!("c09::ceil::{n}"), *f)));
    #[cfg(all(feature = "c09", feature = "ceil", feature = "units"))]
    r.extend(c09::per_unit::SUITE.iter().map(|(n, f)| (format!("c09::per_unit::{n}"), *f)));
    #[cfg(feature = "c10")]
    r.extend(c10::SUITE.iter().map(|(n, f)| (format!("c10::{n}"), *f)));
    #[cfg(feature = "c11")]
    r.extend(c11::SUITE.iter().map(|(n, f)| (format!("c11::{n}"), *f)));
    #[cfg(feature = "c12")]
    r.extend(c12::SUITE.iter().map(|(n, f)| (format!("c12::{n}"), *f)));
    #[cfg(feature = "c13")]
    r.extend(c13::SUITE.iter().map(|(n, f)| (format!("c13::{n}"), *f)));
    #[cfg(feature = "c14")]
    r.extend(c14::SUITE.iter().map(|(n, f)| (format!("c14::{n}"), *f)));
    #[cfg(feature = "c15")]
    r.extend(c15::SUITE.iter().map(|(n, f)| (format!("c15::{n}"), *f)));
    #[cfg(feature = "c16")]
    r.extend(c16::SUITE.iter().map(|(n, f)| (format!("c16::{n}"), *f)));
    #[cfg(feature = "c17")]
    r.extend(c17::SUITE.iter().map(|(n, f)| (format!("c17::{n}"), *f)));
    #[cfg(feature = "c18")]
    r.extend(c18::SUITE.iter().map(|(n, f)| (format!("c18::{n}"), *f)));
    #[cfg(feature = "c19")]
    r.extend(c19::SUITE.iter().map(|(n, f)| (format!("c19::{n}"), *f)));
    #[cfg(feature = "c20")]
    r.extend(c20::SUITE.iter().map(|(n, f)| (format!("c20::{n}"), *f)));
    #[cfg(feature = "c21")]
    r.extend(c21::SUITE.iter().map(|(n, f)| (format!("c21::{n}"), *f)));
    r
}
