//! The checks, one function per property.

pub mod access;
pub mod content;
pub mod damage;
pub mod hostile;
pub mod huge;
pub mod indexed;
pub mod large;
pub mod parallel;
pub mod sparse;
pub mod thrift;
pub mod together;

use crate::driver::Prop;

pub static ALL: &[&Prop] = &[
    &content::C01,
    &content::C02,
    &content::C03,
    &content::C04,
    &content::C05,
    &content::C06,
    &content::C07,
    &content::C08,
    &parallel::C09,
    &access::C10,
    &access::C11,
    &indexed::C12,
    &indexed::C13,
    &damage::C14,
    &damage::C15,
    &damage::C16,
    &hostile::C17,
    &damage::C18,
    &damage::C19,
    &content::C20,
    &content::C21,
    &damage::C22,
    &damage::C23,
    &together::C24,
    &thrift::C25,
];

pub fn find(id: &str) -> Option<&'static Prop> {
    ALL.iter().copied().find(|p| p.id == id)
}
