use crate::ctx::{Ctx, R};

pub mod ints;
pub mod trees;
pub mod hostile;
pub mod rw;
pub mod faults;
pub mod objects;

pub fn find(p: &str) -> Option<fn(&mut Ctx) -> R> {
    Some(match p {
        "C01" => ints::c01,
        "C02" => ints::c02,
        "C03" => ints::c03,
        "C04" => ints::c04,
        "C05" => trees::c05,
        "C06" => trees::c06,
        "C07" => trees::c07,
        "C08" => trees::c08,
        "C09" => hostile::c09,
        "C10" => hostile::c10,
        "C11" => hostile::c11,
        "C12" => trees::c12,
        "C13" => trees::c13,
        "C14" => rw::c14,
        "C15" => objects::c15,
        "C16" => objects::c16,
        "C17" => objects::c17,
        "C18" => objects::c18,
        "C19" => rw::c19,
        "C20" => rw::c20,
        "C21" => rw::c21,
        "C22" => faults::c22,
        "C23" => faults::c23,
        "C24" => rw::c24,
        "C25" => rw::c25,
        "C26" => objects::c26,
        "C27" => objects::c27,
        "C28" => objects::c28,
        "C29" => objects::c29,
        "C30" => hostile::c30,
        "C31" => hostile::c31,
        "C32" => hostile::c32,
        _ => return None,
    })
}
