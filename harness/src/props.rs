use crate::fw::{Case, CaseResult};
mod archive;
mod cli;
mod extra;
mod files;
mod hostile;
mod lowlevel;
mod query;
mod size;
mod steps;
mod vector;
pub mod roundtrip;

pub type PropFn = fn(&mut Case) -> CaseResult;

pub fn lookup(id: &str) -> Option<PropFn> {
    Some(match id {
        "C01" => roundtrip::c01,
        "C02" => roundtrip::c02,
        "C03" => query::c03,
        "C04" => query::c04,
        "C05" => query::c05,
        "C06" => query::c06,
        "C07" => vector::c07,
        "C08" => vector::c08,
        "C09" => vector::c09,
        "C10" => files::c10,
        "C11" => files::c11,
        "C12" => files::c12,
        "C13" => files::c13,
        "C14" => files::c14,
        "C15" => files::c15,
        "C16" => hostile::c16,
        "C17" => lowlevel::c17,
        "C18" => lowlevel::c18,
        "C20" => lowlevel::c20,
        "C21" => extra::c21,
        "C22" => extra::c22,
        "C23" => extra::c23,
        "C24" => size::c24,
        "C19" => files::c19,
        "C25" => cli::c25,
        "C26" => cli::c26,
        "C27" => cli::c27,
        "C28" => steps::c28,
        "C29" => steps::c29,
        "C30" => archive::c30,
        _ => return None,
    })
}
