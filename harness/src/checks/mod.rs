use crate::Check;
mod anim;
mod cli;
mod data_json;
mod derive;
mod errors;
mod derive_types;
mod faults;
pub mod features;
pub mod history;
pub mod schedules;
mod io;
mod lib_misc;
mod lib_roundtrip;
mod mesh;
mod meshex_adj;
mod pointers;
mod routes;
mod shdr;
mod skel_etc;
mod streams;
mod tester;
mod values;

pub fn all() -> Vec<Check> {
    let mut v = vec![];
    v.extend(lib_roundtrip::checks());
    v.extend(lib_misc::checks());
    v.extend(faults::checks());
    v.extend(io::checks());
    v.extend(meshex_adj::checks());
    v.extend(anim::checks());
    v.extend(mesh::checks());
    v.extend(skel_etc::checks());
    v.extend(data_json::checks());
    v.extend(derive::checks());
    v.extend(cli::checks());
    v.extend(shdr::checks());
    v.extend(routes::checks());
    v.extend(values::checks());
    v.extend(streams::checks());
    v.extend(tester::checks());
    v.extend(errors::checks());
    v.extend(history::checks());
    v.extend(features::checks());
    v
}
