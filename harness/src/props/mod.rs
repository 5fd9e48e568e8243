//! The properties, each as a set of generated checks.

pub mod alloc;
pub mod checker;
pub mod determ;
pub mod graph;
pub mod handles;
pub mod malformed;
pub mod moves;
pub mod serial;
pub mod sets;

use crate::run::Prop;

pub fn all_ids() -> Vec<&'static str> {
    vec!["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23"]
}

pub fn get(id: &str) -> Option<Prop> {
    match id {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C08" | "C09" | "C10" | "C17" | "C22" | "C23" => Some(alloc::prop(id)),
        "C11" => Some(malformed::prop()),
        "C12" => Some(determ::prop()),
        "C13" => Some(checker::prop13()),
        "C14" => Some(checker::prop14()),
        "C15" => Some(moves::prop()),
        "C16" => Some(graph::prop()),
        "C18" => Some(serial::prop()),
        "C19" => Some(handles::prop()),
        "C20" => Some(sets::prop20()),
        "C21" => Some(sets::prop21()),
        _ => None,
    }
}
