use crate::engine::Scenario;

pub mod append;
pub mod big;
pub mod c03_coder;
pub mod c13_table;
pub mod codec;
pub mod faults;
pub mod las;
pub mod c04_int;
pub mod fresh;
pub mod params;
pub mod place;
pub mod readers;
pub mod selection;
#[cfg_attr(not(feature = "visible"), allow(dead_code))]
pub mod shared;
pub mod stream;
pub mod torn;
pub mod writers;

pub struct Prop {
    pub scenarios: Vec<Scenario>,
    pub assumptions: Vec<&'static str>,
    pub level: &'static str,
}

impl Prop {
    pub fn new(scenarios: Vec<Scenario>, assumptions: &[&'static str]) -> Prop {
        Prop { scenarios, assumptions: assumptions.to_vec(), level: "model_checking" }
    }
}

pub const IDS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24"];

pub fn get(id: &str, tier: &str) -> Option<Prop> {
    let th = tier == "thorough";
    if stream::VISIBLE {
        return shared::get(id, th);
    }
    Some(match id {
        "C01" => codec::c01(th),
        "C02" => codec::c02(th),
        "C13" => c13_table::prop(th),
        "C03" => c03_coder::prop(th),
        "C04" => c04_int::prop(th),
        "C05" => writers::c05(th),
        "C06" => writers::c06(th),
        "C07" => readers::c07(th),
        "C08" => readers::c08(th),
        "C09" => writers::c09(th),
        "C10" => append::c10(th),
        "C11" => selection::c11(th),
        "C12" => params::c12(th),
        "C14" => faults::c14(th),
        "C19" => las::c19(th),
        "C21" => las::c21(th),
        "C15" => torn::c15(th),
        "C16" => torn::c16(th),
        "C17" => place::c17(th),
        "C18" => place::c18(th),
        "C20" => params::c20(th),
        "C22" => fresh::c22(th),
        "C23" => fresh::c23(th),
        "C24" => readers::c24(th),
        _ => return None,
    })
}
