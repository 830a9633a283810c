use crate::engine::*;
pub mod sets;
pub mod iters;
pub mod long;
pub mod arith;
pub mod scalar;
pub mod text;
pub mod graph;
pub mod sched;

pub type Fams = Vec<Box<dyn Family>>;

pub fn ids() -> Vec<String> { (1..=24).map(|k| format!("C{k:02}")).collect() }

pub fn families(id: &str, thorough: bool) -> Option<Fams> {
    let mut v = match id {
        "C01" => sets::c01(thorough),
        "C02" => sets::c02(thorough),
        "C03" => iters::c03(thorough),
        "C04" => sets::c04(thorough),
        "C05" => sets::c05(thorough),
        "C06" => sets::c06(thorough),
        "C07" => arith::c07(thorough),
        "C08" => arith::c08(thorough),
        "C09" => scalar::c09(thorough),
        "C10" => scalar::c10(thorough),
        "C11" => scalar::c11(thorough),
        "C12" => scalar::c12(thorough),
        "C13" => text::c13(thorough),
        "C14" => scalar::c14(thorough),
        "C15" => graph::c15(thorough),
        "C16" => graph::c16(thorough),
        "C17" => graph::c17(thorough),
        "C18" => graph::c18(thorough),
        "C19" => graph::c19(thorough),
        "C20" => sched::c20(thorough),
        "C21" => sched::c21(thorough),
        "C22" => sched::c22(thorough),
        "C23" => sched::c23(thorough),
        "C24" => text::c24(thorough),
        _ => return None,
    };
    v.extend(long::families(id, thorough));
    Some(v)
}

pub fn assumptions(id: &str) -> Vec<String> {
    let mut v = vec!["finite bounds stay inside the representable range (results whose exact finite bound is out of range are only checked where the statement speaks of saturation)".to_string()];
    match id {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C08" | "C13" =>
            v.push("infinite time points are not used as one-point windows, nor half-ranges that would only hold an infinite point".into()),
        "C14" => v.push("start minus (plus) one period is representable, as the constructors require".into()),
        "C15" | "C16" | "C17" | "C18" | "C19" => v.push("graphs have at most 65535 instants".into()),
        "C20" | "C21" | "C22" | "C23" => v.push("horizon queries are asked of schedulers with at least one instant".into()),
        _ => {}
    }
    v
}
