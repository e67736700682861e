//! Known findings: genuine defects that are recorded instead of repaired.  The file lists them with
//! the specific input; each is tried again on every run.

pub struct Known {
    pub still: Vec<String>,
}

pub fn check(prop: &str) -> Known {
    let text = std::fs::read_to_string(crate::monitor::verif().join("known-findings.txt")).unwrap_or_default();
    let mut still = vec![];
    for l in text.lines() {
        // known: property=P09 input=<data section line> || <what fails>
        let Some(rest) = l.strip_prefix("known: property=") else { continue };
        let Some((id, rest)) = rest.split_once(' ') else { continue };
        if id != prop {
            continue;
        }
        let Some((input, what)) = rest.trim().strip_prefix("input=").and_then(|r| r.split_once(" || ")) else { continue };
        if (if prop == "P18" { view_panics(input) } else { fails(input) }) {
            still.push(format!("{what} (input {input})"));
        }
    }
    Known { still }
}

/// the listed inputs are instances of supported kinds which stay opaque
fn fails(input: &str) -> bool {
    use ifc_rs::prelude::*;
    use std::str::FromStr;
    let Ok(Ok(ifc)) = crate::monitor::guard(|| IFC::from_str(&crate::gen::wrap(input))) else { return true };
    let opaque = crate::typed::listed(&ifc, "Dummy").contains(&1);
    opaque
}

/// resolving the view of the first instance panics
fn view_panics(input: &str) -> bool {
    use ifc_rs::prelude::*;
    use std::str::FromStr;
    let Ok(Ok(ifc)) = crate::monitor::guard(|| IFC::from_str(&crate::gen::wrap(input))) else { return false };
    let t = ifc.data.get_untyped(Id(1));
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(|_| {}));
    let panics = crate::monitor::guard(|| {
        if let Some(x) = t.downcast_ref::<ExtrudedAreaSolid>() {
            x.mappings(&ifc);
        } else if let Some(x) = t.downcast_ref::<ArbitraryClosedProfileDef>() {
            x.mappings(&ifc);
        } else if let Some(x) = t.downcast_ref::<MappedItem>() {
            x.mappings(&ifc);
        }
    })
    .is_err();
    std::panic::set_hook(hook);
    panics
}
