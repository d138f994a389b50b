use crate::fw::Harness;
mod amounts;
mod blame;
mod choice;
mod dates;
mod entries;
mod faults;
mod funds;
mod imports;
mod layout;
mod midnight;
mod robust;
mod seeds;
mod shown;
mod totals;
mod varied;
mod wide;
mod writes;
pub type Fn1 = fn(&Harness) -> i32;
pub const ALL: &[(&str, Fn1)] = &[
    ("C01", totals::c01),
    ("C02", entries::c02),
    ("C03", layout::c03),
    ("C04", layout::c04),
    ("C05", layout::c05),
    ("C06", dates::c06),
    ("C07", dates::c07),
    ("C08", funds::c08),
    ("C10", funds::c10),
    ("C11", funds::c11),
    ("C12", writes::c12),
    ("C13", writes::c13),
    ("C14", faults::c14),
    ("C15", faults::c15),
    ("C09", entries::c09),
    ("C16", imports::c16),
    ("C17", imports::c17),
    ("C18", totals::c18),
    ("C19", seeds::c19),
    ("C20", robust::c20),
    ("C21", choice::c21),
    ("C22", amounts::c22),
    ("C23", midnight::c23),
    ("C24", shown::c24),
    ("C25", blame::c25),
];
