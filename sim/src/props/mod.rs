use crate::runner::Spec;

macro_rules! props {
    ($($id:literal => $m:ident),* $(,)?) => {
        $(mod $m;)*
        pub const ALL: &[&str] = &[$($id),*];
        pub fn spec(id: &str) -> Option<Spec> {
            match id { $($id => Some($m::spec()),)* _ => None }
        }
    };
}
props! {
    "C01" => c01_honest,
    "C02" => c02_alter,
    "C03" => c03_value,
    "C04" => c04_spendauth,
    "C05" => c05_nullifier,
    "C06" => c06_receive,
    "C07" => c07_scan,
    "C08" => c08_batch,
    "C09" => c09_restart,
    "C10" => c10_streams,
    "C11" => c11_entropy,
    "C12" => c12_tree,
    "C13" => c13_shape,
    "C14" => c14_rules,
    "C15" => c15_keys,
    "C16" => c16_recover,
    "C17" => c17_hostile,
    "C18" => c18_digests,
    "C19" => c19_lies,
    "C20" => c20_observer,
    "C23" => c23_memory,
    "C24" => c24_compare,
    "C25" => c25_stages,
}
