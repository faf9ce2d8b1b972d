use crate::Suite;
macro_rules! suites { ($($m:ident $f:literal $p:literal),*) => {
    $(#[cfg(feature = $f)] pub mod $m;)*
    #[allow(clippy::all)]
    pub fn of(prop: &str) -> Vec<Suite> {
        match prop {
            $(#[cfg(feature = $f)] $p => $m::suites(),)*
            _ => vec![],
        }
    }
} }
suites!(a01 "a01" "A01", a02 "a02" "A02", a03 "a03" "A03", a04 "a04" "A04", a05 "a05" "A05", a06 "a06" "A06", a07 "a07" "A07", a08 "a08" "A08", a09 "a09" "A09", a10 "a10" "A10", a12 "a12" "A12", a13 "a13" "A13", a14 "a14" "A14", a15 "a15" "A15", a16 "a16" "A16", a18 "a18" "A18");
