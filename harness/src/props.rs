macro_rules! props {
    ($($f:literal $m:ident)*) => {
        $(#[cfg(feature = $f)] mod $m;)*
        fn hs() -> Vec<&'static H> {
            let mut v: Vec<&'static H> = vec![];
            $(#[cfg(feature = $f)] v.extend($m::HS.iter());)*
            v
        }
    };
}
props! {
    "p01" p01
    "p02" p02
    "p03" p03
    "p04" p04
    "p05" p05
    "p06" p06
    "p07" p07
    "p08" p08
    "p09" p09
    "p10" p10
    "p11" p11
    "p12" p12
    "p13" p13
    "p14" p14
    "p15" p15
    "p16" p16
    "p17" p17
    "p19" p19
    "p20" p20
    "p23" p23
    "p24" p24
}
