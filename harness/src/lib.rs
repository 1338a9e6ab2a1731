#[macro_use]
mod sx;
#[cfg(feature = "all")]
mod api;
mod cfg;
mod de;
mod de2;
mod de3;
mod de4;
mod de5;
mod de6;
mod docs;
mod ents;
mod print;
mod refm;
mod report;
mod tpl;
mod trans;

/// Lists the jobs of a property.
#[no_mangle]
pub extern "C" fn jobs(prop: u32, thorough: u32, _: u32, _: u32) {
    let th = thorough != 0;
    docs::jobs(prop, th);
    #[cfg(feature = "all")]
    api::jobs(prop, th);
    de::jobs(prop, th);
    de2::jobs(prop, th);
    de3::jobs(prop, th);
    de4::jobs(prop, th);
    de5::jobs(prop, th);
    de6::jobs(prop, th);
    ents::jobs(prop, th);
    report::jobs(prop, th);
    print::jobs(prop, th);
    trans::jobs(prop, th);
}
