#![allow(dead_code)]
mod f01;
mod f02;
mod f03;
mod f04;
mod util;
mod f05;
mod t01;
mod t02;
mod g01;
mod r03;
mod w01;
mod v01;
mod v02;
mod v03;
mod v04;
mod r01;
mod r02;
mod q01;
mod i01;
mod i02;
mod i03;
mod i04;
mod r04;
mod e01;
mod e02;
mod sym;
mod term;

extern "C" {
    fn symrt_load(file: *const std::os::raw::c_char);
}

macro_rules! entries {
    ($($m:ident :: $f:ident),* $(,)?) => {
        $(
            #[no_mangle]
            pub extern "C" fn $f() { $m::$f() }
        )*
        const ENTRIES: &[(&str, extern "C" fn())] = &[$((stringify!($f), $f as extern "C" fn())),*];
    }
}

entries! {
    i04::i04_unfocused,
    i04::i04_cell,
    i04::i04_mouse,
    i03::i03_paint,
    i03::i03_line,
    i02::i02_lines,
    i02::i02_changed,
    i02::i02_selection,
    i01::i01_edit,
    q01::q01_macro,
    q01::q01_ask,
    r02::r02_args,
    r01::r01_source,
    r01::r01_compounds,
    r01::r01_style,
    f03::f03_write_wide,
    v04::v04_paint,
    v03::v03_scroll,
    v03::v03_history,
    v02::v02_tall,
    v02::v02_small,
    v02::v02_write,
    v01::v01_mad_view,
    v01::v01_pages,
    v01::v01_history,
    v01::v01_step,
    w01::w02_rect,
    w01::w01_growing,
    w01::w01_bar,
    e01::e01_events,
    e01::e01_full,
    e02::e02_beams,
    e02::e02_stops,
    r04::r04_any,
    r04::r04_forms,
    r04::r04_token,
    r04::r04_compound,
    r04::r04_line,
    r04::r04_char,
    r04::r04_skin,
    r04::r04_color,
    r03::r03_blend,
    r03::r03_styled_char,
    r03::r03_setters,
    r03::r03_overwrite,
    g01::g01_scrollbar,
    g01::g01_tall,
    g01::g01_max_width,
    g01::g01_contains,
    t02::t02_parse,
    t02::t02_shapes,
    t02::t02_cells,
    t01::t01_fit,
    t01::t01_uneven,
    f05::f06_raw,
    f05::f05_raw,
    f05::f05_small,
    f05::f06_text,
    f05::f05_text,
    f05::f06_compounds,
    f05::f05_compounds,
    f01::f01_strfit,
    f02::f02_crop,
    f02::f02_edge,
    f03::f03_completions,
    f03::f03_write_str,
    f03::f03_fill,
    f03::f03_filling,
    f03::f03_filling_styled,
    f04::f04_fit,
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let file = std::ffi::CString::new(args[2].as_str()).unwrap();
    unsafe { symrt_load(file.as_ptr()) };
    for (n, f) in ENTRIES {
        if *n == args[1] {
            f();
            println!("DONE");
            return;
        }
    }
    println!("NO-ENTRY");
    std::process::exit(6);
}
