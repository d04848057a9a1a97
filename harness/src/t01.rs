use crate::sym;
use termimad::*;

/// params: columns, cells per column, max cell width, max available width, rows whose cells have
/// unknown widths, min available width
pub fn t01_fit() {
    sym::narrow();
    let cols = sym::param(0);
    let cells = sym::param(1);
    let maxw = sym::param(2);
    let avail = sym::param(5) + sym::pick(sym::param(3) + 1 - sym::param(5));
    let fit = TblFit::new(cols, avail);
    if avail < 4 * cols + 1 {
        sym::check(fit.is_err(), "too small widths are refused");
        sym::reach("refused");
        return;
    }
    sym::check(fit.is_ok(), "other widths are accepted");
    let mut fit = match fit {
        Ok(f) => f,
        Err(_) => return,
    };
    let mut natural = vec![3; cols];
    for row in 0..cells {
        for c in 0..cols {
            // all the widths of the first rows are unknown, then the ones of short cells are fixed
            let w = if row < sym::param(4) { cell_width(maxw) } else { c };
            fit.see_cell(c, w);
            natural[c] = natural[c].max(w);
        }
    }
    check_fit(fit, natural, avail);
}

/// params: max width of the unknown cell, max number of narrow cells, min available width, max
/// available width, columns
pub fn t01_uneven() {
    sym::narrow();
    let cols = sym::param(4);
    let avail = sym::param(2) + sym::pick(sym::param(3) + 1 - sym::param(2));
    let narrow = sym::pick(sym::param(1) + 1);
    let mut fit = match TblFit::new(cols, avail) {
        Ok(f) => f,
        Err(_) => {
            sym::check(avail < 4 * cols + 1, "only too small widths are refused");
            return;
        }
    };
    let w = cell_width(sym::param(0));
    let other = sym::pick(4);
    let first = sym::pick(cols);
    for _ in 0..narrow {
        fit.see_cell(first, 0);
    }
    fit.see_cell(first, w);
    let mut natural = vec![3; cols];
    natural[first] = natural[first].max(w);
    for c in 0..cols {
        if c != first {
            let o = [2, 5, 12, 4][(other + c) % 4];
            fit.see_cell(c, o);
            natural[c] = natural[c].max(o);
        }
    }
    check_fit(fit, natural, avail);
}

fn check_fit(mut fit: TblFit, natural: Vec<usize>, avail: usize) {
    let cols = natural.len();
    // a cell out of the table changes nothing
    fit.see_cell(cols, 1000);
    let r = fit.fit();
    sym::check(r.col_widths.len() == cols, "a width per column");
    let mut total = cols + 1;
    let mut total_natural = cols + 1;
    for c in 0..cols {
        sym::check(r.col_widths[c] >= 3, "at least three columns");
        total += r.col_widths[c];
        total_natural += natural[c];
    }
    sym::check(total <= avail, "fits");
    if total_natural <= avail {
        sym::check(!r.reduced, "not reduced");
        sym::check(r.col_widths == natural, "natural widths");
        sym::reach("natural");
    } else {
        sym::check(r.reduced, "reported as reduced");
        sym::check(total == avail, "all the width is used");
        for c in 0..cols {
            sym::check(r.col_widths[c] <= natural[c], "not wider than natural");
        }
        sym::reach("reduced");
    }
    for c in 0..cols {
        sym::observe(r.col_widths[c]);
    }
}

/// any width up to max (small widths are apart so that the minimums are known by the solver)
fn cell_width(max: usize) -> usize {
    if sym::pick(2) == 0 {
        sym::urange(0, 2)
    } else {
        3 + sym::urange(0, max - 3)
    }
}
