//! painting of lists
use crate::{sym, term::{cw, Term}, util::*};
use termimad::*;

struct Item {
    cells: [String; 3],
    key: usize,
}
struct Col {
    min: usize,
    max: usize,
    align: usize,
    title: usize,
}
/// the text which must be in a cell, for both ways of centering
fn in_cell(text: &[(char, usize)], width: usize, al: usize, shown: &[(char, usize)]) -> bool {
    let mut kept = 0;
    let mut n = 0;
    for c in text {
        if kept + c.1 > width {
            break;
        }
        kept += c.1;
        n += 1;
    }
    let pad = width - kept;
    let cropped = n < text.len();
    let at = |lp: usize| {
        let mut i = 0;
        let mut col = 0;
        for c in shown {
            if col < lp || i >= n {
                if c.0 != ' ' {
                    return false;
                }
            } else {
                if c.0 != text[i].0 {
                    return false;
                }
                i += 1;
            }
            col += c.1;
        }
        i == n
    };
    if cropped {
        return at(0);
    }
    match al {
        0 | 1 => at(0),
        3 => at(pad),
        _ => at(pad / 2) || at(pad - pad / 2),
    }
}
/// params: columns, chars in the symbolic cell, classes, rows, max area width, max area height, max of the widths
pub fn v04_paint() {
    let ncols = sym::param(0);
    let (s, v) = plain_string(sym::param(1), sym::param(2) as u32);
    for c in &v {
        sym::assume(cw(*c) > 0 && *c != '│');
    }
    let mut skin = MadSkin::no_style();
    skin.scrollbar.thumb.set_char('H');
    skin.scrollbar.track.set_char('T');
    let style: &'static CompoundStyle =
        Box::leak(Box::new(if ncols == 1 && sym::pick(2) == 0 { CompoundStyle::default() } else { some_style() }));
    let mut cols = Vec::new();
    for i in 0..ncols {
        let min = sym::pick(3);
        let max = if i == 0 { min + sym::pick(sym::param(6) + 1 - min.min(sym::param(6))) } else { min + 1 };
        cols.push(Col { min, max, align: if i == 0 { sym::pick(4) } else { 1 + i }, title: 0 });
        if i > 0 {
            // consecutive columns may have the same title
            let same = ncols > 2 && sym::pick(2) == 0;
            cols[i].title = cols[i - 1].title + !same as usize;
        }
    }
    let titles = ["ab", "cde", "f"];
    let mut columns = Vec::new();
    for (i, c) in cols.iter().enumerate() {
        columns.push(
            ListViewColumn::new(
                titles[c.title],
                c.min,
                c.max,
                Box::new(move |r: &Item| ListViewCell::new(r.cells[i].clone(), style)),
            )
            .with_align(align(c.align)),
        );
    }
    let mut sum_min = 0;
    for c in &cols {
        sum_min += c.min;
    }
    // the place needed by the minimums, the separators and the scrollbar
    let needed = sum_min + (ncols - 1) + 1;
    let width = needed.max(1) + sym::pick(sym::param(4));
    let height = 3 + sym::pick(sym::param(5) - 2);
    let (left, top) = (sym::urange(0, 60), sym::urange(0, 30));
    let area = Area::new(left as u16, top as u16, width as u16, height as u16);
    let mut view = ListView::new(area.clone(), columns, &skin);
    let nrows = sym::pick(sym::param(3) + 1);
    let filtered = sym::pick(2) == 1;
    if filtered {
        view.set_filter(Box::new(|r: &Item| r.key != 1));
    }
    let mut rows: Vec<[String; 3]> = Vec::new();
    for i in 0..nrows {
        let cells = match i % 3 {
            0 => [s.clone(), "x".to_string(), "yz".to_string()],
            1 => ["tuv".to_string(), s.clone(), String::new()],
            _ => [String::new(), "w".to_string(), s.clone()],
        };
        if !filtered || i != 1 {
            rows.push(cells.clone());
        }
        view.add_row(Item { cells, key: i });
    }
    let resized = sym::pick(2) == 1;
    if resized {
        view.update_dimensions();
    }
    // some scroll
    let body = height - 2;
    view.try_scroll_lines(-1000);
    let mut scroll = 0;
    if rows.len() > body && sym::pick(2) == 1 {
        view.try_scroll_lines(1);
        scroll = 1;
        sym::reach("scrolled");
    }
    let selected = rows.len() <= body && !rows.is_empty() && sym::pick(2) == 1;
    if selected {
        view.select_first_line();
    }
    let mut t = Term::new();
    view.write_on(&mut t).unwrap();
    sym::check(t.unknown == 0 && t.controls == 0 && t.newlines == 0, "only chars and moves");
    sym::check(t.erases == 0, "nothing erased");
    // per row: the cells in order of column
    let mut lines: Vec<Vec<(usize, char, usize)>> = vec![Vec::new(); height];
    for c in &t.cells {
        sym::check(c.x >= left && c.x + c.w <= left + width, "inside the columns of the area");
        sym::check(c.y >= top && c.y < top + height, "inside the rows of the area");
        let y = sym::concretize(c.y - top);
        let x = sym::concretize(c.x - left);
        if y < height {
            lines[y].push((x, c.c, c.w));
        }
    }
    let bar = rows.len() > body;
    // on the separator line: the widths of the columns
    let mut widths = Vec::new();
    let mut w = 0;
    for (i, c) in lines[1].iter().enumerate() {
        sym::check(c.0 == i, "separator from the left");
        if c.1 == '┼' || c.1 == '┬' {
            widths.push(w);
            w = 0;
        } else {
            sym::check(c.1 == '─', "separator");
            w += 1;
        }
    }
    widths.push(w);
    sym::check(widths.len() == ncols, "a width per column");
    if widths.len() != ncols {
        return;
    }
    let mut total = ncols - 1;
    for i in 0..ncols {
        total += widths[i];
        sym::check(widths[i] >= cols[i].min && widths[i] <= cols[i].max, "width in the limits");
        if !resized {
            sym::check(widths[i] == cols[i].min, "min width at first");
        }
    }
    sym::check(total + 1 <= width, "columns, separators and scrollbar fit the area");
    if resized && total + 1 < width {
        for i in 0..ncols {
            sym::check(widths[i] == cols[i].max, "the available width is used");
        }
        sym::reach("all at the max");
    }
    // rows
    for y in 2..height {
        let j = y - 2 + scroll;
        let mut line: Vec<(char, usize)> = Vec::new();
        let mut x = 0;
        let mut bars = 0;
        for c in &lines[y] {
            if bar && c.0 == width - 1 && (c.1 == 'H' || c.1 == 'T') {
                bars += 1;
                continue;
            }
            sym::check(c.0 == x, "no hole and no overlap");
            x += c.2;
            line.push((c.1, c.2));
        }
        sym::check(bars == bar as usize, "a scrollbar when needed");
        if j >= rows.len() {
            for c in &line {
                sym::check(c.0 == ' ', "blank line");
            }
            continue;
        }
        sym::check(x == total, "columns at their width");
        // split in columns
        let mut i = 0;
        for k in 0..ncols {
            let mut text = Vec::new();
            for c in rows[j][k].chars() {
                text.push((c, cw(c)));
            }
            let mut shown = Vec::new();
            let mut w = 0;
            while w < widths[k] && i < line.len() {
                shown.push(line[i]);
                w += line[i].1;
                i += 1;
            }
            sym::check(w == widths[k], "exact column width");
            sym::check(in_cell(&text, widths[k], cols[k].align, &shown), "cell content");
            if k + 1 < ncols {
                sym::check(i < line.len() && line[i].0 == '│', "column separator");
                i += 1;
            }
        }
        sym::reach("row");
    }
    // titles
    let mut x = 0;
    for c in &lines[0] {
        sym::check(c.0 == x, "no hole in the titles");
        x += c.2;
    }
    sym::check(x == total, "titles as wide as the columns");
    let mut x = 0;
    let mut k = 0;
    while k < ncols {
        let mut w = widths[k];
        let t = titles[cols[k].title];
        k += 1;
        while k < ncols && cols[k].title == cols[k - 1].title {
            w += 1 + widths[k];
            k += 1;
            sym::reach("merged titles");
        }
        let mut shown = Vec::new();
        for c in &lines[0] {
            if c.0 >= x && c.0 < x + w {
                shown.push((c.1, c.2));
            }
        }
        let mut text = Vec::new();
        for c in t.chars() {
            text.push((c, 1));
        }
        sym::check(in_cell(&text, w, 2, &shown), "centered title");
        x += w + 1;
    }
    sym::reach("painted");
}
