"""The stages (entry points of the harness, parameters, time caps) of each property."""

ASSUMPTIONS = [
    "the encoding is the LLVM IR rustc 1.99.1 emits for /repo's sources, the dependencies and std (opt-level 1, overflow and debug assertions on), 64-bit",
    "memory allocation succeeds; getenv finds nothing; the standard output is a terminal of 80 columns and 24 rows; the writer given to the code accepts all bytes",
]


def S(entry, *params, t=60, bounds="", **kw):
    return dict(entry=entry, params=list(params), time=t, bounds=bounds, **kw)


# building regular expressions takes many steps
RX = 2_000_000_000

PROPS = {
    "F01": dict(
        quick=[
            S("f01_strfit", 3, 15, bounds="all strings of 3 chars (any Unicode scalar), all limits 0..=7"),
            S("f01_strfit", 6, 1, bounds="all strings of 6 ASCII chars, all limits 0..=13"),
        ],
        thorough=[
            S("f01_strfit", 5, 15, t=3000, bounds="all strings of 5 chars (any Unicode scalar), all limits 0..=11"),
            S("f01_strfit", 9, 1, t=1500, bounds="all strings of 9 ASCII chars, all limits 0..=19"),
        ],
        outside="longer strings",
    ),
    "F02": dict(
        quick=[
            S("f02_crop", 3, 1, 1, 0, 11, bounds="3 operations among 11, limits 0..=7, one ASCII char (or tab) per string or char operation, repetitions 0..=4"),
            S("f02_crop", 2, 2, 7, 0, 11, bounds="2 operations among 11, limits 0..=7, two chars of 1 to 3 bytes and of width 0 to 2 (or tab) per string"),
            S("f02_edge", bounds="2 chars written by any of 4 operations on a writer of 0..=2 columns"),
        ],
        thorough=[
            S("f02_crop", 4, 1, 5, 0, 11, t=3600, bounds="4 operations among 11, one char of 1 or 3 bytes"),
            S("f02_crop", 2, 4, 5, 0, 6, t=3600, bounds="2 string or char operations with strings of 4 chars of 1 or 3 bytes"),
        ],
        outside="more operations; chars with a width depending on their neighbours; control chars other than tab; fillings whose char is wider than a column",
    ),
    "F03": dict(
        quick=[
            S("f03_completions", bounds="all pairs of 64-bit widths, all alignments"),
            S("f03_write_str", 3, 7, bounds="all strings of 3 one-column chars of 1 to 3 bytes, widths 0..=7, all alignments"),
            S("f03_write_wide", 3, 15, 7, bounds="all strings of 3 plain chars (of any UTF-8 length, width 0 to 2), widths 0..=7, all alignments"),
            S("f03_fill", 2, 1, 5, bounds="snippets of two differently styled compounds of 2 and 1 chars (1 or 3 bytes, width 1 or 2), widths 0..=6"),
            S("f03_fill", 4, 3, 1, bounds="two compounds of 4 and 3 ASCII chars, widths 0..=10"),
            S("f03_filling", bounds="filling of any char, 24 lengths in 0..=3001 around the limits of the internal buffer"),
            S("f03_filling_styled", bounds="any one-column char, 9 lengths in 0..=2001"),
        ],
        thorough=[
            S("f03_write_str", 5, 7, t=1800, bounds="strings of 5 one-column chars"),
            S("f03_fill", 3, 2, 5, t=1800, bounds="compounds of 3 and 2 chars of 1 or 3 bytes"),
            S("f03_fill", 2, 2, 15, t=3600, bounds="compounds of 2 and 2 chars of any UTF-8 length"),
        ],
        outside="longer strings; the default and unstyled skins only",
    ),
    "F04": dict(
        quick=[
            S("f04_fit", 5, 5, bounds="one compound of 4 chars of 1 or 3 bytes, max width 0..=6, all alignments"),
            S("f04_fit", 3, 4, 3, bounds="two compounds of 3 and 2 chars of 1 or 2 bytes, max width 0..=7"),
            S("f04_fit", 5, 3, 3, bounds="two compounds of 2 and 2 chars of 1 or 3 bytes"),
            S("f04_fit", 5, 1, 3, bounds="an empty compound and one of 2 chars of 1 or 3 bytes"),
            S("f04_fit", 5, 3, 1, 2, bounds="an empty compound between compounds of 2 and 1 chars of 1 or 3 bytes"),
            S("f04_fit", 5, 2, 3, 2, bounds="three compounds of 1, 2 and 1 chars of 1 or 3 bytes"),
            S("f04_fit", 1, 12, bounds="one compound of 11 ASCII chars, max width 0..=13"),
            S("f04_fit", 1, 9, 4, bounds="two compounds of 8 and 3 ASCII chars"),
        ],
        thorough=[
            S("f04_fit", 5, 7, t=3600, bounds="one compound of 6 chars of 1 or 3 bytes"),
            S("f04_fit", 7, 3, 4, t=3600, bounds="two compounds of 2 and 3 chars of 1 to 3 bytes"),
            S("f04_fit", 1, 9, 9, t=3600, bounds="two compounds of 8 and 8 ASCII chars"),
            S("f04_fit", 1, 6, 6, 6, t=3600, bounds="three compounds of 5 ASCII chars"),
        ],
        outside="longer snippets; snippets of a kind with a marker (list items, quotes)",
    ),
    "F05": dict(
        quick=[
            S("f05_compounds", 1, 8, 2, 3, bounds="two styled compounds of 2 and 3 ASCII chars, 8 line kinds, 3 skins (block or first line indentation, margins and alignments), widths 3..=10"),
            S("f05_compounds", 5, 8, 2, 1, bounds="two compounds of 2 and 1 chars of 1 or 3 bytes and width 1 or 2, 8 kinds, 3 skins, widths 3..=8"),
            S("f05_compounds", 0, 5, 4, 1, 3, bounds="three compounds of 4, 1 and 3 chars, each a letter or a space, 5 kinds, 3 skins, widths 3..=13"),
            S("f05_text", 1, 3, 0, 9, 0, bounds="texts made of one of 9 prefixes (list, quote, header, code, fence...) and 3 ASCII chars, 3 skins, widths 3..=9"),
            S("f05_text", 5, 2, 0, 9, 2, bounds="texts of several lines with a code block: one of 9 prefixes, 2 chars of 1 or 3 bytes, then fixed lines"),
            S("f05_text", 1, 2, 0, 9, 1, bounds="one of 9 prefixes, 2 ASCII chars, a fixed styled end"),
            S("f05_raw", 0, 10, bounds="raw lines of 10 letters or spaces, 2 skins, widths 3..=12"),
            S("f05_raw", 5, 5, bounds="raw lines of 5 chars of 1 or 3 bytes, widths 3..=7"),
            S("f05_small", 1, 3, bounds="no crash: 9 prefixes and 3 ASCII chars (control chars included), 3 skins, widths 0..=7"),
            S("f05_small", 4, 1, bounds="no crash: 9 prefixes and a char of 3 bytes, 3 skins, widths 0..=7"),
        ],
        thorough=[
            S("f05_text", 1, 4, 0, 9, 0, t=3600, bounds="9 prefixes and 4 ASCII chars"),
            S("f05_text", 5, 4, 0, 3, 0, t=3600, bounds="3 prefixes and 4 chars of 1 or 3 bytes"),
            S("f05_compounds", 5, 8, 2, 2, 1, t=3600, bounds="compounds of 2, 2 and 1 chars of 1 or 3 bytes"),
            S("f05_raw", 5, 8, t=3600, bounds="raw lines of 8 chars of 1 or 3 bytes"),
            S("f05_raw", 0, 14, t=3600, bounds="raw lines of 14 letters or spaces"),
        ],
        outside="longer texts; tabs and other control chars (their width depends on the terminal) but for crashes; chars with a width depending on their neighbours; the chars of the skin (bullet, marks) other than the default ones",
    ),
    "F06": dict(
        quick=[
            S("f06_compounds", 1, 8, 2, 3, bounds="two styled compounds of 2 and 3 ASCII chars, 8 line kinds, 3 skins, widths 3..=10"),
            S("f06_compounds", 5, 8, 2, 1, 1, bounds="three compounds of 2, 1 and 1 chars of 1 or 3 bytes, 8 kinds, 3 skins, widths 3..=9"),
            S("f06_compounds", 0, 5, 4, 2, 3, bounds="three compounds of 4, 2 and 3 letters or spaces, 5 kinds, 3 skins, widths 3..=14"),
            S("f06_text", 1, 3, 0, 9, 0, bounds="texts made of one of 9 prefixes and 3 ASCII chars, 3 skins, widths 3..=9"),
            S("f06_text", 5, 2, 0, 9, 2, bounds="several lines: one of 9 prefixes, 2 chars of 1 or 3 bytes, then fixed lines with a code block"),
            S("f06_text", 1, 2, 0, 9, 1, bounds="one of 9 prefixes, 2 ASCII chars, a fixed styled end"),
            S("f06_raw", 0, 11, bounds="raw lines of 11 letters or spaces, 2 skins, widths 3..=13"),
            S("f06_raw", 5, 5, bounds="raw lines of 5 chars of 1 or 3 bytes, widths 3..=7"),
        ],
        thorough=[
            S("f06_text", 1, 4, 0, 9, 0, t=3600, bounds="9 prefixes and 4 ASCII chars"),
            S("f06_text", 1, 3, 0, 9, 2, t=3600, bounds="several lines: 9 prefixes, 3 ASCII chars, fixed lines"),
            S("f06_compounds", 5, 8, 2, 2, 2, t=3600, bounds="compounds of 2, 2 and 2 chars of 1 or 3 bytes"),
            S("f06_compounds", 0, 5, 4, 3, 3, 3, t=3600, bounds="four compounds of letters or spaces"),
            S("f06_raw", 5, 8, t=3600, bounds="raw lines of 8 chars of 1 or 3 bytes"),
            S("f06_raw", 0, 15, t=3600, bounds="raw lines of 15 letters or spaces"),
        ],
        outside="longer texts; text which isn't kept as a part of the source (the check follows the parts by their place in the source); tables (see T02)",
    ),
    "T01": dict(
        quick=[
            S("t01_fit", 1, 3, 1000, 1000, 2, 0, bounds="one column, two cells of 0..=1000 columns and a fixed one, available width 0..=1000"),
            S("t01_fit", 2, 1, 16, 20, 1, 0, bounds="two columns, a cell of 0..=16 columns in each, available width 0..=20"),
            S("t01_fit", 2, 2, 7, 13, 1, 9, bounds="two columns, a cell of 0..=7 columns and a narrow one in each, available width 9..=13"),
            S("t01_fit", 3, 1, 8, 16, 1, 13, bounds="three columns, a cell of 0..=8 columns in each, available width 13..=16"),
            S("t01_uneven", 200, 12, 8, 40, 2, bounds="two columns: one with a cell of 0..=200 columns and 0..=12 empty ones, the other of 4 known widths, available width 8..=40"),
            S("t01_uneven", 100, 6, 12, 40, 3, bounds="three columns: one with a cell of 0..=100 columns and 0..=6 empty ones, the others of 4 known widths, available width 12..=40"),
            S("t01_uneven", 100, 4, 16, 40, 4, bounds="four columns, the same with 0..=4 empty cells"),
        ],
        thorough=[
            S("t01_uneven", 1000, 60, 8, 100, 2, t=3600, bounds="two columns: one with a cell of 0..=1000 columns and 0..=60 empty ones, available width 8..=100"),
            S("t01_uneven", 1000, 20, 20, 60, 5, t=3600, bounds="five columns: one with a cell of 0..=1000 columns and 0..=20 empty ones, available width 20..=60"),
            S("t01_fit", 2, 1, 100, 100, 1, 0, t=3600, bounds="two columns, a cell of 0..=100 columns in each, available width 0..=100"),
            S("t01_fit", 2, 2, 14, 24, 1, 9, t=3600, bounds="two columns, a cell of 0..=14 columns and a narrow one in each"),
            S("t01_fit", 2, 2, 7, 13, 2, 9, t=3600, bounds="two columns, two cells of 0..=7 columns in each"),
            S("t01_fit", 4, 1, 8, 24, 1, 17, t=3600, bounds="four columns, a cell of 0..=8 columns in each, available width 17..=24"),
            S("t01_fit", 3, 3, 9, 20, 1, 13, t=3600, bounds="three columns, a cell of 0..=9 columns and two narrow ones in each"),
        ],
        outside="more columns and wider cells (the result depends on products and quotients of the widths); cells much wider than usize::MAX / 10",
    ),
    "T02": dict(
        quick=[
            S("t02_shapes", 3, 7, 0, 22, bounds="texts of 3 lines of 7 kinds (rows of 1 to 4 cells, rules, paragraph), a letter or space in a cell, widths 0..=22"),
            S("t02_cells", 0, 0, 6, 4, 2, 0, 16, bounds="6 tables (ragged, centered, with list items or quotes in cells), two cells of 4 and 2 letters or spaces, widths 0..=16"),
            S("t02_cells", 5, 0, 6, 2, 1, 5, 6, bounds="6 tables, two cells of 2 and 1 chars of 1 or 3 bytes and width 1 or 2, widths 5..=6"),
            S("t02_cells", 0, 6, 2, 2, 2, 0, 22, bounds="2 tables whose cells are wrapped over different numbers of lines, 2 letters or spaces in several cells, widths 0..=22"),
            S("t02_parse", 1, 4, 7, bounds="texts of a table whose first cells are 4 ASCII chars (with separators and styles), widths 0..=7"),
            S("t02_parse", 5, 2, 10, bounds="same with 2 chars of 1 or 3 bytes, widths 0..=10"),
        ],
        thorough=[
            S("t02_shapes", 4, 7, 0, 22, t=3600, bounds="texts of 4 lines of 7 kinds"),
            S("t02_cells", 0, 0, 6, 6, 3, 0, 22, t=3600, bounds="two cells of 6 and 3 letters or spaces, widths 0..=22"),
            S("t02_cells", 5, 0, 6, 2, 2, 0, 16, t=3600, bounds="two cells of 2 and 2 chars of 1 or 3 bytes, widths 0..=16"),
            S("t02_cells", 5, 6, 2, 2, 1, 5, 22, t=3600, bounds="the same with chars of 1 or 3 bytes"),
            S("t02_parse", 1, 5, 12, t=3600, bounds="5 ASCII chars, widths 0..=12"),
        ],
        outside="larger tables; cells with border or marker characters; widths under 5 (where no column fits) but for crashes",
    ),
    "R03": dict(
        quick=[
            S("r03_overwrite", 3, 0, 3, bounds="two styles, each color absent or any ANSI or RGB color, any subset of 3 attributes in each"),
            S("r03_overwrite", 1, 3, 7, bounds="two styles without colors, any subset of the 7 other attributes in each"),
            S("r03_setters", 3, bounds="all sequences of 3 setter calls among 6 setters, any ANSI or RGB color, 10 attributes"),
            S("r03_styled_char", 2, 15, bounds="all sequences of 2 changes among 7 of a styled char, chars of any UTF-8 length, 0..=3 repetitions"),
            S("r03_blend", bounds="styles with 6 x 6 colors (absent, ANSI, RGB, named) and 2 attributes, 5 destinations, weights 0 and 1"),
        ],
        thorough=[
            S("r03_overwrite", 5, 0, 5, t=3600, bounds="colors of 5 kinds, subsets of 5 attributes"),
            S("r03_setters", 4, t=1800, bounds="sequences of 4 setter calls"),
            S("r03_styled_char", 3, 15, t=3600, bounds="sequences of 3 changes"),
        ],
        outside="the colors are free in the composition checks, but are 4 known colors where the printed sequences are read; blending is decided for a few known colors (its result is concrete there: the solver only tells the cases apart)",
    ),
    "G01": dict(
        quick=[
            S("g01_contains", bounds="all areas of 16-bit sides ending on a 16-bit screen, all points"),
            S("g01_max_width", bounds="all areas of 16-bit sides ending on a 16-bit screen, all max widths"),
            S("g01_scrollbar", 1, 10, 0, 20, 1, bounds="heights 1..=10, contents 0..=20, all scrolls"),
            S("g01_scrollbar", 1, 12, 0, 40, 0, bounds="heights 1..=12, contents 0..=40, all scrolls"),
            S("g01_scrollbar", 40, 40, 0, 1000, 0, bounds="height 40, contents 0..=1000, all scrolls"),
            S("g01_tall", 7, 5, bounds="heights 255, 256, 300, 700, 1000, 20000, 65000, 5 contents up to 1000003, all scrolls"),
        ],
        thorough=[
            S("g01_scrollbar", 1, 60, 0, 300, 0, t=3600, bounds="heights 1..=60, contents 0..=300, all scrolls"),
            S("g01_scrollbar", 23, 25, 0, 5000, 0, t=3600, bounds="heights 23..=25, contents 0..=5000"),
        ],
        outside="larger contents (the product and quotient of the scroll and of the heights)",
    ),
    "W01": dict(
        quick=[
            S("w01_bar", 0, 4, 3, t=100, bounds="lengths 0..=3, all the 32-bit floats of [0, 1]"),
            S("w01_bar", 5, 1, 2, t=150, bounds="length 5, all the 32-bit floats of [0, 1]"),
            S("w01_growing", 2, 1, 2, t=100, bounds="length 2, all the pairs of 32-bit floats of [0, 1]"),
        ],
        thorough=[
            S("w01_bar", 4, 16, 8, t=3600, bounds="lengths 4..=19, all the 32-bit floats of [0, 1]"),
            S("w01_bar", 8, 1, 2, t=3600, bounds="length 8"),
            S("w01_bar", 80, 1, 5, t=3600, bounds="length 80"),
            S("w01_growing", 1, 4, 4, t=3600, bounds="lengths 1..=4, all the pairs of floats"),
            S("w01_growing", 13, 1, 4, t=3600, bounds="length 13, all the pairs of floats"),
        ],
        outside="other lengths; parts out of [0, 1]",
    ),
    "W02": dict(
        quick=[
            S("w02_rect", 7, 6, bounds="2..=7 columns, 2..=6 rows, anywhere or at the end of the 16-bit screen, 3 styles, 4 borders, filled or not"),
        ],
        thorough=[
            S("w02_rect", 20, 12, t=3600, bounds="2..=20 columns, 2..=12 rows"),
        ],
        outside="larger rectangles; rectangles of less than two columns or rows",
    ),
    "V01": dict(
        quick=[
            S("v01_step", 400, 0, 0, bounds="one operation from any valid state: contents 0..=400, heights 1, 2, 3, 24, 65535, any scroll, any 62-bit scroll asked, any 32-bit number of lines, 10 numbers of pages, 7 keys with or without ctrl"),
            S("v01_step", 40, 12, 0, bounds="one operation from any valid state: contents 0..=40, heights 1..=11"),
            S("v01_pages", 10, 4, bounds="all the eighths of page from -125 to 125, content 10, heights 1..=4, any scroll"),
            S("v01_history", 3, 5, 2, bounds="all sequences of 3 operations, contents 0..=5, heights 1..=2"),
            S("v01_mad_view", 2, bounds="all sequences of 2 operations of a MadView with resizes among 12 sizes, any 32-bit amounts"),
        ],
        thorough=[
            S("v01_step", 40, 0, 1, t=3600, bounds="any 32-bit number of pages, contents 0..=40"),
            S("v01_step", 2000, 60, 0, t=3600, bounds="contents 0..=2000, heights 1..=59"),
            S("v01_history", 4, 6, 3, t=3600, bounds="sequences of 4 operations, contents 0..=6, heights 1..=3"),
            S("v01_mad_view", 3, t=3600, bounds="sequences of 3 operations of a MadView"),
        ],
        outside="areas without rows; longer contents (the operations only compare and add heights). One operation is decided from any valid state, so histories of any length are covered for those contents",
    ),
    "V02": dict(
        quick=[
            S("v02_write", 1, 1, 4, 4, 5, 3, 3, bounds="4 texts with an ASCII char, 3 skins, areas of 4..=5 columns and 1..=3 rows, anywhere, every scroll, 4 ways of painting"),
            S("v02_write", 5, 1, 4, 6, 6, 2, 3, bounds="4 texts with a char of 1 or 3 bytes, areas of 6 columns and 1..=2 rows"),
            S("v02_write", 0, 3, 4, 4, 8, 4, 1, bounds="4 texts with 3 letters or spaces, areas of 4..=8 columns and 1..=4 rows"),
            S("v02_small", 5, 1, 7, 4, bounds="no crash: areas of 0..=7 columns and 0..=4 rows"),
            S("v02_tall", 66000, bounds="texts of 65998..=66000 lines, 5 scrolls"),
        ],
        thorough=[
            S("v02_write", 5, 2, 5, 4, 8, 4, 3, t=3600, bounds="5 texts with 2 chars of 1 or 3 bytes, areas of 4..=8 columns and 1..=4 rows"),
            S("v02_write", 0, 5, 4, 4, 12, 6, 1, t=3600, bounds="4 texts with 5 letters or spaces, areas of 4..=12 columns and 1..=6 rows"),
        ],
        outside="larger areas; areas under 4 columns (text isn't wrapped under 3) but for crashes; texts wrapped for another width; scrolls past the end but for what isn't the scrollbar",
    ),
    "V03": dict(
        quick=[
            S("v03_history", 2, 3, 3, 0, 13, 1, bounds="all sequences of 2 operations among 13 (moves, scrolls, clicks, filters, sorted additions, removals, resizes) on a list of 3 rows with free sort keys, heights 1..=3"),
            S("v03_history", 3, 4, 103, 0, 8, 0, bounds="all sequences of 3 operations among 8 on a list of 4 rows, height 3"),
            S("v03_history", 3, 2, 3, 0, 13, 0, bounds="all sequences of 3 operations among 13 on a list of 2 rows"),
            S("v03_scroll", 4, 5, bounds="scrolling by any 32-bit number of lines or any eighth of page"),
        ],
        thorough=[
            S("v03_history", 3, 4, 105, 0, 8, 0, t=3600, bounds="sequences of 3 operations among 8, 4 rows, height 5"),
            S("v03_history", 3, 3, 3, 0, 13, 1, t=3600, bounds="sequences of 3 operations among 13, 3 rows with free keys"),
            S("v03_history", 4, 3, 103, 0, 8, 0, t=3600, bounds="sequences of 4 operations among 8, 3 rows"),
            S("v03_history", 4, 2, 3, 0, 13, 0, t=3600, bounds="sequences of 4 operations among 13, 2 rows"),
        ],
        outside="longer lists and histories",
    ),
    "V04": dict(
        quick=[
            S("v04_paint", 1, 2, 5, 1, 2, 3, 3, bounds="a column, 2 chars of 1 or 3 bytes in a cell, one row, areas up to 2 columns too wide, 3 rows"),
            S("v04_paint", 2, 1, 1, 2, 2, 3, 2, bounds="two columns, an ASCII char in a cell, two rows, areas up to 2 columns too wide"),
            S("v04_paint", 3, 1, 1, 1, 1, 3, 2, bounds="three columns (their titles merged or not), one row"),
        ],
        thorough=[
            S("v04_paint", 2, 2, 5, 1, 2, 3, 2, t=3600, bounds="two columns, 2 chars of 1 or 3 bytes in a cell"),
            S("v04_paint", 1, 2, 7, 2, 2, 4, 3, t=3600, bounds="a column, two rows, areas of 3..=4 rows"),
            S("v04_paint", 2, 2, 5, 2, 3, 4, 3, t=3600, bounds="two columns, two rows, areas of 3..=4 rows"),
            S("v04_paint", 3, 1, 1, 2, 1, 3, 2, t=3600, bounds="three columns (their titles merged or not), two rows"),
            S("v04_paint", 3, 1, 1, 3, 2, 4, 2, t=3600, bounds="three columns, three rows"),
        ],
        outside="larger lists; areas of less than three rows or narrower than the minimum widths",
    ),
    "R01": dict(
        quick=[
            S("r01_style", 3, bounds="all compositions of 5 styles, foregrounds absent or any ANSI or RGB color, 3 backgrounds absent or any ANSI color, any flags"),
            S("r01_compounds", 5, 8, 6, 2, 2, bounds="snippets of two compounds of a char of 1 or 3 bytes, any flags, 8 line kinds, 6 sets of styles, 3 ways of printing"),
            S("r01_compounds", 7, 8, 3, 4, bounds="a compound of 3 chars of 1 to 3 bytes, any flags, 8 line kinds, 3 sets of styles"),
            S("r01_compounds", 1, 14, 3, 2, bounds="a compound of an ASCII char, any flags, 14 line kinds (items of depth 0 to 9, headers up to 8), 3 sets of styles"),
            S("r01_source", 1, 4, 9, 3, bounds="lines of one of 9 prefixes and 4 ASCII chars, 3 sets of styles, 3 ways of printing"),
            S("r01_source", 5, 2, 9, 6, bounds="lines of one of 9 prefixes and 2 chars of 1 or 3 bytes, 6 sets of styles"),
        ],
        thorough=[
            S("r01_compounds", 1, 8, 6, 3, 1, 2, t=3600, bounds="three compounds of 2, 0 and 1 ASCII chars"),
            S("r01_compounds", 5, 8, 6, 2, 2, 2, t=3600, bounds="three compounds"),
            S("r01_source", 1, 6, 9, 2, t=3600, bounds="9 prefixes and 6 ASCII chars"),
            S("r01_source", 15, 3, 9, 3, t=3600, bounds="9 prefixes and 3 chars of any UTF-8 length"),
        ],
        outside="longer lines; the values of the colors are free where styles are composed, but known where the printed sequences are read",
    ),
    "R02": dict(
        quick=[
            S("r02_args", 1, 4, 3, 9, 0, bounds="9 templates, arguments of 4 and 3 ASCII chars (markdown and placeholder chars included)"),
            S("r02_args", 7, 2, 1, 9, 0, bounds="9 templates, arguments of 2 and 1 chars of 1 to 3 bytes"),
            S("r02_args", 5, 0, 2, 9, 0, bounds="9 templates, an empty argument and one of 2 chars of 1 or 3 bytes"),
        ],
        thorough=[
            S("r02_args", 1, 8, 8, 9, 0, t=1800, bounds="arguments of 8 ASCII chars"),
            S("r02_args", 15, 3, 3, 9, 0, t=3600, bounds="arguments of 3 chars of any UTF-8 length"),
        ],
        outside="other templates (they're literals); longer arguments; control chars in arguments; what is printed by the variant writing on the standard output (the same code, but for the writer)",
    ),
    "R04": dict(
        quick=[
            S("r04_color", 14, steps=RX, bounds="all named, ANSI and RGB colors"),
            S("r04_forms", steps=RX, bounds="documented forms of colors: names in any case, all gray levels, all 3 or 6 hexadecimal digits, all decimal RGB"),
            S("r04_token", 15, 22, steps=RX, bounds="tokens: all attributes and alignments, all dimensions, all Unicode chars but spaces, digits and parentheses"),
            S("r04_compound", 1, 0, 10, steps=RX, bounds="styles with all the sets of attributes"),
            S("r04_compound", 2, 0, 0, steps=RX, bounds="styles with all the pairs of named colors"),
            S("r04_compound", 8, 0, 0, steps=RX, bounds="styles with all the pairs of RGB colors, or no color"),
            S("r04_compound", 4, 0, 3, steps=RX, bounds="styles with all the pairs of ANSI colors, or no color, and 3 attributes"),
            S("r04_line", 4, 0, 1, 1, steps=RX, bounds="line styles with ANSI colors, an attribute, margins in 63000..=65535"),
            S("r04_line", 1, 2, 0, 22, steps=RX, bounds="line styles with all pairs of margins"),
            S("r04_char", 4, 0, 1, 1, steps=RX, bounds="styled ASCII chars with ANSI colors and an attribute"),
            S("r04_skin", 0, 5, 4, 0, 1, 1, 0, steps=RX, bounds="inline styles of a skin"),
            S("r04_skin", 5, 3, 1, 6, 1, 1, 1, steps=RX, bounds="styled chars of a skin, through JSON"),
            S("r04_skin", 8, 4, 1, 0, 1, 0, 1, steps=RX, bounds="line styles of a skin, with 16 alignments and margins, through JSON"),
            S("r04_skin", 12, 1, 1, 0, 0, 0, 1, steps=RX, bounds="table borders of a skin, through JSON"),
            S("r04_skin", 13, 1, 1, 0, 1, 1, 0, steps=RX, bounds="scrollbars of a skin, with different chars and an attribute"),
            S("r04_skin", 14, 1, 16, 0, 0, 1, 0, steps=RX, bounds="scrollbars of a skin, with the same char and 3 colors"),
            S("r04_skin", 14, 1, 1, 3, 2, 1, 0, steps=RX, bounds="scrollbars of a skin, with the same char and 2 attributes"),
            S("r04_any", 0, 15, 1, 0, steps=RX, bounds="the text is any Unicode char"),
            S("r04_any", 0, 1, 3, 0, steps=RX, bounds="the text is 3 ASCII chars"),
            S("r04_any", 0, 1, 2, 1, steps=RX, bounds="several tokens in 2 ASCII chars"),
            S("r04_any", 5, 1, 2, 1, steps=RX, bounds="several tokens in 2 ASCII chars after #"),
            S("r04_any", 1, 1, 3, 0, steps=RX, bounds="the text is 3 ASCII chars in rgb()"),
            S("r04_any", 3, 1, 2, 0, steps=RX, bounds="the text is 2 ASCII chars in gray()"),
            S("r04_any", 4, 1, 2, 0, steps=RX, bounds="the text is 2 ASCII chars in ansi()"),
        ],
        thorough=[
            S("r04_compound", 14, 0, 2, steps=RX, t=3600, bounds="styles with all the pairs of colors, and 2 attributes"),
            S("r04_compound", 16, 0, 10, steps=RX, t=3600, bounds="styles with pairs of 3 colors, and all the sets of attributes"),
            S("r04_line", 20, 0, 3, 4, steps=RX, t=3600, bounds="line styles with ANSI and named colors, 3 attributes"),
            S("r04_char", 5, 0, 2, 15, steps=RX, t=3600, bounds="any styled char with ANSI colors"),
            S("r04_char", 1, 0, 10, 1, steps=RX, t=3600, bounds="styled ASCII chars with all the sets of attributes"),
            S("r04_skin", 0, 12, 48, 0, 2, 7, 0, steps=RX, t=3600, bounds="parts of a skin with 4 colors, 2 attributes and chars of up to 3 bytes"),
            S("r04_skin", 13, 1, 16, 0, 0, 0, 0, steps=RX, t=3600, bounds="scrollbars of a skin, with 2 chars and 3 colors"),
            S("r04_skin", 12, 3, 16, 0, 2, 3, 0, steps=RX, t=3600, bounds="scrollbars of a skin"),
            S("r04_any", 0, 7, 2, 0, steps=RX, t=3600, bounds="the text is 2 chars of up to 3 bytes"),
            S("r04_any", 0, 1, 3, 1, steps=RX, t=3600, bounds="several tokens in 3 ASCII chars"),
            S("r04_any", 3, 1, 4, 0, steps=RX, t=3600, bounds="the text is 4 ASCII chars in gray()"),
            S("r04_any", 6, 1, 2, 1, steps=RX, t=3600, bounds="several tokens with 2 ASCII chars in the middle"),
            S("r04_any", 7, 1, 2, 1, steps=RX, t=3600, bounds="several tokens with 2 ASCII chars between dimensions"),
        ],
        outside="longer texts; what the textual form can't express: the color Reset, the colors Black and White (their names are the ones of the ANSI colors 16 and 231), attributes out of ATTRIBUTES, spaces, digits and parentheses as styled chars, margins over 65535",
    ),
    "E01": dict(
        quick=[
            S("e01_events", 2, 65535, 0, 0, 2, 0, 0, 0, t=90, bounds="2 events of any sort, default options"),
            S("e01_events", 5, 124, 0, 0, 1, 0, 0, 0, t=60, bounds="5 events among: start or end of sequence, letter, ctrl key, click"),
            S("e01_events", 3, 62, 0, 0, 1, 0, 0, 3, t=90, bounds="3 keys, with any subset of alt, control, shift; leaving at any time, keys waiting for the answer"),
            S("e01_events", 4, 4544, 0, 0, 2, 6, 0, 0, t=90, bounds="4 clicks or resizes at places of a 2x2 grid, times around 700 ms"),
            S("e01_events", 2, 1, 0, 57, 1, 0, 0, 0, t=60, bounds="2 keys of any kind, all the options on keys, terminals with or without the keyboard protocol"),
            S("e01_events", 2, 64640, 0, 7, 2, 0, 0, 3, t=60, bounds="2 events but keys, all the options on raw keys, moves and drags"),
            S("e01_events", 3, 3, 4, 57, 1, 0, 0, 0, t=90, bounds="a sequence, all the options on keys"),
            S("e01_events", 2, 32767, 0, 0, 1, 0, 1, 0, t=60, bounds="2 events of any sort, a thread interrupted after waking the other one"),
            S("e01_events", 3, 124, 0, 0, 1, 0, 2, 3, t=60, bounds="sequences and clicks, threads interrupted twice"),
            S("e01_full", 1, t=30, bounds="11 sequences nobody listens to"),
        ],
        thorough=[
            S("e01_events", 3, 65535, 0, 0, 2, 0, 0, 0, t=3600, bounds="3 events of any sort"),
            S("e01_events", 7, 124, 0, 0, 1, 0, 0, 0, t=3600, bounds="7 events of sequences"),
            S("e01_events", 5, 4544, 0, 0, 2, 6, 0, 3, t=3600, bounds="5 clicks"),
            S("e01_events", 3, 1, 0, 57, 1, 0, 0, 0, t=3600, bounds="3 keys of any kind, all the options on keys"),
            S("e01_events", 5, 124, 0, 0, 1, 0, 2, 3, t=3600, bounds="5 events of sequences, threads interrupted twice"),
            S("e01_events", 3, 64640, 0, 7, 2, 0, 1, 3, t=3600, bounds="3 events but keys, all the options"),
        ],
        outside="longer histories; crossterm's own reading of the terminal (the events it gives are the inputs) and the state of the real terminal; the combinations made by crokey, which are compared with those of a second combiner; answers given before the event; weak memory orders",
    ),
    "E02": dict(
        quick=[
            S("e02_beams", 3, 1, 3, 3, 2, 0, 0, 0, 8, t=60, bounds="a beam of 0..=2 ticks or infinite, 3 operations, periods and times of 1..=3, punctual threads"),
            S("e02_beams", 4, 2, 2, 2, 2, 0, 0, 0, 8, t=90, bounds="2 beams, 4 operations, periods and times of 1..=2, punctual threads"),
            S("e02_beams", 3, 2, 3, 3, 2, 1, 0, 0, 8, t=90, bounds="2 beams, 3 operations, a thread interrupted anywhere"),
            S("e02_beams", 3, 2, 3, 3, 2, 0, 1, 0, 8, t=90, bounds="2 beams, 3 operations, a thread being late"),
            S("e02_stops", 4, 2, 1, t=60, bounds="4 beams of 2 ticks, 2 of them stopped, in any order"),
            S("e02_stops", 3, 2, 2, t=60, bounds="3 beams of 2 ticks and periods of 1..=2, 2 of them stopped"),
        ],
        thorough=[
            S("e02_beams", 5, 2, 3, 3, 2, 0, 0, 0, 8, t=3600, bounds="2 beams, 5 operations"),
            S("e02_beams", 5, 3, 2, 2, 1, 0, 0, 0, 8, t=3600, bounds="3 beams, 5 operations"),
            S("e02_beams", 4, 2, 2, 2, 2, 1, 1, 0, 8, t=3600, bounds="2 beams, 4 operations, a thread interrupted anywhere, a thread being late"),
            S("e02_beams", 3, 2, 2, 2, 2, 2, 1, 0, 8, t=3600, bounds="2 beams, 3 operations, threads interrupted twice"),
            S("e02_stops", 4, 3, 1, t=3600, bounds="4 beams of 2 ticks, 3 of them stopped, in any order"),
            S("e02_stops", 5, 2, 1, t=3600, bounds="5 beams of 2 ticks, 2 of them stopped, in any order"),
        ],
        outside="more beams, operations and interruptions; interruptions elsewhere than at the calls to the operating system (clock, futex, thread creation); weak memory orders; whether the operating system wakes a thread in time",
    ),
    "Q01": dict(
        quick=[
            S("q01_ask", 5, 1, 2, 1, 1, bounds="a line of 0..=2 chars (space, tab, or any of 1 or 3 bytes), a key of any char of 1 or 3 bytes, 3 defaults, 3 line ends, a question"),
            S("q01_ask", 1, 2, 2, 1, 0, bounds="a line of 0..=2 ASCII chars, a key of two ASCII chars"),
            S("q01_ask", 1, 1, 1, 3, 0, bounds="three lines of 0..=1 ASCII chars"),
            S("q01_ask", 1, 0, 1, 2, 1, bounds="an empty key"),
            S("q01_macro", 1, 2, 2, bounds="the macro, two lines of 0..=2 ASCII chars"),
        ],
        thorough=[
            S("q01_ask", 1, 1, 2, 2, 1, t=3600, bounds="two lines of 0..=2 ASCII chars"),
            S("q01_ask", 5, 2, 2, 2, 0, t=3600, bounds="two lines of 0..=2 chars of 1 or 3 bytes"),
            S("q01_macro", 5, 2, 2, t=3600, bounds="the macro, two lines of 0..=2 chars of 1 or 3 bytes"),
        ],
        outside="longer lines and keys; invalid UTF-8 (an error)",
    ),
    "I01": dict(
        quick=[
            S("i01_edit", 1, 4, 10, 2, 2, 0, 35, 1, bounds="a text of 4 ASCII chars and line breaks, the cursor anywhere, two of 35 operations or keys, ASCII (control chars too) inserted"),
            S("i01_edit", 69, 3, 10, 1, 1, 0, 35, 1, bounds="a text of 3 ASCII or wide chars, tabs and line breaks, one operation"),
            S("i01_edit", 5, 3, 10, 2, 2, 7, 28, 1, t=60, bounds="a text of 3 ASCII or wide chars and line breaks, two operations, most of them moves"),
            S("i01_edit", 1, 1, 10, 1, 1, 0, 35, 15, bounds="any char inserted"),
            S("i02_changed", 1, 4, 10, 2, 1, 0, 24, 1, bounds="4 ASCII chars and line breaks, a selection step, then one of 24 changes or moves by direct calls while there's a selection: it stays valid and is what's cut"),
        ],
        thorough=[
            S("i01_edit", 1, 2, 10, 1, 3, 0, 35, 1, t=3600, bounds="three operations on a text of 2 chars and line breaks"),
            S("i01_edit", 69, 4, 10, 2, 2, 0, 35, 1, t=3600, bounds="two operations on 4 ASCII or wide chars, tabs and line breaks"),
            S("i01_edit", 1, 6, 10, 3, 2, 0, 35, 1, t=3600, bounds="two operations on 6 chars"),
        ],
        outside="longer texts; what typing does while a selection is there (I02), but for crashes; the exact number of chars removed by del_word_right, which is only checked not to be more than a word and the char after; chars of the full Unicode are inserted in short texts only",
    ),
    "I02": dict(
        quick=[
            S("i02_selection", 1, 4, 10, 2, 2, 0, 11, 6, t=90, bounds="a text of 4 ASCII chars and line breaks, the cursor anywhere, two selection steps (8 keys with shift or without, word, drag), 6 uses then a char typed"),
            S("i02_selection", 69, 3, 4, 1, 1, 0, 11, 6, bounds="a text of 3 ASCII or wide chars, tabs and line breaks, one selection step"),
            S("i02_lines", 5, 5, 10, 2, bounds="a line moved up or down in 5 ASCII or wide chars and line breaks"),
            S("i02_changed", 1, 4, 10, 2, 1, 0, 24, 1, bounds="4 ASCII chars and line breaks, a selection step, then one of 24 changes or moves by direct calls while there's a selection: it stays valid and is what's cut"),
        ],
        thorough=[
            S("i02_changed", 1, 3, 10, 2, 1, 0, 24, 2, t=3600, bounds="3 chars, a selection step, two changes"),
            S("i02_changed", 69, 3, 10, 2, 2, 0, 24, 1, t=3600, bounds="3 ASCII or wide chars, tabs and line breaks, two selection steps, one change"),
            S("i02_selection", 5, 4, 4, 2, 2, 0, 11, 6, t=3600, bounds="two steps on 4 ASCII or wide chars and line breaks"),
            S("i02_selection", 1, 3, 10, 2, 3, 0, 11, 6, t=3600, bounds="three steps on 3 chars"),
            S("i02_selection", 1, 6, 10, 2, 1, 0, 11, 6, t=3600, bounds="one step on 6 chars"),
            S("i02_lines", 5, 7, 10, 2, t=3600, bounds="7 chars"),
        ],
        outside="longer texts; which text is selected after text is changed by a direct call of put_char, insert_str, del_char_left and the like (only checked to be valid, and what is cut)",
    ),
    "I03": dict(
        quick=[
            S("i03_paint", 69, 3, 4, 1, 1, 0, 25, 6, 2, 0, t=60, bounds="3 ASCII or wide chars, tabs and line breaks in 4 columns and a row, the cursor anywhere, one of 25 actions, other areas of 1..=6 columns and 1..=2 rows"),
            S("i03_paint", 1, 2, 4, 2, 2, 0, 25, 5, 2, 0, t=60, bounds="2 ASCII chars and line breaks in 4x2, two actions"),
            S("i03_paint", 1, 5, 3, 2, 1, 0, 25, 7, 3, 0, t=60, bounds="5 ASCII chars and line breaks in 3x2, one action"),
            S("i03_paint", 5, 3, 5, 1, 1, 0, 25, 6, 2, 1, t=60, bounds="password mode, 3 ASCII or wide chars"),
            S("i03_paint", 1, 6, 2, 5, 1, 0, 9, 2, 5, 0, t=60, bounds="6 chars and line breaks in 2 columns and 5 rows, a key"),
            S("i03_line", 6, 6, 2, t=90, bounds="a line of 1..=6 chars, one of them possibly wide, in 1..=6 columns, with 2 runs of 1..=6 times a key, painted after each"),
            S("i03_line", 8, 8, 1, t=60, bounds="a line of 1..=8 chars in 1..=8 columns, with a run of keys"),
        ],
        thorough=[
            S("i03_paint", 69, 4, 4, 2, 1, 0, 25, 6, 2, 0, t=3600, bounds="4 chars"),
            S("i03_line", 10, 10, 2, t=3600, bounds="lines of up to 10 chars"),
            S("i03_paint", 1, 5, 4, 2, 2, 0, 25, 5, 2, 0, t=3600, bounds="5 chars, two actions"),
            S("i03_paint", 1, 2, 4, 1, 3, 0, 25, 5, 2, 0, t=3600, bounds="2 chars, three actions"),
            S("i03_paint", 5, 6, 6, 1, 1, 0, 25, 7, 2, 0, t=3600, bounds="6 ASCII or wide chars in 6 columns"),
        ],
        outside="bigger texts and areas; zero-width and control chars in the text; password mode changed after the text; styles other than the default ones",
    ),
    "I04": dict(
        quick=[
            S("i04_mouse", 5, 3, 4, 1, 1, 0, 10, 0, 0, bounds="3 ASCII or wide chars and line breaks in 4x1, one of 10 mouse events at any of the 65536x65536 places"),
            S("i04_mouse", 69, 2, 4, 1, 1, 0, 10, 0, 0, bounds="2 ASCII or wide chars, tabs and line breaks"),
            S("i04_mouse", 1, 3, 4, 2, 1, 0, 10, 3, 0, bounds="3 chars and line breaks in 4x2, scrolled by 0..=2 lines"),
            S("i04_mouse", 5, 2, 3, 2, 1, 0, 10, 0, 1, bounds="password mode"),
            S("i04_mouse", 1, 1, 2, 1, 2, 0, 10, 0, 0, t=60, bounds="two events on a char or a line break, in 2x1"),
            S("i04_cell", 69, 4, 5, 1, bounds="the char painted at the clicked cell, 4 chars in 5 columns"),
            S("i04_cell", 5, 5, 4, 2, bounds="the char painted at the clicked cell, 5 chars in 4x2"),
            S("i04_unfocused", 1, 2, 4, 1, bounds="keys without the focus"),
        ],
        thorough=[
            S("i04_mouse", 69, 3, 5, 2, 1, 0, 10, 2, 0, t=3600, bounds="3 chars in 5x2"),
            S("i04_mouse", 1, 3, 3, 2, 2, 0, 10, 2, 0, t=3600, bounds="two events on 3 chars"),
            S("i04_cell", 69, 6, 6, 2, t=3600, bounds="6 chars in 6x2"),
        ],
        outside="bigger texts and areas; where clicks on the scrollbar put the cursor is the place which would be under it",
    ),
}

NOT_APPLICABLE = {}
HOOKS = dict(guard="none", enable="the checks use the public API of /repo's crate only; no hook was needed", source_commits=[])
NOTES = "see DESIGN.md. Checks build in /verif/target (ignored by git). Exit 2 means the check itself failed."
