#!/usr/bin/env python3
"""writes properties.jsonl (the single place where the property texts live)"""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("F01", "Cutting a string to a column count keeps the longest prefix that fits",
 "Cutting a string to a number of screen columns returns the longest prefix, ending on a character boundary, whose display width (tab counted as two columns, backspace as minus one) stays within the limit at every point. The column count returned with it is exactly the display width of what is returned and never exceeds the limit. The text returned is that prefix with each tab replaced by two spaces, and the byte count, owned-string and borrowed-string variants agree.",
 ["inputs"], "every Unicode string (up to the explored length) and every column limit",
 "The existing test tries five literal strings; nothing covers tabs, backspaces, zero-width or double-width characters at every position against every limit.",
 ["src/fit/str_fit.rs"], [("StrFit::from", "src/fit/str_fit.rs"), ("StrFit::make_cow / make_string / count_fitting", "src/fit/str_fit.rs")],
 observe=["returned (string, columns) and (bytes, columns)"])

prop("F02", "A column-limited writer never prints more columns than allowed",
 "Whatever sequence of strings, characters, fillings and repetitions is queued on a column-limited writer, the total display width of the text that reaches the underlying writer never exceeds the limit, and the remaining allowance is always the limit minus the width already written. An item is written in full as long as it fits in the remaining allowance (strings are otherwise cut to what fits), tabs reach the terminal as spaces, and styled and unstyled variants print the same text.",
 ["inputs", "histories"], "every limit, every sequence of write operations and every printable string or character, up to the explored lengths",
 "No existing test exercises the crop writer at all; the guarantee is over arbitrary interleavings of write operations.",
 ["src/fit/crop_writer.rs", "src/fit/filling.rs", "src/fit/str_fit.rs"],
 [("CropWriter::queue_*", "src/fit/crop_writer.rs"), ("CropWriter::repeat / fill", "src/fit/crop_writer.rs"), ("Filling::queue_*", "src/fit/filling.rs")],
 state=[("allowed", "columns which may still be written", "src/fit/crop_writer.rs")], observe=["bytes received by the wrapped writer", "remaining allowance"])

prop("F03", "Padding and filling produce exactly the requested width",
 "Completing content to a width adds exactly the missing columns on the side(s) asked by the alignment (centered content is off-center by at most one column), and nothing when the content is already as wide. A snippet written with a fill width occupies exactly that many columns for every width and alignment, a string written with a spacing occupies exactly the spacing width, and a filling prints its character exactly the number of times asked.",
 ["inputs", "configurations"], "every width, alignment, content and fill count up to the explored bounds (arbitrary 64-bit widths for the completion arithmetic)",
 "No existing test covers spacing, filling or fill-width writing; the guarantee is over all (content, width, alignment) triples.",
 ["src/spacing.rs", "src/fit/filling.rs", "src/composite.rs", "src/skin.rs"],
 [("Spacing::completions", "src/spacing.rs"), ("Spacing::write_counted_str", "src/spacing.rs"), ("FmtComposite::fill_width", "src/composite.rs"), ("MadSkin::write_composite_fill", "src/skin.rs"), ("Filling::queue_*", "src/fit/filling.rs")],
 observe=["text reaching the writer"])

prop("F04", "Shortening a snippet with ellipsis fits the width and only elides",
 "Shortening a styled snippet to a maximum width always ends normally and yields a snippet whose display width, which it also reports, is at most that width; a snippet which already fits is left untouched. What remains is the original text, in order and with its styles, in which contiguous parts were replaced by an ellipsis (a left-aligned snippet keeps its start and loses its end, a right-aligned one the contrary). A non-empty snippet is never shortened to nothing when at least one column is available.",
 ["inputs", "configurations"], "every snippet of compounds (any characters, any styles, empty compounds included), every width and every alignment, up to the explored lengths",
 "The existing test checks the width of three literal sentences at a handful of widths, and never checks what is left of the text.",
 ["src/fit/composite_fit.rs", "src/composite.rs"], [("Fitter::fit", "src/fit/composite_fit.rs"), ("Zone::cut", "src/fit/composite_fit.rs"), ("FmtComposite::fit_width / fill_width", "src/composite.rs")],
 observe=["compounds and visible length of the fitted composite"])

prop("F05", "Wrapped text never exceeds the requested width",
 "Formatting any markdown text for a width of at least three columns ends normally, and no resulting line, once rendered with its bullets, indents, quote marks, margins and alignment, is wider than that width, unless the marker of the line and a single character can't fit. Each line's reported length is its real display width.",
 ["inputs", "configurations"], "every markdown source and every width within the explored bounds, for both list indentation modes and any margins",
 "The existing wrapping tests use two literal texts with the default skin; wide characters, nested lists, quotes, code blocks and margins at narrow widths are not reached.",
 ["src/fit/wrap.rs", "src/tokens.rs", "src/text.rs", "src/code.rs", "src/line_style.rs", "src/skin.rs"],
 [("hard_wrap_composite", "src/fit/wrap.rs"), ("hard_wrap_lines", "src/fit/wrap.rs"), ("tokenize", "src/tokens.rs"), ("LineStyle::margins_in", "src/line_style.rs"), ("write_fmt_composite", "src/skin.rs")],
 observe=["lines of the formatted text", "rendered lines"])

prop("F06", "Wrapping loses, reorders or restyles no visible character",
 "Wrapping a text keeps every non-whitespace character exactly once, in order, with the bold, italic, strikeout and code style it has in the source; whitespace is only ever dropped where a line is broken, and never changed elsewhere. The first line produced from a source line keeps its kind (header, list item, quote, code, paragraph) and its continuation lines have the matching continuation kind. A line which already fits is left as it is.",
 ["inputs", "configurations"], "every source line (characters, styles and kinds) and every wrapping width within the explored bounds",
 "Existing tests only compare line lengths on two literals (and one compound); content and style preservation over all inputs isn't checked.",
 ["src/fit/wrap.rs", "src/tokens.rs", "src/text.rs"],
 [("hard_wrap_composite", "src/fit/wrap.rs"), ("follow_up_composite", "src/fit/wrap.rs"), ("tokenize / Token::to_compound", "src/tokens.rs")],
 observe=["compounds of the wrapped lines against those of the unwrapped text"])

prop("T01", "Column fitting always fits, keeps three columns each, reduces only if needed",
 "Given the observed cell widths of a table and an available width of at least four columns per table column plus one, the computed column widths with their borders never exceed the available width and are each at least three. If the natural widths fit they are used unchanged and nothing is reported as reduced; otherwise no column gets wider than its natural width and the whole available width is used. A width too small for the number of columns is refused.",
 ["inputs"], "every number of columns and observations, every cell width and every available width within the explored bounds",
 "No existing test covers table fitting; the arithmetic (proportional reductions with rounding) must hold for all widths.",
 ["src/fit/tbl_fit.rs"], [("TblFit::fit", "src/fit/tbl_fit.rs"), ("TblFit::new", "src/fit/tbl_fit.rs"), ("TblFit::see_cell", "src/fit/tbl_fit.rs")],
 observe=["TblFitResult"])

prop("T02", "All lines of a rendered table have the same width, within the available one",
 "Formatting a text with tables (ragged rows, missing cells, rules anywhere, any alignment) ends normally at any width, and all lines of a table are rendered with the same width, at most the available one as soon as a column fits (five columns), with the column separators at the same columns on every line. When no column has to be dropped, every cell keeps all its non-whitespace characters, in order, in its own column; when columns have to be dropped, they are the last ones.",
 ["inputs", "configurations"], "every table shape, cell content, alignment and available width within the explored bounds",
 "No existing test renders a table; ragged rows with narrow widths only misbehave for specific shapes.",
 ["src/tbl.rs", "src/skin.rs", "src/fit/tbl_fit.rs", "src/fit/wrap.rs"],
 [("Table::fix_columns", "src/tbl.rs"), ("find_tables", "src/tbl.rs"), ("write_fmt_line", "src/skin.rs")],
 observe=["rendered lines of the formatted text"])

prop("R01", "Rendering prints the text itself, styled by composition of the skin styles",
 "Rendering a markdown snippet or unwrapped line (other than a table row or rule) prints exactly the characters of the parsed text, in order, preceded only by the marker of its line kind (indent and bullet for list items, mark for quotes) and nothing else. Each character carries the attributes of its line style plus those of each of its own styles (italic, strikeout, bold, code), with each color taken from the last of those styles, in that order, defining it (a part of the text which is just an ellipsis has the ellipsis style instead).",
 ["inputs", "configurations"], "every snippet of characters and styles, every line kind and every assignment of colors and attributes to the skin styles within the explored bounds",
 "No existing test looks at the rendered escape sequences; styles interact in combinations no test enumerates.",
 ["src/skin.rs", "src/compound_style.rs", "src/inline.rs", "src/text.rs"],
 [("MadSkin::write_fmt_composite", "src/skin.rs"), ("MadSkin::compound_style", "src/skin.rs"), ("CompoundStyle::overwrite_with", "src/compound_style.rs")],
 observe=["bytes written, interpreted by a terminal model"])

prop("R02", "Template arguments are inserted verbatim and never interpreted",
 "Rendering an inline template with arguments prints the template with each placeholder replaced by the exact characters of its argument, whatever markdown or placeholder-like characters the argument holds, and the styles of the printed characters are those of the template only (but for an argument which is just an ellipsis, which takes the ellipsis style). Arguments may be repeated, used in any order or left unused.",
 ["inputs"], "every argument string within the explored length, for templates with styled, repeated, unordered and missing placeholders",
 "No existing test renders a template with hostile arguments.",
 ["src/macros.rs", "src/skin.rs"], [("mad_write_inline! / mad_print_inline!", "src/macros.rs"), ("MadSkin::write_composite", "src/skin.rs")],
 observe=["bytes written, interpreted by a terminal model"])

prop("R03", "Styles compose as overlays and styled characters stay consistent",
 "Overlaying a style on another takes each color from the overlay when it defines it and keeps the other one otherwise, and yields the union of the attributes. After any sequence of changes of its character, colors, style or blending, a styled character prints itself (alone, repeated, queued or displayed) with exactly the character and style it reports. Blending with a weight of zero keeps each defined color and with a weight of one moves each defined color (foreground and background) to the destination color (up to the rounding of the color conversions, at most 3 of 255 per channel), never changing the attributes and leaving undefined colors undefined.",
 ["inputs", "histories"], "every combination of colors and attributes and every sequence of style modifications within the explored lengths",
 "No existing test covers style composition, blending or the redundant state of styled characters.",
 ["src/compound_style.rs", "src/styled_char.rs", "src/line_style.rs"],
 [("CompoundStyle::overwrite_with", "src/compound_style.rs"), ("CompoundStyle::blend_with", "src/compound_style.rs"), ("StyledChar setters", "src/styled_char.rs")],
 state=[("styled_char", "redundant rendering of the char with its style", "src/styled_char.rs")], observe=["getters", "bytes written"])

prop("R04", "Style, color and alignment descriptions survive a write/parse round trip",
 "Writing any skin element (color, attribute, alignment, compound style, line style with margins, styled character, scrollbar style) to its textual form and parsing that text back yields an equal element, for every color, attribute set, alignment, margin and character which the textual form can express, and serializing a whole skin with serde then deserializing it yields an equal skin. The documented forms of the colors (names, grayscale levels, ANSI codes, decimal and hexadecimal RGB, in any case) give the right color. Parsing arbitrary text always ends with a value or an error, never with a crash.",
 ["inputs"], "every color (named, gray, ANSI, RGB), every set of supported attributes, alignment, margins and marker character; every short string for the parser",
 "The existing round trip test serializes five hand-made skins, using few of the colors and attributes.",
 ["src/parse/mod.rs", "src/parse/parse_color.rs", "src/parse/parse_attribute.rs", "src/parse/parse_align.rs", "src/parse/parse_compound_style.rs", "src/parse/parse_line_style.rs", "src/parse/parse_styled_char.rs", "src/serde/serde_scrollbar_style.rs", "src/serde/serde_skin.rs"],
 [("parse_style_token(s)", "src/parse/mod.rs"), ("write_color / parse_color", "src/parse/parse_color.rs"), ("PushStyleTokens", "src/parse/mod.rs")],
 observe=["parsed values"])

prop("G01", "Areas and scrollbars are geometrically sound",
 "A point is reported inside an area exactly when its coordinates are within its bounds, and limiting the width of an area keeps it inside the original, centered within one column, at most as wide as asked, and unchanged if it was narrow enough. A scrollbar exists exactly when the content is taller than the available height; its thumb is then a non-empty interval inside the track, touches the top of the track exactly when not scrolled and the bottom exactly when scrolled to the end (for tracks taller than three), and moves monotonically with the scroll.",
 ["inputs"], "every area, point, content height and scroll position within the explored ranges (arbitrary 16-bit areas; any scroll inside the content)",
 "There is no test for areas or scrollbars; rounding and boundary cases depend on specific (scroll, content, height) triples.",
 ["src/area.rs"], [("compute_scrollbar", "src/area.rs"), ("Area::contains / pad / pad_for_max_width", "src/area.rs")],
 observe=["returned positions"])

prop("V01", "A scrollable text stays within its scroll bounds and reacts as asked",
 "After any sequence of scroll operations (lines, pages, set, keys) a text view's scroll (in an area of at least a row) lies between zero and the content height minus the area height (zero when everything fits). Each operation moves by exactly the lines or pages asked, clamped to those bounds, never crashes whatever its amount, and line, page and key operations report a change exactly when the scroll changed. A markdown-owning view behaves the same, and its scroll remains valid after a resize followed by any scroll operation.",
 ["histories", "inputs"], "every content height, area height, starting scroll and every sequence of operations with any 32-bit amounts within the explored lengths",
 "There is no test of views; the guarantee is over operation histories and extreme amounts.",
 ["src/views/text_view.rs", "src/views/mad_view.rs"],
 [("TextView::set_scroll / try_scroll_* / line_* / page_*", "src/views/text_view.rs"), ("MadView::*", "src/views/mad_view.rs")],
 state=[("scroll", "number of lines hidden at the top", "src/views/text_view.rs")], observe=["scroll", "returned booleans"])

prop("V02", "A text view paints exactly its area, with the right lines",
 "Rendering a scrollable text, formatted for its area (of at least four columns), writes for each row of the area, exactly the cells of that row (all the columns of the area, starting at its left), and nothing outside the area. Row j shows line scroll+j of the formatted text (blank when there is none), and the last column shows the scrollbar thumb or track exactly when there is a scrollbar.",
 ["inputs", "histories"], "every text, area, scroll position and scrollbar setting within the explored bounds",
 "No existing test renders a view.",
 ["src/views/text_view.rs", "src/views/mad_view.rs", "src/displayable_line.rs", "src/skin.rs", "src/fit/filling.rs"],
 [("TextView::write_on", "src/views/text_view.rs"), ("MadSkin::write_in_area_on", "src/skin.rs"), ("DisplayableLine", "src/displayable_line.rs")],
 observe=["bytes written, interpreted by a terminal model"])

prop("V03", "List view selection and scroll stay valid through any history",
 "After any sequence of row additions, clearing, filtering, sorting, selection moves and scrolls, no operation crashes, the selection is nothing or one of the rows which pass the filter, and the counts of displayed and total rows are exact. Selecting next or previous moves to the neighbour among displayed rows, wrapping around, selecting first or last goes to the ends, and the selected row, after a selection move, is among the rows painted (in an area of at least three rows).",
 ["histories"], "every sequence of operations (row values, filters, area heights, scroll amounts) within the explored lengths",
 "There is no test of the list view; defects need specific histories (filtering after selecting, scrolling a short list...).",
 ["src/views/list_view.rs"],
 [("ListView::try_select_next / select_first_line / select_last_line", "src/views/list_view.rs"), ("ListView::make_selection_visible", "src/views/list_view.rs"), ("ListView::try_scroll_lines", "src/views/list_view.rs"), ("ListView::set_filter / add_row", "src/views/list_view.rs")],
 state=[("selection", "index of the selected row", "src/views/list_view.rs"), ("scroll", "first row painted", "src/views/list_view.rs")],
 observe=["get_selection", "row_counts", "bytes written"])

prop("V04", "A list view paints aligned columns inside its area, in order",
 "Rendering a list view, in an area of at least three rows, writes only inside its area: a title line, a separator line and one line per displayed row from the scroll position on, in order and without the filtered-out rows. Every column occupies exactly its width on each of those lines, widths lie between the minimum and maximum of the column, and their sum with separators and scrollbar fits the area whenever the minimums do.",
 ["inputs", "histories"], "every list of rows, filter, column width limits, area and scroll within the explored bounds",
 "No existing test renders a list view.",
 ["src/views/list_view.rs", "src/spacing.rs"],
 [("ListView::write_on", "src/views/list_view.rs"), ("ListView::update_dimensions", "src/views/list_view.rs")], observe=["bytes written, interpreted by a terminal model"])

prop("I01", "Editing an input field behaves as editing a text at a cursor",
 "Whatever the sequence of insertions, deletions (left, below, words), new lines, cursor moves and content changes, the input field's content and cursor are those of a plain text edited at a position: insertions add the characters before the cursor and advance it, deletions remove exactly the neighbouring character (joining lines at line ends), vertical moves keep the column or go to the end of the line, moves change only the position, and a false return means nothing changed. The cursor always designates a place of the text and no operation crashes.",
 ["histories", "inputs"], "every initial text and every sequence of edit operations with any characters within the explored lengths",
 "Existing tests follow three hand-written monoline scenarios; multi-line content and interleavings aren't reached.",
 ["src/views/input_field_content.rs", "src/views/input_field.rs"],
 [("InputFieldContent::insert_* / del_* / move_*", "src/views/input_field_content.rs"), ("InputField::apply_keycode_event", "src/views/input_field.rs")],
 state=[("pos", "cursor position", "src/views/input_field_content.rs"), ("lines", "content", "src/views/input_field_content.rs")], observe=["get_content", "cursor_pos", "returned booleans"])

prop("I02", "Cutting or replacing a selection removes exactly what copying returns",
 "Whatever the content and the selection (made in either direction, over any number of lines, by keys or mouse), cutting or deleting the selection removes from the content exactly the text which copying it returns, leaves everything else, and puts the cursor where that text started with no selection left. Replacing a selection puts the new text at that place, and exchanging a line with its neighbour only exchanges those two lines and keeps the cursor on the moved line.",
 ["histories", "inputs"], "every content, every pair of selection ends and every way of removing it within the explored lengths",
 "Existing tests only check that two deletions don't crash; multi-line selections aren't tested.",
 ["src/views/input_field_content.rs", "src/views/input_field.rs"],
 [("InputFieldContent::del_selection / selection_string", "src/views/input_field_content.rs"), ("InputField::cut_selection / replace_selection", "src/views/input_field.rs"), ("InputFieldContent::swap_lines", "src/views/input_field_content.rs")],
 state=[("selection_tail", "other end of the selection", "src/views/input_field_content.rs")], observe=["copy_selection", "get_content", "cursor_pos"])

prop("I03", "An input field paints exactly its area and keeps its cursor visible",
 "After any sequence of edits, moves, key or mouse events and area changes, rendering an input field fills exactly the cells of its area and, when it's focused and the cursor wasn't scrolled out of view with the wheel, shows the cursor: the returned terminal position is inside the area and is the cell painted with the cursor style. Each cell shows the character of the content at the place given by the scroll, only ellipsis (in the first or one of the last two columns of hidden text), padding, tabs (shown as spaces) and scrollbar excepted, and password mode never shows a content character.",
 ["histories", "inputs"], "every content, cursor position, area size and event history within the explored bounds",
 "No existing test renders an input field.",
 ["src/views/input_field.rs", "src/views/input_field_content.rs"],
 [("InputField::fix_scroll", "src/views/input_field.rs"), ("InputField::display_on", "src/views/input_field.rs")],
 state=[("scroll", "hidden columns and lines", "src/views/input_field.rs")], observe=["bytes written, interpreted by a terminal model", "returned cursor position"])

prop("I04", "Clicks and mouse events in an input field act on the character under the pointer",
 "A left click on a focused input field puts the cursor on the character displayed at the clicked cell, or at the end of the line when clicking after it, and on the last line when clicking below it; clicking an unfocused field only focuses it. Events outside the area are ignored and reported as unused, dragging extends the selection to the pointer, a double click selects the word around it, and wheel events move the scroll by one line without leaving the content.",
 ["histories", "inputs"], "every content, area, scroll and mouse event within the explored bounds",
 "No existing test applies mouse events.",
 ["src/views/input_field.rs", "src/views/input_field_content.rs"],
 [("InputField::apply_mouse_event / apply_click_event", "src/views/input_field.rs"), ("Line::col_to_char_idx", "src/views/input_field_content.rs")],
 observe=["cursor_pos", "copy_selection", "scroll", "returned booleans"])

prop("W01", "Progress bars have the right length for every part",
 "For every part between zero and one and every length, a progress bar never holds more characters than its length, its filled characters are complete blocks followed by at most one partial block, and the filled amount is the part of the length within one eighth of a character. A bar is empty at zero, full at one, and never shrinks when the part grows.",
 ["inputs"], "every 32-bit float in [0,1] and every bar length within the explored range",
 "There is no test of progress bars; rounding cases are specific floats.",
 ["src/views/progress.rs"], [("ProgressBar::fmt", "src/views/progress.rs")], observe=["displayed string"])

prop("W02", "Drawing a rectangle paints its border, its optional filling and nothing else",
 "Drawing a rectangle of at least two columns and two rows writes its four corners at the corners of the area, its sides along the edges, spaces in all inner cells when filled and nothing there otherwise, always with the rectangle's colors and never outside of the area.",
 ["inputs", "configurations"], "every position and size within the explored range, border style and filling",
 "No existing test draws a rectangle.",
 ["src/rect.rs"], [("Rect::draw", "src/rect.rs")], observe=["bytes written, interpreted by a terminal model"])

prop("Q01", "Asking a question only ever returns a declared or default answer",
 "Asking a question reads lines until one is understood: it returns the default answer when there is one and the line is blank, else the key which equals the line without its trailing whitespace, and any other line is refused, which the user is told, and asked again. The answer returned is thus always a declared key or the default, for the first input line that qualifies; when the input ends before, the default is returned if there is one, and an error otherwise. The question and the proposed answers, with their keys, are printed first, and the asking macro runs the block of the answer.",
 ["inputs", "histories"], "every sequence of typed lines within the explored lengths, with and without default, with keys of any characters",
 "There is no test of questions; it needs arbitrary user input.",
 ["src/ask.rs"], [("Question::ask", "src/ask.rs"), ("Question::has_exotic_default", "src/ask.rs")], observe=["returned answer", "standard output"])

prop("E01", "Terminal events are delivered in order, once, with the right click flags",
 "The event source delivers every terminal event that its options don't discard, exactly once and in order, counts the delivered ones, and waits for permission before reading the next one. A complete escape sequence is delivered once, whole, on its own channel (unless ten wait there already) and not as key events, while an interrupted one is delivered as the keys it was made of, before the interrupting event. A left button event is flagged as double click exactly when the previous left release was at the same place less than 700 ms before.",
 ["histories", "schedules"], "every sequence of key, mouse and resize events with any times, for every combination of options, within the explored lengths",
 "The event source needs a terminal, no test exercises it; the guarantee is over event histories and timings.",
 ["src/events/event_source.rs", "src/events/timed_event.rs", "src/events/escape_sequence.rs"],
 [("EventSource::with_options (listening loop)", "src/events/event_source.rs"), ("TimedEvent::as_click / is_key", "src/events/timed_event.rs")], observe=["received events and sequences", "shared event count"])

prop("E02", "Tickers send exactly the ticks asked and stop exactly the beams asked",
 "A beam started for n ticks sends its payload exactly n times, one per elapsed period, unless it is stopped before; a one-shot beam sends it once. Stopping a beam by its id prevents every further tick of that beam and of no other one, and stopping all beams or dropping the ticker stops every beam.",
 ["histories", "schedules"], "every set of beams, counts and stop histories, and every point at which a stop arrives, within the explored bounds",
 "Ticks are produced by threads, no test exercises them.",
 ["src/events/tick_beam.rs"], [("Ticker::start_beam", "src/events/tick_beam.rs"), ("Ticker::stop_beam / stop_all_beams / drop", "src/events/tick_beam.rs")], observe=["ticks received"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
