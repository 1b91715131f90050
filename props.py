"""Which harnesses decide which property, with which bounds."""
GROUPS = {"lester": dict(crate="vl", lib="lester")}
PROPS = {}


def run(fn, quick=None, thorough=None, covers=(), **kw):
    quick = quick or {}
    return dict(fn="vh_" + fn, quick=quick, thorough=quick if thorough is None else thorough, covers=list(covers), **kw)


def prop(pid, group, bounds, *runs, **kw):
    PROPS[pid] = dict(group=group, bounds=bounds, runs=list(runs), **kw)


prop("F01", "fonts",
     "files of every length up to the stated one with every byte free; six-table files with every table offset and the bytes after the directory free; "
     "files with the cmap / head / hhea / hmtx / maxp / name table contents free; larger files and larger tables are outside",
     run("font_any_short", dict(max=40), dict(max=100), [2]),
     run("font_any_offsets", dict(tail=4), dict(tail=12), [2]),
     run("font_any_tables", dict(free=0, bytes=28), dict(free=0, bytes=40), [1, 2, 3]),
     run("font_any_tables", dict(free=1, bytes=54), None, [1]),
     run("font_any_tables", dict(free=2, bytes=36), None, [1]),
     run("font_any_tables", dict(free=3, bytes=3), None, [1]),
     run("font_any_tables", dict(free=4, bytes=5), None, [2]),
     run("font_any_name", dict(len=2), dict(len=3), [1, 2]),
     run("font_enumerate_any", dict(format=12), None, [1]),
     run("font_enumerate_any", dict(format=4, span=1), dict(format=4, span=2), [1]))
prop("F02", "fonts",
     "format 4 with the stated number of segments (sorted, disjoint) and glyph array entries, format 12 with the stated number of groups; "
     "every segment/group field and every code point free; 16 (thorough: 40) segments and 60 (150) groups, fixed but for one of them",
     run("font_format4", dict(segments=2, glyphs=2), dict(segments=5, glyphs=5), [1, 2, 3, 4]),
     run("font_format4", dict(segments=1, glyphs=0), dict(segments=3, glyphs=4), [1, 2]),
     run("font_format4", dict(segments=3, glyphs=4), dict(segments=4, glyphs=3), [1, 2, 3, 4]),
     run("font_format4", dict(many=1, segments=16, glyphs=8), dict(many=1, segments=40, glyphs=8), [1, 2, 3, 4]),
     run("font_format12", dict(groups=3), dict(groups=6), [1, 2, 3]),
     run("font_format12", dict(many=1, groups=60), dict(many=1, groups=150), [1, 2, 3]))
prop("F03", "fonts",
     "up to two groups / segments of up to span+1 code points each, every field and the probed code point free",
     run("font_enumerate12", dict(groups=2, span=2), dict(groups=2, span=3), [1, 2, 3]),
     run("font_enumerate4", dict(segments=2, span=1), dict(segments=2, span=2), [1, 2, 3]),
     run("font_enumerate_any", dict(format=12), None, [1]),
     run("font_enumerate_any", dict(format=4, span=1), dict(format=4, span=3), [1]))
prop("F04", "fonts",
     "the six required tables plus the stated number of other tables with free tags and offsets anywhere in the sorted directory, or 40 (thorough: 200) mostly fixed ones after them; "
     "up to the stated number of sorted encoding records with free platform, encoding and subtable",
     run("font_table_lookup", dict(extra=2), dict(extra=4), [1]),
     run("font_table_lookup", dict(many=1, extra=40), dict(many=1, extra=200), [1]),
     run("font_cmap_selection", dict(records=3), dict(records=4), [1, 2, 3]))
prop("F05", "fonts",
     "every byte of head, hhea, maxp and hmtx free, up to the stated number of metrics records, every glyph id; advance widths are compared exactly for "
     "1, 32 and 1024 units per em (the other fields for every units-per-em value)",
     run("font_metrics", covers=[1]),
     run("font_widths", dict(hmetrics=3), dict(hmetrics=8), [1, 2, 3]))
prop("F06", "fonts",
     "the stated number of name records with every field free and the stated number of ASCII string bytes",
     run("font_name", dict(records=2, bytes=4), dict(records=3, bytes=5), [1, 2, 3, 4, 5]))

prop("P01", "pdf",
     "up to the stated number of streams and dictionaries in any order, stream lengths from a set up to 4000 bytes (thorough: 1 MB) with free first and last bytes, "
     "free dictionary bytes; 2000 pages; an output stream that fails after any number of bytes up to 4096",
     run("pdf_file", dict(objects=2, lens=6), dict(objects=3, lens=5), [1, 2, 3]),
     run("pdf_file", dict(objects=1, lens=7), dict(objects=2, lens=7), [1, 2]),
     run("pdf_many", dict(pages=2000), None, [1]),
     run("pdf_sink_error", covers=[1, 2]))
prop("P02", "pdf",
     "names and strings of every length up to the stated one with every byte free; every integer of up to the stated number of digits; every f32 (its decimal digits are outside); "
     "objects of every shape up to the stated depth and number of entries (with free bytes at depth 1, fixed awkward bytes at depth 2)",
     run("pdf_strings", dict(bytes=4), dict(bytes=8), [1, 2, 3]),
     run("pdf_numbers", dict(digits=3), dict(digits=4), [1, 2, 3]),
     run("pdf_floats", covers=[1, 2]),
     run("pdf_objects", dict(depth=1, width=1), dict(depth=1, width=2), [1, 2, 3]),
     run("pdf_objects", dict(depth=2, width=1, plain=1), dict(depth=2, width=2, plain=1), [1, 2, 3]))
prop("P03", "pdf",
     "up to the stated number of pages of every quarter-px size up to 8192 px, each with up to two rectangles of every quarter-px coordinates within +-8192 px; "
     "2000 pages, one of them free; numbers are compared as the f32 operands handed to the number formatter",
     run("pdf_pages", dict(pages=3, rects=2), dict(pages=4, rects=3), [1, 2, 3, 4]),
     run("pdf_many", dict(pages=2000), None, [1]))
prop("P04", "pdf",
     "the stated number of colour changes and paintings on one or two pages, colour components every multiple of 1/64 in 0..1, alphas from a set of awkward values; 1000 alphas on as many pages",
     run("pdf_colors", dict(steps=2, alphas=4, pages=2), dict(steps=2, alphas=5, pages=2), [1, 2]),
     run("pdf_colors", dict(steps=3, alphas=3, pages=1), dict(steps=4, alphas=3, pages=1), [1, 2]),
     run("pdf_colors", dict(steps=2, alphas=9, pages=1), dict(steps=3, alphas=9, pages=1), [1, 2]),
     run("pdf_many", dict(pages=1000, alphas=1000), None, [1]))
prop("P05", "pdf",
     "two pages with up to the stated number of text runs each, in either of two fonts, with every glyph id, every quarter-px origin within +-8192 px and font size up to 1024 px; "
     "270 fonts on 300 pages, one of them free",
     run("pdf_text", dict(runs=2, glyphs=1), dict(runs=2, glyphs=3), [1, 2]),
     run("pdf_text", dict(runs=1, glyphs=3), dict(runs=1, glyphs=6), [1, 2]),
     run("pdf_many", dict(pages=300, fonts=270), None, [1]))
prop("P06", "pdf",
     "fonts with up to the stated number of metrics records (from a set of awkward advances), one more glyph or none, one cmap group of one or two consecutive code points anywhere "
     "(glyph ids free) or of 99..201 fixed ones",
     run("pdf_font", dict(widths=2), dict(widths=4), [2]),
     run("pdf_font", dict(widths=1, unicode=1), None, [1, 2]),
     run("pdf_font", dict(widths=1, unicode=1, big=1), None, [3]),
     run("pdf_em_units", covers=[1]))
prop("L01", "web",
     "one block (width auto, 0..999 px or 25/150 %; each inline margin auto, -99..99 px or -25 %; padding 0..999 px or 50 %; border 0..99 px with and without a border style) "
     "on the 600 px page, with a child that shows its content box",
     run("web_inline_axis", dict(edges=0), None, [0, 1, 2]),
     run("web_inline_axis", dict(edges=1), None, [0, 1, 2]),
     run("web_inline_axis", dict(edges=2), None, [0, 1, 2]))
prop("L02", "web",
     "every tree of up to three (thorough: four) block boxes, with vertical margins of -99..99 px; two boxes with free padding (0..9 px), height (auto or 0..99 px) and display block or flow-root too; "
     "in three boxes one or two of these at a time; 24 (thorough: 60) siblings, nested boxes or both, one of them free",
     run("web_block_axis", dict(boxes=1, free=15), None, [1]),
     run("web_block_axis", dict(boxes=2, free=15), None, [1]),
     run("web_block_axis", dict(boxes=3, free=8), None, [1]),
     run("web_block_axis", dict(boxes=3, free=9, shape=1), dict(boxes=3, free=9), [1]),
     run("web_block_axis", dict(boxes=3, free=10, shape=0), dict(boxes=3, free=10), [1]),
     run("web_block_axis", dict(boxes=3, free=12), None, [1]),
     run("web_block_axis", dict(boxes=4, free=0), dict(boxes=4, free=8), [1]),
     *[run("web_many", dict(boxes=24, shape=i), dict(boxes=60, shape=i), [1]) for i in range(3)])
prop("L03", "web",
     "one absolutely positioned box after a sibling in a positioned or static block: on each axis, both offsets auto, -99..99 px or a percentage, size auto, 0..999 px or 50 %, "
     "margins auto or -99..99 px, padding 0..9 px; every tree of up to three (thorough: four) static, relative or absolute boxes with free sizes and offsets; "
     "one between texts of up to two words in a block of 0..99 px, inline or block-level, nested in an inline box or not; "
     "shrink-to-fit widths and boxes with both margins and a negative auto size are not decided",
     run("web_absolute", dict(axes=1), None, [1, 2]),
     run("web_absolute", dict(axes=2), None, [1, 2]),
     run("web_absolute", dict(axes=1, positioned=0, full=0), dict(axes=1, positioned=0), [1, 2]),
     run("web_absolute", dict(axes=2, positioned=0, full=0), dict(axes=2, positioned=0), [1, 2]),
     run("web_positioned_tree", dict(boxes=3), None, [0, 1, 2, 3]),
     run("web_positioned_tree", dict(boxes=2), dict(boxes=4, rich=0), [0, 1, 2]),
     run("web_absolute_inline", covers=[0, 1]))
prop("L04", "web",
     "one relatively positioned block with each offset auto, -99..99 px or a percentage, in a block of free width and height (auto or px), with a child and a following sibling",
     run("web_relative", covers=[1]))
prop("L05", "web",
     "one text run of up to the stated number of words (each from three lengths) in a block of 0..999 px, font size 16 px (thorough: 9, 16 or 40 px); one fixed text of 33 words in a block of 0..999 px",
     run("web_line_breaking", dict(words=3), dict(words=5, sizes=3), [0, 1, 2]),
     run("web_line_breaking", dict(words=1, sizes=3), None, [0]),
     run("web_long_text", dict(sizes=1), dict(sizes=3), [0, 1]),
     run("web_inline_boxes", dict(shape=0, words=2), dict(shape=0, words=4), [0, 1, 2]))
prop("L06", "web",
     "four nestings of up to three inline boxes with text of the stated number of words (each from three lengths) in a block of 0..999 px; each horizontal edge of each box 0..9 or 0..99 px, "
     "with or without relative positioning by 0..9 px; a run is broken only at its own spaces; vertical edges and mixed font sizes are outside",
     *[run("web_inline_boxes", dict(shape=i, words=2), dict(shape=i, words=4), [1]) for i in range(4)],
     *[run("web_inline_boxes", dict(shape=i, words=2, relative=1), dict(shape=i, words=3, relative=1), [1]) for i in range(4)])
prop("L07", "web",
     "the stated number of bytes, each a space, newline, tab or one of three letters, in one to three text nodes around inline element boundaries, on one line; "
     "any one character (but form feed and carriage return) between two letters, with or without spaces around it",
     run("web_any_character", covers=[0, 1]),
     run("web_white_space", dict(bytes=5, shape=0), dict(bytes=6, shape=0), [1]),
     run("web_white_space", dict(bytes=4, shape=1), dict(bytes=6, shape=1), [1]),
     run("web_white_space", dict(bytes=5, shape=2), dict(bytes=6, shape=2), [1]),
     run("web_white_space", dict(bytes=4, shape=3), dict(bytes=6, shape=3), [1]),
     run("web_white_space", dict(bytes=5, shape=4), dict(bytes=6, shape=4), [1]),
     run("web_white_space", dict(bytes=4, shape=5), dict(bytes=6, shape=5), [1]))
prop("L08", "web",
     "every tree of up to the stated number of elements, each displayed as inline, block, none, contents or flow-root, with text after and optionally before its children and top and left padding of 0..9 px "
     "(not on inline boxes)",
     run("web_box_generation", dict(elements=2), None, [0, 1, 2, 3, 4]),
     run("web_box_generation", dict(elements=3), dict(elements=4), [0, 1, 2, 3, 4]),
     run("web_box_generation", dict(elements=3, text=0), dict(elements=4, text=0), [0, 1, 2, 3, 4]))
prop("L09", "web",
     "every tree of the stated number of static, relative, absolute or floating blocks with heights and margins of 0..9 px; every way to split the work at every level into chunks and to merge neighbouring chunks",
     run("web_schedule", dict(boxes=2), None, [0, 1, 2]),
     run("web_schedule", dict(boxes=3), None, [3]),
     run("web_schedule", dict(boxes=3, few=1), dict(boxes=4, few=1), []))
prop("L10", "web",
     "every tree of the stated number of static, relative or absolute blocks, each with text before its children; "
     "CSS's other rules (text over the backgrounds of later blocks, the order of relative and absolute boxes among each other, z-index) are outside",
     run("web_paint_order", dict(boxes=4), dict(boxes=5), [1, 2, 3]))
prop("L11", "web",
     "every tree of up to three elements displayed as inline, block, none, contents or flow-root (of up to two, also relatively or absolutely positioned or floating) with text and free padding, rendered twice, and built and rendered again",
     run("web_repeat", dict(elements=2), None, [1]),
     run("web_repeat", dict(elements=3, few=1), dict(elements=3), [1]))
prop("L12", "web",
     "the root element, its body and a block in it: each static, relative or absolute (not shrink-to-fit), with height auto, 0..99 px or 50 %; one of them also with a width in px or percent "
     "and a percentage for one padding, margin or offset; the root with each display value. Quick: px heights and absolute positions for one of them only",
     *[run("web_percentages", dict(rich=i, few=1), dict(rich=i), [0, 1] if i == 1 else [0]) for i in (1, 2, 3)],
     *[run("web_percentages", dict(rich=3, few=1, display=i), dict(rich=1, few=1, display=i), [0]) for i in (1, 2, 3)],
     run("web_percentages", dict(rich=1, few=1, display=4), None, [2]))
prop("L13", "web",
     "four nestings of two inline boxes and text of the stated number of words (each from three lengths) in a block of 0..999 px, followed by another block; font sizes 15 or 5 px (thorough: or 40) of the block and each box; "
     "top and bottom paddings, borders or margins of 0..99 px of each box",
     *[run("web_stacked", dict(shape=i, words=2, sizes=2), dict(shape=i, words=2 if i == 3 else 3), [0, 1]) for i in range(4)])

prop("S01", "css",
     "two style rules of three kinds of selectors each in up to two style sheets and a style attribute, important or not, every order; three declarations of overlapping longhands and shorthands in one block; 24 rules of three specificities in various orders, one of them with any value; "
     "the user agent's style sheet against the author's",
     run("css_cascade", dict(rules=2), dict(rules=3, few=1), [0, 1, 2, 3, 4]),
     run("css_block", dict(declarations=2), dict(declarations=3), [1, 2]),
     run("css_many_rules", dict(rules=24), dict(rules=40), [1]),
     run("css_origin", covers=[0, 1, 2]))
prop("S02", "css",
     "three nested elements, each with a declaration of the property (a value, inherit, initial or unset) or none, for eight properties, two of them inherited; values of one or two digits",
     *[run("css_inherit", dict(levels=3, property=i), dict(levels=4, property=i), []) for i in range(8)])
prop("S03", "css",
     "numbers of one to three digits of either sign with every unit of up to three letters in any case, and percentages, for eleven properties and shorthands",
     run("css_units", dict(letters=0), None, [3, 4]),
     run("css_units", dict(letters=1), None, [4]),
     run("css_units", dict(letters=2), None, [1, 2, 4]),
     run("css_units", dict(letters=3), None, [4]),
     run("css_ranges", dict(digits=1), dict(digits=3), [1, 2]))
prop("S04", "css",
     "margin, padding, border-width and border-style with one to four values (a digit in px, em, percentages, keywords), any one side overridden by its longhand afterwards, the case of up to one letter per name free; "
     "border-top with every subset and order of its parts, important or not",
     *[run("css_sides", dict(which=i, case=0), dict(which=i, case=1), [1, 2, 3, 4]) for i in range(4)],
     run("css_border_side", dict(case=1), dict(case=2), [0, 1]))
prop("S05", "css",
     "class, id and attribute selectors with operands of up to two bytes (letters and a space) against values of up to the stated number of ASCII bytes, with and without the i flag; attributes and elements of other namespaces in an XML document",
     *[run("css_attributes", dict(kind=i, value=4), dict(kind=i, value=5), [1] if i == 2 else [0, 1]) for i in range(9)],
     run("css_namespaces", covers=[0, 1]))
prop("S06", "css",
     "every tree of the stated number of elements, with optional texts and comments, against selectors with each combinator and structural pseudo-class; nth-child formulas with a and b from sets of either sign, in four spellings, among up to four elements or twenty (thorough: forty) fixed ones",
     run("css_structure", dict(elements=2, contents=4, first=6), dict(elements=2, contents=4), [0, 1]),
     run("css_structure", dict(elements=3), None, [0, 1]),
     run("css_nth", dict(elements=3), dict(elements=4), [0, 1]),
     run("css_nth", dict(elements=20, many=1), dict(elements=40, many=1), [0, 1]))
prop("S07", "css",
     "nine kinds of garbage after the value of ten declarations; values of the stated number of ASCII bytes for fourteen properties; style sheets that start with that many ASCII bytes and continue in five ways",
     run("css_trailing", covers=[1]),
     *[run("css_any_value", dict(name=i, bytes=2), None, [2] if i in (4, 6, 7) else [1, 2]) for i in range(14) if i not in (3, 4, 12, 13)],
     *[run("css_any_value", dict(name=i, bytes=1, split=1), dict(name=i, bytes=2, split=1), [2] if i == 4 else [1, 2]) for i in (3, 4, 12, 13)],
     *[run("css_any_sheet", dict(tail=i, split=1, bytes=1), dict(tail=i, split=1, bytes=2), [2]) for i in (1, 3, 4)],
     *[run("css_any_sheet", dict(tail=i, split=1), None, [1, 2] if i == 0 else [2]) for i in (0, 2)])
prop("S08", "css",
     "hexadecimal colours of the stated number of digits with every byte free; rgb, rgba, hsl and named colours and currentColor from a list, with free components",
     *[run("css_hex_colors", dict(digits=i), None, [0, 1]) for i in (2, 3, 4, 5, 6)],
     run("css_hex_colors", dict(digits=8), None, [0, 1]),
     run("css_colors", covers=[1]))

prop("D01", "dom",
     "trees of three elements with texts and one tree operation of the HTML parser, of two elements and two operations; two later sets of attributes of one element; four comments, processing instructions and texts; "
     "every sequence of the stated number of tags out of twelve, with texts between",
     run("dom_operations", dict(elements=3, operations=1), dict(elements=4, operations=1), [1, 2, 3, 4, 5]),
     run("dom_operations", dict(elements=2, operations=2), dict(elements=3, operations=2, text=0), [1, 2, 3, 4, 5]),
     run("dom_attributes", covers=[1]),
     run("dom_other_nodes", dict(nodes=4), dict(nodes=5), [1, 2]),
     run("dom_misnested", dict(tags=4), dict(tags=5), [1]))
prop("D02", "dom",
     "two style elements (with any eight ASCII bytes as type, none, or two others; a text in one or two parts) or three plain ones, each anywhere among three elements, before another one, or removed; "
     "the stated number of link elements (or others of the same name or attributes) anywhere among each other",
     run("dom_stylesheets", dict(styles=2), None, [0, 1]),
     run("dom_stylesheets", dict(styles=3, types=0, plain=1), None, [0, 1]),
     run("dom_links", dict(links=2), None, [1, 2]),
     run("dom_links", dict(links=2, other=0), dict(links=3, other=0), [1, 2]))
prop("D03", "dom",
     "well-formed HTML and XML documents of the stated number of start tags, end tags, texts, character references, comments, CDATA sections and processing instructions in every order, with free letters; "
     "one or two bytes of any value in eight contexts of HTML, one in eight contexts of XML",
     run("dom_parse_tree", dict(items=2), dict(items=3), [1, 2]),
     run("dom_parse_tree", dict(items=3, xml=1), dict(items=4, xml=1), [1, 2]),
     run("dom_any_html", dict(bytes=1, before=0), dict(bytes=2, before=0, paint=0), [1]),
     *[run("dom_any_html", dict(bytes=1, before=i, after=[0, 0, 1, 1, 1, 2, 0, 0][i]), dict(bytes=2, before=i, paint=0), [1]) for i in range(1, 8)],
     run("dom_any_html", dict(bytes=2, before=5, paint=0), None, [1]),
     run("dom_any_html", dict(bytes=2, before=6, paint=0), None, [1]),
     *[run("dom_any_xml", dict(before=i, after=[0, 1, 2, 3, 3, 4, 5, 1][i]), None, [2] if i in (0, 7) else [1, 2] if i != 6 else []) for i in range(8)])

prop("T01", "text",
     "texts of up to the stated number of words with the stated separators; any font size from 4 to 40 px in quarters of a px (free=0) or any widths of the glyphs (free=1); "
     "line heights 1, 1.5 and 2, pages and margins from small sets; justified lines of up to three segments (two gaps)",
     run("text_pages", dict(words=3, free=0, separators=4, page_heights=3), dict(words=3, free=0, separators=4, page_heights=4, page_widths=3, heights=3, margins=2), [1, 2, 3]),
     run("text_pages", dict(words=3, free=0, wide=1, heights=3, margins=3, page_widths=3, page_heights=4, separators=2), dict(words=4, free=0, wide=1, heights=2, margins=2, page_widths=3, page_heights=2, separators=2), [1, 2, 3]),
     run("text_pages", dict(words=3, free=1, page_heights=2, separators=3), dict(words=3, free=1, page_widths=3, page_heights=3, separators=3, sizes=2), [1, 2]),
     run("text_pages", dict(words=4, free=1, page_widths=3, page_heights=1, separators=1), dict(words=4, free=1, page_widths=3, page_heights=2, separators=2), [1, 3]))
prop("T02", "text",
     "up to the stated number of operations with seven characters (mapped and not), all glyph widths free; texts of up to the stated number of characters",
     run("text_shaping", dict(operations=4), dict(operations=5), [1, 2]),
     run("text_naive_shape", dict(bytes=3), dict(bytes=5), [1]))
prop("G01", "text",
     "all five writing modes in both directions; lengths n/4 px up to 1024 px; to_physical only for the mode it is implemented for",
     run("geom_modes", covers=[1, 2, 3, 4, 5]),
     run("geom_sums", covers=[1]),
     run("geom_auto", covers=[1]))

LESTER = "cairo and poppler-glib are stand-ins in the harness that behave as documented and check how they are used; "
prop("R01", "lester",
     LESTER + "up to the stated numbers of chunks, bytes in each and steps of the stream (full, one byte, none, interrupted, error) before it succeeds throughout; any status of cairo; "
     "panics of the stream are outside (the code is compiled to abort)",
     run("lester_read_png", dict(chunks=2, bytes=2, steps=3), dict(chunks=3, bytes=3, steps=4), [1, 2, 3]),
     run("lester_write_png", dict(chunks=2, bytes=2, steps=3), dict(chunks=3, bytes=3, steps=4), [1, 2, 3]))
prop("R02", "lester",
     LESTER + "one of page width, page height and the two resolutions is any double, the others from sets of the stated size; every option; any status at any of the steps",
     run("lester_render", dict(few=1), dict(few=3), [1, 2]),
     run("lester_render_defaults", covers=[1]))
prop("R03", "lester",
     LESTER + "surfaces of any size asked for; pixels of up to the stated width and height, any format and strides around the expected one; every number for each integer conversion",
     run("lester_surface", covers=[1, 2]),
     run("lester_pixels", dict(size=3), dict(size=5), [1, 2]),
     run("lester_convert", covers=[1, 2, 3, 4]))
prop("R04", "lester",
     LESTER + "any history of up to the stated number of steps over documents of up to the stated number of pages; strings of the stated number of free bytes",
     run("lester_pages", dict(operations=3, pages=3), dict(operations=4, pages=4), [1, 2]),
     run("lester_document", dict(text=3), dict(text=5), [1, 2, 3]))
