NOTESTS = "The repository has no test of this; "
# ---------------------------------------------------------------- fonts
p("F01", "No font file makes the parser crash",
  "Parsing arbitrary bytes as a font, and using a font that parsed (glyph lookup, widths, metrics, enumeration of its characters), gives a value or an error: it never panics, reads out of bounds or overflows.",
  ["inputs"], "every file up to the bounds, every character, every glyph id",
  "The tests load a handful of good fonts; truncated, overlapping and hostile tables are never tried.",
  ["victor/src/fonts/mod.rs", "victor/src/fonts/parsing.rs", "victor/src/fonts/cmap.rs", "victor/src/fonts/tables.rs"],
  [("checked reads of big-endian values at positions", "fonts/parsing.rs Position::read_from, Slice"), ("table directory search", "fonts/mod.rs find_table"), ("cmap subtables", "fonts/cmap.rs")],
  ["Font::parse", "Font::glyph_id", "Font::glyph_width", "Font::each_code_point"], HOOK)
p("F02", "Glyph lookup follows the cmap of the font",
  "The glyph used for a character is the one the font's character map (format 4 or 12) assigns by the OpenType specification, and glyph 0 when it assigns none.",
  ["inputs"], "every well-formed subtable up to the bounds, every code point",
  NOTESTS + "segment and group boundaries, deltas that wrap and glyph-array indirections need a symbolic table.",
  ["victor/src/fonts/cmap.rs"],
  [("format 4 lookup", "fonts/cmap.rs Format4::get"), ("format 12 lookup", "fonts/cmap.rs Format12::get"), ("binary search", "fonts/parsing.rs Slice::binary_search_by_key")],
  ["Font::glyph_id"], HOOK)
p("F03", "Enumerating a font's characters agrees with lookup",
  "Enumerating the characters of a font yields exactly the characters that lookup maps to a glyph, each once, with that glyph.",
  ["inputs"], "every subtable up to the bounds (malformed ones included), every code point",
  NOTESTS + "two traversals of one table must agree for every table.",
  ["victor/src/fonts/cmap.rs", "victor/src/pdf/convert.rs"],
  [("enumeration", "fonts/cmap.rs each_code_point of both formats"), ("lookup", "fonts/cmap.rs get of both formats")],
  ["Font::each_code_point", "Font::glyph_id"], HOOK)
p("F04", "Font tables and character maps are the ones the directory names",
  "A table is found whatever other tables surround it in the (sorted) directory and wherever it lies, a missing table is an error, and the character map used is the best supported one among the font's encoding records.",
  ["inputs"], "every sorted directory and record list up to the bounds",
  "The sample fonts have one layout each.",
  ["victor/src/fonts/mod.rs", "victor/src/fonts/cmap.rs", "victor/src/fonts/parsing.rs"],
  [("binary search in the directory", "fonts/mod.rs find_table"), ("selection of the encoding record", "fonts/cmap.rs Cmap::parse")],
  ["Font::parse"], HOOK)
p("F05", "Font metrics are the file's, in em",
  "Ascender, descender, bounding box and advance widths are the values stored in the font divided by its units per em; glyphs beyond the last metrics record have the last record's advance.",
  ["inputs"], "every value of the header fields, up to the stated number of metrics records, every glyph id",
  "Expected files cover one font.",
  ["victor/src/fonts/mod.rs", "victor/src/fonts/tables.rs"],
  [("field offsets", "fonts/tables.rs"), ("unit conversion", "fonts/mod.rs to_ems"), ("repeated last advance", "fonts/mod.rs glyph_width")],
  ["Font::ascender", "Font::descender", "Font::glyph_width"], HOOK)
p("F06", "The PostScript name is decoded from the right name record",
  "The font's PostScript name is the string of the first supported name record with name id 6, decoded by its platform's encoding, and a font without one is refused.",
  ["inputs"], "every list of name records and string bytes up to the bounds",
  "The sample fonts have one kind of name record first.",
  ["victor/src/fonts/mod.rs"], [("name record scan", "fonts/mod.rs read_postscript_name")], ["BaseFont in the written PDF"], HOOK)
# ---------------------------------------------------------------- PDF
p("P01", "Cross-reference table, lengths and trailer of a written PDF are right",
  "In every PDF file written, each indirect object starts at the offset its cross-reference entry gives, each stream has the length its dictionary gives, and Size, Root, Info and startxref are right. An error of the output stream is returned to the caller, after which nothing more is written.",
  ["inputs", "histories", "fault_sequences"], "every sequence of objects up to the bound, every failing position of the sink",
  "Tests compare one file byte for byte; offsets after other contents, and failing sinks, are not reached.",
  ["victor/src/pdf/syntax.rs"], [("counting writer and table", "pdf/syntax.rs PdfFile::write, CountingWrite"), ("stream dictionary", "pdf/syntax.rs add_stream")],
  ["Document::write_to_pdf", "Document::write_to_pdf_bytes"], HOOK)
p("P02", "PDF objects read back as written",
  "Every name, string, number, reference, array and dictionary, nested in any way, written to a PDF file reads back by the PDF grammar as the same object.",
  ["inputs"], "every object up to the bounds, with free bytes",
  "The one expected file has no byte that needs escaping.",
  ["victor/src/pdf/object.rs"], [("escaping", "pdf/object.rs write_name, Object::write"), ("linked dictionaries", "pdf/object.rs Dictionary::write_pairs")],
  ["bytes of a written PDF"], HOOK)
p("P03", "Pages and rectangles appear where and as big as asked",
  "A document has exactly the pages added, in order; each has the size given (a px being 3/4 pt) and its content is exactly the rectangles painted on it, in order, at the coordinates given with the origin at the page's top left and y growing downwards.",
  ["inputs", "histories"], "every sequence of pages and rectangles up to the bounds, every coordinate",
  "One page with fixed coordinates is tested.",
  ["victor/src/pdf/convert.rs", "victor/src/pdf/mod.rs"], [("page transformation and media box", "pdf/convert.rs InProgressPage::new, drop"), ("operators", "pdf/convert.rs paint_rectangle, op!")],
  ["content stream and page tree of a written PDF"], HOOK)
p("P04", "Every painting shows the last colour set",
  "Whatever colours were set before, on this page or others, each painting happens in the colour and (clamped) alpha set last on its page, black and opaque if none was.",
  ["histories"], "every sequence of colour changes and paintings up to the bounds",
  "The writer skips redundant operators and shares alpha states across pages: only long histories show a stale cache.",
  ["victor/src/pdf/convert.rs"], [("cached graphics state", "pdf/convert.rs GraphicsState, set_color, set_alpha"), ("alpha state resources", "pdf/convert.rs alpha_states, extended_graphics_states")],
  ["content stream and ExtGState resources of a written PDF"], HOOK)
p("P05", "Text is shown with its font, size, position and glyphs",
  "Each text run shown appears once in its page's content, upright at its font size, starting at its origin, with exactly its glyphs in order and in its font; each font used is embedded once per document.",
  ["inputs", "histories"], "every sequence of runs in two fonts on two pages up to the bounds, every glyph id",
  "One run in one font is tested.",
  ["victor/src/pdf/convert.rs"], [("text operators", "pdf/convert.rs show_text"), ("font resources", "pdf/convert.rs add_font")],
  ["content stream and Font resources of a written PDF"], HOOK)
p("P06", "An embedded font carries its program, widths and character map",
  "For every font used, the PDF embeds the font file's bytes, gives each glyph its advance in thousandths of an em, and maps each glyph a character maps to back to that character, in sections of at most 100.",
  ["inputs"], "every font up to the bounds",
  "One font with fewer code points than a section boundary interaction needs is compared.",
  ["victor/src/pdf/convert.rs"], [("ToUnicode sections", "pdf/convert.rs add_font"), ("glyph widths", "pdf/convert.rs add_font, From<Length<Em>>")],
  ["font dictionaries of a written PDF"], HOOK)
# ---------------------------------------------------------------- layout
LAYOUT = "The repository's layout tests compare a few documents; "
p("L01", "Blocks get the width and horizontal position CSS gives them",
  "The painted border box of a block in normal flow has the left edge and width that CSS 2 section 10.3.3 gives for its width, margins, padding, borders and its containing block's width: auto widths fill the line and are never negative, auto margins centre or push, over-constrained boxes ignore the right margin.",
  ["inputs"], "every combination of auto, px and percentage values up to the bounds",
  LAYOUT + "the equation has a case for each combination of auto values and signs.",
  ["victor/src/layout/flow/mod.rs", "victor/src/layout/fragments.rs", "victor/src/layout/dom_traversal.rs", "victor/src/style/properties/definitions.rs"],
  [("solving the inline-axis equation", "flow/mod.rs layout_in_flow_non_replaced_block_level")], ["re operators of Document::to_pdf_bytes"], HOOK)
p("L02", "Blocks stack vertically and their margins collapse as CSS says",
  "Blocks in normal flow follow each other vertically in tree order, separated by their collapsed margins (CSS 2 section 8.3.1: the largest positive plus the most negative of the adjoining ones, through parents, first and last children and empty boxes, but not through padding, heights or formatting context roots), and auto heights enclose the children (10.6.3).",
  ["inputs"], "every tree of boxes up to the bounds with every margin, padding and height",
  LAYOUT + "which margins adjoin depends on the whole tree.",
  ["victor/src/layout/flow/mod.rs", "victor/src/geom.rs", "victor/src/layout/mod.rs"],
  [("placement of children", "flow/mod.rs place_block_level_fragment"), ("which margins collapse", "flow/mod.rs layout_in_flow_non_replaced_block_level"), ("collapsed margins", "layout/fragments.rs CollapsedMargin")],
  ["re operators of Document::to_pdf_bytes"], HOOK)
p("L03", "Absolutely positioned boxes are placed in their containing block",
  "An absolutely positioned box is painted where CSS 2 sections 10.3.7 and 10.6.4 put it for its offsets, margins and size: relative to the padding box of its nearest positioned ancestor (or the page), or on an axis without offsets where it would have been in the flow; it takes no space in the flow.",
  ["inputs"], "every combination of offsets, margins and sizes, every tree of boxes up to the bounds",
  LAYOUT + "two axes times the cases of auto values times the position in the tree.",
  ["victor/src/layout/positioned.rs", "victor/src/layout/flow/mod.rs", "victor/src/layout/flow/root.rs"],
  [("the equation of an axis", "positioned.rs solve_axis"), ("static positions on the way up the tree", "positioned.rs adjust_static_positions"), ("containing block", "positioned.rs in_positioned_containing_block")],
  ["re operators of Document::to_pdf_bytes"], HOOK)
p("L04", "Relative positioning moves a box and its contents, nothing else",
  "A relatively positioned box is painted, with its contents, moved by its offsets (left over right, top over bottom, percentages of the containing block, vertical ones of an auto height ignored); other boxes are where they would be without it.",
  ["inputs"], "every combination of offsets up to the bounds",
  LAYOUT + "no test has all combinations of offsets.",
  ["victor/src/layout/mod.rs", "victor/src/layout/flow/mod.rs"], [("the offset", "layout/mod.rs relative_adjustement")], ["re operators of Document::to_pdf_bytes"], HOOK)

p("L05", "Text is broken into lines that are as full as possible",
  "A run of text is shown completely and in order, one line below the other; it is broken only at spaces (which are dropped at the break), each line takes as many words as fit in the width available to it, and a word is on an overfull line only if nothing precedes it there.",
  ["inputs"], "every text and width up to the bounds",
  LAYOUT + "off-by-one errors in the width available show for few widths only.",
  ["victor/src/layout/flow/inline.rs", "victor/src/text.rs"],
  [("greedy breaking with save and restore", "flow/inline.rs TextRun::layout"), ("shaping state", "text.rs ShapedSegment::save, restore")], ["Tj and Tm operators of Document::to_pdf_bytes"], HOOK)
p("L06", "Inline boxes surround their text on every line",
  "Each line that has part of an inline box has one fragment of it, painted from where the box starts on that line to where its contents end there, including those of nested boxes; left margin, border and padding are on the first fragment only, right ones on the last only; text starts after the edges before it; relative offsets move all fragments and their contents.",
  ["inputs"], "every edge size and width up to the bounds",
  LAYOUT + "no test has nested inline boxes that are broken.",
  ["victor/src/layout/flow/inline.rs", "victor/src/layout/mod.rs"],
  [("fragments of inline boxes", "flow/inline.rs start_layout, finish_layout"), ("splitting at line breaks", "flow/inline.rs TextRun::layout")], ["re, Tj and Tm operators of Document::to_pdf_bytes"], HOOK)
p("L07", "White space collapses to single spaces, and no text is lost",
  "In a block, each sequence of spaces, tabs and newlines is shown as one space, whether or not inline elements start or end within it, except that it is not shown at the start of the block; every other character is shown, once and in order, each right after the one before it.",
  ["inputs"], "every text up to the bounds, over every listed structure of inline elements",
  NOTESTS + "collapsing depends on what precedes a text node anywhere in the tree.",
  ["victor/src/layout/flow/construct.rs"], [("collapsing", "flow/construct.rs handle_text"), ("what precedes the text", "flow/construct.rs handle_leading_whitespace")], ["Tj operators of Document::to_pdf_bytes"], HOOK)
p("L08", "Each element gets the boxes its display value asks for",
  "For any nesting of inline, block, flow-root, contents and none: text of displayed elements is shown in document order, text of elements that are not displayed never; blocks start and end lines, also inside inline elements; a block's box encloses its padding and lines and is as wide as its container; contents and none generate no box.",
  ["inputs"], "every tree up to the bounds",
  LAYOUT + "combinations such as blocks inside inline boxes or undisplayed last children are not tested.",
  ["victor/src/layout/flow/construct.rs", "victor/src/layout/dom_traversal.rs", "victor/src/layout/flow/root.rs", "victor/src/style/values/box_.rs"],
  [("traversal", "dom_traversal.rs traverse_children_of, traverse_element"), ("splitting inline boxes around blocks", "flow/construct.rs handle_block_level_element"), ("anonymous blocks", "flow/construct.rs end_ongoing_inline_formatting_context")],
  ["Document::to_pdf_bytes"], HOOK)
p("L09", "The result of layout does not depend on scheduling",
  "Box construction and layout run in parallel on chunks of siblings; however the work is divided and the partial results are merged, the same things are painted in the same order as with a single thread.",
  ["schedules", "inputs"], "every division of the work at every level, and every order of merging neighbours",
  LAYOUT + "a test sees whatever division the scheduler happens to choose on that machine.",
  ["victor/src/layout/flow/mod.rs", "victor/src/layout/flow/construct.rs", "victor/src/layout/positioned.rs"],
  [("parallel layout with folded lists of absolute boxes", "flow/mod.rs layout_block_level_children"), ("parallel construction", "flow/construct.rs BlockContainer::construct"), ("ranks of absolute boxes", "positioned.rs adjust_static_positions")],
  ["Document::to_pdf_bytes"], HOOK)
p("L10", "Boxes are painted over the ones they should cover",
  "A box is painted before its text and before its descendants; boxes in normal flow that are not positioned are painted in tree order, and so are absolutely positioned boxes of the same containing block; an absolutely positioned box is painted over the non-positioned boxes in the flow of its containing block.",
  ["inputs"], "every tree of boxes and positions up to the bounds",
  LAYOUT + "where boxes overlap is not tested at all.",
  ["victor/src/layout/positioned.rs", "victor/src/layout/flow/mod.rs", "victor/src/layout/flow/root.rs"],
  [("absolutely positioned fragments after the others", "positioned.rs layout_in_positioned_ancestor"), ("painting", "victor/src/layout/flow/root.rs paint"), ("order of the boxes collected", "flow/mod.rs layout_block_level_children")],
  ["Document::to_pdf_bytes"], HOOK)
p("L11", "Rendering a document again gives the same result",
  "Rendering does not change the document: the same document rendered a second time is painted the same.",
  ["inputs", "histories"], "every tree up to the bounds",
  LAYOUT + "no test renders a document twice.",
  ["victor/src/layout/mod.rs", "victor/src/layout/flow/root.rs", "victor/src/dom/mod.rs"],
  [("rendering takes the document by reference", "layout/flow/root.rs Document::render"), ("caches of styles and fonts", "victor/src/style/cascade.rs, victor/src/fonts/mod.rs")],
  ["Document::to_pdf_bytes"], HOOK)
p("L12", "Percentages refer to the right size of the right box",
  "Widths, paddings and margins in percent (vertical ones too) are of the containing block's width, heights and vertical offsets of its height if that does not depend on the contents (and are auto otherwise); the containing block is the content box of the parent, the padding box of the nearest positioned ancestor for absolutely positioned boxes, or the page; the root element generates a block box for every display value but none.",
  ["inputs"], "every chain of boxes up to the bounds",
  LAYOUT + "percentages of heights are not tested at all.",
  ["victor/src/layout/flow/mod.rs", "victor/src/layout/flow/root.rs", "victor/src/layout/positioned.rs", "victor/src/style/values/length.rs"],
  [("percentages of the containing block", "flow/mod.rs layout_in_flow_non_replaced_block_level, positioned.rs AbsolutelyPositionedFragment::layout"), ("the initial containing block", "flow/root.rs BoxTreeRoot::layout"), ("the root's display", "flow/root.rs construct_for_root_element")],
  ["re operators of Document::to_pdf_bytes"], HOOK)

p("L13", "Lines and inline boxes are as high as what they contain",
  "With texts of different font sizes and inline boxes with vertical paddings, borders and margins, each line is as high as the highest text (1.2 times its font size) or box (with its edges) on it, each fragment of an inline box is as high as the highest text or box in it plus its own edges, lines follow each other without gaps or overlap, the block is as high as its lines, and what follows the block is below it.",
  ["inputs"], "every size, edge and way to break the lines up to the bounds",
  LAYOUT + "no test has more than one font size on a line.",
  ["victor/src/layout/flow/inline.rs", "victor/src/layout/flow/mod.rs"],
  [("heights of lines and of inline boxes", "flow/inline.rs InlineFormattingContext::layout, finish_line, PartialInlineBoxFragment::finish_layout"), ("heights of text", "flow/inline.rs TextRun::layout"), ("heights of blocks with inline contents", "flow/mod.rs layout_in_flow_non_replaced_block_level")],
  ["re, Tm, Tj operators of Document::to_pdf_bytes"], HOOK)

# ---------------------------------------------------------------- style
STYLE = "The tests' pages use a handful of plain declarations; "
p("S01", "The cascade picks the declaration that CSS says wins",
  "For each element and property, the value used is that of the declaration with the highest precedence among those of matching rules and the style attribute: important over normal, style attribute over rules, author over user agent style sheet (the reverse for important ones), higher specificity over lower, later over earlier.",
  ["inputs", "histories"], "every list of rules, specificities, orders and importances up to the bounds",
  STYLE + "precedence depends on combinations of four criteria.",
  ["victor/src/style/cascade.rs", "victor/src/style/declaration_block.rs", "victor/src/style/rules.rs", "victor/src/style/user_agent.css"],
  [("sorted matching rules, two passes for importance", "style/cascade.rs"), ("declarations in a block", "style/declaration_block.rs")],
  ["Document::to_pdf_bytes"], HOOK)
p("S02", "Inherited, initial, unset and missing values are those of CSS",
  "A property without a declaration that applies has its parent's value if it is an inherited one (color, font-size) and its initial value otherwise; inherit, initial and unset do this explicitly, for every property and nesting.",
  ["inputs", "histories"], "every assignment to nested elements up to the bounds",
  STYLE + "no test uses the CSS-wide keywords.",
  ["victor/src/style/properties/macros.rs", "victor/src/style/properties/definitions.rs", "victor/src/style/cascade.rs"],
  [("inheritance of whole structs", "style/properties/macros.rs ComputedValues::new_inheriting_from"), ("CSS-wide keywords", "style/properties/macros.rs cascade")],
  ["Document::to_pdf_bytes"], HOOK)
p("S03", "Lengths mean what their unit says, within the range of the property",
  "A length counts in px or in em of the element's font size (of the parent's for font-size itself), a percentage is of the containing block, 0 needs no unit; a declaration with another unit, or with a negative value for a property that does not allow it, is ignored.",
  ["inputs"], "every number, sign and unit up to the bounds, for eleven properties",
  STYLE + "negative and malformed dimensions are not tried.",
  ["victor/src/style/values/length.rs", "victor/src/style/values/fonts.rs", "victor/src/style/values/border.rs"],
  [("parsing", "style/values/length.rs SpecifiedLength::parse"), ("em", "style/values/length.rs Length::from_specified"), ("ranges", "style/values/length.rs NonNegative")],
  ["Document::to_pdf_bytes"], HOOK)
p("S04", "Shorthands set the same sides and parts as their longhands",
  "margin, padding, border-width and border-style with one to four values set the top, right, bottom and left as CSS says, border-top sets width, style and colour in any order and resets those left out, and names and keywords may be in any case.",
  ["inputs"], "every number, kind and case of values up to the bounds, every overriding longhand",
  STYLE + "one test page even has the sides of four values in the wrong order.",
  ["victor/src/style/values/generic.rs", "victor/src/style/values/border.rs", "victor/src/style/properties/macros.rs", "proc-macros/src/style.rs"],
  [("sides", "style/values/generic.rs FourSides"), ("parts", "style/values/border.rs parse_one_or_more"), ("keywords", "proc-macros/src/style.rs derive_parse")],
  ["Document::to_pdf_bytes"], HOOK)
p("S05", "Class, id and attribute selectors match as CSS says",
  "A rule whose selector is a class, an id or an attribute with any operator applies to exactly the elements whose attributes match: white-space separated classes, whole ids, exact, word, dash-prefix, prefix, suffix and substring comparisons, the i flag.",
  ["inputs"], "every attribute value and operand up to the bounds",
  STYLE + "the user agent style sheet has one attribute selector.",
  ["victor/src/style/selectors.rs"], [("attributes, classes and ids", "style/selectors.rs impl Element for NodeRef")], ["Document::to_pdf_bytes"], HOOK)
p("S06", "Combinators and structural pseudo-classes match as CSS says",
  "A rule with a combinator (descendant, child, next or later sibling), :not(), :root, :empty or any of the child-indexed pseudo-classes applies to exactly the elements of the tree that the Selectors specification says.",
  ["inputs"], "every tree and selector up to the bounds",
  NOTESTS + "what matches depends on the whole tree around an element.",
  ["victor/src/style/selectors.rs", "victor/src/dom/mod.rs"], [("tree traversal for selectors", "style/selectors.rs parent_element, prev_sibling_element, next_sibling_element, is_empty, is_root")], ["Document::to_pdf_bytes"], HOOK)
p("S07", "Invalid CSS is skipped, without losing what surrounds it",
  "No style sheet or style attribute makes Victor panic; an invalid declaration or rule, whatever it is made of, is ignored alone, and the valid ones before and after it apply.",
  ["inputs"], "every value and start of a style sheet up to the bounds",
  STYLE + "error recovery is not tested.",
  ["victor/src/style/declaration_block.rs", "victor/src/style/rules.rs", "victor/src/style/values/mod.rs"],
  [("declarations", "style/declaration_block.rs parse_declaration_block"), ("rules", "style/rules.rs")], ["Document::to_pdf_bytes"], HOOK)
p("S08", "Colours are the ones given",
  "Text and backgrounds are painted in the colour and opacity given in any notation (hexadecimal with 3, 4, 6 or 8 digits, rgb(), hsl(), names, transparent, currentColor), or else the inherited or initial one; invalid colours are ignored.",
  ["inputs"], "every hexadecimal colour, every combination of notations and declarations up to the bounds",
  STYLE + "few colours, none translucent.",
  ["victor/src/style/values/color.rs", "victor/src/style/values/background.rs", "victor/src/layout/mod.rs", "victor/src/paint.rs"],
  [("colours", "style/values/color.rs"), ("currentColor", "style/properties/mod.rs to_rgba")], ["Document::to_pdf_bytes"], HOOK)
# ---------------------------------------------------------------- documents
DOM = "The tests parse a few well-nested pages; "
p("D01", "The document tree has exactly the nodes put in it, and its links agree",
  "After any sequence of the operations by which the HTML parser builds a document (append, insert before, remove, move all children, add attributes), parent, child and sibling links describe the same tree, in which every node is where it was last put and adjacent texts are one; badly nested markup loses and reorders no text.",
  ["histories", "inputs"], "every history of operations and every sequence of tags up to the bounds",
  DOM + "moving children, as for badly nested formatting elements, is not reached by any.",
  ["victor/src/dom/mod.rs", "victor/src/dom/html.rs"],
  [("links", "dom/mod.rs detach, append, insert_before"), ("tree sink", "dom/html.rs Sink"), ("traversal", "dom/mod.rs next_in_tree_order")],
  ["Document::parse_html"], HOOK)
p("D02", "Style sheets and links are those of the elements in the tree, in order",
  "The author style sheets of a document are the child texts of exactly the style elements in its tree whose type is CSS, in tree order, and html_link_elements gives exactly the link elements with both attributes, in tree order.",
  ["inputs", "histories"], "every placement of style and link elements up to the bounds",
  DOM + "each has at most one style element.",
  ["victor/src/dom/mod.rs"], [("style elements", "dom/mod.rs parse_stylesheets, child_text_content"), ("links", "dom/mod.rs html_link_elements")],
  ["Document::to_pdf_bytes", "Document::html_link_elements"], HOOK)
p("D03", "Parsing gives the document's tree for any HTML and XML, without panics",
  "A well-formed HTML or XML document is read as the tree of elements, attributes, namespaces and texts (character references and CDATA included) that it describes; any other bytes give a consistent HTML document that can be rendered, or an XML error.",
  ["inputs"], "every document and every placement of free bytes up to the bounds",
  DOM + "XML input is not tested at all.",
  ["victor/src/dom/html.rs", "victor/src/dom/xml.rs"], [("HTML tree construction", "dom/html.rs"), ("XML tree construction", "dom/xml.rs parse_xml")],
  ["Document::parse_html", "Document::parse_xml"], HOOK)
# ---------------------------------------------------------------- plain text
p("T01", "Plain text is broken into lines and pages without loss",
  "The layout of a plain text shows each of its segments (up to a break opportunity) once, in order, without the line feeds; lines start at the left margin and are as full as the page's width allows, and end at line feeds; only broken lines are justified; baselines are a line height apart from the top margin; a page ends only when the next line does not fit, no line leaves the margins, and no page is blank unless the document is.",
  ["inputs"], "every font size, glyph width, text and page up to the bounds",
  "One test compares the file for one long text with a reference, whatever is in it; no other width, size or end of text is tried.",
  ["victor/src/text_plain.rs"], [("lines and pages", "text_plain.rs layout"), ("segments put back", "text_plain.rs Rewind")], ["text_plain::layout"], HOOK)
p("T02", "Shaped text has one glyph per character and the width of its glyphs",
  "A shaped segment has, for each character appended since, the glyph that the font has for it, in order, and the sum of their widths; returning to a saved state gives back exactly the glyphs and the width of that state.",
  ["histories", "inputs"], "every history of operations and all glyph widths up to the bounds",
  NOTESTS + "a wrong width after a return shifts only what follows on that line.",
  ["victor/src/text.rs"], [("shaping", "text.rs ShapedSegment::append_char"), ("states", "text.rs save, restore")], ["ShapedSegment::naive_shape"], HOOK)
p("G01", "Logical and physical geometry agree in every writing mode",
  "Flow-relative sides and sizes are the physical ones that CSS Writing Modes assigns in each writing mode and direction, converting sizes back gives the same, and rectangles are inflated, translated and converted without mixing up their axes or sides.",
  ["inputs"], "all lengths and modes up to the bounds",
  LAYOUT + "and pages exist in one writing mode only.",
  ["victor/src/geom.rs"], [("conversions", "geom.rs to_flow_relative, size_to_physical, to_physical"), ("arithmetic", "geom.rs inflate, inline_sum, block_sum, auto_is")], ["geom"], HOOK)
# ---------------------------------------------------------------- lester
LST = "The tests run on a few small good files; "
p("R01", "PNG streams: every byte in order, and the first error reported",
  "Reading a PNG image hands cairo the bytes of the stream in order, writing one hands the stream all of cairo's; whatever the stream does (short counts, interruptions, its end, an error), its first error is the one reported and it is left alone afterwards, errors of cairo are reported otherwise, and every surface is released exactly once.",
  ["inputs", "fault_sequences"], "every behaviour of stream and cairo up to the bounds",
  LST + "streams fail only at the first call.",
  ["lester/src/cairo.rs", "lester/src/errors.rs"], [("callbacks", "cairo.rs with_c_callback"), ("streams", "cairo.rs read_from_png, write_to_png")], ["ImageSurface::read_from_png", "ImageSurface::write_to_png"], HOOK)
p("R02", "A rendered page has the size, backdrop and scale asked for",
  "Rendering a page makes an image of the page's size in CSS px times the resolution, rounded up, of a format with alpha for a transparent backdrop; a white one is painted before the page, which is drawn once, scaled by the resolution, for the screen or for printing as asked; a size that is no number of pixels is refused; an error of cairo at any step is reported, and surface and context are released exactly once.",
  ["inputs", "fault_sequences"], "every size and resolution, option and status up to the bounds",
  LST + "each rendered without options.",
  ["lester/src/poppler.rs", "lester/src/cairo.rs"], [("rendering", "poppler.rs render_with_options"), ("context", "cairo.rs CairoContext")], ["Page::render_with_options"], HOOK)
p("R03", "Pixels are cairo's, and sizes are never silently changed",
  "An image surface has exactly the size and format asked for, or an error; its pixels are cairo's own memory, width x height of them in rows, and formats or strides that are not 32 bits per pixel are refused; conversions between integer types and from floats give the same number or are refused.",
  ["inputs"], "all numbers, small surfaces",
  LST + "of 4 x 4 pixels.",
  ["lester/src/cairo.rs", "lester/src/convert.rs"], [("surfaces", "cairo.rs ImageSurface::new, pixels"), ("conversions", "convert.rs")], ["ImageSurface::pixels"], HOOK)
p("R04", "Pages are visited once each, and everything is released once",
  "Iterating over the pages of a document from both ends, in any order and with skips, gives each page once and the right count of those left; strings and errors from Poppler are returned as they are or as absent; documents, pages, strings and errors are released exactly once, in whatever order they are dropped.",
  ["histories", "inputs"], "every history up to the bounds",
  LST + "visited in order.",
  ["lester/src/poppler.rs", "lester/src/errors.rs"], [("pages", "poppler.rs PagesIter"), ("strings", "poppler.rs GlibString"), ("ownership", "poppler.rs Drop")], ["PdfDocument::pages", "Page::text", "PdfDocument::producer"], HOOK)
