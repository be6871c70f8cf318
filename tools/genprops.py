#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=("PDFt.SaveTo output",)):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   observe_at=list(observe),hook_needed=None)))
core=["pdft.go","pdf_data.go","pdf_obj_data.go"]
parse=["pdf_parse.go","pdf_obj_property_data.go","pdf_obj_data.go","xref_data.go","regex.go"]

p("C01","Saved documents are structurally valid PDF files",
 "Whatever well-formed template is opened and whatever sequence of successful operations is applied, every successful save yields a complete PDF file: startxref leads to a cross-reference table in which every in-use entry leads to the object it numbers, every object number is defined once, the free entries form the free list, /Size covers every object, the trailer's /Root leads through the catalog to a page tree whose /Count and /Kids agree, every stream's /Length is exactly the length of its data, and every reference reachable from the trailer leads to a defined object (unless it was already dangling in the template).",
 ["inputs","histories"],"every well-formed classic-xref template (any object numbering, order, page tree shape, formatting) x every history of insertions, page operations, protection and saves",
 "Tests save seven fixed documents and never read a saved file back; nothing looks at offsets, lengths or references.",
 core+["pdf_font_data.go"],[("object numbering and serialisation","pdft.go build/toStream"),("cross-reference table and trailer","pdft.go xref"),("stream rewriting","pdf_data.go injectContentToPDF, pdf_obj_data.go encrypt")])
p("C02","Template content survives stamping",
 "After any successful insertions of text and images and a save, every page of the template still has its own attributes (MediaBox, CropBox, Rotate, Annots and any other entry, with equal values), still resolves every font, image and other resource name it used to the same object as before, and still draws exactly its original content operators, in order, before anything that was inserted; objects the insertions do not concern keep their values and stream bytes.",
 ["inputs","histories"],"every well-formed template x every history of insertions",
 "Tests only check that saving returns no error; a template whose fonts, images or content were lost would pass.",
 core+["pdf_obj_property_data.go"],
 [("rewriting of page and resource dictionaries","pdf_data.go injectFontsToPDF, injectImgsToPDF"),("appending to page content","pdf_data.go injectContentToPDF"),("dictionary reader","pdf_obj_property_data.go readProperties")])
p("C03","Page operations behave like edits of a list of pages",
 "Counting, duplicating, removing, and keeping a single page act on the document's pages exactly as the corresponding edits act on a list (page numbers are 1-based; the position given to duplication is the 0-based index after which the copy goes, negative counting from the end), the saved file shows exactly the resulting pages in that order, each with its own content and size, and page numbers used afterwards refer to the new order. Text and images inserted earlier stay with the page they were inserted on (and vanish with it when it is removed). An operation naming a page or position that does not exist returns an error and changes nothing.",
 ["inputs","histories"],"every template (flat or nested page tree) x every sequence of duplicate/remove/keep-one/insert operations with valid and invalid arguments",
 "Tests remove and duplicate once in one file and look only at the error; order, content and bounds are never examined.",
 ["pdft.go","pdf_data.go"],[("page list rewriting","pdft.go DuplicatePageAfter, RemovePage, RemoveOtherPages, setPages"),("page enumeration","pdf_data.go getPageObjIDs"),("page sizes","pdf_parse.go parsePageSize")])
p("C04","A duplicated page and its original are independent",
 "After a page has been duplicated, text and images inserted on the copy appear on the copy only and those inserted on the original appear on the original only, both pages keep all of the original page's content, attributes and resources, and removing either leaves the other intact. A page may be duplicated several times, and copies may be copied.",
 ["inputs","histories"],"every template page (content in one stream or several, resources direct, shared or inherited) x insertions on either page after duplication",
 "One test duplicates a page and checks no content.",
 ["pdft.go","pdf_data.go"],[("copying of page and content objects","pdft.go DuplicatePageAfter"),("content injection per page","pdf_data.go injectContentToPDF")])
p("C05","Inserted text is drawn exactly as asked, once, on its page",
 "Every successful text insertion makes the saved document draw exactly that text's characters, in order, once, on the page asked for and on no other page, with the current font and size at the time of the call and with the requested RGB colour (each component within 0.01; a nil colour draws near-black, regardless of what was inserted before), and insertions on a page are drawn in the order they were made.",
 ["inputs","histories"],"every sequence of font/size changes and insertions of any text the font can encode, any colour 0..255 per component, across pages",
 "Tests insert a handful of strings and never look at what was drawn.",
 ["pdft.go","content_text.go","pdf_data.go","minigopdf/cache_content_text.go","minigopdf/subset_font_obj.go","pdf_font_data.go"],
 [("text content","content_text.go toSteram, minigopdf/cache_content_text.go"),("font naming","pdf_data.go injectFontsToPDF"),("grouping by page","pdf_data.go injectContentToPDF")])
p("C06","Inserted text is placed and aligned in its cell",
 "Text inserted at (x, y) with a w by h cell, measured from the top-left corner of a page of height H, starts horizontally at x for left, x+w-textwidth for right and x+(w-textwidth)/2 for centre alignment, and its baseline lies at H-y-ascender for top, H-y-h-descender for bottom and so that ascender and descender are centred on the middle of the cell for middle alignment, using the font's typographic ascender and descender at the current size (all within 0.02 pt), where H is the upper edge of that page's own or inherited MediaBox.",
 ["inputs","configurations"],"every position, cell size, alignment combination, font, size, text and page size",
 "No test checks a coordinate.",
 ["content_text.go","minigopdf/cache_content_text.go","pdft.go","pdf_parse.go"],
 [("x and y computation","minigopdf/cache_content_text.go calX, calY"),("page height","pdft.go pageHeight, pdf_parse.go parsePageSize")])
p("C07","Measured text width equals the font's metrics and the drawn width",
 "For every text and font, the measured width equals the sum over its characters of the font's advance width for the character's glyph, each scaled to thousandths of an em and truncated, plus any kerning adjustments, times size/1000; the widths written into the saved file for the glyphs used are those same values, so text drawn in the file is exactly as wide as measured. Measuring an unset font is an error, never a crash.",
 ["inputs"],"every TrueType font, every text, every size",
 "One test compares one measured string to a constant for one font.",
 ["pdft.go","content_text.go","minigopdf/cache_content_text.go","minigopdf/subset_font_obj.go","minigopdf/cid_font_obj.go","minigopdf/fontmaker/core/ttfparser.go"],
 [("width of a glyph","minigopdf/subset_font_obj.go GlyphIndexToPdfWidth"),("accumulation","minigopdf/cache_content_text.go createContent"),("/W array","minigopdf/cid_font_obj.go build")],
 ("PDFt.MeasureTextWidth","PDFt.SaveTo output"))
p("C08","Wrapped text loses nothing, fits, and flows line by line",
 "Wrapping a text with a text breaker draws its tokens in order, none lost and none repeated (only white space at line ends may be dropped), as consecutive lines 1.2 font sizes apart starting at the given y (when middle-aligned, the block of lines is shifted up so that it is centred where a single line would be); a line (before white space at its ends is dropped) is only wider than the cell if it is a single token, and a new line is begun only when the next token would not fit. Every line is aligned in the cell as a text of its own. Without a breaker the text is inserted as a single line.",
 ["inputs"],"every text, breaker output, cell width, font and size",
 "No test wraps text.",
 ["pdft.go","textbreak/basic_textbreak.go"],[("wrapping loop","pdft.go InsertWrapText")])
p("C09","Embedded fonts are complete and faithful subsets",
 "For every font used, the saved file embeds a TrueType font program that is a well-formed font file (a sorted table directory with right checksums, offsets and lengths; glyph 0 as in the original) in which each glyph of the inserted text, and every component glyph it needs directly or through other composite glyphs, has the same outline data and hinting programs, the same advance width and the same units per em as in the original font, and the inserted text selects by glyph number the glyph that the original font's character map gives for each character.",
 ["inputs"],"every TrueType font (simple and nested composite glyphs, short and long offsets, any character map segments) x every set of characters",
 "Tests use four real fonts and never open the embedded font.",
 ["minigopdf/pdf_dictionary_obj.go","minigopdf/subset_font_obj.go","minigopdf/fontmaker/core/ttfparser.go","minigopdf/fontmaker/core/ttfparser_cmap_other_format.go","pdf_font_data.go"],
 [("glyph closure and subsetting","minigopdf/pdf_dictionary_obj.go"),("character to glyph","minigopdf/subset_font_obj.go CharCodeToGlyphIndex")])
p("C10","Inserted text can be extracted again from the saved file",
 "For every inserted text, translating the character codes shown in the saved file through the font's ToUnicode map gives back the text's characters, including characters outside the Basic Multilingual Plane; where the font draws several characters with one glyph, the map gives one of the characters inserted with that glyph. The map's declared counts and code space are consistent with its contents.",
 ["inputs"],"every text the font can encode, every TrueType font",
 "No test reads the ToUnicode map.",
 ["minigopdf/unicode_map.go","minigopdf/map_of_character_To_glyph_index.go"],[("ToUnicode map","minigopdf/unicode_map.go pdfToUnicodeMap")])
p("C11","Inserted images keep their pixels",
 "Every supported image (non-interlaced PNG of bit depth 1 to 8 and any colour type, gray, YCbCr or Adobe CMYK JPEG) that is inserted is embedded so that decoding the saved image gives the same size and the same colour for every pixel as decoding the original file, with alpha channels preserved as a soft mask and a single transparent colour or palette entry preserved as transparent; images of unsupported kinds (interlaced or 16-bit PNG, other formats) are refused with an error.",
 ["inputs"],"every PNG (any chunking, filters, palette, ancillary chunks, size) and JPEG",
 "Tests insert two fixed pictures and never decode the result.",
 ["minigopdf/image_obj_parse.go","minigopdf/image_obj.go","minigopdf/smask_obj.go","pdf_image_data.go","pdft.go"],
 [("PNG parsing and channel split","minigopdf/image_obj_parse.go paesePng"),("image dictionary","minigopdf/image_obj_parse.go buildImgProp")])
p("C12","Images are placed where asked; caching changes only file size",
 "An inserted image is drawn on the page asked for, exactly once per insertion, filling the w by h rectangle whose top-left corner is (x, y) from the page's top-left (within 0.02 pt), and shows that image and no other, whatever other images the template and the document contain; inserting from bytes, from base64 text and through the cache draw the same thing, and inserting equal bytes repeatedly through the cache stores the image once.",
 ["inputs","histories"],"every sequence of image insertions by the three entry points over any template",
 "Tests insert single images and check only the returned error.",
 ["pdft.go","content_img_base64.go","pdf_image_data.go","pdf_data.go"],
 [("placement","content_img_base64.go toSteram"),("naming and resource injection","pdf_data.go injectImgsToPDF"),("cache","pdft.go InsertImgWithCache")])
p("C13","Password protection follows the standard security handler",
 "After protection is set with permissions, user password and owner password, the saved file's encryption dictionary is such that the standard handler accepts exactly the given user password and the given owner password (compared on their first 32 bytes padded as the standard says) and rejects others, and its permission flags grant exactly the requested permissions; with no owner password given, no empty or user password opens it as owner by accident of construction beyond what the standard implies.",
 ["inputs"],"every permission set and every pair of passwords of any bytes and length",
 "One test sets one pair of passwords and checks nothing but errors.",
 ["minigopdf/pdf_protection.go","minigopdf/encryption_obj.go","pdft.go"],
 [("key derivation, O, U and P","minigopdf/pdf_protection.go"),("encryption dictionary","minigopdf/encryption_obj.go build")])
p("C14","Protected documents decrypt to the unprotected document",
 "For every history of operations, the document saved with protection set, once decrypted by the standard handler with either password, is the same document (same pages, content, fonts, images and stream data) that the history produces without protection; stream data is not left in the clear. A file that is itself encrypted is refused as a template with an error, because the library cannot decrypt it.",
 ["inputs","histories"],"every template x history x password pair, object numbers up to beyond 65535",
 "Tests never decrypt anything.",
 ["pdf_obj_data.go","pdft.go","minigopdf/pdf_protection.go"],[("per-object encryption","pdf_obj_data.go encrypt"),("object keys","minigopdf/pdf_protection.go objectkey")])
p("C15","Saving is repeatable and queries have no effect",
 "Saving a document any number of times, to a writer or to a file (replacing what the file held before, shorter or longer), gives documents with the same meaning (same pages, content, resources, fonts and images) as saving once, and operations continue correctly after a save; counting pages and measuring text, successful or not, never change what is drawn or how later insertions behave.",
 ["histories"],"every history with saves, counts and measurements interleaved anywhere",
 "Every test saves once, at the end.",
 ["pdft.go","pdf_data.go","pdf_font_data.go","minigopdf/subset_font_obj.go","minigopdf/cid_font_obj.go","minigopdf/unicode_map.go","minigopdf/pdf_dictionary_obj.go","minigopdf/subfont_descriptor_obj.go"],
 [("building a copy of the document","pdft.go build"),("font object buffers","pdf_font_data.go build")])
p("C16","Saved documents can be opened and edited again",
 "Every document saved without protection can be opened again by the library, has the same number of pages, and a second round of insertions and page operations on it behaves as it would on any template: everything drawn in the first round is still drawn, unchanged and first, and everything in the second is drawn as asked; splitting a history at any point by save and reopen draws the same pages as running it in one go.",
 ["histories","inputs"],"every template x every history x every split point",
 "No test opens a saved file.",
 ["pdf_parse.go","pdft.go","pdf_data.go","pdf_obj_data.go"],[("reader","pdf_parse.go PDFParse"),("writer","pdft.go toStream")],("PDFt.OpenFrom on PDFt.SaveTo output",))
p("C17","Malformed templates are rejected, never crash or hang",
 "Opening any sequence of bytes as a template, and counting, inserting into, editing and saving whatever was opened, either succeeds or returns an error: it never panics, never exhausts the stack or memory out of proportion to the input, and always terminates.",
 ["inputs"],"every byte string: damaged, truncated and hostile PDF files (cycles, dangling references, wrong types, bad offsets and lengths)",
 "Tests open well-formed files; one parses a single trailerless file.",
 parse+["pdf_data.go"],[("reader","pdf_parse.go"),("page tree walk","pdf_data.go getPageObjIDs"),("stream extraction","pdf_data.go extractStream")],("PDFt.OpenFrom","PDFt.SaveTo"))
p("C18","Bad fonts, images and arguments give errors and leave no trace",
 "Adding a font or an image from any bytes whatsoever (to a stamped document or one built from scratch), or inserting text the current font cannot encode, or naming an unknown font, or calling an operation before any template has been opened, either succeeds or returns an error and never panics or hangs; an operation that returned an error has no effect on the document: later operations and the saved file are as if it had not been called.",
 ["inputs","histories"],"every byte string offered as font or image (random, truncated, mutated real files), every failing call at every point of a history",
 "Tests use valid fonts and images only.",
 ["pdf_parse_font.go","pdft.go","minigopdf/fontmaker/core/ttfparser.go","minigopdf/image_obj_parse.go","minigopdf/subset_font_obj.go","minigopdf/pdf_dictionary_obj.go"],
 [("font parser","minigopdf/fontmaker/core/ttfparser.go"),("image parser","minigopdf/image_obj_parse.go"),("insertion","pdft.go Insert")],("return values","PDFt.SaveTo output"))
p("C19","Documents are independent of each other",
 "Several documents in one process, used alternately in any order or each on its own goroutine at the same time, each save exactly what they would have saved alone, with no data race; opening another template on a used document object starts afresh, with nothing left from before.",
 ["schedules","histories"],"every interleaving of operations on different document objects; every earlier use of a reopened object",
 "Every test uses one document at a time.",
 ["pdft.go","minigopdf/pdf_protection.go","minigopdf/fontmaker/core/ttfparser.go"],[("per-document state","pdft.go PDFt, OpenFrom")])
p("C20","Field rendering equals the insertions it stands for",
 "Rendering text or a base64 image into a named field does exactly what setting the field's font and size and inserting (wrapping when the field says so) at the field's page, position, size and alignment would do; unknown field names do nothing and are no error; when several fields share a name the last one counts; the design view draws every field's name in its place.",
 ["inputs","histories"],"every set of field definitions and every sequence of render calls",
 "One test renders the design view of two fields with no font set.",
 ["render/render.go","render/field_info.go"],[("field lookup and dispatch","render/render.go Text, ImgBase64, ShowDesignView")],("Render.SaveTo output",))
p("C21","The basic text breaker splits at spaces and loses nothing",
 "For every valid UTF-8 text, joining the tokens the basic text breaker returns gives the text back, every space character is a token of its own, and no other token contains a space.",
 ["inputs"],"every valid UTF-8 string",
 "Two example strings are tested.",
 ["textbreak/basic_textbreak.go"],[("splitting loop","textbreak/basic_textbreak.go BreakTextToToken")],("BasicTextbreak.BreakTextToToken",))
p("C22","Kerning and text-rise overrides are honoured",
 "With a kerning override installed, the gap between each pair of adjacent characters of later-drawn text in that font is changed by the value the function returned for that pair (scaled from font units to thousandths of an em), in what is drawn, in what is measured and hence in alignment; with a text-rise override installed each character is drawn with the rise returned for it. The functions are called for each pair or character with its characters, their glyph numbers and the kerning value the font has for the pair (0 if none), and text in fonts without an override is neither kerned nor raised.",
 ["inputs","configurations"],"every font, text and override function",
 "One test installs a kern override on another type and checks no output.",
 ["pdft.go","minigopdf/cache_content_text.go","minigopdf/content_obj.go","minigopdf/subset_font_obj.go"],
 [("kern and rise in content","minigopdf/cache_content_text.go createContent"),("unit conversion","minigopdf/content_obj.go convertTTFUnit2PDFUnit")])
p("C23","Documents built from scratch are valid and draw what was asked",
 "A document built with the bundled generator (pages of any size, text, cells, lines, rectangles, ovals, curves, colours, images, kerning, optional compression at any level, protection and information entries) compiles to a structurally valid PDF with the pages in order, each drawing exactly the requested primitives in order at the requested coordinates measured from the page's top-left (within 0.02 pt), with embedded fonts, images and decryption as for stamped documents, and such an unprotected document can be used as a template. Drawing state (line width and type, colours, gray values, font) that was set holds until it is changed, and only where it was set to hold.",
 ["inputs","histories"],"every sequence of drawing calls over any number of pages, with and without protection and compression",
 "Tests build three small documents and never read them.",
 ["minigopdf/gopdf.go","minigopdf/content_obj.go","minigopdf/list_cache_content.go","minigopdf/procset_obj.go","minigopdf/page_obj.go","minigopdf/pages_obj.go","minigopdf/cache_content_text.go"],
 [("compilation","minigopdf/gopdf.go compilePdf, prepare, xref"),("content streams","minigopdf/content_obj.go")],("GoPdf.GetBytesPdfReturnErr",))
p("C24","Input and output faults are reported; chunking is irrelevant",
 "How a reader delivers its bytes (any chunk sizes) makes no difference to the result of opening a template, adding a font or (in documents built from scratch) adding an image; a reader that fails at any point makes the call fail, and a writer that fails or accepts only part of the data at any point makes the save return an error, after which the document can still be saved completely elsewhere. Files that calls open by path are closed again when the call returns, whether it succeeds or fails.",
 ["fault_sequences","inputs"],"every chunking and every failure offset of reader and writer",
 "Tests read and write real files that never fail.",
 ["pdft.go","pdf_parse.go","pdf_parse_font.go","minigopdf/fontmaker/core/ttfparser.go"],[("reading","pdf_parse.go PDFParse"),("writing","pdft.go SaveTo, Save")],("return values","bytes written"))
p("C25","Font metrics read from a font file are right",
 "For every well-formed TrueType font the font parser accepts, the units per em, bounding box, ascender, descender, typographic metrics, underline metrics, italic angle, glyph count, glyph advance widths, character map and kerning pairs it reports equal those in the font file, and the font descriptor written into saved documents states the same metrics scaled to thousandths of an em.",
 ["inputs"],"every TrueType font, every character",
 "Tests look at nothing the parser reports except one kerning pair of one font.",
 ["minigopdf/fontmaker/core/ttfparser.go","minigopdf/fontmaker/core/ttfparser_cmap_other_format.go","minigopdf/fontmaker/core/ttfparser_kern.go","minigopdf/subfont_descriptor_obj.go"],
 [("table parsers","minigopdf/fontmaker/core/ttfparser.go"),("font descriptor","minigopdf/subfont_descriptor_obj.go build")],("core.TTFParser accessors","PDFt.SaveTo output"))
p("C26","Caller-owned data is never modified or retained",
 "No call changes the bytes or values of anything the caller passes in (template bytes, font bytes, image bytes, passwords, colours, field definitions), and changing those after the call returns does not change what the document saves.",
 ["inputs","histories"],"every argument of every call, mutated after the call returns",
 "No test looks at its arguments again.",
 ["pdft.go","content_text.go","minigopdf/pdf_protection.go","minigopdf/image_obj.go","pdf_parse.go"],
 [("argument handling","pdft.go Insert, InsertImg, SetProtection, OpenFrom")],("caller's buffers","PDFt.SaveTo output"))
p("C27","Cell borders and underlines frame the text's cell",
 "While cell borders are shown, every inserted text's cell is outlined by its four edges at (x, y)-(x+w, y+h) measured from the page's top-left (horizontal edges extended by half the line width; within 0.02 pt), and while they are hidden no edges are drawn; with an underline style each text is underlined across its cell at the font's underline position with the font's underline thickness, and with other styles it is not.",
 ["inputs","histories"],"every sequence of show/hide, style and insertion calls with any geometry",
 "Tests show borders once and never look at the result.",
 ["pdft.go","content_line_style.go","content_text.go","minigopdf/cache_content_text.go"],
 [("borders and underline","minigopdf/cache_content_text.go drawBorder, underline"),("line style","content_line_style.go")])
p("C28","Font definitions made by the font maker describe the font",
 "For every embeddable TrueType font and character map, the font maker writes a compressed copy that inflates to exactly the font file, and a Go source file that parses and states, for each of the 256 codes, the advance width of the glyph of the character the map gives for the code (the width of glyph 0 where the map or the font has none), the underline position and thickness, PostScript name (without what a PDF name cannot contain), file size, encoding name, the differences from code page 1252 and the descriptor values (ascent, descent, cap height, flags, bounding box, italic angle, missing width), all scaled to thousandths of an em and rounded to the nearest integer; results replace earlier files whole. Fonts whose licence bits forbid embedding, files that are not .ttf, unreadable fonts, missing or malformed maps and unwritable folders are reported as errors.",
 ["inputs"],"every TrueType font, character map, encoding name and folder",
 "No test runs the font maker.",
 ["minigopdf/fontmaker/core/fontmaker.go","minigopdf/fontmaker/core/ttf_info.go","minigopdf/fontmaker/core/math.go","minigopdf/fontmaker/core/ttfparser.go"],
 [("definition","minigopdf/fontmaker/core/fontmaker.go MakeFont, MakeDefinitionFile, MakeFontDescriptor"),("maps","minigopdf/fontmaker/core/fontmaker.go LoadMap, MakeFontEncoding"),("widths","minigopdf/fontmaker/core/fontmaker.go GetInfoFromTrueType, MakeWidthArray")],("core.FontMaker.MakeFont","files written"))
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P),"properties")
