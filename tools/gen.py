#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def a(files, mech, observe, state=None, hook=None):
    d = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        d["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    return d

OV = "yield points, deterministic pools and I/O seams are inserted into a build overlay (sim/ovgen); /repo is not edited"

P = []
def p(id, title, statement, over, text, why, anchors, note):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=anchors), note))

p("C01", "A failing output sink is always reported, and harms nothing",
  "If the writer that a document is serialised to fails in any call (an error with nothing, a part or all of the bytes taken, for good or only once), the serialisation call returns that error and never reports success for a document the writer did not fully receive. Everything the failing writer did receive is a prefix of the document that the next successful serialisation writes. After the failure the document is unchanged: writing again, or continuing to draw and then writing, gives exactly the complete document that would have been written without the failure.",
  ["fault_sequences", "histories", "inputs"],
  "every document history the API can build, and every byte offset and way in which a writer can fail, at every one of several serialisations of one document",
  "the tests write to files and buffers that never fail",
  a(["gopdf.go", "buff.go", "iobj.go", "encryption_obj.go"], [("sticky error of the counting writer and per-object write errors", "gopdf.go: compilePdf, xref, WriteTo"), ("objects write themselves", "*_obj.go: write")],
    ["GoPdf.WriteTo", "GoPdf.Write", "bytes received by the writer", "the next serialisation"], [("number and offset of written bytes", "base of the cross-reference table", "gopdf.go: countingWriter")], OV),
  "writers fail at seeded byte offsets during seeded histories; error, prefix and the next complete output are judged")

p("C02", "Whatever has been drawn, every serialisation is a well-formed PDF",
  "At every point of every history of API calls, with or without protection and compression, a complete serialisation is a file a strict reader accepts: header, cross-reference entries pointing exactly at their objects, trailer, stream lengths and filters, object types and references, page tree with correct counts and parents, annotations, outline tree, name and resource entries all present and of the right type. Every resource a content stream uses is defined for its page, and every content stream is syntactically valid with balanced graphics states and text objects when the calls were balanced.",
  ["histories", "configurations", "inputs"],
  "all histories of page, text, font, image, mask, path, colour, link, outline, placeholder, header/footer, import and serialisation calls over all options and inputs",
  "tests check that writing does not fail; almost none reads the file back",
  a(["gopdf.go", "iobj.go", "pages_obj.go", "page_obj.go", "content_obj.go", "catalog_obj.go", "outlines_obj.go", "annot_obj.go", "procset_obj.go", "cid_font_obj.go", "subset_font_obj.go", "unicode_map.go", "image_obj.go", "smask_obj.go", "imported_obj.go"],
    [("prepare assigns references before writing", "gopdf.go: prepare, compilePdf, xref"), ("each object writes its dictionary", "*_obj.go: write")],
    ["bytes of every complete serialisation, read by an independent strict parser"], None, OV),
  "every output of every history is parsed by an independent strict reader and compared with the model")

p("C03", "Serialising never changes a document, and all routes write the same bytes",
  "Serialising is read-only: after any history, writing the same document again through any of the routes (to a writer, to a file, as bytes, through Read in pieces of any size) gives identical bytes, or identical content where imported pages are involved. Continuing to draw after a serialisation gives exactly the document that results from the same calls without it.",
  ["histories", "schedules", "configurations"],
  "all histories with serialisations inserted at arbitrary points, all routes and all read sizes",
  "tests serialise once, at the end",
  a(["gopdf.go", "buff.go", "unicode_map.go", "subset_font_obj.go", "outlines_obj.go", "encryption_obj.go"], [("prepare must be idempotent", "gopdf.go: prepare, compilePdf"), ("Read serialises on first use and then drains a buffer", "gopdf.go: Read")],
    ["GoPdf.WriteTo", "GoPdf.Write", "GoPdf.WritePdf", "GoPdf.GetBytesPdf", "GoPdf.GetBytesPdfReturnErr", "GoPdf.Read"], None, OV),
  "outputs through all routes at several points are compared with each other and with the model of the calls alone")

p("C04", "WritePdf on a failing disk never reports success for an incomplete file",
  "When opening, writing (at any offset, with or without a short write) or closing the file fails, WritePdf returns an error. When it reports success, the file holds exactly the complete document and nothing else, even when a longer file existed at the path. A failed attempt leaves the document usable, so that writing it again succeeds completely.",
  ["fault_sequences", "histories", "crash_points"],
  "every fault of the disk at every step of writing a file, over all histories of documents",
  "tests write to a working disk",
  a(["gopdf.go"], [("WritePdf opens, writes and closes", "gopdf.go: WritePdf")], ["error of WritePdf", "bytes of the file at the path afterwards"], None, OV),
  "os.File calls go through a simulated disk that fails open, write, short write and close by the seed")

p("C05", "Concurrent documents do not influence each other",
  "Documents built at the same time in different goroutines, sharing only what the caller shares on purpose (byte slices, images, font containers), produce exactly the results, errors and bytes each produces when it is built alone. This holds for every interleaving of their calls and of the goroutines the library itself starts, without data races or deadlocks.",
  ["schedules", "histories", "inputs"],
  "all interleavings of the calls of two to four documents, at statement granularity",
  "tests build one document at a time in one goroutine",
  a(["buffer_pool.go", "gopdf.go", "buff.go", "image_obj.go", "image_obj_parse.go", "font_container.go", "subset_font_obj.go", "fontmaker/core/ttfparser.go"], [("buffers come from a shared pool", "buffer_pool.go"), ("package-level tables must stay read-only", "arabic_alphabet.go, page_sizes.go, unicode_map.go"), ("the image encoder runs in its own goroutine", "gopdf.go: ImageFromWithOption")],
    ["results and outputs of each document against a solo run", "Go's race detector under the simulated scheduler"], None, OV),
  "each document's results and bytes under a seeded interleaving are compared with its solo run and with the model; a second engine runs the schedules under the race detector")

p("C06", "A font container can be shared by concurrent documents",
  "Adding families to a container and using them in documents, from any number of goroutines, is linearizable: a use sees the last completed addition of that family, or fails if there was none. Documents that use the same family never influence each other's text, metrics, kerning overrides or embedded subset. There are no data races and no deadlocks.",
  ["schedules", "histories", "fault_sequences"],
  "all interleavings of additions (which may fail) and uses by several documents",
  "the container tests run sequentially over one document",
  a(["font_container.go", "gopdf.go", "subset_font_obj.go"], [("concurrent map of parsed fonts, cloned per document", "font_container.go"), ("AddTTFFontFromFontContainer", "gopdf.go")], ["AddTTFFont*/AddTTFFontFromFontContainer results", "text and fonts in each output"], None, OV),
  "container histories are checked for linearizability, documents against the model and a solo twin, and the same histories run under the race detector")

p("C07", "How a source delivers its bytes does not matter",
  "A font or image gives the same result whether it is passed as bytes, read from a path, or read from a reader that delivers the same bytes in pieces of any size, with empty reads, or with the end of file together with the last bytes. The text, metrics, subset and pixels in the output are those of the complete source.",
  ["inputs", "schedules", "configurations"],
  "all fonts and images, and all ways a reader can split its data over reads",
  "tests read from files and in-memory readers that deliver everything at once",
  a(["gopdf.go", "image_holder.go", "image_obj.go", "image_obj_parse.go", "fontmaker/core/ttfparser.go", "font_container.go"], [("readers are drained before parsing", "image_holder.go: ImageHolderByReader; gopdf.go: AddTTFFontByReader*; image_obj.go")],
    ["success of the call", "pixels, glyphs and widths in the output"], None, OV),
  "readers and files deliver data in seeded fragments; results are judged against independent decoders")

p("C08", "A failing source is reported, and the failed call changes nothing",
  "If a reader or file fails at any offset while a font or image is loaded, the call returns an error: it never succeeds with partial data. The failed call leaves the document as it was, so that the same call with a working source then succeeds, and the final document contains only what the successful calls put there.",
  ["fault_sequences", "inputs", "histories"],
  "every offset and kind of read failure, for every way to load a font or image, at every point of a history",
  "no test has a failing reader",
  a(["gopdf.go", "image_holder.go", "image_obj.go", "image_obj_parse.go", "fontmaker/core/ttfparser.go", "font_container.go"], [("errors of readers are returned before the document is touched", "gopdf.go: AddTTFFont*, Image*; image_holder.go")],
    ["error of the call", "position, pages and output of the document afterwards"], None, OV),
  "reads fail at seeded offsets; the error, the unchanged state and the later output are judged")

p("C09", "Damaged fonts and images are refused or used, but never harm",
  "For any damaged or truncated font or image bytes, in any way of loading them, the call returns an error or a result within bounded time and memory: it never panics, never loops, never exits the process, and never takes memory out of proportion to the input and its declared image size. A refused input leaves the document as it was; the document can be completed and is well-formed.",
  ["inputs", "fault_sequences"],
  "all byte strings close to valid fonts and images, through every loading route",
  "tests load a handful of valid files",
  a(["fontmaker/core/ttfparser.go", "fontmaker/core/ttfparser_cmap.go", "subset_font_obj.go", "image_obj_parse.go", "image_obj.go", "subfont_descriptor_obj.go", "list_cache_content.go"], [("length and offset checks of the font parser", "fontmaker/core"), ("chunk and colour checks of the image parsers", "image_obj_parse.go")],
    ["panic, time (counted steps), memory and error of the call", "output of the document afterwards"], None, OV),
  "seeded corruption of valid fonts and images; each call runs under a step budget and an allocation bound")

p("C10", "ImageFrom delivers every image through its concurrent encoder, or fails cleanly",
  "An image.Image passed to ImageFrom or ImageFromWithOption appears on the page with exactly its pixels and in its place, or the call returns an error, for every image type and every interleaving of the library's encoder goroutine with the caller and with other documents. When encoding fails, the call returns the error, leaves no goroutine behind, and the document stays usable.",
  ["schedules", "inputs", "fault_sequences"],
  "all interleavings of encoder and reader goroutines, all image types and formats",
  "tests use one image in one goroutine under the real scheduler",
  a(["gopdf.go", "buffer_pool.go", "image_holder.go"], [("encoder goroutine writing into a pipe read by the image parser", "gopdf.go: ImageFromWithOption")], ["pixels of the image in the output", "error of the call", "goroutines left"], None, OV),
  "the encoder goroutine is a simulated task; pixels, errors and blocked tasks are judged")

p("C11", "A protected document is encrypted everywhere and opens with its passwords",
  "With protection configured, the user password and the owner password (and only they) open the document, the stored permissions are the configured ones, and after decryption every text, image, mask, link, anchor, outline and information string equals that of the unprotected document. Nothing that must be encrypted is left readable: every string and stream of the document, except where the format requires it, is encrypted with the key of its own object.",
  ["inputs", "histories", "configurations"],
  "all passwords and permission sets, over all document histories and repeated serialisations",
  "tests only write a protected file; nothing decrypts one",
  a(["pdf_protection.go", "encryption_obj.go", "gopdf.go", "outlines_obj.go", "annot_obj.go", "pdf_info_obj.go", "smask_obj.go", "image_obj.go", "content_obj.go", "subset_font_obj.go"], [("object keys and RC4", "pdf_protection.go"), ("each object encrypts its strings and streams", "*_obj.go: write")],
    ["outputs, decrypted with an independent implementation of the standard security handler"], None, OV),
  "outputs are decrypted by an independent implementation and compared with the model")

p("C12", "Pages, headers, footers and the cursor follow the calls",
  "Every added page exists once, in order, with the size and trim box it was given, whatever the unit. Header and footer functions run exactly once per page, in their place, and what they draw appears on that page only; SetPage returns to a page and everything drawn then goes to that page. Automatic page breaks happen exactly when the cursor plus the height passes the bottom margin, and the cursor position after every call is the documented one. Start begins a new, empty document on a used value.",
  ["histories", "configurations"],
  "all histories of page, position, margin and drawing calls, in all units and page sizes",
  "tests use one or two pages of one size in points",
  a(["gopdf.go", "page_obj.go", "pages_obj.go", "page_option.go", "margin.go", "current.go", "config.go"], [("AddPageWithOption, SetPage", "gopdf.go"), ("SetNewY, SetNewYIfNoOffset, SetNewXY", "gopdf.go")], ["GetNumberOfPages, GetX, GetY", "MediaBox, TrimBox and content of every page"], None, OV),
  "position and page count are compared with a reference model after every call, page boxes and contents after every serialisation")

p("C13", "Text is readable back exactly, drawn with the right glyphs in the right place",
  "For every text drawn by the text and cell calls, a reader gets back exactly its characters in order, and a viewer draws for each the glyph the font assigns to it (the substitute or missing glyph where the font has none), with the outline, advance width, kerning, spacing, size, colour, underline and position of the calls. The embedded subset contains the outline and width of every glyph used, including components of composite glyphs. Measured widths equal the drawn widths.",
  ["inputs", "histories", "configurations"],
  "all fonts (cmap formats, composites, kerning, embedded metrics), all strings, options and call sequences",
  "tests draw a few strings with two fonts and look at the file by eye",
  a(["subset_font_obj.go", "cache_content_text.go", "unicode_map.go", "cid_font_obj.go", "subfont_descriptor_obj.go", "pdf_dictionary_obj.go", "map_of_character_To_glyph_index.go", "fontmaker/core/ttfparser.go", "gopdf.go", "cell_option.go"], [("character to glyph mapping and subset of used glyphs", "subset_font_obj.go: AddChars, CharIndex; pdf_dictionary_obj.go: makeFont"), ("text operators", "cache_content_text.go"), ("ToUnicode map", "unicode_map.go")],
    ["text operators, ToUnicode map, widths and embedded font program of the outputs", "MeasureTextWidth, MeasureCellHeightByText, IsGlyphMissing"], None, OV),
  "the text of every output is read back through its own font program and ToUnicode map and compared with a reference model over an independent font reader")

p("C14", "Images keep their pixels, place, crop, mask and are shared correctly",
  "Every image drawn appears with exactly the pixels and transparency of its source, in the rectangle, rotation, flip and crop of the call, on the right page. Masks hide exactly what their image and box say. Drawing the same image again reuses the stored image, and different images, options or masks are never confused with each other.",
  ["inputs", "histories", "configurations"],
  "all JPEG and PNG colour types, depths, palettes and interleavings of image calls",
  "tests draw a few files and compare nothing",
  a(["image_obj.go", "image_obj_parse.go", "smask_obj.go", "cache_content_image.go", "transparency_xobject_group.go", "img_info.go", "image_holder.go", "gopdf.go"], [("image cache by identity of the source", "gopdf.go: createImageObject / ImageCache"), ("PNG and JPEG parsing, alpha split", "image_obj_parse.go")], ["image and mask objects and their placement in the outputs"], None, OV),
  "image objects are decoded from the outputs and compared with an independent decoding of the source; placement with the model")

p("C15", "Graphics state and paths arrive as they were set",
  "Every line, rectangle, oval, curve, polygon and clip appears with the geometry of the call and with the line width, dash, colours, colour space, rotation, transparency and blend mode that the calls before it put in force for it, on the page that was current. Saved and restored states nest; a setting never leaks to another page, to another shape, or to a call made before it.",
  ["histories", "configurations", "inputs"],
  "all sequences of state, path and page calls, in all units",
  "tests draw a few shapes and compare nothing",
  a(["cache_content_line.go", "cache_content_rectangle.go", "cache_content_oval.go", "cache_contnent_curve.go", "cache_content_polygon.go", "cache_content_clip.go", "cache_content_rotate.go", "cache_content_line_type.go", "cache_content_custom_line_type.go", "cache_content_graphics_state.go", "cache_color_space.go", "color_space_obj.go", "ext_g_state_obj.go", "transparency.go", "gopdf.go"], [("ordered list of operations per page", "list_cache_content.go"), ("extended graphics states by transparency", "transparency.go")], ["painted paths, their graphics state and clip in the outputs"], None, OV),
  "content streams are interpreted by an independent reader into painted items and compared with the model")

p("C16", "Links, anchors, outlines and document information point where they should",
  "Every external and internal link appears on its page with its rectangle and target, internal links go to the page and height of their anchor wherever and whenever it was set, and outline entries form the tree of their levels in order with their titles and destinations. Titles, addresses and information strings are read back exactly, for every string including non-Latin text and special characters.",
  ["inputs", "histories", "configurations"],
  "all sequences of link, anchor, outline, information and page calls, all strings",
  "tests create a link or outline and compare nothing",
  a(["annot_obj.go", "link_option.go", "outlines_obj.go", "pdf_info_obj.go", "catalog_obj.go", "gopdf.go", "strhelper.go"], [("anchors resolved when writing", "annot_obj.go"), ("outline linking", "outlines_obj.go, gopdf.go: AddOutline*"), ("UTF-16 and escaped strings", "pdf_info_obj.go, strhelper.go")], ["annotations, outline tree, destinations and information dictionary of the outputs"], None, OV),
  "annotations, outline tree and information are read from the outputs and compared with the model")

p("C17", "Placeholder text appears in its place, in the style of its creation",
  "Text filled into a placeholder appears on the placeholder's page, at its position and alignment, in the font, size, colour and spacing that were in force when it was created, whatever was drawn or changed in between. Filling never changes the cursor, the current page, font or colours of later drawing, and unfilled placeholders draw nothing.",
  ["histories", "configurations"],
  "all sequences of placeholder creation, drawing, page changes, fills, refills and serialisations",
  "one test fills placeholders in one order",
  a(["placeholder.go", "gopdf.go", "cache_content_text.go"], [("PlaceHolderText, FillInPlaceHoldText", "gopdf.go, placeholder.go")], ["text of each page in the outputs", "cursor after each call"], None, OV),
  "text and state of the outputs are compared with a model of the placeholders")

p("C18", "Imported pages appear whole, in place, and each from its own source",
  "A page imported from another PDF, given by path, bytes or stream, is drawn with exactly its content and resources at the position and size of the call, on the page that was current; importing all pages of a source draws each in order on a new page at its own size. Pages from several sources, used repeatedly, in any order and over repeated serialisations, never mix their content, and the document stays well-formed.",
  ["inputs", "histories", "configurations"],
  "all sequences of imports from several sources with drawing and serialisations in between",
  "tests import one page once and compare nothing",
  a(["gopdf.go", "imported_obj.go", "cache_content_imported_object.go", "procset_obj.go"], [("ImportPage, ImportPageStream, UseImportedTemplate, ImportPagesFromSource", "gopdf.go"), ("objects of the importer are renumbered into the document", "imported_obj.go")], ["form objects, their content and placement in the outputs"], None, OV),
  "form objects in the outputs are compared with the generated source pages")

p("C19", "A refused call says so and changes nothing",
  "A call that cannot be carried out (a font family, style, colour space, placeholder or page that does not exist, a colour space that does, a rectangle or corner radius that is impossible, data that is not a font or an image, a missing file, an unknown or unreadable source of pages, empty text to split) returns an error, and after it the document is as before: cursor, page, font, colours, fonts, images and everything drawn so far and later are those of the same calls without the refused one, in every serialisation.",
  ["inputs", "histories", "configurations"],
  "all histories with refused calls of every kind at arbitrary points",
  "tests check for some errors that they are returned, and never go on with the document",
  a(["gopdf.go", "image_obj.go", "image_obj_parse.go", "font_container.go", "subset_font_obj.go", "transparency.go"], [("validation before the document is changed", "gopdf.go: SetFontWithStyle, Rectangle, AddColorSpaceRGB, imageByHolder, maskHolder, addFont*")], ["returned errors", "cursor and page count", "every later output"], None, OV),
  "histories with many refused calls are judged against a model that ignores them")

p("C20", "Memory of the caller stays the caller's",
  "The library never writes into byte slices, images, option values or points the caller passes: changing an option, mask, point list, dash array, password or protection value after the call has no effect on the document. Byte slices returned by the library are the caller's and later calls do not change them.",
  ["histories", "inputs", "schedules"],
  "all calls that take or return slices, pointers or images, followed by arbitrary further calls",
  "tests never touch arguments after a call",
  a(["gopdf.go", "cache_content_custom_line_type.go", "cache_content_polygon.go", "image_holder.go", "subset_font_obj.go", "buffer_pool.go", "pdf_protection.go", "transparency.go"], [("copies of caller-owned values", "gopdf.go")], ["checksums of all inputs after every run", "outputs after the caller scribbled over arguments"], None, OV),
  "inputs are checksummed and arguments overwritten after each call; outputs are judged against the model")

p("C21", "Tables are drawn as they were described",
  "A table of NewTableLayout appears with its header, its rows in order and empty rows up to its number of rows, at the position, column widths and row height given, in the unit of the document. Every cell has the fill, border, text colour, font and size of its own style, or else of the style of the table part it belongs to, its text is broken into lines within the column and aligned as the column, and the borders of cells, header and table are the configured ones. A style applies to its cell only, and tables do not influence each other.",
  ["inputs", "histories", "configurations"],
  "all tables over all styles, column and row counts, fonts, units and preceding drawing state",
  "tests draw tables and do not read the file back",
  a(["table.go", "gopdf.go", "cell_option.go"], [("DrawTable, drawCell, drawBorder", "table.go")], ["fills, lines and text items of the pages"], None, OV),
  "every fill, line and glyph of every table is compared with a model of the table")

p("C22", "What is measured is what is drawn, and lines are split where they should be",
  "MeasureTextWidth and MeasureCellHeightByText return the width and height the same text has when it is drawn, with kerning, character spacing, substituted characters, in the unit of the document. SplitText, SplitTextWithWordWrap and SplitTextWithOption return lines that contain the whole text in order and fit the width, each as long as it can be under the break rule. MultiCell draws these lines one below the other, and IsFitMultiCell and IsFitMultiCellWithNewline say whether they fit and how high they are. None of the measuring calls changes what is drawn later.",
  ["inputs", "histories", "configurations"],
  "all texts, widths, fonts, spacings, break options and units, in any order with drawing",
  "tests measure a few strings in one font",
  a(["gopdf.go", "cache_content_text.go", "break_option.go", "subset_font_obj.go"], [("createContent measures and draws", "cache_content_text.go"), ("SplitTextWithOption, IsFitMultiCell, MultiCellWithOption", "gopdf.go")], ["returned measures and lines", "text items of the outputs"], None, OV),
  "measures, split lines and drawn lines are compared with a model over the generated fonts")

p("C23", "Units are honoured everywhere",
  "Every length, position and size that a call takes, and every one it returns, is in the unit of the document: points, millimetres, centimetres, inches, pixels, or the factor of Config.ConversionForUnit, which goes before the unit. Page sizes of the package are in points in every document, wherever a rectangle is taken. The same drawing made in another unit gives the same pages.",
  ["inputs", "histories", "configurations"],
  "all calls that take or return lengths, in all units and custom factors",
  "almost all tests use points",
  a(["config.go", "rect.go", "box.go", "gopdf.go", "margin.go", "table.go", "page_sizes.go"], [("conversion at the border of the API", "gopdf.go: UnitsToPoints, UnitsToPointsVar; rect.go, box.go: unitsToPoints")], ["coordinates of everything in the outputs", "returned positions, margins and measures"], None, OV),
  "documents in all units and custom factors are judged against a model that works in points")

p("C24", "Arabic text is shaped as its letters join",
  "ToArabic gives every letter the form its neighbours ask for: isolated, initial, medial or final, where letters join only if both can, right-joining letters never join the letter after them, nothing joins a hamza, and marks between letters do not part them. Lam and alef, a vowel with its shadda, and the word Allah become their ligatures. The result is in visual order, every mark still with its own letter; no character is lost or added, and what is not Arabic is kept as it is. The same text gives the same result in every goroutine and at every time, and what is drawn is this result.",
  ["inputs", "schedules"],
  "all texts of Arabic and Persian letters, marks, ligatures, tatweel, digits, spaces and other characters, shaped in several goroutines at once, with every order in which Go ranges over the tables",
  "tests shape a dozen words; several letters and pairs never occur in them",
  a(["arabic_helper.go", "arabic_alphabet.go"], [("choice of the form from the neighbours", "arabic_helper.go: getCharShape, getHarf"), ("tables of letters, joining and marks", "arabic_alphabet.go"), ("reversal with marks", "arabic_helper.go: reverseWithTashkeel")], ["the returned string", "text items of the outputs"], None, OV),
  "shaped text is read back and compared with a shaper written from the Unicode joining rules")

def main():
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for d, _ in P:
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "./check.sh build",
        "hooks": {"guard": "none: no hook is committed to /repo", "enable": "sim/ovgen instruments the working tree of /repo into a 'go build -overlay' outside /repo; shipped code carries no hooks", "source_commits": []},
        "checks": [],
        "not_applicable": [],
        "notes": "All checks: ./check.sh PROPERTY. Replays: ./check.sh replay FILE. Known findings and repaired defects: known-findings.json.",
    }
    for d, note in P:
        m["checks"].append({
            "property": d["id"], "quick_cmd": "./check.sh %s quick" % d["id"], "thorough_cmd": "./check.sh %s thorough" % d["id"],
            "evidence_file": "evidence/%s.json" % d["id"],
            "technique": "deterministic simulation with fault injection: seeded search over histories, schedules and faults against a reference model",
            "level": "exploration",
            "level_note": note[0].upper() + note[1:] + ". Seeded search, not exhaustive; trusts the simulator, the reference model and the independent readers in /verif/sim.",
        })
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")

main()
