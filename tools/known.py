#!/usr/bin/env python3
"""Writes known-findings.json: the defects found, repaired and not."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K = []
src = {"seed": 77356883230866, "pages": 4, "image": True}

def probe(op, pdf, prot=None):
    d = dict(unit=1, w=612, h=792, trim=[0, 0, 0, 0], ops=[{"k": "addpage"}, op, {"k": "out", "s": ["bytes"], "i": [1]}])
    if prot:
        d["prot"] = prot
    return dict(profile="import", seed=3, docs=[d], pdfs=[pdf], policy={"mean": 0})

def imp(page):
    return {"k": "import", "s": ["stream"], "f": [79.3, 137.77, 0, 0], "i": [0, page]}

def known(id, prop, what, cls, msg, world):
    K.append(dict(property=prop, id=id, status="known", what=what, **{"class": cls}, message=msg, probe=world))

known("import-page-boxes", "C18", "gofpdi gives every imported page the boxes of page 1 of its source, so page n of a source whose pages differ in size is drawn in the size of page 1", "form", "bbox", probe(imp(2), dict(src, sizes=True)))
known("import-white-space", "C18", "gofpdi skips white space after the keyword stream, so a source stream that begins with a white space byte loses it, and ImportPage panics", "panic", "Expected next token to be: endstream", probe(imp(1), dict(src, white=True)))

def fixed(prop, commit, what):
    K.append(dict(property=prop, id="fixed-" + commit, status="fixed", commit=commit, what=what, line="fixed: property=%s %s %s" % (prop, commit, what)))

FIXED = """
C01 e39ad83 write errors of objects, the cross-reference table and the trailer were dropped: WriteTo reported success for a truncated document
C03 697edca writing a document changed it (references, resources and outline objects were added again), so the second write differed
C12 d9617d3 SetPage selected the n-th content stream, not the n-th page
C20 98e587c SetCustomLineType converted and kept the caller's slice
C15 c5d4e1f opaque transparency dropped its blend mode, an empty blend mode was written, and the caller's value was changed
C16 97054af characters outside the BMP were written as broken UTF-16
C18 e19e729 an imported template moved or got lost when the document was written again
C03 a72ee00 imported templates were listed in random map order
C15 c478725 a refused duplicate colour space left an object behind
C09 40b1e1e a truncated or malformed PNG panicked or was read short
C14 6d8b7ab a PNG with a chunk of length zero was read only up to it
C13 09ca116 components of nested composite glyphs and of .notdef were missing from embedded fonts
C09 51767b7 a damaged font panicked, or looped
C09 3a6b008 an image of width or height zero divided by zero
C20 1a28d3f drawing with a mask changed the caller's mask options
C14 4cde424 an image drawn again got the size of its first use, and was confused with its use as a mask
C14 812c1db the image cache read the holder only once and confused images
C20 cf53c8a setting a password wrote behind the caller's slice
C11 a031eeb image masks of a protected document were not encrypted
C11 89af540 outline titles of a protected document were not encrypted
C16 4ba97e7 a link to a missing anchor left an empty object, and a damaged annotation
C16 423b572 outline items did not refer to their parent and previous sibling
C16 dc23776 a nested outline tree had wrong first and last items and counts
C16 6356689 links, anchors and outlines were placed by the size of the default page
C16 a7738f3 outlines before the first page panicked or pointed wrong
C12 851df6b automatic page breaks compared a position in units with a margin in points
C13 022501e text was joined to the text before it although its state, page position or font had changed
C13 b3d87e7 a cell with a border or background joined the text before it, painting over it or at the wrong place
C13 befd3af characters that a cmap maps to the missing glyph were not substituted
C13 ea8571b ToUnicode declared a one byte code space for two byte codes
C17 7da3d0f filling a placeholder again, in another unit, font or position misplaced it
C02 b809271 imported objects ended twice (endobj endobj)
C18 a73e09a pages imported from several sources in turn got each other's content
C18 204b536 ImportPagesFromSource drew pages in the wrong size in units other than points
C12 99c7341 Start did not reset the page count
C13 78b2c6d SplitText looped for ever for widths narrower than a character
C14 e9707c4 the transparency of palette images was lost for entries without a tRNS value
C20 2dcb9d1 image crop options were kept, so changing them later changed the document
C10 4564015 a JPEG without pixels was embedded or divided by zero
C18 15e0a1d import streams held in variables of the same address were taken for each other
C12 8b35955 the default trim box of Config and a trim box without a page size were ignored
C13 b7775da blocks of the ToUnicode map had more than 100 ranges
C14 41d0006 a palette whose bytes look like white space lost its first or last bytes
C14 b036f31 an image file replaced under its path was drawn as the file it was before
C16 9414f88 the creation date lost the minutes of its time zone
C18 10df27b ImportPagesFromSource drew turned pages in the size of the unturned page
C18 a43f93b a page imported by a box it does not define came out empty, with a bounding box of size zero
C02 e5f9ca7 names of colour spaces and fonts with spaces or delimiters broke the PDF syntax
C20 f9fdfee tables kept the caller's slice of a styled row
C13 03a99be tables drew a cell in another font when its font was missing, without an error
C11 5222680 the objects of imported pages were written unencrypted into protected documents
C23 01798bc Config.ConversionForUnit was not applied to rectangles of images, cells and pages and to trim boxes
C18 95adc45 pages imported with the caller's own importer and by ImportPage in one document drew each other's content
C23 03c4d76 image crops were not converted to the unit of the document
C14 baef86f masked images that are turned and flipped or cropped were drawn in another place
C24 1ee782a Arabic letters joined a hamza, and letters after a jeh joined it; teh marbuta inside a word was not joined
C24 b703e8e Arabic marks before the first letter were dropped
C19 e6d09e3 ImportPagesFromSource panicked when the source is missing or cannot be read
"""
for l in FIXED.strip().splitlines():
    p, c, w = l.split(" ", 2)
    fixed(p, c, w)
with open(os.path.join(here, "known-findings.json"), "w") as f:
    json.dump(K, f, indent=1, ensure_ascii=False)
    f.write("\n")
