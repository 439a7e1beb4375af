package main

import "strings"

// Search is one profile a property is searched in.
type Search struct {
	Profile string
	Quick   int // worlds of the quick tier
	Times   int // worlds of the thorough tier, as a multiple
	Race    bool
	Batch   int
}

func (s *Search) times() int {
	if s.Times == 0 {
		return 60
	}
	return s.Times
}

// Prop is a property: the worlds it is searched in and the classes of
// violations that break it.
type Prop struct {
	ID      string
	Classes string
	Assume  []string
	Search  []Search
}

// generic failures break every property: the history does not get to its end.
const generic = "panic hang exit crash deadlock"

func (p *Prop) classes() []string {
	return strings.Fields(p.Classes + " " + generic)
}

var (
	aReader  = "outputs are judged through an independent PDF reader of this machinery (sim/pdfr), which reads the constructs gopdf writes and reports everything else as a violation"
	aModel   = "histories are drawn from the operation families of the generator (sim/world/gen.go); calls it never makes are not judged"
	aSched   = "tasks interleave at statements of gopdf and at I/O and lock operations; code of the Go standard library and of gofpdi runs without preemption between those points"
	aDisk    = "the disk is a fault layer over os.File calls (open, read, write, close) on scratch files; crash consistency of the kernel's file system is outside gopdf"
	aImport  = "source documents of imports are made by the generator (classic cross-reference tables, pages of one size per document), because gofpdi has defects outside them"
	aFonts   = "fonts are synthetic TrueType files (glyf, cmap 4 and 12, kern, composites) made by sim/ttfx and images are made by sim/imgx"
	aRace    = "the race engine sees the interleavings the scheduler draws; Go's race detector decides happens-before"
	aCorrupt = "corruption is drawn from byte flips, truncations, splices, and rewritten length and offset fields of valid files"
)

// Props are the claimed properties.
var Props = []Prop{
	{"C01", "sink routes readonly struct", []string{aReader, aModel}, []Search{{"sink", 8000, 0, false, 0}, {"sinkmix", 3500, 0, false, 0}}},
	{"C02", "struct enc", []string{aReader, aModel, aImport}, []Search{{"mix", 1900, 0, false, 0}, {"encimport", 400, 0, false, 0}, {"history", 3300, 0, false, 0}, {"import", 1500, 0, false, 0}, {"links", 1200, 0, false, 0}}},
	{"C03", "routes readonly unwritten isolation struct", []string{aReader, aModel, aImport}, []Search{{"rewrite", 4000, 0, false, 0}, {"rewriteimport", 1000, 0, false, 0}}},
	{"C04", "disk sink readonly", []string{aDisk, aModel}, []Search{{"disk", 9600, 0, false, 0}}},
	{"C05", "isolation race memory linear image text textpos fontsubset gfx path clip mask imagepos links outline info pages struct enc error pen measure container", []string{aSched, aRace, aModel}, []Search{{"mix", 900, 0, false, 0}, {"pool", 700, 0, false, 0}, {"mixrace", 500, 0, true, 0}, {"pool", 300, 0, true, 0}}},
	{"C06", "linear container race isolation error text textpos fontsubset measure memory struct", []string{aSched, aRace, aFonts}, []Search{{"conts", 2400, 0, false, 0}, {"contsrace", 1200, 0, true, 0}}},
	{"C07", "source error container fontsubset image imagepos mask measure text textpos isolation struct", []string{aFonts, aModel}, []Search{{"sources", 6000, 0, false, 0}}},
	{"C08", "source error container fontsubset image imagepos mask measure text textpos struct pen pages isolation", []string{aFonts, aModel, aDisk}, []Search{{"faults", 6600, 0, false, 0}}},
	{"C09", "corrupt alloc error struct container", []string{aCorrupt}, []Search{{"corrupt", 5200, 0, false, 0}}},
	{"C10", "image imagepos error struct isolation race pages pen", []string{aSched, aRace}, []Search{{"pool", 2000, 0, false, 0}, {"pool", 500, 0, true, 0}}},
	{"C11", "enc struct text textpos fontsubset image imagepos mask links outline info gfx path form formpos", []string{aReader, aModel}, []Search{{"enc", 7000, 0, false, 0}, {"encimport", 1500, 0, false, 0}}},
	{"C12", "pages pen error struct text textpos gfx path clip links", []string{aReader, aModel}, []Search{{"pages", 14400, 0, false, 0}}},
	{"C13", "text textpos fontsubset measure pen error struct path gfx", []string{aReader, aFonts, aModel}, []Search{{"text", 8800, 0, false, 0}}},
	{"C14", "image imagepos mask error pen memory struct gfx clip", []string{aReader, aModel}, []Search{{"images", 6000, 0, false, 0}}},
	{"C15", "gfx path clip mask error struct", []string{aReader, aModel}, []Search{{"paths", 9600, 0, false, 0}, {"mix", 900, 0, false, 0}}},
	{"C16", "links outline info error struct pages pen", []string{aReader, aModel}, []Search{{"links", 8400, 0, false, 0}}},
	{"C17", "text textpos fontsubset path gfx error pen readonly struct", []string{aReader, aModel}, []Search{{"holes", 7200, 0, false, 0}}},
	{"C18", "form formpos pages struct error pen readonly isolation", []string{aReader, aImport}, []Search{{"import", 6000, 0, false, 0}}},
	{"C19", "error pen pages text textpos fontsubset measure gfx path clip image imagepos mask links outline info struct form formpos readonly", []string{aReader, aModel}, []Search{{"refuse", 6000, 0, false, 0}}},
	{"C20", "memory race", []string{aModel}, []Search{{"owner", 6000, 0, false, 0}, {"pool", 1200, 0, false, 0}}},
	{"C21", "text textpos fontsubset path gfx clip error pen measure struct", []string{aReader, aFonts, aModel}, []Search{{"tables", 4000, 0, false, 0}}},
	{"C22", "text textpos fontsubset measure pen error struct path", []string{aReader, aFonts, aModel}, []Search{{"measure", 6000, 0, false, 0}}},
	{"C23", "pages pen measure text textpos gfx path clip imagepos mask links outline formpos error struct", []string{aReader, aModel}, []Search{{"units", 5000, 0, false, 0}, {"import", 1000, 0, false, 0}}},
	{"C24", "arabic race text textpos error struct", []string{aModel, aSched, aRace}, []Search{{"arabic", 9000, 0, false, 0}, {"arabicrace", 300, 0, true, 0}}},
}
