package world

// Profiles are the kinds of worlds the checks search in, by name.
var Profiles = map[string]*Profile{}

var allRoutes = []string{"writeto", "write", "bytes", "byteserr", "read", "path"}

func reg(p Profile) *Profile {
	if p.Routes == nil {
		p.Routes = allRoutes
	}
	if p.MaxDoc == 0 {
		p.MinDoc, p.MaxDoc = 1, 3
	}
	if p.MaxOps == 0 {
		p.MinOps, p.MaxOps = 5, 40
	}
	if p.Fonts == 0 {
		p.Fonts = 2
	}
	if p.Big == 0 && !p.Race {
		p.Big = 0.015
	}
	q := p
	Profiles[p.Name] = &q
	return &q
}

func init() {
	reg(Profile{Name: "paths", W: map[string]int{"path": 60, "color": 20, "stroke": 20, "rotate": 8, "save": 6, "unwind": 10, "clip": 6, "settr": 10, "addcs": 4, "setcs": 6, "page": 6, "setpage": 5}, Out: 0.05, Units: 0.4, Pages: 0.4, Unbal: 0.1, Comp: 0.3})
	reg(Profile{Name: "text", W: map[string]int{"text": 60, "cell": 60, "multicell": 10, "mcell": 8, "table": 5, "fit": 4, "move": 40, "color": 15, "spacing": 6, "font": 8, "setfont": 20, "page": 6, "setpage": 4, "measure": 6, "hasglyph": 3, "settr": 6, "newy": 4}, Out: 0.06, Units: 0.3, Pages: 0.2, Options: 0.5, Frag: 0.5, Src: 0.1, Fonts: 3, Comp: 0.3})
	reg(Profile{Name: "tables", MinDoc: 1, MaxDoc: 2, W: map[string]int{"table": 60, "text": 10, "cell": 5, "setfont": 15, "font": 8, "move": 10, "color": 10, "spacing": 5, "stroke": 6, "path": 4, "settr": 3, "page": 6, "setpage": 4}, Out: 0.06, Units: 0.4, Pages: 0.2, Options: 0.4, Fonts: 3, Comp: 0.2, Prot: 0.1, MinOps: 3, MaxOps: 25})
	reg(Profile{Name: "measure", W: map[string]int{"measure": 40, "multicell": 30, "mcell": 20, "fit": 35, "hasglyph": 8, "text": 15, "cell": 15, "spacing": 15, "setfont": 25, "font": 15, "move": 15, "page": 5, "setpage": 3}, Out: 0.05, Units: 0.4, Pages: 0.2, Options: 0.5, Fonts: 4, Comp: 0.2, MinOps: 5, MaxOps: 40})
	reg(Profile{Name: "images", W: map[string]int{"image": 60, "mask": 30, "imagefrom": 5, "settr": 5, "rotate": 4, "unwind": 4, "page": 6, "setpage": 4}, Out: 0.06, Units: 0.2, Pages: 0.2, Images: 5, Frag: 0.5, Src: 0.1})
	reg(Profile{Name: "links", W: map[string]int{"extlink": 20, "intlink": 30, "anchor": 20, "outline": 30, "move": 20, "page": 15, "setpage": 12, "text": 10, "info": 5, "setfont": 5}, Out: 0.08, Units: 0.3, Pages: 0.5})
	reg(Profile{Name: "holes", W: map[string]int{"ph": 40, "fill": 40, "text": 20, "move": 10, "page": 8, "setpage": 6, "setfont": 10, "font": 4, "color": 10, "spacing": 5}, Out: 0.1, Options: 0.4})
	reg(Profile{Name: "import", W: map[string]int{"import": 40, "importall": 10, "usetpl": 20, "badsrc": 4, "psizes": 6, "text": 10, "path": 10, "page": 10, "setpage": 5, "image": 5}, Out: 0.1, Prot: 0.15, PDFs: 3, Images: 2, Units: 0.3, Pages: 0.3, MaxOps: 15, MinOps: 3})
	reg(Profile{Name: "encimport", W: map[string]int{"import": 40, "importall": 10, "usetpl": 20, "badsrc": 4, "psizes": 6, "text": 10, "path": 10, "page": 10, "setpage": 5, "image": 5}, Out: 0.15, Prot: 1, Comp: 0.5, PDFs: 3, Images: 2, Units: 0.3, Pages: 0.3, MaxOps: 15, MinOps: 3})
	reg(Profile{Name: "mix", MinDoc: 2, MaxDoc: 4, W: map[string]int{"text": 40, "cell": 30, "move": 30, "color": 15, "path": 25, "stroke": 8, "rotate": 4, "save": 3, "unwind": 8, "clip": 3, "settr": 8, "addcs": 3, "setcs": 3, "font": 6, "setfont": 15, "spacing": 4, "page": 12, "setpage": 8, "image": 15, "mask": 6, "imagefrom": 3, "extlink": 6, "intlink": 8, "anchor": 6, "outline": 8, "ph": 6, "fill": 6, "info": 3, "measure": 3, "multicell": 3, "table": 3, "newy": 3, "margin": 2}, Out: 0.08, Units: 0.3, Pages: 0.3, Images: 3, Frag: 0.4, Src: 0.08, Sink: 0.2, DiskOut: 0.3, Prot: 0.2, Conts: 2, Header: 0.25, Options: 0.4, Comp: 0.4, Unbal: 0.05})
	reg(Profile{Name: "arabic", MinDoc: 1, MaxDoc: 3, W: map[string]int{"arabic": 80, "text": 10, "setfont": 10, "font": 4, "move": 10, "page": 4}, Out: 0.03, Units: 0.1, Fonts: 3, Options: 0.5, Comp: 0.3, MinOps: 10, MaxOps: 60})
	reg(Profile{Name: "arabicrace", Race: true, MinDoc: 2, MaxDoc: 4, W: map[string]int{"arabic": 80, "text": 10, "page": 4}, Out: 0.03, Fonts: 1, MinOps: 4, MaxOps: 20, Routes: []string{"writeto", "write", "bytes"}})
	reg(Profile{Name: "pool", MinDoc: 2, MaxDoc: 4, W: map[string]int{"imagefrom": 60, "path": 10, "page": 5}, Out: 0.1, Images: 2, MaxOps: 12, MinOps: 2})
	reg(Profile{Name: "conts", MinDoc: 2, MaxDoc: 4, W: map[string]int{"contadd": 40, "cuse": 60, "text": 20, "font": 20, "setfont": 10, "page": 5}, Out: 0.1, Conts: 2, Frag: 0.4, Src: 0.1, Fonts: 4, MaxOps: 20})
	reg(Profile{Name: "corrupt", W: map[string]int{"corruptfont": 50, "corruptimg": 50}, Out: 0.02, Images: 4, Fonts: 3, Frag: 0.4, Src: 0.1, MinDoc: 1, MaxDoc: 2})
	all := func(drop ...string) map[string]int {
		m := map[string]int{"text": 40, "arabic": 2, "cell": 25, "move": 30, "color": 12, "path": 20, "stroke": 8, "rotate": 4, "save": 3, "unwind": 8, "clip": 3, "settr": 8, "addcs": 3, "setcs": 3, "font": 6, "setfont": 15, "spacing": 4, "page": 12, "setpage": 8, "image": 15, "mask": 6, "imagefrom": 3, "extlink": 6, "intlink": 8, "anchor": 6, "outline": 8, "ph": 6, "fill": 6, "info": 3, "measure": 2, "multicell": 3, "table": 3, "newy": 3, "margin": 2}
		for _, k := range drop {
			delete(m, k)
		}
		return m
	}
	reg(Profile{Name: "units", MinDoc: 1, MaxDoc: 2, W: all(), Out: 0.06, Units: 1, Pages: 0.5, Images: 3, Options: 0.3, Header: 0.2, Prot: 0.05, Comp: 0.2, MinOps: 5, MaxOps: 40})
	bad := all()
	bad["bad"], bad["badsrc"] = 120, 6
	reg(Profile{Name: "refuse", MinDoc: 1, MaxDoc: 2, W: bad, Out: 0.08, Units: 0.2, Pages: 0.2, Images: 3, Conts: 1, Prot: 0.1, Options: 0.4, Header: 0.1, Comp: 0.2, MinOps: 5, MaxOps: 40})
	late := all() // more of what changes parts of the document that exist already
	late["ph"], late["fill"], late["setpage"] = 20, 30, 14
	some := []string{"writeto", "write"}
	reg(Profile{Name: "sink", MinDoc: 1, MaxDoc: 1, Flat: true, W: all("imagefrom"), Out: 0.25, Routes: some, Sink: 0.85, Prot: 0.15, Pages: 0.2, Images: 2, Header: 0.2, Options: 0.3, Comp: 0.4, MinOps: 2, MaxOps: 22})
	reg(Profile{Name: "sinkmix", MinDoc: 1, MaxDoc: 3, W: all(), Out: 0.15, Sink: 0.7, DiskOut: 0.5, Prot: 0.15, Images: 2, Options: 0.3, Comp: 0.4, MinOps: 2, MaxOps: 20})
	reg(Profile{Name: "disk", MinDoc: 1, MaxDoc: 2, W: all("imagefrom"), Out: 0.25, Routes: []string{"path", "path", "path", "byteserr"}, DiskOut: 0.8, Prot: 0.1, Images: 2, Comp: 0.4, MinOps: 2, MaxOps: 18})
	reg(Profile{Name: "rewrite", Mute: true, MinDoc: 1, MaxDoc: 2, W: late, Out: 0.3, Prot: 0.2, Units: 0.2, Pages: 0.3, Images: 3, Header: 0.3, Options: 0.4, Comp: 0.5, Unbal: 0.05, MinOps: 3, MaxOps: 25})
	reg(Profile{Name: "rewriteimport", Mute: true, MinDoc: 1, MaxDoc: 2, W: map[string]int{"import": 40, "importall": 10, "usetpl": 20, "badsrc": 4, "psizes": 6, "text": 10, "path": 10, "page": 10, "setpage": 5, "image": 8, "outline": 4, "intlink": 4, "anchor": 3}, Out: 0.35, PDFs: 2, Images: 2, MaxOps: 10, MinOps: 2})
	reg(Profile{Name: "history", MinDoc: 1, MaxDoc: 1, Flat: true, W: all("imagefrom"), Out: 0.15, Prot: 0.25, Units: 0.3, Pages: 0.4, Images: 4, Header: 0.3, Options: 0.4, Comp: 0.5, MinOps: 5, MaxOps: 60, Fonts: 3})
	reg(Profile{Name: "enc", Big: 0.05, MinDoc: 1, MaxDoc: 2, W: all(), Out: 0.12, Prot: 1, Units: 0.2, Pages: 0.2, Images: 3, Header: 0.2, Options: 0.4, Comp: 0.5, MinOps: 5, MaxOps: 30})
	reg(Profile{Name: "pages", MinDoc: 1, MaxDoc: 1, Flat: true, W: map[string]int{"page": 50, "setpage": 50, "newy": 40, "margin": 12, "move": 40, "text": 20, "cell": 30, "path": 8, "color": 6, "setfont": 6, "image": 5}, Out: 0.06, Units: 0.5, Pages: 0.6, Header: 0.7, Images: 1, MinOps: 5, MaxOps: 40})
	reg(Profile{Name: "sources", W: map[string]int{"font": 40, "setfont": 20, "text": 40, "cell": 10, "measure": 10, "image": 50, "mask": 12, "cuse": 10, "contadd": 10, "hasglyph": 5, "page": 3}, Out: 0.05, Frag: 0.9, Fonts: 4, Images: 5, Conts: 1, Options: 0.4, MinOps: 4, MaxOps: 25})
	reg(Profile{Name: "faults", W: map[string]int{"font": 40, "setfont": 20, "text": 40, "cell": 10, "measure": 10, "image": 50, "mask": 15, "cuse": 6, "contadd": 12, "hasglyph": 5, "page": 3}, Out: 0.08, Frag: 0.5, Src: 0.5, Fonts: 4, Images: 4, Conts: 1, Options: 0.4, MinOps: 4, MaxOps: 25})
	reg(Profile{Name: "owner", MinDoc: 1, MaxDoc: 1, Scrib: true, W: all(), Out: 0.1, Prot: 0.4, Units: 0.2, Pages: 0.3, Images: 4, Options: 0.4, Header: 0.2, MinOps: 5, MaxOps: 30})
	reg(Profile{Name: "mixrace", Race: true, MinDoc: 2, MaxDoc: 4, W: all(), Out: 0.08, Units: 0.2, Images: 2, Frag: 0.4, Prot: 0.2, Conts: 2, Options: 0.4, Header: 0.2, MinOps: 4, MaxOps: 25, Routes: []string{"writeto", "write", "bytes", "byteserr", "read"}})
	reg(Profile{Name: "contsrace", Race: true, MinDoc: 2, MaxDoc: 4, W: map[string]int{"contadd": 40, "cuse": 60, "text": 20, "font": 15, "setfont": 10, "page": 5}, Out: 0.1, Conts: 2, Frag: 0.4, Fonts: 3, MaxOps: 16, MinOps: 3, Routes: []string{"writeto", "write", "bytes", "byteserr", "read"}})
}
