// Package world runs simulated worlds: several documents built concurrently by
// simulated tasks over shared inputs, through a faulty environment, checked
// against a reference model.
package world

import (
	"encoding/json"
	"fmt"

	"verifsim/imgx"
	"verifsim/simrt"
	"verifsim/ttfx"
)

// Tr is a transparency setting.
type Tr struct {
	A  float64 `json:"a"`
	BM string  `json:"bm"`
}

// SrcPlan is how a simulated reader behaves.
type SrcPlan struct {
	Seed   uint64 `json:"seed"`
	Mode   string `json:"mode"`             // whole, chunk, one, eofdata, zero
	ErrAt  int    `json:"err_at,omitempty"` // byte offset at which reading fails; 0: never
	ErrAll bool   `json:"err_all,omitempty"`
	Sticky bool   `json:"sticky,omitempty"` // the error repeats; otherwise it is delivered once
	Err    string `json:"err,omitempty"`    // which error
}

// SinkPlan is how a simulated writer behaves.
type SinkPlan struct {
	FailAt int    `json:"fail_at,omitempty"` // byte offset of the failure; 0: never
	Short  bool   `json:"short,omitempty"`   // the failing call accepts a prefix
	Once   bool   `json:"once,omitempty"`    // later calls succeed again
	Lie    bool   `json:"lie,omitempty"`     // the failing call accepts everything and reports an error
	Err    string `json:"err,omitempty"`     // which error
}

// DiskPlan is what the simulated disk does to one path during one operation.
type DiskPlan struct {
	Open   bool   `json:"open,omitempty"`    // opening fails
	FailAt int    `json:"fail_at,omitempty"` // write/read fails at this offset; 0: never
	Short  bool   `json:"short,omitempty"`   // short transfer before the failure
	Chunk  int    `json:"chunk,omitempty"`   // transfers are cut to this many bytes
	Close  bool   `json:"close,omitempty"`   // close reports a deferred write error
	Pre    bool   `json:"pre,omitempty"`     // a longer file exists at the path
	Err    string `json:"err,omitempty"`     // which error
}

// ImgOp describes an image drawing.
type ImgOp struct {
	Idx    int       `json:"idx"`
	Route  string    `json:"route"` // bytes, reader, path, holder
	Rect   []float64 `json:"rect,omitempty"`
	X      float64   `json:"x"`
	Y      float64   `json:"y"`
	Angle  float64   `json:"angle,omitempty"`
	V      bool      `json:"v,omitempty"`
	H      bool      `json:"h,omitempty"`
	Crop   []float64 `json:"crop,omitempty"`
	T      *Tr       `json:"t,omitempty"`
	Mask   *ImgOp    `json:"mask,omitempty"`
	BBox   []float64 `json:"bbox,omitempty"`
	Named  int       `json:"named,omitempty"` // 1 + number of the named page size used as Rect
	Reuse  int       `json:"reuse,omitempty"` // mask: number of the shared *MaskOptions, 0 own
	Format string    `json:"format,omitempty"`
}

// Op is one call of the public API, or one step of the harness.
type Op struct {
	K    string    `json:"k"`
	S    []string  `json:"s,omitempty"`
	F    []float64 `json:"f,omitempty"`
	I    []int     `json:"i,omitempty"`
	T    *Tr       `json:"t,omitempty"`
	Img  *ImgOp    `json:"img,omitempty"`
	Src  *SrcPlan  `json:"src,omitempty"`
	Sink *SinkPlan `json:"sink,omitempty"`
	Disk *DiskPlan `json:"disk,omitempty"`
	Sub  []Op      `json:"sub,omitempty"`
	Tab  *TabOp    `json:"tab,omitempty"`
	P    int       `json:"named,omitempty"` // 1 + number of the named page size used as Rect

	lines []string // lines of a cell of a table
}

// Prot is a protection setting.
type Prot struct {
	Perm  int    `json:"perm"`
	User  string `json:"user"`
	Owner string `json:"owner"`
}

// DocSpec is the history of one document, run by one task.
type DocSpec struct {
	Unit int        `json:"unit"`
	Conv float64    `json:"conversion,omitempty"` // Config.ConversionForUnit
	P    int        `json:"named,omitempty"`      // 1 + number of the named page size used for all pages
	W    float64    `json:"w"`
	H    float64    `json:"h"`
	Trim [4]float64 `json:"trim"`
	Prot *Prot      `json:"prot,omitempty"`
	Imp  bool       `json:"importer,omitempty"` // started with an importer of the caller
	Ops  []Op       `json:"ops"`
}

// World is everything one simulated run depends on.
type World struct {
	Profile string           `json:"profile"`
	Seed    uint64           `json:"seed"`
	Docs    []DocSpec        `json:"docs"`
	Fonts   []ttfx.Spec      `json:"fonts,omitempty"`
	Images  []imgx.Spec      `json:"images,omitempty"`
	PDFs    []PDFSpec        `json:"pdfs,omitempty"`
	Conts   int              `json:"containers,omitempty"`
	Pre     []Op             `json:"container_fonts,omitempty"` // families the containers hold at the start
	Policy  simrt.Policy     `json:"policy"`
	Drop    int              `json:"pool_drop,omitempty"`
	Mute    bool             `json:"compare_unwritten,omitempty"` // documents are compared with ones that are written only once
	Scrib   bool             `json:"arguments_reused,omitempty"`  // callers overwrite what they passed after each call
	Sched   []simrt.Decision `json:"schedule,omitempty"`
	Replay  bool             `json:"replay_schedule,omitempty"`
}

// Clone deep-copies a world.
func (w *World) Clone() *World {
	b, err := json.Marshal(w)
	if err != nil {
		panic(err)
	}
	var c World
	if err := json.Unmarshal(b, &c); err != nil {
		panic(err)
	}
	return &c
}

// Violation is a property failure observed in a run.
type Violation struct {
	Class string `json:"class"`
	Doc   int    `json:"doc"`
	Op    int    `json:"op"`
	Msg   string `json:"msg"`
}

func (v Violation) String() string {
	return fmt.Sprintf("[%s] doc %d op %d: %s", v.Class, v.Doc, v.Op, v.Msg)
}
