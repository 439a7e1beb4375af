package pdfr

import (
	"bytes"
	"crypto/md5"
	"crypto/rc4"
	"encoding/binary"
	"fmt"
)

// Enc is the standard security handler, revision 2 (40-bit RC4).
type Enc struct {
	O, U []byte
	P    int
	Key  []byte
	Obj  int
}

var pad = []byte("\x28\xBF\x4E\x5E\x4E\x75\x8A\x41\x64\x00\x4E\x56\xFF\xFA\x01\x08\x2E\x2E\x00\xB6\xD0\x68\x3E\x80\x2F\x0C\xA9\xFE\x64\x53\x69\x7A")

func pad32(p []byte) []byte { return append(append([]byte{}, p...), pad...)[:32] }

func rc(key, b []byte) []byte {
	c, err := rc4.NewCipher(key)
	if err != nil {
		panic(err)
	}
	o := make([]byte, len(b))
	c.XORKeyStream(o, b)
	return o
}

// Encrypted reports whether the trailer names an encryption dictionary, and
// loads it.
func (d *Doc) Encrypted() bool {
	v, ok := d.Trailer["Encrypt"]
	if !ok {
		return false
	}
	if d.Enc != nil {
		return true
	}
	r, _ := v.(Ref)
	e := d.Dict(v)
	if e == nil {
		d.errf("trailer /Encrypt %v does not resolve", v)
		return true
	}
	o, ok1 := e["O"].(Str)
	u, ok2 := e["U"].(Str)
	p, ok3 := e["P"].(int)
	if !ok1 || !ok2 || !ok3 || len(o) != 32 || len(u) != 32 || e["Filter"] != Name("Standard") || e["V"] != 1 || e["R"] != 2 {
		d.errf("malformed encryption dictionary (O %d bytes, U %d bytes)", len(o), len(u))
		return true
	}
	if _, ok := d.Trailer["ID"].(Array); !ok {
		d.errf("encrypted document without /ID")
	}
	d.Enc = &Enc{O: o, U: u, P: p, Obj: r.N}
	return true
}

// UserKey derives the file key from a user password and checks it against U.
func (d *Doc) UserKey(user []byte) ([]byte, bool) {
	m := md5.New()
	m.Write(pad32(user))
	m.Write(d.Enc.O)
	var p [4]byte
	binary.LittleEndian.PutUint32(p[:], uint32(int32(d.Enc.P)))
	m.Write(p[:])
	var id []byte
	if a, ok := d.Trailer["ID"].(Array); ok && len(a) > 0 {
		if s, ok := a[0].(Str); ok {
			id = s
		}
	}
	m.Write(id)
	key := m.Sum(nil)[:5]
	return key, bytes.Equal(rc(key, pad), d.Enc.U)
}

// OwnerToUser recovers the padded user password from the owner password.
func (d *Doc) OwnerToUser(owner []byte) []byte {
	h := md5.Sum(pad32(owner))
	return rc(h[:5], d.Enc.O)
}

// Decrypt opens the document with key and decrypts every string and stream.
func (d *Doc) Decrypt(key []byte) {
	for n, v := range d.Objs {
		if n == d.Enc.Obj {
			continue
		}
		k := append(append([]byte{}, key...), byte(n), byte(n>>8), byte(n>>16), 0, 0)
		h := md5.Sum(k)
		d.Objs[n] = decObj(v, h[:10])
	}
}

func decObj(v any, k []byte) any {
	switch x := v.(type) {
	case Str:
		return Str(rc(k, x))
	case Array:
		o := make(Array, len(x))
		for i := range x {
			o[i] = decObj(x[i], k)
		}
		return o
	case Dict:
		o := Dict{}
		for kk, e := range x {
			o[kk] = decObj(e, k)
		}
		return o
	case *Stream:
		return &Stream{D: decObj(x.D, k).(Dict), Raw: rc(k, x.Raw)}
	}
	return v
}

// EncSummary describes the encryption dictionary.
func (e *Enc) EncSummary() string { return fmt.Sprintf("P=%d", e.P) }
