package main

// The standard security handler, revision 2, from the PDF specification.

import (
	"bytes"
	"crypto/md5"
	"crypto/rc4"
	"encoding/binary"
	"fmt"
	gopdf "github.com/signintech/pdft/minigopdf"
)

var stdPad = []byte{
	0x28, 0xBF, 0x4E, 0x5E, 0x4E, 0x75, 0x8A, 0x41, 0x64, 0x00, 0x4E, 0x56, 0xFF, 0xFA, 0x01, 0x08,
	0x2E, 0x2E, 0x00, 0xB6, 0xD0, 0x68, 0x3E, 0x80, 0x2F, 0x0C, 0xA9, 0xFE, 0x64, 0x53, 0x69, 0x7A}

// apiPerm translates permission bits of the standard to the library's constants.
func apiPerm(p int) int {
	out := p &^ 0x3C
	for k, v := range []int{gopdf.PermissionsPrint, gopdf.PermissionsModify, gopdf.PermissionsCopy, gopdf.PermissionsAnnotForms} {
		if p>>(2+k)&1 != 0 {
			out |= v
		}
	}
	return out
}

func padPW(p []byte) []byte { return append(append([]byte{}, p...), stdPad...)[:32] }

func rc4x(key, data []byte) []byte {
	c, err := rc4.NewCipher(key)
	if err != nil {
		panic(harnessBug(err.Error()))
	}
	out := make([]byte, len(data))
	c.XORKeyStream(out, data)
	return out
}

type Handler struct {
	O, U []byte
	P    int32
	ID   []byte
}

// Security reads the document's encryption dictionary.
func (d *Doc) Security() (*Handler, error) {
	e := d.Dict(d.Trailer["Encrypt"])
	if e == nil {
		return nil, fmt.Errorf("no /Encrypt dictionary in the trailer")
	}
	if d.Name(e["Filter"]) != "Standard" {
		return nil, fmt.Errorf("/Encrypt /Filter is %v", e["Filter"])
	}
	v, _ := d.Num(e["V"])
	r, _ := d.Num(e["R"])
	if v != 1 || r != 2 {
		return nil, fmt.Errorf("/Encrypt has /V %v /R %v", v, r)
	}
	o, ok1 := d.R(e["O"]).(Str)
	u, ok2 := d.R(e["U"]).(Str)
	p, ok3 := d.R(e["P"]).(Num)
	if !ok1 || !ok2 || !ok3 || len(o) != 32 || len(u) != 32 {
		return nil, fmt.Errorf("/Encrypt has /O of %d bytes, /U of %d bytes, /P %v", len(o), len(u), e["P"])
	}
	if p.F < -(1<<31) || p.F >= 1<<31 || !p.Int {
		return nil, fmt.Errorf("/P %v is not a 32-bit integer", p.F)
	}
	id, ok := d.R(d.Trailer["ID"]).(Arr)
	if !ok || len(id) != 2 {
		return nil, fmt.Errorf("no /ID in the trailer")
	}
	id0, ok := id[0].(Str)
	if !ok {
		return nil, fmt.Errorf("/ID is not made of strings")
	}
	return &Handler{[]byte(o), []byte(u), int32(p.F), []byte(id0)}, nil
}

func (h *Handler) fileKey(padded []byte) []byte {
	var b bytes.Buffer
	b.Write(padded)
	b.Write(h.O)
	binary.Write(&b, binary.LittleEndian, h.P)
	b.Write(h.ID)
	s := md5.Sum(b.Bytes())
	return s[:5]
}

// User tries a user password.
func (h *Handler) User(pw []byte) ([]byte, bool) {
	k := h.fileKey(padPW(pw))
	return k, bytes.Equal(rc4x(k, stdPad), h.U)
}

// Owner tries an owner password.
func (h *Handler) Owner(pw []byte) ([]byte, bool) {
	s := md5.Sum(padPW(pw))
	return h.User(rc4x(s[:5], h.O))
}

// Decrypt gives the decrypted document.
func (d *Doc) Decrypt(key []byte) *Doc {
	encID := -1
	if r, ok := d.Trailer["Encrypt"].(Ref); ok {
		encID = r.N
	}
	out := &Doc{Objs: map[int]Obj{}, Trailer: Dict{}, Size: d.Size, Data: d.Data}
	for k, v := range d.Trailer {
		if k != "Encrypt" && k != "ID" {
			out.Trailer[k] = v
		}
	}
	for id, o := range d.Objs {
		if id == encID {
			continue
		}
		kb := append(append([]byte{}, key...), byte(id), byte(id>>8), byte(id>>16), 0, 0)
		s := md5.Sum(kb)
		ok := s[:10]
		var dec func(o Obj) Obj
		dec = func(o Obj) Obj {
			switch v := o.(type) {
			case Str:
				return Str(rc4x(ok, []byte(v)))
			case Arr:
				a := make(Arr, len(v))
				for i, x := range v {
					a[i] = dec(x)
				}
				return a
			case Dict:
				n := Dict{}
				for k, x := range v {
					n[k] = dec(x)
				}
				return n
			case *Stream:
				return &Stream{dec(v.D).(Dict), rc4x(ok, v.Raw)}
			}
			return o
		}
		out.Objs[id] = dec(o)
	}
	return out
}
