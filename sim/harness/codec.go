//go:build go1.25

package harness

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"time"

	"golang.org/x/text/encoding/simplifiedchinese"
)

// An implementation of the JT/T 808 wire format that shares nothing with the
// repository: the harness encodes requests and judges replies with it.

// Msg is one message (or fragment).
type Msg struct {
	ID       uint16
	V19      bool
	ProtoVer byte
	Phone    string // 12 or 20 decimal digits
	Serial   uint16
	Enc      byte
	Frag     bool
	Total    uint16
	Index    uint16
	Body     []byte
}

func bcd(s string) []byte {
	b := make([]byte, len(s)/2)
	for i := range b {
		b[i] = (s[2*i]-'0')<<4 | (s[2*i+1] - '0')
	}
	return b
}

func unbcd(b []byte) string {
	const hx = "0123456789ABCDEF"
	var o []byte
	for _, x := range b {
		o = append(o, hx[x>>4], hx[x&15])
	}
	return string(o)
}

func (m *Msg) raw() []byte {
	var b []byte
	b = binary.BigEndian.AppendUint16(b, m.ID)
	a := uint16(len(m.Body)&0x3ff) | uint16(m.Enc)<<10
	if m.Frag {
		a |= 1 << 13
	}
	if m.V19 {
		a |= 1 << 14
	}
	b = binary.BigEndian.AppendUint16(b, a)
	if m.V19 {
		b = append(b, m.ProtoVer)
	}
	b = append(b, bcd(m.Phone)...)
	b = binary.BigEndian.AppendUint16(b, m.Serial)
	if m.Frag {
		b = binary.BigEndian.AppendUint16(b, m.Total)
		b = binary.BigEndian.AppendUint16(b, m.Index)
	}
	return append(b, m.Body...)
}

func xorsum(b []byte) byte {
	var c byte
	for _, x := range b {
		c ^= x
	}
	return c
}

func escape(b []byte) []byte {
	o := []byte{0x7e}
	for _, x := range b {
		switch x {
		case 0x7e:
			o = append(o, 0x7d, 0x02)
		case 0x7d:
			o = append(o, 0x7d, 0x01)
		default:
			o = append(o, x)
		}
	}
	return append(o, 0x7e)
}

// Frame is the message as it goes over the wire.
func (m *Msg) Frame() []byte {
	r := m.raw()
	return escape(append(r, xorsum(r)))
}

// parseInner decodes what stands between two delimiters, strictly.
func parseInner(in []byte) (*Msg, error) {
	var b []byte
	for i := 0; i < len(in); i++ {
		if in[i] == 0x7d {
			if i+1 >= len(in) || (in[i+1] != 1 && in[i+1] != 2) {
				return nil, errors.New("invalid escape sequence")
			}
			i++
			b = append(b, 0x7c+in[i])
			continue
		}
		b = append(b, in[i])
	}
	if len(b) < 13 {
		return nil, fmt.Errorf("frame of %d bytes is too short", len(b))
	}
	if xorsum(b[:len(b)-1]) != b[len(b)-1] {
		return nil, errors.New("checksum mismatch")
	}
	b = b[:len(b)-1]
	m := &Msg{ID: binary.BigEndian.Uint16(b)}
	a := binary.BigEndian.Uint16(b[2:])
	m.V19, m.Frag, m.Enc = a&(1<<14) != 0, a&(1<<13) != 0, byte(a>>10)&7
	p, n := 4, 6
	if m.V19 {
		m.ProtoVer = b[4]
		p, n = 5, 10
	}
	need := p + n + 2
	if m.Frag {
		need += 4
	}
	if len(b) < need {
		return nil, errors.New("header cut short")
	}
	m.Phone = unbcd(b[p : p+n])
	p += n
	m.Serial = binary.BigEndian.Uint16(b[p:])
	p += 2
	if m.Frag {
		m.Total, m.Index = binary.BigEndian.Uint16(b[p:]), binary.BigEndian.Uint16(b[p+2:])
		p += 4
	}
	m.Body = b[p:]
	if int(a&0x3ff) != len(m.Body) {
		return nil, fmt.Errorf("declared body length %d, actual %d", a&0x3ff, len(m.Body))
	}
	if a&(1<<15) != 0 {
		return nil, errors.New("reserved attribute bit set")
	}
	if m.Enc != 0 {
		return nil, errors.New("encryption bits set")
	}
	return m, nil
}

func gbk(s string) []byte {
	b, err := simplifiedchinese.GBK.NewEncoder().Bytes([]byte(s))
	if err != nil {
		panic(err)
	}
	return b
}

func ungbk(b []byte) string {
	o, err := simplifiedchinese.GBK.NewDecoder().Bytes(b)
	if err != nil {
		return "?"
	}
	return string(o)
}

func pad(s string, n int) []byte {
	b := make([]byte, n)
	copy(b, s)
	return b
}

// Ident is what a terminal says about itself.
type Ident struct {
	Phone, Plate, ID string
	Ver              int // 2011, 2013, 2019
	PV               byte
	IMEI, SW         string
	Region           uint32 `json:",omitempty"` // province and city
	Model            string `json:",omitempty"`
	Color            byte   `json:",omitempty"`
	Rival            bool   `json:",omitempty"` // shares its phone with a simulated terminal
}

func (t *Ident) v19() bool { return t.Ver == 2019 }

func (t *Ident) msg(id uint16, serial uint16, body []byte) *Msg {
	return &Msg{ID: id, V19: t.v19(), ProtoVer: t.PV, Phone: t.Phone, Serial: serial, Body: body}
}

func (t *Ident) regBody() []byte {
	b := []byte{0, 11, 0x00, 0x65}
	if t.Region != 0 {
		binary.BigEndian.PutUint32(b, t.Region)
	}
	manu, mode := "MANU", "MODEL-X"
	if t.Model != "" {
		manu, mode = t.Model, t.Model
	}
	switch t.Ver {
	case 2019:
		b = append(b, pad(manu, 11)...)
		b = append(b, pad(mode, 30)...)
		b = append(b, pad(t.ID, 30)...)
	case 2013:
		b = append(b, pad(manu, 5)...)
		b = append(b, pad(mode, 20)...)
		b = append(b, pad(t.ID, 7)...)
	default:
		b = append(b, pad(manu, 5)...)
		b = append(b, pad(mode, 8)...)
		b = append(b, pad(t.ID, 7)...)
	}
	b = append(b, t.Color)
	return append(b, gbk(t.Plate)...)
}

// presents: what a terminal says it is changes when its software is updated.
func (t *Ident) presents(n uint16) (imei, sw string) {
	imei, sw = t.IMEI, t.SW
	if n%3 == 1 && len(sw) < 17 {
		sw += fmt.Sprintf("-%d", n%7)
	}
	if n%5 == 1 && len(imei) > 0 {
		imei = imei[:len(imei)-1] + string('A'+byte(n%26))
	}
	return
}

func (t *Ident) authBody(code, imei, sw string) []byte {
	if !t.v19() {
		return []byte(code)
	}
	b := append([]byte{byte(len(code))}, code...)
	b = append(b, pad(imei, 15)...)
	return append(b, pad(sw, 20)...)
}

// Loc is the content of one location report; Lat doubles as its unique mark.
type Loc struct {
	Alarm, Status, Lat, Lon uint32
	Alt, Speed, Dir         uint16
	Time                    string // YYMMDDhhmmss
	Extra                   []byte
}

func (l *Loc) body() []byte {
	var b []byte
	b = binary.BigEndian.AppendUint32(b, l.Alarm)
	b = binary.BigEndian.AppendUint32(b, l.Status)
	b = binary.BigEndian.AppendUint32(b, l.Lat)
	b = binary.BigEndian.AppendUint32(b, l.Lon)
	b = binary.BigEndian.AppendUint16(b, l.Alt)
	b = binary.BigEndian.AppendUint16(b, l.Speed)
	b = binary.BigEndian.AppendUint16(b, l.Dir)
	b = append(b, bcd(l.Time)...)
	return append(b, l.Extra...)
}

func (l *Loc) when() time.Time {
	t, _ := time.Parse("060102150405", l.Time)
	return t
}

// Param is one terminal parameter with its wire value.
type Param struct {
	ID   uint32
	Wire []byte
	JSON string // paramValue as JSON
}

func parseParams(b []byte) ([]Param, error) {
	if len(b) < 1 {
		return nil, errors.New("no parameter count")
	}
	n := int(b[0])
	b = b[1:]
	var ps []Param
	for len(b) > 0 {
		if len(b) < 5 || len(b) < 5+int(b[4]) {
			return nil, errors.New("parameter item cut short")
		}
		ps = append(ps, Param{ID: binary.BigEndian.Uint32(b), Wire: append([]byte(nil), b[5:5+int(b[4])]...)})
		b = b[5+int(b[4]):]
	}
	if len(ps) != n {
		return nil, fmt.Errorf("parameter count says %d, %d items follow", n, len(ps))
	}
	return ps, nil
}

func sameParams(a, b []Param) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].ID != b[i].ID || !bytes.Equal(a[i].Wire, b[i].Wire) {
			return false
		}
	}
	return true
}
