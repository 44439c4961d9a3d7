package delta

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"recengine/internal/domain"
	"testing"
)

type zzEnt struct {
	op   byte
	u, i uint64
}

var zzMagic = []byte("RECDELTA")

func zzSum(b []byte) (r byte) {
	for _, x := range b {
		r += x
	}
	return
}
func zzEncode(e zzEnt) []byte {
	b := []byte{e.op}
	b = binary.BigEndian.AppendUint64(b, e.u)
	b = binary.BigEndian.AppendUint64(b, e.i)
	return append(b, zzSum(b))
}
func zzHeader(locked byte, n uint32) []byte {
	b := append([]byte(nil), zzMagic...)
	b = append(b, 1, locked)
	return binary.BigEndian.AppendUint32(b, n)
}
func zzDecode(b []byte) zzEnt {
	return zzEnt{b[0], binary.BigEndian.Uint64(b[1:]), binary.BigEndian.Uint64(b[9:])}
}

// the file that recovering src must give
func zzRecovered(src []byte) []byte {
	out := []byte{}
	n := 0
	if len(src) >= 14 && bytes.Equal(src[:8], zzMagic) {
		for p := 14; p+18 <= len(src); p += 18 {
			if zzSum(src[p:p+17]) == src[p+17] {
				out = append(out, src[p:p+18]...)
				n++
			}
		}
	}
	return append(zzHeader(0, uint32(n)), out...)
}

func (s *zzSearch) entry() zzEnt {
	ops := []byte{'+', '-', 0, 255}
	u, i := s.small(), s.small()
	if s.rng.Intn(3) == 0 {
		u, i = s.val(), s.val()
	}
	return zzEnt{ops[s.rng.Intn(2+s.rng.Intn(3))], u, i}
}

func (s *zzSearch) source() []byte {
	var b []byte
	switch s.rng.Intn(8) {
	case 0:
		return s.bytes(s.rng.Intn(60))
	case 1:
		b = append(b, s.bytes(s.rng.Intn(3))...)
	}
	n := s.rng.Intn(7)
	cnt := uint32(n)
	if s.rng.Intn(3) == 0 {
		cnt = uint32(s.val())
	}
	b = append(b, zzHeader(byte(s.rng.Intn(3)), cnt)...)
	if s.rng.Intn(6) == 0 {
		b[8] = byte(s.rng.Intn(256))
	}
	for k := 0; k < n; k++ {
		e := zzEncode(s.entry())
		if s.rng.Intn(4) == 0 {
			e[s.rng.Intn(18)] ^= byte(1 + s.rng.Intn(255))
		}
		b = append(b, e...)
	}
	switch s.rng.Intn(5) {
	case 0:
		b = b[:s.rng.Intn(len(b)+1)]
	case 1:
		b = append(b, s.bytes(s.rng.Intn(19))...)
	case 2:
		if len(b) > 0 {
			b[s.rng.Intn(len(b))] ^= byte(1 << s.rng.Intn(8))
		}
	}
	return b
}

func TestVerifReplayC08(t *testing.T) {
	s := zzNew(t)
	p := NewProtocol()
	for s.more() {
		pad := s.bytes(s.rng.Intn(4))
		chunk := s.rng.Intn(5)
		e := s.entry()
		h := Header{byte(s.val()), byte(s.val()), uint32(s.val())}
		rd := func(b []byte) *zzFile {
			f := zzOpen(append(append([]byte(nil), pad...), b...))
			f.pos, f.chunk = int64(len(pad)), chunk
			return f
		}
		s.try(func() string { return fmt.Sprintf("entry %+v", e) }, func() string {
			want := zzEncode(e)
			ent := Entry{Op: domain.DeltaOp(e.op), UserID: e.u, ItemID: e.i}
			ent.Checksum = p.CalcEntryChecksum(&ent)
			if ent.Checksum != want[17] {
				return fmt.Sprintf("checksum %d instead of %d", ent.Checksum, want[17])
			}
			f := rd(nil)
			if err := p.WriteEntry(&ent, f); err != nil || !bytes.Equal(f.data[len(pad):], want) {
				return fmt.Sprintf("written as %v instead of %v (%v)", f.data[len(pad):], want, err)
			}
			ent2 := Entry{Op: domain.DeltaOp(e.op), UserID: e.u, ItemID: e.i, Checksum: byte(s.rng.Intn(256))}
			f = rd(nil)
			if err := p.WriteEntry(&ent2, f); err != nil || !bytes.Equal(f.data[len(pad):], want) {
				return fmt.Sprintf("with a stale checksum written as %v instead of %v (%v)", f.data[len(pad):], want, err)
			}
			if p.ValidateEntryChecksum(&ent2) != (ent2.Checksum == want[17]) && ent2.Checksum != want[17] {
				return fmt.Sprintf("checksum %d accepted instead of %d", ent2.Checksum, want[17])
			}
			raw := append(append([]byte(nil), want...), s.bytes(3)...)
			k := s.rng.Intn(18)
			raw[k] ^= byte(s.rng.Intn(2) * (1 + s.rng.Intn(255)))
			f = rd(raw)
			var got Entry
			if err := p.ReadEntry(&got, f); err != nil {
				return "reading: " + err.Error()
			}
			if f.pos != int64(len(pad)+18) || (zzEnt{byte(got.Op), got.UserID, got.ItemID}) != zzDecode(raw) || got.Checksum != raw[17] {
				return fmt.Sprintf("%v read as %+v, position %d", raw, got, f.pos-int64(len(pad)))
			}
			if p.ValidateEntryChecksum(&got) != (zzSum(raw[:17]) == raw[17]) {
				return fmt.Sprintf("%v: validity of the checksum misjudged", raw[:18])
			}
			if p.ReadEntry(&got, rd(want[:k])) == nil {
				return fmt.Sprintf("reading %d bytes succeeds", k)
			}
			return ""
		})
		s.try(func() string { return fmt.Sprintf("header %+v", h) }, func() string {
			want := binary.BigEndian.AppendUint32([]byte{h.Version, h.Locked}, h.NumEntries)
			f := rd(nil)
			if err := p.WriteHeader(&h, f); err != nil || !bytes.Equal(f.data[len(pad):], want) {
				return fmt.Sprintf("written as %v instead of %v (%v)", f.data[len(pad):], want, err)
			}
			f = rd(append(append([]byte(nil), want...), s.bytes(3)...))
			got := Header{9, 9, 9}
			if err := p.ReadHeader(&got, f); err != nil || got != h || f.pos != int64(len(pad)+6) {
				return fmt.Sprintf("%v read as %+v, %v, position %d", want, got, err, f.pos-int64(len(pad)))
			}
			if p.ReadHeader(&got, rd(want[:s.rng.Intn(6)])) == nil {
				return "reading a short header succeeds"
			}
			return ""
		})
		m := append([]byte(nil), zzMagic...)
		if s.rng.Intn(2) == 0 {
			m[s.rng.Intn(8)] ^= byte(1 << s.rng.Intn(8))
		}
		m = append(m, s.bytes(3)...)[:8+s.rng.Intn(3)]
		if s.rng.Intn(4) == 0 {
			m = m[:s.rng.Intn(8)]
		}
		s.try(func() string { return fmt.Sprintf("prefix %q", m) }, func() string {
			f := rd(nil)
			if err := p.WritePrefix(f); err != nil || !bytes.Equal(f.data[len(pad):], zzMagic) {
				return fmt.Sprintf("prefix written as %v, %v", f.data, err)
			}
			f = rd(m)
			err := p.ReadPrefix(f)
			good := len(m) >= 8 && bytes.Equal(m[:8], zzMagic)
			if (err == nil) != good || good && f.pos != int64(len(pad)+8) {
				return fmt.Sprintf("reading: %v, position %d", err, f.pos-int64(len(pad)))
			}
			return ""
		})
	}
}

func TestVerifReplayC12(t *testing.T) {
	s := zzNew(t)
	for s.more() {
		src := s.source()
		chunk, at := s.rng.Intn(8), s.rng.Intn(len(src)+3)
		want := zzRecovered(src)
		s.try(func() string { return fmt.Sprintf("recovering %v (position %d)", src, at) }, func() string {
			f := zzOpen(src)
			f.chunk = chunk
			out := zzOpen(nil)
			if err := NewProtocol().RecoverTo(f, out); err != nil || !bytes.Equal(out.data, want) {
				return fmt.Sprintf("RecoverTo gives %v, %v instead of %v", out.data, err, want)
			}
			f = zzOpen(src)
			f.chunk, f.pos = chunk, int64(at)
			fac := NewStorageFactory()
			if err := fac.Recover(f); err != nil || !bytes.Equal(f.data, want) || f.pos != 0 {
				return fmt.Sprintf("Recover gives %v at %d, %v instead of %v", f.data, f.pos, err, want)
			}
			if err := fac.Recover(f); err != nil || !bytes.Equal(f.data, want) {
				return fmt.Sprintf("recovering again gives %v, %v", f.data, err)
			}
			if _, err := fac.Open(f); err != nil {
				return "cannot open the recovered file: " + err.Error()
			}
			return ""
		})
	}
}

func TestVerifReplayC11(t *testing.T) {
	s := zzNew(t)
	p := NewProtocol()
	for s.more() {
		src := s.source()
		for len(src) < 14 {
			src = append(src, s.bytes(3)...)
		}
		at := s.rng.Intn(len(src) + 3)
		want := append([]byte(nil), src...)
		lock := s.rng.Intn(2) == 0
		want[9] = 0
		if lock {
			want[9] = 1
		}
		s.try(func() string { return fmt.Sprintf("locking (%v) %v (position %d)", lock, src, at) }, func() string {
			f := zzOpen(src)
			f.pos = int64(at)
			l, err := p.IsLocked(f)
			if err != nil || l != (src[9] != 0) || f.pos != int64(at) || !bytes.Equal(f.data, src) {
				return fmt.Sprintf("IsLocked %v, %v, position %d, content %v", l, err, f.pos, f.data)
			}
			err = p.WriteLocked(lock, f)
			if err != nil || f.pos != int64(at) || !bytes.Equal(f.data, want) {
				return fmt.Sprintf("WriteLocked %v, position %d, content %v", err, f.pos, f.data)
			}
			return ""
		})
	}
}

// ---- histories of a store
type zzKey struct{ u, i uint64 }
type zzModel map[zzKey]byte

func (m zzModel) users() int {
	u := map[uint64]bool{}
	for k := range m {
		u[k.u] = true
	}
	return len(u)
}

// the operations stored in a file, the latest deciding
func zzParse(b []byte) (zzModel, string) {
	m := zzModel{}
	if len(b) < 14 || !bytes.Equal(b[:8], zzMagic) {
		return m, "no intact prefix and header"
	}
	n := int(binary.BigEndian.Uint32(b[10:]))
	if len(b) != 14+18*n {
		return m, fmt.Sprintf("header counts %d entries, file has %d bytes", n, len(b))
	}
	for p := 14; p < len(b); p += 18 {
		if zzSum(b[p:p+17]) != b[p+17] {
			return m, fmt.Sprintf("wrong checksum of the entry at %d", p)
		}
		e := zzDecode(b[p:])
		m[zzKey{e.u, e.i}] = e.op
	}
	return m, ""
}

func zzAnswers(st domain.DeltaStorage, m zzModel, s *zzSearch) string {
	for k, op := range m {
		if o, ok := st.Get(k.u, k.i); !ok || byte(o) != op {
			return fmt.Sprintf("pair %v: %d, %v instead of %d", k, o, ok, op)
		}
	}
	for j := 0; j < 6; j++ {
		k := zzKey{s.small(), s.small()}
		if _, ok := m[k]; !ok {
			if o, ok := st.Get(k.u, k.i); ok {
				return fmt.Sprintf("pair %v: %d although nothing was added", k, o)
			}
		}
	}
	if st.GetUserCount() != m.users() {
		return fmt.Sprintf("%d users instead of %d", st.GetUserCount(), m.users())
	}
	return ""
}

// wellformed file with some entries, closed
func (s *zzSearch) closedFile() []byte {
	n := s.rng.Intn(6)
	if s.rng.Intn(20) == 0 {
		n = 200 + s.rng.Intn(120)
	}
	b := zzHeader(0, uint32(n))
	for k := 0; k < n; k++ {
		b = append(b, zzEncode(s.entry())...)
	}
	if n == 0 && s.rng.Intn(2) == 0 {
		return nil
	}
	return b
}

func zzHistory(s *zzSearch, survive bool) (string, string) {
	init := s.closedFile()
	lbl := fmt.Sprintf("file %v", init)
	f := zzOpen(init)
	f.chunk = s.rng.Intn(6)
	m := zzModel{}
	if len(init) > 0 {
		m, _ = zzParse(init)
	}
	fac := NewStorageFactory()
	st, err := fac.Open(f)
	if err != nil {
		return lbl, "open: " + err.Error()
	}
	steps := s.rng.Intn(25)
	if s.rng.Intn(30) == 0 {
		steps = 300
	}
	for k := 0; k < steps; k++ {
		switch s.rng.Intn(8) {
		case 0:
			old := append([]byte(nil), f.data...)
			if s.rng.Intn(4) == 0 {
				f.failAt, f.ops, f.part, f.kind = s.rng.Intn(4), 0, s.rng.Intn(40), "write"
				err := st.Flush()
				lbl += fmt.Sprint(" Flush(failing)=", err)
				if f.failed && err == nil {
					return lbl, "no error after a failed write"
				}
				f.failAt, f.failed, f.kind = -1, false, ""
			}
			lbl += " Flush"
			if err := st.Flush(); err != nil {
				return lbl, "flush: " + err.Error()
			}
			if uint64(len(f.data)) != st.GetFileSize() {
				return lbl, fmt.Sprintf("file size %d reported as %d", len(f.data), st.GetFileSize())
			}
			if survive {
				g, msg := zzParse(f.data)
				if msg != "" {
					return lbl, msg
				}
				if fmt.Sprint(g) != fmt.Sprint(m) {
					return lbl, fmt.Sprintf("file has %v instead of %v", g, m)
				}
				if len(f.data) < len(old) || len(old) > 14 && !bytes.Equal(old[14:14+18*int(binary.BigEndian.Uint32(old[10:]))], f.data[14:14+18*int(binary.BigEndian.Uint32(old[10:]))]) {
					return lbl, "stored entries were altered"
				}
			}
		default:
			e := s.entry()
			st.Add(domain.DeltaOp(e.op), e.u, e.i)
			m[zzKey{e.u, e.i}] = e.op
			lbl += fmt.Sprint(" Add", e)
		}
		if !survive || k == steps-1 {
			if msg := zzAnswers(st, m, s); msg != "" {
				return lbl, msg
			}
		}
	}
	if survive {
		if err := st.Close(); err != nil {
			return lbl, "close: " + err.Error()
		}
		g, msg := zzParse(f.data)
		if msg != "" || fmt.Sprint(g) != fmt.Sprint(m) {
			return lbl, fmt.Sprintf("closed file has %v instead of %v %s", g, m, msg)
		}
		f2 := zzOpen(f.data)
		st2, err := fac.Open(f2)
		if err != nil {
			return lbl, "reopening: " + err.Error()
		}
		if msg := zzAnswers(st2, m, s); msg != "" {
			return lbl, "after reopening " + msg
		}
	}
	return lbl, ""
}

func TestVerifReplayC13(t *testing.T) {
	s := zzNew(t)
	for s.more() {
		lbl := ""
		s.try(func() string { return lbl }, func() (r string) { lbl, r = zzHistory(s, false); return })
	}
}

func TestVerifReplayC14(t *testing.T) {
	s := zzNew(t)
	for s.more() {
		lbl := ""
		s.try(func() string { return lbl }, func() (r string) { lbl, r = zzHistory(s, true); return })
	}
}

func TestVerifReplayC15(t *testing.T) {
	s := zzNew(t)
	fac := NewStorageFactory()
	for s.more() {
		lbl := ""
		s.try(func() string { return lbl }, func() string {
			src := s.source()
			if s.rng.Intn(2) == 0 {
				src = s.closedFile()
			}
			lbl = fmt.Sprintf("file %v", src)
			f := zzOpen(src)
			wasEmpty := len(src) == 0
			st, err := fac.Open(f)
			if len(src) >= 14 && bytes.Equal(src[:8], zzMagic) && src[9] != 0 {
				if err == nil {
					return "a locked file was opened"
				}
				if !bytes.Equal(f.data, src) {
					return "a refused locked file was changed"
				}
			}
			if wasEmpty && err != nil {
				return "opening an empty file: " + err.Error()
			}
			if err == nil && (len(f.data) < 14 || f.data[9] == 0) {
				return "the file is not locked while it is open"
			}
			if len(src) < 32 || src[9] != 0 && bytes.Equal(src[:8], zzMagic) {
				g := zzOpen(src)
				g.pos = int64(s.rng.Intn(len(src) + 2))
				short := len(src) < 14
				locked := len(src) > 9 && src[9] != 0
				if short || locked {
					if _, err := fac.OpenMaybeRecover(g); err != nil {
						return "open with recovery: " + err.Error()
					}
					if len(g.data) < 14 || g.data[9] == 0 {
						return "the recovered file is not locked while it is open"
					}
				}
			}
			if err != nil {
				return ""
			}
			m, msg := zzParse(f.data)
			if msg != "" {
				return ""
			}
			// faults and crashes
			bad := ""
			closing := false
			watch := func(d []byte) {
				if len(d) < 14 || d[9] != 0 {
					return
				}
				if !closing {
					bad = "the lock mark was cleared while the store is open"
					return
				}
				g, msg := zzParse(d)
				if msg != "" || fmt.Sprint(g) != fmt.Sprint(m) {
					bad = fmt.Sprintf("unlocked before it is complete: %v %s", d, msg)
				}
			}
			f.onWrite = watch
			for k := s.rng.Intn(8); k > 0; k-- {
				if s.rng.Intn(4) == 0 {
					if s.rng.Intn(2) == 0 {
						f.failAt, f.ops, f.part, f.failed = s.rng.Intn(4), 0, s.rng.Intn(40), false
					}
					lbl += fmt.Sprint(" Flush=", st.Flush())
					f.failAt = -1
				} else {
					e := s.entry()
					st.Add(domain.DeltaOp(e.op), e.u, e.i)
					m[zzKey{e.u, e.i}] = e.op
					lbl += fmt.Sprint(" Add", e)
				}
				if bad != "" {
					return bad
				}
			}
			closing = true
			if s.rng.Intn(2) == 0 {
				f.failAt, f.ops, f.part, f.failed = s.rng.Intn(9), 0, s.rng.Intn(40), false
				lbl += fmt.Sprint(" failing operation ", f.failAt)
			}
			err = st.Close()
			lbl += fmt.Sprint(" Close=", err)
			if bad != "" {
				return bad
			}
			if f.failAt >= 0 && f.failed && err == nil {
				return "close reported success after a failed operation"
			}
			if err == nil {
				g, msg := zzParse(f.data)
				if f.data[9] != 0 || msg != "" || fmt.Sprint(g) != fmt.Sprint(m) {
					return fmt.Sprintf("closed file is %v %s", f.data, msg)
				}
			}
			return ""
		})
	}
}

func TestVerifReplayC21(t *testing.T) {
	s := zzNew(t)
	fac := NewStorageFactory()
	p := NewProtocol()
	for s.more() {
		src := s.closedFile()
		if s.rng.Intn(3) == 0 {
			src = s.source()
		}
		at, part, op := s.rng.Intn(12), s.rng.Intn(30), s.rng.Intn(8)
		names := []string{"Open", "OpenMaybeRecover", "Recover", "RecoverTo", "Flush", "Close", "WriteLocked", "IsLocked"}
		s.try(func() string {
			return fmt.Sprintf("%s of %v when file operation %d fails (%d bytes written)", names[op], src, at, part)
		}, func() string {
			f := zzOpen(src)
			f.part, f.chunk = part, s.rng.Intn(8)
			var err error
			switch op {
			case 0:
				f.failAt = at
				_, err = fac.Open(f)
			case 1:
				f.failAt = at
				_, err = fac.OpenMaybeRecover(f)
			case 2:
				f.failAt = at
				err = fac.Recover(f)
			case 3:
				f.failAt = at
				err = p.RecoverTo(f, &zzFile{failAt: -1})
				if !f.failed {
					g := &zzFile{failAt: at}
					f2 := zzOpen(src)
					err = p.RecoverTo(f2, g)
					f = g
				}
			case 4, 5:
				st, e := fac.Open(f)
				if e != nil {
					return ""
				}
				for k := s.rng.Intn(5); k > 0; k-- {
					st.Add('+', s.small(), s.small())
				}
				f.failAt, f.ops = at, 0
				if op == 4 {
					err = st.Flush()
				} else {
					err = st.Close()
				}
			case 6:
				f.failAt = at
				err = p.WriteLocked(true, f)
			case 7:
				f.failAt = at
				_, err = p.IsLocked(f)
			}
			if f.failed && err == nil {
				return "success reported"
			}
			return ""
		})
	}
}

var _ = io.EOF
