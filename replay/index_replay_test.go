package index

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"recengine/internal/domain"
	"testing"
)

type zzEnt struct{ id, idx uint64 }

var zzMagic = []byte("RECIDX")

func zzHeader(v, locked byte, n uint32) []byte {
	b := append([]byte(nil), zzMagic...)
	b = append(b, v, locked)
	return binary.BigEndian.AppendUint32(b, n)
}

func zzEncode(e zzEnt) []byte {
	return binary.BigEndian.AppendUint64(binary.BigEndian.AppendUint64(nil, e.id), e.idx)
}

type zzModel map[uint64]uint64

func zzMagicOk(b []byte) bool { return len(b) >= 6 && bytes.Equal(b[:6], zzMagic) }

// opened: can be opened; the map it holds
func zzParse(b []byte, locked bool) (zzModel, string) {
	if len(b) < 12 || !zzMagicOk(b) {
		return nil, "no intact prefix and header"
	}
	if (b[7] != 0) != locked {
		return nil, fmt.Sprintf("lock byte is %d", b[7])
	}
	n := int64(binary.BigEndian.Uint32(b[8:]))
	if int64(len(b)) < 12+16*n {
		return nil, fmt.Sprintf("header counts %d entries, file has %d bytes", n, len(b))
	}
	m := zzModel{}
	for k := int64(0); k < n; k++ {
		m[binary.BigEndian.Uint64(b[12+16*k:])] = binary.BigEndian.Uint64(b[20+16*k:])
	}
	return m, ""
}

func (s *zzSearch) id() uint64 {
	if s.rng.Intn(4) == 0 {
		return s.val()
	}
	return s.small()
}

func (s *zzSearch) closedFile() []byte {
	n := s.rng.Intn(6)
	if s.rng.Intn(20) == 0 {
		n = 250 + s.rng.Intn(20)
	}
	if n == 0 && s.rng.Intn(2) == 0 {
		return nil
	}
	b := zzHeader(1, 0, uint32(n))
	used := map[uint64]bool{}
	for k := 0; k < n; k++ {
		id := s.id()
		for used[id] {
			id = s.rng.Uint64()
		}
		used[id] = true
		b = append(b, zzEncode(zzEnt{id, s.val()})...)
	}
	return b
}

func (s *zzSearch) source() []byte {
	b := s.closedFile()
	switch s.rng.Intn(8) {
	case 0:
		return s.bytes(s.rng.Intn(60))
	case 1:
		if len(b) > 0 {
			b[s.rng.Intn(len(b))] ^= byte(1 << s.rng.Intn(8))
		}
	case 2, 3:
		if len(b) > 7 {
			b[7] = byte(s.rng.Intn(4) * 85)
		}
	case 4:
		b = b[:s.rng.Intn(len(b)+1)]
	case 5:
		b = append(b, s.bytes(s.rng.Intn(19))...)
	case 6:
		if len(b) > 11 {
			binary.BigEndian.PutUint32(b[8:], uint32(s.rng.Intn(8)))
		}
	}
	return b
}

func TestVerifReplayC09(t *testing.T) {
	s := zzNew(t)
	p := NewProtocol()
	for s.more() {
		pad := s.bytes(s.rng.Intn(4))
		chunk := s.rng.Intn(5)
		e := zzEnt{s.val(), s.val()}
		h := Header{byte(s.val()), byte(s.val()), uint32(s.val())}
		rd := func(b []byte) *zzFile {
			f := zzOpen(append(append([]byte(nil), pad...), b...))
			f.pos, f.chunk = int64(len(pad)), chunk
			return f
		}
		s.try(func() string { return fmt.Sprintf("entry %+v", e) }, func() string {
			want := zzEncode(e)
			f := rd(s.bytes(s.rng.Intn(2) * 20))
			tail := append([]byte(nil), f.data[len(pad):]...)
			if len(tail) > 16 {
				tail = tail[16:]
			}
			n, err := p.WriteEntry(&Entry{e.id, e.idx}, f)
			if err != nil || n != 16 || !bytes.Equal(f.data[len(pad):], append(append([]byte(nil), want...), tail...)) {
				return fmt.Sprintf("written as %v instead of %v (%d, %v)", f.data[len(pad):], want, n, err)
			}
			f = rd(append(append([]byte(nil), want...), s.bytes(3)...))
			var got Entry
			n, err = p.ReadEntry(&got, f)
			if err != nil || n != 16 || f.pos != int64(len(pad)+16) || (zzEnt{got.ID, got.Index}) != e {
				return fmt.Sprintf("%v read as %+v, %d, %v, position %d", want, got, n, err, f.pos-int64(len(pad)))
			}
			k := s.rng.Intn(16)
			if _, err := p.ReadEntry(&got, rd(want[:k])); err == nil {
				return fmt.Sprintf("reading %d bytes succeeds", k)
			}
			return ""
		})
		s.try(func() string { return fmt.Sprintf("header %+v", h) }, func() string {
			want := binary.BigEndian.AppendUint32([]byte{h.Version, h.Locked}, h.NumEntries)
			f := rd(nil)
			n, err := p.WriteHeader(&h, f)
			if err != nil || n != 6 || !bytes.Equal(f.data[len(pad):], want) {
				return fmt.Sprintf("written as %v instead of %v (%d, %v)", f.data[len(pad):], want, n, err)
			}
			f = rd(append(append([]byte(nil), want...), s.bytes(3)...))
			got := Header{9, 9, 9}
			n, err = p.ReadHeader(&got, f)
			if err != nil || n != 6 || got != h || f.pos != int64(len(pad)+6) {
				return fmt.Sprintf("%v read as %+v, %d, %v, position %d", want, got, n, err, f.pos-int64(len(pad)))
			}
			if _, err := p.ReadHeader(&got, rd(want[:s.rng.Intn(6)])); err == nil {
				return "reading a short header succeeds"
			}
			return ""
		})
		m := append([]byte(nil), zzMagic...)
		if s.rng.Intn(2) == 0 {
			m[s.rng.Intn(6)] ^= byte(1 << s.rng.Intn(8))
		}
		m = append(m, s.bytes(3)...)[:6+s.rng.Intn(3)]
		if s.rng.Intn(4) == 0 {
			m = m[:s.rng.Intn(6)]
		}
		s.try(func() string { return fmt.Sprintf("prefix %q", m) }, func() string {
			f := rd(nil)
			n, err := p.WritePrefix(f)
			if err != nil || n != 6 || !bytes.Equal(f.data[len(pad):], zzMagic) {
				return fmt.Sprintf("prefix written as %v, %d, %v", f.data, n, err)
			}
			f = rd(m)
			n, err = p.ReadPrefix(f)
			good := zzMagicOk(m)
			if (err == nil) != good || good && (n != 6 || f.pos != int64(len(pad)+6)) {
				return fmt.Sprintf("reading: %d, %v, position %d", n, err, f.pos-int64(len(pad)))
			}
			return ""
		})
	}
}

func TestVerifReplayC11(t *testing.T) {
	s := zzNew(t)
	p := NewProtocol()
	for s.more() {
		src := s.source()
		for len(src) < 12 {
			src = append(src, s.bytes(3)...)
		}
		at := s.rng.Intn(len(src) + 3)
		want := append([]byte(nil), src...)
		lock := s.rng.Intn(2) == 0
		want[7] = 0
		if lock {
			want[7] = 1
		}
		s.try(func() string { return fmt.Sprintf("locking (%v) %v (position %d)", lock, src, at) }, func() string {
			f := zzOpen(src)
			f.pos = int64(at)
			l, err := p.IsLocked(f)
			if err != nil || l != (src[7] != 0) || f.pos != int64(at) || !bytes.Equal(f.data, src) {
				return fmt.Sprintf("IsLocked %v, %v, position %d, content %v", l, err, f.pos, f.data)
			}
			err = p.WriteLocked(lock, f)
			if err != nil || f.pos != int64(at) || !bytes.Equal(f.data, want) {
				return fmt.Sprintf("WriteLocked %v, position %d, content %v", err, f.pos, f.data)
			}
			return ""
		})
	}
}

func zzAnswers(st domain.IndexStorage, m zzModel, s *zzSearch) string {
	for id, idx := range m {
		if got, ok := st.Get(id); !ok || got != idx {
			return fmt.Sprintf("id %d: %d, %v instead of %d", id, got, ok, idx)
		}
	}
	for j := 0; j < 8; j++ {
		id := s.id()
		if _, have := m[id]; !have {
			if got, ok := st.Get(id); ok {
				return fmt.Sprintf("id %d: %d although it is absent", id, got)
			}
		}
	}
	return ""
}

func (s *zzSearch) step(st domain.IndexStorage, m zzModel, lbl *string) string {
	id := s.id()
	if len(m) > 0 && s.rng.Intn(3) == 0 {
		for id = range m {
			break
		}
	}
	if s.rng.Intn(3) == 0 {
		*lbl += fmt.Sprint(" Remove ", id)
		delete(m, id)
		if err := st.Remove(id); err != nil {
			return "remove: " + err.Error()
		}
	} else {
		v := s.val()
		*lbl += fmt.Sprint(" Put ", id, " ", v)
		m[id] = v
		if err := st.Put(id, v); err != nil {
			return "put: " + err.Error()
		}
	}
	return ""
}

func TestVerifReplayC16(t *testing.T) {
	s := zzNew(t)
	fac := NewStorageFactory()
	for s.more() {
		lbl := ""
		s.try(func() string { return lbl }, func() string {
			src := s.closedFile()
			if len(src) > 0 && s.rng.Intn(4) == 0 {
				src = append(src, s.bytes(s.rng.Intn(40))...)
			}
			lbl = fmt.Sprintf("file %v", src)
			m := zzModel{}
			if len(src) > 0 {
				m, _ = zzParse(src, false)
			}
			f := zzOpen(src)
			for round := 0; round < 3; round++ {
				f.chunk = s.rng.Intn(6)
				st, err := fac.Open(f, nil)
				if err != nil {
					return "open: " + err.Error()
				}
				if msg := zzAnswers(st, m, s); msg != "" {
					return msg
				}
				steps := s.rng.Intn(15)
				if s.rng.Intn(30) == 0 {
					steps = 300
				}
				for k := 0; k < steps; k++ {
					if msg := s.step(st, m, &lbl); msg != "" {
						return msg
					}
					if msg := zzAnswers(st, m, s); msg != "" {
						return msg
					}
				}
				if err := st.Close(); err != nil {
					return "close: " + err.Error()
				}
				lbl += " Close"
				g, msg := zzParse(f.data, false)
				if msg != "" || fmt.Sprint(g) != fmt.Sprint(m) {
					return fmt.Sprintf("closed file has %v instead of %v %s", g, m, msg)
				}
				if n := binary.BigEndian.Uint32(f.data[8:]); f.data[6] != 1 || int(n) != len(m) {
					return fmt.Sprintf("header says version %d, %d entries instead of %d", f.data[6], n, len(m))
				}
				f = zzOpen(f.data)
			}
			return ""
		})
	}
}

func TestVerifReplayC17(t *testing.T) {
	s := zzNew(t)
	fac := NewStorageFactory()
	for s.more() {
		lbl := ""
		s.try(func() string { return lbl }, func() string {
			src := s.source()
			lbl = fmt.Sprintf("file %v", src)
			f := zzOpen(src)
			f.chunk = s.rng.Intn(6)
			m, msg := zzParse(src, false)
			fits := len(src) == 0 || msg == ""
			c := &zzFile{failAt: -1}
			var closer io.Closer
			if s.rng.Intn(2) == 0 {
				closer = c
			}
			st, err := fac.Open(f, closer)
			if fits != (err == nil) {
				return fmt.Sprintf("open: %v (%s)", err, msg)
			}
			if err != nil {
				locked := len(src) >= 12 && zzMagicOk(src) && src[7] != 0
				if locked && !errors.Is(err, domain.NewCorruptedFileError()) {
					return "a locked file is not reported as corrupted: " + err.Error()
				}
				if (locked || !zzMagicOk(src) || len(src) < 12) && !bytes.Equal(f.data, src) {
					return "a refused file was changed"
				}
				return ""
			}
			if len(f.data) < 12 || !zzMagicOk(f.data) || f.data[7] != 1 {
				return "the file is not locked while it is open"
			}
			if m == nil {
				m = zzModel{}
			}
			bad := ""
			closing := false
			f.onWrite = func(d []byte) {
				if len(d) >= 12 && d[7] != 0 {
					return
				}
				if !closing {
					bad = "the lock mark was cleared while the store is open"
					return
				}
				g, msg := zzParse(d, false)
				if msg != "" || fmt.Sprint(g) != fmt.Sprint(m) || int(binary.BigEndian.Uint32(d[8:])) != len(m) {
					bad = fmt.Sprintf("unlocked before it is complete: %v %s", d, msg)
				}
			}
			for k := s.rng.Intn(8); k > 0; k-- {
				if msg := s.step(st, m, &lbl); msg != "" {
					return msg
				}
				if bad != "" {
					return bad
				}
			}
			closing = true
			if s.rng.Intn(2) == 0 {
				f.failAt, f.ops, f.part, f.failed = s.rng.Intn(9), 0, s.rng.Intn(60), false
				lbl += fmt.Sprint(" failing operation ", f.failAt)
			}
			err = st.Close()
			lbl += fmt.Sprint(" Close=", err)
			if bad != "" {
				return bad
			}
			if f.failAt >= 0 && f.failed && err == nil {
				return "close reported success after a failed operation"
			}
			if err == nil {
				g, msg := zzParse(f.data, false)
				if msg != "" || fmt.Sprint(g) != fmt.Sprint(m) {
					return fmt.Sprintf("closed file is %v %s", f.data, msg)
				}
			} else if g, msg := zzParse(f.data, false); msg == "" && fmt.Sprint(g) != fmt.Sprint(m) {
				return fmt.Sprintf("after a failed close the file is unlocked but incomplete: %v", f.data)
			}
			return ""
		})
	}
}

func TestVerifReplayC21(t *testing.T) {
	s := zzNew(t)
	fac := NewStorageFactory()
	p := NewProtocol()
	for s.more() {
		src := s.closedFile()
		if s.rng.Intn(3) == 0 {
			src = s.source()
		}
		at, part, op := s.rng.Intn(12), s.rng.Intn(30), s.rng.Intn(10)
		names := []string{"Open", "Close", "WriteLocked", "IsLocked", "WritePrefix", "ReadPrefix", "WriteHeader", "ReadHeader", "WriteEntry", "ReadEntry"}
		s.try(func() string {
			return fmt.Sprintf("%s of %v when file operation %d fails (%d bytes written)", names[op], src, at, part)
		}, func() string {
			f := zzOpen(src)
			f.part, f.chunk = part, s.rng.Intn(8)
			var err error
			if op != 1 {
				f.failAt = at
			}
			switch op {
			case 0:
				_, err = fac.Open(f, nil)
			case 1:
				st, e := fac.Open(f, f)
				if e != nil {
					return ""
				}
				for k := s.rng.Intn(5); k > 0; k-- {
					st.Put(s.small(), s.small())
				}
				f.failAt, f.ops = at, 0
				err = st.Close()
			case 2:
				err = p.WriteLocked(true, f)
			case 3:
				_, err = p.IsLocked(f)
			case 4:
				_, err = p.WritePrefix(f)
			case 5:
				_, err = p.ReadPrefix(f)
			case 6:
				_, err = p.WriteHeader(&Header{1, 1, 1}, f)
			case 7:
				_, err = p.ReadHeader(&Header{}, f)
			case 8:
				_, err = p.WriteEntry(&Entry{1, 2}, f)
			case 9:
				_, err = p.ReadEntry(&Entry{}, f)
			}
			if f.failed && err == nil {
				return "success reported"
			}
			return ""
		})
	}
}
