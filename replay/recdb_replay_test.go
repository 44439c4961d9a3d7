package recdb

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"recengine/internal/domain"
	"testing"
)

var zzMagic = []byte("RECDB")

type zzRec struct {
	cap     uint32
	deleted byte
	user    uint64
	likes   []uint64
	dis     []uint64
}

func (r zzRec) need() int { return 21 + 8*len(r.likes) + 8*len(r.dis) }
func (r zzRec) entry() *Entry {
	return &Entry{Capacity: r.cap, Deleted: r.deleted, Data: &domain.Profile{UserID: r.user, Likes: r.likes, Dislikes: r.dis}}
}

func (r zzRec) bytes() []byte {
	b := binary.BigEndian.AppendUint32(nil, r.cap)
	b = append(b, r.deleted)
	b = binary.BigEndian.AppendUint64(b, r.user)
	b = binary.BigEndian.AppendUint32(b, uint32(len(r.likes)))
	for _, x := range r.likes {
		b = binary.BigEndian.AppendUint64(b, x)
	}
	b = binary.BigEndian.AppendUint32(b, uint32(len(r.dis)))
	for _, x := range r.dis {
		b = binary.BigEndian.AppendUint64(b, x)
	}
	for len(b) < int(r.cap) {
		b = append(b, 0)
	}
	return b
}

func zzSame(e *Entry, r zzRec) string {
	p, ok := e.Data.(*domain.Profile)
	if !ok || p == nil {
		return fmt.Sprintf("data is %T", e.Data)
	}
	if e.Capacity != r.cap || e.Deleted != r.deleted || p.UserID != r.user || fmt.Sprint(p.Likes) != fmt.Sprint(r.likes) || fmt.Sprint(p.Dislikes) != fmt.Sprint(r.dis) {
		return fmt.Sprintf("record is {%d %d %+v} instead of %+v", e.Capacity, e.Deleted, *p, r)
	}
	return ""
}

func (s *zzSearch) words(n int) []uint64 {
	w := make([]uint64, n)
	for i := range w {
		w[i] = s.val()
	}
	return w
}

func (s *zzSearch) rec() zzRec {
	n := func() int {
		switch s.rng.Intn(30) {
		case 0:
			return 256 + s.rng.Intn(3)
		case 1, 2:
			return 10 + s.rng.Intn(40)
		}
		return s.rng.Intn(5)
	}
	r := zzRec{0, byte(s.rng.Intn(2)), s.val(), s.words(n()), s.words(n())}
	r.cap = uint32(r.need() + s.rng.Intn(3)*s.rng.Intn(120))
	if s.rng.Intn(8) == 0 {
		r.deleted = byte(s.val())
	}
	return r
}

func zzHead(v byte, typ string, locked byte, n uint32) []byte {
	b := append([]byte{v}, typ...)
	b = append(b, locked)
	return binary.BigEndian.AppendUint32(b, n)
}

func TestVerifReplayC10(t *testing.T) {
	s := zzNew(t)
	p := NewProtocol(NewLikeProtocol())
	for s.more() {
		pad := s.bytes(s.rng.Intn(4))
		chunk := s.rng.Intn(40)
		rd := func(b []byte) *zzFile {
			f := zzOpen(append(append([]byte(nil), pad...), b...))
			f.pos, f.chunk = int64(len(pad)), chunk
			return f
		}
		r := s.rec()
		s.try(func() string { return fmt.Sprintf("record %+v", r) }, func() string {
			want := r.bytes()
			f := rd(s.bytes(s.rng.Intn(2) * 60))
			tail := append([]byte(nil), f.data[len(pad):]...)
			if len(tail) > len(want) {
				tail = tail[len(want):]
			} else {
				tail = nil
			}
			n, err := p.WriteEntry(r.entry(), f)
			if err != nil || n != len(want) || !bytes.Equal(f.data[len(pad):], append(append([]byte(nil), want...), tail...)) {
				return fmt.Sprintf("written as %v instead of %v (%d, %v)", f.data[len(pad):], want, n, err)
			}
			f = rd(append(append([]byte(nil), want...), s.bytes(s.rng.Intn(4))...))
			var got Entry
			n, err = p.ReadEntry(&got, f)
			if err != nil || n != len(want) || f.pos != int64(len(pad)+len(want)) {
				return fmt.Sprintf("%v read: %d, %v, position %d", want, n, err, f.pos-int64(len(pad)))
			}
			if msg := zzSame(&got, r); msg != "" {
				return msg
			}
			k := s.rng.Intn(len(want))
			if _, err := p.ReadEntry(&got, rd(want[:k])); err == nil {
				return fmt.Sprintf("reading %d bytes of %d succeeds", k, len(want))
			}
			e := r.entry()
			sz, err := p.PredictEntrySize(e)
			c, err2 := p.PredictEntryCapacity(e)
			if err != nil || err2 != nil || sz != r.need() || c < sz {
				return fmt.Sprintf("predicted size %d, capacity %d of %d: %v %v", sz, c, r.need(), err, err2)
			}
			small := r
			small.cap = uint32(s.rng.Intn(r.need()))
			if s.rng.Intn(2) == 0 {
				small.cap = uint32(r.need() - 1 - s.rng.Intn(8))
			}
			f = rd(s.bytes(20))
			before := append([]byte(nil), f.data...)
			if _, err := p.WriteEntry(small.entry(), f); err == nil || !bytes.Equal(before, f.data) {
				return fmt.Sprintf("a record of %d bytes is not refused for capacity %d: %v", r.need(), small.cap, err)
			}
			if _, err := p.ReadEntry(&got, rd(append(small.bytes(), s.bytes(80)...))); err == nil {
				return fmt.Sprintf("a record of %d bytes with stated capacity %d is read", r.need(), small.cap)
			}
			return ""
		})
		h := Header{byte(s.val()), *(*[8]byte)(s.bytes(8)), byte(s.val()), uint32(s.val())}
		s.try(func() string { return fmt.Sprintf("header %+v", h) }, func() string {
			want := zzHead(h.Version, string(h.EntryType[:]), h.Locked, h.NumEntries)
			f := rd(nil)
			n, err := p.WriteHeader(&h, f)
			if err != nil || n != 14 || !bytes.Equal(f.data[len(pad):], want) {
				return fmt.Sprintf("written as %v instead of %v (%d, %v)", f.data[len(pad):], want, n, err)
			}
			f = rd(append(append([]byte(nil), want...), s.bytes(3)...))
			got := Header{9, [8]byte{9}, 9, 9}
			n, err = p.ReadHeader(&got, f)
			if err != nil || n != 14 || got != h || f.pos != int64(len(pad)+14) {
				return fmt.Sprintf("%v read as %+v, %d, %v, position %d", want, got, n, err, f.pos-int64(len(pad)))
			}
			if _, err := p.ReadHeader(&got, rd(want[:s.rng.Intn(14)])); err == nil {
				return "reading a short header succeeds"
			}
			return ""
		})
		m := append([]byte(nil), zzMagic...)
		if s.rng.Intn(2) == 0 {
			m[s.rng.Intn(5)] ^= byte(1 << s.rng.Intn(8))
		}
		m = append(m, s.bytes(3)...)[:5+s.rng.Intn(3)]
		if s.rng.Intn(4) == 0 {
			m = m[:s.rng.Intn(5)]
		}
		s.try(func() string { return fmt.Sprintf("prefix %q", m) }, func() string {
			f := rd(nil)
			n, err := p.WritePrefix(f)
			if err != nil || n != 5 || !bytes.Equal(f.data[len(pad):], zzMagic) {
				return fmt.Sprintf("prefix written as %v, %d, %v", f.data, n, err)
			}
			f = rd(m)
			n, err = p.ReadPrefix(f)
			good := len(m) >= 5 && bytes.Equal(m[:5], zzMagic)
			if (err == nil) != good || good && (n != 5 || f.pos != int64(len(pad)+5)) {
				return fmt.Sprintf("reading: %d, %v, position %d", n, err, f.pos-int64(len(pad)))
			}
			return ""
		})
		s.try(func() string { return "Create" }, func() string {
			f := rd(nil)
			err := p.Create(f)
			if want := append(append([]byte(nil), zzMagic...), zzHead(1, "LIKE    ", 0, 0)...); err != nil || !bytes.Equal(f.data[len(pad):], want) {
				return fmt.Sprintf("%v, content %v", err, f.data[len(pad):])
			}
			return ""
		})
	}
}

func (s *zzSearch) database() ([]byte, []zzRec, []int) {
	n := s.rng.Intn(7)
	if s.rng.Intn(6) == 0 {
		n = 40 + s.rng.Intn(60)
	}
	b := append(append([]byte(nil), zzMagic...), zzHead(1, "LIKE    ", 0, uint32(n))...)
	var recs []zzRec
	var off []int
	for k := 0; k < n; k++ {
		r := s.rec()
		off = append(off, len(b))
		recs = append(recs, r)
		b = append(b, r.bytes()...)
	}
	if s.rng.Intn(4) == 0 {
		b = append(b, s.bytes(s.rng.Intn(40))...)
	}
	return b, recs, off
}

func TestVerifReplayC11(t *testing.T) {
	s := zzNew(t)
	p := NewProtocol(NewLikeProtocol())
	for s.more() {
		src, _, _ := s.database()
		if s.rng.Intn(3) == 0 {
			src = s.bytes(15 + s.rng.Intn(40))
		}
		src[14] = byte(s.rng.Intn(4) * 85)
		at := s.rng.Intn(len(src) + 3)
		want := append([]byte(nil), src...)
		lock := s.rng.Intn(2) == 0
		want[14] = 0
		if lock {
			want[14] = 1
		}
		s.try(func() string { return fmt.Sprintf("locking (%v) %v (position %d)", lock, src, at) }, func() string {
			f := zzOpen(src)
			f.pos = int64(at)
			l, err := p.IsLocked(f)
			if err != nil || l != (src[14] != 0) || f.pos != int64(at) || !bytes.Equal(f.data, src) {
				return fmt.Sprintf("IsLocked %v, %v, position %d, content %v", l, err, f.pos, f.data)
			}
			err = p.WriteLocked(lock, f)
			if err != nil || f.pos != int64(at) || !bytes.Equal(f.data, want) {
				return fmt.Sprintf("WriteLocked %v, position %d, content %v", err, f.pos, f.data)
			}
			return ""
		})
	}
}

func TestVerifReplayC18(t *testing.T) {
	s := zzNew(t)
	p := NewProtocol(NewLikeProtocol())
	for s.more() {
		src, recs, off := s.database()
		lbl := fmt.Sprintf("database of %d records %v", len(recs), src)
		s.try(func() string { return lbl }, func() string {
			f := zzOpen(src)
			f.chunk = s.rng.Intn(3) * s.rng.Intn(300)
			f.pos = int64(s.rng.Intn(len(src) + 1))
			switch s.rng.Intn(8) {
			case 0:
				f.data[14] = byte(1 + s.rng.Intn(255))
				if _, err := NewIterator(f, p); err == nil || !errors.Is(err, domain.NewCorruptedFileError()) {
					return fmt.Sprintf("iterating a locked file: %v", err)
				}
				return ""
			case 1:
				f.data[s.rng.Intn(5)] ^= byte(1 << s.rng.Intn(8))
				if _, err := NewIterator(f, p); err == nil {
					return "a wrong prefix is accepted"
				}
				return ""
			}
			it, err := NewIterator(f, p)
			if err != nil {
				return err.Error()
			}
			at := 0
			want := append([]byte(nil), src...)
			for k := 2 * len(recs) + 6; k > 0; k-- {
				if it.HasNext() != (at < len(recs)) {
					return fmt.Sprintf("HasNext is %v after %d records", it.HasNext(), at)
				}
				x := s.rng.Intn(12)
				switch {
				case x == 0 && s.rng.Intn(3) == 0:
					lbl += " Rewind"
					if err := it.Rewind(); err != nil {
						return "rewind: " + err.Error()
					}
					at = 0
				case x < 3:
					var r zzRec
					if at > 0 {
						old := recs[at-1]
						r = zzRec{old.cap, byte(s.rng.Intn(2)), s.val(), nil, nil}
						room := (int(old.cap) - 21) / 8
						if room > 0 {
							r.likes = s.words(s.rng.Intn(room + 1))
							r.dis = s.words(s.rng.Intn(room + 1 - len(r.likes)))
						}
					} else {
						r = s.rec()
					}
					bad := at == 0
					switch s.rng.Intn(6) {
					case 0:
						r.cap += uint32(1 + s.rng.Intn(9))
						bad = true
					case 1:
						r.likes = s.words(int(r.cap)/8 + 1)
						bad = true
					}
					lbl += fmt.Sprintf(" SetPrevious %+v", r)
					err := it.SetPrevious(r.entry())
					if bad != (err != nil) {
						return fmt.Sprintf("replacing record %d by %+v: %v", at-1, r, err)
					}
					if !bad {
						recs[at-1] = r
						copy(want[off[at-1]:], r.bytes())
					}
					if !bytes.Equal(f.data, want) {
						return fmt.Sprintf("content is %v instead of %v", f.data, want)
					}
				default:
					lbl += " Next"
					e, err := it.Next()
					if (err == nil) != (at < len(recs)) {
						return fmt.Sprintf("record %d of %d: %v", at, len(recs), err)
					}
					if err == nil {
						if msg := zzSame(e, recs[at]); msg != "" {
							return fmt.Sprintf("record %d: %s", at, msg)
						}
						at++
					}
				}
			}
			if !bytes.Equal(f.data, want) {
				return fmt.Sprintf("content is %v instead of %v", f.data, want)
			}
			return ""
		})
	}
}

func TestVerifReplayC21(t *testing.T) {
	s := zzNew(t)
	p := NewProtocol(NewLikeProtocol())
	names := []string{"Create", "WritePrefix", "ReadPrefix", "WriteHeader", "ReadHeader", "WriteEntry", "ReadEntry", "WriteLocked", "IsLocked", "NewIterator", "Next", "SetPrevious", "Rewind"}
	for s.more() {
		src, recs, off := s.database()
		op, at, part := s.rng.Intn(len(names)), s.rng.Intn(12), s.rng.Intn(30)
		r := s.rec()
		s.try(func() string {
			return fmt.Sprintf("%s of %v when file operation %d fails (%d bytes written)", names[op], src, at, part)
		}, func() string {
			f := zzOpen(src)
			f.part, f.chunk = part, s.rng.Intn(3)*s.rng.Intn(50)
			var err error
			var it Iterator
			if op >= 10 {
				it, err = NewIterator(f, p)
				if err != nil {
					return err.Error()
				}
				n := s.rng.Intn(len(recs) + 1)
				for k := 0; k < n; k++ {
					if _, err := it.Next(); err != nil {
						return err.Error()
					}
				}
				if n > 0 {
					r = zzRec{cap: recs[n-1].cap}
				}
			}
			if len(off) > 0 && op == 6 {
				f.pos = int64(off[0])
			}
			f.failAt, f.ops = at, 0
			switch op {
			case 0:
				err = p.Create(f)
			case 1:
				_, err = p.WritePrefix(f)
			case 2:
				_, err = p.ReadPrefix(f)
			case 3:
				_, err = p.WriteHeader(&Header{}, f)
			case 4:
				_, err = p.ReadHeader(&Header{}, f)
			case 5:
				_, err = p.WriteEntry(r.entry(), f)
			case 6:
				_, err = p.ReadEntry(&Entry{}, f)
			case 7:
				err = p.WriteLocked(true, f)
			case 8:
				_, err = p.IsLocked(f)
			case 9:
				_, err = NewIterator(f, p)
			case 10:
				_, err = it.Next()
			case 11:
				err = it.SetPrevious(r.entry())
			case 12:
				err = it.Rewind()
			}
			if f.failed && err == nil {
				return "success reported"
			}
			return ""
		})
	}
}
