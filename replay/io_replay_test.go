package helpers

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"testing"
)

func TestVerifReplayC07(t *testing.T) {
	s := zzNew(t)
	sizes := []int{0, 1, 2, 7, 50, 98, 99, 100, 101, 102, 150, 199, 200, 201, 255, 256, 300, 500, 1000, 4096, 5000}
	for s.more() {
		n := sizes[s.rng.Intn(len(sizes))]
		if s.rng.Intn(2) == 0 {
			n = s.rng.Intn(400)
		}
		base := s.rng.Intn(300)
		old := s.bytes(base + s.rng.Intn(600))
		chunk := 0
		if s.rng.Intn(2) == 0 {
			chunk = 1 + s.rng.Intn(120)
		}
		fail, part := -1, 0
		if s.rng.Intn(3) == 0 {
			fail, part = s.rng.Intn(6), s.rng.Intn(60)
		}
		mk := func() *zzFile {
			f := zzOpen(old)
			f.pos, f.chunk, f.failAt, f.part = int64(base), chunk, fail, part
			return f
		}
		s.try(func() string {
			return fmt.Sprintf("SkipReading(%d) from a stream with %d bytes left, chunk %d, failing operation %d", n, len(old)-base, chunk, fail)
		}, func() string {
			f := mk()
			c, err := SkipReading(n, f)
			if err == nil && (c != n || f.pos != int64(base+n)) {
				return fmt.Sprintf("returned %d, consumed %d", c, f.pos-int64(base))
			}
			if err != nil && !f.failed && len(old)-base >= n {
				return "error " + err.Error()
			}
			if err == nil && f.failed {
				return "no error after a failed read"
			}
			if !bytes.Equal(f.data, old) {
				return "stream changed"
			}
			return ""
		})
		s.try(func() string {
			return fmt.Sprintf("WriteZeros(%d) at %d of %d bytes (after skipping), failing operation %d after %d bytes", n, base, len(old), fail, part)
		}, func() string {
			f := mk()
			c, err := WriteZeros(n, f)
			if err == nil && (c != n || f.pos != int64(base+n)) {
				return fmt.Sprintf("returned %d, wrote %d", c, f.pos-int64(base))
			}
			if err == nil && f.failed {
				return "no error after a failed write"
			}
			if err != nil && !f.failed {
				return "error " + err.Error()
			}
			want := append([]byte(nil), old...)
			for i := base; i < int(f.pos); i++ {
				if i < len(want) {
					want[i] = 0
				} else {
					want = append(want, 0)
				}
			}
			if !bytes.Equal(f.data, want) {
				return fmt.Sprintf("wrong bytes: %v", f.data[base:])
			}
			return ""
		})
	}
}

// the in-memory file against a plain model of a file, over random sequences of operations
func TestVerifReplayC06(t *testing.T) {
	s := zzNew(t)
	for s.more() {
		seed := s.rng.Int63()
		s.try(func() string { return fmt.Sprintf("operation sequence of seed %d", seed) }, func() string {
			return zzFileBufferRun(seed)
		})
	}
}

func zzFileBufferRun(seed int64) string {
	rng := rand.New(rand.NewSource(seed))
	blob := func(n int) []byte {
		b := make([]byte, n)
		rng.Read(b)
		return b
	}
	var init []byte
	if rng.Intn(3) > 0 {
		n := rng.Intn(30)
		// sometimes with spare capacity that is not empty
		init = blob(n + rng.Intn(20))[:n]
	}
	model, pos, closed := append([]byte{}, init...), 0, false
	fb := NewFileBuffer(init)
	log := fmt.Sprintf("content %v", model)
	for step := 0; step < 12; step++ {
		switch op := rng.Intn(12); {
		case op < 3:
			n := rng.Intn(25)
			b := blob(n)
			old := append([]byte{}, b...)
			c, err := fb.Read(b)
			log += fmt.Sprintf("; read %d", n)
			want := len(model) - pos
			if want > n {
				want = n
			}
			switch {
			case closed:
				if err == nil || err == io.EOF || c != 0 || !bytes.Equal(b, old) {
					return log + ": closed, but " + fmt.Sprint(c, err)
				}
			case pos == len(model):
				if err != io.EOF || c != 0 || !bytes.Equal(b, old) {
					return log + ": at the end, but " + fmt.Sprint(c, err)
				}
			default:
				if err != nil || c != want || !bytes.Equal(b[:c], model[pos:pos+c]) || !bytes.Equal(b[c:], old[c:]) {
					return log + fmt.Sprintf(": got %v (%d, %v)", b, c, err)
				}
				pos += c
			}
		case op < 6:
			b := blob(rng.Intn(25))
			c, err := fb.Write(b)
			log += fmt.Sprintf("; write %v", b)
			if closed {
				if err == nil || c != 0 {
					return log + ": closed, but " + fmt.Sprint(c, err)
				}
				break
			}
			if err != nil || c != len(b) {
				return log + ": " + fmt.Sprint(c, err)
			}
			for i, x := range b {
				if pos+i < len(model) {
					model[pos+i] = x
				} else {
					model = append(model, x)
				}
			}
			pos += len(b)
		case op < 9:
			offs := []int64{0, 1, -1, int64(rng.Intn(60)) - 30, int64(len(model)), int64(-len(model)), 1<<63 - 1, -1 << 63, int64(pos), int64(-pos), 9223372036854775807 - int64(rng.Intn(40))}
			off, whence := offs[rng.Intn(len(offs))], rng.Intn(5)-1
			p, err := fb.Seek(off, whence)
			log += fmt.Sprintf("; seek %d %d", off, whence)
			base := map[int]int{0: 0, 1: pos, 2: len(model)}[whence]
			ok := !closed && whence >= 0 && whence <= 2 && off >= int64(-base) && off <= int64(len(model)-base)
			if ok != (err == nil) || ok && p != int64(base)+off {
				return log + ": " + fmt.Sprint(p, err)
			}
			if ok {
				pos = int(p)
			}
		case op < 11:
			n := int64(rng.Intn(50)) - 4
			if rng.Intn(4) == 0 {
				n = int64(len(model) + rng.Intn(3) - 1)
			}
			err := fb.Truncate(n)
			log += fmt.Sprintf("; truncate %d", n)
			ok := !closed && n >= 0
			if ok != (err == nil) {
				return log + ": " + fmt.Sprint(err)
			}
			if ok {
				for int64(len(model)) < n {
					model = append(model, 0)
				}
				model = model[:n]
				if pos > len(model) {
					pos = len(model)
				}
			}
		default:
			if rng.Intn(3) > 0 {
				break
			}
			log += "; close"
			if err := fb.Close(); err != nil {
				return log + ": " + fmt.Sprint(err)
			}
			closed = true
		}
		if !bytes.Equal(fb.Bytes(), model) || fb.Len() != len(model) {
			return log + fmt.Sprintf(": content %v, want %v", fb.Bytes(), model)
		}
		if !closed {
			if p, err := fb.Seek(0, 1); err != nil || p != int64(pos) {
				return log + fmt.Sprintf(": position %d, want %d (%v)", p, pos, err)
			}
		}
	}
	return ""
}
