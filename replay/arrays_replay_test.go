package helpers

import (
	"fmt"
	"sort"
	"testing"
)

func zzVals(s *zzSearch, n int, distinct, sorted bool) []uint64 {
	r := []uint64{}
	seen := map[uint64]bool{}
	for len(r) < n {
		var x uint64
		switch s.rng.Intn(3) {
		case 0:
			x = uint64(s.rng.Intn(2*n + 3))
		case 1:
			x = s.small()
		default:
			x = s.val()
		}
		if distinct && seen[x] {
			n--
			continue
		}
		seen[x] = true
		r = append(r, x)
	}
	if sorted {
		sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	}
	// spare capacity exposes writes beyond the length
	switch s.rng.Intn(3) {
	case 0:
		r = append(make([]uint64, 0, len(r)+s.rng.Intn(4)), r...)
	case 1:
		r = r[:len(r):len(r)]
	}
	if len(r) == 0 && s.rng.Intn(2) == 0 {
		return nil
	}
	return r
}

func zzSame(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func zzDist(a, b uint64) uint64 {
	if a < b {
		return b - a
	}
	return a - b
}

func zzWanted(s *zzSearch, h []uint64) uint64 {
	if len(h) > 0 && s.rng.Intn(2) == 0 {
		return h[s.rng.Intn(len(h))] + uint64(s.rng.Intn(3)) - 1
	}
	return s.val()
}

func TestVerifReplayC04(t *testing.T) {
	s := zzNew(t)
	for s.more() {
		n := s.rng.Intn(10)
		if s.rng.Intn(50) == 0 {
			n = s.rng.Intn(300)
		}
		h := zzVals(s, n, s.rng.Intn(2) == 0, s.rng.Intn(4) != 0)
		x := zzWanted(s, h)
		srt := sort.SliceIsSorted(h, func(i, j int) bool { return h[i] < h[j] })
		c := append([]uint64{}, h...)
		first := -1
		for i := range c {
			if c[i] == x {
				first = i
				break
			}
		}
		s.try(func() string { return fmt.Sprintf("IndexOf(%v, %d)", c, x) }, func() string {
			if g := IndexOf(h, x); g != first {
				return fmt.Sprintf("%d, want %d", g, first)
			}
			if !zzSame(h, c) {
				return "list changed"
			}
			return ""
		})
		if !srt {
			continue
		}
		s.try(func() string { return fmt.Sprintf("BinaryIndexOf(%v, %d)", c, x) }, func() string {
			g := BinaryIndexOf(h, x)
			if g < -1 || g >= len(h) || (g < 0) != (first < 0) || g >= 0 && h[g] != x {
				return fmt.Sprint(g)
			}
			if !zzSame(h, c) {
				return "list changed"
			}
			return ""
		})
		s.try(func() string { return fmt.Sprintf("BinaryIndexOfClosest(%v, %d)", c, x) }, func() string {
			g := BinaryIndexOfClosest(h, x)
			if g < -1 || g >= len(h) || (g < 0) != (len(h) == 0) {
				return fmt.Sprint(g)
			}
			if !zzSame(h, c) {
				return "list changed"
			}
			for _, y := range h {
				if zzDist(y, x) < zzDist(h[g], x) {
					return fmt.Sprintf("%d, but %d is closer", g, y)
				}
			}
			return ""
		})
		// strings and small unsigned values
		hs, x8 := []string{}, uint8(x)
		h8 := []uint8{}
		for _, y := range h {
			hs = append(hs, fmt.Sprintf("%020d", y))
			h8 = append(h8, uint8(y))
		}
		sort.Slice(h8, func(i, j int) bool { return h8[i] < h8[j] })
		s.try(func() string { return fmt.Sprintf("BinaryIndexOf(%v, %020d)", hs, x) }, func() string {
			g := BinaryIndexOf(hs, fmt.Sprintf("%020d", x))
			if g < -1 || g >= len(h) || (g < 0) != (first < 0) || g >= 0 && h[g] != x {
				return fmt.Sprint(g)
			}
			return ""
		})
		s.try(func() string { return fmt.Sprintf("BinaryIndexOfClosest(%v uint8, %d)", h8, x8) }, func() string {
			g := BinaryIndexOfClosest(h8, x8)
			if g < -1 || g >= len(h8) || (g < 0) != (len(h8) == 0) {
				return fmt.Sprint(g)
			}
			for _, y := range h8 {
				if zzDist(uint64(y), uint64(x8)) < zzDist(uint64(h8[g]), uint64(x8)) {
					return fmt.Sprintf("%d, but %d is closer", g, y)
				}
			}
			return ""
		})
		a, b := s.val(), s.val()
		s.try(func() string { return fmt.Sprintf("Deviation(%d, %d)", a, b) }, func() string {
			if g := Deviation(a, b); g != zzDist(a, b) {
				return fmt.Sprint(g)
			}
			return ""
		})
	}
}

func TestVerifReplayC05(t *testing.T) {
	s := zzNew(t)
	for s.more() {
		n := s.rng.Intn(10)
		if s.rng.Intn(50) == 0 {
			n = s.rng.Intn(300)
		}
		mode := s.rng.Intn(3)
		mk := func() ([]uint64, []uint64) {
			h := zzVals(s, n, mode == 2, mode >= 1)
			return h, append([]uint64{}, h...)
		}
		h, c := mk()
		x := zzWanted(s, h)
		pos := s.rng.Intn(len(h) + 1)
		ins := func(p int) []uint64 {
			return append(append(append([]uint64{}, c[:p]...), x), c[p:]...)
		}
		s.try(func() string { return fmt.Sprintf("Insert(%v, %d, %d)", c, pos, x) }, func() string {
			if g := Insert(h, pos, x); !zzSame(g, ins(pos)) {
				return fmt.Sprint(g)
			}
			return ""
		})
		if len(c) > 0 {
			h, c = mk()
			if len(c) == 0 {
				continue
			}
			p := s.rng.Intn(len(c))
			s.try(func() string { return fmt.Sprintf("RemoveSavingOrder(%v, %d)", c, p) }, func() string {
				w := append(append([]uint64{}, c[:p]...), c[p+1:]...)
				if g := RemoveSavingOrder(h, p); !zzSame(g, w) {
					return fmt.Sprint(g)
				}
				return ""
			})
			h, c = mk()
			if len(c) == 0 {
				continue
			}
			p = s.rng.Intn(len(c))
			s.try(func() string { return fmt.Sprintf("Remove(%v, %d)", c, p) }, func() string {
				g := append([]uint64{}, Remove(h, p)...)
				w := append(append([]uint64{}, c[:p]...), c[p+1:]...)
				sort.Slice(g, func(i, j int) bool { return g[i] < g[j] })
				sort.Slice(w, func(i, j int) bool { return w[i] < w[j] })
				if !zzSame(g, w) {
					return fmt.Sprint("elements ", g)
				}
				return ""
			})
		}
		if mode >= 1 {
			h, c = mk()
			x = zzWanted(s, h)
			p := sort.Search(len(c), func(i int) bool { return c[i] > x })
			s.try(func() string { return fmt.Sprintf("InsertSavingOrder(%v, %d)", c, x) }, func() string {
				if g := InsertSavingOrder(h, x); !zzSame(g, ins(p)) {
					return fmt.Sprint(g)
				}
				return ""
			})
		}
		if mode == 2 {
			h, c = mk()
			x = zzWanted(s, h)
			p := sort.Search(len(c), func(i int) bool { return c[i] >= x })
			w := c
			if p == len(c) || c[p] != x {
				w = ins(p)
			}
			s.try(func() string { return fmt.Sprintf("PutSavingOrder(%v, %d)", c, x) }, func() string {
				if g := PutSavingOrder(h, x); !zzSame(g, w) {
					return fmt.Sprint(g)
				}
				return ""
			})
		}
	}
}
