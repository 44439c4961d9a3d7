package domain

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"testing"
)

type zzSets struct{ l, d map[uint64]bool }

func zzKeys(m map[uint64]bool) []uint64 {
	r := []uint64{}
	for k := range m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func zzEq(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func zzOps(s *zzSearch, canonical bool) {
	pool := make([]uint64, 1+s.rng.Intn(12))
	for i := range pool {
		if s.rng.Intn(2) == 0 {
			pool[i] = s.small()
		} else {
			pool[i] = s.val()
		}
	}
	n := 1 + s.rng.Intn(30)
	kinds, items := make([]int, n), make([]uint64, n)
	for i := range kinds {
		kinds[i], items[i] = s.rng.Intn(8), pool[s.rng.Intn(len(pool))]
		if kinds[i] > 5 {
			kinds[i] -= 6
		}
	}
	names := []string{"Like", "Dislike", "Unlike", "Undislike", "RemoveItem", "QualifyItem"}
	upto := 0
	label := func() string {
		r := "NewProfile"
		for i := 0; i <= upto && i < n; i++ {
			r += fmt.Sprintf("; %s(%d)", names[kinds[i]], items[i])
		}
		return r
	}
	s.try(label, func() string {
		p := NewProfile(77)
		m := zzSets{map[uint64]bool{}, map[uint64]bool{}}
		// storage of the two lists with spare capacity, as after earlier removals
		for i := 0; i < n; i++ {
			upto = i
			x := items[i]
			switch kinds[i] {
			case 0:
				p.Like(x)
				m.l[x] = true
				delete(m.d, x)
			case 1:
				p.Dislike(x)
				m.d[x] = true
				delete(m.l, x)
			case 2:
				p.Unlike(x)
				delete(m.l, x)
			case 3:
				p.Undislike(x)
				delete(m.d, x)
			case 4:
				p.RemoveItem(x)
				delete(m.l, x)
				delete(m.d, x)
			}
			for _, y := range pool {
				want := 0
				if m.l[y] {
					want = 1
				} else if m.d[y] {
					want = -1
				}
				if got := p.QualifyItem(y); got != want {
					return fmt.Sprintf("QualifyItem(%d) = %d, want %d", y, got, want)
				}
			}
			if !zzEq(p.Likes, zzKeys(m.l)) || !zzEq(p.Dislikes, zzKeys(m.d)) {
				return fmt.Sprintf("lists %v %v, want %v %v", p.Likes, p.Dislikes, zzKeys(m.l), zzKeys(m.d))
			}
			if p.UserID != 77 {
				return "the user changed"
			}
			if canonical && cap(p.Likes) > 0 && cap(p.Dislikes) > 0 {
				a, b := p.Likes[:cap(p.Likes)], p.Dislikes[:cap(p.Dislikes)]
				if &a[cap(a)-1] == &b[cap(b)-1] {
					return "the lists share storage"
				}
			}
		}
		return ""
	})
}

func TestVerifReplayC01(t *testing.T) {
	s := zzNew(t)
	for s.more() {
		zzOps(s, true)
	}
}

func TestVerifReplayC02(t *testing.T) {
	s := zzNew(t)
	for s.more() {
		zzOps(s, true)
	}
}

func zzList(s *zzSearch, max int, pool []uint64) []uint64 {
	m := map[uint64]bool{}
	for n := s.rng.Intn(max + 1); n > 0; n-- {
		m[pool[s.rng.Intn(len(pool))]] = true
	}
	r := zzKeys(m)
	if len(r) == 0 && s.rng.Intn(2) == 0 {
		return nil
	}
	return r
}

func zzCommon(a, b []uint64) int {
	m := map[uint64]bool{}
	for _, x := range a {
		m[x] = true
	}
	n := 0
	for _, x := range b {
		if m[x] {
			n++
		}
	}
	return n
}

func TestVerifReplayC03(t *testing.T) {
	s := zzNew(t)
	factors := []float32{0, 1, 0.5, 0.25, 0.75, 0.1, 0.3, 0.9, 0.999}
	for s.more() {
		pool := make([]uint64, 1+s.rng.Intn(40))
		for i := range pool {
			pool[i] = s.val()
		}
		max := []int{1, 3, 8, 60}[s.rng.Intn(4)]
		p := &Profile{UserID: 1, Likes: zzList(s, max, pool), Dislikes: []uint64{}}
		q := Profile{UserID: 2, Likes: zzList(s, max, pool), Dislikes: []uint64{}}
		for _, r := range []*Profile{p, &q} {
			for _, x := range zzList(s, max, pool) {
				if zzCommon([]uint64{x}, r.Likes) == 0 {
					r.Dislikes = append(r.Dislikes, x)
				}
			}
		}
		f := factors[s.rng.Intn(len(factors))]
		if s.rng.Intn(3) == 0 {
			f = s.rng.Float32()
		}
		pl, pd := append([]uint64{}, p.Likes...), append([]uint64{}, p.Dislikes...)
		ql, qd := append([]uint64{}, q.Likes...), append([]uint64{}, q.Dislikes...)
		s.try(func() string { return fmt.Sprintf("ComputeSimilarity({%v %v}, {%v %v}, %v)", pl, pd, ql, qd, f) }, func() string {
			got := p.ComputeSimilarity(q, f)
			if math.IsNaN(float64(got)) || !(got >= 0 && got <= 100) {
				return fmt.Sprint("result ", got)
			}
			if !zzEq(p.Likes, pl) || !zzEq(p.Dislikes, pd) || !zzEq(q.Likes, ql) || !zzEq(q.Dislikes, qd) {
				return "a profile was modified"
			}
			cl, cd := zzCommon(pl, ql), zzCommon(pd, qd)
			wl, ud := len(pl)+len(ql)-cl, len(pd)+len(qd)-cd
			// the exact product decides the floor, unless single precision rounding makes it ambiguous
			ex := new(big.Float).Mul(big.NewFloat(float64(f)), big.NewFloat(float64(ud)))
			e, _ := ex.Float64()
			lo, hi := math.Floor(e*(1-1e-6)-1e-9), math.Floor(e*(1+1e-6)+1e-9)
			ok := false
			var want float64
			for _, wd := range []float64{lo, hi} {
				if wd < 0 {
					wd = 0
				}
				want = 0
				if float64(wl)+wd > 0 {
					jl, jd := 0.0, 0.0
					if wl > 0 {
						jl = float64(cl) / float64(wl)
					}
					if ud > 0 {
						jd = float64(cd) / float64(ud)
					}
					want = 100 * (jl*float64(wl) + jd*wd) / (float64(wl) + wd)
				}
				if math.Abs(want-float64(got)) < 1e-3 {
					ok = true
				}
			}
			if !ok {
				return fmt.Sprintf("result %v, want %v", got, want)
			}
			return ""
		})
	}
}
