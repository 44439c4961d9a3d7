package recdb

import (
	"fmt"
	"recengine/internal/domain"
	"testing"
	"time"
)

// answers: the reply channels of one action; got reports which channel answered and with what
type zzReply struct {
	err      chan error
	profile  chan *domain.Profile
	similar  chan *[]domain.SimilarProfile
	items    chan *[]domain.RecItem
	expected string
}

func (r *zzReply) next(d time.Duration) (string, any) {
	select {
	case e := <-r.err:
		return "error", e
	case p := <-r.profile:
		return "profile", p
	case p := <-r.similar:
		return "similar", p
	case p := <-r.items:
		return "items", p
	case <-time.After(d):
		return "", nil
	}
}

func TestVerifReplayC23(t *testing.T) {
	s := zzNew(t)
	for s.more() {
		n := s.rng.Intn(8)
		same := s.rng.Intn(3) == 0 // equal users in a row
		kinds := []int{}
		users := []uint64{}
		for i := 0; i < n; i++ {
			k := s.rng.Intn(11) - 1
			if k > 7 {
				k = int(s.val())
			}
			if len(kinds) > 0 && s.rng.Intn(3) == 0 {
				k = kinds[len(kinds)-1]
			}
			kinds = append(kinds, k)
			if same {
				users = append(users, 1)
			} else {
				users = append(users, s.val())
			}
		}
		shared := s.rng.Intn(4) == 0 // one error channel for all
		s.try(func() string { return fmt.Sprintf("batch of kinds %v users %v shared error channel %v", kinds, users, shared) }, func() string {
			rs := []*zzReply{}
			as := []domain.Action{}
			one := make(chan error)
			for i, k := range kinds {
				r := &zzReply{err: make(chan error), profile: make(chan *domain.Profile), similar: make(chan *[]domain.SimilarProfile), items: make(chan *[]domain.RecItem), expected: "error"}
				if shared {
					r.err = one
				}
				a := domain.Action{ActionType: k, Error: r.err}
				switch k {
				case domain.ActionDeleteProfile:
					a.Payload = domain.DeleteProfilePayload{UserID: users[i]}
				case domain.ActionGetProfile:
					a.Payload, r.expected = domain.GetProfilePayload{UserID: users[i], Profile: r.profile}, "profile"
				case domain.ActionLike, domain.ActionDislike, domain.ActionDeleteItem:
					a.Payload = domain.LikePayload{UserID: users[i], ItemID: 1}
				case domain.ActionGetSimilarProfiles:
					a.Payload, r.expected = domain.GetSimilarProfilesPayload{UserID: users[i], Profiles: r.similar}, "similar"
				case domain.ActionRecommendItems:
					a.Payload, r.expected = domain.RecommendItemsPayload{UserID: users[i], Items: r.items}, "items"
				}
				rs = append(rs, r)
				as = append(as, a)
			}
			done := make(chan string, 1)
			go func() {
				defer func() {
					if p := recover(); p != nil {
						done <- fmt.Sprint("panic: ", p)
					}
				}()
				NewLikeStorage().ProcessActions(as)
				done <- ""
			}()
			for i, r := range rs {
				c, v := r.next(300 * time.Millisecond)
				if c != r.expected {
					for j, q := range rs {
						if c2, _ := q.next(time.Millisecond); j != i && c2 != "" {
							return fmt.Sprintf("action %d (kind %d) got no answer while action %d got one", i, kinds[i], j)
						}
					}
					return fmt.Sprintf("action %d (kind %d) was answered on channel %q instead of %q", i, kinds[i], c, r.expected)
				}
				if e, _ := v.(error); (kinds[i] < 1 || kinds[i] > 7) && e == nil {
					return fmt.Sprintf("action %d of the unknown kind %d got no error", i, kinds[i])
				}
			}
			select {
			case m := <-done:
				return m
			case <-time.After(300 * time.Millisecond):
			}
			for j, q := range rs {
				if c, _ := q.next(time.Millisecond); c != "" {
					return fmt.Sprintf("action %d (kind %d) was answered again on channel %q", j, kinds[j], c)
				}
			}
			return "ProcessActions does not return"
		})
	}
}
