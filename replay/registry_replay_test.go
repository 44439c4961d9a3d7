package domain

import (
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"recengine/internal/domain/valueobjects"
	"strings"
	"testing"
)

type zzEntry struct {
	name   string
	limit  uint
	factor float32
	ns     Namespace
}

func zzName(n string) valueobjects.NamespaceName {
	v, err := valueobjects.ParseNamespaceName(n)
	if err != nil {
		panic("harness: name " + n)
	}
	return v
}

func zzFind(l []zzEntry, n string) int {
	for i, e := range l {
		if e.name == n {
			return i
		}
	}
	return -1
}

// stopping a namespace that is stopped already panics (its queue is closed)
func zzStopped(ns Namespace) (stopped bool) {
	defer func() { stopped = recover() != nil }()
	ns.Stop()
	return false
}

func zzCompare(what string, got []Namespace, want []zzEntry, identity bool) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%s: %d namespaces instead of %d", what, len(got), len(want))
	}
	for _, e := range want {
		n := 0
		for _, g := range got {
			if g == nil {
				return what + ": a nil namespace"
			}
			if g.GetName().Value() != e.name {
				continue
			}
			n++
			if identity && g != e.ns {
				return what + ": " + e.name + " is another namespace"
			}
			if g.GetMaxSimilarProfiles() != e.limit {
				return fmt.Sprintf("%s: limit of %s is %d instead of %d", what, e.name, g.GetMaxSimilarProfiles(), e.limit)
			}
			if l, ok := g.(interface{ GetDislikeFactor() float32 }); ok && l.GetDislikeFactor() != e.factor {
				return fmt.Sprintf("%s: factor of %s is %v instead of %v", what, e.name, l.GetDislikeFactor(), e.factor)
			}
			if g.GetType().Value() != "like" {
				return what + ": type of " + e.name
			}
		}
		if n != 1 {
			return fmt.Sprintf("%s: %d namespaces named %s", what, n, e.name)
		}
	}
	return ""
}

func zzRegistry(t *testing.T, c22 bool) {
	s := zzNew(t)
	log.SetOutput(io.Discard)
	names := []string{"a", "b", "A", "ab", "a-b", "a_b", "Zz9"}
	limits := []uint{0, 1, 2, 999, 1000, 1001, 1<<64 - 1}
	factors := []float32{0, 0.1, 0.5, 1, 0.3333333, 1e-30, 123456.79}
	for s.more() {
		dir := t.TempDir()
		os.Setenv("REC_PATH", dir)
		var hist []string
		s.try(func() string { return strings.Join(hist, "; ") }, func() string {
			srv := NewNamespaceService(context.Background(), nil, nil)
			var model []zzEntry
			for step := 0; step < 3+s.rng.Intn(12); step++ {
				n := names[s.rng.Intn(len(names))]
				m := names[s.rng.Intn(len(names))]
				l, f := limits[s.rng.Intn(len(limits))], factors[s.rng.Intn(len(factors))]
				// now and then the registry cannot be saved
				broken := s.rng.Intn(6) == 0 && !c22
				if broken {
					os.Remove(filepath.Join(dir, "namespaces.json"))
					os.Mkdir(filepath.Join(dir, "namespaces.json"), 0755)
				}
				ok := false
				switch s.rng.Intn(4) {
				case 0, 1:
					typ := valueobjects.MakeLikeNamespaceType()
					if s.rng.Intn(8) == 0 {
						typ = valueobjects.NamespaceType{}
					}
					hist = append(hist, fmt.Sprintf("create %s type %q limit %d factor %v (saving fails: %v)", n, typ.Value(), l, f, broken))
					ns, err := srv.CreateNamespace(&NamespaceCreateRequest{Name: zzName(n), Type: typ, MaxSimilarProfiles: l, DislikeFactor: f})
					can := zzFind(model, n) < 0 && typ.Value() == "like"
					if !can && err == nil {
						return "created although the name is taken or the type unknown"
					}
					if can && err != nil && !broken {
						return "refused: " + err.Error()
					}
					if can {
						if l == 0 {
							l = 1000
						}
						all := srv.GetNamespaces()
						if len(all) == 0 {
							return "nothing was added"
						}
						var made Namespace
						for _, x := range all {
							if x.GetName().Value() == n {
								made = x
							}
						}
						if err == nil && ns != made {
							return "another namespace was returned"
						}
						model = append(model, zzEntry{n, l, f, made})
					}
					ok = err == nil
				case 2:
					hist = append(hist, fmt.Sprintf("update %s to %s limit %d factor %v (saving fails: %v)", n, m, l, f, broken))
					ns, err := srv.UpdateNamespace(zzName(n), &NamespaceUpdateRequest{Name: zzName(m), MaxSimilarProfiles: l, DislikeFactor: f})
					i := zzFind(model, n)
					can := i >= 0 && (m == n || zzFind(model, m) < 0)
					if !can && err == nil {
						return "updated although the name is unknown or the new one taken"
					}
					if can && err != nil && !broken {
						return "refused: " + err.Error()
					}
					if can {
						model[i] = zzEntry{m, l, f, model[i].ns}
						if err == nil && ns != model[i].ns {
							return "another namespace was returned"
						}
					}
					ok = err == nil
				case 3:
					hist = append(hist, fmt.Sprintf("delete %s (saving fails: %v)", n, broken))
					err := srv.DeleteNamespace(zzName(n))
					i := zzFind(model, n)
					if i < 0 && err == nil {
						return "deleted an unknown namespace"
					}
					if i >= 0 {
						if err != nil && !broken {
							return "refused: " + err.Error()
						}
						if !zzStopped(model[i].ns) {
							return "the deleted namespace is not stopped"
						}
						model = append(append([]zzEntry(nil), model[:i]...), model[i+1:]...)
					}
					ok = err == nil
				}
				if broken {
					os.Remove(filepath.Join(dir, "namespaces.json"))
				}
				if msg := zzCompare("registry", srv.GetNamespaces(), model, true); msg != "" {
					return msg
				}
				for _, x := range names {
					i, g := zzFind(model, x), srv.GetNamespaceByName(zzName(x))
					if i < 0 && g != nil || i >= 0 && (g == nil || g != model[i].ns) {
						return "looking up " + x
					}
				}
				if c22 && ok {
					again := NewNamespaceService(context.Background(), nil, nil)
					if err := again.LoadNamespaces(); err != nil {
						return "loading: " + err.Error()
					}
					if msg := zzCompare("after a restart", again.GetNamespaces(), model, false); msg != "" {
						return msg
					}
					if s.rng.Intn(4) == 0 {
						hist = append(hist, "restart")
						srv = again
						for i := range model {
							model[i].ns = srv.GetNamespaceByName(zzName(model[i].name))
						}
					}
				}
			}
			for _, e := range model {
				if zzStopped(e.ns) {
					return e.name + " is stopped"
				}
			}
			return ""
		})
		os.RemoveAll(dir)
	}
}

func TestVerifReplayC19(t *testing.T) { zzRegistry(t, false) }
func TestVerifReplayC22(t *testing.T) { zzRegistry(t, true) }

// factories that only tell which file they got
type zzDeltas struct {
	DeltaStorageFactory
	seen *[]string
}
type zzIndexes struct {
	IndexStorageFactory
	seen *[]string
	fail int
}
type zzLikes struct {
	LikeStorageFactory
	seen *[]string
}
type zzStore struct {
	DeltaStorage
	IndexStorage
}

func (zzStore) Close() error { return nil }

type zzDeltaStore struct{ DeltaStorage }
type zzIndexStore struct{ IndexStorage }

func (zzDeltaStore) Close() error { return nil }
func (zzIndexStore) Close() error { return nil }

func zzOsName(f any) string {
	if o, ok := f.(*os.File); ok {
		n := o.Name()
		o.Close()
		return n
	}
	return "?"
}
func (d zzDeltas) OpenMaybeRecover(f RandomAccessFile) (DeltaStorage, error) {
	*d.seen = append(*d.seen, zzOsName(f))
	return zzDeltaStore{}, nil
}
func (d zzIndexes) Open(f io.ReadWriteSeeker, c io.Closer) (IndexStorage, error) {
	*d.seen = append(*d.seen, zzOsName(f))
	if d.fail > 0 {
		return nil, NewCorruptedFileError()
	}
	return zzIndexStore{}, nil
}
func (d zzLikes) OpenMaybeRecover(f RandomAccessFile, a DeltaStorage, b IndexStorage) (LikeStorage, error) {
	*d.seen = append(*d.seen, zzOsName(f))
	return nil, errors.New("stop here")
}

func TestVerifReplayC25(t *testing.T) {
	s := zzNew(t)
	dir, err := os.MkdirTemp("", "")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	os.Chdir(dir)
	for round := 0; round < 30 && s.more(); round++ {
		for _, sub := range []string{"", "x", "x/", "x//", "a.b", "a b/", "x/y", "x/y/", dir + "/x", dir + "/x/y/", "./x", "/"} {
			for _, name := range []string{"a", "Ab-1", "z_z"} {
				sub, name := sub, name
				s.try(func() string { return fmt.Sprintf("REC_PATH=%q, namespace %s", sub, name) }, func() string {
					base := sub
					if base != "" && !strings.HasSuffix(base, "/") {
						base += "/"
					}
					var seen []string
					if base != "/" {
						if base != "" {
							os.MkdirAll(base, 0755)
						}
						os.Remove(base + "namespaces.json")
						os.Setenv("REC_PATH", sub)
						// the index cannot be opened, so that the third factory is not needed
						srv := NewNamespaceService(context.Background(), zzDeltas{nil, &seen}, zzIndexes{nil, &seen, 1})
						ns, err := srv.CreateNamespace(&NamespaceCreateRequest{Name: zzName(name), Type: valueobjects.MakeLikeNamespaceType()})
						if err != nil {
							return "creating a namespace: " + err.Error()
						}
						if _, err := os.Stat(base + "namespaces.json"); err != nil {
							return "the registry is not saved in " + base
						}
						if err := NewNamespaceService(context.Background(), nil, nil).LoadNamespaces(); err != nil {
							return "the registry is not loaded: " + err.Error()
						}
						if err := ns.Start(context.Background()); err == nil {
							return "started without an index"
						}
						for i, ext := range []string{".delta", ".index"} {
							if len(seen) <= i || seen[i] != base+name+ext {
								return fmt.Sprint("files used: ", seen)
							}
						}
						seen = nil
						l := NewLikeNamespace(&LikeNamespaceDto{Name: zzName(name), BasePath: base, DeltaStorageFactory: zzDeltas{nil, &seen}, IndexStorageFactory: zzIndexes{nil, &seen, 0}, LikeStorageFactory: zzLikes{nil, &seen}})
						l.Start(context.Background())
						for i, ext := range []string{".delta", ".index", ".recdb"} {
							if len(seen) <= i || seen[i] != base+name+ext {
								return fmt.Sprint("files used: ", seen)
							}
						}
					}
					return ""
				})
			}
		}
	}
}
