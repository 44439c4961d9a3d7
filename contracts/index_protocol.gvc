package recengine/internal/infra/index

// ---- documented layout of an index file at offset p of content C
def torn(s, i, b) = content(s)[i] == old(content(s)[i]) || content(s)[i] == b
def indexprefix(C, p) = C[p] == 82 && C[p + 1] == 69 && C[p + 2] == 67 && C[p + 3] == 73 && C[p + 4] == 68 && C[p + 5] == 88
def indexheader(C, p, v, l, n) = C[p] == v && C[p + 1] == l && be32(C, p + 2) == n
def indexentry(C, p, id, idx) = be64(C, p) == id && be64(C, p + 8) == idx
def bytes32(C, p, n) = C[p] == bv32(n, 0) && C[p + 1] == bv32(n, 1) && C[p + 2] == bv32(n, 2) && C[p + 3] == bv32(n, 3)
def bytes64(C, p, n) = C[p] == bv64(n, 0) && C[p + 1] == bv64(n, 1) && C[p + 2] == bv64(n, 2) && C[p + 3] == bv64(n, 3) && C[p + 4] == bv64(n, 4) && C[p + 5] == bv64(n, 5) && C[p + 6] == bv64(n, 6) && C[p + 7] == bv64(n, 7)
def short(r, n) = old(size(r)) - old(pos(r)) < n

func (*protocol).WritePrefix(p, w) (n, err)
  ensures[C09,C16,C17] bytes: err == nil ==> n == 6 && indexprefix(content(w), old(pos(w))) && advanced(w, 6)
  ensures[C09,C16,C17] partial: partial(w, 6)
  ensures[C21] noticed: io_failed && !old(io_failed) ==> err != nil
  ensures[C16,C17] nofault: err != nil ==> io_failed
  always[C17] written: old(pos(w)) <= pos(w) <= old(pos(w)) + 6 && sameoutside(w, old(pos(w)), old(pos(w)) + 6)
  modifies stream(w)

func (*protocol).ReadPrefix(p, r) (n, err)
  flag inline
  ensures[C09,C16,C17] ok: err == nil ==> n == 6 && indexprefix(content(r), old(pos(r))) && pos(r) == old(pos(r)) + 6 && pos(r) <= size(r)
  ensures[C09,C16,C17] refused: old(!short(r, 6)) && !indexprefix(content(r), old(pos(r))) ==> err != nil
  ensures[C09,C16,C17] short: short(r, 6) ==> err != nil
  ensures[C16,C17] accepted: !io_failed && !short(r, 6) && indexprefix(content(r), old(pos(r))) ==> err == nil
  ensures[C16,C17] position: old(pos(r)) <= pos(r) <= max(size(r), old(pos(r)))
  ensures[C21] noticed: io_failed && !old(io_failed) ==> err != nil
  modifies cursor(r)

func (*protocol).WriteHeader(p, h, w) (n, err)
  requires h != nil
  ensures[C09,C16,C17] bytes: err == nil ==> n == 6 && content(w)[old(pos(w))] == h.Version && content(w)[old(pos(w)) + 1] == h.Locked && bytes32(content(w), old(pos(w)) + 2, h.NumEntries) && advanced(w, 6)
  ensures[C09,C16,C17] value: err == nil ==> be32(content(w), old(pos(w)) + 2) == h.NumEntries
  ensures[C09,C16,C17] partial: partial(w, 6)
  ensures[C21] noticed: io_failed && !old(io_failed) ==> err != nil
  ensures[C16,C17] nofault: err != nil ==> io_failed
  ensures[C17] torn: torn(w, old(pos(w)) + 1, h.Locked)
  ensures[C17] written: pos(w) >= old(pos(w)) + 2 ==> content(w)[old(pos(w)) + 1] == h.Locked
  always[C17] torn: torn(w, old(pos(w)) + 1, h.Locked) && sameoutside(w, old(pos(w)), old(pos(w)) + 6)
  always[C17] written: old(pos(w)) <= pos(w) <= old(pos(w)) + 6 && (pos(w) >= old(pos(w)) + 2 ==> content(w)[old(pos(w)) + 1] == h.Locked)
  modifies stream(w)

func (*protocol).ReadHeader(p, h, r) (n, err)
  requires h != nil
  ensures[C09,C16,C17] ok: err == nil ==> n == 6 && indexheader(content(r), old(pos(r)), h.Version, h.Locked, h.NumEntries) && pos(r) == old(pos(r)) + 6 && pos(r) <= size(r)
  ensures[C09,C16,C17] short: short(r, 6) ==> err != nil
  ensures[C16,C17] accepted: !io_failed && !short(r, 6) ==> err == nil
  ensures[C16,C17] position: old(pos(r)) <= pos(r) <= max(size(r), old(pos(r)))
  ensures[C21] noticed: io_failed && !old(io_failed) ==> err != nil
  modifies cursor(r), h.Version, h.Locked, h.NumEntries

func (*protocol).WriteEntry(p, e, w) (n, err)
  requires e != nil
  ensures[C09] bytes: err == nil ==> bytes64(content(w), old(pos(w)), e.ID) && bytes64(content(w), old(pos(w)) + 8, e.Index)
  ensures[C09,C16,C17] values: err == nil ==> n == 16 && indexentry(content(w), old(pos(w)), e.ID, e.Index)
  ensures[C09,C16,C17] advanced: err == nil ==> advanced(w, 16)
  ensures[C09,C16,C17] partial: partial(w, 16)
  ensures[C21] noticed: io_failed && !old(io_failed) ==> err != nil
  ensures[C16,C17] nofault: err != nil ==> io_failed
  modifies stream(w)

func (*protocol).ReadEntry(p, e, r) (n, err)
  requires e != nil
  ensures[C09,C16,C17] ok: err == nil ==> n == 16 && indexentry(content(r), old(pos(r)), e.ID, e.Index) && pos(r) == old(pos(r)) + 16 && pos(r) <= size(r)
  ensures[C09,C16,C17] short: short(r, 16) ==> err != nil
  ensures[C16,C17] accepted: !io_failed && old(!short(r, 16)) ==> err == nil
  ensures[C16,C17] position: old(pos(r)) <= pos(r) <= max(size(r), old(pos(r)))
  ensures[C21] noticed: io_failed && !old(io_failed) ==> err != nil
  modifies cursor(r), e.ID, e.Index

// ---- the lock byte
func (*protocol).WriteLocked(p, locked, file) (err)
  ensures[C11,C16,C17] set: err == nil ==> content(file)[7] == ite(locked, 1, 0) && pos(file) == old(pos(file)) && size(file) == max(old(size(file)), 8)
  ensures[C11,C16,C17] outside: sameoutside(file, 7, 8)
  ensures[C11,C17] old: torn(file, 7, ite(locked, 1, 0)) && old(size(file)) <= size(file) <= max(old(size(file)), 8)
  ensures[C16,C17] nofault: err != nil && old(size(file) >= 8 && pos(file) <= size(file)) ==> io_failed
  ensures[C21] noticed: io_failed && !old(io_failed) ==> err != nil
  always[C17] torn: torn(file, 7, ite(locked, 1, 0)) && sameoutside(file, 7, 8)
  modifies stream(file)

func (*protocol).IsLocked(p, file) (locked, err)
  ensures[C11,C17] answer: err == nil ==> (locked <==> content(file)[7] != 0) && pos(file) == old(pos(file)) && size(file) >= 8
  ensures[C17] accepted: !io_failed && size(file) >= 8 && old(pos(file)) <= size(file) ==> err == nil
  ensures[C21] noticed: io_failed && !old(io_failed) ==> err != nil
  modifies cursor(file)

// ---- the entries of an index file as a map: what the first k entries say about an id
ufunc hasid(arr, int, int) : bool
ufunc idxof(arr, int, int) : int
// seenid(id) is always true: it only names the ids at which quantified facts are looked at
ufunc seenid(int) : bool
axiom hasid_zero: forall C:arr, id :: {hasid(C, 0, id)} seenid(id) && !hasid(C, 0, id)
ufunc named(bool) : bool
axiom hasid_seen: forall C:arr, k, id :: {hasid(C, k, id)} {idxof(C, k, id)} seenid(id) && named(hasid(C, k, id))
axiom hasid_step: forall C:arr, D:arr, j, k, id :: {hasid(C, j, id), hasid(D, k, id)} k >= 0 && j == k + 1 ==> (hasid(C, j, id) <==> be64(C, 12 + 16 * k) == id || hasid(C, k, id)) && idxof(C, j, id) == ite(be64(C, 12 + 16 * k) == id, be64(C, 20 + 16 * k), idxof(C, k, id))
def below(C, D, k) = forall i :: {C[i]} {D[i]} 12 <= i < 12 + 16 * k ==> C[i] == D[i]
lemma[C16,C17] hasid_frame by induction on k uses hasid_zero, hasid_step: forall C:arr, D:arr, k, id :: {hasid(C, k, id), hasid(D, k, id)} k >= 0 ==> below(C, D, k) ==> (hasid(C, k, id) <==> hasid(D, k, id)) && (hasid(C, k, id) ==> idxof(C, k, id) == idxof(D, k, id))
