package recengine/internal/infra/recdb

def torn(s, i, b) = content(s)[i] == old(content(s)[i]) || content(s)[i] == b
def short(r, n) = old(size(r)) - old(pos(r)) < n

// ---- documented layout of a profile database at offset p of content C
def recprefix(C, p) = C[p] == 82 && C[p + 1] == 69 && C[p + 2] == 67 && C[p + 3] == 68 && C[p + 4] == 66
def bytes32(C, p, n) = C[p] == bv32(n, 0) && C[p + 1] == bv32(n, 1) && C[p + 2] == bv32(n, 2) && C[p + 3] == bv32(n, 3)
def type8(C, p, T) = C[p] == T[0] && C[p + 1] == T[1] && C[p + 2] == T[2] && C[p + 3] == T[3] && C[p + 4] == T[4] && C[p + 5] == T[5] && C[p + 6] == T[6] && C[p + 7] == T[7]
def liketype(C, p) = C[p] == 76 && C[p + 1] == 73 && C[p + 2] == 75 && C[p + 3] == 69 && C[p + 4] == 32 && C[p + 5] == 32 && C[p + 6] == 32 && C[p + 7] == 32
def recheader(C, p, h) = C[p] == h.Version && type8(C, p + 1, h.EntryType) && C[p + 9] == h.Locked && be32(C, p + 10) == h.NumEntries
// word64(C, p, i) is the big endian 64 bit number at offset p + 8i
axiom word64_def: forall C:arr, p, i :: {word64(C, p, i)} word64(C, p, i) == be64(C, p + 8 * i)
def list(C, p, s) = be32(C, p) == len(s) && (forall i :: {word64(C, p + 4, i)} {s[i]} 0 <= i < len(s) ==> word64(C, p + 4, i) == s[i])
def profile(C, p, f) = be64(C, p) == f.UserID && list(C, p + 8, f.Likes) && list(C, p + 12 + 8 * len(f.Likes), f.Dislikes)
def datasize(f) = 16 + 8 * len(f.Likes) + 8 * len(f.Dislikes)
def isprofile(d) = is(d, "*recengine/internal/domain.Profile")
def asprofile(d) = dyn(d, "*recengine/internal/domain.Profile")
def fits(e) = isprofile(e.Data) && datasize(asprofile(e.Data)) <= e.Capacity - 5
// the size that the counts stored at p stand for
def statedsize(C, p) = 16 + 8 * be32(C, p + 8) + 8 * be32(C, p + 12 + 8 * be32(C, p + 8))

func (*likeProtocol).PredictDataSize(p, data) (n, err)
  requires isprofile(data) ==> asprofile(data) != nil
  ensures[C10,C18] size: err == nil ==> n == datasize(asprofile(data))
  ensures[C10,C18,C21] profile: err == nil ==> isprofile(data)
  ensures[C10,C18] known: isprofile(data) ==> err == nil

func (*likeProtocol).GetEntryType(p)
  ensures[C10,C18] like: result[0] == 76 && result[1] == 73 && result[2] == 75 && result[3] == 69 && result[4] == 32 && result[5] == 32 && result[6] == 32 && result[7] == 32

func (*likeProtocol).WriteEntryData(p, e, w) (n, err)
  uses word64_def
  requires e != nil && isprofile(e.Data) && asprofile(e.Data) != nil
  requires[C10,C18] fits(e)
  ensures[C10,C18] bytes: err == nil ==> n == datasize(asprofile(e.Data)) && profile(content(w), old(pos(w)), asprofile(e.Data))
  ensures[C10,C18] advanced: err == nil ==> advanced(w, n)
  ensures[C10,C18] partial: partial(w, datasize(asprofile(e.Data)))
  ensures[C10,C18] nofault: err != nil ==> io_failed
  ensures[C21] noticed: io_failed && !old(io_failed) ==> err != nil
  modifies stream(w)

func (*likeProtocol).ReadEntryData(p, e, r) (n, err)
  uses word64_def
  requires e != nil
  ensures[C10,C18] profile: err == nil ==> isprofile(e.Data) && asprofile(e.Data) != nil && fresh(asprofile(e.Data)) && profile(content(r), old(pos(r)), asprofile(e.Data))
  ensures[C10,C18] size: err == nil ==> fits(e) && n == datasize(asprofile(e.Data)) && pos(r) == old(pos(r)) + n && pos(r) <= size(r)
  ensures[C10,C18] refused: old(!short(r, 12)) && statedsize(content(r), old(pos(r))) > e.Capacity - 5 ==> err != nil
  ensures[C10,C18] short: short(r, 16) ==> err != nil
  ensures[C10,C18] accepted: !io_failed && !short(r, 16) && statedsize(content(r), old(pos(r))) <= min(e.Capacity - 5, size(r) - old(pos(r))) ==> err == nil
  ensures[C10,C18] position: old(pos(r)) <= pos(r) <= max(size(r), old(pos(r)))
  ensures[C21] noticed: io_failed && !old(io_failed) ==> err != nil
  modifies cursor(r), e.Data

// ---- the lock byte
func (*protocol).WriteLocked(p, locked, file) (err)
  ensures[C11] set: err == nil ==> content(file)[14] == ite(locked, 1, 0) && pos(file) == old(pos(file)) && size(file) == max(old(size(file)), 15)
  ensures[C11] outside: sameoutside(file, 14, 15)
  ensures[C11] old: torn(file, 14, ite(locked, 1, 0)) && old(size(file)) <= size(file) <= max(old(size(file)), 15)
  ensures[C21] noticed: io_failed && !old(io_failed) ==> err != nil
  modifies stream(file)

func (*protocol).IsLocked(p, file) (locked, err)
  ensures[C11] answer: err == nil ==> (locked <==> content(file)[14] != 0) && pos(file) == old(pos(file)) && size(file) >= 15
  ensures[C21] noticed: io_failed && !old(io_failed) ==> err != nil
  modifies cursor(file)

// ---- records
def layout(C, p, e) = be32(C, p) == e.Capacity && C[p + 4] == e.Deleted && profile(C, p + 5, asprofile(e.Data))
def padding(C, p, e) = forall i :: {C[i]} p + 5 + datasize(asprofile(e.Data)) <= i < p + e.Capacity ==> C[i] == 0

func (*protocol).WritePrefix(p, w) (n, err)
  ensures[C10,C18] bytes: err == nil ==> n == 5 && recprefix(content(w), old(pos(w))) && advanced(w, 5)
  ensures[C10,C18] partial: partial(w, 5)
  ensures[C10,C18] nofault: err != nil ==> io_failed
  ensures[C21] noticed: io_failed && !old(io_failed) ==> err != nil
  modifies stream(w)

func (*protocol).ReadPrefix(p, r) (n, err)
  flag inline
  ensures[C10,C18] ok: err == nil ==> n == 5 && recprefix(content(r), old(pos(r))) && pos(r) == old(pos(r)) + 5 && pos(r) <= size(r)
  ensures[C10,C18] refused: old(!short(r, 5)) && !recprefix(content(r), old(pos(r))) ==> err != nil
  ensures[C10,C18] short: short(r, 5) ==> err != nil
  ensures[C10,C18] accepted: !io_failed && !short(r, 5) && recprefix(content(r), old(pos(r))) ==> err == nil
  ensures[C21] noticed: io_failed && !old(io_failed) ==> err != nil
  modifies cursor(r)

func (*protocol).WriteHeader(p, h, w) (n, err)
  requires h != nil
  ensures[C10,C18] bytes: err == nil ==> n == 14 && recheader(content(w), old(pos(w)), h) && bytes32(content(w), old(pos(w)) + 10, h.NumEntries) && advanced(w, 14)
  ensures[C10,C18] partial: partial(w, 14)
  ensures[C10,C18] nofault: err != nil ==> io_failed
  ensures[C21] noticed: io_failed && !old(io_failed) ==> err != nil
  modifies stream(w)

func (*protocol).ReadHeader(p, h, r) (n, err)
  requires h != nil
  ensures[C10,C18] ok: err == nil ==> n == 14 && recheader(content(r), old(pos(r)), h) && pos(r) == old(pos(r)) + 14 && pos(r) <= size(r)
  ensures[C10,C18] short: short(r, 14) ==> err != nil
  ensures[C10,C18] accepted: !io_failed && !short(r, 14) ==> err == nil
  ensures[C21] noticed: io_failed && !old(io_failed) ==> err != nil
  modifies cursor(r), h.Version, h.EntryType, h.Locked, h.NumEntries

func (*protocol).Create(p, w) (err)
  requires p.concreteProto != nil
  ensures[C10,C18] empty: err == nil ==> recprefix(content(w), old(pos(w))) && content(w)[old(pos(w)) + 5] == 1 && liketype(content(w), old(pos(w)) + 6) && content(w)[old(pos(w)) + 14] == 0 && be32(content(w), old(pos(w)) + 15) == 0
  ensures[C10,C18] advanced: err == nil ==> advanced(w, 19)
  ensures[C10,C18] outside: sameoutside(w, old(pos(w)), old(pos(w)) + 19)
  ensures[C10,C18] nofault: err != nil ==> io_failed
  ensures[C21] noticed: io_failed && !old(io_failed) ==> err != nil
  modifies stream(w)

func (*protocol).WriteEntry(p, e, w) (n, err)
  uses word64_def
  requires p.concreteProto != nil && e != nil && (isprofile(e.Data) ==> asprofile(e.Data) != nil)
  ensures[C10,C18] written: err == nil ==> fits(e) && n == e.Capacity && layout(content(w), old(pos(w)), e)
  ensures[C10,C18] padding: err == nil ==> padding(content(w), old(pos(w)), e)
  ensures[C10,C18] advanced: err == nil ==> advanced(w, e.Capacity)
  ensures[C10,C18] refused: !fits(e) ==> err != nil && content(w) == old(content(w)) && pos(w) == old(pos(w)) && size(w) == old(size(w))
  ensures[C10,C18] partial: partial(w, e.Capacity)
  ensures[C10,C18] accepted: !io_failed && fits(e) ==> err == nil
  ensures[C21] noticed: io_failed && !old(io_failed) ==> err != nil
  modifies stream(w)

func (*protocol).ReadEntry(p, e, r) (n, err)
  uses word64_def
  requires p.concreteProto != nil && e != nil
  ensures[C10,C18] read: err == nil ==> isprofile(e.Data) && asprofile(e.Data) != nil && fresh(asprofile(e.Data)) && fits(e) && layout(content(r), old(pos(r)), e)
  ensures[C10,C18] consumed: err == nil ==> n == e.Capacity && pos(r) == old(pos(r)) + n && pos(r) <= size(r)
  ensures[C10,C18] refused: old(!short(r, 17)) && statedsize(content(r), old(pos(r)) + 5) > be32(content(r), old(pos(r))) - 5 ==> err != nil
  ensures[C10,C18] short: short(r, 21) ==> err != nil
  ensures[C10,C18] accepted: !io_failed && !short(r, be32(content(r), old(pos(r)))) && statedsize(content(r), old(pos(r)) + 5) <= be32(content(r), old(pos(r))) - 5 ==> err == nil
  ensures[C18] position: old(pos(r)) <= pos(r) <= max(size(r), old(pos(r)))
  ensures[C21] noticed: io_failed && !old(io_failed) ==> err != nil
  modifies cursor(r), e.Capacity, e.Deleted, e.Data

func (*protocol).PredictEntrySize(p, e) (n, err)
  requires p.concreteProto != nil && e != nil && (isprofile(e.Data) ==> asprofile(e.Data) != nil)
  ensures[C10,C18] size: err == nil ==> n == 5 + datasize(asprofile(e.Data))
  ensures[C10,C18,C21] profile: err == nil ==> isprofile(e.Data)
  ensures[C10,C18] known: isprofile(e.Data) ==> err == nil

func (*protocol).PredictEntryCapacity(p, e) (n, err)
  requires p.concreteProto != nil && e != nil && (isprofile(e.Data) ==> asprofile(e.Data) != nil)
  ensures[C10,C18] enough: err == nil ==> isprofile(e.Data) && n >= 5 + datasize(asprofile(e.Data))
  ensures[C10,C18] known: isprofile(e.Data) ==> err == nil

