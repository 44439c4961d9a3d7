package recengine/internal/infra/delta

// ---- documented layout of a delta file at offset p of content C
// torn(s, i, b): the byte at i is the old one or b
def torn(s, i, b) = content(s)[i] == old(content(s)[i]) || content(s)[i] == b
def deltaprefix(C, p) = C[p] == 82 && C[p + 1] == 69 && C[p + 2] == 67 && C[p + 3] == 68 && C[p + 4] == 69 && C[p + 5] == 76 && C[p + 6] == 84 && C[p + 7] == 65
def deltaheader(C, p, v, l, n) = C[p] == v && C[p + 1] == l && be32(C, p + 2) == n
def bytes32(C, p, n) = C[p] == bv32(n, 0) && C[p + 1] == bv32(n, 1) && C[p + 2] == bv32(n, 2) && C[p + 3] == bv32(n, 3)
def bytes64(C, p, n) = C[p] == bv64(n, 0) && C[p + 1] == bv64(n, 1) && C[p + 2] == bv64(n, 2) && C[p + 3] == bv64(n, 3) && C[p + 4] == bv64(n, 4) && C[p + 5] == bv64(n, 5) && C[p + 6] == bv64(n, 6) && C[p + 7] == bv64(n, 7)
def sum64(n) = bv64(n, 0) + bv64(n, 1) + bv64(n, 2) + bv64(n, 3) + bv64(n, 4) + bv64(n, 5) + bv64(n, 6) + bv64(n, 7)
def csum(op, user, item) = (op + sum64(user) + sum64(item)) % 256
def entryop(C, p) = C[p]
def entryuser(C, p) = be64(C, p + 1)
def entryitem(C, p) = be64(C, p + 9)
def entrysum(C, p) = C[p + 17]
def entrybytes(C, p, op, user, item, sum) = C[p] == op && bytes64(C, p + 1, user) && bytes64(C, p + 9, item) && C[p + 17] == sum
def deltaentry(C, p, op, user, item, sum) = entryop(C, p) == op && entryuser(C, p) == user && entryitem(C, p) == item && entrysum(C, p) == sum
def entryok(C, p) = entrysum(C, p) == csum(C[p], be64(C, p + 1), be64(C, p + 9))
def short(r, n) = old(size(r)) - old(pos(r)) < n

func (*protocol).WritePrefix(p, w) (err)
  ensures[C08,C12,C13,C14,C15] bytes: err == nil ==> deltaprefix(content(w), old(pos(w))) && advanced(w, 8)
  ensures[C08,C12,C13,C14,C15] partial: partial(w, 8)
  ensures[C21] noticed: io_failed && !old(io_failed) ==> err != nil
  ensures[C12,C14,C15] nofault: err != nil ==> io_failed
  modifies stream(w)

func (*protocol).ReadPrefix(p, r) (err)
  flag inline
  ensures[C08,C12,C13,C14,C15] ok: err == nil ==> deltaprefix(content(r), old(pos(r))) && pos(r) == old(pos(r)) + 8 && pos(r) <= size(r)
  ensures[C08,C12,C13,C14,C15] refused: old(!short(r, 8)) && !deltaprefix(content(r), old(pos(r))) ==> err != nil
  ensures[C08,C12,C13,C14,C15] short: short(r, 8) ==> err != nil
  ensures[C12,C13,C14,C15] accepted: !io_failed && !short(r, 8) && deltaprefix(content(r), old(pos(r))) ==> err == nil
  ensures[C12,C15] position: old(pos(r)) <= pos(r) <= max(size(r), old(pos(r)))
  ensures[C21] noticed: io_failed && !old(io_failed) ==> err != nil
  modifies cursor(r)

func (*protocol).WriteHeader(p, h, w) (err)
  requires h != nil
  ensures[C08,C12,C13,C14,C15] bytes: err == nil ==> content(w)[old(pos(w))] == h.Version && content(w)[old(pos(w)) + 1] == h.Locked && bytes32(content(w), old(pos(w)) + 2, h.NumEntries) && advanced(w, 6)
  ensures[C12,C13,C14,C15] value: err == nil ==> be32(content(w), old(pos(w)) + 2) == h.NumEntries
  ensures[C08,C12,C13,C14,C15] partial: partial(w, 6)
  ensures[C21] noticed: io_failed && !old(io_failed) ==> err != nil
  ensures[C12,C14,C15] nofault: err != nil ==> io_failed
  ensures[C14,C15] torn: torn(w, old(pos(w)) + 1, h.Locked)
  always[C15] torn: torn(w, old(pos(w)) + 1, h.Locked) && sameoutside(w, old(pos(w)), old(pos(w)) + 6)
  modifies stream(w)

func (*protocol).ReadHeader(p, h, r) (err)
  requires h != nil
  ensures[C08,C12,C13,C14,C15] ok: err == nil ==> deltaheader(content(r), old(pos(r)), h.Version, h.Locked, h.NumEntries) && pos(r) == old(pos(r)) + 6 && pos(r) <= size(r)
  ensures[C08,C12,C13,C14,C15] short: short(r, 6) ==> err != nil
  ensures[C12,C13,C14,C15] accepted: !io_failed && !short(r, 6) ==> err == nil
  ensures[C12,C15] position: old(pos(r)) <= pos(r) <= max(size(r), old(pos(r)))
  ensures[C12,C15,C21] noticed: io_failed && !old(io_failed) ==> err != nil && !eof(err)
  ensures[C12,C15] eof: !io_failed && short(r, 6) ==> eof(err)
  ensures[C12,C15] endonly: eof(err) ==> short(r, 6)
  modifies cursor(r), h.Version, h.Locked, h.NumEntries

func (*protocol).CalcEntryChecksum(p, e)
  requires e != nil
  ensures[C08,C12,C13,C14,C15] sum: result == csum(e.Op, e.UserID, e.ItemID)

func (*protocol).ValidateEntryChecksum(p, e)
  requires e != nil
  ensures[C08,C12,C15] exact: result <==> e.Checksum == csum(e.Op, e.UserID, e.ItemID)

func (*protocol).WriteEntry(p, e, w) (err)
  requires e != nil
  ensures[C08] bytes: err == nil ==> entrybytes(content(w), old(pos(w)), e.Op, e.UserID, e.ItemID, csum(e.Op, e.UserID, e.ItemID))
  ensures[C08,C12,C13,C14,C15] values: err == nil ==> deltaentry(content(w), old(pos(w)), e.Op, e.UserID, e.ItemID, csum(e.Op, e.UserID, e.ItemID))
  ensures[C08,C12,C13,C14,C15] advanced: err == nil ==> advanced(w, 18)
  ensures[C08,C12,C13,C14,C15] partial: partial(w, 18)
  ensures[C21] noticed: io_failed && !old(io_failed) ==> err != nil
  ensures[C12,C14,C15] nofault: err != nil ==> io_failed
  modifies stream(w)

func (*protocol).ReadEntry(p, e, r) (err)
  requires e != nil
  ensures[C08,C12,C13,C14,C15] ok: err == nil ==> deltaentry(content(r), old(pos(r)), e.Op, e.UserID, e.ItemID, e.Checksum) && pos(r) == old(pos(r)) + 18 && pos(r) <= size(r)
  ensures[C21] consumed: err == nil ==> pos(r) == old(pos(r)) + 18 && pos(r) <= size(r)
  ensures[C08,C12,C13,C14,C15] short: short(r, 18) ==> err != nil
  ensures[C12,C13,C14,C15] accepted: !io_failed && old(!short(r, 18)) ==> err == nil
  ensures[C12,C15] position: old(pos(r)) <= pos(r) <= max(size(r), old(pos(r)))
  ensures[C12,C15,C21] noticed: io_failed && !old(io_failed) ==> err != nil && !eof(err)
  ensures[C12,C15] eof: !io_failed && short(r, 18) ==> eof(err)
  ensures[C12,C15] endonly: eof(err) ==> short(r, 18)
  modifies cursor(r), e.Op, e.UserID, e.ItemID, e.Checksum

// a change of exactly one byte of an entry with a correct checksum is detected
def bytesat(C, p) = forall i :: {C[i]} 0 <= C[i] <= 255
lemma[C08] single_byte: forall C:arr, D:arr, p, k :: bytesat(C, p) && bytesat(D, p) ==> entryok(C, p) ==> 0 <= k < 18 ==> D[p + k] != C[p + k] ==> (forall j :: {D[j]} j != p + k ==> D[j] == C[j]) ==> !entryok(D, p)

// recovery: the entries of the source are counted from position b on
def eof(err) = eqerr(err, "io.EOF") || eqerr(err, "io.ErrUnexpectedEOF")
// okn(C, b, i): entry number i of the entries starting at b has a correct checksum
ufunc okn(arr, int, int) : bool
// hit(i) is always true: it only names the entry numbers at which quantified facts are looked at
ufunc hit(int) : bool
axiom okn_def: forall C:arr, b, i :: {okn(C, b, i)} (okn(C, b, i) <==> entryok(C, b + 18 * i)) && hit(i)
ufunc nvalid(arr, int, int) : int
axiom nvalid_zero: forall C:arr, b :: {nvalid(C, b, 0)} nvalid(C, b, 0) == 0
axiom nvalid_step: forall C:arr, b, m, n :: {nvalid(C, b, m), nvalid(C, b, n)} n >= 0 && m == n + 1 ==> nvalid(C, b, m) == nvalid(C, b, n) + ite(okn(C, b, n), 1, 0)
def same18(D, q, C, p) = D[q] == C[p] && be64(D, q + 1) == be64(C, p + 1) && be64(D, q + 9) == be64(C, p + 9) && D[q + 17] == C[p + 17]
def intact(C, p, n) = n - p >= 14 && deltaprefix(C, p)
def complete(p, n) = (n - p - 14) / 18
def nrecovered(C, p, n) = ite(intact(C, p, n), nvalid(C, p + 14, complete(p, n)), 0)
// D is what recovering the bytes [p, n) of C must give
def copied(D, C, b, k) = forall i :: {nvalid(C, b, i)} 0 <= i < k && okn(C, b, i) ==> 0 <= nvalid(C, b, i) < nvalid(C, b, k) && same18(D, 14 + 18 * nvalid(C, b, i), C, b + 18 * i)
def allvalid(D, k) = forall i :: {okn(D, 14, i)} {hit(i)} 0 <= i < k ==> okn(D, 14, i)
def recovered(D, m, C, p, n) = deltaprefix(D, 0) && deltaheader(D, 8, 1, 0, nrecovered(C, p, n)) && m == 14 + 18 * nrecovered(C, p, n) && (intact(C, p, n) ==> copied(D, C, p + 14, complete(p, n))) && allvalid(D, nrecovered(C, p, n))

func (*protocol).RecoverTo(p, r, w) (err)
  uses okn_def, nvalid_zero, nvalid_step
  requires ref(r) != ref(w) && pos(w) == 0 && size(w) == 0
  requires pos(r) <= size(r) && size(r) < 77309411328
  ensures[C12,C15] header: err == nil ==> deltaprefix(content(w), 0) && content(w)[8] == 1 && content(w)[9] == 0
  ensures[C12,C15] size: err == nil ==> size(w) == 14 + 18 * nrecovered(content(r), old(pos(r)), size(r))
  ensures[C12,C15] count: err == nil ==> be32(content(w), 10) == nrecovered(content(r), old(pos(r)), size(r))
  ensures[C12] copied: err == nil && intact(content(r), old(pos(r)), size(r)) ==> copied(content(w), content(r), old(pos(r)) + 14, complete(old(pos(r)), size(r)))
  ensures[C12,C15] allvalid: err == nil ==> allvalid(content(w), nrecovered(content(r), old(pos(r)), size(r)))
  ensures[C12,C15] nofault: !io_failed ==> err == nil
  ensures[C21] noticed: io_failed && !old(io_failed) ==> err != nil
  modifies stream(w), cursor(r)
  invariant pos(r) == old(pos(r)) + 14 + 18 * $k && pos(r) <= size(r)
  invariant $x == nvalid(content(r), old(pos(r)) + 14, $k)
  invariant 0 <= $x && $x <= $k
  invariant pos(w) == 14 + 18 * $x && size(w) == pos(w)
  invariant allvalid(content(w), $x)
  invariant copied(content(w), content(r), old(pos(r)) + 14, $k)
  invariant deltaprefix(content(w), 0) && content(w)[8] == 1 && content(w)[9] == 0

// ---- the lock byte
func (*protocol).WriteLocked(p, locked, file) (err)
  ensures[C11,C13,C14,C15] set: err == nil ==> content(file)[9] == ite(locked, 1, 0) && pos(file) == old(pos(file)) && size(file) == max(old(size(file)), 10)
  ensures[C11,C13,C14,C15] outside: sameoutside(file, 9, 10)
  ensures[C11,C13,C14,C15] old: torn(file, 9, ite(locked, 1, 0)) && old(size(file)) <= size(file) <= max(old(size(file)), 10)
  ensures[C14,C15] nofault: err != nil && old(size(file) >= 10 && pos(file) <= size(file)) ==> io_failed
  ensures[C21] noticed: io_failed && !old(io_failed) ==> err != nil
  always[C15] torn: torn(file, 9, ite(locked, 1, 0)) && sameoutside(file, 9, 10)
  modifies stream(file)

func (*protocol).IsLocked(p, file) (locked, err)
  ensures[C11,C15] answer: err == nil ==> (locked <==> content(file)[9] != 0) && pos(file) == old(pos(file)) && size(file) >= 10
  ensures[C15] accepted: !io_failed && size(file) >= 10 && old(pos(file)) <= size(file) ==> err == nil
  ensures[C21] noticed: io_failed && !old(io_failed) ==> err != nil
  modifies cursor(file)
