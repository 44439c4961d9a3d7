package recengine/internal/infra/delta

func (*storageFactory).Recover(f, file) (err)
  uses okn_def
  requires f.proto != nil && size(file) < 77309411328
  ensures[C12,C15] header: err == nil ==> deltaprefix(content(file), 0) && content(file)[8] == 1 && content(file)[9] == 0
  ensures[C12,C15] size: err == nil ==> size(file) == 14 + 18 * nrecovered(old(content(file)), 0, old(size(file)))
  ensures[C12,C15] count: err == nil ==> be32(content(file), 10) == nrecovered(old(content(file)), 0, old(size(file)))
  ensures[C12] copied: err == nil && intact(old(content(file)), 0, old(size(file))) ==> copied(content(file), old(content(file)), 14, complete(0, old(size(file))))
  ensures[C12] allvalid: err == nil ==> allvalid(content(file), nrecovered(old(content(file)), 0, old(size(file))))
  ensures[C12,C15] start: err == nil ==> pos(file) == 0
  ensures[C12,C15] nofault: !io_failed ==> err == nil
  ensures[C21] noticed: io_failed && !old(io_failed) ==> err != nil
  modifies stream(file)

// recovering a recovered file changes nothing
lemma[C12] nvalid_full by induction on k uses nvalid_zero, nvalid_step: forall D:arr, b, k :: {nvalid(D, b, k)} k >= 0 ==> (forall j :: {okn(D, b, j)} 0 <= j < k ==> okn(D, b, j)) ==> nvalid(D, b, k) == k
lemma[C12] again uses nvalid_full: forall C:arr, p, n, D:arr, m, E:arr, q, k :: n >= p && nrecovered(C, p, n) >= 0 && recovered(D, m, C, p, n) ==> recovered(E, q, D, 0, m) ==> q == m && nrecovered(D, 0, m) == nrecovered(C, p, n) && (0 <= k < nrecovered(C, p, n) && okn(D, 14, k) ==> same18(E, 14 + 18 * k, D, 14 + 18 * k))

// ---- what a store answers: the last operation for an item in the list of a user, first unsaved ones, then saved ones
// idx(A, n, i): position of the last occurrence of i among the first n elements of A, or -1
ufunc idx(arr, int, int) : int
axiom idx_found: forall A:arr, n, i :: {idx(A, n, i)} idx(A, n, i) == -1 || 0 <= idx(A, n, i) < n && A[idx(A, n, i)] == i
axiom idx_last: forall A:arr, n, i, x :: {idx(A, n, i), A[x]} 0 <= x < n && A[x] == i ==> x <= idx(A, n, i)
// the last occurrence in a list that ends with another list, when there is one in that list
lemma[C13,C14,C15] idx_tail uses idx_found, idx_last: forall D:arr, m, N:arr, q, i :: {idx(D, m, i), idx(N, q, i)} 0 <= m <= q && idx(D, m, i) >= 0 && (forall x :: {N[x]} q - m <= x < q ==> N[x] == D[x - (q - m)]) && (forall x :: {D[x]} 0 <= x < m ==> N[q - m + x] == D[x]) ==> idx(N, q, i) == q - m + idx(D, m, i)
// uniq(A, n): no value occurs twice among the first n elements
ufunc uniq(arr, int) : bool
ufunc twice(arr, int) : int
axiom uniq_use: forall A:arr, n, x :: {uniq(A, n), A[x]} uniq(A, n) && 0 <= x < n ==> idx(A, n, A[x]) == x
axiom uniq_intro: forall A:arr, n :: {uniq(A, n)} !uniq(A, n) ==> 0 <= twice(A, n) < n && idx(A, n, A[twice(A, n)]) != twice(A, n)
// seenuser and seenpair are always true: they only name the users and pairs at which quantified facts are looked at
ufunc seenuser(int) : bool
ufunc seenpair(int, int) : bool
axiom seen_pair: forall u, i :: {seenpair(u, i)} seenpair(u, i) && seenuser(u)
axiom seen_user: forall D:set, u :: {D[u]} seenuser(u)
def lhas(x, i) = idx(elemsf(x, "item"), len(x), i) >= 0
def lop(x, i) = elemsf(x, "op")[idx(elemsf(x, "item"), len(x), i)]
def mhas(m, u, i) = has(m, u) && lhas(m[u], i)
def mop(m, u, i) = lop(m[u], i)
def answered(s, u, i) = mhas(s.newDelta, u, i) || mhas(s.deltaCache, u, i)
def answer(s, u, i) = ite(mhas(s.newDelta, u, i), mop(s.newDelta, u, i), mop(s.deltaCache, u, i))
def sameanswers(s) = forall u, i :: {seenpair(u, i)} seenpair(u, i) ==> (answered(s, u, i) <==> old(answered(s, u, i))) && (answered(s, u, i) ==> answer(s, u, i) == old(answer(s, u, i)))

def opened(s) = s.proto != nil && s.file != nil && s.deltaCache != nil && s.newDelta != nil && ref(s.newDelta) != ref(s.deltaCache)
// the lists of different users never share storage and are never empty
def lists(m) = forall u :: {seenuser(u)} seenuser(u) && has(m, u) ==> len(m[u]) > 0 && older(m[u])
def apart(m) = forall u, v :: {seenuser(u), seenuser(v)} has(m, u) && has(m, v) && u != v ==> arr(m[u]) != arr(m[v])
def apart2(m, n) = forall u, v :: {seenuser(u), seenuser(v)} has(m, u) && has(n, v) ==> arr(m[u]) != arr(n[v])
def uniqs(m) = forall u :: {seenuser(u)} seenuser(u) && has(m, u) ==> uniq(elemsf(m[u], "item"), len(m[u]))
def memory(s) = lists(s.newDelta) && lists(s.deltaCache) && apart(s.newDelta) && apart(s.deltaCache) && apart2(s.newDelta, s.deltaCache) && uniqs(s.newDelta) && s.unflushedItemCount == msum(s.newDelta) && 0 <= s.unflushedItemCount <= s.totalItemCount
def flushed(s) = s.totalItemCount - s.unflushedItemCount

func findLast(deltas, item) (op, known)
  uses idx_found, idx_last
  ensures[C13] found: known <==> lhas(deltas, item)
  ensures[C13] last: known ==> op == lop(deltas, item)
  invariant forall x :: {elemsf(deltas, "item")[x]} len(deltas) - $k <= x < len(deltas) ==> elemsf(deltas, "item")[x] != item
  invariant forall x :: {elemsf(deltas, "item")[x]} $x < x < len(deltas) ==> elemsf(deltas, "item")[x] != item
  invariant forall x :: {elemsf(deltas, "item")[x]} $x <= x < len(deltas) ==> elemsf(deltas, "item")[x] != item
  // a search from the front that carries the last match along
  invariant 0 <= $x ==> $x < len(deltas) && elemsf(deltas, "item")[$x] == item
  invariant forall x :: {elemsf(deltas, "item")[x]} 0 <= x < $x && x < len(deltas) && $y < x ==> elemsf(deltas, "item")[x] != item
  invariant forall x :: {elemsf(deltas, "item")[x]} 0 <= x <= $x && x < len(deltas) && $y < x ==> elemsf(deltas, "item")[x] != item

func (*storage).Get(s, user, item) (op, known)
  uses idx_found, idx_last
  requires s.deltaCache != nil && s.newDelta != nil
  ensures[C13] found: known <==> answered(s, user, item)
  ensures[C13] latest: known ==> op == answer(s, user, item)

func (*storage).GetTotalItemCount(s)
  ensures[C13,C14,C15] total: result == s.totalItemCount

func (*storage).GetFileSize(s)
  ensures[C13] size: 0 <= s.totalItemCount <= 4294967295 ==> result == 14 + 18 * s.totalItemCount

func (*storage).Add(s, op, user, item)
  uses idx_found, idx_last, uniq_use, uniq_intro, seen_pair, seen_user
  requires opened(s)
  requires[C13,C14] memory(s) && s.totalItemCount < 4294967295
  ensures[C13,C14] added: answered(s, user, item) && answer(s, user, item) == op
  ensures[C13,C14] others: forall u, i :: {seenpair(u, i)} seenpair(u, i) ==> u != user || i != item ==> (answered(s, u, i) <==> old(answered(s, u, i))) && (answered(s, u, i) ==> answer(s, u, i) == old(answer(s, u, i)))
  ensures[C13,C14] memory: opened(s) && memory(s)
  ensures[C13,C14] flushed: flushed(s) == old(flushed(s)) && s.totalItemCount <= old(s.totalItemCount) + 1
  ensures[C13,C14] saved: forall u, i :: {seenpair(u, i)} seenpair(u, i) ==> (mhas(s.deltaCache, u, i) <==> old(mhas(s.deltaCache, u, i))) && (mhas(s.deltaCache, u, i) ==> mop(s.deltaCache, u, i) == old(mop(s.deltaCache, u, i)))
  modifies map(s.newDelta), s.unflushedItemCount, s.totalItemCount, anyelems("recengine/internal/infra/delta.itemDelta")
  invariant forall x :: {elemsf($s, "item")[x]} 0 <= x < $k ==> elemsf($s, "item")[x] != item
  invariant forall x :: {elemsf($s, "item")[x]} len($s) - $k <= x < len($s) ==> elemsf($s, "item")[x] != item

// ---- what the first n entries of a delta file say about a pair
ufunc fhas(arr, int, int, int) : bool
ufunc fop(arr, int, int, int) : int
ufunc namedpair(bool) : bool
axiom fhas_seen: forall C:arr, n, u, i :: {fhas(C, n, u, i)} {fop(C, n, u, i)} seenpair(u, i) && seenuser(u) && namedpair(fhas(C, n, u, i))
axiom fhas_zero: forall C:arr, u, i :: {fhas(C, 0, u, i)} !fhas(C, 0, u, i)
axiom fhas_step: forall C:arr, D:arr, m, n, u, i :: {fhas(C, m, u, i), fhas(D, n, u, i)} n >= 0 && m == n + 1 ==> (fhas(C, m, u, i) <==> be64(C, 15 + 18 * n) == u && be64(C, 23 + 18 * n) == i || fhas(C, n, u, i)) && fop(C, m, u, i) == ite(be64(C, 15 + 18 * n) == u && be64(C, 23 + 18 * n) == i, C[14 + 18 * n], fop(C, n, u, i))
def below(C, D, n) = forall x :: {C[x]} {D[x]} 14 <= x < 14 + 18 * n ==> C[x] == D[x]
lemma[C13,C14,C15] fhas_frame by induction on n uses fhas_zero, fhas_step: forall C:arr, D:arr, n, u, i :: {fhas(C, n, u, i), fhas(D, n, u, i)} n >= 0 ==> below(C, D, n) ==> (fhas(C, n, u, i) <==> fhas(D, n, u, i)) && (fhas(C, n, u, i) ==> fop(C, n, u, i) == fop(D, n, u, i))
// the first n entries of C say exactly what the saved lists say
def filed(C, n, s) = forall u, i :: {seenpair(u, i)} seenpair(u, i) ==> (fhas(C, n, u, i) <==> mhas(s.deltaCache, u, i)) && (mhas(s.deltaCache, u, i) ==> fop(C, n, u, i) == mop(s.deltaCache, u, i))
def onfile(s) = deltaprefix(content(s.file), 0) && content(s.file)[9] == 1 && 14 + 18 * flushed(s) <= size(s.file) && filed(content(s.file), flushed(s), s)
def sized(s) = 14 + 18 * flushed(s) <= size(s.file) <= 14 + 18 * s.totalItemCount
// allok(C, n): the first n entries of C have correct checksums
ufunc allok(arr, int) : bool
ufunc broken(arr, int) : int
axiom allok_use: forall C:arr, n, k :: {allok(C, n), okn(C, 14, k)} {allok(C, n), hit(k)} allok(C, n) && 0 <= k < n ==> okn(C, 14, k)
axiom allok_intro: forall C:arr, n :: {allok(C, n)} !allok(C, n) ==> 0 <= broken(C, n) < n && !okn(C, 14, broken(C, n))
def kept(s) = forall x :: {content(s.file)[x]} 14 <= x < 14 + 18 * old(flushed(s)) ==> content(s.file)[x] == old(content(s.file)[x])

// the unsaved lists of the first o users and the first k elements of the list of the next one
def inpart(s, u, i, ord, inv, o, k) = inv[u] < o && mhas(s.newDelta, u, i) || u == ord[o] && idx(elemsf(s.newDelta[u], "item"), k, i) >= 0
def partop(s, u, i, ord, o, k) = elemsf(s.newDelta[u], "op")[idx(elemsf(s.newDelta[u], "item"), ite(u == ord[o], k, len(s.newDelta[u])), i)]

func (*storage).flushHeader(s) (err)
  requires opened(s)
  requires[C13,C14,C15] 0 <= s.totalItemCount <= 4294967295 && size(s.file) >= 14
  ensures[C13,C14,C15] header: err == nil ==> deltaheader(content(s.file), 8, 1, 1, s.totalItemCount)
  ensures[C13,C14,C15] outside: sameoutside(s.file, 8, 14) && size(s.file) == old(size(s.file))
  ensures[C14,C15] torn: torn(s.file, 9, 1)
  ensures[C15] nofault: err != nil ==> io_failed
  ensures[C21] noticed: io_failed && !old(io_failed) ==> err != nil
  always[C15] torn: torn(s.file, 9, 1) && sameoutside(s.file, 8, 14)
  modifies stream(s.file)

func (*storage).flushEntries(s) (err)
  uses idx_found, idx_last, idx_tail, seen_pair, seen_user, fhas_seen, fhas_zero, fhas_step, fhas_frame, okn_def, allok_use, allok_intro
  requires opened(s)
  requires[C13,C14,C15] memory(s)
  requires[C13,C14,C15] 14 + 18 * flushed(s) <= size(s.file) && s.totalItemCount <= 4294967295
  requires[C14,C15] onfile(s)
  ensures[C13,C14,C15] answers: sameanswers(s)
  ensures[C14,C15] emptied: err == nil ==> (forall u :: {seenuser(u)} seenuser(u) ==> !has(s.newDelta, u))
  ensures[C13,C14,C15] memory: opened(s) && memory(s) && s.totalItemCount == old(s.totalItemCount)
  ensures[C13,C14,C15] all: err == nil ==> s.unflushedItemCount == 0
  ensures[C14] checksums: err == nil && old(allok(content(s.file), flushed(s))) ==> allok(content(s.file), s.totalItemCount)
  ensures[C14,C15] saved: err == nil ==> filed(content(s.file), s.totalItemCount, s)
  ensures[C14,C15] failed: err != nil ==> filed(content(s.file), flushed(s), s)
  ensures[C13,C14,C15] kept: err != nil ==> flushed(s) == old(flushed(s))
  ensures[C14,C15] entries: forall x :: {content(s.file)[x]} x < 14 + 18 * old(flushed(s)) ==> content(s.file)[x] == old(content(s.file)[x])
  ensures[C13,C14,C15] size: max(old(size(s.file)), 14 + 18 * flushed(s)) <= size(s.file) <= max(old(size(s.file)), 14 + 18 * s.totalItemCount)
  ensures[C15] position: err == nil ==> pos(s.file) <= size(s.file)
  ensures[C15] nofault: err != nil ==> io_failed
  ensures[C21] noticed: io_failed && !old(io_failed) ==> err != nil
  always[C15] entries: forall x :: {content(s.file)[x]} x < 14 + 18 * old(flushed(s)) ==> content(s.file)[x] == old(content(s.file)[x])
  modifies stream(s.file), map(s.deltaCache), s.newDelta, s.unflushedItemCount, anyelems("recengine/internal/infra/delta.itemDelta")
  invariant[C13,C14,C15] pos($t) == 14 + 18 * (flushed(s) + psum($ord, s.newDelta, $k))
  invariant[C13,C14,C15] pos($t) == 14 + 18 * (flushed(s) + psum($oord, s.newDelta, $oiter - 1) + $k)
  invariant[C13,C14,C15] pos($t) <= size($t) <= max(old(size(s.file)), 14 + 18 * s.totalItemCount) && size($t) >= old(size(s.file))
  invariant[C14] old(allok(content(s.file), flushed(s))) ==> allok(content($t), flushed(s) + psum($ord, s.newDelta, $k))
  invariant[C14] old(allok(content(s.file), flushed(s))) ==> allok(content($t), flushed(s) + psum($oord, s.newDelta, $oiter - 1) + $k)
  invariant[C14,C15] forall x :: {content($t)[x]} x < 14 + 18 * flushed(s) ==> content($t)[x] == old(content(s.file)[x])
  invariant[C14,C15] forall u, i :: {seenpair(u, i)} seenpair(u, i) ==> (fhas(content($t), flushed(s) + psum($ord, s.newDelta, $k), u, i) <==> mhas(s.deltaCache, u, i) || $inv[u] < $k && mhas(s.newDelta, u, i))
  invariant[C14,C15] forall u, i :: {seenpair(u, i)} seenpair(u, i) ==> (fhas(content($t), flushed(s) + psum($ord, s.newDelta, $k), u, i) ==> fop(content($t), flushed(s) + psum($ord, s.newDelta, $k), u, i) == ite($inv[u] < $k && mhas(s.newDelta, u, i), mop(s.newDelta, u, i), mop(s.deltaCache, u, i)))
  invariant[C14,C15] forall u, i :: {seenpair(u, i)} seenpair(u, i) ==> (fhas(content($t), flushed(s) + psum($oord, s.newDelta, $oiter - 1) + $k, u, i) <==> mhas(s.deltaCache, u, i) || inpart(s, u, i, $oord, $oinv, $oiter - 1, $k))
  invariant[C14,C15] forall u, i :: {seenpair(u, i)} seenpair(u, i) ==> (fhas(content($t), flushed(s) + psum($oord, s.newDelta, $oiter - 1) + $k, u, i) ==> fop(content($t), flushed(s) + psum($oord, s.newDelta, $oiter - 1) + $k, u, i) == ite(inpart(s, u, i, $oord, $oinv, $oiter - 1, $k), partop(s, u, i, $oord, $oiter - 1, $k), mop(s.deltaCache, u, i)))
  invariant[C13,C14,C15] lists(s.deltaCache)
  invariant[C13,C14,C15] apart(s.deltaCache)
  invariant[C13,C14,C15] apart2(s.newDelta, s.deltaCache)
  invariant[C13,C14,C15] forall u :: {seenuser(u)} seenuser(u) && has(s.newDelta, u) ==> elemsf(s.newDelta[u], "item") == old(elemsf(s.newDelta[u], "item")) && elemsf(s.newDelta[u], "op") == old(elemsf(s.newDelta[u], "op"))
  invariant[C13,C14,C15] forall u, i :: {seenpair(u, i)} seenpair(u, i) ==> (mhas(s.deltaCache, u, i) <==> old(mhas(s.deltaCache, u, i)) || $inv[u] < $k && old(mhas(s.newDelta, u, i)))
  invariant[C13,C14,C15] forall u, i :: {seenpair(u, i)} seenpair(u, i) ==> $inv[u] < $k && old(mhas(s.newDelta, u, i)) ==> mop(s.deltaCache, u, i) == old(mop(s.newDelta, u, i))
  invariant[C13,C14,C15] forall u, i :: {seenpair(u, i)} seenpair(u, i) ==> mhas(s.deltaCache, u, i) && !($inv[u] < $k && old(mhas(s.newDelta, u, i))) ==> mop(s.deltaCache, u, i) == old(mop(s.deltaCache, u, i))
func (*storage).Flush(s) (err)
  uses seen_pair, seen_user, fhas_seen, fhas_frame, okn_def, allok_use, allok_intro
  requires opened(s)
  requires[C13,C14,C15] memory(s) && 14 + 18 * flushed(s) <= size(s.file) && s.totalItemCount <= 4294967295
  requires[C14,C15] onfile(s)
  ensures[C13,C14,C15] answers: sameanswers(s)
  ensures[C14,C15] emptied: err == nil ==> (forall u :: {seenuser(u)} seenuser(u) ==> !has(s.newDelta, u))
  ensures[C13,C14,C15] memory: opened(s) && memory(s) && s.totalItemCount == old(s.totalItemCount)
  ensures[C13,C14,C15] size: err == nil && old(sized(s)) ==> size(s.file) == 14 + 18 * s.totalItemCount
  ensures[C13,C14,C15] sized: 14 + 18 * flushed(s) <= size(s.file) && (old(sized(s)) ==> sized(s))
  ensures[C14,C15] saved: err == nil ==> s.unflushedItemCount == 0 && deltaheader(content(s.file), 8, 1, 1, s.totalItemCount)
  ensures[C14,C15] onfile: onfile(s)
  ensures[C14] kept: kept(s)
  ensures[C14] checksums: old(allok(content(s.file), flushed(s))) ==> allok(content(s.file), flushed(s))
  ensures[C15] position: err == nil ==> pos(s.file) <= size(s.file)
  ensures[C15] nofault: err != nil ==> io_failed
  ensures[C21] noticed: io_failed && !old(io_failed) ==> err != nil
  always[C15] locked: content(s.file)[9] == 1 && size(s.file) >= 14
  modifies stream(s.file), map(s.deltaCache), s.newDelta, s.unflushedItemCount, anyelems("recengine/internal/infra/delta.itemDelta")

// the file has all that the store answered before
def whole(s) = deltaprefix(content(s.file), 0) && deltaheader(content(s.file), 8, 1, 0, s.totalItemCount) && size(s.file) >= 14 + 18 * s.totalItemCount && (forall u, i :: {seenpair(u, i)} seenpair(u, i) ==> (fhas(content(s.file), s.totalItemCount, u, i) <==> old(answered(s, u, i))) && (old(answered(s, u, i)) ==> fop(content(s.file), s.totalItemCount, u, i) == old(answer(s, u, i))))

func (*storage).Close(s) (err)
  uses idx_found, seen_pair, seen_user, fhas_seen, fhas_frame, okn_def, allok_use, allok_intro
  requires opened(s)
  requires[C13,C14,C15] memory(s) && 14 + 18 * flushed(s) <= size(s.file) && s.totalItemCount <= 4294967295
  requires[C14,C15] onfile(s)
  ensures[C14,C15] complete: err == nil ==> whole(s)
  ensures[C14,C15] size: err == nil && old(sized(s)) ==> size(s.file) == 14 + 18 * s.totalItemCount
  ensures[C14] checksums: err == nil && old(allok(content(s.file), flushed(s))) ==> allok(content(s.file), s.totalItemCount)
  ensures[C15] nofault: err != nil ==> io_failed
  ensures[C15] lockedorcomplete: content(s.file)[9] != 0 || whole(s)
  ensures[C21] noticed: io_failed && !old(io_failed) ==> err != nil
  always[C15] lockedorcomplete: content(s.file)[9] != 0 || whole(s)
  modifies stream(s.file), map(s.deltaCache), s.newDelta, s.unflushedItemCount, closed(s.file), anyelems("recengine/internal/infra/delta.itemDelta")

def store(x) = dyn(x, "*recengine/internal/infra/delta.storage")
// a file that can be opened: unlocked and not shorter than its header promises
def openable(C, n) = n >= 14 && deltaprefix(C, 0) && C[9] == 0 && n >= 14 + 18 * be32(C, 10)

// extra(O, n, E): how many of the first n elements of O are not in E; unlisted(D, E): how many elements of D are not in E
ufunc enumerates(arr, int, set) : bool
ufunc extra(arr, int, set) : int
ufunc unlisted(set, set) : int
axiom extra_zero: forall O:arr, E:set :: {extra(O, 0, E)} extra(O, 0, E) == 0
axiom extra_step: forall O:arr, m, n, E:set :: {extra(O, m, E), extra(O, n, E)} n >= 0 && m == n + 1 ==> extra(O, m, E) == extra(O, n, E) + ite(E[O[n]], 0, 1)
axiom unlisted_def: forall O:arr, n, D:set, E:set :: {enumerates(O, n, D), unlisted(D, E)} {enumerates(O, n, D), extra(O, n, E)} enumerates(O, n, D) ==> unlisted(D, E) == extra(O, n, E)

func (*storage).GetUserCount(s)
  uses extra_zero, extra_step, unlisted_def
  requires s.deltaCache != nil && s.newDelta != nil
  ensures[C13] users: result == unlisted(dom(s.newDelta), dom(s.deltaCache)) + card(s.deltaCache)
  invariant $x == extra($ord, $k, dom(s.deltaCache))
  invariant $x == extra($ord, $k, dom(s.deltaCache)) + card(s.deltaCache)
  invariant 0 <= $x <= $k + card(s.deltaCache)

func (*storageFactory).Open(f, file) (store, err)
  uses idx_found, idx_last, seen_pair, seen_user, fhas_seen, fhas_zero, fhas_step, fhas_frame
  requires f.proto != nil && file != nil
  ensures[C13,C14,C15] opened: err == nil ==> is(store, "*recengine/internal/infra/delta.storage") && opened(store(store)) && memory(store(store)) && store(store).file == file && store(store).unflushedItemCount == 0
  ensures[C14,C15] onfile: err == nil ==> onfile(store(store))
  ensures[C13,C14,C15] empty: err == nil && old(size(file)) == 0 ==> size(file) == 14 && store(store).totalItemCount == 0 && deltaheader(content(file), 8, 1, 1, 0)
  ensures[C13,C14] loaded: err == nil && old(size(file)) > 0 ==> store(store).totalItemCount == be32(old(content(file)), 10) && size(file) == old(size(file))
  ensures[C13,C14] answers: err == nil && old(size(file)) > 0 ==> (forall u, i :: {seenpair(u, i)} seenpair(u, i) ==> (answered(store(store), u, i) <==> fhas(old(content(file)), be32(old(content(file)), 10), u, i)) && (answered(store(store), u, i) ==> answer(store(store), u, i) == fop(old(content(file)), be32(old(content(file)), 10), u, i)))
  ensures[C13] absent: err == nil && old(size(file)) == 0 ==> (forall u, i :: {seenpair(u, i)} seenpair(u, i) ==> !answered(store(store), u, i))
  ensures[C14] kept: err == nil && old(size(file)) > 0 ==> sameoutside(file, 9, 10)
  ensures[C14,C15] accepted: !io_failed && old(size(file) == 0 || openable(content(file), size(file))) ==> err == nil
  ensures[C15] refused: old(size(file) >= 10 && content(file)[9] != 0) ==> err != nil && content(file) == old(content(file)) && size(file) == old(size(file))
  ensures[C21] noticed: io_failed && !old(io_failed) ==> err != nil
  always[C15] started: old(size(file)) == 0 && size(file) >= 14 ==> deltaprefix(content(file), 0) && be32(content(file), 10) == 0 && size(file) == 14
  always[C15] torn: old(size(file)) > 0 ==> torn(file, 9, 1) && sameoutside(file, 9, 10)
  modifies anyelems("recengine/internal/infra/delta.itemDelta"), stream(file)
  invariant[C13,C14,C15] pos(file) == 14 + 18 * $k && pos(file) <= size(file)
  invariant[C13,C14,C15] lists($p.deltaCache)
  invariant[C13,C14,C15] apart($p.deltaCache)
  invariant[C13,C14,C15] forall u, i :: {seenpair(u, i)} seenpair(u, i) ==> (fhas(content(file), $k, u, i) <==> mhas($p.deltaCache, u, i))
  invariant[C13,C14,C15] forall u, i :: {seenpair(u, i)} seenpair(u, i) ==> (mhas($p.deltaCache, u, i) ==> fop(content(file), $k, u, i) == mop($p.deltaCache, u, i))

func (*storageFactory).OpenMaybeRecover(f, file) (store, err)
  requires f.proto != nil && file != nil && size(file) < 77309411328
  ensures[C15] locked: err == nil ==> content(file)[9] == 1
  ensures[C15] recovered: !io_failed && old(size(file) < 14 || content(file)[9] != 0 || openable(content(file), size(file))) ==> err == nil
  ensures[C21] noticed: io_failed && !old(io_failed) ==> err != nil
  modifies anyelems("recengine/internal/infra/delta.itemDelta"), stream(file), closed(file)
