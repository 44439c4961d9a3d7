package recengine/internal/infra/index

// a file that can be opened
def wellformed(C, n) = n >= 12 && indexprefix(C, 0) && C[7] == 0 && n >= 12 + 16 * be32(C, 8)
// the first k entries of C are exactly the map m
def stored(C, k, m) = forall id :: {hasid(C, k, id)} {seenid(id)} (has(m, id) <==> hasid(C, k, id)) && (has(m, id) ==> m[id] == idxof(C, k, id))
def saved(s) = indexprefix(content(s.file), 0) && indexheader(content(s.file), 6, 1, 0, card(s.indices)) && stored(content(s.file), card(s.indices), s.indices) && size(s.file) >= 12 + 16 * card(s.indices)
def opened(s) = s.proto != nil && s.file != nil && s.indices != nil
def locked(s) = indexprefix(content(s.file), 0) && content(s.file)[7] == 1 && size(s.file) >= 12

func (*storage).create(s) (err)
  requires opened(s) && pos(s.file) == 0 && size(s.file) == 0
  ensures[C16,C17] ok: err == nil ==> indexprefix(content(s.file), 0) && indexheader(content(s.file), 6, 1, 1, 0) && size(s.file) == 12
  ensures[C16,C17] nofault: err != nil ==> io_failed
  ensures[C21] noticed: io_failed && !old(io_failed) ==> err != nil
  always[C17] locked: size(s.file) >= 12 ==> locked(s)
  modifies stream(s.file)

func (*storage).load(s) (err)
  uses hasid_seen, hasid_zero, hasid_step, hasid_frame
  requires opened(s) && card(s.indices) == 0 && (forall id :: {dom(s.indices, id)} !dom(s.indices, id))
  ensures[C16,C17] wellformed: err == nil ==> wellformed(old(content(s.file)), old(size(s.file)))
  ensures[C16,C17] lock: err == nil ==> content(s.file)[7] == 1 && size(s.file) == old(size(s.file))
  ensures[C16,C17] outside: sameoutside(s.file, 7, 8)
  ensures[C16] loaded: err == nil ==> stored(old(content(s.file)), be32(old(content(s.file)), 8), s.indices)
  ensures[C16,C17] accepted: !io_failed && wellformed(old(content(s.file)), old(size(s.file))) ==> err == nil
  ensures[C17] refused: old(size(s.file) < 12 || !indexprefix(content(s.file), 0) || content(s.file)[7] != 0) ==> err != nil && content(s.file) == old(content(s.file)) && size(s.file) == old(size(s.file))
  ensures[C17] corrupted: !io_failed && old(size(s.file) >= 12 && indexprefix(content(s.file), 0) && content(s.file)[7] != 0) ==> iserr(err, "*recengine/internal/domain.CorruptedFileError")
  ensures[C21] noticed: io_failed && !old(io_failed) ==> err != nil
  always[C17] torn: torn(s.file, 7, 1) && sameoutside(s.file, 7, 8)
  modifies stream(s.file), map(s.indices)

  invariant pos($t) == 12 + 16 * $k && pos($t) <= size($t)
  invariant forall i :: {content($t)[i]} i != 7 ==> content($t)[i] == old(content(s.file)[i])
  invariant stored(old(content(s.file)), $k, s.indices)

func (*storage).saveHeader(s, lock) (err)
  requires opened(s)
  requires[C16,C17] size(s.file) >= 12 && card(s.indices) <= 4294967295
  ensures[C16,C17] ok: err == nil ==> indexheader(content(s.file), 6, 1, ite(lock, 1, 0), card(s.indices))
  ensures[C16,C17] outside: sameoutside(s.file, 6, 12) && size(s.file) == old(size(s.file))
  ensures[C16,C17] nofault: err != nil ==> io_failed
  ensures[C17] torn: torn(s.file, 7, ite(lock, 1, 0))
  ensures[C21] noticed: io_failed && !old(io_failed) ==> err != nil
  always[C17] torn: torn(s.file, 7, ite(lock, 1, 0)) && sameoutside(s.file, 6, 12)
  modifies stream(s.file)

func (*storage).saveEntries(s) (err)
  uses hasid_seen, hasid_zero, hasid_step, hasid_frame
  requires opened(s)
  requires[C16,C17] size(s.file) >= 12
  ensures[C16,C17] ok: err == nil ==> stored(content(s.file), card(s.indices), s.indices) && size(s.file) >= 12 + 16 * card(s.indices)
  ensures[C16,C17] outside: forall i :: {content(s.file)[i]} i < 12 ==> content(s.file)[i] == old(content(s.file)[i])
  ensures[C16,C17] size: size(s.file) >= old(size(s.file)) && (err == nil ==> pos(s.file) <= size(s.file))
  ensures[C16,C17] nofault: err != nil ==> io_failed
  ensures[C21] noticed: io_failed && !old(io_failed) ==> err != nil
  always[C17] outside: forall i :: {content(s.file)[i]} i < 12 ==> content(s.file)[i] == old(content(s.file)[i])
  modifies stream(s.file)
  invariant pos($t) == 12 + 16 * $k && size($t) >= pos($t)
  invariant forall i :: {content($t)[i]} i < 12 ==> content($t)[i] == old(content(s.file)[i])
  invariant forall id :: {hasid(content($t), $k, id)} {seenid(id)} (hasid(content($t), $k, id) <==> has(s.indices, id) && $inv[id] < $k) && (hasid(content($t), $k, id) ==> s.indices[id] == idxof(content($t), $k, id))

func (*storage).save(s) (err)
  uses hasid_seen, hasid_frame
  requires opened(s)
  requires[C16,C17] locked(s) && card(s.indices) <= 4294967295
  ensures[C16,C17] ok: err == nil ==> saved(s)
  ensures[C16,C17] nofault: err != nil ==> io_failed
  ensures[C21] noticed: io_failed && !old(io_failed) ==> err != nil
  always[C17] lockedorcomplete: content(s.file)[7] != 0 || saved(s)
  ensures[C17] lockedorcomplete: content(s.file)[7] != 0 || saved(s)
  modifies stream(s.file)

func (*storage).Close(s) (err)
  requires opened(s)
  requires[C16,C17] locked(s) && card(s.indices) <= 4294967295
  ensures[C16,C17] ok: err == nil ==> saved(s)
  ensures[C16,C17] nofault: err != nil ==> io_failed
  ensures[C21] noticed: io_failed && !old(io_failed) ==> err != nil
  always[C17] lockedorcomplete: content(s.file)[7] != 0 || saved(s)
  ensures[C17] lockedorcomplete: content(s.file)[7] != 0 || saved(s)
  modifies stream(s.file), closed(s.closer)

func (*storage).Get(s, id) (idx, found)
  ensures[C16] answer: (found <==> has(s.indices, id)) && (found ==> idx == s.indices[id])

func (*storage).Put(s, id, index) (err)
  requires s.indices != nil
  ensures[C16] put: err == nil && dom(s.indices) == store(old(dom(s.indices)), id, true) && vals(s.indices) == store(old(vals(s.indices)), id, index)
  modifies map(s.indices)

func (*storage).Remove(s, id) (err)
  requires s.indices != nil
  ensures[C16] removed: err == nil && (forall k :: {dom(s.indices, k)} dom(s.indices, k) <==> old(dom(s.indices, k)) && k != id)
  ensures[C16] kept: forall k :: {s.indices[k]} k != id ==> s.indices[k] == old(s.indices[k])
  modifies map(s.indices)

func (*storageFactory).Open(f, file, closer) (store, err)
  requires f.proto != nil && file != nil
  ensures[C16,C17] opened: err == nil ==> is(store, "*recengine/internal/infra/index.storage") && opened(dyn(store, "*recengine/internal/infra/index.storage")) && dyn(store, "*recengine/internal/infra/index.storage").file == file && dyn(store, "*recengine/internal/infra/index.storage").closer == closer
  ensures[C17] locked: err == nil ==> indexprefix(content(file), 0) && content(file)[7] == 1 && size(file) >= 12
  ensures[C16] empty: err == nil && old(size(file)) == 0 ==> (forall id :: {has(dyn(store, "*recengine/internal/infra/index.storage").indices, id)} !has(dyn(store, "*recengine/internal/infra/index.storage").indices, id))
  ensures[C16] loaded: err == nil && old(size(file)) > 0 ==> wellformed(old(content(file)), old(size(file))) && stored(old(content(file)), be32(old(content(file)), 8), dyn(store, "*recengine/internal/infra/index.storage").indices)
  ensures[C16,C17] accepted: !io_failed && old(size(file) == 0 || wellformed(content(file), size(file))) ==> err == nil
  ensures[C17] refused: old(size(file) > 0 && (size(file) < 12 || !indexprefix(content(file), 0) || content(file)[7] != 0)) ==> err != nil && content(file) == old(content(file)) && size(file) == old(size(file))
  ensures[C17] corrupted: !io_failed && old(size(file) >= 12 && indexprefix(content(file), 0) && content(file)[7] != 0) ==> iserr(err, "*recengine/internal/domain.CorruptedFileError")
  ensures[C17] entries: old(size(file)) > 0 ==> sameoutside(file, 7, 8)
  ensures[C21] noticed: io_failed && !old(io_failed) ==> err != nil
  always[C17] started: old(size(file)) == 0 && size(file) >= 12 ==> indexprefix(content(file), 0) && content(file)[7] == 1
  always[C17] torn: old(size(file)) > 0 ==> torn(file, 7, 1) && sameoutside(file, 7, 8)
  modifies stream(file), closed(closer)
