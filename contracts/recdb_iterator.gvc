package recengine/internal/infra/recdb

// ---- the records of a database file: where record number i starts
ufunc recoff(arr, int) : int
axiom recoff_zero: forall C:arr :: {recoff(C, 0)} recoff(C, 0) == 19
axiom recoff_step: forall C:arr, j, k :: {recoff(C, j), recoff(C, k)} k >= 0 && j == k + 1 ==> recoff(C, j) == recoff(C, k) + be32(C, recoff(C, k))
def count(C) = be32(C, 15)
// record i is complete and its data fits its capacity
def recordok(C, n, i) = statedsize(C, recoff(C, i) + 5) <= be32(C, recoff(C, i)) - 5 && be32(C, recoff(C, i) + 13) >= 0 && be32(C, recoff(C, i) + 17 + 8 * be32(C, recoff(C, i) + 13)) >= 0 && recoff(C, i) + be32(C, recoff(C, i)) <= n
def recordsok(C, n) = forall i :: {recoff(C, i)} 0 <= i < count(C) ==> recordok(C, n, i)
// a well formed, unlocked database file
def database(C, n) = n >= 19 && recprefix(C, 0) && C[14] == 0 && recordsok(C, n) && capsok(C)
// no record is smaller than an empty profile
ufunc capsok(arr) : bool
axiom capsok_def: forall C:arr :: {capsok(C)} capsok(C) <==> (forall i :: {recoff(C, i)} 0 <= i < count(C) ==> be32(C, recoff(C, i)) >= 21)
lemma[C18] recoff_min by induction on k uses recoff_zero, recoff_step, capsok_def: forall C:arr, k :: {recoff(C, k), capsok(C)} k >= 0 ==> capsok(C) ==> k <= count(C) ==> recoff(C, k) >= 19
lemma[C18] recoff_ordered by induction on k uses recoff_zero, recoff_step, capsok_def: forall C:arr, i, k :: {recoff(C, i), recoff(C, k), capsok(C)} k >= 0 ==> capsok(C) ==> 0 <= i < k && k <= count(C) ==> recoff(C, i) + be32(C, recoff(C, i)) <= recoff(C, k)
lemma[C18] recoff_same by induction on k uses recoff_zero, recoff_step: forall C:arr, D:arr, k :: {recoff(C, k), recoff(D, k)} k >= 0 ==> (forall j :: {recoff(C, j)} 0 <= j < k ==> be32(D, recoff(C, j)) == be32(C, recoff(C, j))) ==> recoff(D, k) == recoff(C, k)
// D is C with record m replaced by one of the same capacity
def replaced(C, D, m) = be32(D, recoff(C, m)) == be32(C, recoff(C, m)) && (forall x :: {D[x]} {C[x]} x < recoff(C, m) || x >= recoff(C, m) + be32(C, recoff(C, m)) ==> D[x] == C[x])
lemma[C18] replaced_offsets uses recoff_min, recoff_ordered, recoff_same, capsok_def: forall C:arr, D:arr, m, k :: {recoff(C, m), recoff(D, k)} capsok(C) && 0 <= m < count(C) && replaced(C, D, m) ==> 0 <= k <= count(C) && recoff(C, k) >= 19 ==> recoff(D, k) == recoff(C, k)

def stored(it) = content(it.file)
def proto(it) = it.proto != nil && dyn(it.proto, "*recengine/internal/infra/recdb.protocol").concreteProto != nil
def attached(it) = it.file != nil && it.reader != nil && it.header != nil && rdtarget(it.reader) == ref(it.file) && ref(it.reader) != ref(it.file)
def ready(it) = attached(it) && rdver(it.reader) == ver(it.file) && content(it.reader) == content(it.file) && size(it.reader) == size(it.file) && pos(it.reader) == it.fileOffset
def placed(it) = 0 <= it.entryIndex <= it.header.NumEntries && it.header.NumEntries == count(content(it.file)) && it.fileOffset == recoff(content(it.file), it.entryIndex) && (it.entryIndex > 0 ==> recoff(content(it.file), it.entryIndex - 1) + it.entry.Capacity == it.fileOffset)

func NewIterator(file, proto) (iter, err)
  uses recoff_zero
  requires file != nil && proto != nil
  ensures[C18] locked: old(size(file) >= 19 && recprefix(content(file), 0) && content(file)[14] != 0) ==> err != nil
  ensures[C18] refused: old(size(file) < 19 || !recprefix(content(file), 0)) ==> err != nil
  ensures[C18] first: err == nil ==> is(iter, "*recengine/internal/infra/recdb.iterator") && ready(dyn(iter, "*recengine/internal/infra/recdb.iterator")) && placed(dyn(iter, "*recengine/internal/infra/recdb.iterator")) && dyn(iter, "*recengine/internal/infra/recdb.iterator").entryIndex == 0 && dyn(iter, "*recengine/internal/infra/recdb.iterator").file == file && dyn(iter, "*recengine/internal/infra/recdb.iterator").proto == proto
  ensures[C18] accepted: !io_failed && old(size(file) >= 19 && recprefix(content(file), 0) && content(file)[14] == 0) ==> err == nil
  ensures[C21] noticed: io_failed && !old(io_failed) ==> err != nil
  modifies cursor(file)

func (*iterator).HasNext(it)
  requires it.header != nil
  ensures[C18] more: result <==> it.entryIndex < it.header.NumEntries

func (*iterator).Rewind(it) (err)
  uses recoff_zero
  requires attached(it)
  ensures[C18] first: err == nil ==> ready(it) && it.entryIndex == 0 && it.fileOffset == 19
  ensures[C18] placed: err == nil && it.header.NumEntries == count(content(it.file)) ==> placed(it)
  ensures[C18] accepted: !io_failed && size(it.file) >= 19 ==> err == nil
  ensures[C21] noticed: io_failed && !old(io_failed) ==> err != nil
  modifies cursor(it.file), reader(it.reader), it.fileOffset, it.entryIndex

func (*iterator).Next(it) (e, err)
  uses recoff_step
  requires proto(it) && ready(it)
  requires[C18] placed(it) && database(content(it.file), size(it.file))
  ensures[C18] stops: old(it.entryIndex) == it.header.NumEntries ==> err != nil && it.entryIndex == old(it.entryIndex) && it.fileOffset == old(it.fileOffset) && ready(it)
  ensures[C18] record: err == nil ==> e != nil && isprofile(e.Data) && asprofile(e.Data) != nil && layout(content(it.file), recoff(content(it.file), old(it.entryIndex)), e)
  ensures[C18] follows: err == nil ==> it.entryIndex == old(it.entryIndex) + 1 && ready(it) && placed(it)
  ensures[C18] accepted: !io_failed && old(it.entryIndex) < it.header.NumEntries ==> err == nil
  ensures[C18] kept: err != nil ==> it.entryIndex == old(it.entryIndex) && it.fileOffset == old(it.fileOffset) && it.entry.Capacity == old(it.entry.Capacity)
  ensures[C21] noticed: io_failed && !old(io_failed) ==> err != nil
  modifies cursor(it.file), reader(it.reader), it.fileOffset, it.entryIndex, it.entry

func (*iterator).SetPrevious(it, e) (err)
  uses recoff_step, recoff_ordered, recoff_zero, recoff_min, replaced_offsets, capsok_def, word64_def
  requires proto(it) && attached(it) && e != nil && (isprofile(e.Data) ==> asprofile(e.Data) != nil)
  requires[C18] placed(it) && database(content(it.file), size(it.file))
  ensures[C18] written: err == nil ==> layout(content(it.file), old(recoff(content(it.file), it.entryIndex - 1)), e)
  ensures[C18] outside: old(it.entryIndex) > 0 ==> sameoutside(it.file, old(recoff(content(it.file), it.entryIndex - 1)), it.fileOffset)
  ensures[C18] refused: old(it.entryIndex) == 0 || e.Capacity != it.entry.Capacity || !fits(e) ==> err != nil && content(it.file) == old(content(it.file))
  ensures[C18] start: old(it.entryIndex) == 0 || e.Capacity != it.entry.Capacity ==> pos(it.file) == old(pos(it.file)) && ver(it.file) == old(ver(it.file)) && content(it.reader) == old(content(it.reader)) && pos(it.reader) == old(pos(it.reader)) && size(it.reader) == old(size(it.reader)) && rdver(it.reader) == old(rdver(it.reader))
  ensures[C18] offsets: err == nil ==> placed(it)
  ensures[C18] database: err == nil ==> database(content(it.file), size(it.file))
  ensures[C18] others: err == nil ==> (forall k :: {recoff(content(it.file), k)} 0 <= k <= old(count(content(it.file))) && old(recoff(content(it.file), k)) >= 19 ==> recoff(content(it.file), k) == old(recoff(content(it.file), k)))
  ensures[C18] size: size(it.file) == old(size(it.file))
  ensures[C18] continues: err == nil || !io_failed && old(ready(it)) ==> ready(it)
  ensures[C18] accepted: !io_failed && old(it.entryIndex) > 0 && e.Capacity == it.entry.Capacity && fits(e) ==> err == nil
  ensures[C21] noticed: io_failed && !old(io_failed) ==> err != nil
  modifies stream(it.file), reader(it.reader)
