package recengine/internal/helpers

// the in-memory file: its content is fb.buffer, its position fb.offset
def fine(fb) = 0 <= fb.offset <= len(fb.buffer)
def unchanged(fb) = len(fb.buffer) == old(len(fb.buffer)) && (forall i :: {fb.buffer[i]} 0 <= i < len(fb.buffer) ==> fb.buffer[i] == old(fb.buffer[i])) && fb.offset == old(fb.offset) && fb.closed == old(fb.closed)

func NewFileBuffer(initial) (fb)
  ensures[C06] fine: fb != nil && fine(fb) && fb.offset == 0 && !fb.closed
  ensures[C06] content: len(fb.buffer) == len(initial) && (forall i :: {fb.buffer[i]} 0 <= i < len(initial) ==> fb.buffer[i] == old(initial[i]))

func (*FileBuffer).Bytes(fb)
  ensures[C06] content: len(result) == len(fb.buffer) && (forall i :: {result[i]} 0 <= i < len(result) ==> result[i] == fb.buffer[i])

func (*FileBuffer).Len(fb)
  ensures[C06] size: result == len(fb.buffer)

func (*FileBuffer).Read(fb, b) (n, err)
  requires fine(fb) && arr(b) != arr(fb.buffer)
  ensures[C06] closed: old(fb.closed) ==> err != nil && !eqerr(err, "io.EOF") && n == 0
  ensures[C06] end: !old(fb.closed) && old(fb.offset) == len(fb.buffer) ==> n == 0 && eqerr(err, "io.EOF")
  ensures[C06] read: !old(fb.closed) && old(fb.offset) < len(fb.buffer) ==> err == nil && n == min(len(b), len(fb.buffer) - old(fb.offset))
  ensures[C06] data: forall i :: {b[i]} 0 <= i < n ==> b[i] == old(fb.buffer[fb.offset + i])
  ensures[C06] rest: forall i :: {b[i]} n <= i < len(b) ==> b[i] == old(b[i])
  ensures[C06] advanced: fb.offset == old(fb.offset) + n && fine(fb)
  ensures[C06] content: len(fb.buffer) == old(len(fb.buffer)) && fb.closed == old(fb.closed) && (forall i :: {fb.buffer[i]} 0 <= i < len(fb.buffer) ==> fb.buffer[i] == old(fb.buffer[i]))
  modifies fb.offset, elems(b)

func (*FileBuffer).Write(fb, b) (n, err)
  requires fine(fb) && arr(b) != arr(fb.buffer)
  ensures[C06] closed: old(fb.closed) ==> err != nil && n == 0 && unchanged(fb)
  ensures[C06] written: !old(fb.closed) ==> err == nil && n == len(b) && fb.offset == old(fb.offset) + len(b)
  ensures[C06] size: !old(fb.closed) ==> len(fb.buffer) == max(old(len(fb.buffer)), old(fb.offset) + len(b))
  ensures[C06] data: !old(fb.closed) ==> (forall i :: {fb.buffer[i]} old(fb.offset) <= i < old(fb.offset) + len(b) ==> fb.buffer[i] == b[i - old(fb.offset)])
  ensures[C06] outside: !old(fb.closed) ==> (forall i :: {fb.buffer[i]} 0 <= i < old(len(fb.buffer)) && (i < old(fb.offset) || old(fb.offset) + len(b) <= i) ==> fb.buffer[i] == old(fb.buffer[i]))
  ensures[C06] fine: fine(fb) && fb.closed == old(fb.closed)
  modifies fb.offset, fb.buffer, elems(fb.buffer)

func (*FileBuffer).Seek(fb, offset, whence) (p, err)
  requires fine(fb)
  ensures[C06] closed: old(fb.closed) ==> err != nil
  ensures[C06] start: !fb.closed && whence == 0 ==> (err == nil <==> 0 <= offset <= len(fb.buffer)) && (err == nil ==> fb.offset == offset)
  ensures[C06] current: !fb.closed && whence == 1 ==> (err == nil <==> 0 <= old(fb.offset) + offset <= len(fb.buffer)) && (err == nil ==> fb.offset == old(fb.offset) + offset)
  ensures[C06] end: !fb.closed && whence == 2 ==> (err == nil <==> 0 <= len(fb.buffer) + offset <= len(fb.buffer)) && (err == nil ==> fb.offset == len(fb.buffer) + offset)
  ensures[C06] unknown: whence != 0 && whence != 1 && whence != 2 ==> err != nil
  ensures[C06] position: err == nil ==> p == fb.offset
  ensures[C06] refused: err != nil ==> fb.offset == old(fb.offset)
  ensures[C06] fine: fine(fb)
  modifies fb.offset

func (*FileBuffer).Truncate(fb, size) (err)
  requires fine(fb) && size <= 1099511627776
  ensures[C06] closed: old(fb.closed) ==> err != nil
  ensures[C06] accepted: !old(fb.closed) ==> (err == nil <==> size >= 0)
  ensures[C06] refused: err != nil ==> unchanged(fb)
  ensures[C06] size: err == nil ==> len(fb.buffer) == size
  ensures[C06] kept: err == nil ==> (forall i :: {fb.buffer[i]} 0 <= i < size && i < old(len(fb.buffer)) ==> fb.buffer[i] == old(fb.buffer[i]))
  ensures[C06] zeros: err == nil ==> (forall i :: {fb.buffer[i]} old(len(fb.buffer)) <= i < size ==> fb.buffer[i] == 0)
  ensures[C06] position: err == nil ==> fb.offset == min(old(fb.offset), size)
  ensures[C06] fine: fine(fb) && fb.closed == old(fb.closed)
  modifies fb.offset, fb.buffer, elems(fb.buffer)
  invariant len(fb.buffer) == entry(len(fb.buffer)) + $k
  invariant forall i :: {fb.buffer[i]} 0 <= i < entry(len(fb.buffer)) ==> fb.buffer[i] == entry(fb.buffer[i])
  invariant forall i :: {fb.buffer[i]} entry(len(fb.buffer)) <= i < len(fb.buffer) ==> fb.buffer[i] == 0

func (*FileBuffer).Close(fb) (err)
  ensures[C06] closed: err == nil && fb.closed && fb.offset == old(fb.offset) && len(fb.buffer) == old(len(fb.buffer))
  modifies fb.closed
