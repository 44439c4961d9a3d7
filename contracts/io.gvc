package recengine/internal/helpers

// streams: content(s), size(s), pos(s) are ghost state of a file, writer or reader
// same(s, a, b): the bytes in [a, b) are as before
def same(s, a, b) = forall i :: {content(s)[i]} a <= i < b ==> content(s)[i] == old(content(s)[i])
def sameoutside(s, a, b) = forall i :: {content(s)[i]} i < a || b <= i ==> content(s)[i] == old(content(s)[i])
def advanced(s, n) = pos(s) == old(pos(s)) + n && size(s) == ite(n > 0, max(old(size(s)), old(pos(s)) + n), old(size(s)))
// the state after a write of at most n bytes that may have stopped anywhere
def partial(s, n) = old(pos(s)) <= pos(s) <= old(pos(s)) + n && sameoutside(s, old(pos(s)), old(pos(s)) + n) && old(size(s)) <= size(s) <= max(old(size(s)), pos(s))

func WriteZeros(n, w) (cnt, err)
  ensures[C07,C10,C18] count: err == nil ==> cnt == max(n, 0)
  ensures[C07,C10,C18] advanced: err == nil ==> advanced(w, max(n, 0))
  ensures[C07,C10,C18] zeros: err == nil ==> (forall i :: {content(w)[i]} old(pos(w)) <= i < old(pos(w)) + n ==> content(w)[i] == 0)
  ensures[C07,C10,C18] outside: sameoutside(w, old(pos(w)), old(pos(w)) + max(n, 0))
  ensures[C10,C18] partial: partial(w, max(n, 0))
  ensures[C10,C18] nofault: err != nil ==> io_failed
  ensures[C07] zeroesonly: forall i :: {content(w)[i]} old(pos(w)) <= i < pos(w) ==> content(w)[i] == 0
  ensures[C07] position: old(pos(w)) <= pos(w) <= old(pos(w)) + max(n, 0)
  ensures[C07] partialcount: cnt == pos(w) - old(pos(w))
  ensures[C21] noticed: io_failed && !old(io_failed) ==> err != nil
  modifies stream(w)
  invariant $x == pos(w) - old(pos(w))
  invariant n - $x == pos(w) - old(pos(w))
  invariant $x == n || $x > 0
  invariant old(pos(w)) <= pos(w)
  invariant size(w) == ite(pos(w) > old(pos(w)), max(old(size(w)), pos(w)), old(size(w)))
  invariant forall i :: {content(w)[i]} old(pos(w)) <= i < pos(w) ==> content(w)[i] == 0
  invariant forall i :: {content(w)[i]} i < old(pos(w)) || pos(w) <= i ==> content(w)[i] == old(content(w)[i])
  invariant $x <= max(n, 0)

func SkipReading(n, r) (cnt, err)
  ensures[C07,C10,C18] count: err == nil ==> cnt == max(n, 0)
  ensures[C07,C10,C18] consumed: err == nil ==> pos(r) == old(pos(r)) + max(n, 0) && pos(r) <= max(size(r), old(pos(r)))
  ensures[C07] partialcount: cnt == pos(r) - old(pos(r)) && 0 <= cnt <= max(n, 0)
  ensures[C10,C18] accepted: !io_failed && n <= old(size(r) - pos(r)) ==> err == nil
  ensures[C10,C18] position: old(pos(r)) <= pos(r) <= max(size(r), old(pos(r)))
  ensures[C21] noticed: io_failed && !old(io_failed) ==> err != nil
  modifies cursor(r)
  invariant $x == pos(r) - old(pos(r))
  invariant n - $x == pos(r) - old(pos(r))
  invariant old(pos(r)) <= pos(r)
  invariant pos(r) == old(pos(r)) || pos(r) <= size(r)
  invariant $x <= max(n, 0)
