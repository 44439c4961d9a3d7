package recengine/internal/helpers

// lists
def sorted(s) = forall i, j :: {s[i], s[j]} 0 <= i < j && j < len(s) ==> s[i] <= s[j]
def ascending(s) = forall i, j :: {s[i], s[j]} 0 <= i < j && j < len(s) ==> s[i] < s[j]
// membership: in(a, n, x) means x is among a[0..n); wit is a witness
ufunc in(arr, int, int) : bool
ufunc wit(arr, int, int) : int
axiom in_wit: forall a:arr, n, x :: {in(a, n, x)} in(a, n, x) ==> 0 <= wit(a, n, x) < n && a[wit(a, n, x)] == x
axiom in_at: forall a:arr, n, x, i :: {in(a, n, x), a[i]} 0 <= i < n && a[i] == x ==> in(a, n, x)
def mem(s, x) = in(elems(s), len(s), x)
def dist(a, b) = ite(a < b, b - a, a - b)

func[uint64,int,string] IndexOf(h, x)
  ensures[C04] range: -1 <= result
  ensures[C04] found: 0 <= result ==> result < len(h) && h[result] == x
  ensures[C04] first: forall i :: {h[i]} 0 <= i < len(h) && (result < 0 || i < result) ==> h[i] != x
  invariant forall i :: {h[i]} 0 <= i <= $x ==> h[i] != x
  invariant forall i :: {h[i]} 0 <= i < $x ==> h[i] != x
  // a search that carries its result along
  invariant 0 <= $x ==> $x < len(h) && h[$x] == x
  invariant forall i :: {h[i]} 0 <= i < $x && i < len(h) && ($y < 0 || i < $y) ==> h[i] != x
  invariant forall i :: {h[i]} 0 <= i <= $x && i < len(h) && ($y < 0 || i < $y) ==> h[i] != x
  invariant forall i :: {h[i]} 0 <= i && $x < i < len(h) && ($y < 0 || i < $y) ==> h[i] != x
  invariant forall i :: {h[i]} 0 <= i && $x <= i < len(h) && ($y < 0 || i < $y) ==> h[i] != x

func[string] BinaryIndexOf(h, x)
  flag ordstr
  requires sorted(h)
  ensures[C04] range: -1 <= result < len(h)
  ensures[C04] found: 0 <= result ==> h[result] == x
  ensures[C04] none: result < 0 ==> (forall i :: {h[i]} 0 <= i < len(h) ==> h[i] != x)
  invariant forall i :: {h[i]} 0 <= i < $x && i < len(h) ==> h[i] != x
  invariant forall i :: {h[i]} 0 <= i <= $x && i < len(h) ==> h[i] != x
  invariant forall i :: {h[i]} $x <= i < len(h) && 0 <= i ==> h[i] != x
  invariant forall i :: {h[i]} $x < i < len(h) && 0 <= i ==> h[i] != x

func[uint64,uint32,int,int64] BinaryIndexOf(h, x)
  requires sorted(h)
  ensures[C01,C02,C03,C04] range: -1 <= result < len(h)
  ensures[C01,C02,C03,C04] found: 0 <= result ==> h[result] == x
  ensures[C01,C02,C03,C04] none: result < 0 ==> (forall i :: {h[i]} 0 <= i < len(h) ==> h[i] != x)
  invariant forall i :: {h[i]} 0 <= i < $x && i < len(h) ==> h[i] != x
  invariant forall i :: {h[i]} 0 <= i <= $x && i < len(h) ==> h[i] != x
  invariant forall i :: {h[i]} $x <= i < len(h) && 0 <= i ==> h[i] != x
  invariant forall i :: {h[i]} $x < i < len(h) && 0 <= i ==> h[i] != x

func[uint64,uint32,uint8] Deviation(a, b)
  ensures[C04,C05,C01,C02] result == dist(a, b)

func[uint64,uint32,uint8] BinaryIndexOfClosest(h, x)
  requires sorted(h)
  ensures[C01,C02,C04,C05] range: -1 <= result < len(h)
  ensures[C01,C02,C04,C05] empty: result < 0 <==> len(h) == 0
  ensures[C01,C02,C04,C05] minimal: forall i :: {h[i]} 0 <= i < len(h) ==> dist(h[result], x) <= dist(h[i], x)
  invariant $x == dist(h[$y], x)
  invariant forall i :: {h[i]} 0 <= i < $x && i < len(h) ==> h[i] < x
  invariant forall i :: {h[i]} 0 <= i < $x && i < len(h) ==> h[i] <= x
  invariant forall i :: {h[i]} $x <= i < len(h) && 0 <= i ==> h[i] >= x
  invariant forall i :: {h[i]} $x <= i < len(h) && 0 <= i ==> h[i] > x
  invariant forall i :: {h[i]} 0 <= i < $x && i < len(h) ==> $y <= dist(h[i], x)
  invariant forall i :: {h[i]} 0 <= i <= $x && i < len(h) ==> $y <= dist(h[i], x)
  invariant forall i :: {h[i]} $x <= i < len(h) && 0 <= i ==> $y <= dist(h[i], x)
  invariant forall i :: {h[i]} $x < i < len(h) && 0 <= i ==> $y <= dist(h[i], x)

func[uint64,string] Remove(h, index) (r)
  requires 0 <= index < len(h)
  ensures[C05] len: len(r) == len(h) - 1
  ensures[C05] keep: forall i :: {r[i]} 0 <= i < len(r) && i != index ==> r[i] == old(h[i])
  ensures[C05] moved: index < len(r) ==> r[index] == old(h[len(h) - 1])
  ensures[C05] same: arr(r) == arr(h) && off(r) == off(h)
  modifies elems(h)

func[uint64,string] RemoveSavingOrder(h, index) (r)
  requires 0 <= index < len(h)
  ensures[C01,C02,C05] len: len(r) == len(h) - 1
  ensures[C05] before: forall i :: {r[i]} 0 <= i < index ==> r[i] == old(h[i])
  ensures[C05] after: forall i :: {r[i]} index <= i < len(r) ==> r[i] == old(h[i + 1])
  uses in_wit, in_at
  ensures[C01,C02] others: forall x :: {mem(r, x)} {old(mem(h, x))} x != old(h[index]) ==> (mem(r, x) <==> old(mem(h, x)))
  ensures[C01,C02] ascending: old(ascending(h)) ==> ascending(r)
  ensures[C01,C02] gone: old(ascending(h)) ==> !mem(r, old(h[index]))
  ensures[C01,C02,C05] storage: arr(r) == arr(h) || fresh(r)
  modifies elems(h)

func[uint64,uint8,int] Insert(h, index, v) (r)
  requires 0 <= index <= len(h)
  ensures[C01,C02,C05] len: len(r) == len(h) + 1
  ensures[C01,C02,C05] before: forall i :: {r[i]} {old(h[i])} 0 <= i < index ==> r[i] == old(h[i])
  ensures[C01,C02,C05] at: r[index] == v
  ensures[C01,C02,C05] after: forall i :: {r[i]} index < i < len(r) ==> r[i] == old(h[i - 1])
  ensures[C01,C02] moved: forall i :: {old(h[i])} index <= i < len(h) ==> r[i + 1] == old(h[i])
  ensures[C01,C02,C05] storage: arr(r) == arr(h) || fresh(r)
  modifies elems(h)

func[uint64,uint32,uint8] InsertSavingOrder(h, v) (r)
  requires sorted(h)
  ensures[C05] len: len(r) == len(h) + 1
  ensures[C05] sorted: sorted(r)
  ensures[C05] one: exists p :: 0 <= p <= len(h) && r[p] == v && (forall i :: {r[i]} 0 <= i < p ==> r[i] == old(h[i])) && (forall i :: {r[i]} p < i < len(r) ==> r[i] == old(h[i - 1]))
  modifies elems(h)

  invariant forall i :: {h[i]} $x <= i < len(h) ==> h[i] > v
  invariant forall i :: {h[i]} 0 <= i < $x ==> h[i] <= v

func[uint64,uint32,uint8] PutSavingOrder(h, v) (r)
  requires ascending(h)
  ensures[C01,C02,C05] ascending: ascending(r)
  uses in_wit, in_at
  ensures[C01,C02] members: forall x :: {mem(r, x)} {old(mem(h, x))} mem(r, x) <==> (x == v || old(mem(h, x)))
  ensures[C05] present: (exists p :: 0 <= p < len(h) && old(h[p]) == v) ==> len(r) == len(h) && arr(r) == arr(h) && (forall i :: {r[i]} 0 <= i < len(r) ==> r[i] == old(h[i]))
  ensures[C05] absent: (forall p :: {old(h[p])} 0 <= p < len(h) ==> old(h[p]) != v) ==> len(r) == len(h) + 1 && (exists p :: 0 <= p <= len(h) && r[p] == v && (forall i :: {r[i]} 0 <= i < p ==> r[i] == old(h[i])) && (forall i :: {r[i]} p < i < len(r) ==> r[i] == old(h[i - 1])))
  ensures[C01,C02,C05] storage: arr(r) == arr(h) || fresh(r)
  modifies elems(h)
