package recengine/internal/domain

def liked(p, x) = mem(p.Likes, x)
def disliked(p, x) = mem(p.Dislikes, x)
def disjoint(p) = forall x :: {liked(p, x)} {disliked(p, x)} !(liked(p, x) && disliked(p, x))
def separate(p) = arr(p.Likes) != arr(p.Dislikes) || arr(p.Likes) == 0
def canon(p) = ascending(p.Likes) && ascending(p.Dislikes) && separate(p) && disjoint(p)

func NewProfile(id)
  uses in_wit, in_at
  ensures[C01,C02] canon: canon(result)
  ensures[C01,C02] empty: len(result.Likes) == 0 && len(result.Dislikes) == 0
  ensures[C01,C02] user: result.UserID == id
  ensures[C01,C02] fresh: fresh(result)

func (*Profile).QualifyItem(p, x)
  uses in_wit, in_at
  requires canon(p)
  ensures[C01] liked: result == 1 <==> liked(p, x)
  ensures[C01] disliked: result == -1 <==> disliked(p, x)
  ensures[C01] unknown: result == 0 <==> !liked(p, x) && !disliked(p, x)

func (*Profile).Like(p, item)
  uses in_wit, in_at
  requires canon(p)
  ensures[C01,C02] canon: canon(p)
  ensures[C01,C02] item: liked(p, item) && !disliked(p, item)
  ensures[C01,C02] likes: forall x :: {liked(p, x)} {old(liked(p, x))} x != item ==> (liked(p, x) <==> old(liked(p, x)))
  ensures[C01,C02] dislikes: forall x :: {disliked(p, x)} {old(disliked(p, x))} x != item ==> (disliked(p, x) <==> old(disliked(p, x)))
  modifies p.Likes, p.Dislikes, elems(p.Likes), elems(p.Dislikes)

func (*Profile).Dislike(p, item)
  uses in_wit, in_at
  requires canon(p)
  ensures[C01,C02] canon: canon(p)
  ensures[C01,C02] item: disliked(p, item) && !liked(p, item)
  ensures[C01,C02] likes: forall x :: {liked(p, x)} {old(liked(p, x))} x != item ==> (liked(p, x) <==> old(liked(p, x)))
  ensures[C01,C02] dislikes: forall x :: {disliked(p, x)} {old(disliked(p, x))} x != item ==> (disliked(p, x) <==> old(disliked(p, x)))
  modifies p.Likes, p.Dislikes, elems(p.Likes), elems(p.Dislikes)

func (*Profile).Unlike(p, item)
  uses in_wit, in_at
  requires ascending(p.Likes) && ascending(p.Dislikes) && separate(p)
  ensures[C01,C02] ascending: ascending(p.Likes) && ascending(p.Dislikes)
  ensures[C01,C02] separate: separate(p)
  ensures[C01,C02] canon: old(canon(p)) ==> canon(p)
  ensures[C01,C02] item: !liked(p, item) && (disliked(p, item) <==> old(disliked(p, item)))
  ensures[C01,C02] likes: forall x :: {liked(p, x)} {old(liked(p, x))} x != item ==> (liked(p, x) <==> old(liked(p, x)))
  ensures[C01,C02] dislikes: forall x :: {disliked(p, x)} {old(disliked(p, x))} disliked(p, x) <==> old(disliked(p, x))
  modifies p.Likes, elems(p.Likes)

func (*Profile).Undislike(p, item)
  uses in_wit, in_at
  requires ascending(p.Likes) && ascending(p.Dislikes) && separate(p)
  ensures[C01,C02] ascending: ascending(p.Likes) && ascending(p.Dislikes)
  ensures[C01,C02] separate: separate(p)
  ensures[C01,C02] canon: old(canon(p)) ==> canon(p)
  ensures[C01,C02] item: !disliked(p, item) && (liked(p, item) <==> old(liked(p, item)))
  ensures[C01,C02] likes: forall x :: {liked(p, x)} {old(liked(p, x))} liked(p, x) <==> old(liked(p, x))
  ensures[C01,C02] dislikes: forall x :: {disliked(p, x)} {old(disliked(p, x))} x != item ==> (disliked(p, x) <==> old(disliked(p, x)))
  modifies p.Dislikes, elems(p.Dislikes)

func (*Profile).RemoveItem(p, item)
  uses in_wit, in_at
  requires canon(p)
  ensures[C01,C02] canon: canon(p)
  ensures[C01,C02] item: !liked(p, item) && !disliked(p, item)
  ensures[C01,C02] likes: forall x :: {liked(p, x)} {old(liked(p, x))} x != item ==> (liked(p, x) <==> old(liked(p, x)))
  ensures[C01,C02] dislikes: forall x :: {disliked(p, x)} {old(disliked(p, x))} x != item ==> (disliked(p, x) <==> old(disliked(p, x)))
  modifies p.Likes, p.Dislikes, elems(p.Likes), elems(p.Dislikes)

// similarity: common(a, n, b, m) counts the elements of a[0..n) that occur among b[0..m);
// top is one past the position in b of the last of them (a ghost bound used to show common <= m)
ufunc common(arr, int, arr, int) : int
ufunc top(arr, int, arr, int) : int
axiom common_zero: forall a:arr, b:arr, m :: {common(a, 0, b, m)} common(a, 0, b, m) == 0
axiom common_step: forall a:arr, n, b:arr, m :: {common(a, n, b, m), a[n]} n >= 0 ==> common(a, n + 1, b, m) == common(a, n, b, m) + ite(in(b, m, a[n]), 1, 0)
axiom top_zero: forall a:arr, b:arr, m :: {top(a, 0, b, m)} top(a, 0, b, m) == 0
axiom top_step: forall a:arr, n, b:arr, m :: {top(a, n, b, m), a[n]} n >= 0 ==> top(a, n + 1, b, m) == ite(in(b, m, a[n]), wit(b, m, a[n]) + 1, top(a, n, b, m))
ufunc ratio(real, real) : real
axiom ratio_def: forall a:real, b:real :: {ratio(a, b)} b != 0 ==> ratio(a, b) * b == a
def shared(a, b) = common(elems(a), len(a), elems(b), len(b))
def union(a, b) = len(a) + len(b) - shared(a, b)

func computeSimilarityBetweenSets(a, b) (sim, size)
  uses in_wit, in_at, common_zero, common_step, top_zero, top_step, ratio_def
  requires ascending(a) && ascending(b)
  ensures[C03] size: size == union(a, b)
  ensures[C03] bounds: 0 <= shared(a, b) <= min(len(a), len(b))
  ensures[C03a] jaccard: size > 0 ==> sim == ratio(real(shared(a, b)), real(size))
  ensures[C03] empty: size == 0 ==> sim == 0
  ensures[C03] range: 0 <= sim <= 1
  invariant $x == common(elems($sa), $y, elems($sb), len($sb))
  invariant $x == common(elems($sa), $y + 1, elems($sb), len($sb))
  invariant $x <= top(elems($sa), $y, elems($sb), len($sb))
  invariant $x <= top(elems($sa), $y + 1, elems($sb), len($sb))
  invariant top(elems($sa), $y, elems($sb), len($sb)) <= len($sb)
  invariant top(elems($sa), $y + 1, elems($sb), len($sb)) <= len($sb)
  invariant forall j :: {$sb[j]} 0 <= j < top(elems($sa), $y, elems($sb), len($sb)) && 0 < $y ==> $sb[j] <= $sa[$y - 1]
  invariant forall j :: {$sb[j]} 0 <= j < top(elems($sa), $y + 1, elems($sb), len($sb)) && 0 <= $y ==> $sb[j] <= $sa[$y]

func (*Profile).ComputeSimilarity(p, q, factor)
  uses in_wit, in_at, common_zero, common_step, top_zero, top_step, ratio_def
  requires canon(p) && ascending(q.Likes) && ascending(q.Dislikes)
  requires 0 <= factor <= 1
  let wl = union(p.Likes, q.Likes)
  let ud = union(p.Dislikes, q.Dislikes)
  let cl = shared(p.Likes, q.Likes)
  let cd = shared(p.Dislikes, q.Dislikes)
  ensures[C03b] range: 0 <= result <= 100
  ensures[C03a] wd: 0 <= wd(ud, factor) <= ud
  ensures[C03a] zero: wl + wd(ud, factor) == 0 ==> result == 0
  ensures[C03a] formula: wl + wd(ud, factor) > 0 && wl > 0 && ud > 0 ==> result * (real(wl) + real(wd(ud, factor))) == 100 * (ratio(real(cl), real(wl)) * real(wl) + ratio(real(cd), real(ud)) * real(wd(ud, factor)))
  ensures[C03a] nodislikes: wl > 0 && ud == 0 ==> result * real(wl) == 100 * ratio(real(cl), real(wl)) * real(wl)
  ensures[C03a] nolikes: wl == 0 && wd(ud, factor) > 0 ==> result * real(wd(ud, factor)) == 100 * ratio(real(cd), real(ud)) * real(wd(ud, factor))
def wd(ud, factor) = floor(real(ud) * factor)
