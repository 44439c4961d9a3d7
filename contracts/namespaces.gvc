package recengine/internal/domain

def ln(x) = dyn(x, "*recengine/internal/domain.likeNamespace")
def reg(s, i) = ln(s.namespaces[i])
def inreg(s, i) = 0 <= i && i < len(s.namespaces)
def held(s, n) = exists i :: {s.namespaces[i]} inreg(s, i) && reg(s, i).name.value == n
// every entry is a namespace of its own with a queue of its own that is open
def regok(s) = (forall i :: {s.namespaces[i]} inreg(s, i) ==> is(s.namespaces[i], "*recengine/internal/domain.likeNamespace") && reg(s, i) > 0 && reg(s, i).action > 0 && !chclosed(reg(s, i).action) && older(reg(s, i)) && older(reg(s, i).action)) && (forall i, j :: {s.namespaces[i], s.namespaces[j]} inreg(s, i) && inreg(s, j) && i < j ==> reg(s, i) != reg(s, j) && reg(s, i).action != reg(s, j).action)
def unique(s) = forall i, j :: {s.namespaces[i], s.namespaces[j]} inreg(s, i) && inreg(s, j) && i < j ==> reg(s, i).name.value != reg(s, j).name.value
def regpath(s) = s.basePath ++ "namespaces.json"
// what has been saved is the registry
def sname(p, i) = doc(p, i, "name:string")
def slimit(p, i) = doc(p, i, "maxSimilarProfiles:uint")
def sfactor(p, i) = doc(p, i, "dislikeFactor:float32")
def members(p) = docok(p) && dochas(p, "name:string") && dochas(p, "type:string") && dochas(p, "maxSimilarProfiles:uint") && dochas(p, "dislikeFactor:float32")
def names(s) = forall i :: {s.namespaces[i]} inreg(s, i) ==> nameok(reg(s, i).name.value)
def regsaved(s) = members(regpath(s)) && doclen(regpath(s)) == len(s.namespaces) && forall i :: {s.namespaces[i]} {sname(regpath(s), i)} {slimit(regpath(s), i)} {sfactor(regpath(s), i)} {doc(regpath(s), i, "type:string")} inreg(s, i) ==> sname(regpath(s), i) == reg(s, i).name.value && nameok(reg(s, i).name.value) && doc(regpath(s), i, "type:string") == "like" && slimit(regpath(s), i) == reg(s, i).maxSimilarProfiles && sfactor(regpath(s), i) == reg(s, i).dislikeFactor
// the saved file holds acceptable namespaces
def restorable(p) = members(p) && forall i :: {sname(p, i)} {doc(p, i, "type:string")} 0 <= i && i < doclen(p) ==> nameok(sname(p, i)) && doc(p, i, "type:string") == "like"

func NewNamespaceService(context, deltas, indexes) (s)
  flag structural
  ensures[C25] base: s != nil && s.basePath == ite(getenv("REC_PATH") == "" || endswith(getenv("REC_PATH"), "/"), getenv("REC_PATH"), getenv("REC_PATH") ++ "/")
  ensures[C19] empty: len(s.namespaces) == 0

func (*NamespaceService).LoadNamespaces(s)
  modifies s.namespaces
  invariant[C22] forall j :: {$s[j]} 0 <= j < $k ==> is($s[j], "*recengine/internal/domain.likeNamespace") && ln($s[j]) > 0 && older(ln($s[j]))
  invariant[C22] forall j :: {$s[j]} 0 <= j < $k && members(regpath(s)) ==> ln($s[j]).name.value == sname(regpath(s), j)
  invariant[C22] forall j :: {$s[j]} 0 <= j < $k && members(regpath(s)) ==> ln($s[j]).maxSimilarProfiles == slimit(regpath(s), j)
  invariant[C22] forall j :: {$s[j]} 0 <= j < $k && members(regpath(s)) ==> ln($s[j]).dislikeFactor == sfactor(regpath(s), j)
  ensures[C22] works: !io_failed && restorable(regpath(s)) ==> result == nil
  ensures[C22] number: result == nil && restorable(regpath(s)) ==> len(s.namespaces) == doclen(regpath(s))
  ensures[C22] restored: result == nil && restorable(regpath(s)) ==> forall i :: {s.namespaces[i]} {sname(regpath(s), i)} inreg(s, i) ==> is(s.namespaces[i], "*recengine/internal/domain.likeNamespace") && reg(s, i) > 0 && reg(s, i).name.value == sname(regpath(s), i) && reg(s, i).maxSimilarProfiles == slimit(regpath(s), i) && reg(s, i).dislikeFactor == sfactor(regpath(s), i)
  opens[C25] base: path == s.basePath ++ "namespaces.json"

func (*NamespaceService).SaveNamespaces(s)
  requires registry: regok(s)
  modifies savedfile(s.basePath ++ "namespaces.json")
  opens[C25] base: path == s.basePath ++ "namespaces.json"
  ensures noticed: io_failed && !old(io_failed) ==> result != nil
  ensures[C19,C22,C26] works: !io_failed ==> result == nil
  requires[C22] names: names(s)
  invariant[C22] forall j :: {$s[j].Name} {s.namespaces[j]} 0 <= j < $k ==> $s[j].Name == reg(s, j).name.value
  invariant[C22] forall j :: {$s[j].Type} {s.namespaces[j]} 0 <= j < $k ==> $s[j].Type == "like"
  invariant[C22] forall j :: {$s[j].MaxSimilarProfiles} {s.namespaces[j]} 0 <= j < $k ==> $s[j].MaxSimilarProfiles == reg(s, j).maxSimilarProfiles
  invariant[C22] forall j :: {$s[j].DislikeFactor} {s.namespaces[j]} 0 <= j < $k ==> $s[j].DislikeFactor == reg(s, j).dislikeFactor
  ensures[C22] saved: result == nil ==> regsaved(s) && restorable(regpath(s))

func (*NamespaceService).getNamespaceIndexByName(s, name)
  requires registry: regok(s)
  ensures[C19,C22,C26] found: result >= 0 ==> inreg(s, result) && reg(s, result).name.value == name.value
  invariant forall i :: {s.namespaces[i]} 0 <= i < $x ==> reg(s, i).name.value != name.value
  invariant forall i :: {s.namespaces[i]} 0 <= i <= $x ==> reg(s, i).name.value != name.value
  invariant forall i :: {s.namespaces[i]} $x < i < len(s.namespaces) && 0 <= i ==> reg(s, i).name.value != name.value
  ensures[C19,C22,C26] missing: result < 0 ==> forall i :: {s.namespaces[i]} inreg(s, i) ==> reg(s, i).name.value != name.value

func (*NamespaceService).GetNamespaceByName(s, name)
  requires registry: regok(s)
  ensures[C19,C22,C26] found: result != nil ==> exists i :: {s.namespaces[i]} inreg(s, i) && result == s.namespaces[i] && reg(s, i).name.value == name.value
  ensures[C19,C22,C26] missing: result == nil ==> forall i :: {s.namespaces[i]} inreg(s, i) ==> reg(s, i).name.value != name.value

func (*NamespaceService).GetNamespaces(s)
  ensures[C19,C22,C26] all: result == s.namespaces

func (*NamespaceService).CreateNamespace(s, dto) (ns, err)
  requires[C22] names: names(s) && nameok(dto.Name.value)
  ensures[C22] names: names(s)
  ensures[C22] saved: err == nil ==> regsaved(s)
  requires dto != nil
  requires registry: regok(s) && unique(s)
  modifies s.namespaces, elems(s.namespaces), savedfile(s.basePath ++ "namespaces.json")
  ensures[C19,C22,C26] taken: old(held(s, dto.Name.value)) ==> err != nil
  ensures[C19,C22,C26] refused: old(held(s, dto.Name.value)) || dto.Type.value != "like" ==> err != nil && len(s.namespaces) == old(len(s.namespaces))
  ensures[C19,C22,C26] accepted: !io_failed && !old(held(s, dto.Name.value)) && dto.Type.value == "like" ==> err == nil
  ensures[C19,C22,C26] others: forall i :: {s.namespaces[i]} {old(s.namespaces[i])} 0 <= i && i < old(len(s.namespaces)) ==> s.namespaces[i] == old(s.namespaces[i])
  ensures[C19,C22,C26] added: !old(held(s, dto.Name.value)) && dto.Type.value == "like" ==> len(s.namespaces) == old(len(s.namespaces)) + 1 && reg(s, len(s.namespaces)-1).name.value == dto.Name.value && reg(s, len(s.namespaces)-1).maxSimilarProfiles == ite(dto.MaxSimilarProfiles == 0, 1000, dto.MaxSimilarProfiles) && reg(s, len(s.namespaces)-1).dislikeFactor == dto.DislikeFactor
  ensures[C19,C22,C26] result: err == nil ==> ns == s.namespaces[len(s.namespaces)-1]
  ensures registry: regok(s) && unique(s)

func (*NamespaceService).UpdateNamespace(s, name, dto) (ns, err)
  requires[C22] names: names(s) && nameok(dto.Name.value)
  ensures[C22] names: names(s)
  ensures[C22] saved: err == nil ==> regsaved(s)
  requires dto != nil
  requires registry: regok(s) && unique(s)
  modifies anyfield("recengine/internal/domain.likeNamespace", "name"), anyfield("recengine/internal/domain.likeNamespace", "maxSimilarProfiles"), anyfield("recengine/internal/domain.likeNamespace", "dislikeFactor"), savedfile(s.basePath ++ "namespaces.json")
  ensures[C19,C22,C26] missing: !old(held(s, name.value)) ==> err != nil
  ensures[C19,C22,C26] taken: name.value != old(dto.Name.value) && old(held(s, dto.Name.value)) ==> err != nil
  ensures[C19,C22,C26] accepted: !io_failed && old(held(s, name.value)) && (name.value == old(dto.Name.value) || !old(held(s, dto.Name.value))) ==> err == nil
  ensures[C19,C22,C26] others: forall i :: {s.namespaces[i]} inreg(s, i) && (old(reg(s, i).name.value) != name.value || (name.value != old(dto.Name.value) && old(held(s, dto.Name.value)))) ==> reg(s, i).name.value == old(reg(s, i).name.value) && reg(s, i).maxSimilarProfiles == old(reg(s, i).maxSimilarProfiles) && reg(s, i).dislikeFactor == old(reg(s, i).dislikeFactor)
  ensures[C19,C22,C26] updated: err == nil || old(held(s, name.value)) && !(name.value != old(dto.Name.value) && old(held(s, dto.Name.value))) ==> forall i :: {s.namespaces[i]} inreg(s, i) && old(reg(s, i).name.value) == name.value ==> reg(s, i).name.value == old(dto.Name.value) && reg(s, i).maxSimilarProfiles == dto.MaxSimilarProfiles && reg(s, i).dislikeFactor == dto.DislikeFactor
  ensures[C19,C22,C26] result: err == nil ==> exists i :: {s.namespaces[i]} inreg(s, i) && ns == s.namespaces[i] && reg(s, i).name.value == old(dto.Name.value)
  ensures registry: regok(s) && unique(s)

func (*NamespaceService).DeleteNamespace(s, name) (err)
  requires[C22] names: names(s)
  ensures[C22] names: names(s)
  ensures[C22] saved: err == nil ==> regsaved(s)
  requires registry: regok(s) && unique(s)
  modifies s.namespaces, elems(s.namespaces), anychannel("recengine/internal/domain.Action"), savedfile(s.basePath ++ "namespaces.json")
  ensures[C19] missing: !old(held(s, name.value)) ==> err != nil && len(s.namespaces) == old(len(s.namespaces))
  ensures[C19] accepted: !io_failed && old(held(s, name.value)) ==> err == nil
  ensures[C19] removed: old(held(s, name.value)) ==> len(s.namespaces) == old(len(s.namespaces)) - 1
  ensures[C19] others: forall i :: {s.namespaces[i]} inreg(s, i) ==> reg(s, i).name.value != name.value && exists j :: {old(s.namespaces[j])} 0 <= j && j < old(len(s.namespaces)) && s.namespaces[i] == old(s.namespaces[j])
  ensures[C19] stopped: forall j :: {old(s.namespaces[j])} 0 <= j && j < old(len(s.namespaces)) ==> chclosed(old(reg(s, j).action)) == (old(reg(s, j).name.value) == name.value)
  ensures registry: regok(s) && unique(s)

func NewLikeNamespace(dto) (ns)
  requires dto != nil
  ensures[C25] base: ns != nil && ns.basePath == dto.BasePath && ns.name.value == dto.Name.value
  ensures[C19,C22,C26] fields: ns != nil && ns.name.value == dto.Name.value && ns.maxSimilarProfiles == ite(dto.MaxSimilarProfiles == 0, 1000, dto.MaxSimilarProfiles) && ns.dislikeFactor == dto.DislikeFactor
  ensures[C19,C22,C26] queue: ns.action > 0 && fresh(ns.action) && !chclosed(ns.action) && chcap(ns.action) > 0
  ensures new: fresh(ns)

func (*NamespaceService).forgeNamespace(s, dto) (ns, err)
  requires dto != nil
  ensures kind: (err == nil) == (dto.Type.value == "like")
  ensures made: err == nil ==> is(ns, "*recengine/internal/domain.likeNamespace") && ln(ns) > 0 && fresh(ln(ns))
  ensures[C25] base: err == nil ==> ln(ns).basePath == s.basePath && ln(ns).name.value == dto.Name.value
  ensures[C19,C22,C26] fields: err == nil ==> ln(ns).name.value == dto.Name.value && ln(ns).maxSimilarProfiles == ite(dto.MaxSimilarProfiles == 0, 1000, dto.MaxSimilarProfiles) && ln(ns).dislikeFactor == dto.DislikeFactor
  ensures[C19,C22,C26] queue: err == nil ==> ln(ns).action > 0 && fresh(ln(ns).action) && !chclosed(ln(ns).action) && chcap(ln(ns).action) > 0

func (*likeNamespace).openMaybeRecoverDeltaStorage(ns) (storage, err)
  requires ns.deltaStorageFactory != nil
  opens[C25] base: path == ns.basePath ++ ns.name.value ++ ".delta"
  flag noframe

func (*likeNamespace).openMaybeResetIndexStorage(ns) (storage, err)
  requires ns.indexStorageFactory != nil
  opens[C25] base: path == ns.basePath ++ ns.name.value ++ ".index"
  flag noframe

func (*likeNamespace).openMaybeRecoverLikeStorage(ns, deltas, indexes) (storage, err)
  requires ns.likeStorageFactory != nil
  opens[C25] base: path == ns.basePath ++ ns.name.value ++ ".recdb"
  flag noframe
