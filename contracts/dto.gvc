package recengine/internal/api/shard/dto

def fieldsof(e) = dyn(e, "*recengine/internal/api/shard/dto.ValidationError").fields
def fieldnamed(e, i, f) = fieldsof(e)[i].Field == f

func (*NamespaceCreateRequest).ToDomain(dto) (req, err)
  ensures[C20,C22,C26] accepted: (err == nil) == (nameok(dto.Name) && dto.Type == "like")
  ensures[C20,C22,C26] kept: err == nil ==> req != nil && req.Name.value == dto.Name && req.Type.value == dto.Type && req.MaxSimilarProfiles == dto.MaxSimilarProfiles && req.DislikeFactor == dto.DislikeFactor
  ensures[C20,C22,C26] refused: err != nil ==> is(err, "*recengine/internal/api/shard/dto.ValidationError") && ref(err) > 0 && len(fieldsof(err)) == ite(nameok(dto.Name), 0, 1) + ite(dto.Type == "like", 0, 1)
  ensures[C20] name: !nameok(dto.Name) ==> fieldnamed(err, 0, "name")
  ensures[C20] type: dto.Type != "like" ==> fieldnamed(err, ite(nameok(dto.Name), 0, 1), "type")
  ensures[C20,C22,C26] newreq: err == nil ==> fresh(req)

func (*NamespaceUpdateRequest).ToDomain(dto) (req, err)
  ensures[C20,C22,C26] accepted: (err == nil) == nameok(dto.Name)
  ensures[C20,C22,C26] kept: err == nil ==> req != nil && req.Name.value == dto.Name && req.MaxSimilarProfiles == dto.MaxSimilarProfiles && req.DislikeFactor == dto.DislikeFactor
  ensures[C20,C22,C26] name: err != nil ==> is(err, "*recengine/internal/api/shard/dto.ValidationError") && ref(err) > 0 && len(fieldsof(err)) == 1 && fieldnamed(err, 0, "name")
  ensures[C20,C22,C26] newreq: err == nil ==> fresh(req)

func (*ValidationError).Fields(err)
  ensures[C20,C22,C26] fields: result == err.fields

func MakeNamespaceResponseArray(namespaces) (responses)
  requires namespaces: forall i :: {namespaces[i]} 0 <= i && i < len(namespaces) ==> is(namespaces[i], "*recengine/internal/domain.likeNamespace") && ln(namespaces[i]) > 0
  invariant[C26] forall j :: {$s[j].Name} {namespaces[j]} 0 <= j < $k ==> $s[j].Name == ln(namespaces[j]).name.value
  invariant[C26] forall j :: {$s[j].MaxSimilarProfiles} {namespaces[j]} 0 <= j < $k ==> $s[j].MaxSimilarProfiles == ln(namespaces[j]).maxSimilarProfiles
  ensures[C26] number: len(responses) == len(namespaces)
  ensures[C26] each: forall i :: {responses[i].Name} {responses[i].MaxSimilarProfiles} {namespaces[i]} 0 <= i && i < len(namespaces) ==> responses[i].Name == ln(namespaces[i]).name.value && responses[i].MaxSimilarProfiles == ln(namespaces[i]).maxSimilarProfiles
