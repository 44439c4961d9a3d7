package recengine/internal/domain/valueobjects

// a letter followed by letters, digits, underscores and hyphens: no separator, no dot, no line break, not empty
def nameok(s) = inre(s, "[A-Za-z][A-Za-z0-9_-]*")

func ParseNamespaceName(value) (name, err)
  flag structural
  ensures accepted: (err == nil) == nameok(value)
  ensures kept: name.value == value

func (NamespaceName).Value(t)
  ensures value: result == t.value

func ParseNamespaceType(value) (type, err)
  ensures accepted: (err == nil) == (value == "like")
  ensures kept: type.value == value

func MakeLikeNamespaceType()
  ensures like: result.value == "like"

func (NamespaceType).Value(t)
  ensures value: result == t.value
