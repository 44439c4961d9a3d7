package recengine/internal/infra/recdb

// kinds of actions: 0 stop, 1 delete profile, 2 get profile, 3 like, 4 dislike, 5 delete item, 6 similar profiles, 7 recommend items
def kind(as, i) = as[i].ActionType
def profileof(as, i) = dyn(as[i].Payload, "recengine/internal/domain.GetProfilePayload").Profile
def similarof(as, i) = dyn(as[i].Payload, "recengine/internal/domain.GetSimilarProfilesPayload").Profiles
def itemsof(as, i) = dyn(as[i].Payload, "recengine/internal/domain.RecommendItemsPayload").Items
// the reply channel that fits the kind of an action
def replyto(as, i) = ite(kind(as, i) == 2, profileof(as, i), ite(kind(as, i) == 6, similarof(as, i), ite(kind(as, i) == 7, itemsof(as, i), as[i].Error)))
def payloadfits(as, i) = (kind(as, i) == 2 ==> is(as[i].Payload, "recengine/internal/domain.GetProfilePayload")) && (kind(as, i) == 6 ==> is(as[i].Payload, "recengine/internal/domain.GetSimilarProfilesPayload")) && (kind(as, i) == 7 ==> is(as[i].Payload, "recengine/internal/domain.RecommendItemsPayload"))
def unknown(as, i) = kind(as, i) < 1 || kind(as, i) > 7

func (*likeStorage).ProcessActions(s, actions) (err)
  requires fits: forall i :: {actions[i].ActionType} {actions[i].Payload} 0 <= i < len(actions) ==> payloadfits(actions, i) && replyto(actions, i) > 0
  modifies answerlog()
  invariant[C23] forall i :: {actions[i].ActionType} {actions[i].Error} 0 <= i < $k ==> answerto(old(answers()) + i) == replyto(actions, i)
  invariant[C23] forall i :: {actions[i].ActionType} {actions[i].Error} 0 <= i < $k && unknown(actions, i) ==> answertag(old(answers()) + i) != 0
  ensures[C23] once: answers() == old(answers()) + len(actions)
  ensures[C23] channel: forall i :: {actions[i].ActionType} {actions[i].Error} 0 <= i < len(actions) ==> answerto(old(answers()) + i) == replyto(actions, i)
  ensures[C23] unknown: forall i :: {actions[i].ActionType} {actions[i].Error} 0 <= i < len(actions) && unknown(actions, i) ==> answertag(old(answers()) + i) != 0
