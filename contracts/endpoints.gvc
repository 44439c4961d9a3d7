package recengine/internal/api/shard/endpoints

def svc(e) = e.nsService
def createok() = bindok("recengine/internal/api/shard/dto.NamespaceCreateRequest")
def updateok() = bindok("recengine/internal/api/shard/dto.NamespaceUpdateRequest")
def rname() = req("name:string")
def rtype() = req("type:string")
def rlimit() = req("maxSimilarProfiles:uint")
def rfactor() = req("dislikeFactor:float32")
// the body describes a namespace
def describes() = replies("name:string") && replies("type:string") && replies("maxSimilarProfiles:uint")
// the body is that of namespace i of the registry
def shows(s, i) = inreg(s, i) && reply("name:string") == reg(s, i).name.value && reply("type:string") == "like" && reply("maxSimilarProfiles:uint") == reg(s, i).maxSimilarProfiles

func (*NamespaceEndpoint).RegisterRoutes(endpoint, router)
  requires service: endpoint != nil && endpoint.nsService != nil
  requires registry: regok(endpoint.nsService) && unique(endpoint.nsService)

  requires[C22] names: names(endpoint.nsService)

  route[C26] "POST /api/v1/namespaces" once: responses() == 1
  route[C26] "POST /api/v1/namespaces" statuses: status() == 201 || status() == 400 || io_failed
  route[C26] "POST /api/v1/namespaces" invalid: !createok() || !nameok(rname()) || rtype() != "like" ==> status() == 400
  route[C26] "POST /api/v1/namespaces" refused: createok() && nameok(rname()) && rtype() == "like" && old(held(svc(endpoint), rname())) ==> status() == 400
  route[C26] "POST /api/v1/namespaces" accepted: !io_failed && createok() && nameok(rname()) && rtype() == "like" && !old(held(svc(endpoint), rname())) ==> status() == 201
  route[C26] "POST /api/v1/namespaces" created: status() == 201 ==> !old(held(svc(endpoint), rname())) && held(svc(endpoint), rname()) && len(svc(endpoint).namespaces) == old(len(svc(endpoint).namespaces)) + 1
  route[C26] "POST /api/v1/namespaces" shown: status() == 201 ==> describes() && reply("name:string") == rname() && reply("type:string") == rtype() && reply("maxSimilarProfiles:uint") == ite(rlimit() == 0, 1000, rlimit())
  route[C26] "POST /api/v1/namespaces" factor: status() == 201 ==> 0 <= rfactor() && rfactor() <= 1

  // what an answer reports as done is in the registry file
  route[C22] "POST /api/v1/namespaces" saved: status() == 201 ==> regsaved(svc(endpoint))

  route[C26] "GET /api/v1/namespaces/{}" once: responses() == 1
  route[C26] "GET /api/v1/namespaces/{}" invalid: !nameok(seg()) ==> status() == 400
  route[C26] "GET /api/v1/namespaces/{}" missing: nameok(seg()) && !old(held(svc(endpoint), seg())) ==> status() == 404
  route[C26] "GET /api/v1/namespaces/{}" found: nameok(seg()) && old(held(svc(endpoint), seg())) ==> status() == 200
  route[C26] "GET /api/v1/namespaces/{}" shown: status() == 200 ==> describes() && reply("name:string") == seg() && exists i :: {svc(endpoint).namespaces[i]} shows(svc(endpoint), i)

  route[C26] "GET /api/v1/namespaces" once: responses() == 1
  route[C26] "GET /api/v1/namespaces" status: status() == 200
  route[C26] "GET /api/v1/namespaces" all: replylist("name:string") && replylen() == len(svc(endpoint).namespaces)
  route[C26] "GET /api/v1/namespaces" each: forall i :: {svc(endpoint).namespaces[i]} inreg(svc(endpoint), i) ==> replyat(i, "name:string") == reg(svc(endpoint), i).name.value && replyat(i, "maxSimilarProfiles:uint") == reg(svc(endpoint), i).maxSimilarProfiles

  route[C26] "PUT /api/v1/namespaces/{}" once: responses() == 1
  route[C26] "PUT /api/v1/namespaces/{}" invalid: !nameok(seg()) ==> status() == 400
  route[C26] "PUT /api/v1/namespaces/{}" missing: nameok(seg()) && !old(held(svc(endpoint), seg())) ==> status() == 404 || status() == 400 && (!updateok() || !nameok(rname()))
  route[C26] "PUT /api/v1/namespaces/{}" body: nameok(seg()) && old(held(svc(endpoint), seg())) && (!updateok() || !nameok(rname())) ==> status() == 400
  route[C26] "PUT /api/v1/namespaces/{}" refused: nameok(seg()) && old(held(svc(endpoint), seg())) && updateok() && nameok(rname()) && rname() != seg() && old(held(svc(endpoint), rname())) ==> status() == 400
  route[C26] "PUT /api/v1/namespaces/{}" accepted: !io_failed && nameok(seg()) && old(held(svc(endpoint), seg())) && updateok() && nameok(rname()) && (rname() == seg() || !old(held(svc(endpoint), rname()))) ==> status() == 200
  route[C26] "PUT /api/v1/namespaces/{}" addressed: status() == 200 ==> forall i :: {svc(endpoint).namespaces[i]} inreg(svc(endpoint), i) ==> (old(reg(svc(endpoint), i).name.value) == seg() ==> reg(svc(endpoint), i).name.value == rname() && reg(svc(endpoint), i).maxSimilarProfiles == rlimit() && reg(svc(endpoint), i).dislikeFactor == rfactor()) && (old(reg(svc(endpoint), i).name.value) != seg() ==> reg(svc(endpoint), i).name.value == old(reg(svc(endpoint), i).name.value) && reg(svc(endpoint), i).maxSimilarProfiles == old(reg(svc(endpoint), i).maxSimilarProfiles))
  route[C26] "PUT /api/v1/namespaces/{}" shown: status() == 200 ==> describes() && reply("name:string") == rname() && reply("maxSimilarProfiles:uint") == rlimit()
  route[C26] "PUT /api/v1/namespaces/{}" factor: status() == 200 ==> 0 <= rfactor() && rfactor() <= 1
  route[C22] "PUT /api/v1/namespaces/{}" saved: status() == 200 ==> regsaved(svc(endpoint))
