# Wire encoding (C16, C11)

# the bytes json.Marshal produces for a request of a given kind
func encreg(int, seq, seq) seq

pred reqtype(t int, r any) = (t == const("protocol.RegistrationType") ==> is(r, "*protocol.RegistrationRequest")) && (t == const("protocol.KeyLookupType") ==> is(r, "*protocol.KeyLookupRequest")) && (t == const("protocol.KeyLookupInEpochType") ==> is(r, "*protocol.KeyLookupInEpochRequest")) && (t == const("protocol.MonitoringType") ==> is(r, "*protocol.MonitoringRequest"))

# what the bytes of a message say: decoding is a function of the bytes and the type decoded into
func jhas(seq, int) bool
func jint(seq, int) int
func jstr(seq, int) seq
pred jnum(b seq, m int) = if jhas(b, m) then jint(b, m) else 0
pred jtext(b seq, m int) = if jhas(b, m) then jstr(b, m) else ""
pred saidtype(b seq) = jnum(b, member("protocol.Request.Type"))
pred saidbody(b seq) = jtext(b, member("protocol.Request.Request:json.RawMessage"))
# messages that decode
func jok(seq, int) bool
# whether the body of a message is there (and not null)
func jset(seq, int) bool
pred bodyok(b seq, t int) = if t == const("protocol.RegistrationType") then jok(b, member("interface{}+protocol.RegistrationRequest")) else if t == const("protocol.KeyLookupType") then jok(b, member("interface{}+protocol.KeyLookupRequest")) else if t == const("protocol.KeyLookupInEpochType") then jok(b, member("interface{}+protocol.KeyLookupInEpochRequest")) else if t == const("protocol.MonitoringType") then jok(b, member("interface{}+protocol.MonitoringRequest")) else jok(b, member("interface{}"))
pred isrequest(b seq) = jok(b, member("protocol.Request+protocol.Request.Request:json.RawMessage")) && bodyok(saidbody(b), saidtype(b))
pred hasbody(b seq) = jset(saidbody(b), member("protocol.RegistrationRequest"))

fn application.UnmarshalRequest :: msg
  prop C16 C11
  ensures [tag_announces_payload] err == nil ==> result != nil && wellformed(result)
  ensures [every_message_decodes] err == nil <==> isrequest(bytes(msg))
  ensures [body_as_sent] err == nil && saidtype(bytes(msg)) == const("protocol.RegistrationType") && hasbody(bytes(msg)) ==> is(result.Request, "*protocol.RegistrationRequest")
  ensures [tag_as_sent] err == nil ==> result.Type == saidtype(bytes(msg))
  ensures [registration_as_sent] err == nil && is(result.Request, "*protocol.RegistrationRequest") ==> content(as(result.Request, "*protocol.RegistrationRequest").Username) == jtext(saidbody(bytes(msg)), member("protocol.RegistrationRequest.Username")) && bytes(as(result.Request, "*protocol.RegistrationRequest").Key) == jtext(saidbody(bytes(msg)), member("protocol.RegistrationRequest.Key"))
  ensures [lookup_as_sent] err == nil && is(result.Request, "*protocol.KeyLookupRequest") ==> content(as(result.Request, "*protocol.KeyLookupRequest").Username) == jtext(saidbody(bytes(msg)), member("protocol.KeyLookupRequest.Username"))
  ensures [epoch_lookup_as_sent] err == nil && is(result.Request, "*protocol.KeyLookupInEpochRequest") ==> content(as(result.Request, "*protocol.KeyLookupInEpochRequest").Username) == jtext(saidbody(bytes(msg)), member("protocol.KeyLookupInEpochRequest.Username")) && as(result.Request, "*protocol.KeyLookupInEpochRequest").Epoch == jnum(saidbody(bytes(msg)), member("protocol.KeyLookupInEpochRequest.Epoch"))
  ensures [monitoring_as_sent] err == nil && is(result.Request, "*protocol.MonitoringRequest") ==> content(as(result.Request, "*protocol.MonitoringRequest").Username) == jtext(saidbody(bytes(msg)), member("protocol.MonitoringRequest.Username")) && as(result.Request, "*protocol.MonitoringRequest").StartEpoch == jnum(saidbody(bytes(msg)), member("protocol.MonitoringRequest.StartEpoch")) && as(result.Request, "*protocol.MonitoringRequest").EndEpoch == jnum(saidbody(bytes(msg)), member("protocol.MonitoringRequest.EndEpoch"))
  ensures err != nil ==> result == nil

fn application.UnmarshalResponse :: t, msg
  prop C16 C11
  maypanic t < const("protocol.RegistrationType") || (t > const("protocol.MonitoringType") && t != const("protocol.STRType"))
  ensures result != nil && fresh(result)
  ensures [payload_kind_matches_request] result.DirectoryResponse != nil ==> (if t == const("protocol.STRType") then is(result.DirectoryResponse, "*protocol.STRHistoryRange") else is(result.DirectoryResponse, "*protocol.DirectoryProof"))
  ensures [bare_status_is_an_error] result.DirectoryResponse == nil ==> iserr(result.Error)
  ensures [memo_unset] dpok(result) ==> memosok(dpof(result).AP)
  ensures dpok(result) ==> forall i int :: {dpof(result).AP[i]} 0 <= i && i < len(dpof(result).AP) ==> dpof(result).AP[i].proofType == 0
  ensures [new_proofs] dpok(result) ==> forall i int :: {dpof(result).AP[i]} 0 <= i && i < len(dpof(result).AP) ==> fresh(dpof(result).AP[i])

fn application.malformedClientMsg :: err
  prop C16 C15
  ensures [malformed_status] bare(result, const("protocol.ErrMalformedMessage"))

# what the bytes json.Marshal produced announce: their tag and the name, key and epochs of the payload
func msgtag(seq) int
func msgname(seq) seq
func msgkey(seq) seq
func msgstart(seq) int
func msgend(seq) int
func msgerror(seq) int
# the response some bytes encode
func msgof(seq) int
pred reqname(r any) = if is(r, "*protocol.RegistrationRequest") then content(as(r, "*protocol.RegistrationRequest").Username) else if is(r, "*protocol.KeyLookupRequest") then content(as(r, "*protocol.KeyLookupRequest").Username) else if is(r, "*protocol.KeyLookupInEpochRequest") then content(as(r, "*protocol.KeyLookupInEpochRequest").Username) else content(as(r, "*protocol.MonitoringRequest").Username)
pred named(r any) = is(r, "*protocol.RegistrationRequest") || is(r, "*protocol.KeyLookupRequest") || is(r, "*protocol.KeyLookupInEpochRequest") || is(r, "*protocol.MonitoringRequest")
pred announces(b seq, t int, r any) = msgtag(b) == t && (named(r) ==> msgname(b) == reqname(r)) && (is(r, "*protocol.RegistrationRequest") ==> msgkey(b) == bytes(as(r, "*protocol.RegistrationRequest").Key)) && (is(r, "*protocol.KeyLookupInEpochRequest") ==> msgstart(b) == as(r, "*protocol.KeyLookupInEpochRequest").Epoch) && (is(r, "*protocol.MonitoringRequest") ==> msgstart(b) == as(r, "*protocol.MonitoringRequest").StartEpoch && msgend(b) == as(r, "*protocol.MonitoringRequest").EndEpoch)

trusted fn json.Marshal :: v
  ensures ret1 != nil ==> ret0 == nil
  ensures fresh(ret0)
  ensures ret1 == nil && is(v, "*protocol.Request") ==> announces(bytes(ret0), as(v, "*protocol.Request").Type, as(v, "*protocol.Request").Request)
  ensures [responses_encode] is(v, "*protocol.Response") ==> ret1 == nil
  ensures ret1 == nil && is(v, "*protocol.Response") ==> msgerror(bytes(ret0)) == as(v, "*protocol.Response").Error && msgof(bytes(ret0)) == ref(v)

fn application.MarshalRequest :: t, request
  prop C16
  requires named(request) ==> ref(request) != 0
  ensures [tag_and_payload] err == nil ==> announces(bytes(ret0), t, request)

fn application.MarshalResponse :: response
  prop C16
  requires response != nil
  ensures [status] err == nil && msgerror(bytes(ret0)) == response.Error && msgof(bytes(ret0)) == toint(response)

fn client.CreateRegistrationMsg :: name, key
  prop C16
  ensures [registration_of_name_and_key] err == nil ==> msgtag(bytes(ret0)) == const("protocol.RegistrationType") && msgname(bytes(ret0)) == content(name) && msgkey(bytes(ret0)) == bytes(key)

fn client.CreateKeyLookupMsg :: name
  prop C16
  ensures [lookup_of_name] err == nil ==> msgtag(bytes(ret0)) == const("protocol.KeyLookupType") && msgname(bytes(ret0)) == content(name)
