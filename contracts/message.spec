# Protocol messages (C08-C11, C16)

pred iserr(e int) = e == const("protocol.ErrMalformedMessage") || e == const("protocol.ErrDirectory") || e == const("protocol.ErrAuditLog") || e == const("protocol.ReqUnknownDirectory")
pred errcode(e error, c int) = is(e, "protocol.ErrorCode") && as(e, "protocol.ErrorCode") == c
pred malformed(e error) = errcode(e, const("protocol.ErrMalformedMessage"))
pred stsok(strs []*protocol.DirSTR) = len(strs) > 0 && (forall i int :: {strs[i]} 0 <= i && i < len(strs) ==> strok(strs[i]))
pred apsok(aps []*merkletree.AuthenticationPath) = len(aps) > 0 && (forall i int :: {aps[i]} 0 <= i && i < len(aps) ==> aps[i] != nil && aps[i].Leaf != nil)
pred dpof(msg *protocol.Response) = as(msg.DirectoryResponse, "*protocol.DirectoryProof")
pred srof(msg *protocol.Response) = as(msg.DirectoryResponse, "*protocol.STRHistoryRange")
pred dpok(msg *protocol.Response) = is(msg.DirectoryResponse, "*protocol.DirectoryProof") && dpof(msg) != nil && apsok(dpof(msg).AP) && stsok(dpof(msg).STR)
pred srok(msg *protocol.Response) = is(msg.DirectoryResponse, "*protocol.STRHistoryRange") && srof(msg) != nil && stsok(srof(msg).STR)
pred knownpayload(msg *protocol.Response) = msg.DirectoryResponse == nil || is(msg.DirectoryResponse, "*protocol.DirectoryProof") || is(msg.DirectoryResponse, "*protocol.STRHistoryRange")

fn protocol.validSTRs :: strs
  prop C11 C10
  ensures [complete_roots] result <==> stsok(strs)
  loop [i int] forall j int :: {strs[j]} 0 <= j && j < i ==> strok(strs[j])

fn protocol.(*Response).Validate :: msg
  prop C11 C10 C07
  requires msg != nil
  panics !knownpayload(msg) && !iserr(msg.Error)
  ensures [accepts_only_complete_messages] err == nil <==> !iserr(msg.Error) && (dpok(msg) || srok(msg))
  ensures [reports_the_status] iserr(msg.Error) ==> errcode(err, msg.Error)
  ensures [otherwise_malformed] err != nil && !iserr(msg.Error) ==> malformed(err)
  loop [i int] let p = dpof(msg).AP in forall j int :: {p[j]} 0 <= j && j < i ==> p[j] != nil && p[j].Leaf != nil

fn protocol.NewErrorResponse :: e
  prop C16
  ensures result != nil && fresh(result)
  ensures [bare_status] result.Error == e && result.DirectoryResponse == nil

fn protocol.NewRegistrationProof :: ap, str, tb, e
  prop C16 C08
  ensures result != nil && fresh(result)
  ensures [carries_what_it_was_given] result.Error == e && is(result.DirectoryResponse, "*protocol.DirectoryProof") && dpof(result) != nil && len(dpof(result).AP) == 1 && dpof(result).AP[0] == ap && len(dpof(result).STR) == 1 && dpof(result).STR[0] == str && dpof(result).TB == tb

fn protocol.NewKeyLookupProof :: ap, str, tb, e
  prop C16 C08
  ensures result != nil && fresh(result)
  ensures [carries_what_it_was_given] result.Error == e && is(result.DirectoryResponse, "*protocol.DirectoryProof") && dpof(result) != nil && len(dpof(result).AP) == 1 && dpof(result).AP[0] == ap && len(dpof(result).STR) == 1 && dpof(result).STR[0] == str && dpof(result).TB == tb

fn protocol.NewKeyLookupInEpochProof :: ap, str, e
  prop C16 C09
  ensures result != nil && fresh(result)
  ensures [carries_what_it_was_given] result.Error == e && is(result.DirectoryResponse, "*protocol.DirectoryProof") && dpof(result) != nil && len(dpof(result).AP) == 1 && dpof(result).AP[0] == ap && same(dpof(result).STR, str) && dpof(result).TB == nil

fn protocol.NewMonitoringProof :: ap, str
  prop C16 C09
  ensures result != nil && fresh(result)
  ensures [carries_what_it_was_given] result.Error == const("protocol.ReqSuccess") && is(result.DirectoryResponse, "*protocol.DirectoryProof") && dpof(result) != nil && same(dpof(result).AP, ap) && same(dpof(result).STR, str) && dpof(result).TB == nil

fn protocol.NewSTRHistoryRange :: str
  prop C16 C09 C07
  ensures result != nil && fresh(result)
  ensures [carries_what_it_was_given] result.Error == const("protocol.ReqSuccess") && is(result.DirectoryResponse, "*protocol.STRHistoryRange") && srof(result) != nil && same(srof(result).STR, str)

fn protocol.(*Response).GetKey :: msg
  prop C10 C11
  requires msg != nil
  requires dpok(msg) ==> memook(dpof(msg).AP[len(dpof(msg).AP)-1])
  panics !knownpayload(msg) && !iserr(msg.Error)
  modifies each("merkletree.AuthenticationPath.proofType", p, dpok(msg) && p == dpof(msg).AP[len(dpof(msg).AP)-1])
  ensures [key_iff_proved_or_promised] err == nil <==> !iserr(msg.Error) && dpok(msg) && msg.Error != const("protocol.ReqNameNotFound") && (incl(dpof(msg).AP[len(dpof(msg).AP)-1]) || dpof(msg).TB != nil)
  ensures [proved_key] err == nil && incl(dpof(msg).AP[len(dpof(msg).AP)-1]) ==> same(result, dpof(msg).AP[len(dpof(msg).AP)-1].Leaf.Value)
  ensures [promised_key] err == nil && !incl(dpof(msg).AP[len(dpof(msg).AP)-1]) ==> same(result, dpof(msg).TB.Value)
  ensures dpok(msg) ==> memook(dpof(msg).AP[len(dpof(msg).AP)-1])
