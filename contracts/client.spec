# Client consistency checks (C10, C11)



# consistency state as New creates it and HandleResponse keeps it
pred ccok(cc *client.ConsistencyChecks) = cc != nil && audok(cc.AudState) && cc.useTBs && cc.TBs != nil && cc.Bindings != nil && (forall n seq :: {has(cc.TBs, n)} has(cc.TBs, n) ==> cc.TBs[n] != nil)
# every authentication path of a message carries an unset or right memo of its kind
pred memosok(aps []*merkletree.AuthenticationPath) = forall i int :: {aps[i]} 0 <= i && i < len(aps) && aps[i] != nil && aps[i].Leaf != nil ==> memook(aps[i])
pred single(msg *protocol.Response) = dpok(msg) && memook(dpof(msg).AP[0])
pred regok(msg *protocol.Response) = len(dpof(msg).AP) == 1 && len(dpof(msg).STR) == 1 && (msg.Error == const("protocol.ReqNameExisted") || (msg.Error == const("protocol.ReqSuccess") && !incl(dpof(msg).AP[0])))
pred lookok(msg *protocol.Response) = len(dpof(msg).AP) == 1 && len(dpof(msg).STR) == 1 && (msg.Error == const("protocol.ReqSuccess") || (msg.Error == const("protocol.ReqNameNotFound") && !incl(dpof(msg).AP[0])))
pred statusok(t int, msg *protocol.Response) = if t == const("protocol.RegistrationType") then regok(msg) else lookok(msg)
# index proof and authentication path check out for the name, with the expected or (first use) the received key
pred pathok(uname seq, haskey bool, key seq, ap *merkletree.AuthenticationPath, s *protocol.DirSTR) = vrfver(bytes(s.Policies.VrfPublicKey), uname, bytes(ap.LookupIndex), bytes(ap.VrfProof)) && apvalid(ap, uname, if haskey then key else bytes(ap.Leaf.Value), bytes(s.TreeHash))
pred tbser(sig seq, tb *protocol.TemporaryBinding) = cat(sig, bytes(tb.Index), bytes(tb.Value))
pred promiseok(pk seq, tb *protocol.TemporaryBinding, ap *merkletree.AuthenticationPath, s *protocol.DirSTR, haskey bool, key seq) = tb != nil && edver(pk, tbser(bytes(s.Signature), tb), bytes(tb.Signature)) && bytes(tb.Index) == bytes(ap.LookupIndex) && (haskey ==> bytes(tb.Value) == key)
pred fulfilled(tb *protocol.TemporaryBinding, ap *merkletree.AuthenticationPath) = bytes(ap.LookupIndex) == bytes(tb.Index) && bytes(ap.Leaf.Value) == bytes(tb.Value)
# an outstanding promise may meet a proof of absence only in the epoch it was issued in
pred pending(pk seq, tb *protocol.TemporaryBinding, s *protocol.DirSTR, ret *protocol.TemporaryBinding) = ret != nil && bytes(ret.Index) == bytes(tb.Index) && bytes(ret.Value) == bytes(tb.Value) && edver(pk, tbser(bytes(s.Signature), tb), bytes(tb.Signature))

fn client.New :: savedSTR, useTBs, signKey
  prop C10
  panics !useTBs
  ensures result != nil && fresh(result) && fresh(result.AudState) && fresh(result.TBs) && fresh(result.Bindings)
  ensures [pins_root_and_key] result.AudState != nil && result.AudState.verifiedSTR == savedSTR && same(result.AudState.signKey, signKey)
  ensures [starts_empty] result.useTBs && result.TBs != nil && result.Bindings != nil && (forall n seq :: {has(result.TBs, n)} !has(result.TBs, n)) && (forall n seq :: {has(result.Bindings, n)} !has(result.Bindings, n))

fn client.verifyAuthPath :: uname, key, ap, str
  prop C10
  requires ap != nil && ap.Leaf != nil && memook(ap) && strok(str)
  modifies ap.proofType
  ensures [evidence_for_the_name] err == nil <==> pathok(content(uname), key != nil, bytes(key), ap, str)
  ensures memook(ap)

fn client.(*ConsistencyChecks).verifyFulfilledPromise :: cc, uname, str, ap
  prop C10
  requires ccok(cc) && ap != nil && ap.Leaf != nil
  ensures [promise_kept] err == nil <==> (has(cc.TBs, content(uname)) ==> fulfilled(cc.TBs[content(uname)], ap))

fn client.(*ConsistencyChecks).verifyPendingPromise :: cc, uname, str, returned
  prop C10
  requires ccok(cc) && strok(str)
  ensures [promise_still_pending] err == nil <==> (has(cc.TBs, content(uname)) ==> pending(bytes(cc.AudState.signKey), cc.TBs[content(uname)], str, returned))

fn client.(*ConsistencyChecks).verifyReturnedPromise :: cc, df, key
  prop C10
  requires ccok(cc) && df != nil && len(df.AP) > 0 && df.AP[0] != nil && len(df.STR) > 0 && strok(df.STR[0])
  ensures [valid_promise] err == nil <==> promiseok(bytes(cc.AudState.signKey), df.TB, df.AP[0], df.STR[0], key != nil, bytes(key))

fn client.(*ConsistencyChecks).verifyRegistration :: cc, msg, uname, key
  prop C10
  requires ccok(cc) && msg != nil && single(msg)
  modifies dpof(msg).AP[0].proofType
  ensures [status_and_evidence] err == nil <==> regok(msg) && pathok(content(uname), key != nil, bytes(key), dpof(msg).AP[0], dpof(msg).STR[0])
  ensures memook(dpof(msg).AP[0])

fn client.(*ConsistencyChecks).verifyKeyLookup :: cc, msg, uname, key
  prop C10
  requires ccok(cc) && msg != nil && single(msg)
  modifies dpof(msg).AP[0].proofType
  ensures [status_and_evidence] err == nil <==> lookok(msg) && pathok(content(uname), key != nil, bytes(key), dpof(msg).AP[0], dpof(msg).STR[0])
  ensures memook(dpof(msg).AP[0])

fn client.(*ConsistencyChecks).checkConsistency :: cc, requestType, msg, uname, key
  prop C10
  requires ccok(cc) && msg != nil && single(msg)
  panics requestType != const("protocol.RegistrationType") && requestType != const("protocol.KeyLookupType")
  modifies dpof(msg).AP[0].proofType
  ensures [by_request_type] err == nil <==> statusok(requestType, msg) && pathok(content(uname), key != nil, bytes(key), dpof(msg).AP[0], dpof(msg).STR[0])
  ensures memook(dpof(msg).AP[0])

fn client.(*ConsistencyChecks).updateSTR :: cc, requestType, msg
  prop C10
  requires ccok(cc) && msg != nil && dpok(msg)
  panics requestType != const("protocol.RegistrationType") && requestType != const("protocol.KeyLookupType")
  modifies cc.AudState.verifiedSTR
  ensures ccok(cc)
  ensures [same_or_successor] err == nil ==> cc.AudState.verifiedSTR == dpof(msg).STR[0] && accepted(bytes(cc.AudState.signKey), old(cc.AudState.verifiedSTR), dpof(msg).STR[0])
  ensures [rejected_root_not_kept] err != nil ==> cc.AudState.verifiedSTR == old(cc.AudState.verifiedSTR)

fn client.(*ConsistencyChecks).updateTBs :: cc, requestType, msg, uname, key
  prop C10
  requires ccok(cc) && msg != nil && single(msg) && statusok(requestType, msg)
  panics requestType != const("protocol.RegistrationType") && requestType != const("protocol.KeyLookupType")
  modifies map(cc.TBs), dpof(msg).AP[0].proofType
  ensures ccok(cc) && memook(dpof(msg).AP[0])
  ensures [inclusion_keeps_promise] err == nil && incl(dpof(msg).AP[0]) ==> (old(has(cc.TBs, content(uname))) ==> fulfilled(old(cc.TBs[content(uname)]), dpof(msg).AP[0])) && !has(cc.TBs, content(uname))
  ensures [absence_needs_promise] err == nil && !incl(dpof(msg).AP[0]) && msg.Error != const("protocol.ReqNameNotFound") ==> promiseok(bytes(cc.AudState.signKey), dpof(msg).TB, dpof(msg).AP[0], dpof(msg).STR[0], key != nil, bytes(key)) && has(cc.TBs, content(uname)) && cc.TBs[content(uname)] == dpof(msg).TB && (old(has(cc.TBs, content(uname))) ==> pending(bytes(cc.AudState.signKey), old(cc.TBs[content(uname)]), dpof(msg).STR[0], dpof(msg).TB))
  ensures [not_found_needs_no_promise] err == nil && msg.Error == const("protocol.ReqNameNotFound") ==> !old(has(cc.TBs, content(uname))) && !has(cc.TBs, content(uname))
  ensures [other_promises_kept] forall n seq :: {has(cc.TBs, n)} n != content(uname) ==> (has(cc.TBs, n) <==> old(has(cc.TBs, n))) && (has(cc.TBs, n) ==> cc.TBs[n] == old(cc.TBs[n]))
  ensures [rejection_changes_nothing] err != nil ==> (forall n seq :: {has(cc.TBs, n)} (has(cc.TBs, n) <==> old(has(cc.TBs, n))) && (has(cc.TBs, n) ==> cc.TBs[n] == old(cc.TBs[n])))

fn client.(*ConsistencyChecks).HandleResponse :: cc, requestType, msg, uname, key
  prop C10 C11
  requires ccok(cc) && msg != nil
  requires knownpayload(msg) || iserr(msg.Error)
  requires dpok(msg) ==> memosok(dpof(msg).AP)
  maypanic requestType != const("protocol.RegistrationType") && requestType != const("protocol.KeyLookupType")
  modifies cc.AudState.verifiedSTR, map(cc.TBs), map(cc.Bindings), each("merkletree.AuthenticationPath.proofType", p, dpok(msg) && (p == dpof(msg).AP[0] || p == dpof(msg).AP[len(dpof(msg).AP)-1]))
  ensures ccok(cc)
  ensures [well_formed] err == nil ==> !iserr(msg.Error) && dpok(msg) && statusok(requestType, msg)
  ensures [root_same_or_successor] err == nil ==> cc.AudState.verifiedSTR == dpof(msg).STR[0] && accepted(bytes(cc.AudState.signKey), old(cc.AudState.verifiedSTR), dpof(msg).STR[0])
  ensures [evidence_for_the_name] err == nil ==> pathok(content(uname), key != nil, bytes(key), dpof(msg).AP[0], dpof(msg).STR[0])
  ensures [absence_needs_promise] err == nil && !incl(dpof(msg).AP[0]) && msg.Error != const("protocol.ReqNameNotFound") ==> promiseok(bytes(cc.AudState.signKey), dpof(msg).TB, dpof(msg).AP[0], dpof(msg).STR[0], key != nil, bytes(key)) && (old(has(cc.TBs, content(uname))) ==> pending(bytes(cc.AudState.signKey), old(cc.TBs[content(uname)]), dpof(msg).STR[0], dpof(msg).TB))
  ensures [inclusion_keeps_promise] err == nil && incl(dpof(msg).AP[0]) ==> (old(has(cc.TBs, content(uname))) ==> fulfilled(old(cc.TBs[content(uname)]), dpof(msg).AP[0]))
  ensures [binds_received_key] err == nil && msg.Error != const("protocol.ReqNameNotFound") ==> has(cc.Bindings, content(uname)) && same(cc.Bindings[content(uname)], if incl(dpof(msg).AP[0]) then dpof(msg).AP[0].Leaf.Value else dpof(msg).TB.Value)
  ensures [not_found_breaks_no_promise] err == nil && msg.Error == const("protocol.ReqNameNotFound") ==> !old(has(cc.TBs, content(uname)))
  ensures [binds_only_then] err != nil || msg.Error == const("protocol.ReqNameNotFound") ==> (forall n seq :: {has(cc.Bindings, n)} (has(cc.Bindings, n) <==> old(has(cc.Bindings, n))) && (has(cc.Bindings, n) ==> same(cc.Bindings[n], old(cc.Bindings[n]))))
  ensures [other_bindings_kept] forall n seq :: {has(cc.Bindings, n)} n != content(uname) ==> (has(cc.Bindings, n) <==> old(has(cc.Bindings, n))) && (has(cc.Bindings, n) ==> same(cc.Bindings[n], old(cc.Bindings[n])))
  ensures [other_promises_kept] forall n seq :: {has(cc.TBs, n)} n != content(uname) ==> (has(cc.TBs, n) <==> old(has(cc.TBs, n))) && (has(cc.TBs, n) ==> cc.TBs[n] == old(cc.TBs[n]))
  ensures [memos_kept] dpok(msg) ==> memook(dpof(msg).AP[0]) && memook(dpof(msg).AP[len(dpof(msg).AP)-1])
  ensures [rejected_root_not_kept] cc.AudState.verifiedSTR == old(cc.AudState.verifiedSTR) || (dpok(msg) && cc.AudState.verifiedSTR == dpof(msg).STR[0] && accepted(bytes(cc.AudState.signKey), old(cc.AudState.verifiedSTR), dpof(msg).STR[0]))

fn client.(*ConsistencyChecks).CheckEquivocation :: cc, msg
  prop C10 C06 C11
  requires ccok(cc) && msg != nil
  requires knownpayload(msg) || iserr(msg.Error)
  ensures [observed_chain_meets_own_view] err == nil ==> srok(msg) && accepted(bytes(cc.AudState.signKey), cc.AudState.verifiedSTR, srof(msg).STR[len(srof(msg).STR)-1]) && (forall i int :: {srof(msg).STR[i]} 1 <= i && i < len(srof(msg).STR) ==> succof(bytes(cc.AudState.signKey), srof(msg).STR[i-1], srof(msg).STR[i]))
