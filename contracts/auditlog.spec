# The auditor's log (C07)

pred bare(r *protocol.Response, e int) = r != nil && r.Error == e && r.DirectoryResponse == nil

# a history holds exactly one root for every epoch up to the verified one
pred snapsok(h *auditlog.directoryHistory) = forall e uint64 :: {has(h.snapshots, e)} (has(h.snapshots, e) <==> e <= h.AudState.verifiedSTR.Epoch) && (has(h.snapshots, e) ==> strok(h.snapshots[e]) && h.snapshots[e].Epoch == e)
pred histok(h *auditlog.directoryHistory) = h != nil && audok(h.AudState) && h.snapshots != nil && snapsok(h) && h.snapshots[h.AudState.verifiedSTR.Epoch] == h.AudState.verifiedSTR
# epochs count snapshots: none is ever near the end of the 64-bit range
pred epochsmall(s *protocol.DirSTR) = s.Epoch < 9223372036854775808
pred consecutive(snaps []*protocol.DirSTR) = forall i int :: {snaps[i]} 0 <= i && i < len(snaps) ==> strok(snaps[i]) && (i > 0 ==> snaps[i].Epoch == (snaps[i-1].Epoch + 1) % 18446744073709551616)

fn auditlog.(*directoryHistory).updateVerifiedSTR :: h, newVerified
  prop C07
  requires h != nil && h.AudState != nil && h.snapshots != nil && strok(newVerified)
  modifies h.AudState.verifiedSTR, map(h.snapshots)
  ensures [verified_and_recorded] h.AudState.verifiedSTR == newVerified && has(h.snapshots, newVerified.Epoch) && h.snapshots[newVerified.Epoch] == newVerified
  ensures [others_kept] forall e uint64 :: {has(h.snapshots, e)} e != newVerified.Epoch ==> (has(h.snapshots, e) <==> old(has(h.snapshots, e))) && h.snapshots[e] == old(h.snapshots[e])

fn auditlog.newDirectoryHistory :: addr, signKey, initSTR
  prop C07
  requires strok(initSTR) && initSTR.Epoch == 0 && len(signKey) == 32
  ensures [starts_at_the_initial_root] fresh(result) && histok(result) && result.AudState.verifiedSTR == initSTR && same(result.AudState.signKey, signKey)
  ensures fresh(result.AudState) && fresh(result.snapshots)

fn auditlog.(*directoryHistory).insertRange :: h, snaps
  prop C07
  requires histok(h) && epochsmall(h.AudState.verifiedSTR) && consecutive(snaps)
  requires len(snaps) > 0 ==> snaps[0].Epoch == h.AudState.verifiedSTR.Epoch || snaps[0].Epoch == h.AudState.verifiedSTR.Epoch + 1
  modifies h.AudState.verifiedSTR, map(h.snapshots)
  ensures histok(h)
  ensures [verified_is_last] h.AudState.verifiedSTR == (if len(snaps) == 0 then old(h.AudState.verifiedSTR) else snaps[len(snaps)-1])
  ensures [each_recorded] forall i int :: {snaps[i]} 0 <= i && i < len(snaps) ==> snaps[i].Epoch == snaps[0].Epoch + i && h.snapshots[snaps[i].Epoch] == snaps[i]
  ensures [earlier_kept] forall e uint64 :: {has(h.snapshots, e)} old(has(h.snapshots, e)) && (len(snaps) == 0 || e != snaps[0].Epoch) ==> h.snapshots[e] == old(h.snapshots[e])
  loop [i int] histok(h) && h.AudState.verifiedSTR == (if i == 0 then old(h.AudState.verifiedSTR) else snaps[i-1])
  loop [i int] h.AudState.verifiedSTR.Epoch <= old(h.AudState.verifiedSTR.Epoch) + i
  loop [i int] forall j int :: {snaps[j]} 0 <= j && j < i ==> snaps[j].Epoch == snaps[0].Epoch + j && h.snapshots[snaps[j].Epoch] == snaps[j]
  loop [i int] forall e uint64 :: {has(h.snapshots, e)} old(has(h.snapshots, e)) && (i == 0 || e != snaps[0].Epoch) ==> h.snapshots[e] == old(h.snapshots[e])

fn auditlog.(*directoryHistory).Audit :: h, msg
  prop C07 C11
  requires histok(h) && epochsmall(h.AudState.verifiedSTR) && msg != nil
  requires knownpayload(msg) || iserr(msg.Error)
  modifies h.AudState.verifiedSTR, map(h.snapshots)
  ensures histok(h)
  ensures [appends_only_audited_roots] err == nil ==> srok(msg) && goodrange(bytes(h.AudState.signKey), old(h.AudState.verifiedSTR), srof(msg).STR) && h.AudState.verifiedSTR == srof(msg).STR[len(srof(msg).STR)-1]
  ensures [each_recorded] err == nil ==> (let s = srof(msg).STR in forall i int :: {s[i]} 0 <= i && i < len(s) ==> h.snapshots[s[i].Epoch] == s[i])
  ensures [earlier_kept] forall e uint64 :: {has(h.snapshots, e)} old(has(h.snapshots, e)) ==> h.snapshots[e] == old(h.snapshots[e]) || (err == nil && e == srof(msg).STR[0].Epoch && h.snapshots[e] == srof(msg).STR[0] && streq(old(h.AudState.verifiedSTR), h.snapshots[e]))
  ensures [rejection_changes_nothing] err != nil ==> h.AudState.verifiedSTR == old(h.AudState.verifiedSTR) && (forall e uint64 :: {has(h.snapshots, e)} (has(h.snapshots, e) <==> old(has(h.snapshots, e))) && h.snapshots[e] == old(h.snapshots[e]))

fn auditlog.New
  prop C07
  ensures result != nil && fresh(result)
  ensures [empty] forall k [32]byte :: {has(result, k)} !has(result, k)

fn auditlog.ConiksAuditLog.set :: l, dirInitHash, dirHistory
  prop C07
  requires l != nil
  modifies map(l)
  ensures has(l, dirInitHash) && l[dirInitHash] == dirHistory
  ensures [others_kept] forall k [32]byte :: {has(l, k)} k != dirInitHash ==> (has(l, k) <==> old(has(l, k))) && l[k] == old(l[k])

fn auditlog.ConiksAuditLog.get :: l, dirInitHash
  prop C07
  ensures ret1 <==> has(l, dirInitHash)
  ensures ret1 ==> ret0 == l[dirInitHash]

pred logok(l auditlog.ConiksAuditLog) = l != nil && (forall k [32]byte :: {l[k]} has(l, k) ==> histok(l[k]) && epochsmall(l[k].AudState.verifiedSTR))

fn auditlog.ConiksAuditLog.InitHistory :: l, addr, signKey, snaps
  prop C07 C11
  requires l != nil && len(signKey) == 32
  requires len(snaps) > 0 && snaps[0] != nil ==> consecutive(snaps)
  modifies map(l)
  ensures [only_from_an_initial_root] err == nil ==> len(snaps) > 0 && strok(snaps[0]) && snaps[0].Epoch == 0
  ensures [under_the_hash_of_that_root] err == nil ==> (exists k [32]byte :: content(k) == digest(bytes(snaps[0].Signature)) && !old(has(l, k)) && has(l, k) && histok(l[k]) && same(l[k].AudState.signKey, signKey) && l[k].AudState.verifiedSTR == snaps[len(snaps)-1])
  ensures [existing_never_replaced] forall k [32]byte :: {has(l, k)} old(has(l, k)) ==> has(l, k) && l[k] == old(l[k])
  ensures [adds_at_most_that_one] forall k [32]byte :: {has(l, k)} has(l, k) && !old(has(l, k)) ==> err == nil && content(k) == digest(bytes(snaps[0].Signature))

fn auditlog.ConiksAuditLog.GetObservedSTRs :: l, req
  prop C07 C11
  requires logok(l) && req != nil
  ensures [unknown_directory] !has(l, req.DirInitSTRHash) ==> bare(result, const("protocol.ReqUnknownDirectory"))
  ensures [bad_range] has(l, req.DirInitSTRHash) && (req.EndEpoch > l[req.DirInitSTRHash].AudState.verifiedSTR.Epoch || req.StartEpoch > req.EndEpoch) ==> bare(result, const("protocol.ErrMalformedMessage"))
  ensures [exactly_the_recorded_roots] has(l, req.DirInitSTRHash) && req.EndEpoch <= l[req.DirInitSTRHash].AudState.verifiedSTR.Epoch && req.StartEpoch <= req.EndEpoch ==> result != nil && result.Error == const("protocol.ReqSuccess") && is(result.DirectoryResponse, "*protocol.STRHistoryRange") && srof(result) != nil && len(srof(result).STR) == req.EndEpoch - req.StartEpoch + 1 && (let s = srof(result).STR in forall i int :: {s[i]} 0 <= i && i < len(s) ==> s[i] == l[req.DirInitSTRHash].snapshots[req.StartEpoch + i])
  loop [ep uint64, strs []*protocol.DirSTR] req.StartEpoch <= ep && ep <= req.EndEpoch + 1 && len(strs) == ep - req.StartEpoch && (len(strs) > 0 ==> fresh(strs)) && (forall i int :: {strs[i]} 0 <= i && i < len(strs) ==> strs[i] == l[req.DirInitSTRHash].snapshots[req.StartEpoch + i])
