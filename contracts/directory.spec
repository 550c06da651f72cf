# The CONIKS directory (C05, C08, C09, C20)

# the operations a directory performed: how many, which one last, on what request, with what answer
ghost directory.ConiksDirectory.ops int
ghost directory.ConiksDirectory.op int
ghost directory.ConiksDirectory.opreq int
ghost directory.ConiksDirectory.opresp *protocol.Response

pred nameidx(d *directory.ConiksDirectory, n seq) = vrfidx(bytes(d.pad.vrfKey), n)
# a promise: signed over the latest root's signature, the private index and the key
pred promise(d *directory.ConiksDirectory, tb *protocol.TemporaryBinding, n seq, key seq) = tb != nil && bytes(tb.Index) == nameidx(d, n) && bytes(tb.Value) == key && bytes(tb.Signature) == edsig(bytes(d.pad.signKey), cat(bytes(d.pad.latestSTR.Signature), nameidx(d, n), key))
# each promise is for a binding of the coming snapshot
pred tbsok(d *directory.ConiksDirectory) = forall n seq :: {has(d.tbs, n)} {d.tbs[n]} has(d.tbs, n) ==> promise(d, d.tbs[n], n, bytes(d.tbs[n].Value)) && d.pad.tree.bound[nameidx(d, n)] && (d.pad.tree.kname[nameidx(d, n)] == n ==> d.pad.tree.kval[nameidx(d, n)] == bytes(d.tbs[n].Value))
# what is published stays bound, and what is bound but not yet published has been promised
pred treegrows(d *directory.ConiksDirectory) = forall i seq :: {d.pad.tree.bound[i]} {d.pad.latestSTR.tree.bound[i]} {d.pad.tree.kval[i]} (d.pad.latestSTR.tree.bound[i] ==> d.pad.tree.bound[i] && d.pad.tree.kval[i] == d.pad.latestSTR.tree.kval[i] && d.pad.tree.kname[i] == d.pad.latestSTR.tree.kname[i]) && (d.pad.tree.bound[i] && !d.pad.latestSTR.tree.bound[i] ==> has(d.tbs, d.pad.tree.kname[i]) && nameidx(d, d.pad.tree.kname[i]) == i)
pred dirbase(d *directory.ConiksDirectory) = d != nil && padok(d.pad) && d.useTBs && d.tbs != nil && d.policies != nil
pred dirok(d *directory.ConiksDirectory) = dirbase(d) && tbsok(d) && treegrows(d)

# the root of an epoch with its policies
pred rootof(s *protocol.DirSTR, r *merkletree.SignedTreeRoot) = s != nil && s.SignedTreeRoot == r && s.Policies == as(r.Ad, "*protocol.Policies")
pred rootat(d *directory.ConiksDirectory, e int) = if e >= d.pad.latestSTR.Epoch then d.pad.latestSTR else d.pad.snapshots[e]
pred retained(d *directory.ConiksDirectory, e int) = d.pad.latestSTR.Epoch < e + len(d.pad.loadedEpochs)
# a proof for the name from the tree of a root
pred proofof(d *directory.ConiksDirectory, ap *merkletree.AuthenticationPath, n seq, r *merkletree.SignedTreeRoot) = pathfor(ap, r.tree, nameidx(d, n)) && (vrfkeyok(bytes(d.pad.vrfKey)) && vrfname(n) ==> vrfver(sub(bytes(d.pad.vrfKey), 32, 64), n, nameidx(d, n), bytes(ap.VrfProof)))
pred published(d *directory.ConiksDirectory, n seq) = d.pad.latestSTR.tree.bound[nameidx(d, n)]
# a response with one proof from the latest snapshot, its root, a promise and a status
pred answer(d *directory.ConiksDirectory, r *protocol.Response, n seq, tb *protocol.TemporaryBinding, e protocol.ErrorCode) = r.Error == e && is(r.DirectoryResponse, "*protocol.DirectoryProof") && dpof(r) != nil && len(dpof(r).AP) == 1 && proofof(d, dpof(r).AP[0], n, d.pad.latestSTR) && len(dpof(r).STR) == 1 && rootof(dpof(r).STR[0], d.pad.latestSTR) && dpof(r).TB == tb

fn directory.New :: epDeadline, vrfKey, signKey, dirSize, useTBs
  prop C05 C08 C20
  requires len(signKey) == 64 && len(vrfKey) == 64 && dirSize <= 281474976710656
  maypanic true
  ensures dirok(result) && fresh(result)
  ensures [starts_empty_at_epoch_0] result.pad.latestSTR.Epoch == 0 && (forall n seq :: {has(result.tbs, n)} !has(result.tbs, n)) && (forall i seq :: {result.pad.latestSTR.tree.bound[i]} !result.pad.latestSTR.tree.bound[i])
  ensures [keys_it_was_given] same(result.pad.signKey, signKey) && same(result.pad.vrfKey, vrfKey)
  ensures [announces_its_vrf_key] bytes(result.policies.VrfPublicKey) == sub(bytes(vrfKey), 32, 64) && result.policies.EpochDeadline == epDeadline && as(result.pad.latestSTR.Ad, "*protocol.Policies") == result.policies

fn directory.(*ConiksDirectory).Update :: d
  prop C05 C08 C04
  lockinv dirok(d)
  limit d.pad.latestSTR.Epoch < 18446744073709551615
  modifies d.pad.latestSTR, d.pad.ad, d.pad.tree.hash, d.pad.tree.clean, d.pad.loadedEpochs, elems(d.pad.loadedEpochs), map(d.pad.snapshots), map(d.tbs), d.tbs
  loop forall i seq :: {d.pad.latestSTR.tree.bound[i]} d.pad.latestSTR.tree.bound[i] <==> d.pad.tree.bound[i]
  ensures dirok(d)
  ensures [one_new_root] d.pad.latestSTR.Epoch == old(d.pad.latestSTR.Epoch) + 1 && linked(d.pad.latestSTR, old(d.pad.latestSTR))
  ensures [publishes_what_was_bound] samebindings(d.pad.latestSTR.tree, d.pad.tree)
  ensures [clears_all_promises] forall n seq :: {has(d.tbs, n)} !has(d.tbs, n)
  ensures [policies_from_the_next_root_on] d.pad.latestSTR.Ad == old(d.pad.ad) && is(d.pad.ad, "*protocol.Policies") && as(d.pad.ad, "*protocol.Policies") == d.policies
  ensures [retained_snapshots_unchanged] forall e uint64 :: {has(d.pad.snapshots, e)} has(d.pad.snapshots, e) && e <= old(d.pad.latestSTR.Epoch) ==> old(has(d.pad.snapshots, e)) && d.pad.snapshots[e] == old(d.pad.snapshots[e])

fn directory.(*ConiksDirectory).SetPolicies :: d, epDeadline
  prop C05
  requires dirok(d)
  modifies d.policies
  ensures dirok(d)
  ensures [deadline_changed_vrf_key_kept] d.policies.EpochDeadline == epDeadline && bytes(d.policies.VrfPublicKey) == old(bytes(d.policies.VrfPublicKey))

fn directory.(*ConiksDirectory).EpochDeadline :: d
  prop C05
  requires dirok(d)
  ensures [of_the_latest_root] result == as(d.pad.latestSTR.Ad, "*protocol.Policies").EpochDeadline

fn directory.(*ConiksDirectory).LatestSTR :: d
  prop C11 C05 C08 C09
  requires d != nil && padok(d.pad)
  ensures rootof(result, d.pad.latestSTR) && fresh(result)

fn directory.(*ConiksDirectory).NewTB :: d, name, key
  prop C11 C08 C20
  requires d != nil && padok(d.pad)
  ensures [promise] fresh(result) && promise(d, result, content(name), bytes(key))
  ensures same(result.Value, key)

fn directory.(*ConiksDirectory).Register :: d, req
  prop C11 C08 C20
  requires dirok(d) && req != nil
  modifies d.ops, d.op, d.opreq, d.opresp, d.pad.tree.bound, d.pad.tree.kname, d.pad.tree.kval, d.pad.tree.clean, map(d.tbs), d.tbs
  ensures result != nil && dirok(d)
  ensures [malformed] len(req.Username) == 0 || len(req.Key) == 0 ==> bare(result, const("protocol.ErrMalformedMessage"))
  ensures [status] len(req.Username) > 0 && len(req.Key) > 0 ==> (if published(d, content(req.Username)) || old(has(d.tbs, content(req.Username))) then result.Error == const("protocol.ReqNameExisted") else result.Error == const("protocol.ReqSuccess") || bare(result, const("protocol.ErrDirectory")))
  ensures [existing] result.Error == const("protocol.ReqNameExisted") ==> answer(d, result, content(req.Username), if published(d, content(req.Username)) then nil else old(d.tbs[content(req.Username)]), const("protocol.ReqNameExisted"))
  ensures [promised] result.Error == const("protocol.ReqSuccess") ==> answer(d, result, content(req.Username), d.tbs[content(req.Username)], const("protocol.ReqSuccess")) && has(d.tbs, content(req.Username)) && promise(d, d.tbs[content(req.Username)], content(req.Username), bytes(req.Key))
  ensures [recorded_for_the_next_epoch] result.Error == const("protocol.ReqSuccess") ==> (let i = nameidx(d, content(req.Username)) in d.pad.tree.bound[i] && d.pad.tree.kname[i] == content(req.Username) && d.pad.tree.kval[i] == bytes(req.Key))
  ensures [other_bindings_kept] forall i seq :: {d.pad.tree.bound[i]} {d.pad.tree.kval[i]} i != nameidx(d, content(req.Username)) || result.Error != const("protocol.ReqSuccess") ==> (d.pad.tree.bound[i] <==> old(d.pad.tree.bound[i])) && d.pad.tree.kname[i] == old(d.pad.tree.kname[i]) && d.pad.tree.kval[i] == old(d.pad.tree.kval[i])
  ensures [other_promises_kept] forall n seq :: {has(d.tbs, n)} {d.tbs[n]} n != content(req.Username) || result.Error != const("protocol.ReqSuccess") ==> (has(d.tbs, n) <==> old(has(d.tbs, n))) && d.tbs[n] == old(d.tbs[n])
  atexit d.ops := d.ops + 1
  atexit d.op := const("protocol.RegistrationType")
  atexit d.opreq := toint(req)
  atexit d.opresp := result
  ensures [performed] d.ops == old(d.ops) + 1 && d.op == const("protocol.RegistrationType") && d.opreq == toint(req) && d.opresp == result

fn directory.(*ConiksDirectory).KeyLookup :: d, req
  prop C11 C08 C20
  requires dirok(d) && req != nil
  modifies d.ops, d.op, d.opreq, d.opresp
  ensures result != nil
  ensures [malformed] len(req.Username) == 0 ==> bare(result, const("protocol.ErrMalformedMessage"))
  ensures [published] len(req.Username) > 0 && published(d, content(req.Username)) ==> answer(d, result, content(req.Username), nil, const("protocol.ReqSuccess"))
  ensures [pending] len(req.Username) > 0 && !published(d, content(req.Username)) && has(d.tbs, content(req.Username)) ==> answer(d, result, content(req.Username), d.tbs[content(req.Username)], const("protocol.ReqSuccess"))
  ensures [absent] len(req.Username) > 0 && !published(d, content(req.Username)) && !has(d.tbs, content(req.Username)) ==> answer(d, result, content(req.Username), nil, const("protocol.ReqNameNotFound"))
  atexit d.ops := d.ops + 1
  atexit d.op := const("protocol.KeyLookupType")
  atexit d.opreq := toint(req)
  atexit d.opresp := result
  ensures [performed] d.ops == old(d.ops) + 1 && d.op == const("protocol.KeyLookupType") && d.opreq == toint(req) && d.opresp == result

# the roots of the epochs from a on
pred rootsfrom(d *directory.ConiksDirectory, strs []*protocol.DirSTR, a int) = forall j int :: {strs[j]} 0 <= j && j < len(strs) ==> rootof(strs[j], rootat(d, a + j))

fn directory.(*ConiksDirectory).KeyLookupInEpoch :: d, req
  prop C11 C09 C20
  requires d != nil && padok(d.pad) && req != nil && d.pad.latestSTR.Epoch < 18446744073709551615
  modifies d.ops, d.op, d.opreq, d.opresp
  loop [ep uint64, strs []*protocol.DirSTR] req.Epoch <= ep
  loop [ep uint64, strs []*protocol.DirSTR] ep <= d.pad.latestSTR.Epoch + 1
  loop [ep uint64, strs []*protocol.DirSTR] len(strs) == ep - req.Epoch
  loop [ep uint64, strs []*protocol.DirSTR] (len(strs) > 0 ==> fresh(strs))
  loop [ep uint64, strs []*protocol.DirSTR] rootsfrom(d, strs, req.Epoch)
  ensures result != nil
  ensures [malformed] len(req.Username) == 0 || req.Epoch > d.pad.latestSTR.Epoch ==> bare(result, const("protocol.ErrMalformedMessage"))
  ensures [evicted] len(req.Username) > 0 && req.Epoch <= d.pad.latestSTR.Epoch && !retained(d, req.Epoch) ==> bare(result, const("protocol.ErrDirectory"))
  ensures [status_and_proof] len(req.Username) > 0 && req.Epoch <= d.pad.latestSTR.Epoch && retained(d, req.Epoch) ==> result.Error == (if rootat(d, req.Epoch).tree.bound[nameidx(d, content(req.Username))] then const("protocol.ReqSuccess") else const("protocol.ReqNameNotFound")) && is(result.DirectoryResponse, "*protocol.DirectoryProof") && dpof(result) != nil && len(dpof(result).AP) == 1 && proofof(d, dpof(result).AP[0], content(req.Username), rootat(d, req.Epoch)) && dpof(result).TB == nil
  ensures [roots_to_the_latest] len(req.Username) > 0 && req.Epoch <= d.pad.latestSTR.Epoch && retained(d, req.Epoch) ==> len(dpof(result).STR) == d.pad.latestSTR.Epoch - req.Epoch + 1 && rootsfrom(d, dpof(result).STR, req.Epoch)
  atexit d.ops := d.ops + 1
  atexit d.op := const("protocol.KeyLookupInEpochType")
  atexit d.opreq := toint(req)
  atexit d.opresp := result
  ensures [performed] d.ops == old(d.ops) + 1 && d.op == const("protocol.KeyLookupInEpochType") && d.opreq == toint(req) && d.opresp == result

pred clip(d *directory.ConiksDirectory, e int) = if e > d.pad.latestSTR.Epoch then d.pad.latestSTR.Epoch else e
pred proofsfrom(d *directory.ConiksDirectory, aps []*merkletree.AuthenticationPath, n seq, a int) = forall j int :: {aps[j]} 0 <= j && j < len(aps) ==> proofof(d, aps[j], n, rootat(d, a + j))

fn directory.(*ConiksDirectory).Monitor :: d, req
  prop C11 C09 C20
  requires d != nil && padok(d.pad) && req != nil && d.pad.latestSTR.Epoch < 18446744073709551615
  modifies d.ops, d.op, d.opreq, d.opresp
  loop [ep uint64, strs []*protocol.DirSTR, aps []*merkletree.AuthenticationPath] req.StartEpoch <= ep
  loop [ep uint64, strs []*protocol.DirSTR, aps []*merkletree.AuthenticationPath] ep <= clip(d, req.EndEpoch) + 1
  loop [ep uint64, strs []*protocol.DirSTR, aps []*merkletree.AuthenticationPath] len(strs) == ep - req.StartEpoch
  loop [ep uint64, strs []*protocol.DirSTR, aps []*merkletree.AuthenticationPath] len(aps) == ep - req.StartEpoch
  loop [ep uint64, strs []*protocol.DirSTR, aps []*merkletree.AuthenticationPath] (len(strs) > 0 ==> fresh(strs) && fresh(aps) && retained(d, req.StartEpoch))
  loop [ep uint64, strs []*protocol.DirSTR, aps []*merkletree.AuthenticationPath] rootsfrom(d, strs, req.StartEpoch)
  loop [ep uint64, strs []*protocol.DirSTR, aps []*merkletree.AuthenticationPath] proofsfrom(d, aps, content(req.Username), req.StartEpoch)
  ensures result != nil
  ensures [malformed] len(req.Username) == 0 || req.StartEpoch > d.pad.latestSTR.Epoch || req.StartEpoch > req.EndEpoch ==> bare(result, const("protocol.ErrMalformedMessage"))
  ensures [evicted] len(req.Username) > 0 && req.StartEpoch <= d.pad.latestSTR.Epoch && req.StartEpoch <= req.EndEpoch && !retained(d, req.StartEpoch) ==> bare(result, const("protocol.ErrDirectory"))
  ensures [clipped_range] len(req.Username) > 0 && req.StartEpoch <= d.pad.latestSTR.Epoch && req.StartEpoch <= req.EndEpoch && retained(d, req.StartEpoch) ==> result.Error == const("protocol.ReqSuccess") && is(result.DirectoryResponse, "*protocol.DirectoryProof") && dpof(result) != nil && len(dpof(result).STR) == clip(d, req.EndEpoch) - req.StartEpoch + 1 && len(dpof(result).AP) == len(dpof(result).STR) && dpof(result).TB == nil
  ensures [each_epochs_root] len(req.Username) > 0 && req.StartEpoch <= d.pad.latestSTR.Epoch && req.StartEpoch <= req.EndEpoch && retained(d, req.StartEpoch) ==> rootsfrom(d, dpof(result).STR, req.StartEpoch)
  ensures [each_epochs_proof] len(req.Username) > 0 && req.StartEpoch <= d.pad.latestSTR.Epoch && req.StartEpoch <= req.EndEpoch && retained(d, req.StartEpoch) ==> proofsfrom(d, dpof(result).AP, content(req.Username), req.StartEpoch)
  atexit d.ops := d.ops + 1
  atexit d.op := const("protocol.MonitoringType")
  atexit d.opreq := toint(req)
  atexit d.opresp := result
  ensures [performed] d.ops == old(d.ops) + 1 && d.op == const("protocol.MonitoringType") && d.opreq == toint(req) && d.opresp == result

fn directory.(*ConiksDirectory).GetSTRHistory :: d, req
  prop C11 C09
  requires d != nil && padok(d.pad) && req != nil && d.pad.latestSTR.Epoch < 18446744073709551615
  loop [ep uint64, strs []*protocol.DirSTR] req.StartEpoch <= ep
  loop [ep uint64, strs []*protocol.DirSTR] ep <= clip(d, req.EndEpoch) + 1
  loop [ep uint64, strs []*protocol.DirSTR] len(strs) == ep - req.StartEpoch
  loop [ep uint64, strs []*protocol.DirSTR] (len(strs) > 0 ==> fresh(strs) && retained(d, req.StartEpoch))
  loop [ep uint64, strs []*protocol.DirSTR] rootsfrom(d, strs, req.StartEpoch)
  ensures result != nil
  ensures [malformed] req.StartEpoch > d.pad.latestSTR.Epoch || req.StartEpoch > req.EndEpoch ==> bare(result, const("protocol.ErrMalformedMessage"))
  ensures [evicted] req.StartEpoch <= d.pad.latestSTR.Epoch && req.StartEpoch <= req.EndEpoch && !retained(d, req.StartEpoch) ==> bare(result, const("protocol.ErrDirectory"))
  ensures [clipped_range] req.StartEpoch <= d.pad.latestSTR.Epoch && req.StartEpoch <= req.EndEpoch && retained(d, req.StartEpoch) ==> result.Error == const("protocol.ReqSuccess") && is(result.DirectoryResponse, "*protocol.STRHistoryRange") && srof(result) != nil && len(srof(result).STR) == clip(d, req.EndEpoch) - req.StartEpoch + 1 && rootsfrom(d, srof(result).STR, req.StartEpoch)
