# Persistent authenticated dictionary (C01, C02, C04, C05, C20)

# a snapshot: signed root of epoch e over its own tree
pred snapok(pad *merkletree.PAD, s *merkletree.SignedTreeRoot, e int) = s != nil && s.Epoch == e && cleantree(s.tree) && s.tree != pad.tree && same(s.TreeHash, s.tree.hash) && polok(s.Ad) && bytes(s.Signature) == edsig(bytes(pad.signKey), strser(s))
pred linked(s *merkletree.SignedTreeRoot, p *merkletree.SignedTreeRoot) = s.PreviousEpoch == p.Epoch && s.Epoch == p.Epoch + 1 && bytes(s.PreviousSTRHash) == digest(bytes(p.Signature))
# the retained snapshots are those of the last epochs without a gap, and each names its predecessor
pred winlen(pad *merkletree.PAD) = len(pad.loadedEpochs) >= 1 && len(pad.loadedEpochs) <= pad.latestSTR.Epoch + 1
pred winepochs(pad *merkletree.PAD) = forall i int :: {pad.loadedEpochs[i]} 0 <= i && i < len(pad.loadedEpochs) ==> pad.loadedEpochs[i] == pad.latestSTR.Epoch - len(pad.loadedEpochs) + 1 + i
pred winhas(pad *merkletree.PAD) = forall e uint64 :: {has(pad.snapshots, e)} has(pad.snapshots, e) <==> pad.latestSTR.Epoch - len(pad.loadedEpochs) < e && e <= pad.latestSTR.Epoch
pred winsnaps(pad *merkletree.PAD) = (forall e uint64 :: {pad.snapshots[e]} pad.latestSTR.Epoch - len(pad.loadedEpochs) < e && e <= pad.latestSTR.Epoch ==> snapok(pad, pad.snapshots[e], e)) && pad.snapshots[pad.latestSTR.Epoch] == pad.latestSTR
pred winlinks(pad *merkletree.PAD) = forall e uint64, f uint64 :: {pad.snapshots[e], pad.snapshots[f]} f == e + 1 && pad.latestSTR.Epoch - len(pad.loadedEpochs) < e && f <= pad.latestSTR.Epoch ==> linked(pad.snapshots[f], pad.snapshots[e])
pred winok(pad *merkletree.PAD) = winlen(pad) && winepochs(pad) && winhas(pad) && winsnaps(pad) && winlinks(pad)
pred padbase(pad *merkletree.PAD) = pad != nil && len(pad.signKey) == 64 && len(pad.vrfKey) == 64 && treeok(pad.tree) && polok(pad.ad) && pad.snapshots != nil
pred padok(pad *merkletree.PAD) = padbase(pad) && pad.latestSTR != nil && winok(pad)

fn merkletree.(*PAD).GetSTR :: pad, epoch
  prop C11 C04 C09
  requires padok(pad)
  ensures [that_epoch_or_none] if epoch >= pad.latestSTR.Epoch then result == pad.latestSTR else if epoch > pad.latestSTR.Epoch - len(pad.loadedEpochs) then result == pad.snapshots[epoch] else result == nil
  ensures [snapshot] result != nil ==> result.Epoch <= pad.latestSTR.Epoch && snapok(pad, result, if epoch >= pad.latestSTR.Epoch then pad.latestSTR.Epoch else epoch)

fn merkletree.(*PAD).LatestSTR :: pad
  prop C11 C05 C08
  requires pad != nil
  ensures result == pad.latestSTR

fn merkletree.(*PAD).computePrivateIndex :: pad, key, vrfKey
  prop C11 C20
  requires len(vrfKey) == 64
  ensures [vrf_output_and_proof] bytes(ret0) == vrfidx(bytes(vrfKey), content(key)) && len(ret0) == 32 && fresh(ret0) && (vrfkeyok(bytes(vrfKey)) && vrfname(content(key)) ==> vrfver(sub(bytes(vrfKey), 32, 64), content(key), bytes(ret0), bytes(ret1)))
  ensures fresh(ret1)

fn merkletree.(*PAD).Index :: pad, key
  prop C11 C20
  requires pad != nil && len(pad.vrfKey) == 64
  ensures [vrf_output] bytes(result) == vrfidx(bytes(pad.vrfKey), content(key)) && len(result) == 32 && fresh(result)

fn merkletree.(*PAD).LookupInEpoch :: pad, key, epoch
  prop C11 C01 C02 C04 C20
  requires padok(pad)
  ensures [not_found_iff_not_retained] err != nil <==> epoch + len(pad.loadedEpochs) <= pad.latestSTR.Epoch
  ensures [not_found] err != nil ==> err == global("merkletree.ErrSTRNotFound") && ret0 == nil
  ensures [from_that_epoch] err == nil ==> (let s = (if epoch >= pad.latestSTR.Epoch then pad.latestSTR else pad.snapshots[epoch]) in pathfor(ret0, s.tree, vrfidx(bytes(pad.vrfKey), content(key))))
  ensures [index_proof] err == nil && vrfkeyok(bytes(pad.vrfKey)) && vrfname(content(key)) ==> vrfver(sub(bytes(pad.vrfKey), 32, 64), content(key), vrfidx(bytes(pad.vrfKey), content(key)), bytes(ret0.VrfProof))
  ensures err == nil ==> fresh(ret0)

fn merkletree.(*PAD).Lookup :: pad, key
  prop C11 C01 C02 C04 C20
  requires padok(pad)
  ensures [never_fails] err == nil && fresh(ret0)
  ensures [from_the_latest] pathfor(ret0, pad.latestSTR.tree, vrfidx(bytes(pad.vrfKey), content(key)))
  ensures [index_proof] vrfkeyok(bytes(pad.vrfKey)) && vrfname(content(key)) ==> vrfver(sub(bytes(pad.vrfKey), 32, 64), content(key), vrfidx(bytes(pad.vrfKey), content(key)), bytes(ret0.VrfProof))

fn merkletree.(*PAD).Set :: pad, key, value
  prop C11 C01 C04 C20
  requires padok(pad)
  modifies pad.tree.bound, pad.tree.kname, pad.tree.kval, pad.tree.clean
  ensures padok(pad)
  ensures [bound_under_the_vrf_index] err == nil ==> (let i = vrfidx(bytes(pad.vrfKey), content(key)) in pad.tree.bound[i] && pad.tree.kname[i] == content(key) && pad.tree.kval[i] == bytes(value))
  ensures [others_kept] forall i seq :: {pad.tree.bound[i]} {pad.tree.kval[i]} i != vrfidx(bytes(pad.vrfKey), content(key)) || err != nil ==> (pad.tree.bound[i] <==> old(pad.tree.bound[i])) && pad.tree.kname[i] == old(pad.tree.kname[i]) && pad.tree.kval[i] == old(pad.tree.kval[i])

fn merkletree.(*PAD).signTreeRoot :: pad, epoch
  prop C05 C04
  requires padbase(pad)
  requires pad.latestSTR == nil ==> epoch == 0
  maypanic pad.latestSTR == nil
  modifies pad.latestSTR, pad.tree.hash, pad.tree.clean
  ensures fresh(pad.latestSTR) && fresh(pad.latestSTR.tree) && snapok(pad, pad.latestSTR, epoch)
  ensures [covers_the_tree_as_it_is] samebindings(pad.latestSTR.tree, pad.tree)
  ensures [policies_in_force] pad.latestSTR.Ad == old(pad.ad)
  ensures [names_predecessor] pad.latestSTR.PreviousEpoch == (if epoch == 0 then 0 else epoch - 1)
  ensures [chained] old(pad.latestSTR) != nil ==> bytes(pad.latestSTR.PreviousSTRHash) == digest(bytes(old(pad.latestSTR.Signature)))
  ensures padbase(pad)

fn merkletree.(*PAD).updateInternal :: pad, ad, epoch
  prop C05 C04
  requires padbase(pad) && (ad == nil || polok(ad))
  requires pad.latestSTR == nil ==> epoch == 0 && len(pad.loadedEpochs) == 0 && (forall e uint64 :: {has(pad.snapshots, e)} !has(pad.snapshots, e))
  requires pad.latestSTR != nil ==> epoch == pad.latestSTR.Epoch + 1
  requires pad.latestSTR != nil ==> winlen(pad)
  requires pad.latestSTR != nil ==> winepochs(pad)
  requires pad.latestSTR != nil ==> winhas(pad)
  requires pad.latestSTR != nil ==> winsnaps(pad)
  requires pad.latestSTR != nil ==> winlinks(pad)
  maypanic pad.latestSTR == nil
  modifies pad.latestSTR, pad.ad, pad.tree.hash, pad.tree.clean, pad.loadedEpochs, elems(pad.loadedEpochs), map(pad.snapshots)
  ensures padok(pad)
  ensures [one_new_root] fresh(pad.latestSTR) && pad.latestSTR.Epoch == epoch && samebindings(pad.latestSTR.tree, pad.tree) && pad.latestSTR.Ad == old(pad.ad)
  ensures [chained] old(pad.latestSTR) != nil ==> bytes(pad.latestSTR.PreviousSTRHash) == digest(bytes(old(pad.latestSTR.Signature)))
  ensures pad.latestSTR.PreviousEpoch == (if epoch == 0 then 0 else epoch - 1)
  ensures [policies_for_the_next] pad.ad == (if ad == nil then old(pad.ad) else ad)
  ensures len(pad.loadedEpochs) == old(len(pad.loadedEpochs)) + 1
  ensures [earlier_kept] forall e uint64 :: {pad.snapshots[e]} e != epoch ==> pad.snapshots[e] == old(pad.snapshots[e])

fn merkletree.NewPAD :: ad, signKey, vrfKey, n
  prop C05 C04
  requires len(signKey) == 64 && len(vrfKey) == 64 && polok(ad) && n <= 281474976710656
  maypanic true
  ensures err == nil ==> fresh(result) && padok(result) && fresh(result.snapshots) && same(result.signKey, signKey) && same(result.vrfKey, vrfKey)
  ensures [first_root_is_epoch_0] err == nil ==> result.latestSTR.Epoch == 0 && result.latestSTR.PreviousEpoch == 0 && result.latestSTR.Ad == ad && result.ad == ad
  ensures [empty] err == nil ==> (forall i seq :: {result.latestSTR.tree.bound[i]} !result.latestSTR.tree.bound[i]) && samebindings(result.latestSTR.tree, result.tree)
  ensures err != nil ==> result == nil

fn merkletree.(*PAD).Update :: pad, ad
  prop C05 C04
  requires padok(pad) && (ad == nil || polok(ad)) && pad.latestSTR.Epoch < 18446744073709551615
  modifies pad.latestSTR, pad.ad, pad.tree.hash, pad.tree.clean, pad.loadedEpochs, elems(pad.loadedEpochs), map(pad.snapshots)
  ensures padok(pad)
  ensures [one_new_root] fresh(pad.latestSTR) && pad.latestSTR.Epoch == old(pad.latestSTR.Epoch) + 1 && linked(pad.latestSTR, old(pad.latestSTR))
  ensures [exactly_the_bindings_set_before] samebindings(pad.latestSTR.tree, pad.tree)
  ensures [policies_in_force_then] pad.latestSTR.Ad == old(pad.ad)
  ensures [policies_from_the_next] pad.ad == (if ad == nil then old(pad.ad) else ad)
  loop [i int] i >= 0 && 2 * i <= len(pad.loadedEpochs) && (i >= 1 ==> i < len(pad.loadedEpochs)) && forall e uint64 :: {has(pad.snapshots, e)} (has(pad.snapshots, e) <==> old(pad.latestSTR.Epoch) - len(pad.loadedEpochs) + i < e && e <= old(pad.latestSTR.Epoch))
  loop [i int] forall e uint64 :: {pad.snapshots[e]} has(pad.snapshots, e) ==> pad.snapshots[e] == old(pad.snapshots[e])
  ensures [retained_snapshots_unchanged] forall e uint64 :: {has(pad.snapshots, e)} has(pad.snapshots, e) && e <= old(pad.latestSTR.Epoch) ==> old(has(pad.snapshots, e)) && pad.snapshots[e] == old(pad.snapshots[e])
