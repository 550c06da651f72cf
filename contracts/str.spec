# Signed tree roots (C06, C07, C12)

# what a policy contributes to the signed bytes
pred polser(p *protocol.Policies) = cat(content(p.Version), content(p.HashID), bytes(p.VrfPublicKey), le64(p.EpochDeadline))
pred polok(a merkletree.AssocData) = is(a, "*protocol.Policies") && as(a, "*protocol.Policies") != nil
pred adser(a merkletree.AssocData) = polser(as(a, "*protocol.Policies"))

# the signed bytes of a tree root without its associated data
pred strpre(s *merkletree.SignedTreeRoot) = cat(le64(s.Epoch), if s.Epoch > 0 then le64(s.PreviousEpoch) else lit(), bytes(s.TreeHash), bytes(s.PreviousSTRHash))
pred strser(s *merkletree.SignedTreeRoot) = cat(strpre(s), adser(s.Ad))

fn protocol.NewPolicies :: dl, vk
  prop C05
  ensures result != nil && fresh(result)
  ensures [records_deadline_and_vrf_key] result.EpochDeadline == dl && bytes(result.VrfPublicKey) == bytes(vk) && content(result.Version) == const("protocol.Version") && content(result.HashID) == const("crypto.HashID")

fn protocol.(*Policies).Serialize :: p
  prop C05 C06
  requires p != nil
  ensures [covers_every_policy_field] bytes(result) == polser(p)

fn protocol.GetPolicies :: str
  prop C05
  requires str != nil
  requires is(str.Ad, "*protocol.Policies")
  ensures result == as(str.Ad, "*protocol.Policies")

fn merkletree.(*SignedTreeRoot).SerializeInternal :: str
  prop C05 C06
  requires str != nil
  ensures [covers_epochs_and_hashes] bytes(result) == strpre(str)
  ensures fresh(result) && len(result) >= 8

fn merkletree.(*SignedTreeRoot).Serialize :: str
  prop C05
  requires str != nil && polok(str.Ad)
  ensures [covers_associated_data] bytes(result) == strser(str)

fn merkletree.NewSTR :: key, ad, m, epoch, prevHash
  prop C05
  requires len(key) == 64 && m != nil && polok(ad)
  ensures result != nil && fresh(result)
  ensures [epoch_numbers] result.Epoch == epoch && result.PreviousEpoch == (if epoch == 0 then 0 else epoch - 1)
  ensures [tree_hash] same(result.TreeHash, m.hash)
  ensures result.tree == m
  ensures [chain_link] same(result.PreviousSTRHash, prevHash)
  ensures result.Ad == ad
  ensures [signature_covers_everything] bytes(result.Signature) == edsig(bytes(key), strser(result))
  ensures fresh(result.Signature) && len(result.Signature) == 64

fn merkletree.(*SignedTreeRoot).VerifyHashChain :: str, saved
  prop C06
  requires str != nil && saved != nil
  ensures [consecutive_and_linked] result <==> (str.PreviousEpoch == saved.Epoch && str.Epoch == (saved.Epoch + 1) % 18446744073709551616 && bytes(str.PreviousSTRHash) == digest(bytes(saved.Signature)))

# --- the directory's signed tree root with its policies ---
pred dirser(s *protocol.DirSTR) = cat(strpre(s.SignedTreeRoot), polser(s.Policies))

fn protocol.NewDirSTR :: str
  prop C05 C09
  requires str != nil && polok(str.Ad)
  ensures result != nil && fresh(result)
  ensures result.SignedTreeRoot == str
  ensures result.Policies == as(str.Ad, "*protocol.Policies")

fn protocol.(*DirSTR).Serialize :: str
  prop C06 C05
  requires str != nil && str.SignedTreeRoot != nil && str.Policies != nil
  ensures [covers_epochs_hashes_and_policies] bytes(result) == dirser(str)

fn protocol.(*DirSTR).VerifyHashChain :: str, saved
  prop C06
  requires str != nil && saved != nil && str.SignedTreeRoot != nil && saved.SignedTreeRoot != nil
  ensures [consecutive_and_linked] result <==> (str.PreviousEpoch == saved.Epoch && str.Epoch == (saved.Epoch + 1) % 18446744073709551616 && bytes(str.PreviousSTRHash) == digest(bytes(saved.Signature)))

fn protocol.(*TemporaryBinding).Serialize :: tb, strSig
  prop C08 C10
  requires tb != nil
  ensures [covers_signature_index_value] bytes(result) == cat(bytes(strSig), bytes(tb.Index), bytes(tb.Value))
