# Auditing (C06): what makes one root an acceptable successor of another

# a root as the wire format has it, with everything the protocol requires
pred strok(s *protocol.DirSTR) = s != nil && s.SignedTreeRoot != nil && s.Policies != nil
# s is the immediate, signed and linked successor of prev
pred succof(pk seq, prev *protocol.DirSTR, s *protocol.DirSTR) = edver(pk, dirser(s), bytes(s.Signature)) && s.PreviousEpoch == prev.Epoch && s.Epoch == (prev.Epoch + 1) % 18446744073709551616 && bytes(s.PreviousSTRHash) == digest(bytes(prev.Signature))
# equal in every field
pred streq(a *protocol.DirSTR, b *protocol.DirSTR) = a.Epoch == b.Epoch && a.PreviousEpoch == b.PreviousEpoch && bytes(a.TreeHash) == bytes(b.TreeHash) && bytes(a.Signature) == bytes(b.Signature) && bytes(a.PreviousSTRHash) == bytes(b.PreviousSTRHash) && content(a.Policies.Version) == content(b.Policies.Version) && content(a.Policies.HashID) == content(b.Policies.HashID) && bytes(a.Policies.VrfPublicKey) == bytes(b.Policies.VrfPublicKey) && a.Policies.EpochDeadline == b.Policies.EpochDeadline
pred audok(a *auditor.AudState) = a != nil && len(a.signKey) == 32 && strok(a.verifiedSTR)
# acceptable against the verified root
pred accepted(pk seq, ver *protocol.DirSTR, s *protocol.DirSTR) = streq(ver, s) || succof(pk, ver, s)

# reflect.DeepEqual on two roots: at least their exported fields are equal;
# it holds of a root and itself
trusted fn reflect.DeepEqual :: x, y
  requires is(x, "*protocol.DirSTR") && is(y, "*protocol.DirSTR")
  requires strok(as(x, "*protocol.DirSTR")) && strok(as(y, "*protocol.DirSTR"))
  ensures result ==> streq(as(x, "*protocol.DirSTR"), as(y, "*protocol.DirSTR"))
  ensures as(x, "*protocol.DirSTR") == as(y, "*protocol.DirSTR") ==> result

fn auditor.New :: signKey, verified
  prop C06
  ensures result != nil && fresh(result)
  ensures [pins_key_and_root] same(result.signKey, signKey) && result.verifiedSTR == verified

fn auditor.(*AudState).Verify :: a, message, sig
  prop C06
  requires a != nil && len(a.signKey) == 32
  ensures [under_pinned_key] result <==> edver(bytes(a.signKey), bytes(message), bytes(sig))

fn auditor.(*AudState).VerifiedSTR :: a
  prop C06
  requires a != nil
  ensures result == a.verifiedSTR

fn auditor.(*AudState).Update :: a, newSTR
  prop C06
  requires a != nil
  modifies a.verifiedSTR
  ensures a.verifiedSTR == newSTR

fn auditor.(*AudState).compareWithVerified :: a, str
  prop C06
  requires audok(a) && strok(str)
  ensures [only_equal_roots] err == nil ==> streq(a.verifiedSTR, str)
  ensures [same_root_accepted] a.verifiedSTR == str ==> err == nil

fn auditor.(*AudState).verifySTRConsistency :: a, prevSTR, str
  prop C06
  requires audok(a) && strok(prevSTR) && strok(str)
  ensures [signed_linked_successor] err == nil <==> succof(bytes(a.signKey), prevSTR, str)

fn auditor.(*AudState).CheckSTRAgainstVerified :: a, str
  prop C06 C10
  requires audok(a) && strok(str)
  ensures [same_or_successor] err == nil ==> accepted(bytes(a.signKey), a.verifiedSTR, str)
  ensures [successor_accepted] succof(bytes(a.signKey), a.verifiedSTR, str) ==> err == nil

fn auditor.(*AudState).VerifySTRRange :: a, prevSTR, strs
  prop C06
  requires audok(a) && strok(prevSTR)
  requires forall i int :: {strs[i]} 0 <= i && i < len(strs) && strs[i] != nil ==> strok(strs[i])
  ensures [unbroken_chain] err == nil <==> (forall i int :: {strs[i]} 0 <= i && i < len(strs) ==> strs[i] != nil && succof(bytes(a.signKey), if i == 0 then prevSTR else strs[i-1], strs[i]))
  loop [i int, prev *protocol.DirSTR] strok(prev) && prev == (if i == 0 then prevSTR else strs[i-1])
  loop [i int] forall j int :: {strs[j]} 0 <= j && j < i ==> strs[j] != nil && succof(bytes(a.signKey), if j == 0 then prevSTR else strs[j-1], strs[j])

# a range that may be appended to the verified root
pred goodrange(pk seq, ver *protocol.DirSTR, strs []*protocol.DirSTR) = len(strs) > 0 && accepted(pk, ver, strs[0]) && (forall i int :: {strs[i]} 1 <= i && i < len(strs) ==> strs[i] != nil && succof(pk, strs[i-1], strs[i]))

fn auditor.(*AudState).AuditDirectory :: a, strs
  prop C06 C10
  requires audok(a)
  requires forall i int :: {strs[i]} 0 <= i && i < len(strs) ==> strok(strs[i])
  ensures [accepted_range] err == nil ==> goodrange(bytes(a.signKey), a.verifiedSTR, strs)
  ensures [successor_chain_accepted] len(strs) > 0 && succof(bytes(a.signKey), a.verifiedSTR, strs[0]) && (forall i int :: {strs[i]} 1 <= i && i < len(strs) ==> succof(bytes(a.signKey), strs[i-1], strs[i])) ==> err == nil

fn auditor.ComputeDirectoryIdentity :: str
  prop C07
  requires str != nil && str.SignedTreeRoot != nil
  panics str.Epoch != 0
  ensures [hash_of_signature] content(result) == digest(bytes(str.Signature))
