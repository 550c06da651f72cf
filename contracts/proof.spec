# Authentication paths (C03, and what C02, C10 and C11 build on)

# the root reached from hash h by hashing up d levels along idx with the pruned siblings p
func pathroot(seq, seq, seq, int) seq
axiom pathroot_0: forall h seq, idx seq, p seq :: {pathroot(h, idx, p, 0)} pathroot(h, idx, p, 0) == h
axiom pathroot_left: forall h seq, x seq, idx seq, p seq, k int :: {pathroot(digest(cat(h, x)), idx, p, k)} k >= 0 && x == unboxseq(at(p, k)) && !bitat(idx, k) ==> pathroot(h, idx, p, k + 1) == pathroot(digest(cat(h, x)), idx, p, k)
axiom pathroot_right: forall h seq, x seq, idx seq, p seq, k int :: {pathroot(digest(cat(x, h)), idx, p, k)} k >= 0 && x == unboxseq(at(p, k)) && bitat(idx, k) ==> pathroot(h, idx, p, k + 1) == pathroot(digest(cat(x, h)), idx, p, k)

# node hashes
pred leafh(nonce seq, idx seq, level int, cv seq) = digest(cat(lit(76), nonce, idx, le32(level), cv))
pred emptyh(nonce seq, idx seq, level int) = digest(cat(lit(69), nonce, idx, le32(level)))
pred pnhash(n *merkletree.ProofNode, nonce seq) = if n.IsEmpty then emptyh(nonce, bytes(n.Index), n.Level) else leafh(nonce, bytes(n.Index), n.Level, bytes(n.Commitment.Value))
pred aproot(ap *merkletree.AuthenticationPath) = pathroot(pnhash(ap.Leaf, bytes(ap.TreeNonce)), bytes(ap.Leaf.Index), content(ap.PrunedTree), ap.Leaf.Level)

# shape of a proof
pred apwf(ap *merkletree.AuthenticationPath) = len(ap.LookupIndex) == 32 && len(ap.TreeNonce) == 32 && ap.Leaf.Level <= 256 && len(ap.PrunedTree) == ap.Leaf.Level && (if ap.Leaf.IsEmpty then len(ap.Leaf.Index) == (ap.Leaf.Level + 7) / 8 else len(ap.Leaf.Index) == 32 && ap.Leaf.Commitment != nil && len(ap.Leaf.Commitment.Value) == 32)
pred incl(ap *merkletree.AuthenticationPath) = !ap.Leaf.IsEmpty && bytes(ap.LookupIndex) == bytes(ap.Leaf.Index)
# the memoised proof type is unset or right
pred memook(ap *merkletree.AuthenticationPath) = ap.proofType == 0 || ap.proofType == (if incl(ap) then 2 else 1)

fn merkletree.(*ProofNode).hash :: n, nonce
  prop C03 C02
  requires n != nil && (n.IsEmpty || n.Commitment != nil)
  ensures [node_hash] bytes(result) == pnhash(n, bytes(nonce))
  ensures fresh(result) && len(result) == 32

fn merkletree.(*AuthenticationPath).authPathHash :: ap
  prop C03 C02
  requires ap != nil && ap.Leaf != nil && apwf(ap)
  ensures [recomputed_root] bytes(result) == aproot(ap)
  loop [hash []byte, depth uint32] depth <= ap.Leaf.Level && pathroot(bytes(hash), bytes(ap.Leaf.Index), content(ap.PrunedTree), depth) == aproot(ap)

fn merkletree.(*AuthenticationPath).wellFormed :: ap
  prop C03 C11
  requires ap != nil && ap.Leaf != nil
  ensures [shape] result <==> apwf(ap)

fn merkletree.(*AuthenticationPath).ProofType :: ap
  prop C03 C01
  requires ap != nil && ap.Leaf != nil && memook(ap)
  modifies ap.proofType
  ensures [kind_of_leaf_decides] result == (if incl(ap) then 2 else 1)
  ensures memook(ap)

# what an accepted proof establishes
pred opened(c *crypto.Commit, key seq, value seq) = len(c.Salt) == 32 && bytes(c.Value) == digest(cat(bytes(c.Salt), key, value))
pred agrees(ap *merkletree.AuthenticationPath) = forall i int :: 0 <= i && i < ap.Leaf.Level ==> (bitat(bytes(ap.Leaf.Index), i) <==> bitat(bytes(ap.LookupIndex), i))
pred apvalid(ap *merkletree.AuthenticationPath, key seq, value seq, root seq) = apwf(ap) && aproot(ap) == root && (if incl(ap) then bytes(ap.Leaf.Value) == value && opened(ap.Leaf.Commitment, key, value) else agrees(ap) && ap.Leaf.Value == nil)

fn merkletree.(*AuthenticationPath).Verify :: ap, key, value, treeHash
  prop C03 C02 C11
  requires ap != nil && ap.Leaf != nil && memook(ap)
  modifies ap.proofType
  ensures [accepts_exactly_valid_proofs] err == nil <==> apvalid(ap, bytes(key), bytes(value), bytes(treeHash))
  ensures memook(ap)
  ensures [known_errors] err == nil || err == global("merkletree.ErrBindingsDiffer") || err == global("merkletree.ErrUnverifiableCommitment") || err == global("merkletree.ErrIndicesMismatch") || err == global("merkletree.ErrUnequalTreeHashes")
  loop [i int] forall j int :: 0 <= j && j < i ==> (bitat(bytes(ap.Leaf.Index), j) <==> bitat(bytes(ap.LookupIndex), j))
