# The Merkle prefix tree as its users see it (C01, C02, C04, C20)

# ghost state of a tree: which indices are bound, to which name and value, and
# whether all hashes have been recomputed since the last insertion
ghost merkletree.MerkleTree.good bool
ghost merkletree.MerkleTree.clean bool
ghost merkletree.MerkleTree.bound map[seq]bool
ghost merkletree.MerkleTree.kname map[seq]seq
ghost merkletree.MerkleTree.kval map[seq]seq

pred treeok(m *merkletree.MerkleTree) = m != nil && m.good && len(m.nonce) == 32
pred cleantree(m *merkletree.MerkleTree) = treeok(m) && m.clean && len(m.hash) == 32
# the two trees hold the same bindings
pred samebindings(a *merkletree.MerkleTree, b *merkletree.MerkleTree) = a.bound == b.bound && a.kname == b.kname && a.kval == b.kval

# a path that a tree with this root and these bindings may return for an index
pred pathfor(ap *merkletree.AuthenticationPath, m *merkletree.MerkleTree, idx seq) = ap != nil && ap.Leaf != nil && memook(ap) && apwf(ap) && bytes(ap.LookupIndex) == idx && bytes(ap.TreeNonce) == bytes(m.nonce) && aproot(ap) == bytes(m.hash) && (incl(ap) <==> m.bound[idx]) && (if incl(ap) then bytes(ap.Leaf.Value) == m.kval[idx] && opened(ap.Leaf.Commitment, m.kname[idx], m.kval[idx]) else agrees(ap) && ap.Leaf.Value == nil && (ap.Leaf.Commitment == nil || ap.Leaf.Commitment.Salt == nil))

trusted fn merkletree.NewMerkleTree
  ensures ret1 == nil ==> treeok(ret0) && fresh(ret0)
  ensures [empty] ret1 == nil ==> (forall i seq :: {ret0.bound[i]} !ret0.bound[i])
  ensures ret1 != nil ==> ret0 == nil

trusted fn merkletree.(*MerkleTree).Get :: m, idx
  requires cleantree(m) && len(idx) == 32
  ensures fresh(result) && fresh(result.Leaf) && pathfor(result, m, bytes(idx))
  ensures (result.Leaf.Commitment != nil ==> fresh(result.Leaf.Commitment))

trusted fn merkletree.(*MerkleTree).Set :: m, index, key, value
  requires treeok(m) && len(index) == 32
  modifies m.bound, m.kname, m.kval, m.clean
  ensures treeok(m)
  ensures [bound] err == nil ==> m.bound[bytes(index)] && m.kname[bytes(index)] == content(key) && m.kval[bytes(index)] == bytes(value)
  ensures [others_kept] forall i seq :: {m.bound[i]} {m.kval[i]} i != bytes(index) || err != nil ==> (m.bound[i] <==> old(m.bound[i])) && m.kname[i] == old(m.kname[i]) && m.kval[i] == old(m.kval[i])

trusted fn merkletree.(*MerkleTree).recomputeHash :: m
  requires treeok(m)
  modifies m.hash, m.clean
  ensures cleantree(m) && fresh(m.hash)

trusted fn merkletree.(*MerkleTree).Clone :: m
  requires cleantree(m)
  ensures fresh(result) && cleantree(result) && samebindings(result, m) && bytes(result.hash) == bytes(m.hash) && same(result.nonce, m.nonce)
