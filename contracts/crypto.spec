# Hashing and commitments (C05): commitments bind salt, name and key

# concatenation of the first i argument slices of a variadic call
func flatp(int) seq

fn crypto.Digest :: ms
  prop C14
  opt inline
  requires flatp(0) == lit()
  requires forall i int :: {ms[i]} 0 <= i && i < len(ms) ==> flatp(i + 1) == cat(flatp(i), bytes(ms[i]))
  ensures [hash_of_concatenation] bytes(result) == digest(flatp(len(ms)))
  ensures len(result) == 32
  ensures fresh(result)
  loop [i int, h sha3.ShakeHash] ghost("shake.abs", h) == flatp(i)

fn crypto.MakeRand
  prop C14
  ensures [fresh_randomness] err == nil ==> bytes(result) == digest(rndbytes(old(ghost("rand")), 32))
  ensures err == nil ==> len(result) == 32 && fresh(result)
  ensures [fresh_each_call] err == nil ==> ghost("rand") > old(ghost("rand"))

# commitments are to two strings (name, key): the only arity the repository
# uses; a call with another arity fails this precondition
fn crypto.NewCommit :: stuff
  prop C14
  requires len(stuff) == 2
  ensures err == nil ==> result != nil && fresh(result)
  ensures [fresh_salt] err == nil ==> bytes(result.Salt) == digest(rndbytes(old(ghost("rand")), 32)) && len(result.Salt) == 32
  ensures err == nil ==> ghost("rand") > old(ghost("rand"))
  ensures [binds_salt_and_arguments] err == nil ==> bytes(result.Value) == digest(cat(bytes(result.Salt), bytes(stuff[0]), bytes(stuff[1])))
  ensures err == nil ==> len(result.Value) == 32 && fresh(result.Salt) && fresh(result.Value)
  ensures err != nil ==> result == nil

fn crypto.(*Commit).Verify :: c, stuff
  prop C14
  requires c != nil
  requires len(stuff) == 2
  ensures [recomputes_commitment] result <==> len(c.Salt) == 32 && bytes(c.Value) == digest(cat(bytes(c.Salt), bytes(stuff[0]), bytes(stuff[1])))
