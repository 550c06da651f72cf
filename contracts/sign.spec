# Signatures: thin wrappers over Ed25519 (C10, C13, C14)

# key pairs the library accepts as generated: what they sign verifies
func edok(seq) bool
axiom edgen_ok: forall i int :: {edgen(i)} edok(edgen(i)) && len(edgen(i)) == 64
axiom ed_correct: forall k seq, m seq :: {edsig(k, m)} edok(k) ==> edver(sub(k, 32, 64), m, edsig(k, m))

fn sign.GenerateKey :: rnd
  prop C05 C06 C08 C10
  ensures err == nil ==> edok(bytes(result)) && len(result) == 64

fn sign.PrivateKey.Sign :: key, message
  prop C05 C06 C08 C10
  panics len(key) != 64
  ensures [signs_message] bytes(result) == edsig(bytes(key), bytes(message))
  ensures len(result) == 64 && fresh(result)

fn sign.PrivateKey.Public :: key
  prop C05 C06 C08 C10
  panics len(key) < 32
  ensures len(key) == 64 ==> ret1 && bytes(result) == sub(bytes(key), 32, 64) && fresh(result)

fn sign.PublicKey.Verify :: pk, message, sig
  prop C05 C06 C08 C10
  panics len(pk) != 32
  ensures [verifies_signature] result <==> edver(bytes(pk), bytes(message), bytes(sig))
