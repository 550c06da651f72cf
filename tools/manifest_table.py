CLAIMED = {
    "C01": "PAD.Set/Lookup/LookupInEpoch under contract on top of the tree's contracts; MerkleTree.Get/Set/Clone are trusted contracts with a bounded stand-in, the VRF a trusted function",
    "C02": "PAD.Lookup/LookupInEpoch and the snapshot invariant under contract; MerkleTree.Get/Clone/recomputeHash are trusted contracts with a bounded stand-in",
    "C04": "every function of the PAD under contract with the invariant over the retained snapshots; MerkleTree.Clone/Get are trusted contracts with a bounded stand-in",
    "C05": "NewSTR, Serialize, PAD.signTreeRoot/updateInternal/Update, ConiksDirectory.New/Update/SetPolicies under contract; signatures and hashes are uninterpreted functions",
    "C08": "ConiksDirectory.Register, KeyLookup, NewTB, Update and the response constructors under contract with the directory invariant",
    "C09": "ConiksDirectory.KeyLookupInEpoch, Monitor, GetSTRHistory and PAD.GetSTR/LookupInEpoch under contract with loop invariants",
    "C20": "PAD.Index/computePrivateIndex/Lookup and the directory's lookups under contract; MerkleTree.Get is a trusted contract with a bounded stand-in",
    "C03": "AuthenticationPath.ProofType, authPathHash, verifyBinding, Verify and ProofNode.hash under contract, loops by invariants; hashes are uninterpreted functions",
    "C06": "every function of protocol/auditor and the root comparison/chain functions under contract; signatures and hashes are uninterpreted functions",
    "C07": "every function of protocol/auditlog under contract with a data-structure invariant over the log",
    "C10": "the client's consistency checks under contract, from HandleResponse down to vrf.PublicKey.Verify",
    "C14": "crypto.Digest, MakeRand, NewCommit and Commit.Verify under contract; the SHAKE128 sponge is a trusted model",
    "C16": "UnmarshalRequest/Response, Marshal*, Create*Msg and the response constructors under contract; encoding/json is a havoc model (decode) and a trusted contract (encode)",
    "C18": "utils encoders and key-range helpers under contract with loop invariants",
    "C11": "no-panic obligations (nil, bounds, division, conversion, type assertion, explicit panic, make size, map write) of 84 functions from the decoders down to the proof checks, for clients, auditors, servers and bots; JSON decoding is a model that yields any value the types admit",
    "C12": "vrf.Compute, Prove, Verify, GenerateKey, Public, expandSecret and hashToCurve under contract, over trusted contracts and algebraic axioms for the group operations (differentially tested); completeness of Prove against Verify is a discharged obligation",
    "C15": "ServerBase and ConiksServer under contract: dispatch, address permissions, lock discipline (lock invariants, lockset obligations), epoch timer and policy reload; network and log calls are trusted contracts",
    "C17": "TwitterBot.HandleRegistration and SendRequestToCONIKS under contract over the decoding contract of UnmarshalRequest and a ghost record of what is sent; net and strings calls are trusted contracts",
    "C19": "utils.WriteFile/ResolvePath, the key/STR loaders and the three configurations' Load/Save under contract over a ghost filesystem; os, ioutil, filepath and toml are trusted models",
}
LATER = "the check is not built yet"
NOT_APPLICABLE = {"C%02d" % i: LATER for i in range(1, 21)}
NOT_APPLICABLE["C21"] = "a statement about all interleavings of goroutines; the contracts here are sequential (C15 proves the lock discipline each request follows, not linearizability)"
NOT_APPLICABLE["C22"] = "a secrecy (indistinguishability) statement about cryptographic primitives; functional contracts cannot express it"
