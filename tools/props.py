# Tables used by check.py.

# bounded stand-ins (run on every check; labelled bounded, never counted as proved)
BOUNDED = {
    "C16": [{"pkg": "application", "run": "^TestZZVCodec$", "files": ["application/codec_harness_test.go"],
             "what": "encoding/json itself is a trusted model: round trips of every request and response kind and decoding of "
                     "mutated messages, compared with an independent two-step decoding; bound: 1200 requests, 1200 responses, "
                     "20000 mutated messages (ten times as many in the thorough tier), pseudo-random from VERIF_SEED"}],
}

_TREE = {"pkg": "merkletree", "run": "^TestZZVTree$", "files": ["merkletree/proof_harness_test.go", "merkletree/pad_harness_test.go"],
         "what": "histories of insertions, updates, clones and lookups of the Merkle tree against a map, with indices sharing up to 255 bits; "
                 "bound: 120 histories of up to 36 insertions (ten times as many histories in the thorough tier), pseudo-random from VERIF_SEED"}
_PAD = {"pkg": "merkletree", "run": "^TestZZVPAD$", "files": ["merkletree/proof_harness_test.go", "merkletree/pad_harness_test.go"],
        "what": "histories of Set, Update and lookups of the persistent dictionary against a reference; "
                "bound: 40 histories of up to 43 operations (ten times as many histories in the thorough tier), pseudo-random from VERIF_SEED"}
_DIR = {"pkg": "protocol/directory", "run": "^TestZZVDirectory$", "files": ["directory/directory_harness_test.go"],
        "what": "histories of requests, epoch updates and policy changes against a reference directory"}
BOUNDED.update({
    "C01": [_TREE, _PAD], "C02": [_TREE, _PAD], "C04": [_TREE, _PAD], "C05": [_TREE, _PAD],
    "C08": [_TREE, _DIR], "C09": [_TREE, _DIR], "C20": [_TREE, _PAD, _DIR],
})

_SERVE = [{"pkg": "application", "run": "^TestZZVServerBase$", "files": ["application/serverbase_harness_test.go"],
           "what": "running server bases with random permissions over Unix sockets: requests one at a time and concurrently, reloads and epoch "
                   "updates, with probes of the lock from inside the handlers; bound: 4 servers, 150 requests each (ten times as many servers in the thorough tier)"},
          {"pkg": "application/server", "run": "^TestZZVServer$", "files": ["server/server_harness_test.go"],
           "what": "running key servers with random addresses against a model of permissions and registrations, and direct dispatch of matching and "
                   "mismatched payloads; bound: 6 servers, 100 requests each (ten times as many servers in the thorough tier)"}]
_FILES = [{"pkg": "utils", "run": "^TestZZVFiles$", "files": ["files/utils_files_harness_test.go"],
           "what": "WriteFile against snapshots of scratch directories and ResolvePath against its definition; bound: 600 writes, 2000 paths (ten times as many in the thorough tier)"},
          {"pkg": "application/server", "run": "^TestZZVServerConfig$", "files": ["files/server_config_harness_test.go"],
           "what": "saving, moving and loading server configurations and keys (includes the resolution of certificate and log paths, which has no contract); bound: 150 configurations (ten times as many in the thorough tier)"},
          {"pkg": "application/client", "run": "^TestZZVClientConfig$", "files": ["files/client_config_harness_test.go"],
           "what": "saving, moving and loading client configurations, keys and roots; bound: 200 configurations (ten times as many in the thorough tier)"}]
_BOT = [{"pkg": "application/bots", "run": "^TestZZVBot$", "files": ["bots/bots_harness_test.go"],
         "what": "messages (well-formed, malformed, for other names and types) from several accounts, with a recording key server on a Unix socket that may be down; "
                 "bound: 3000 messages (ten times as many in the thorough tier)"}]
_CRASH = [{"pkg": "application/server", "run": "^TestZZVCrash$", "files": ["crash/crash_harness_test.go"],
           "what": "responses, requests, roots and pinned root files derived from real ones by structured mutation (parts removed, shortened, emptied, repeated, extreme epochs), decoded and checked "
                   "by clients, auditors, audit logs, servers and bots; any panic is a violation; bound: about 27000 messages (ten times as many in the thorough tier)"}]
_EDW = ["edwards/edwards_harness_test.go", "edwards/vrf_harness_test.go"]
_VRF = [{"pkg": "crypto/internal/ed25519/edwards25519", "run": "^TestZZVVRF$|^TestZZVElligator$", "files": _EDW,
         "what": "the group operations under the VRF have trusted contracts: keys, proofs, outputs and verification (honest, tampered, forged with points outside the subgroup, "
                 "unreduced scalars, other lengths) against the definition over an independent math/big curve; bound: 60 keys and about 400 verifications, 3000 hashed points "
                 "(ten times as many in the thorough tier), pseudo-random from VERIF_SEED"}]
_CLIENT = [{"pkg": "protocol/client", "run": "^TestZZVClient$", "files": ["client/client_harness_test.go"],
            "what": "sessions with honest and tampered responses against a reference client (index proofs are checked by a trusted function here)"}]
BOUNDED.update({"C10": _CLIENT, "C17": _BOT, "C15": _SERVE, "C19": _FILES, "C11": _CRASH, "C12": _VRF})

# replay harness: run when an obligation fails, to find a concrete failing input on the real code
# (and always in the thorough tier)
REPLAY = {
    "C03": [{"pkg": "merkletree", "run": "^TestZZVProofs$", "files": ["merkletree/proof_harness_test.go"], "what": "authentication paths, honest and tampered"}],
    "C06": [{"pkg": "protocol/auditor", "run": "^TestZZVAudit$", "files": ["auditor/auditor_harness_test.go"], "what": "chains of roots, honest and tampered"}],
    "C07": [{"pkg": "protocol/auditlog", "run": "^TestZZVAuditLog$", "files": ["auditlog/auditlog_harness_test.go"], "what": "histories of audits and queries against a reference log"}],
    "C10": [],
    "C14": [{"pkg": "crypto", "run": "^TestZZVCrypto$", "files": ["crypto/crypto_harness_test.go"], "what": "digests and commitments against SHAKE128 of the concatenation"}],
    "C16": [],
    "C01": [], "C02": [], "C04": [], "C05": [_DIR], "C08": [], "C09": [], "C20": [],
    "C18": [{"pkg": "utils", "run": "^TestZZVUtils$", "files": ["utils/utils_harness_test.go"], "what": "bit and integer encodings against a bitwise definition"},
            {"pkg": "storage/kv", "run": "^TestZZVKeyRange$", "files": ["kv/kv_harness_test.go"], "what": "successors of prefixes"}],
}

# assumptions stated in the evidence
NOTES = {
    "*": [
        "integers are mathematical integers with explicit wrap-around (machine arithmetic is modelled exactly)",
        "memory allocation succeeds; slice lengths are at most 2^47",
        "each function is verified sequentially: no other goroutine interferes except through the locks under contract",
    ],
}
