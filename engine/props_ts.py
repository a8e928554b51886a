"""The TypeScript SDK: C36 message layouts, C37 account addresses.

ts/eval.js evaluates the layout constants and the address derivations abstractly, from the TypeScript
syntax trees, to a canonical description of the bytes they stand for; the rules compare it with the
formats and seeds which the on-chain programs were shown to use (C20, C24 and the account rules)."""
import json, os, subprocess, sys
from lib import *

REPO = os.environ.get("NTT_REPO", "/repo")
_got = None


def evaluated():
    global _got
    if _got is None:
        r = subprocess.run(["node", "/verif/ts/eval.js", REPO], capture_output=True, text=True, timeout=300)
        if r.returncode:
            raise Broken("typescript-readable", "sdk", (r.stderr.strip().splitlines() or ["?"])[-1][:300])
        _got = json.loads(r.stdout)
    return _got


AMOUNT = "{decimals=uint1 amount=uint8}"
# the optional trailing payload: nothing when empty, else two length bytes and the payload
TAIL = 'bytes<empty->x some->cat(be(len(some("v")),2),some("v")) back x some("v")>'
TRANSFER = f"prefix=const994e5454 trimmedAmount={AMOUNT} sourceToken=bytes32 recipientAddress=bytes32 recipientChain=uint2 additionalPayload={TAIL}"
MESSAGE = "id=bytes32 sender=bytes32 payload=len2:{%s}" % TRANSFER
LAYOUTS = {
    "trimmedAmount": AMOUNT,
    "nativeTokenTransfer": TRANSFER,
    "nttManagerMessage": "id=bytes32 sender=bytes32 payload=len2:bytes",
    "transceiverMessage": "prefix=const01020304 sourceNttManager=bytes32 recipientNttManager=bytes32 nttManagerPayload=len2:bytes transceiverPayload=len2:bytes",
    "WormholeTransfer": "prefix=const9945ff10 sourceNttManager=bytes32 recipientNttManager=bytes32 nttManagerPayload=len2:{%s} transceiverPayload=len2:const" % MESSAGE,
    "TransceiverInfo": "prefix=const9c23bd3b managerAddress=bytes32 mode=uint1 token=bytes32 decimals=uint1",
    "TransceiverRegistration": "prefix=const18fc67c2 chain=uint2 transceiver=bytes32",
    "transceiverInstruction": "index=uint1 payload=len1:bytes",
}


def c36(rep):
    d = evaluated()
    rep.steps = d["steps"]
    rep.analysed.update({f: 1 for f in d["files"]})
    for n, want in LAYOUTS.items():
        got = d["layouts"].get(n, "missing")
        rep.ob("layout", f"sdk/definitions/src/layouts: {n}", got == want, f"the layout stands for {got}; the format is {want}")
    rep.floor("layout", len(LAYOUTS))


PRG = 'arg("program")'
CHAIN = 'be(chainid(arg("chain")),2)'


def pda(seed, *more, prog=PRG):
    return "pda([" + ",".join(["x" + seed.encode().hex(), *more]) + "]," + prog + ")"


DIGEST = "keccak(cat(%s,layout(%s,arg(\"message\"))))" % (CHAIN, json.dumps(MESSAGE))
SESSION = 'keccak(cat(be(arg("amount"),8),%s,arg("recipient"),be(b2i(arg("queue")),1)))' % CHAIN
A = lambda n: 'arg("%s")' % n
PDAS = {
    "manager.configAccount": pda("config"),
    "manager.outboxRateLimitAccount": pda("outbox_rate_limit"),
    "manager.inboxRateLimitAccount": pda("inbox_rate_limit", CHAIN),
    "manager.inboxItemAccount": pda("inbox_item", DIGEST),
    "manager.tokenAuthority": pda("token_authority"),
    "manager.peerAccount": pda("peer", CHAIN),
    "manager.registeredTransceiver": pda("registered_transceiver", A("transceiver")),
    "manager.lutAccount": pda("lut"),
    "manager.lutAuthority": pda("lut_authority"),
    "manager.sessionAuthority": pda("session_authority", A("sender"), SESSION),
    "transceiver.emitterAccount": pda("emitter"),
    "transceiver.outboxItemSigner": pda("outbox_item_signer"),
    "transceiver.transceiverPeerAccount": pda("transceiver_peer", CHAIN),
    "transceiver.transceiverMessageAccount": pda("transceiver_message", CHAIN, A("id")),
    "transceiver.wormholeMessageAccount": pda("message", A("outboxItem")),
    "quoter.instanceAccount": pda("instance"),
    "quoter.registeredNttAccount": pda("registered_ntt", A("ntt")),
    "quoter.relayRequestAccount": pda("relay_request", A("outboxItem")),
    "quoter.registeredChainAccount": pda("registered_chain", CHAIN),
    "quoterClient.registeredChainPda": pda("registered_chain", CHAIN),
    "quoterClient.registeredNttPda": pda("registered_ntt", A("ntt")),
    "quoterClient.relayRequestPda": pda("relay_request", A("outboxItem")),
    "programData": 'pda([arg("program")],"BPFLoaderUpgradeab1e11111111111111111111111")',
    "messageDigest": DIGEST,
}


def c37(rep):
    d = evaluated()
    rep.steps = d["steps"]
    rep.analysed.update({f: 1 for f in d["files"]})
    for n, want in PDAS.items():
        got = d["pdas"].get(n, "missing")
        rep.ob("address", f"solana/ts/lib: {n}", got == want, f"the client derives {got}; the programs use {want}")
    rep.floor("address", len(PDAS))
