"""The properties: what is claimed, where it is anchored, and the rule that decides it.
`python3 engine/catalog.py` regenerates properties.jsonl and MANIFEST.json."""
import importlib
import json
import os

M = "solana/programs/example-native-token-transfers/src/"
T = "solana/programs/ntt-transceiver/src/"
Q = "solana/programs/ntt-quoter/src/"
G = "solana/programs/wormhole-governance/src/"
N = "solana/modules/ntt-messages/src/"

TECH = "interprocedural path-sensitive dataflow (abstract interpretation) over rustc MIR"
NOTE = ("Every path of the compiled MIR to a successful return is covered, for all account contents, arguments and histories of stored state; anything the "
        "analysis cannot decide is reported. Trusted: the models of Anchor, SPL Token, the Solana runtime and the standard library listed in DESIGN.md, and "
        "that addresses derived from distinct seeds or hashes of distinct inputs differ.")
ASSUMPTIONS = [
    "the Solana runtime enforces account ownership, signatures and atomic rollback of failed instructions",
    "models of Anchor 0.29, SPL Token/Token-2022, ATA, system program, core bridge SDK and std in engine/models.py match those libraries",
    "PDA derivation, SHA-256 and Keccak-256 are treated as injective",
    "the MIR of the host target with overflow checks represents the deployed build (release profile enables overflow checks)",
]

PROPS = {}


def prop(pid, title, statement, fn, over, qtext, why, files, mech, state=(), how="", observe=()):
    assert len(title) <= 80, title
    PROPS[pid] = dict(id=pid, title=title, statement=" ".join(statement.split()), fn=fn, over=over, qtext=qtext, why=why, files=files, mech=mech, state=state, how=how, observe=observe)


UNIT = "The 17 stable tests only exercise bitmap arithmetic, a few message vectors, one limiter history and declared ids; no instruction is executed."

prop("C01", "An inbound transfer pays out at most once",
     """Each approved inbound transfer releases tokens (by minting or by unlocking) at most once: every instruction that pays tokens out of the
     bridge consumes one approved inbound transfer and durably marks it as released in the same instruction. A transfer's state only moves from unapproved to
     approved to released, its record is never deleted or re-created in an earlier state, and a released transfer can never be paid again.""",
     "props_in.c01", ["histories", "inputs"], "for every sequence of instructions, every account passed in and every stored state",
     UNIT + " Double payment needs particular sequences of redeem and release calls.",
     [M + "instructions/release_inbound.rs", M + "instructions/redeem.rs", M + "queue/inbox.rs"],
     [("InboxItem::try_release marks Released", M + "queue/inbox.rs"), ("release_inbound_mint / release_inbound_unlock", M + "instructions/release_inbound.rs"), ("init_if_needed inbox item", M + "instructions/redeem.rs")],
     [("InboxItem.release_status", "NotApproved, ReleaseAfter(t) or Released", M + "queue/inbox.rs")],
     "Per path: number of payouts, state of the stored record before and after, all writers and closers of inbound records.")

prop("C02", "Approval needs a threshold of distinct enabled transceivers",
     """An inbound transfer becomes approved exactly when the number of distinct, currently enabled transceivers that attested to it reaches the configured
     (non-zero) threshold. A redemption records exactly the vote of the transceiver whose program owns the attested message, only if that transceiver is enabled,
     and attesting again never changes the outcome.""",
     "props_in.c02", ["histories", "inputs", "configurations"], "for every set of registered/enabled transceivers, threshold, vote history and attested message",
     UNIT + " Vote counting with several transceivers is never exercised.",
     [M + "instructions/redeem.rs", M + "bitmap.rs", M + "queue/inbox.rs", M + "registered_transceiver.rs"],
     [("vote recording and threshold test", M + "instructions/redeem.rs"), ("count_enabled_votes", M + "bitmap.rs"), ("transceiver ownership and enabled checks", M + "instructions/redeem.rs")],
     [("InboxItem.votes", "bitmap of transceiver ids that attested", M + "queue/inbox.rs"), ("Config.enabled_transceivers", "bitmap of enabled ids", M + "config.rs")],
     "Redeem paths: stored votes = old votes with exactly the own bit set; approval iff threshold <= popcount(votes & enabled).")

prop("C03", "Only authentic messages from registered peers are accepted",
     """A cross-chain message is stored as attested only if it is a verified core-bridge message whose emitter is the transceiver peer registered for its
     emitter chain and whose destination chain is this chain; what is stored is that chain and exactly that message content. A redemption is accepted only if the message's
     source manager is the peer manager registered for the source chain, its recipient manager is this program and its destination is this chain.""",
     "props_in.c03", ["inputs", "configurations"], "for every message, peer configuration and account list, in the manager and in the standalone transceiver",
     UNIT + " Forged or misrouted messages are never presented to the instructions.",
     [M + "transceivers/wormhole/instructions/receive_message.rs", T + "wormhole/instructions/receive_message.rs", M + "instructions/redeem.rs", N + "transceivers/wormhole.rs"],
     [("ReceiveMessage account constraints", M + "transceivers/wormhole/instructions/receive_message.rs"), ("ReceiveMessage account constraints (standalone)", T + "wormhole/instructions/receive_message.rs"), ("Redeem account constraints", M + "instructions/redeem.rs")],
     [("TransceiverPeer", "registered emitter per chain", M + "transceivers/accounts/peer.rs"), ("NttManagerPeer", "registered manager per chain", M + "peer.rs"), ("ValidatedTransceiverMessage", "attested message", M + "messages.rs")],
     "Receive and redeem paths: dominating equality facts between message fields, derived addresses and stored peers; writer rule for attested messages.")

prop("C04", "Inbound payouts match the attested amount and recipient",
     """The amount recorded for an inbound transfer is the attested amount rescaled from its decimals to the local mint's decimals, and the recorded recipient is
     the attested recipient; neither changes afterwards. A payout transfers exactly the recorded amount of the configured mint from custody to a token account of exactly the
     recorded recipient, minting exactly that amount first in burning mode and performing no other token operation.""",
     "props_in.c04", ["inputs", "histories"], "for every message, decimals combination, mint and recipient account",
     UNIT + " Amount scaling is tested on a few values only, payouts never.",
     [M + "instructions/redeem.rs", M + "instructions/release_inbound.rs", N + "trimmed_amount.rs"],
     [("amount.untrim(mint.decimals) in redeem", M + "instructions/redeem.rs"), ("recipient token account constraint", M + "instructions/release_inbound.rs"), ("mint_to + transfer_checked", M + "instructions/release_inbound.rs")],
     [("InboxItem.amount / recipient_address", "what will be paid and to whom", M + "queue/inbox.rs")],
     "Symbolic amount on each path compared with the scaling specification; effects of the release instructions enumerated.")

prop("C05", "Queued inbound transfers are never paid before their release time",
     """No tokens are paid for an inbound transfer before the release time fixed when it was approved, nor while it is unapproved; once fixed, that time never
     changes. A release call that cannot pay yet either fails (when the caller asked it to) or succeeds without any change; it never succeeds silently for a transfer
     that was already released or is due.""",
     "props_in.c05", ["histories", "inputs"], "for every clock value, stored state and choice of the revert flag",
     UNIT + " Time-dependent behaviour of the release instructions is not tested.",
     [M + "instructions/release_inbound.rs", M + "queue/inbox.rs"],
     [("InboxItem::try_release", M + "queue/inbox.rs"), ("revert_on_delay handling", M + "instructions/release_inbound.rs")],
     [("ReleaseStatus::ReleaseAfter", "release time", M + "queue/inbox.rs")],
     "Release paths: payout dominated by release_time <= now; silent paths dominated by not-due and revert flag false.")

prop("C06", "Outbound transfers lock or burn exactly what is sent",
     """Every accepted outbound transfer takes exactly one deposit from the sender's token account into custody, equal to the amount the outgoing message carries (expressed in local decimals).
     In burning mode exactly that deposit is burned from custody; in locking mode nothing else happens to it. The custody balance is compared after the token operations with
     the balance expected, so a token that delivers less (fees, hooks) makes the transfer fail.""",
     "props_out.c06", ["inputs", "configurations"], "for every amount, decimals, mint extension behaviour and account list",
     UNIT + " No transfer instruction is executed; fee-on-transfer mints are never tried.",
     [M + "instructions/transfer.rs"],
     [("transfer_burn / transfer_lock", M + "instructions/transfer.rs"), ("custody reload and balance check", M + "instructions/transfer.rs")],
     [("Config.custody", "custody token account", M + "config.rs")],
     "Transfer paths: effect list, symbolic deposit/burn amounts, and the re-read custody balance compared with pre-balance plus deposit minus burn.")

prop("C07", "Outgoing amounts are trimmed correctly and dust stays with the sender",
     """An outgoing amount is expressed with min(8, local decimals, destination decimals) decimals, rounded down. The part that this rounding cannot represent is
     never taken from the sender.""",
     "props_out.c07", ["inputs", "configurations"], "for every amount (u64) and every pair of decimals",
     "Unit tests try a handful of amounts and decimals and do not tie the trimmed amount to the deposit.",
     [N + "trimmed_amount.rs", M + "instructions/transfer.rs"],
     [("TrimmedAmount::trim / remove_dust", N + "trimmed_amount.rs")],
     [("OutboxItem.amount", "trimmed amount sent", M + "queue/outbox.rs")],
     "Case split over the decimals on every transfer path; recorded amount, decimals and deposit compared with the specification term.")

prop("C08", "A user's tokens move only under authority for that exact transfer",
     """Tokens of a user are debited only by a transfer authorised by a delegate address that is bound to the token owner and to all the transfer's arguments (amount,
     destination chain, recipient, queueing choice); an approval for one set of arguments cannot be used for any other. The debited account is the one whose owner is
     recorded as the sender, and no other instruction debits any token account besides custody.""",
     "props_out.c08", ["inputs"], "for every transfer arguments, approvals and accounts supplied by any caller",
     UNIT + " Argument substitution against an approval is not tested.",
     [M + "instructions/transfer.rs", M + "lib.rs"],
     [("session authority PDA seeds", M + "instructions/transfer.rs"), ("TransferArgs::keccak256", M + "instructions/transfer.rs")],
     [("session_authority", "delegate derived from sender and argument hash", M + "instructions/transfer.rs")],
     "Transfer paths: authority of the debit must be the address derived from owner and the hash of all arguments.")

prop("C09", "Rate limiters replenish linearly over one day and never exceed the limit",
     """A limiter's available capacity is its last recorded capacity plus the limit times elapsed seconds divided by 86400, capped at the limit. Consuming lowers it and
     refilling raises it by exactly the amount (within zero and the limit), changing the limit shifts the capacity by the same difference (within zero and the new
     limit), each stamping the current time; new limiters start full.""",
     "props_admin.c09", ["histories", "inputs"], "for every limiter state, elapsed time, amount and limit change",
     "One unit test follows a single history of consume and limit changes; other states and times are not sampled.",
     [M + "queue/rate_limit.rs", M + "queue/inbox.rs", M + "queue/outbox.rs", M + "instructions/admin.rs"],
     [("RateLimitState::capacity_at / consume_or_delay / refill / set_limit", M + "queue/rate_limit.rs")],
     [("RateLimitState", "limit, capacity at last transaction, time of it", M + "queue/rate_limit.rs")],
     "All paths that store a limiter: stored fields compared with specification terms; capacity function compared for all states and times.")

prop("C10", "Every transfer is charged to the right limiter or queued for a day",
     """An outbound transfer that fits the outbound capacity is due at once, consumes the outbound limiter and refills the inbound limiter of the destination chain; one that
     does not fit fails unless the sender opted into queueing, in which case it is due exactly 24 hours later and leaves both limiters unchanged. Approval of an inbound
     transfer does the same with the inbound limiter of the source chain and the outbound limiter; limiters change only on acceptance or approval.""",
     "props_out.c10", ["histories", "inputs"], "for every amount, limiter state, chain and queueing choice",
     "The limiter unit test does not connect limiters to instructions.",
     [M + "instructions/transfer.rs", M + "instructions/redeem.rs", M + "queue/rate_limit.rs"],
     [("insert_into_outbox", M + "instructions/transfer.rs"), ("redeem limiter use", M + "instructions/redeem.rs")],
     [("OutboxRateLimit / InboxRateLimit", "global outbound limiter and one inbound limiter per chain", M + "queue/")],
     "Transfer and redeem paths: which limiter address, consumed or not, release time, back-flow to the opposite limiter.")

prop("C11", "Each enabled transceiver sends a queued transfer at most once, when due",
     """A transceiver sends an outbound transfer only after its release time, only if it is enabled and has not sent it before, and sending durably marks it as sent by that
     transceiver in the same instruction (the standalone transceiver sends only if the manager confirms the mark, which the manager grants only to the registered transceiver
     program itself). A call that sends nothing leaves the transfer unmarked, happens only before the release time, and fails if the caller asked it to.""",
     "props_out.c11", ["histories", "inputs"], "for every stored transfer, clock value, transceiver set and caller",
     UNIT + " Release of outbound transfers is not executed.",
     [M + "transceivers/wormhole/instructions/release_outbound.rs", T + "wormhole/instructions/release_outbound.rs", M + "instructions/mark_outbox_item_as_released.rs", M + "queue/outbox.rs"],
     [("OutboxItem::try_release", M + "queue/outbox.rs"), ("mark_outbox_item_as_released", M + "instructions/mark_outbox_item_as_released.rs"), ("release_outbound", T + "wormhole/instructions/release_outbound.rs")],
     [("OutboxItem.released", "bitmap of transceivers that sent it", M + "queue/outbox.rs")],
     "Release paths of both programs plus the mark instruction: posting dominated by due, enabled, unmarked; mark stored; cross-program result tested.")

prop("C12", "The message sent is exactly the accepted transfer",
     """The bytes a transceiver sends for a transfer are the standard encoding of: this manager as source, the recorded recipient manager, the transfer's unique id, sender,
     amount and decimals, local token, recipient and destination chain, with every length and prefix as the protocol prescribes.""",
     "props_out.c12", ["inputs"], "for every stored transfer, in the manager and in the standalone transceiver",
     "Unit tests decode a few fixed messages; what the release instructions post is not observed.",
     [M + "transceivers/wormhole/instructions/release_outbound.rs", T + "wormhole/instructions/release_outbound.rs", N + "transceiver.rs", N + "ntt.rs", N + "ntt_manager.rs"],
     [("TransceiverMessage::new and Writeable impls", N + "transceiver.rs"), ("NativeTokenTransfer / NttManagerMessage encoding", N + "ntt.rs")],
     [], "The payload argument of the posting call, as a byte-string term, must equal the specification term field by field.")

prop("C13", "An accepted transfer is recorded faithfully and never altered",
     """Accepting a transfer creates a fresh record holding the debited account's owner as sender, the requested destination chain and recipient, and the manager registered
     for that chain, not yet sent by anyone, and is refused when no transceiver is enabled. Afterwards no instruction changes anything in it except adding marks of having been
     sent; the record is never deleted.""",
     "props_out.c13", ["histories", "inputs"], "for every transfer and every later sequence of instructions",
     UNIT + " Stored outbound records are never inspected.",
     [M + "instructions/transfer.rs", M + "queue/outbox.rs"],
     [("insert_into_outbox", M + "instructions/transfer.rs")],
     [("OutboxItem", "outbound transfer record", M + "queue/outbox.rs")],
     "Transfer paths: stored fields; all other paths of all programs: writers and closers of outbound records.")

prop("C14", "While paused, no tokens move and no transfer is accepted, attested or sent",
     """When the deployment is paused, no transfer is accepted, no incoming message is stored as attested, no transfer message is
     released and no tokens are moved, minted or burned, in the manager or the standalone transceiver (counting an attestation stored earlier stays possible). Only
     the owner can change the pause flag, through the dedicated instruction, which stores exactly the requested value.""",
     "props_admin.c14", ["inputs", "histories"], "for every instruction of the manager and the standalone transceiver",
     UNIT, [M + "config.rs", M + "instructions/", T + "wormhole/instructions/"],
     [("NotPausedConfig", M + "config.rs"), ("set_paused", M + "instructions/admin.rs")], [("Config.paused", "pause flag", M + "config.rs")],
     "Every path with a protected effect must be dominated by the stored pause flag being false.")

prop("C15", "Mint and burn only in burning mode, lock and unlock only in locking mode",
     """Tokens are minted or burned only when the deployment is in burning mode and locked or unlocked only in locking mode. The mode is chosen at initialisation and never
     changes.""",
     "props_admin.c15", ["inputs", "configurations"], "for every instruction, account list and mode",
     UNIT, [M + "instructions/transfer.rs", M + "instructions/release_inbound.rs", N + "mode.rs"],
     [("mode constraints on transfer and release accounts", M + "instructions/transfer.rs")], [("Config.mode", "Burning or Locking", M + "config.rs")],
     "Every path with token operations is dominated by the required mode; writers of the mode enumerated.")

prop("C16", "Only the owner can change configuration, peers, limits and transceivers",
     """Configuration, registered peers, configured limits, registered transceivers and the pause flag change only in an instruction signed by the configured owner (ownership
     acceptance is instead signed by the pending or current owner). Each configuration value is changed only by the instruction meant for it; mint, custody, mode, chain and
     token program never change.""",
     "props_admin.c16", ["inputs", "histories"], "for every instruction and every caller",
     UNIT + " No negative authorisation test runs here.",
     [M + "instructions/admin.rs", M + "transceivers/wormhole/instructions/admin.rs", T + "wormhole/instructions/admin.rs", M + "config.rs"],
     [("has_one = owner constraints", M + "instructions/admin.rs")], [("Config", "all configuration", M + "config.rs")],
     "Writer table of configuration fields over all instructions; owner signature as dominating fact.")

prop("C17", "Ownership and upgrade authority move together, in two safe steps",
     """Ownership changes only by the owner's one-step transfer, or by acceptance signed by the pending owner (or the current owner cancelling), and the program's upgrade
     authority always follows: parked with the program's lock address while a transfer is pending, then given to exactly the new owner. Completing or cancelling a transfer clears
     the pending owner, and nothing else touches the upgrade authority.""",
     "props_admin.c17", ["histories", "inputs"], "for every sequence of ownership instructions and every caller",
     UNIT, [M + "instructions/admin.rs"],
     [("transfer_ownership / claim_ownership / transfer_ownership_one_step_unchecked", M + "instructions/admin.rs")],
     [("Config.owner, Config.pending_owner", "ownership", M + "config.rs")],
     "Loader calls on each path: which program data, current and new authority, signer seeds; stored owner fields.")

prop("C18", "Initialisation happens once, by the deployer, with sound settings",
     """The deployment can be initialised only once and only by the program's upgrade authority, who becomes owner. It records the given mint, token program, mode and chain, a custody account that is
     the token account of the program's own authority, a threshold of at least one, no transceivers, not paused, and a full outbound limiter with the given limit; burning mode is refused unless the program holds the
     mint authority.""",
     "props_admin.c18", ["inputs", "configurations"], "for every initialisation argument, account list and caller",
     UNIT, [M + "instructions/initialize.rs", M + "config.rs"],
     [("Initialize account constraints", M + "instructions/initialize.rs")], [("Config", "configuration", M + "config.rs")],
     "Paths of initialize: dominating facts and all stored fields; no other creator or closer.")

prop("C19", "Transceiver ids are unique and registration enables exactly that one",
     """Registering a transceiver gives it the next unused id, stores it once under its program address, enables exactly its own bit and advances the counter; ids never exceed the
     bitmap's 128 slots. Nothing else changes the transceiver set or an existing registration, and reading or setting a bit touches exactly that bit.""",
     "props_admin.c19", ["histories", "inputs"], "for every sequence of registrations and every bitmap index",
     "Unit tests set and count a few bits; registration is not executed.",
     [M + "instructions/admin.rs", M + "registered_transceiver.rs", M + "bitmap.rs"],
     [("register_transceiver", M + "instructions/admin.rs"), ("Bitmap::set / get", M + "bitmap.rs")],
     [("Config.next_transceiver_id, enabled_transceivers", "id counter and enabled set", M + "config.rs")],
     "Registration path: stored values; writer rules; bitmap functions for all indices.")

prop("C22", "Inbound transfer records are identified by full message content",
     """The record that collects votes for an inbound transfer is addressed by a hash of the source chain and the entire manager message, so attestations of different
     content never share a record and attestations of the same content always do. No other instruction creates such records.""",
     "props_in.c22", ["inputs"], "for every pair of messages", UNIT,
     [M + "instructions/redeem.rs", N + "ntt_manager.rs"],
     [("inbox_item seeds", M + "instructions/redeem.rs"), ("NttManagerMessage::keccak256", N + "ntt_manager.rs")], [("InboxItem address", "content address", M + "queue/inbox.rs")],
     "The hashed byte string, as a term, must be the concatenation of the source chain and every message field.")

prop("C23", "Records are read only after checking who wrote them and what they are",
     """No program decides anything from, or copies anything out of, an account's contents unless it has checked that the account belongs to the program expected to write such records and
     carries that record's type tag (for attested messages and outbound transfers read as raw bytes too). An account prepared by anyone else is refused.""",
     "props_misc.c23", ["inputs"], "for every instruction and every set of accounts a caller may pass", UNIT,
     [M + "messages.rs", M + "instructions/", Q + "processor/request_relay.rs", T + "wormhole/instructions/", G + "instructions/governance.rs"],
     [("ValidatedTransceiverMessage::try_from", M + "messages.rs"), ("account constraints", M + "instructions/")], [],
     "Every read of account data on every path has its owner and type established on that path.")

prop("C24", "Each signing address serves one purpose and calls only verified programs",
     """The addresses a program can sign for (custody authority, per-transfer delegate, message emitter, message account, upgrade lock, lookup-table authority, release requester, governance
     authority) are each used for that purpose only, and no two purposes or record kinds of a program can ever share an address. Except for the guardians' governance instruction, every
     program called is a fixed one or one whose identity was verified.""",
     "props_misc.c24", ["inputs"], "for every instruction, every call it makes and every pair of address kinds", UNIT,
     [M + "lib.rs", M + "instructions/", M + "transceivers/wormhole/", T + "lib.rs", Q + "state.rs", G + "instructions/governance.rs"],
     [("seed prefixes", M + "lib.rs"), ("SEED_PREFIX constants", M + "queue/")], [],
     "All signer seeds and derived record addresses as byte templates, grouped by purpose; pairwise disjointness; identity of every called program.")

prop("C30", "The program's lookup table holds only its own genuine accounts",
     """Anyone may (re)create the program's address lookup table, but the record always points at a table owned by the program's lookup-table authority that was just extended with the
     program, its configuration, custody, token program, mint, token authority, outbound limiter and the core bridge's program and state; apart from the two accounts the core bridge checks
     itself, no unverified address can be put into it. No other instruction touches the record or the table.""",
     "props_misc.c30", ["inputs"], "for every caller and set of accounts", UNIT,
     [M + "instructions/luts.rs"], [("initialize_lut", M + "instructions/luts.rs")], [("LUT", "address of the current table", M + "instructions/luts.rs")],
     "Paths of initialize_lut: creation, extension, entries and stored record.")

prop("C31", "Broadcasts announce exactly the deployment's own data",
     """Broadcasting the deployment's identity posts exactly one message naming the manager, its mode, the configured mint and that mint's decimals; broadcasting a peer posts exactly one
     message with the requested chain and the transceiver peer registered for that chain. Broadcasts change nothing else, in the manager and in the standalone transceiver.""",
     "props_misc.c31", ["inputs"], "for every caller, chain and set of accounts", UNIT,
     [M + "transceivers/wormhole/instructions/broadcast_id.rs", M + "transceivers/wormhole/instructions/broadcast_peer.rs", T + "wormhole/instructions/broadcast_id.rs",
      T + "wormhole/instructions/broadcast_peer.rs"],
     [("broadcast_id", M + "transceivers/wormhole/instructions/broadcast_id.rs"), ("broadcast_peer", M + "transceivers/wormhole/instructions/broadcast_peer.rs")], [],
     "Paths of the broadcast instructions: posted bytes against the specified layout over the stored records.")

prop("C34", "Every record fits its account in every state it can reach",
     """An account created for a record has room for the type tag and the largest encoding any value of that record type can have (also with optional fields set and the longest status), belongs
     to the program that created it and is written in the same instruction.""",
     "props_misc.c34", ["inputs", "histories"], "for every record type and every value it can hold later", UNIT,
     [M + "config.rs", M + "queue/inbox.rs", M + "queue/outbox.rs", M + "messages.rs", Q + "state.rs"], [("space = 8 + INIT_SPACE", M + "instructions/initialize.rs")], [],
     "Account sizes at creation against the maximal Borsh size computed from the compiler's type layout.")

prop("C35", "No amount, time, id or price silently wraps or loses digits",
     """Every number that is stored, moved, charged, sent or compared is computed exactly: a calculation that leaves its type's range makes the instruction fail (or stops at the documented limit
     of a rate limiter), and no conversion to a smaller type drops digits, in the instructions and in the message encoders; release builds keep overflow checks on.""",
     "props_misc.c35", ["inputs"], "for every instruction, argument and stored value", UNIT,
     [M + "queue/rate_limit.rs", N + "trimmed_amount.rs", Q + "processor/request_relay.rs", "solana/Cargo.toml"],
     [("TrimmedAmount::scale", N + "trimmed_amount.rs"), ("RateLimitState", M + "queue/rate_limit.rs"), ("mul_div", Q + "processor/request_relay.rs")], [],
     "No wrapping operation or possibly lossy conversion in any decision, effect or encoding of any path; release profile.")

prop("C32", "Wormhole messages are posted correctly and the fee is paid",
     """Every message posted to the core bridge comes from the program's own emitter address, goes to the verified core bridge program with finalized consistency, and the bridge
     fee is paid to the fee collector beforehand.""",
     "props_out.c32", ["inputs"], "for every instruction that posts a message", UNIT,
     [M + "transceivers/wormhole/accounts.rs", M + "transceivers/wormhole/instructions/", T + "wormhole/accounts.rs"],
     [("post_message / pay_wormhole_fee", M + "transceivers/wormhole/accounts.rs")], [],
     "Every posting call: emitter, signer seeds, program, finality and preceding fee transfer.")

prop("C33", "Each chain has exactly one peer record, holding what the owner set",
     """Setting a peer stores exactly the given address and decimals, and the given limit, under records addressed by exactly the given chain. A transceiver peer can be set once per
     chain and never replaced; nothing else changes peer records.""",
     "props_admin.c33", ["inputs", "histories"], "for every chain, peer and sequence of instructions", UNIT,
     [M + "instructions/admin.rs", M + "transceivers/wormhole/instructions/admin.rs", T + "wormhole/instructions/admin.rs", M + "peer.rs"],
     [("set_peer", M + "instructions/admin.rs"), ("set_wormhole_peer", M + "transceivers/wormhole/instructions/admin.rs")], [("NttManagerPeer, TransceiverPeer", "peer per chain", M + "peer.rs")],
     "Paths of the peer instructions: addresses, stored values; writer rules.")

prop("C25", "The relay fee is the quoted price and never above the payer's maximum",
     """A relay request charges exactly the quoted price: gas price times gas cost of the registered program, plus the requested gas drop-off, valued at the destination's native price, plus
     the base price, converted at the SOL price; at least the rent of the request record. It is paid by a signer into the request record and the request fails if it would exceed the maximum the payer stated.
     No other instruction of the quoter moves a payer's lamports.""",
     "props_quoter.c25", ["inputs", "configurations"], "for every price, gas parameter, drop-off and maximum fee",
     "The quoter has no unit tests; prices and limits are never exercised.",
     [Q + "processor/request_relay.rs", Q + "state.rs"], [("mul_div chain and max_fee check", Q + "processor/request_relay.rs")],
     [("RegisteredChain / RegisteredNtt / Instance", "prices and gas parameters", Q + "state.rs")],
     "Paths of request_relay: lamports transferred as a term equal to the price formula; bounded by the stated maximum.")

prop("C26", "Relay is requested once, only for a sent transfer, at its destination's terms",
     """A relay can be requested only once per outbound transfer, only after the registered transceiver has sent it, only with the prices of the transfer's own destination chain
     (not disabled) and the registration of the program owning the transfer, and only with a drop-off within the chain's maximum; the request records that drop-off and never changes.
     Only the owner or assistant can close a request, and its balance goes to the fee recipient.""",
     "props_quoter.c26", ["inputs", "histories"], "for every transfer record, chain and registration supplied by any caller",
     "The quoter has no unit tests.",
     [Q + "processor/request_relay.rs", Q + "processor/close_relay.rs"], [("RequestRelay account constraints", Q + "processor/request_relay.rs"), ("check_release_constraint_and_fetch_chain_id", Q + "processor/request_relay.rs"), ("close_relay", Q + "processor/close_relay.rs")],
     [("RelayRequest", "one per outbound transfer", Q + "state.rs")],
     "Paths of request_relay and close_relay: dominating facts on the raw transfer record, derived addresses, stored request, closers.")

prop("C27", "Quoter settings change only under the proper role and stay usable",
     """The quoter is initialised once by the program's upgrade authority, who becomes owner. Only the owner changes assistant and fee recipient; only owner or assistant set
     prices, chain parameters, register chains and programs or remove them; each update stores exactly the given values in the record of the given chain or program. The SOL price and
     fee recipient are never set to zero and a new chain is disabled until its parameters are set.""",
     "props_quoter.c27", ["inputs", "histories"], "for every instruction of the quoter and every caller",
     "The quoter has no unit tests.",
     [Q + "processor/admin.rs", Q + "processor/update_prices.rs", Q + "state.rs"], [("is_authorized / has_one constraints", Q + "processor/admin.rs"), ("update_* instructions", Q + "processor/update_prices.rs")],
     [("Instance", "roles, fee recipient and SOL price", Q + "state.rs")],
     "Writer table of quoter records over all its instructions; role of the signer as dominating fact; stored values compared with arguments.")

prop("C28", "Governance acts only on fresh guardian messages addressed to it",
     """The governance program acts only on a verified core-bridge message from the guardians' governance emitter on the governance chain that names this program,
     and each message at most once: acting creates a permanent record addressed by emitter chain, emitter and sequence number.""",
     "props_gov.c28", ["inputs", "histories"], "for every message, caller and history",
     "The governance program is not built by the stable tests.",
     [G + "instructions/governance.rs"], [("Governance account constraints and replay record", G + "instructions/governance.rs")], [("ReplayProtection", "one record per executed message", G + "instructions/governance.rs")],
     "Paths of the governance instruction: dominating equality facts on the message and address and freshness of the replay record.")

prop("C29", "Governance executes exactly the instruction the guardians signed",
     """The instruction executed is the one in the guardian message: the same program, data and account list in order with the same signer and writable flags, where only the two
     placeholder addresses are replaced (by the governance authority of this program and by the payer). It is signed only by that authority and the transaction's signers, and a signed message cannot be altered by the
     submitter.""",
     "props_gov.c29", ["inputs"], "for every message; account lists of length 0, 1 and 2 with arbitrary entries and of 140 entries with arbitrary entries at chosen positions",
     "The governance program is not built by the stable tests.",
     [G + "instructions/governance.rs"], [("From<GovernanceMessage> for Instruction and placeholder replacement", G + "instructions/governance.rs")], [("governance PDA", "authority the governed programs obey", G + "instructions/governance.rs")],
     "The invoked instruction as a term equals the message's fields with only the placeholders substituted; account lists are expanded element by element.")

M_ = "solana/modules/ntt-messages/src/"

prop("C20", "Messages follow the wire format and decode back exactly",
     """Every value of the message types (chain ids, modes, trimmed amounts, native token transfers with and without additional payload, manager messages, transceiver messages, transceiver info
     and registration broadcasts, governance actions and governance messages) is encoded exactly in the documented byte layout: prefixes, field order, big-endian integers, 16-bit length prefixes.
     Decoding what was encoded gives back the same value and consumes exactly those bytes; input with a wrong prefix, module, action, chain, mode or
     action byte is rejected; the Anchor encodings coincide with the wire encodings.""",
     "props_wire.c20", ["inputs"], "for every value of every message type (governance account lists of length 0 to 3 with arbitrary entries)",
     "The unit tests decode a handful of fixed vectors.",
     [M_ + "ntt.rs", M_ + "ntt_manager.rs", M_ + "transceiver.rs", M_ + "transceivers/wormhole.rs", M_ + "trimmed_amount.rs", M_ + "chain_id.rs", M_ + "mode.rs", G + "instructions/governance.rs"],
     [("Readable / Writeable implementations", M_ + "ntt.rs"), ("GovernanceMessage read/write", G + "instructions/governance.rs")], [],
     "All paths of every encoder over a symbolic value: the written byte string as a term equals the format's term; the decoder is then analysed on that term and on an unconstrained input. "
     "The generic code is instantiated by probe crates that are type-checked, not run.")

prop("C21", "Declared encoded sizes equal the bytes written",
     """For every value of every message type, written_size() and, where given, the constant SIZE equal the number of bytes that encoding the value writes.""",
     "props_wire.c21", ["inputs"], "for every value of every message type (governance account lists of length 0 to 3 with arbitrary entries)",
     "Tests do not compare sizes; the length prefixes of nested payloads are computed from them.",
     [M_ + "ntt.rs", M_ + "ntt_manager.rs", M_ + "transceiver.rs", M_ + "transceivers/wormhole.rs", M_ + "trimmed_amount.rs", M_ + "chain_id.rs", M_ + "mode.rs", G + "instructions/governance.rs"],
     [("written_size / SIZE", M_ + "transceiver.rs")], [],
     "Length of the written byte-string term compared with the value of written_size on the same path and with SIZE.")

TS = dict(tech="abstract evaluation of the TypeScript syntax tree (TypeScript compiler API)",
          note=("The layout constants and address derivations are evaluated symbolically from the syntax trees of the current sources, through imports, spreads, helper functions, loops over known "
                "numbers and conversions; anything the evaluator cannot decide is reported. Trusted: the meaning of the SDK's layout items (universal address = 32 bytes, chain id = 2 bytes, big endian) "
                "and of PublicKey.findProgramAddressSync."),
          explain="Abstract evaluation of the TypeScript syntax trees of the current tree to canonical byte formats and address derivations, each compared with the one the programs use. ",
          rust=False,
          assumptions=["layout items and conversions of @wormhole-foundation/sdk-base behave as documented (universal address: 32 bytes, chain: 2 bytes big endian)",
                       "PublicKey.findProgramAddressSync derives the address of its seeds and program"])

prop("C36", "The TypeScript layouts describe the programs' message formats",
     """The layouts of the TypeScript SDK (trimmed amount, native token transfer, manager message, transceiver message, Wormhole transfer, transceiver info and registration) denote exactly the documented
     byte formats that the Solana programs encode and decode: same prefixes, field order, widths, length prefixes and byte order; an absent additional payload adds no bytes and a present one is
     written as a two-byte length and its bytes, and read back unchanged.""",
     "props_ts.c36", ["inputs"], "for every message value", "No TypeScript test runs here, and the SDK's tests cover a few fixed messages.",
     ["sdk/definitions/src/layouts/amount.ts", "sdk/definitions/src/layouts/transfer.ts", "sdk/definitions/src/layouts/manager.ts", "sdk/definitions/src/layouts/transceiver.ts", "sdk/definitions/src/layouts/wormhole.ts"],
     [("nativeTokenTransferLayout", "sdk/definitions/src/layouts/transfer.ts"), ("transceiverMessageLayout", "sdk/definitions/src/layouts/transceiver.ts"), ("nttManagerMessageLayout", "sdk/definitions/src/layouts/manager.ts")], [],
     "Every layout evaluated to its canonical format and compared with the format that C20 decides on the Rust side.")
PROPS["C36"].update(TS)

prop("C37", "The TypeScript clients derive the addresses the programs use",
     """For every chain, message, sender and transfer arguments, the addresses that the TypeScript clients derive (configuration, rate limits, peers, inbound items, registered transceivers, token, session,
     lookup table and emitter authorities, transceiver messages, posted messages, and the quoter's records) are derived from exactly the seeds that the programs use, including the message digest and the hash
     of the transfer arguments that a session authority is bound to.""",
     "props_ts.c37", ["inputs"], "for every chain id, message, key and transfer argument", "No TypeScript test runs here; a wrong seed only shows when the instruction is sent.",
     ["solana/ts/lib/ntt.ts", "solana/ts/lib/utils.ts", "solana/ts/lib/quoter.ts", "sdk/definitions/src/ntt.ts"],
     [("pdas, transceiverPdas", "solana/ts/lib/ntt.ts"), ("quoterAddresses, derivePda", "solana/ts/lib/utils.ts"), ("Ntt.messageDigest", "sdk/definitions/src/ntt.ts"), ("NttQuoter *Pda", "solana/ts/lib/quoter.ts")], [],
     "Every derivation evaluated to its seed list and compared with the seeds the programs were shown to use.")
PROPS["C37"].update(TS)

E = "evm/src/"
EVM = dict(
    rust=False,
    tech="interprocedural path-sensitive dataflow (abstract interpretation) over the resolved syntax tree of the Solidity sources",
    explain=("Abstract interpretation of the Solidity sources of the current tree (own parser, inheritance linearised, modifiers and library calls inlined): every path of every external function to a "
             "successful return, with the facts that dominate it and, in order, its storage writes, calls and events; each rule is one obligation per matching construct. "),
    note=("Every path of the sources to a successful return is covered, for all arguments, callers and stored state; anything the analysis cannot decide is reported. Trusted: the models of the libraries that "
          "are not checked out (OpenZeppelin, wormhole-solidity-sdk), and that hashes of distinct inputs differ."),
    assumptions=[
        "the models of BytesParsing, SafeCast, SafeERC20, ERC1967Upgrade, Address, wormhole Utils and the interfaces of the core bridge, relayers and token in engine/solint.py match those libraries (they are git submodules that are not checked out)",
        "reentrant calls are not followed: that state is final before other contracts are called and that the guard is held is checked instead",
        "a token's decimals do not change, and block time is monotone and below 2^64",
        "storage slots are those of the documented names; Keccak-256 is treated as injective",
        "the Solidity compiler implements the documented semantics (checked arithmetic, reverts roll back)",
    ])
NOEVM = "The stable tests are Rust only; no Solidity runs here."

prop("C38", "EVM: messages are encoded and parsed by one exact format",
     """On EVM chains every message kind (manager message, native token transfer with and without additional payload, transceiver message, transceiver instructions, transceiver info and registration, general purpose
     governance, the Wormhole transceiver's instruction) has exactly one layout of prefix, fields, widths and length fields, the one used on the other chains. Encoding writes that layout and refuses values whose length
     does not fit; parsing reads the same fields and refuses wrong prefixes, cut-off input and left-over bytes; parsing what was encoded gives it back. Instructions are stored at their own index, in strictly
     increasing order, below the number of registered transceivers; the message digest is the hash of source chain and encoded message.""",
     "props_evm.c38", ["inputs"], "for every message value and every byte string", NOEVM,
     [E + "libraries/TransceiverStructs.sol", E + "wormhole/Governance.sol", E + "Transceiver/WormholeTransceiver/WormholeTransceiver.sol"],
     [("encode*/parse* functions", E + "libraries/TransceiverStructs.sol"), ("encode/parseGeneralPurposeGovernanceMessage", E + "wormhole/Governance.sol")], [],
     "Each encoder and parser summarised and compared with the layout; the encoder's result fed to the parser.")

prop("C39", "EVM: an inbound transfer is executed once, when approved, for its own amount",
     """On EVM chains a manager message is executed at most once, marked so before any other contract is called, and only when enabled transceivers numbering at least the (nonzero) threshold have attested to its digest; the
     manager is not paused, the message came from the registered peer of its source chain, is a native token transfer and is addressed to this chain. A transceiver must be enabled to attest and counts once. The execution
     pays exactly the amount (scaled to the token's decimals) to exactly the recipient, by unlocking in locking mode and minting in burning mode, or queues exactly that; a queued transfer is paid once, after the rate limit
     duration. Nothing else releases tokens, records attestations or writes the inbound queue, and releases are refused on a fork of the chain.""",
     "props_evm.c39", ["histories", "inputs"], "for every message, caller, order of attestations and stored state", NOEVM,
     [E + "NttManager/NttManager.sol", E + "NttManager/ManagerBase.sol", E + "NttManager/TransceiverRegistry.sol", E + "libraries/TrimmedAmount.sol"],
     [("attestationReceived, executeMsg, completeInboundQueuedTransfer", E + "NttManager/NttManager.sol"), ("_recordTransceiverAttestation, _isMessageExecuted, _replayProtect", E + "NttManager/ManagerBase.sol")],
     [("messageAttestations", "attestation bits and executed flag by message digest", E + "NttManager/ManagerBase.sol")],
     "Every path of every external function of both managers judged.")

prop("C40", "EVM: an outbound transfer takes what it sends, and sends it once",
     """On EVM chains a transfer pulls its tokens from the caller, measures what arrived, burns exactly that in burning mode, and refuses amounts the destination cannot represent exactly (no dust is taken). It uses and
     advances the message sequence by one and hands exactly one message, saying the amount, token, recipient, destination chain and sender, to every enabled transceiver with that transceiver's instruction, quoted fee, the
     peer and the refund address; excess payment is returned. A queued transfer keeps all its fields, is completed or cancelled at most once, completed only after the delay and cancelled only by its sender for its
     amount. Zero amounts, recipients and refund addresses, destinations without peer and calls while paused are refused, as is reentrancy; the delivery quote is that of the same transfer.""",
     "props_evm.c40", ["histories", "inputs"], "for every transfer, caller and stored state", NOEVM,
     [E + "NttManager/NttManager.sol", E + "NttManager/ManagerBase.sol", E + "libraries/TrimmedAmount.sol"],
     [("_transferEntryPoint, _transfer, completeOutboundQueuedTransfer, cancelOutboundQueuedTransfer", E + "NttManager/NttManager.sol"), ("_prepareForTransfer, _sendMessageToTransceivers, quoteDeliveryPrice", E + "NttManager/ManagerBase.sol")],
     [("outboundQueue", "queued transfers by sequence", E + "libraries/RateLimiter.sol"), ("messageSequence", "next sequence number", E + "NttManager/ManagerBase.sol")],
     "Every path of every external function of both managers judged.")

prop("C41", "EVM: rate limits are enforced and replenished as configured",
     """On EVM chains, when rate limiting is on, a transfer passes at once only if its amount is within the current capacity of its direction (outbound, or inbound per source chain), which is then reduced by it with the time
     recorded; otherwise it is queued (inbound always, outbound only on request) or refused. Capacity replenishes linearly to the limit over the rate limit duration and never exceeds the limit; a passing transfer gives its
     amount back to the opposite direction up to the limit; changing a limit keeps the used amount. Nothing else changes the capacities, unchecked arithmetic stays in range, and without rate limiting nothing is queued or
     delayed.""",
     "props_evm.c41", ["histories", "inputs", "schedules"], "for every history of transfers, limit changes and times", NOEVM,
     [E + "libraries/RateLimiter.sol", E + "libraries/TrimmedAmount.sol", E + "NttManager/NttManager.sol", E + "NttManager/NttManagerNoRateLimiting.sol"],
     [("_consumeRateLimitAmount, _backfillRateLimitAmount, _getCurrentCapacity, _setLimit", E + "libraries/RateLimiter.sol")],
     [("outboundLimitParams, inboundLimitParams", "limit, capacity at the last transfer, time of the last transfer", E + "libraries/RateLimiter.sol")],
     "Every path of every external function of both managers judged against the capacity as a function of stored state and time.")

prop("C42", "EVM: administration is the owner's, and the registry stays consistent",
     """On EVM chains only the owner changes peers, limits, the threshold, transceivers, transceiver settings, implementation and ownership; only the owner or pauser pauses, only the owner unpauses, and only the pauser or owner hands
     on the pauser role. Initialisation and migration run once each, through the proxy, by the deployer or the upgrade itself; an upgrade keeps the immutable token, mode and chain. Registered transceivers keep their index
     for ever, the enabled bitmap, list, count and flags agree, at most 64 are registered, and the threshold is never zero or more than the enabled ones once one is enabled. Peers are nonzero, never this chain, and a
     Wormhole peer is set once.""",
     "props_evm.c42", ["histories", "inputs"], "for every caller, argument and history of administration", NOEVM,
     [E + "NttManager/ManagerBase.sol", E + "NttManager/NttManager.sol", E + "NttManager/TransceiverRegistry.sol", E + "libraries/Implementation.sol", E + "libraries/PausableUpgradeable.sol", E + "Transceiver/Transceiver.sol",
      E + "Transceiver/WormholeTransceiver/WormholeTransceiverState.sol"],
     [("_setTransceiver, _removeTransceiver, _setThreshold", E + "NttManager/TransceiverRegistry.sol"), ("_upgrade, initialize, migrate", E + "libraries/Implementation.sol"), ("pause, transferPauserCapability", E + "libraries/PausableUpgradeable.sol")],
     [("transceiverInfos, transceiverBitmap, enabledTransceivers, numRegisteredTransceivers", "the registry", E + "NttManager/TransceiverRegistry.sol")],
     "Every write to administrative storage in every external function of the managers and the transceiver judged.")

prop("C43", "EVM: the Wormhole transceiver delivers each verified peer message once",
     """On EVM chains the Wormhole transceiver hands a message to the manager only when the core bridge verified it (or the relayer delivered it), it came from the peer registered for its chain, is addressed to this manager, parses
     exactly, and its hash was not consumed before; the hash is consumed before the manager is called, and the manager gets exactly the chain, source manager and message of the payload. Only the manager sends; the payload
     names it and the recipient; the message goes by the route that the settings and the instruction choose, to the peer, with the whole fee, and the quoted price is that of the route taken.""",
     "props_evm.c43", ["histories", "inputs"], "for every message, caller, setting and history", NOEVM,
     [E + "Transceiver/WormholeTransceiver/WormholeTransceiver.sol", E + "Transceiver/WormholeTransceiver/WormholeTransceiverState.sol", E + "Transceiver/Transceiver.sol"],
     [("receiveMessage, receiveWormholeMessages, _sendMessage, _quoteDeliveryPrice, _verifyMessage", E + "Transceiver/WormholeTransceiver/WormholeTransceiver.sol")],
     [("consumedVAAs", "hashes already delivered", E + "Transceiver/WormholeTransceiver/WormholeTransceiverState.sol")],
     "Every path of every external function of the transceiver judged.")

prop("C44", "EVM: governance performs each verified action once, as written",
     """On EVM chains the governance contract calls another contract only for a message that the core bridge verified, that came from the governance chain and contract, is of the general purpose module, for this chain, this
     contract and the call action, parses exactly and was not performed before; it is marked performed first, the call is exactly the target and data in the message, and a failing call reverts.""",
     "props_evm.c44", ["histories", "inputs"], "for every governance message and history", NOEVM,
     [E + "wormhole/Governance.sol"],
     [("performGovernance, _verifyGovernanceVAA, _replayProtect", E + "wormhole/Governance.sol")],
     [("consumedGovernanceActions", "hashes already performed", E + "wormhole/Governance.sol")],
     "Every path of every external function of the contract judged.")
for _i in range(38, 45):
    PROPS[f"C{_i}"].update(EVM)

NA = []
import catalog_na  # noqa: E402
for _p in catalog_na.NA:
    NA.append(_p)


def rule(pid):
    m, f = PROPS[pid]["fn"].split(".")
    return getattr(importlib.import_module(m), f)


def known_findings(here):
    """lines 'known: property=<id> key=<rule @ construct> :: what' and 'fixed: property=<id> <commit> what'"""
    known, fixed = {}, []
    p = here + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property="):
                pid, rest = l[len("known: property="):].split(" ", 1)
                k, what = rest[len("key="):].split(" :: ", 1)
                known[(pid, k)] = what
            elif l.startswith("fixed:"):
                fixed.append(l)
    return known, fixed


def generate(here):
    with open(here + "/properties.jsonl", "w") as f:
        for p in list(PROPS.values()) + NA:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]], "hook_needed": None},
            }) + "\n")
    man = {
        "version": 1, "setup_cmd": "python3 engine/extract.py",
        "checks": [{"property": i, "quick_cmd": f"bin/check {i}", "thorough_cmd": f"bin/check {i} --thorough", "technique": TECH if "tech" not in p else p["tech"],
                    "level": "other", "level_note": p["how"] + " " + p.get("note", NOTE)} for i, p in PROPS.items()],
        "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
        "notes": "No hooks in /repo: the analysis reads the source as it is.",
    }
    with open(here + "/MANIFEST.json", "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    generate(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
