"""Properties of the repository that this family cannot decide here, with the reason."""


def na(pid, title, statement, over, qtext, why, files, mech, reason):
    return dict(id=pid, title=title, statement=" ".join(statement.split()), over=over, qtext=qtext, why=why, files=files, mech=mech, state=(), reason=reason)


NA = [
    na("N04", "Every approved transfer can eventually be released",
       "Once an inbound transfer is approved and its delay elapsed, some sequence of calls pays it out (custody holds enough, accounts can be created, compute budget suffices).",
       ["histories", "schedules"], "for every history", "Liveness over unbounded histories.",
       ["solana/programs/example-native-token-transfers/src/instructions/release_inbound.rs"], [("release instructions", "solana/programs/example-native-token-transfers/src/instructions/release_inbound.rs")],
       "Liveness: depends on run-time balances on two chains, compute units and external programs, which no sound static argument in reach can bound."),
]
