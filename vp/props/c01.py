"""C01: partition_epoch x sharding x repeat_epoch is an exactly-once, balanced cover of the corpus."""
from ..harness import Prop
from .. import tlc
from . import seqorder_common as S


class P(Prop):
    id = "C01"
    trace_module = "SeqOrderTrace"
    rule = (
        "a case = one corpus configuration (class, n, lengths, tags, P, S, R, scheme, unique, filter) plus a history of"
        " (epoch, shard, fresh-instance) requests; histories come from TLC and from seeded generation."
        " Two cases are distinct when the recorded trace differs."
    )
    assumptions = ("corpora up to 40 sequences (thorough: 150)", "P<=8, shards<=4, repeat<=3")

    def models(self, tier):
        big = tier == "thorough"
        c = "SPECIFICATION Spec\nINVARIANT NoClauseViolated\nINVARIANT ExactlyOnce\nVIEW View\nCONSTANTS\n"
        res = [
            ("SeqOrderMC", c + f' MaxN={4 if big else 3} MaxP=2 MaxS=2 MaxR=2 MaxLen=1 HistLen={4 if big else 3} EmitHist=FALSE Kinds={{"random","default"}}\n')
        ]
        return res

    def cases(self, tier, rng):
        big = tier == "thorough"
        beh, _ = tlc.generate(
            "SeqOrderMC",
            "SPECIFICATION Spec\nINVARIANT Emit\nCONSTANTS\n"
            ' MaxN=1 MaxP=2 MaxS=2 MaxR=1 MaxLen=1 HistLen=3 EmitHist=TRUE Kinds={"default"}\n',
        )
        beh = list({str((b["P"], b["S"], b["h"])): b for b in beh}.values())
        self.num_spec_behaviours = len(beh)
        rng.shuffle(beh)
        cases = []
        for b in beh[: None if big else 150]:
            c = S.random_case(rng, kinds=["base", "base", "hdf"], methods=S.METHODS, want_scheme=False, max_n=20)
            c["P"], c["S"] = b["P"], b["S"]
            if c["P"] > 1:
                c["R"] = 1
            tail = [[f * c["P"] + k + 1, s, False] for f in (0, 1) for k in range(c["P"]) for s in range(c["S"])]
            c["hist"] = [[e, s, False] for e, s in b["h"]] + tail
            cases.append(c)
        for _ in range(12000 if big else 1200):
            cases.append(
                S.random_case(
                    rng, kinds=["base", "base", "static", "map", "hdf", "ogg"], methods=S.METHODS, want_scheme=False,
                    max_n=150 if big else 40,
                )
            )  # fmt: skip
        return cases

    def run_case(self, case, scratch):
        return S.run(case, scratch)
