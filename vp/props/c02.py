"""C02: semantics of the seq_ordering schemes; the order is a function of (config, epoch) only."""
from ..harness import Prop
from . import seqorder_common as S


class P(Prop):
    id = "C02"
    trace_module = "SeqSchemeTrace"
    rule = "as C01, but requests cover 2..4 complete full epochs, so that the order of whole epochs can be judged"
    assumptions = ("corpora up to 40 sequences (thorough: 150)", "bins <= 5",
                   "reshuffling is only demanded of 'random' with n>=12")  # fmt: skip

    def models(self, tier):
        big = tier == "thorough"
        c = "SPECIFICATION Spec\nINVARIANT NoClauseViolated\nINVARIANT ExactlyOnce\nVIEW View\nCONSTANTS\n"
        kinds = '{"default","reverse","sorted","sorted_reverse","laplace","sort_bin_shuffle","sort_bin_shuffle_x2"}'
        return [
            ("SeqOrderMC", c + f" MaxN={4 if big else 3} MaxP=2 MaxS=1 MaxR=1 MaxLen=2 HistLen={4 if big else 3} EmitHist=FALSE Kinds={kinds}\n")
        ]

    def cases(self, tier, rng):
        big = tier == "thorough"
        cases = []
        for i in range(12000 if big else 1300):
            c = S.random_case(
                rng, kinds=["base", "base", "static", "map", "hdf", "ogg"], methods=S.METHODS + ["random", "laplace"],
                want_scheme=True, max_n=150 if big else 40,
            )  # fmt: skip
            if i % 160 == 0:
                c["subproc"] = True
                c["callable_order"] = False
            cases.append(c)
        return cases

    def run_case(self, case, scratch):
        return S.run(case, scratch)
