"""C26: CTC automata, Baum-Welch, Viterbi and edit distances compute their definitions."""
import math
import os
import random
from ..harness import Prop


def integer(x):
    """a sum of products of integers; -1: it is not an integer"""
    x = float(x)
    if math.isnan(x) or math.isinf(x) or abs(x) > 1e7:
        return -1
    return int(round(x)) if abs(x - round(x)) <= 0.02 + 2e-4 * abs(x) else -1


def from_neglog(x):
    x = float(x)
    if math.isnan(x) or x == -math.inf:
        return -1
    return 0 if x > 1e20 else integer(math.exp(-x))


class P(Prop):
    id = "C26"
    trace_module = "AlignTrace"
    case_timeout = 400
    num_procs = 8
    rule = (
        "seeded batches of label sequences / frame weights / random weighted automata / pairs of symbol sequences, of different lengths per entry, through the Python and native FSA constructions,"
        " the native Baum-Welch, Viterbi and edit distance ops and the CTC losses (values and gradients); exact comparison (sums of products of integers)"
    )

    def models(self, tier):
        c = "SPECIFICATION Spec\nINVARIANT Forward\nINVARIANT Rows\nINVARIANT Completion\nINVARIANT Symmetric\nCHECK_DEADLOCK FALSE\nCONSTANTS K=%i MaxL=%i MaxT=%i\n"
        return [("AlignMC", c % ((3, 3, 4) if tier == "thorough" else (3, 2, 4)), {"workers": 4})]

    def cases(self, tier, rng):
        out = []
        n = 4000 if tier == "thorough" else 240
        for i in range(n):
            kind = rng.choice(["ctc", "ctc", "ctc", "auto", "ed", "ed"])
            B = rng.randint(1, 3)
            c = {"kind": kind, "seed": rng.randrange(10**9)}
            if kind == "ctc":
                K = rng.choice([2, 3, 3, 4])
                blank = rng.choice([0, K - 1, K - 1, rng.randrange(K)])
                labs = [[rng.choice([x for x in range(K) if x != blank]) for _ in range(rng.randint(1, 3))] for _ in range(B)]
                Ts = [rng.randint(max(1, len(x) - (rng.random() < 0.1)), 5) for x in labs]
                c.update(K=K, blank=blank, labs=labs, loop=rng.random() < 0.7, tm=rng.random() < 0.5,
                         ws=[[[rng.randint(1, 3) for _ in range(K)] for _ in range(T)] for T in Ts])  # fmt: skip
            elif kind == "auto":
                K = rng.randint(1, 4)
                fsas, Ts = [], [rng.randint(1, 5) for _ in range(B)]
                for _ in range(B):
                    S = rng.randint(2, 4)
                    E = set()
                    for s in range(S - 1):
                        E.add((s, s + 1, rng.randrange(K)))
                    for _ in range(rng.randint(1, 5)):
                        s = rng.randrange(S)
                        E.add((s, rng.randint(s, S - 1), rng.randrange(K)))
                    E = [[*e, rng.randint(1, 2)] for e in sorted(E)]
                    rng.shuffle(E)
                    fsas.append([S, E])
                c.update(K=K, fsas=fsas, ws=[[[rng.randint(1, 3) for _ in range(K)] for _ in range(T)] for T in Ts])
            else:
                B = rng.randint(1, 4)
                K = rng.randint(1, 4)
                c.update(K=K, a=[[rng.randrange(K) for _ in range(rng.choice([0, 1, 2, 3, 4, 5]))] for _ in range(B)],
                         b=[[rng.randrange(K) for _ in range(rng.choice([0, 1, 2, 3, 4, 5]))] for _ in range(B)],
                         succ=rng.sample(range(K + 1), rng.randint(1, K + 1)))  # fmt: skip
            out.append(c)
        return out

    def setup_worker(self, scratch):
        # The native ops are compiled once per run of the check.
        os.environ["RETURNN_CACHE_DIR"] = os.environ.get("VP_RETURNN_CACHE_DIR") or os.path.dirname(os.path.abspath(scratch)) + "/native_cache"
        self._graph = None

    def graph(self):
        """all ops, with placeholders"""
        if self._graph:
            return self._graph
        import tensorflow as tf
        import returnn.tf.compat as tf_compat
        from returnn.tf import native_op as N

        tf_compat.v1.disable_eager_execution()
        ph = tf_compat.v1.placeholder
        G = {}

        def fsa_parts():
            targets, tlen, blank = ph(tf.int32, [None, None]), ph(tf.int32, [None]), ph(tf.int32, [])
            for loop in (False, True):
                G["fsa%i" % loop] = dict(targets=targets, tlen=tlen, blank=blank, out=N.get_ctc_fsa_fast_bw(targets, tlen, blank, label_loop=loop))

        def bw():
            am, edges, weights, se, idx = ph(tf.float32, [None] * 3), ph(tf.int32, [4, None]), ph(tf.float32, [None]), ph(tf.int32, [2, None]), ph(tf.float32, [None, None])
            G["bw"] = dict(am=am, edges=edges, weights=weights, se=se, idx=idx, out=N.fast_baum_welch(am, edges, weights, se, idx))

        def vit():
            am, edges, weights, se, n = ph(tf.float32, [None] * 3), ph(tf.int32, [4, None]), ph(tf.float32, [None]), ph(tf.int32, [2, None]), ph(tf.int32, [None])
            G["vit"] = dict(am=am, edges=edges, weights=weights, se=se, n=n, out=N.fast_viterbi(am, n, edges, weights, se))

        def ed():
            a, b = ph(tf.int32, [None, None]), ph(tf.int32, [None, None])
            an, bn, succ, blank = ph(tf.int32, [None]), ph(tf.int32, [None]), ph(tf.int32, [None]), ph(tf.int32, [])
            i = dict(a=a, b=b, an=an, bn=bn, succ=succ, blank=blank)
            G["ed"] = dict(i, out=N.edit_distance(a, an, b, bn))
            G["oc"] = dict(i, out=N.optimal_completion_edit_distance(a, an, b, bn))
            G["ocs"] = dict(i, out=N.optimal_completion_edit_distance_per_successor(a, an, b, bn, succ))
            G["row"] = dict(i, out=N.edit_distance_via_next_edit_distance_row(a, an, b, bn, full_row_output=True))
            G["edr"] = dict(i, out=N.edit_distance_via_next_edit_distance_row(a, an, b, bn))
            row = N.edit_distance_via_next_edit_distance_row(a, an, b, bn, full_row_output=True)
            for oc in (False, True):
                G["red%i" % oc] = dict(i, out=N.next_edit_distance_reduce(row, a=succ[None], a_n=an, a_ended=tf.zeros_like(an), b=b, b_len=bn, optimal_completion=oc, a_blank_idx=blank))

        parts = [fsa_parts, bw, vit, ed]
        k = os.getpid() % 4
        for f in parts[k:] + parts[:k]:
            f()
        G["session"] = tf_compat.v1.Session(config=tf_compat.v1.ConfigProto(intra_op_parallelism_threads=1, inter_op_parallelism_threads=1))
        G["losses"] = {}
        self._graph = G
        return G

    def loss_graph(self, K, blank, loop, tm, norm):
        import tensorflow as tf
        import returnn.tf.compat as tf_compat
        from returnn.tf import native_op as N

        G = self.graph()
        key = (K, blank, loop, tm, norm)
        if key not in G["losses"]:
            ph = tf_compat.v1.placeholder
            logits, n, t, tn = ph(tf.float32, [None, None, K]), ph(tf.int32, [None]), ph(tf.int32, [None, None]), ph(tf.int32, [None])
            loss = N.ctc_loss(logits, n, tm, t, tn, ctc_merge_repeated=loop, logits_normalize=norm, grad_wrt_softmax_in=norm, blank_index=blank)
            out = [loss, tf.gradients(tf.reduce_sum(loss), logits)[0]]
            vit = N.ctc_loss_viterbi(logits, n, tm, t, tn, blank_index=blank)
            out += [vit, tf.gradients(tf.reduce_sum(vit), logits)[0]]
            G["losses"][key] = dict(logits=logits, n=n, t=t, tn=tn, out=out)
        return G["losses"][key]

    def run(self, g, **feed):
        return self.graph()["session"].run(g["out"], {g[k]: v for k, v in feed.items()})

    def run_case(self, c, scratch):
        import numpy as np

        rng = random.Random(c["seed"])
        ev = getattr(self, "run_" + c["kind"])(c, rng, np)
        return [{"cfg": {}, "ev": [e]} for e in ev]

    def weights_array(self, c, rng, np):
        ws, K = c["ws"], c["K"]
        T = max(map(len, ws))
        w = np.array([[[rng.choice([1, 5, 9]) for _ in range(K)] for _ in ws] for _ in range(T)], "float32")  # garbage in the padding
        idx = np.zeros([T, len(ws)], "float32")
        for b, x in enumerate(ws):
            w[: len(x), b] = x
            idx[: len(x), b] = 1
        return w, idx

    def run_ctc(self, c, rng, np):
        from returnn.util.fsa import get_ctc_fsa_fast_bw

        G = self.graph()
        K, blank, labs, loop, ws = (c[k] for k in ("K", "blank", "labs", "loop", "ws"))
        B = len(labs)
        tn = np.array([len(x) for x in labs], "int32")
        # garbage after the labels, like in any padded batch
        t = np.array([[x[i] if i < len(x) else rng.randrange(K) for i in range(max(tn))] for x in labs], "int32")
        w, idx = self.weights_array(c, rng, np)
        ev = []
        fsas = [("native", loop, self.run(G["fsa%i" % loop], targets=t, tlen=tn, blank=blank))]
        if loop:
            f = get_ctc_fsa_fast_bw(t, tn, blank)
            fsas.append(("py", loop, (f.edges, f.weights, f.start_end_states)))
        for _, lp, (edges, weights, se) in fsas:
            for b in range(B):
                E = [[int(x) for x in e[:3]] for e in np.array(edges).T if e[3] == b]
                ev.append({"op": "fsa", "edges": E, "s": int(se[0][b]), "fin": int(se[1][b]), "lab": labs[b], "T": 5 if K < 4 else 4, "K": K, "blank": blank, "loop": lp})
            fwdbwd, obs = self.run(G["bw"], am=-np.log(w), edges=edges, weights=weights, se=se, idx=idx)
            ev += self.bw_events(c, fwdbwd, obs[0], np)
            al, sc = self.run(G["vit"], am=np.log(w), edges=edges, weights=weights, se=se, n=idx.sum(0).astype("int32"))
            for b in range(B):
                E = [[*(int(x) for x in e[:3]), 1] for e in np.array(edges).T if e[3] == b]
                ev.append({"op": "vit", "edges": E, "s": int(se[0][b]), "fin": int(se[1][b]), "w": ws[b], "best": from_neglog(-sc[b]), "align": [int(x) for x in al[: len(ws[b]), b]]})
        # Only feasible ones for the losses.
        for norm in (False, True):
            g = self.loss_graph(K, blank - (K if rng.random() < 0.5 else 0), loop, c["tm"], norm)
            x = np.log(w)
            loss, grad, vit, vgrad = self.run(g, logits=x if c["tm"] else x.transpose(1, 0, 2), n=idx.sum(0).astype("int32"), t=t, tn=tn)
            if not c["tm"]:
                grad, vgrad = grad.transpose(1, 0, 2), vgrad.transpose(1, 0, 2)
            sm = w / w.sum(-1, keepdims=True)
            for b in range(B):
                n = len(ws[b])
                z = float(np.prod(w[:n, b].sum(-1)))
                tot = integer(math.exp(-loss[b]) * (z if norm else 1)) if loss[b] < 1e20 else 0
                p = ((sm[:n, b] if norm else 0) - grad[:n, b]) * max(1, tot)
                post = [[integer(v) for v in r] for r in p]
                if np.abs(grad[n:, b]).max(initial=0) > 0:
                    post[0][0] = -2  # gradient in the padding
                ev.append({"op": "bw", "lab": labs[b], "w": ws[b], "K": K, "blank": blank, "loop": loop, "total": tot, "post": post})
                # gradient: softmax minus the best path
                hot = sm[:n, b] - vgrad[:n, b]
                align = [int(r.argmax()) if np.abs(r - np.eye(K)[r.argmax()]).max() < 1e-3 else -1 for r in hot]
                if np.abs(vgrad[n:, b]).max(initial=0) > 0:
                    align[0] = -2
                ev.append({"op": "ctcvit", "align": align, "lab": labs[b], "w": ws[b], "K": K, "blank": blank, "best": integer(math.exp(-vit[b]) * z) if vit[b] < 1e20 else 0})
        return ev

    def bw_events(self, c, fwdbwd, obs, np):
        ev = []
        for b, w in enumerate(c["ws"]):
            tot = from_neglog(obs[b])
            post = [[integer(math.exp(-min(float(v), 1e20)) * max(1, tot)) if v == v else -1 for v in r] for r in fwdbwd[: len(w), b]]
            ev.append({"op": "bw", "lab": c["labs"][b], "w": w, "K": c["K"], "blank": c["blank"], "loop": c["loop"], "total": tot, "post": post})
        return ev

    def run_auto(self, c, rng, np):
        G = self.graph()
        w, idx = self.weights_array(c, rng, np)
        edges, weights, se, off = [], [], [], 0
        for b, (S, E) in enumerate(c["fsas"]):
            for f, t, l, x in E:
                edges.append((f + off, t + off, l, b))
                weights.append(-math.log(x))
            se.append((off, off + S - 1))
            off += S
        edges, weights, se = np.array(edges, "int32").T, np.array(weights, "float32"), np.array(se, "int32").T
        fwdbwd, obs = self.run(G["bw"], am=-np.log(w), edges=edges, weights=weights, se=se, idx=idx)
        al, sc = self.run(G["vit"], am=np.log(w), edges=edges, weights=-weights, se=se, n=idx.sum(0).astype("int32"))
        ev = []
        for b, (S, E) in enumerate(c["fsas"]):
            ws = c["ws"][b]
            tot = from_neglog(obs[0][b])
            post = [[integer(math.exp(-min(float(v), 1e20)) * max(1, tot)) if v == v else -1 for v in r] for r in fwdbwd[: len(ws), b]]
            base = {"edges": E, "s": 0, "fin": S - 1, "w": ws, "K": c["K"]}
            ev.append({"op": "gbw", "total": tot, "post": post, **base})
            ev.append({"op": "vit", "best": from_neglog(-sc[b]), "align": [int(x) for x in al[: len(ws), b]], **base})
        return ev

    def run_ed(self, c, rng, np):
        G = self.graph()
        A, Bs, succ = c["a"], c["b"], c["succ"]

        def arr(xs):
            n = max(map(len, xs))
            return np.array([[x[i] if i < len(x) else rng.randrange(c["K"]) for i in range(n)] for x in xs], "int32").reshape(len(xs), n)

        blank = rng.choice([-1, -1, rng.randrange(c["K"])])
        feed = dict(a=arr(A), b=arr(Bs), an=np.array([len(x) for x in A], "int32"), bn=np.array([len(x) for x in Bs], "int32"))
        i = lambda x: [int(v) for v in x]  # noqa
        r = {k: self.run(G[k], **feed, **({"succ": np.array(succ, "int32")} if k in ("ocs", "red0", "red1") else {}), **({"blank": blank} if k.startswith("red") else {})) for k in ("ed", "oc", "ocs", "row", "edr", "red0", "red1")}
        ev = []
        for k, (a, b) in enumerate(zip(A, Bs)):
            base = {"a": a, "b": b}
            ev.append({"op": "ed", "res": int(r["ed"][k]), **base})
            ev.append({"op": "ed", "res": int(r["edr"][k]), **base})
            ev.append({"op": "row", "res": i(r["row"][k][: len(b) + 1]), **base})
            ev.append({"op": "oc", "res": int(r["oc"][k]), **base})
            ev.append({"op": "ocsucc", "res": i(r["ocs"][k]), "succ": succ, **base})
            ev.append({"op": "edsucc", "res": i(r["red0"][k]), "succ": succ, "blank": blank, **base})
            if blank < 0:
                ev.append({"op": "ocsucc", "res": i(r["red1"][k]), "succ": succ, **base})
        return ev
