"""C01-C07, C09, C16, C18(azp part): AZP family, objective functions, util."""
import math
import random as R
from collections import deque

import numpy as np

from .common import *
from .common import _random


def objective(spec):
    from region.objective_function import (ObjectiveFunctionCenter,
                                           ObjectiveFunctionPairwise)
    if spec["kind"] == "pairwise":
        return ObjectiveFunctionPairwise(metric_arg(spec["metric"]))
    return ObjectiveFunctionCenter(metric_arg(spec["metric"]),
                                   center=CENTERS[spec["center"]],
                                   reduction=REDUCTIONS[spec["reduction"]])


def obj_value(spec, labels, attr):
    if spec["kind"] == "pairwise":
        return pair_obj(labels, attr, spec["metric"])
    return center_obj(labels, attr, spec["metric"], spec["center"],
                      spec["reduction"])


def rand_objective(rng):
    metric = rng.choice(["manhattan", "euclidean", "custom"])
    if rng.random() < 0.65:
        return {"kind": "pairwise", "metric": metric}
    return {"kind": "center", "metric": metric,
            "center": rng.choice(sorted(CENTERS)),
            "reduction": rng.choice(sorted(REDUCTIONS))}


def strategy(name, seed):
    """Move-acceptance strategies, the library's own and adversarial ones."""
    from region.p_regions.azp_util import (AllowMoveAZP, AllowMoveStrategy,
                                           AllowMoveAZPSimulatedAnnealing)
    if name == "default":
        return None
    if name == "azp":
        return AllowMoveAZP()
    if name == "sa":
        return AllowMoveAZPSimulatedAnnealing(init_temperature=5.0,
                                              sa_moves_term=3)

    class Always(AllowMoveStrategy):
        def __call__(self, moving_area, new_region, labels):
            return True

    class Never(AllowMoveStrategy):
        def __call__(self, moving_area, new_region, labels):
            return False

    class Coin(AllowMoveStrategy):
        rng = _random.Random(seed)
        budget = 60

        def __call__(self, moving_area, new_region, labels):
            ok = self.rng.random() < 0.5
            if ok and self.budget > 0:      # "improves": another pass follows
                self.budget -= 1
                self.objective_val = self.objective_val - 1
            return ok
    return {"always": Always, "never": Never, "coin": Coin}[name]()


def base_case(rng, i, nmax=9, connected_only=False, initial=None):
    n, edges = pick_graph(rng, i, nmax, connected_only)
    p = rand_p(rng, n, edges)
    case = {"n": n, "edges": edges, "p": p,
            "attr": rand_attr(rng, n), "one_d": rng.random() < 0.25,
            "adj_dtype": rng.choice(["float", "int"]),
            "objective": {"kind": "pairwise", "metric": "manhattan"},
            "seed": rng.randrange(10 ** 6)}
    if rng.random() < 0.3:
        case["objective"] = rand_objective(rng)
    if initial is True or (initial is None and rng.random() < 0.5):
        case["initial"] = rand_partition(rng, n, edges, p)
        case["init_dtype"] = rng.choice(["int64", "int32", "float64"])
    if rng.random() < 0.3:
        case["method"] = rng.choice(["fit", "fit_from_w", "fit_from_dict",
                                     "fit_from_networkx"])
    return case


def do_fit(model, case, **extra):
    """Fit through the entry point the case names (default: sparse matrix)."""
    n, edges = case["n"], case["edges"]
    adj = adj_of(n, edges, {"float": float, "int": int}[case.get("adj_dtype", "float")])
    attr = attr_arr(case["attr"], case.get("one_d", False))
    init = case.get("initial")
    if init is not None:
        init = np.array(init, dtype=case.get("init_dtype", "int64"))
    kw = dict(extra)
    if "objective" in case:
        kw["objective_func"] = objective(case["objective"])
    method = case.get("method", "fit_from_scipy_sparse_matrix")
    if method == "fit" and not hasattr(model, "fit"):
        method = "fit_from_scipy_sparse_matrix"
    if method == "fit_from_dict":
        nb = nbrs(n, edges)
        a2 = attr_arr(case["attr"])
        model.fit_from_dict({i: sorted(nb[i]) for i in range(n)},
                            {i: list(a2[i]) for i in range(n)}, case["p"],
                            initial_labels=None if init is None else
                            {i: int(init[i]) for i in range(n)}, **kw)
    elif method == "fit_from_networkx":
        import networkx as nx
        g = nx.Graph()
        g.add_nodes_from(range(n))
        g.add_edges_from(edges)
        a2 = attr_arr(case["attr"])
        model.fit_from_networkx(g, {i: list(a2[i]) for i in range(n)}, case["p"],
                                initial_labels=None if init is None else
                                {i: int(init[i]) for i in range(n)}, **kw)
    elif method == "fit_from_w":
        from libpysal import weights
        nb = nbrs(n, edges)
        w = weights.W({i: sorted(nb[i]) for i in range(n)},
                      silence_warnings=True)
        model.fit_from_w(w, attr, case["p"], initial_labels=init, **kw)
    else:
        getattr(model, method)(adj, attr, case["p"], initial_labels=init, **kw)


def check_labels(model, case, what):
    nb = nbrs(case["n"], case["edges"])
    labels = getattr(model, "labels_", None)
    need(labels is not None, "{}: no labels_ after the fit", what)
    why = feasible(list(labels), nb, case["p"])
    need(why is None, "{}: {} (labels_ = {})", what, why, list(labels))


# ------------------------------------------------------------------- C01
class C01:
    hang_is_violation = True

    @staticmethod
    def gen(rng, i):
        case = base_case(rng, i, nmax=rng.choice([7, 9, 12, 16]))
        case["strategy"] = rng.choice(["default", "default", "azp", "sa",
                                       "always", "never", "coin", "coin"])
        if "sa" == case["strategy"]:
            case["p"] = case["p"]
        return case

    @staticmethod
    def run(case):
        from region.p_regions.azp import AZP
        if case["strategy"] == "sa" and len(case["edges"]) > 14:
            raise Skip("long annealing walk")
        model = AZP(allow_move_strategy=strategy(case["strategy"], case["seed"]),
                    random_state=case["seed"])
        do_fit(model, case)
        check_labels(model, case, "AZP")
        return 1 < case["p"] < case["n"]


# ------------------------------------------------------------------- C02
def tabu_model(case):
    from region.p_regions.azp import AZPBasicTabu, AZPReactiveTabu
    if case["model"] == "basic":
        return AZPBasicTabu(tabu_length=case["tabu_length"],
                            repetitions_before_termination=case["reps"],
                            random_state=case["seed"])
    return AZPReactiveTabu(max_iterations=case["max_it"], k1=case["k1"],
                           k2=case["k2"], random_state=case["seed"])


def tabu_case(rng, i, initial=None):
    case = base_case(rng, i, nmax=rng.choice([6, 7, 9, 9, 12]), initial=initial)
    if rng.random() < 0.5:
        case["model"] = "basic"
        case["tabu_length"] = rng.choice([1, 1, 2, 3, 5, 10, 85])
        case["reps"] = rng.choice([1, 2, 3, 5])
    else:
        case["model"] = "reactive"
        case["max_it"] = rng.choice([1, 2, 3, 10, 50])
        case["k1"] = rng.choice([0, 1, 2, 5])
        case["k2"] = rng.choice([0, 1, 2, 5])
    return case


class C02:
    hang_is_violation = True

    @staticmethod
    def gen(rng, i):
        r = i % 4
        if r == 3:
            n, edges = pick_graph(rng, i // 4, 8, connected_only=True, nmin=2)
            p = rand_p(rng, n, edges)
            labels = rand_partition(rng, n, edges, p)
            return {"kind": "make_move", "n": n, "edges": edges,
                    "labels": labels, "area": rng.randrange(n),
                    "to": rng.choice(sorted(set(labels))),
                    "dtype": rng.choice(["int32", "int64", "float64"])}
        if r == 2:
            case = tabu_case(rng, i)
            case["kind"] = "walk"
            case["accept"] = rng.choice([0.3, 0.7, 1.0])
            return case
        case = tabu_case(rng, i)
        case["kind"] = "fit"
        return case

    @staticmethod
    def run(case):
        from region.p_regions import azp
        if case["kind"] == "make_move":
            tab = azp.AZPBasicTabu(tabu_length=3)
            if not hasattr(tab, "_make_move"):
                raise Skip("no _make_move")
            n, nb = case["n"], nbrs(case["n"], case["edges"])
            labels = np.array(case["labels"], dtype=case["dtype"])
            before = labels.copy()
            after = labels.copy()
            after[case["area"]] = case["to"]
            p = len(set(case["labels"]))
            ok = feasible(list(after), nb, p) is None
            tab._make_move(case["area"], case["to"], labels,
                           adj_of(n, case["edges"]))
            if ok:
                need((labels == after).all(), "a legal tabu move {} -> {} on {} "
                     "left {}", case["area"], case["to"], list(before), list(labels))
            else:
                need((labels == before).all(), "the tabu move {} -> {} disconnects "
                     "or empties a region of {} but the labels became {}",
                     case["area"], case["to"], list(before), list(labels))
            return not ok
        model = tabu_model(case)
        if case["kind"] == "walk":      # arbitrary accepted moves
            base = type(model.allow_move_strategy)
            rng = _random.Random(case["seed"])

            class Noisy(base):
                def __call__(self, moving_area, new_region, labels):
                    return rng.random() < case["accept"]
            model.allow_move_strategy = Noisy()
        do_fit(model, case)
        check_labels(model, case, "{} tabu".format(case["model"]))
        return 1 < case["p"] < case["n"]


# ------------------------------------------------------------------- C03
def sa_model(case):
    from region.p_regions.azp import AZPSimulatedAnnealing
    return AZPSimulatedAnnealing(
        init_temperature=case["temp"], max_iterations=case["max_it"],
        sa_moves_term=case["term"],
        nonmoving_steps_before_stop=case["nonmoving"],
        repetitions_before_termination=case["reps"],
        random_state=case["seed"])


def sa_case(rng, i):
    case = base_case(rng, i, nmax=rng.choice([5, 6, 7, 8]))
    case.update(temp=rng.choice([0.1, 1.0, 10.0]),
                max_it=rng.choice([1, 2, 5]), term=rng.choice([1, 2, 5]),
                nonmoving=rng.choice([1, 2, 3]), reps=rng.choice([1, 2, 3]),
                cooling=rng.choice([0.3, 0.5, 0.85]))
    return case


class C03:
    @staticmethod
    def gen(rng, i):
        case = sa_case(rng, i)
        case["kind"] = "fit"
        if i % 5 == 4:
            case["kind"] = "reject"
            case["cooling"] = rng.choice([0, 0.0, 1, 1.0, -0.1, -1, 1.0001, 2,
                                          float("inf"), -float("inf")])
        return case

    @staticmethod
    def run(case):
        model = sa_model(case)
        if case["kind"] == "reject":
            try:
                do_fit(model, case, cooling_factor=case["cooling"])
            except ValueError:
                return True
            raise Violation("cooling_factor={} was accepted".format(case["cooling"]))
        do_fit(model, case, cooling_factor=case["cooling"])
        check_labels(model, case, "simulated annealing")
        return 1 < case["p"] < case["n"]


# ------------------------------------------------------------------- C04
class C04:
    hang_is_violation = True

    @staticmethod
    def gen(rng, i):
        case = tabu_case(rng, i, initial=True)
        if i % 2 == 0:
            case["model"] = "azp"
        case["watch"] = rng.random() < 0.7
        return case

    @staticmethod
    def run(case):
        from region.p_regions.azp import AZP
        from region.p_regions.azp_util import AllowMoveAZP
        attr = case["attr"]
        spec = case["objective"]
        seen = {"moves": 0}

        class Watch(AllowMoveAZP):
            comp = None

            def start_new_component(self, initial_labels, attr, objective_func,
                                    comp_idx):
                super().start_new_component(initial_labels, attr,
                                            objective_func, comp_idx)
                self.comp = list(comp_idx)

            def __call__(self, moving_area, new_region, labels):
                local = [attr[k] for k in self.comp]
                now = obj_value(spec, list(labels), local)
                if case["model"] == "azp":
                    need(close(scalar(self.objective_val), now),
                         "objective_val is {} but the objective of the current "
                         "labels {} is {}", self.objective_val, list(labels), now)
                ok = super().__call__(moving_area, new_region, labels)
                if ok:
                    after = list(labels)
                    donor = after[moving_area]
                    after[moving_area] = new_region
                    if after[moving_area] != donor and donor in after:
                        new = obj_value(spec, after, local)
                        seen["moves"] += 1
                        need(new <= now + 1e-6 * max(1.0, abs(now)),
                             "move of area {} to {} raises the objective of {} "
                             "from {} to {} but is allowed", moving_area,
                             new_region, list(labels), now, new)
                return ok
        if case["model"] == "azp":
            model = AZP(allow_move_strategy=Watch() if case["watch"] else None,
                        random_state=case["seed"])
        else:
            model = tabu_model(case)
            if case["watch"]:
                model.allow_move_strategy = Watch()
        do_fit(model, case)
        before = obj_value(spec, case["initial"], attr)
        after = obj_value(spec, list(model.labels_), attr)
        # components are searched one after the other; for reductions other
        # than a sum the total need not be monotone, only per component it is
        if spec["kind"] == "center" and spec["reduction"] != "sum":
            for comp in components(nbrs(case["n"], case["edges"])):
                idx = sorted(comp)
                loc = [attr[k] for k in idx]
                b = obj_value(spec, [case["initial"][k] for k in idx], loc)
                a = obj_value(spec, [model.labels_[k] for k in idx], loc)
                need(a <= b + 1e-6 * max(1.0, abs(b)),
                     "{}: component {} went from objective {} to {}",
                     case["model"], idx, b, a)
        else:
            need(after <= before + 1e-6 * max(1.0, abs(before)),
                 "{}: the initial labels {} have objective {}, the returned "
                 "labels {} have {}", case["model"], case["initial"], before,
                 list(model.labels_), after)
        return after < before


# ------------------------------------------------------------------- C05
class C05:
    @staticmethod
    def gen(rng, i):
        n = rng.randint(2, 9)
        k = rng.randint(1, min(n, 4))
        labels = [rng.randrange(k) for _ in range(n)]
        names = rng.sample(range(12), k)
        labels = [names[x] for x in labels]
        return {"n": n, "labels": labels, "attr": rand_attr(rng, n),
                "objective": rand_objective(rng) if i % 2 else
                {"kind": "pairwise",
                 "metric": rng.choice(["manhattan", "euclidean", "custom"])},
                "dtype": rng.choice(["int64", "int32", "float64"]),
                "perm_seed": rng.randrange(10 ** 6)}

    @staticmethod
    def run(case):
        spec, n = case["objective"], case["n"]
        labels = np.array(case["labels"], dtype=case["dtype"])
        attr = attr_arr(case["attr"])
        func = objective(spec)
        lab0, att0 = labels.copy(), attr.copy()
        value = scalar(func(labels, attr))
        want = obj_value(spec, case["labels"], case["attr"])
        need(close(value, want), "{}: value of {} is {} but by definition {}",
             spec, case["labels"], value, want)
        rng = _random.Random(case["perm_seed"])
        perm = list(range(n))
        rng.shuffle(perm)
        ren = {v: k + 3 for k, v in enumerate(rng.sample(sorted(set(case["labels"])),
                                                         len(set(case["labels"]))))}
        lab2 = np.array([ren[case["labels"][k]] for k in perm], dtype=case["dtype"])
        v2 = scalar(func(lab2, attr[perm].copy()))
        need(close(v2, value), "{}: value changes from {} to {} when areas are "
             "reordered and labels renamed", spec, value, v2)
        need((labels == lab0).all() and (attr == att0).all(),
             "{}: evaluating the objective changed its arguments", spec)
        moved = 0
        regs = regions_of(case["labels"])
        for area in range(n):
            for to in sorted(set(case["labels"])):
                if to == case["labels"][area] or len(regs[float(case["labels"][area])]) < 2:
                    continue
                diff = scalar(func.update(area, to, labels, attr))
                need((labels == lab0).all() and (attr == att0).all(),
                     "{}: update() changed labels or attributes", spec)
                after = list(case["labels"])
                after[area] = to
                true = obj_value(spec, after, case["attr"]) - want
                need(close(diff, true, 1e-6) or abs(diff - true) < 1e-6 * max(1, abs(want)),
                     "{}: update(area={}, region={}) on {} is {} but the "
                     "objective changes by {}", spec, area, to, case["labels"],
                     diff, true)
                moved += 1
        return moved > 0


# ------------------------------------------------------------------- C06
class C06:
    hang_is_violation = True

    @staticmethod
    def gen(rng, i):
        kind = ["sol", "sol", "distribute", "reject"][i % 4]
        n, edges = pick_graph(rng, i // 4, 10)
        case = {"kind": kind, "n": n, "edges": edges,
                "p": rand_p(rng, n, edges), "seed": rng.randrange(10 ** 6),
                "dtype": rng.choice(["float", "int"])}
        if kind == "reject":
            k = len(components(nbrs(n, edges)))
            case["p"] = rng.choice([0, k - 1, n + 1, n + 5])
            if k <= case["p"] <= n:
                case["p"] = n + 1
            if rng.random() < 0.1:
                case.update(n=0, edges=[], p=rng.choice([0, 1, 2]))
        if kind == "distribute":
            k = rng.randint(1, 5)
            sizes = [rng.randint(1, 5) for _ in range(k)]
            labs = [c for c in range(k) for _ in range(sizes[c])]
            rng.shuffle(labs)
            case = {"kind": kind, "labels": labs, "sizes": sizes,
                    "p": rng.choice([k, sum(sizes), rng.randint(k, sum(sizes))]),
                    "seed": rng.randrange(10 ** 6), "as_array": rng.random() < .5}
        return case

    @staticmethod
    def run(case):
        from region import util
        _random.seed(case["seed"])
        if case["kind"] == "distribute":
            labs = np.array(case["labels"]) if case["as_array"] else list(case["labels"])
            got = util.distribute_regions_among_components(labs, case["p"])
            need(list(labs) == case["labels"], "distribute changed its argument")
            need(sorted(int(k) for k in got) == list(range(len(case["sizes"]))),
                 "distribute({}, {}) = {}", case["labels"], case["p"], got)
            need(sum(got.values()) == case["p"], "distribute({}, {}) = {} does not "
                 "add up", case["labels"], case["p"], got)
            for c, cnt in got.items():
                need(1 <= cnt <= case["sizes"][int(c)], "distribute({}, {}) gives "
                     "component {} (size {}) {} regions", case["labels"],
                     case["p"], c, case["sizes"][int(c)], cnt)
            return len(case["sizes"]) > 1
        n, edges, p = case["n"], case["edges"], case["p"]
        if n == 0:
            from scipy.sparse import csr_matrix, dok_matrix
            try:
                adj = csr_matrix((0, 0))
            except ValueError:
                raise Skip("no empty matrices here")
        else:
            adj = adj_of(n, edges, {"float": float, "int": int}[case["dtype"]])
        if case["kind"] == "reject":
            try:
                got = list(util.generate_initial_sol(adj, p))
            except ValueError:
                return True
            raise Violation("generate_initial_sol yielded {} for n={}, edges={}, "
                            "n_regions={}".format(got, n, edges, p))
        got = [np.array(x) for x in util.generate_initial_sol(adj, p)]
        nb = nbrs(n, edges)
        comps = components(nb)
        need(len(got) == len(comps), "{} arrays for {} components", len(got), len(comps))
        used, total, seen = {}, [-1] * n, set()
        for arr in got:
            need(arr.shape == (n,), "yielded shape {}", arr.shape)
            inside = {k for k in range(n) if arr[k] != -1}
            need(inside in comps, "array {} is not -1 exactly outside a component",
                 list(arr))
            need(not (inside & seen), "component yielded twice")
            seen |= inside
            for k in inside:
                need(arr[k] >= 0, "negative label")
                total[k] = int(arr[k])
            for lab in {int(arr[k]) for k in inside}:
                need(lab not in used, "label {} used in two components", lab)
                used[lab] = True
        need(seen == set(range(n)), "areas {} not covered", set(range(n)) - seen)
        why = feasible(total, nb, p)
        need(why is None, "initial solution {} infeasible: {}", total, why)
        return 1 < p < n


# ------------------------------------------------------------------- C07
class C07:
    @staticmethod
    def gen(rng, i):
        kind = ["assert", "assert", "separate", "prim", "fit"][i % 5]
        n, edges = pick_graph(rng, i // 5, 8)
        k = rng.randint(1, min(n, 4))
        labels = [rng.randrange(k) for _ in range(n)]
        if rng.random() < 0.4:
            labels = rand_partition(rng, n, edges, rand_p(rng, n, edges))
            if rng.random() < 0.5:
                labels[rng.randrange(n)] = rng.choice(labels)
        d = len(set(labels))
        case = {"kind": kind, "n": n, "edges": edges, "labels": labels,
                "p": rng.choice([None, d, d, d + 1, max(1, d - 1), n]),
                "dtype": rng.choice(["int64", "int32", "float64"]),
                "seed": rng.randrange(10 ** 6)}
        if kind == "prim":
            nodes = rng.sample(range(n), rng.randint(1, n))
            case["nodes"] = nodes
            case["wo"] = rng.choice([None, rng.choice(nodes),
                                     rng.sample(range(n), rng.randint(0, n))])
        if kind == "fit":
            case["attr"] = rand_attr(rng, n)
            case["model"] = rng.choice(["azp", "basic", "reactive", "sa"])
            case["p"] = rng.choice([d, d, d + 1, max(1, d - 1)])
            case["prior"] = rng.random() < 0.3
        return case

    @staticmethod
    def run(case):
        from region import csgraph_utils as cu
        from region import util
        n, edges = case["n"], case["edges"]
        nb = nbrs(n, edges)
        adj = adj_of(n, edges)
        labels = np.array(case["labels"], dtype=case["dtype"])
        parts_ok = all(connected(nb, r) for r in regions_of(case["labels"]).values())
        d = len(set(case["labels"]))
        if case["kind"] == "assert":
            args = () if case["p"] is None else (case["p"],)
            count_ok = case["p"] is None or case["p"] == d
            try:
                util.assert_feasible(labels, adj, *args)
                raised = False
            except ValueError:
                raised = True
            need(raised == (not (parts_ok and count_ok)),
                 "assert_feasible({}, edges={}, n_regions={}) {}", case["labels"],
                 edges, case["p"], "raised" if raised else "did not raise")
            try:
                res = util.boolean_assert_feasible(labels, adj, *args)
                need(count_ok, "boolean_assert_feasible accepted {} regions, {} "
                     "wanted", d, case["p"])
                need(bool(res) == parts_ok, "boolean_assert_feasible({}, edges={}) "
                     "= {}", case["labels"], edges, res)
            except ValueError:
                need(not count_ok, "boolean_assert_feasible raised for {} "
                     "regions, {} wanted", d, case["p"])
            return parts_ok != count_ok or d > 1
        if case["kind"] == "separate":
            got = [np.array(x) for x in util.separate_components(adj, labels)]
            comps = components(nb)
            need(len(got) == len(comps), "separate_components yields {} arrays for "
                 "{} components", len(got), len(comps))
            left = list(comps)
            for arr in got:
                inside = {k for k in range(n) if arr[k] != -1}
                need(inside in left, "separate_components yields {}", list(arr))
                left.remove(inside)
                for k in inside:
                    need(arr[k] == case["labels"][k], "label of area {} became {}",
                         k, arr[k])
            return len(comps) > 1
        if case["kind"] == "prim":
            need(bool(cu.is_connected(adj)) == (connected(nb, range(n))),
                 "is_connected is wrong for n={}, edges={}", n, edges)
            for a in range(n):
                got = sorted(int(x) for x in cu.neighbors(adj, a))
                need(got == sorted(nb[a]), "neighbors({}) = {}", a, got)
            nodes, wo = case["nodes"], case["wo"]
            drop = set() if wo is None else ({wo} if isinstance(wo, int) else set(wo))
            keep = [x for x in nodes if x not in drop]
            args = {} if wo is None else {
                "wo_nodes": wo if isinstance(wo, int) else np.array(wo, dtype=int)}
            if not keep:
                return False
            got = cu.sub_adj_matrix(adj, np.array(nodes), **args).toarray()
            want = [[1.0 if b in nb[a] else 0.0 for b in keep] for a in keep]
            need(got.shape == (len(keep), len(keep)) and (got == np.array(want)).all(),
                 "sub_adj_matrix(nodes={}, wo_nodes={}) wrong", nodes, wo)
            return True
        # fit with (in)feasible initial labels
        from region.p_regions import azp
        if case["model"] == "azp":
            model = azp.AZP(random_state=case["seed"])
        elif case["model"] == "basic":
            model = azp.AZPBasicTabu(3, 2, random_state=case["seed"])
        elif case["model"] == "reactive":
            model = azp.AZPReactiveTabu(5, 1, 1, random_state=case["seed"])
        else:
            model = azp.AZPSimulatedAnnealing(1.0, 2, 2, 1, 2,
                                              random_state=case["seed"])
        attr = attr_arr(case["attr"])
        prior = None
        if case["prior"]:
            k = len(components(nb))
            model.fit_from_scipy_sparse_matrix(adj, attr, min(n, k + 1))
            prior = np.array(model.labels_)
        ok = parts_ok and d == case["p"]
        try:
            model.fit_from_scipy_sparse_matrix(adj, attr, case["p"],
                                               initial_labels=labels)
            need(ok, "{}: fit accepted the infeasible initial labels {} "
                 "(n_regions={})", case["model"], case["labels"], case["p"])
            return False
        except ValueError as e:
            need(not ok, "{}: fit rejected the feasible initial labels {} "
                 "(n_regions={}): {}", case["model"], case["labels"], case["p"], e)
        now = getattr(model, "labels_", None)
        if prior is None:
            need(now is None, "{}: labels_ = {} after a rejected fit", case["model"], now)
        else:
            need((np.array(now) == prior).all(), "{}: labels_ changed by a rejected "
                 "fit", case["model"])
        return True


# ------------------------------------------------------------------- C09
class C09:
    @staticmethod
    def gen(rng, i):
        n = rng.randint(3, 8)
        k = rng.randint(2, 3)
        cols = rng.choice([1, 1, 2, 3])
        lo = rng.choice([0, -3, -6])
        ext = [[rng.randint(lo, 6) for _ in range(cols)] for _ in range(n)]
        if rng.random() < 0.2:
            ext = [[x + 0.5 for x in row] for row in ext]
        labels = [rng.randrange(k) for _ in range(n)]
        slack = rng.choice([0, 0, 1, 2, 4])
        return {"n": n, "ext": ext, "labels": labels, "slack": slack,
                "vec": rng.random() < 0.5 or cols > 1,
                "one_d": cols == 1 and rng.random() < 0.5,
                "offset": rng.choice([0, 0, 2])}

    @staticmethod
    def run(case):
        from region.p_regions.azp_util import AllowMoveAZPMaxPRegions, AllowMoveStrategy
        n, off = case["n"], case["offset"]
        ext = np.array(case["ext"], float)
        labels = np.array(case["labels"])
        regs = sorted(set(case["labels"]))
        if len(regs) < 2:
            raise Skip("one region")
        sums = {r: ext[labels == r].sum(axis=0) for r in regs}
        low = np.min([sums[r] for r in regs], axis=0) - case["slack"]
        thr = low if case["vec"] else float(low.min())
        allx = np.vstack([np.full((off, ext.shape[1]), 77.0), ext]) if off else ext
        if case["one_d"]:
            allx, ext1 = allx[:, 0], ext[:, 0]
            if case["vec"]:
                thr = float(low[0])
        calls = []

        class Stub(AllowMoveStrategy):
            answer = True
            probe = "reachable"

            def __call__(self, moving_area, new_region, labels):
                calls.append((moving_area, new_region))
                return self.answer

            def special(self, x):
                return ("special", x)
        stub = Stub()
        strat = AllowMoveAZPMaxPRegions(allx, thr, stub)
        strat.start_new_component(labels, np.zeros((n, 1)), lambda l, a: 0.0,
                                  np.arange(off, off + n))
        need(strat.special(3) == ("special", 3) and strat.probe == "reachable",
             "methods of the decorated strategy are not reachable")
        seen = False
        for area in range(n):
            for to in regs:
                frm = case["labels"][area]
                if to == frm:
                    continue
                donor = sums[frm] - ext[area]
                rec = sums[to] + ext[area]
                keep = bool((donor >= thr).all() and (rec >= thr).all())
                for ans in (True, False):
                    stub.answer = ans
                    res = strat(area, to, labels)
                    need((labels == np.array(case["labels"])).all(), "labels changed")
                    if keep:
                        need(res is ans or res == ans, "move {} -> {} on {} keeps both "
                             "regions at or above {} but the answer {} of the decorated "
                             "strategy became {}", area, to, case["labels"], thr, ans, res)
                    else:
                        seen = True
                        need(not res, "move {} -> {} on {} with {} lets a region fall "
                             "below {} (donor {}, recipient {}) but is allowed", area,
                             to, case["labels"], case["ext"], thr, donor, rec)
        return seen


# ------------------------------------------------------------------- C16
class C16:
    @staticmethod
    def gen(rng, i):
        if i % 10 == 9:
            return {"kind": "reject",
                    "term": rng.choice([0, -1, 2.5, 3.0, "4", None, -7, 1e9,
                                        float("inf")])}
        steps = []
        for _ in range(rng.randint(3, 25)):
            diff = rng.choice([-2.5, -1, 0, 0.0, 0.5, 1, 3, 10, 1e-9, 1e-4])
            steps.append([diff, rng.choice([rng.random(), 0.0, 0.999999,
                                            "edge", "below", "above"])])
        return {"kind": "run", "steps": steps, "t": rng.choice([0.5, 1.0, 2.0, 50.0]),
                "term": rng.choice([1, 2, 3, 5]), "obs": rng.choice([1, 2]),
                "late_temp": rng.choice([None, 0.25, 7.0]),
                "reset_at": rng.choice([None, 4, 9]),
                "as_array": rng.random() < 0.5}

    @staticmethod
    def run(case):
        from region.p_regions.azp_util import AllowMoveAZPSimulatedAnnealing as SA
        if case["kind"] == "reject":
            try:
                SA(1.0, sa_moves_term=case["term"])
            except ValueError:
                return True
            raise Violation("sa_moves_term={!r} was accepted".format(case["term"]))
        strat = SA(case["t"], sa_moves_term=case["term"])
        ev = {"term": 0, "move": 0}

        class Obj:
            diff = 0.0

            def __call__(self, labels, attr):
                return 100.0

            def update(self, *a):
                return np.array([self.diff]) if case["as_array"] else self.diff
        for k in range(case["obs"]):
            strat.register_sa_moves_term(lambda: ev.__setitem__("term", ev["term"] + 1))
            strat.register_move_made(lambda: ev.__setitem__("move", ev["move"] + 1))
        obj = Obj()
        labels = np.array([0, 0, 1, 1])
        strat.start_new_component(labels, np.zeros((4, 1)), obj, np.arange(4))
        val, raising, t = 100.0, 0, case["t"]
        saved = _random.random
        draw = {}
        try:
            _random.random = lambda: draw["x"]
            for k, (diff, d) in enumerate(case["steps"]):
                if case["late_temp"] and k == 6:
                    t = case["late_temp"]
                    strat.update_temperature(t)
                if case["reset_at"] == k:
                    strat.reset()
                    raising = 0
                obj.diff = diff
                bound = math.exp(-diff / t) if diff > 0 else 1.0
                if d == "edge":
                    d = bound
                elif d == "below":
                    d = math.nextafter(bound, 0)
                elif d == "above":
                    d = math.nextafter(bound, 2)
                draw["x"] = d
                before = dict(ev)
                res = strat(0, 1, labels)
                want = diff <= 0 or d < bound
                need(bool(res) == want, "change {}, temperature {}, draw {}: {}",
                     diff, t, d, "accepted" if res else "refused")
                if want:
                    val += diff
                    if diff > 0:
                        raising += 1
                need(close(scalar(strat.objective_val), val, 1e-12),
                     "objective_val is {} instead of {}", strat.objective_val, val)
                need(ev["move"] - before["move"] == (case["obs"] if want else 0),
                     "move observers were called {} times for {} move",
                     ev["move"] - before["move"], "an accepted" if want else "a refused")
                due = want and diff > 0 and raising >= case["term"]
                need(ev["term"] - before["term"] == (case["obs"] if due else 0),
                     "termination observers were called {} times at raising move "
                     "{} of {} (accepted={}, change={})", ev["term"] - before["term"],
                     raising, case["term"], want, diff)
        finally:
            _random.random = saved
        return raising >= case["term"]
