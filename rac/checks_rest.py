"""C08, C10-C15, C17, C18."""
import copy
import inspect
import itertools
import math
import warnings

import numpy as np

from .common import *
from .common import _random
from .checks_azp import (base_case, do_fit, objective, obj_value, rand_objective,
                         sa_case, sa_model, strategy, tabu_case, tabu_model)


# ------------------------------------------------------------------- C08
def local_search(name, seed):
    from region.p_regions import azp
    if name == "none":
        return None
    if name == "azp":
        return azp.AZP(random_state=seed)
    if name == "basic":
        return azp.AZPBasicTabu(tabu_length=3, repetitions_before_termination=2,
                                random_state=seed)
    if name == "reactive":
        return azp.AZPReactiveTabu(max_iterations=5, k1=1, k2=1, random_state=seed)
    return azp.AZPSimulatedAnnealing(init_temperature=2.0, max_iterations=2,
                                     sa_moves_term=2,
                                     nonmoving_steps_before_stop=1,
                                     repetitions_before_termination=2,
                                     random_state=seed)


def maxp_instance(rng, i, nmax, connected_only=False):
    n, edges = pick_graph(rng, i, nmax, connected_only)
    cols = rng.choice([1, 1, 2])
    hi = rng.choice([1, 3, 10])
    ext = [[rng.randint(0, hi) for _ in range(cols)] for _ in range(n)]
    if rng.random() < 0.3:
        ext = [[x + rng.choice([0.0, 0.5]) for x in row] for row in ext]
    comps = components(nbrs(n, edges))
    top = [min(sum(ext[a][c] for a in comp) for comp in comps) for c in range(cols)]
    if min(top) <= 0:
        ext = [[x + 1 for x in row] for row in ext]
        top = [min(sum(ext[a][c] for a in comp) for comp in comps)
               for c in range(cols)]
    thr = [min(t, rng.choice([t, max(1, t // 2), max(1, t // 3), 1]))
           for t in top]
    vec = cols > 1 or rng.random() < 0.3
    if not vec or rng.random() < 0.2:
        thr, vec = [min(thr)] * cols, False
    return {"n": n, "edges": edges, "ext": ext, "thr": thr, "vec": vec,
            "one_d": cols == 1 and not vec and rng.random() < 0.4}


def thr_arg(case):
    if case["vec"]:
        return np.array(case["thr"], float)
    return case["thr"][0]


def ext_arg(case):
    a = np.array(case["ext"], float)
    return a[:, 0].copy() if case["one_d"] else a


def reach(case, reg):
    return all(sum(case["ext"][a][c] for a in reg) >= case["thr"][c] - 1e-9
               for c in range(len(case["thr"])))


class C08:
    hang_is_violation = True

    @staticmethod
    def gen(rng, i):
        case = maxp_instance(rng, i, rng.choice([6, 8, 10]))
        case["attr"] = rand_attr(rng, case["n"])
        case["seed"] = rng.randrange(10 ** 6)
        case["kind"] = ["fit", "fit", "grow"][i % 3]
        case["search"] = rng.choice(["none", "azp", "azp", "basic", "reactive", "sa"])
        case["max_it"] = rng.choice([1, 2, 4])
        case["objective"] = {"kind": "pairwise", "metric": "manhattan"} \
            if rng.random() < 0.8 else rand_objective(rng)
        if case["search"] == "sa" and len(case["edges"]) > 10:
            case["search"] = "azp"
        return case

    @staticmethod
    def run(case):
        from region.max_p_regions.heuristics import MaxPRegionsHeu
        n, edges = case["n"], case["edges"]
        nb = nbrs(n, edges)
        adj = adj_of(n, edges)
        attr = attr_arr(case["attr"])
        ext, thr = ext_arg(case), thr_arg(case)
        obj = objective(case["objective"])
        heu = MaxPRegionsHeu(local_search=local_search(case["search"], case["seed"]),
                             random_state=case["seed"])
        if case["kind"] == "grow":
            if not hasattr(heu, "grow_regions") or not hasattr(heu, "assign_enclaves"):
                raise Skip("internals gone")
            heu.metric = obj.metric
            part, enc = heu.grow_regions(adj, attr, ext, thr)
            part = [set(int(x) for x in r) for r in part]
            enc = [int(x) for x in enc]
            allv = [x for r in part for x in r] + enc
            need(sorted(allv) == list(range(n)), "grow_regions: {} + enclaves {} is "
                 "not a partition of the {} areas", part, enc, n)
            for r in part:
                need(connected(nb, r), "grow_regions: region {} not connected", r)
                need(reach(case, r), "grow_regions: region {} below threshold {}",
                     r, case["thr"])
            old = [set(r) for r in part]
            res = heu.assign_enclaves([set(r) for r in part], list(enc),
                                      {k: sorted(v) for k, v in nb.items()}, attr)
            res = [set(int(x) for x in r) for r in res]
            need(len(res) == len(old), "assign_enclaves changed the number of regions")
            for a, b in zip(old, res):
                need(a <= b and b - a <= set(enc), "assign_enclaves turned {} into {}",
                     a, b)
                need(connected(nb, b), "assign_enclaves: region {} not connected", b)
            need(sorted(x for r in res for x in r) == list(range(n)),
                 "assign_enclaves: {} is not a partition", res)
            return bool(enc)
        heu.fit_from_scipy_sparse_matrix(adj, attr, ext, thr, max_it=case["max_it"],
                                         objective_func=obj)
        labels = list(heu.labels_)
        why = feasible(labels, nb)
        need(why is None, "max-p heuristic ({}): {}", case["search"], why)
        regs = regions_of(labels)
        for reg in regs.values():
            need(reach(case, reg), "max-p heuristic ({}): region {} misses the "
                 "threshold {} with {}", case["search"], sorted(reg), case["thr"],
                 [case["ext"][a] for a in sorted(reg)])
        return len(regs) > 1


# ------------------------------------------------------------- C10 / C11
class C10:
    @staticmethod
    def gen(rng, i):
        if i % 6 == 5:
            n, edges = pick_graph(rng, i // 6, 5)
            k = len(components(nbrs(n, edges)))
            bad = rng.choice(["few", "zero", "many", "float", "method", "solver",
                              "method2", "neg"])
            case = {"kind": "reject", "n": n, "edges": edges, "bad": bad,
                    "p": rng.randint(k, n), "method": rng.choice(["flow", "order", "tree"]),
                    "attr": rand_attr(rng, n)}
            if bad == "few" and k == 1:
                case["bad"] = "zero"
            return case
        nmax = 5 if rng.random() < 0.75 else 6
        n, edges = pick_graph(rng, i - i // 6, nmax, connected_only=True)
        style = rng.choice(["small", "wide", "big", "const", "distinct"])
        attr = rand_attr(rng, n, style=style)
        if rng.random() < 0.3 and n > 1:      # one outlier: one big region + rest
            attr = [[0] * len(attr[0]) for _ in range(n)]
            for _ in range(rng.choice([1, 1, 2])):
                attr[rng.randrange(n)] = [rng.choice([100, 7])] * len(attr[0])
        return {"kind": "opt", "n": n, "edges": edges, "attr": attr,
                "p": rng.choice([1, n, max(1, n - 1), rng.randint(1, n),
                                 rng.randint(1, n), min(2, n)]),
                "method": rng.choice(["flow", "order", "tree", "FLOW", "Order"]),
                "metric": rng.choice(["manhattan", "euclidean", "custom"]),
                "one_d": rng.random() < 0.3}

    @staticmethod
    def run(case):
        from region.p_regions.exact import PRegionsExact
        n, edges, p = case["n"], case["edges"], case["p"]
        nb = nbrs(n, edges)
        adj = adj_of(n, edges)
        model = PRegionsExact()
        if case["kind"] == "reject":
            attr = attr_arr(case["attr"])
            method, solver = case["method"], "cbc"
            bad = case["bad"]
            if bad == "few":
                p = len(components(nb)) - 1
            elif bad == "zero":
                p = 0
            elif bad == "neg":
                p = -1
            elif bad == "many":
                p = n + 1
            elif bad == "float":
                p = float(p)
            elif bad == "method":
                method = "flows"
            elif bad == "method2":
                method = 3
            elif bad == "solver":
                solver = "cbcx"
            try:
                model.fit_from_scipy_sparse_matrix(adj, attr, p, method=method,
                                                   solver=solver)
            except Exception:
                need(model.labels_ is None, "labels_ set although an error was raised")
                return True
            raise Violation("PRegionsExact accepted {} (n={}, edges={}, n_regions={}, "
                            "method={}, solver={}) and returned {}".format(
                                bad, n, edges, p, method, solver, list(model.labels_)))
        attr = attr_arr(case["attr"], case["one_d"])
        model.fit_from_scipy_sparse_matrix(adj, attr, p, method=case["method"],
                                           metric=metric_arg(case["metric"]))
        labels = list(model.labels_)
        why = feasible(labels, nb, p)
        need(why is None, "exact {}: {} (labels {})", case["method"], why, labels)
        got = pair_obj(labels, case["attr"], case["metric"])
        best = min(pair_obj(l, case["attr"], case["metric"])
                   for l in all_partitions(n) if feasible(l, nb, p) is None)
        need(got <= best + 1e-5 * max(1, abs(best)), "exact {}: labels {} have "
             "objective {}, the optimum is {}", case["method"], labels, got, best)
        return 1 < p < n


class C11:
    @staticmethod
    def gen(rng, i):
        case = maxp_instance(rng, i, rng.choice([4, 4, 5]))
        if len(case["edges"]) > 7:
            case["n"], case["edges"] = 4, [(0, 1), (1, 2), (2, 3)]
            case["ext"] = (case["ext"] * 4)[:4]
            tot = [sum(r[c] for r in case["ext"]) for c in range(len(case["ext"][0]))]
            case["thr"] = [min(t, x) for t, x in zip(case["thr"], tot)]
        case["attr"] = rand_attr(rng, case["n"], style=rng.choice(
            ["small", "wide", "const", "distinct", "float"]))
        if rng.random() < 0.15:
            case["attr"] = [[x * 0.01 for x in row] for row in case["attr"]]
        case["metric"] = rng.choice(["manhattan", "euclidean", "custom"])
        if i % 5 == 4:      # infeasible: the whole map misses the threshold
            c = rng.randrange(len(case["thr"]))
            comps = components(nbrs(case["n"], case["edges"]))
            low = min(sum(case["ext"][a][c] for a in comp) for comp in comps)
            case["thr"] = [t for t in case["thr"]]
            if case["vec"]:
                case["thr"][c] = low + 1
            else:
                case["thr"] = [low + 1] * len(case["thr"])
        return case

    @staticmethod
    def run(case):
        from region.max_p_regions.exact import MaxPRegionsExact
        n, edges = case["n"], case["edges"]
        nb = nbrs(n, edges)
        best_p, best = 0, None
        for l in all_partitions(n):
            if feasible(l, nb) is None and all(reach(case, r) for r in
                                               regions_of(l).values()):
                p = len(set(l))
                o = pair_obj(l, case["attr"], case["metric"])
                if p > best_p or (p == best_p and o < best):
                    best_p, best = p, o
        model = MaxPRegionsExact()
        try:
            model.fit_from_scipy_sparse_matrix(
                adj_of(n, edges), attr_arr(case["attr"]), ext_arg(case),
                thr_arg(case), metric=metric_arg(case["metric"]))
        except Exception as e:
            need(best is None, "exact max-p raised {!r} although {} regions are "
                 "feasible", e, best_p)
            return False
        labels = list(model.labels_)
        need(best is not None, "exact max-p returned {} for an infeasible instance",
             labels)
        why = feasible(labels, nb)
        need(why is None, "exact max-p: {} (labels {})", why, labels)
        for reg in regions_of(labels).values():
            need(reach(case, reg), "exact max-p: region {} misses threshold {}",
                 sorted(reg), case["thr"])
        need(len(set(labels)) == best_p, "exact max-p: {} regions, maximum is {}",
             len(set(labels)), best_p)
        got = pair_obj(labels, case["attr"], case["metric"])
        need(got <= best + 1e-5 * max(1, abs(best)), "exact max-p: objective {} of {}, "
             "optimum {}", got, labels, best)
        return best_p > 1


# ------------------------------------------------------------------- C12
NAMES = {"int": lambda k: k, "shift": lambda k: 10 * k + 3,
         "str": lambda k: "area{:03d}".format(k), "neg": lambda k: k - 4}
MODELS = ["azp", "basic", "reactive", "sa", "pexact", "mexact", "mheu"]


def c12_class(name):
    from region.max_p_regions.exact import MaxPRegionsExact
    from region.max_p_regions.heuristics import MaxPRegionsHeu
    from region.p_regions import azp, exact
    return {"azp": azp.AZP, "basic": azp.AZPBasicTabu, "reactive": azp.AZPReactiveTabu,
            "sa": azp.AZPSimulatedAnnealing, "pexact": exact.PRegionsExact,
            "mexact": MaxPRegionsExact, "mheu": MaxPRegionsHeu}[name]


def c12_new(cls, name):
    if name == "basic":
        return cls(3)
    if name == "reactive":
        return cls(5, 1, 1)
    if name == "sa":
        return cls(init_temperature=1.0)
    return cls()


class C12:
    @staticmethod
    def gen(rng, i):
        fmt = ["dict", "networkx", "w", "geodataframe"][(i // len(MODELS)) % 4]
        n, edges = rand_graph(rng, 8)
        case = {"model": MODELS[i % len(MODELS)], "fmt": fmt}
        if fmt == "geodataframe":
            r, c = rng.choice([(2, 2), (2, 3), (3, 3), (1, 4)])
            case.update(r=r, c=c, contiguity=rng.choice(["rook", "queen", "Rook", None]))
            cells = [(a, b) for a in range(r) for b in range(c)]
            rng.shuffle(cells)
            n, case["cells"], edges = r * c, cells, []
            queen = case["contiguity"] == "queen"
            for x, y in itertools.combinations(range(n), 2):
                da = abs(cells[x][0] - cells[y][0])
                db = abs(cells[x][1] - cells[y][1])
                if da + db == 1 or (queen and da == 1 and db == 1):
                    edges.append((x, y))
            case["index"] = rng.choice(["range", "shift"])
        case.update(n=n, edges=edges, names=rng.choice(sorted(NAMES)),
                    order=rng.sample(range(n), n), order2=rng.sample(range(n), n),
                    attr=rand_attr(rng, n, style=rng.choice(["distinct", "float"])),
                    ext=rand_attr(rng, n, cols=rng.choice([1, 2]), style="distinct"),
                    init=[rng.randrange(4) for _ in range(n)] if rng.random() < 0.5 else None,
                    p=rng.randint(1, n), thr=rng.randint(1, 5),
                    attr_by=rng.choice(["dict", "str", "array"]),
                    vals=rng.choice(["list", "array", "tuple"]),
                    edge_seed=rng.randrange(10 ** 6))
        return case

    @staticmethod
    def run(case):
        cls = c12_class(case["model"])
        n, edges, fmt = case["n"], [tuple(e) for e in case["edges"]], case["fmt"]
        got = {}
        real = cls.fit_from_scipy_sparse_matrix

        class Rec(cls):
            def fit_from_scipy_sparse_matrix(self, *a, **k):
                b = inspect.signature(real).bind(self, *a, **k)
                b.apply_defaults()
                got.update(b.arguments)
                got["_called"] = True
        model = c12_new(Rec, case["model"])
        params = set(inspect.signature(getattr(model, "fit_from_" + fmt)).parameters)
        opts = {}
        rng = _random.Random(case["edge_seed"])
        if "objective_func" in params:
            opts["objective_func"] = objective(rand_objective(rng))
        if "metric" in params:
            opts["metric"] = rng.choice(["manhattan", "euclidean", custom_metric])
        if "method" in params:
            opts["method"] = rng.choice(["flow", "order", "tree"])
        if "solver" in params:
            opts["solver"] = rng.choice(["cbc", "glpk", "gurobi"])
        if "cooling_factor" in params:
            opts["cooling_factor"] = rng.choice([0.1, 0.5, 0.9])
        if "max_it" in params:
            opts["max_it"] = rng.choice([1, 3, 17])
        if "n_regions" in params:
            opts["n_regions"] = case["p"]
        if "threshold" in params:
            opts["threshold"] = case["thr"]
        for name in sorted(opts):               # defaults must match as well
            if name not in ("n_regions", "threshold") and rng.random() < 0.15:
                del opts[name]
        default = inspect.signature(real).parameters
        maxp = case["model"] in ("mexact", "mheu")
        attr = attr_arr(case["attr"])
        ext = attr_arr(case["ext"])
        init = case["init"] if "initial_labels" in params else None
        nm = NAMES[case["names"]]
        nb = nbrs(n, edges)

        def val(row):
            row = [float(x) for x in row]
            if len(row) == 1 and case["vals"] == "tuple":
                return row[0]
            return np.array(row) if case["vals"] == "array" else list(row)
        kw = dict(opts)
        extra = ()
        if fmt == "dict":
            nd = {}
            for k in case["order"]:
                lst = [nm(x) for x in nb[k]]
                rng.shuffle(lst)
                nd[nm(k)] = set(lst) if rng.random() < 0.5 else lst
            ad = {nm(k): val(attr[k]) for k in case["order2"]}
            if maxp:
                extra = ({nm(k): val(ext[k]) for k in case["order"][::-1]},)
            if init is not None:
                kw["initial_labels"] = {nm(k): init[k] for k in case["order2"]}
            model.fit_from_dict(nd, ad, *extra, **kw)
        elif fmt == "networkx":
            import networkx as nx
            g = nx.Graph()
            g.add_nodes_from(nm(k) for k in case["order"])
            es = [(nm(a), nm(b)) if rng.random() < .5 else (nm(b), nm(a))
                  for a, b in edges]
            rng.shuffle(es)
            g.add_edges_from(es)
            if case["attr_by"] == "str":
                cols = ["c{}".format(j) for j in range(attr.shape[1])]
                for j, cname in enumerate(cols):
                    nx.set_node_attributes(g, {nm(k): float(attr[k, j])
                                               for k in case["order2"]}, cname)
                aarg = cols if len(cols) > 1 or rng.random() < .5 else cols[0]
                ecols = ["e{}".format(j) for j in range(ext.shape[1])]
                for j, cname in enumerate(ecols):
                    nx.set_node_attributes(g, {nm(k): float(ext[k, j])
                                               for k in case["order2"]}, cname)
                extra = (ecols,) if maxp else ()
                if init is not None:
                    nx.set_node_attributes(g, {nm(k): init[k] for k in range(n)}, "lab")
                    kw["initial_labels"] = "lab"
            else:
                aarg = {nm(k): val(attr[k]) for k in case["order2"]}
                extra = ({nm(k): val(ext[k]) for k in case["order"]},) if maxp else ()
                if init is not None:
                    kw["initial_labels"] = {nm(k): init[k] for k in case["order2"]}
            model.fit_from_networkx(g, aarg, *extra, **kw)
        elif fmt == "w":
            from libpysal import weights
            w = weights.W({nm(k): [nm(x) for x in sorted(nb[k])] for k in case["order"]},
                          id_order=[nm(k) for k in case["order"]],
                          silence_warnings=True)
            rows = case["order"]                # row r of W is area rows[r]
            extra = (ext[rows].copy(),) if maxp else ()
            if init is not None:
                kw["initial_labels"] = np.array([init[k] for k in rows])
            model.fit_from_w(w, attr[rows].copy(), *extra, **kw)
        else:
            import geopandas as gpd
            from shapely.geometry import box
            data = {"c{}".format(j): attr[:, j] for j in range(attr.shape[1])}
            data.update({"e{}".format(j): ext[:, j] for j in range(ext.shape[1])})
            idx = list(range(n)) if case["index"] == "range" else [3 * k + 5 for k in range(n)]
            gdf = gpd.GeoDataFrame(data, index=idx, geometry=[
                box(b, a, b + 1, a + 1) for a, b in case["cells"]])
            cols = ["c{}".format(j) for j in range(attr.shape[1])]
            ecols = ["e{}".format(j) for j in range(ext.shape[1])]
            aarg = cols[0] if len(cols) == 1 and rng.random() < .5 else cols
            extra = (ecols,) if maxp else ()
            if init is not None:
                kw["initial_labels"] = np.array(init)
            if case["contiguity"]:
                kw["contiguity"] = case["contiguity"]
            model.fit_from_geodataframe(gdf, aarg, *extra, **kw)
        if "_called" not in got:
            raise Skip("the sparse-matrix entry point is not used")
        order = list(range(n))
        if fmt == "w":
            order = case["order"]
        elif fmt in ("dict", "networkx"):
            order = sorted(range(n), key=nm)
        tag = "{} from {}".format(case["model"], fmt)
        adj = got["adj"]
        adj = adj.toarray() if hasattr(adj, "toarray") else np.asarray(adj)
        need(adj.shape == (n, n), "{}: adjacency of shape {}", tag, adj.shape)
        garr = np.asarray(got["attr"], float).reshape(n, -1)
        # find the area each row stands for by its attributes, then compare
        for r in range(n):
            need(np.array_equal(garr[r], attr[order[r]]), "{}: row {} of the attributes "
                 "is {}, area {} has {}", tag, r, garr[r], order[r], attr[order[r]])
            for s in range(n):
                need((adj[r, s] != 0) == (order[s] in nb[order[r]]), "{}: adjacency "
                     "({}, {}) is {} for areas {}, {} with edges {}", tag, r, s,
                     adj[r, s], order[r], order[s], edges)
        if maxp:
            gext = np.asarray(got["spatially_extensive_attr"], float).reshape(n, -1)
            need(np.array_equal(gext, ext[order]), "{}: spatially extensive attributes "
                 "{} instead of {}", tag, gext.tolist(), ext[order].tolist())
        if "initial_labels" in got:
            gi = got["initial_labels"]
            if init is None:
                need(gi is None, "{}: initial labels {} out of nothing", tag, gi)
            else:
                gi = np.asarray(gi)
                need(gi.shape == (n,) and gi.tolist() == [init[k] for k in order],
                     "{}: initial labels {} instead of {}", tag, gi.tolist(),
                     [init[k] for k in order])
        for name, value in opts.items():
            need(got[name] is value or got[name] == value, "{}: option {} is {!r} "
                 "instead of {!r}", tag, name, got[name], value)
        for name in ("cooling_factor", "max_it", "metric", "method", "solver"):
            if name in default and name not in opts:
                need(got[name] == default[name].default, "{}: default of {} is {!r}",
                     tag, name, got[name])
        if "objective_func" in default and "objective_func" not in opts:
            need(type(got["objective_func"]) is
                 type(default["objective_func"].default), "{}: default objective", tag)
        return len(edges) > 0


# ------------------------------------------------------------- C13 / C14
def w_of(n, edges):
    from libpysal import weights
    nb = nbrs(n, edges)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return weights.W({k: sorted(nb[k]) for k in range(n)}, silence_warnings=True)


def affinity_fn(X, Y=None):
    X = np.asarray(X, float)
    Y = X if Y is None else np.asarray(Y, float)
    d = np.abs(X[:, None, :] - Y[None, :, :]).sum(axis=2)
    return np.exp(-0.01 * d)


def forest(spec):
    from region.skater.skater import Spanning_Forest
    if spec["affinity"]:
        return Spanning_Forest(affinity=affinity_fn,
                               reduction=REDUCTIONS[spec["reduction"]],
                               center=CENTERS[spec["center"]])
    from sklearn.metrics import pairwise as skm
    diss = {"manhattan": skm.manhattan_distances,
            "euclidean": skm.euclidean_distances, "custom": custom_metric}
    return Spanning_Forest(dissimilarity=diss[spec["metric"]],
                           reduction=REDUCTIONS[spec["reduction"]],
                           center=CENTERS[spec["center"]])


def skater_score(spec, data, labels, quorum):
    regs = regions_of(labels)
    if any(len(r) < quorum for r in regs.values()):
        return float("inf")
    red = {"sum": sum, "max": max, "mean": lambda v: sum(v) / len(v),
           "median": lambda v: float(np.median(list(v)))}[spec["reduction"]]
    cen = {"mean": lambda c: sum(c) / len(c),
           "median": lambda c: float(np.median(list(c))), "min": min}[spec["center"]]
    parts = []
    for lab in sorted(regs):
        rows = [np.asarray(data[k], float).ravel() for k in sorted(regs[lab])]
        mid = [cen([r[c] for r in rows]) for c in range(len(rows[0]))]
        if spec["affinity"]:
            vals = [0.01 * dist("manhattan", r, mid) for r in rows]
        else:
            vals = [dist(spec["metric"], r, mid) for r in rows]
        parts.append(red(vals))
    return red(parts)


def skater_spec(rng):
    return {"affinity": rng.random() < 0.25,
            "metric": rng.choice(["manhattan", "euclidean", "custom"]),
            "reduction": rng.choice(["sum", "sum", "max", "mean"]),
            "center": rng.choice(["mean", "mean", "median", "min"])}


class C13:
    @staticmethod
    def gen(rng, i):
        n, edges = pick_graph(rng, i, 10, connected_only=rng.random() < 0.6, nmin=2)
        return {"n": n, "edges": edges, "spec": skater_spec(rng),
                "data": rand_attr(rng, n, style=rng.choice(
                    ["small", "const", "float", "wide", "distinct"])),
                "k": rng.choice([1, 2, 2, 3, 4, n, n + 2]),
                "quorum": rng.choice([None, None, 1, 2, 2, 3, 4]),
                "islands": rng.choice(["increase", "ignore", "IGNORE"]),
                "nodata": rng.random() < 0.1, "trace": rng.random() < 0.3}

    @staticmethod
    def run(case):
        n, edges = case["n"], case["edges"]
        nb = nbrs(n, edges)
        comps = components(nb)
        q = -np.inf if case["quorum"] is None else case["quorum"]
        model = forest(case["spec"])
        data = None if case["nodata"] else attr_arr(case["data"])
        undersized = len(comps) > 1 and any(len(c) < q for c in comps)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                model.fit(case["k"], w_of(n, edges), data=data, quorum=q,
                          islands=case["islands"], trace=case["trace"])
            except ValueError as e:
                if undersized:
                    return True
                raise
        need(not undersized, "components {} and quorum {}: no ValueError",
             [sorted(c) for c in comps], q)
        labels = list(model.current_labels_)
        need(len(labels) == n, "{} labels for {} observations", len(labels), n)
        regs = regions_of(labels)
        for lab, reg in regs.items():
            need(connected(nb, reg), "SKATER region {} is not connected in {} "
                 "(labels {})", sorted(reg), edges, labels)
        if len(regs) > len(comps):
            for reg in regs.values():
                need(len(reg) >= q, "region {} below the quorum {}", sorted(reg), q)
        if len(comps) == 1:
            need(len(regs) <= max(1, case["k"]), "{} regions, {} wanted", len(regs),
                 case["k"])
            if len(regs) < case["k"]:
                tree = model.minimum_spanning_forest_.tocoo()
                es = list(zip(tree.row.tolist(), tree.col.tolist()))
                need(len(es) == n - len(regs), "the remaining forest has {} edges",
                     len(es))
                for e in es:
                    rest = nbrs(n, [x for x in es if x != e])
                    sizes = [len(c) for c in components(rest)]
                    need(min(sizes) < q, "stopped at {} regions (wanted {}) but "
                         "cutting {} is admissible for quorum {}", len(regs),
                         case["k"], e, q)
        else:
            k = case["k"] if case["islands"].lower() == "ignore" else case["k"] + len(comps)
            need(len(regs) <= max(k, len(comps)), "{} regions on {} components, {} "
                 "wanted", len(regs), len(comps), case["k"])
        return len(regs) > len(comps)


class C14:
    @staticmethod
    def gen(rng, i):
        n = rng.randint(2, 8)
        kind = ["score", "cut", "cut", "make"][i % 4]
        case = {"kind": kind, "n": n, "spec": skater_spec(rng),
                "data": rand_attr(rng, n), "quorum": rng.choice([None, 1, 2, 3]),
                "seed": rng.randrange(10 ** 6)}
        if kind == "score":
            k = rng.randint(1, min(4, n))
            case["labels"] = [rng.choice(rng.sample(range(9), k)) for _ in range(n)]
        else:
            edges = rand_connected(rng, n, extra=0)
            edges = permute(rng, n, edges)
            if len(edges) > 1 and rng.random() < 0.3:
                edges.remove(rng.choice(edges))
            case["edges"] = [tuple(e) if rng.random() < 0.6 else (e[1], e[0])
                             for e in edges]
            case["target"] = rng.random() < 0.3
            case["via"] = rng.choice(["direct", "fitted"])
        return case

    @staticmethod
    def run(case):
        from scipy.sparse import csr_matrix
        n, spec = case["n"], case["spec"]
        q = -np.inf if case["quorum"] is None else case["quorum"]
        data = attr_arr(case["data"])
        model = forest(spec)
        rng = _random.Random(case["seed"])
        if case["kind"] == "score":
            labels = np.array(case["labels"])
            want = skater_score(spec, case["data"], case["labels"], q)
            got = scalar(model.score(data, labels=labels, quorum=q))
            need(close(got, want), "score({}) with quorum {} is {}, by definition {}",
                 case["labels"], q, got, want)
            names = rng.sample(range(-5, 30), len(set(case["labels"])))
            ren = dict(zip(sorted(set(case["labels"])), names))
            got2 = scalar(model.score(data, labels=np.array(
                [ren[x] for x in case["labels"]]), quorum=q))
            need(close(got2, got), "score changes from {} to {} when the labels {} are "
                 "renamed by {}", got, got2, case["labels"], ren)
            return np.isfinite(want)
        edges = [tuple(e) for e in case["edges"]]
        wts = [rng.choice([0.5, 1.0, 3.0]) for _ in edges]
        msf = csr_matrix((wts, ([e[0] for e in edges], [e[1] for e in edges])),
                         shape=(n, n))
        before = msf.toarray()

        def labels_without(e):
            lab = [0] * n
            for c, comp in enumerate(components(nbrs(n, [x for x in edges if x != e]))):
                for a in comp:
                    lab[a] = c
            return lab
        if case["kind"] == "make":
            if not edges:
                raise Skip("no edge")
            e = rng.choice(edges)
            try:
                model.make_cut(e[0], e[1], np.inf, MSF=msf)
            except Exception:
                need((msf.toarray() == before).all(), "a refused cut changed the forest")
            else:
                raise Violation("make_cut with an infinite score did not raise")
            new, cnt, labels = model.make_cut(e[0], e[1], 1.0, MSF=msf)
            want = before.copy()
            want[e] = 0
            need((new.toarray() == want).all(), "make_cut({}) does not remove exactly "
                 "that edge of {}", e, edges)
            comps = components(nbrs(n, [x for x in edges if x != e]))
            need(cnt == len(comps), "make_cut: {} subtrees instead of {}", cnt, len(comps))
            need(sorted(map(sorted, regions_of(labels).values())) ==
                 sorted(map(sorted, comps)), "make_cut: labels {}", list(labels))
            return True
        args, allowed = {}, list(edges)
        if case["target"]:
            comps = components(nbrs(n, edges))
            lab = [0] * n
            for c, comp in enumerate(comps):
                for a in comp:
                    lab[a] = c + 4
            t = rng.choice(sorted(set(lab)))
            args = {"labels": np.array(lab), "target_label": t}
            allowed = [e for e in edges if lab[e[0]] == t]
        best = model.find_cut(msf, data, quorum=q, **args)
        need((msf.toarray() == before).all(), "find_cut changed the forest")
        scores = {e: skater_score(spec, case["data"], labels_without(e), q)
                  for e in allowed}
        low = min(scores.values(), default=float("inf"))
        got = scalar(best.score)
        if low == float("inf"):
            need(got == float("inf"), "find_cut found {} although no cut is "
                 "admissible", best)
            return True
        e = (int(best.in_node), int(best.out_node))
        need(e in scores, "find_cut returns {}, which is not an edge of {}", e, allowed)
        need(close(got, scores[e]), "find_cut says cutting {} scores {} but it scores {}",
             e, got, scores[e])
        need(got <= low + 1e-6 * max(1, abs(low)), "find_cut returns {} (score {}) but "
             "score {} is possible", e, got, low)
        return len(set(scores.values())) > 1


# ------------------------------------------------------------------- C15
def snapshot(x):
    if hasattr(x, "toarray"):
        return ("sparse", x.toarray().tolist(), x.dtype.str)
    if isinstance(x, np.ndarray):
        return ("array", x.dtype.str, x.shape, x.tolist())
    if type(x).__name__ == "W":
        return ("W", {k: list(v) for k, v in x.neighbors.items()},
                {k: list(v) for k, v in x.weights.items()}, list(x.id_order),
                x.transform)
    if type(x).__name__ in ("GeoDataFrame", "DataFrame"):
        return ("df", list(x.columns), list(x.index),
                [[repr(v) for v in row] for row in x.values.tolist()])
    if type(x).__name__ == "Graph":
        return ("graph", [(k, repr(v)) for k, v in x.nodes(data=True)],
                sorted((repr(sorted((a, b), key=repr)), repr(d))
                       for a, b, d in x.edges(data=True)))
    if isinstance(x, dict):
        return ("dict", [(k, snapshot(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snapshot(v) for v in x])
    if isinstance(x, (set, frozenset)):
        return ("set", sorted(map(repr, x)))
    return repr(x) if not callable(x) else "callable"


class C15:
    @staticmethod
    def gen(rng, i):
        kind = ["inputs", "refit"][i % 2]
        model = rng.choice(["azp", "basic", "reactive", "sa", "mheu", "skater",
                            "pexact", "mexact"] if kind == "inputs" else
                           ["azp", "basic", "reactive", "sa", "mheu", "skater",
                            "azp_sa", "mheu_after"])
        if model in ("pexact", "mexact") and rng.random() < 0.7:
            model = "azp"

        def inst(small):
            case = maxp_instance(rng, rng.randrange(300), 5 if small else 8)
            case["attr"] = rand_attr(rng, case["n"])
            case["p"] = rand_p(rng, case["n"], case["edges"])
            case["objective"] = {"kind": "pairwise", "metric": "manhattan"} if \
                rng.random() < 0.7 else rand_objective(rng)
            if rng.random() < 0.5:
                case["initial"] = rand_partition(rng, case["n"], case["edges"], case["p"])
            return case
        small = model in ("sa", "pexact", "mexact", "azp_sa")
        case = {"kind": kind, "model": model, "a": inst(small),
                "seed": rng.randrange(10 ** 6), "search": rng.choice(
                    ["none", "azp", "basic", "reactive", "sa"]),
                "fmt": rng.choice(["matrix", "dict", "networkx", "w", "geodataframe"]),
                "basic": [rng.choice([1, 3, 10]), rng.choice([1, 2, 4])],
                "reactive": [rng.choice([2, 5, 20]), rng.choice([0, 1]),
                             rng.choice([0, 1])],
                "sa": [rng.choice([1.0, 10.0]), rng.choice([1, 3]),
                       rng.choice([1, 3]), rng.choice([1, 2]), rng.choice([1, 2])]}
        if kind == "refit":
            case["b"] = inst(small) if rng.random() < 0.6 else dict(case["a"])
        return case

    @staticmethod
    def build(case):
        from region.max_p_regions.exact import MaxPRegionsExact
        from region.max_p_regions.heuristics import MaxPRegionsHeu
        from region.p_regions import azp, exact
        m, s = case["model"], case["seed"]
        if m == "azp":
            return azp.AZP(random_state=s)
        if m == "azp_sa":
            return azp.AZP(strategy("azp", s), random_state=s)
        if m == "basic":
            return azp.AZPBasicTabu(*case["basic"], random_state=s)
        if m == "reactive":
            return azp.AZPReactiveTabu(*case["reactive"], random_state=s)
        if m == "sa":
            return azp.AZPSimulatedAnnealing(*case["sa"], random_state=s)
        if m in ("mheu", "mheu_after"):
            return MaxPRegionsHeu(local_search(case["search"], s), random_state=s)
        if m == "skater":
            return forest({"affinity": False, "metric": "manhattan",
                           "reduction": "sum", "center": "mean"})
        return exact.PRegionsExact() if m == "pexact" else MaxPRegionsExact()

    @staticmethod
    def inputs(case, inst, fmt):
        """(method name, positional args, keyword args) of one fit."""
        n, edges, m = inst["n"], [tuple(e) for e in inst["edges"]], case["model"]
        nb = nbrs(n, edges)
        attr, kw, args = attr_arr(inst["attr"]), {}, []
        maxp = m in ("mheu", "mheu_after", "mexact")
        if m == "skater":
            return "fit", [inst["p"], w_of(n, edges)], {"data": attr}
        if fmt == "geodataframe":
            fmt = "matrix"
        ext = np.array(inst["ext"], float)
        if fmt == "matrix":
            name = "fit_from_scipy_sparse_matrix"
            args = [adj_of(n, edges), attr] + ([ext_arg(inst)] if maxp else [])
        elif fmt == "w":
            name = "fit_from_w"
            args = [w_of(n, edges), attr] + ([ext_arg(inst)] if maxp else [])
        elif fmt == "dict":
            name = "fit_from_dict"
            args = [{k: sorted(nb[k]) for k in range(n)},
                    {k: list(attr[k]) for k in range(n)}]
            if maxp:
                args.append({k: list(ext[k]) for k in range(n)})
        else:
            import networkx as nx
            g = nx.Graph()
            g.add_nodes_from(range(n))
            g.add_edges_from(edges)
            name = "fit_from_networkx"
            args = [g, {k: list(attr[k]) for k in range(n)}]
            if maxp:
                args.append({k: list(ext[k]) for k in range(n)})
        if maxp:
            args.append(thr_arg(inst))
            if m != "mexact":
                kw["max_it"] = 2
        else:
            args.append(inst["p"])
        if m not in ("pexact", "mexact"):
            kw["objective_func"] = objective(inst["objective"])
            if not maxp and inst.get("initial") is not None:
                kw["initial_labels"] = (np.array(inst["initial"]) if fmt in ("matrix", "w")
                                        else {k: inst["initial"][k] for k in range(n)})
        return name, args, kw

    @staticmethod
    def labels(model):
        lab = getattr(model, "labels_", None)
        return list(lab) if lab is not None else list(model.current_labels_)

    @classmethod
    def fit(cls, case, model, inst, fmt="matrix"):
        name, args, kw = cls.inputs(case, inst, fmt)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            getattr(model, name)(*args, **kw)

    @classmethod
    def run(cls, case):
        if case["kind"] == "inputs":
            model = cls.build(case)
            if case["model"] == "pexact" and \
                    len(components(nbrs(case["a"]["n"], case["a"]["edges"]))) > 1:
                raise Skip("disconnected")
            name, args, kw = cls.inputs(case, case["a"], case["fmt"])
            before = [snapshot(x) for x in args], {k: snapshot(v) for k, v in kw.items()}
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                getattr(model, name)(*args, **kw)
            for k, x in enumerate(args):
                need(snapshot(x) == before[0][k], "{}.{} changed its argument {}: {} -> {}",
                     case["model"], name, k, before[0][k], snapshot(x))
            for k, v in kw.items():
                need(snapshot(v) == before[1][k], "{}.{} changed its argument {}",
                     case["model"], name, k)
            return True
        fresh, used = cls.build(case), cls.build(case)
        if case["model"] == "mheu_after":     # the local search is used on its own
            sub = {"model": "azp"}
            if case["search"] == "none":
                case = dict(case, search="azp")
            fresh, used = cls.build(case), cls.build(case)
            cls.fit(case, used, case["a"])
            seed_all(case["seed"] + 1)
            cls.fit(sub, used.local_search, case["b"])
            seed_all(case["seed"] + 1)
            cls.fit(sub, fresh.local_search, case["b"])
            a, b = cls.labels(used.local_search), cls.labels(fresh.local_search)
        else:
            cls.fit(case, used, case["a"])
            seed_all(case["seed"] + 1)
            cls.fit(case, used, case["b"])
            a = cls.labels(used)
            seed_all(case["seed"] + 1)
            cls.fit(case, fresh, case["b"])
            b = cls.labels(fresh)
        need(a == b, "{} ({}): after an earlier fit the labels are {}, without it {}",
             case["model"], case["search"], a, b)
        return len(set(b)) > 1


# ------------------------------------------------------------------- C17
class C17:
    @staticmethod
    def gen(rng, i):
        kind = ["adv", "adv", "regions", "sublist", "graph", "df", "count",
                "sparse", "names"][i % 9]
        n = rng.randint(1, 8)
        return {"kind": kind, "n": n, "seed": rng.randrange(10 ** 9)}

    @staticmethod
    def run(case):
        from region import util
        rng = _random.Random(case["seed"])
        n, kind = case["n"], case["kind"]
        mk = rng.choice([lambda k: k, lambda k: 3 * k - 7, lambda k: "k%03d" % k])
        keys = [mk(k) for k in range(n)]
        shuf = keys[:]
        rng.shuffle(shuf)
        if kind == "adv":
            m = rng.choice([0, 1, 1, 2, 3])
            vals = {k: (rng.uniform(-5, 5) if m == 0 else
                        [float(rng.randint(-9, 9)) for _ in range(m)]) for k in shuf}
            if m and rng.random() < .4:
                vals = {k: np.array(v) for k, v in vals.items()}
            want_keys = rng.choice([None, "sub", "rep", "all"])
            sk = None
            if want_keys == "sub":
                sk = rng.sample(keys, rng.randint(1, n))
            elif want_keys == "rep":
                sk = [rng.choice(keys) for _ in range(rng.randint(1, 2 * n))]
            elif want_keys == "all":
                sk = shuf
            if sk is not None and rng.random() < .3:
                sk = tuple(sk)
            used = sorted(keys) if sk is None else sk
            rows = [list(np.atleast_1d(vals[k])) for k in used]
            for flat in (False, True):
                dt = rng.choice([float, float, np.int32])
                got = util.array_from_dict_values(vals, sk, flat_output=flat, dtype=dt)
                want = np.array(rows, dtype=float).astype(dt)
                if flat:
                    want = want.reshape(-1)
                need(got.shape == want.shape and (got == want).all() and
                     got.dtype == np.dtype(dt), "array_from_dict_values({}, {}, "
                     "flat_output={}) = {}", vals, sk, flat, got.tolist())
            return sk is not None
        if kind == "regions":
            areas = list(range(n))
            rng.shuffle(areas)
            lst = [[] for _ in range(rng.randint(1, n))]
            for a in areas:
                rng.choice(lst).append(a)
            if rng.random() < .5:
                lst = [set(x) for x in lst]
            got = util.array_from_region_list(lst)
            need(got.shape == (n,), "array_from_region_list: shape {}", got.shape)
            for k, reg in enumerate(lst):
                for a in reg:
                    need(got[a] == k, "array_from_region_list({}) = {}", lst, got)
            return len(lst) > 1
        if kind == "sublist":
            lst = [rng.sample(range(9), rng.randint(0, 3)) for _ in range(n)]
            if rng.random() < .5:
                lst = [set(x) for x in lst]
            for el in range(9):
                idx = next((k for k, s in enumerate(lst) if el in s), None)
                try:
                    gi = util.find_sublist_containing(el, lst, index=True)
                    gs = util.find_sublist_containing(el, lst)
                except LookupError:
                    need(idx is None, "{} not found in {}", el, lst)
                    continue
                need(idx is not None and gi == idx and gs is lst[idx],
                     "find_sublist_containing({}, {}) = {}", el, lst, gi)
            return True
        if kind == "graph":
            import networkx as nx
            g = nx.Graph()
            g.add_nodes_from(shuf)
            cols = ["a", "b", "c"][:rng.randint(1, 3)]
            data = {c: {k: rng.randint(-50, 50) for k in keys} for c in cols}
            for c in cols:
                nx.set_node_attributes(g, data[c], c)
            want_cols = [rng.choice(cols) for _ in range(rng.randint(1, 3))]
            arg = want_cols[0] if len(want_cols) == 1 and rng.random() < .5 else want_cols
            for av in (False, True):
                got = util.dict_from_graph_attr(g, arg, array_values=av)
                need(set(got) == set(keys), "dict_from_graph_attr: keys {}", list(got))
                for k in keys:
                    need(list(got[k]) == [data[c][k] for c in want_cols] and
                         isinstance(got[k], np.ndarray if av else list),
                         "dict_from_graph_attr: {} -> {}", k, got[k])
            dct = {k: [1] for k in keys}
            need(util.dict_from_graph_attr(g, dct) == dct, "dict_from_graph_attr(dict)")
            arr = util.array_from_graph(g, arg)
            need(arr.tolist() == [[float(data[c][k]) for c in want_cols]
                                  for k in sorted(keys)], "array_from_graph = {}", arr)
            arr2 = util.array_from_graph_or_dict(
                g, {k: data[cols[0]][k] for k in shuf})
            need(arr2.reshape(-1).tolist() == [float(data[cols[0]][k]) for k in sorted(keys)],
                 "array_from_graph_or_dict = {}", arr2)
            return n > 1
        if kind == "df":
            import pandas as pd
            cols = ["a", "b", "c"]
            df = pd.DataFrame({c: [rng.randint(-50, 50) for _ in range(n)] for c in cols},
                              index=shuf)
            pick = [rng.choice(cols) for _ in range(rng.randint(1, 3))]
            one = pick[0]
            got = util.array_from_df_col(df, one)
            need(got.tolist() == [[x] for x in df[one].tolist()], "array_from_df_col str")
            got = util.array_from_df_col(df, pick)
            need(got.tolist() == [[df[c].tolist()[r] for c in pick] for r in range(n)],
                 "array_from_df_col list")
            for bad in (3, ["a", 1], None, 2.5):
                try:
                    util.array_from_df_col(df, bad)
                except ValueError:
                    continue
                raise Violation("array_from_df_col accepted {!r}".format(bad))
            d1 = util.dataframe_to_dict(df, one)
            need(d1 == {k: df[one][k] for k in shuf}, "dataframe_to_dict str")
            d2 = util.dataframe_to_dict(df, pick)
            need(list(d2) == shuf and all(list(d2[k]) == [df[c].tolist()[r] for c in pick]
                                          for r, k in enumerate(shuf)),
                 "dataframe_to_dict list")
            return n > 1
        if kind == "count":
            arr = np.array([rng.randint(0, 4) for _ in range(n)],
                           dtype=rng.choice([int, float, np.int32]))
            for el in range(-1, 6):
                got = util.count(arr, el)
                need(got == int(sum(1 for x in arr if x == el)), "count({}, {}) = {}",
                     arr.tolist(), el, got)
            return True
        if kind == "sparse":
            nd = {k: [x for x in shuf if rng.random() < .4] for k in shuf}
            if rng.random() < .5:
                nd = {k: set(v) for k, v in nd.items()}
            got = util.scipy_sparse_matrix_from_dict(nd).toarray()
            order = sorted(keys)
            for r, a in enumerate(order):
                for c, b in enumerate(order):
                    need((got[r, c] != 0) == (b in nd[a]), "scipy_sparse_matrix_from_"
                         "dict({}) at ({}, {})", nd, r, c)
            edges = rand_connected(rng, n)
            w = w_of(n, edges)
            need((util.scipy_sparse_matrix_from_w(w).toarray() ==
                  adj_of(n, edges).toarray()).all(), "scipy_sparse_matrix_from_w")
            return n > 1
        from sklearn.metrics.pairwise import distance_metrics
        for name in ("manhattan", "euclidean", "cityblock", "l1", "l2", "cosine"):
            need(util.get_metric_function(name) is distance_metrics()[name],
                 "get_metric_function({})", name)
        need(util.get_metric_function(custom_metric) is custom_metric,
             "get_metric_function(function)")
        for bad in ("nope", "", 3, 2.5, ["manhattan"]):
            try:
                util.get_metric_function(bad)
            except ValueError:
                continue
            raise Violation("get_metric_function({!r}) did not raise".format(bad))
        for good in ("cbc", "CBC", "cplex", "glpk", "Gurobi"):
            util.check_solver(good)
        for bad in ("cbcx", "", 3, None, "cb", ["cbc"]):
            try:
                util.check_solver(bad)
            except ValueError:
                continue
            raise Violation("check_solver({!r}) did not raise".format(bad))
        return True


# ------------------------------------------------------------------- C18
class C18:
    @staticmethod
    def gen(rng, i):
        case = C15.gen(rng, 0)
        case["kind"] = "repro"
        case["model"] = ["azp", "basic", "reactive", "sa", "mheu", "mheu"][i % 6]
        if case["model"] == "sa":
            case["a"] = dict(maxp_instance(rng, rng.randrange(300), 5))
            case["a"]["attr"] = rand_attr(rng, case["a"]["n"])
            case["a"]["p"] = rand_p(rng, case["a"]["n"], case["a"]["edges"])
            case["a"]["objective"] = {"kind": "pairwise", "metric": "manhattan"}
        if case["model"] == "mheu" and case["search"] == "sa" and \
                case["a"]["n"] > 6:
            case["search"] = "none"
        case["pre"] = [rng.randrange(10 ** 6), rng.randrange(10 ** 6)]
        case["seed"] = rng.choice([rng.randrange(10 ** 6), 0, "text"])
        return case

    @staticmethod
    def run(case):
        out = []
        for pre in case["pre"]:
            if isinstance(pre, int):
                seed_all(pre)
            model = C15.build(case)
            C15.fit(case, model, case["a"], case["fmt"])
            out.append(C15.labels(model))
        need(out[0] == out[1], "{} with random_state={!r}: labels {} and {}",
             case["model"], case["seed"], out[0], out[1])
        return 1 < len(set(out[0])) < len(out[0])
