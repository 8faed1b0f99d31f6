"""C14: histories of a problem description and its JSON file: assign, write, read, compare, reuse."""
import copy
import inspect
import hashlib
import json
import os
import random
import warnings

import casadi as ca
import numpy as np

from . import common, optstore, probdesc

SKIP = {"json_file", "code_export_directory", "acados_lib_path", "acados_include_path", "acados_link_libs", "casadi_code_gen_options", "acados_version", "expr_names", "x0"}
DROP = {"Jbx_0", "Jbx", "Jbx_e", "Jbu"}


UNIT = 1024


def tok(v):
    """content of a value that is no array of numbers: numbers compare as numbers, empty lists alike"""
    if isinstance(v, (list, tuple)):
        if not len(v):
            return "empty"
        return "[" + ", ".join(tok(x) for x in v) + "]"
    if isinstance(v, dict):
        return "{" + ", ".join("%s: %s" % (k, tok(v[k])) for k in sorted(v)) + "}"
    if isinstance(v, np.ndarray):
        return "array%s%s" % (v.shape, tok(v.tolist()))
    if isinstance(v, (bool, np.bool_)):
        return repr(float(v))
    if v is None:
        return "None"
    if isinstance(v, (int, float, np.integer, np.floating)):
        return repr(float(v))
    return repr(v)


def put(out, k, v):
    """arrays keep their entries as integers in units of 1/1024"""
    if isinstance(v, ca.DM):
        v = v.full()
    if isinstance(v, np.ndarray):
        if not v.size:
            out["tok"][k] = "empty"
            return
        d = common.ints(v.reshape(-1), UNIT) if v.dtype.kind in "fib" else [common.NONINT]
        if common.NONINT not in d:
            out["num"][k] = {"s": list(v.shape), "d": d}
            return
    out["tok"][k] = tok(v)


def props(o):
    return [n for n, p in inspect.getmembers(type(o), lambda v: isinstance(v, property)) if n not in SKIP]


def plain(o, pre, out):
    for n in props(o):
        if n.startswith("J") and n[1:2] in "bs":
            continue
        try:
            v = getattr(o, n)
        except Exception as e:
            v = "unreadable " + type(e).__name__
        put(out, pre + n, v)


SYMS = ("x", "xdot", "u", "z", "p", "t", "p_global", "pi", "p_slack")


RSYMS = tuple(a + s for a in ("cost_r_in_psi_expr", "con_r_in_phi") for s in probdesc.STG)


def symbolic(mod, pre, out, rng, first=None):
    """expressions by their values; the phases share the global parameters of the first one"""
    names = [n for n in props(mod) if isinstance(getattr(mod, n), (ca.SX, ca.MX))]
    args, exprs, used = [], [], set()
    for n in names:
        v = getattr(mod, n)
        if n in SYMS + RSYMS and v.numel() and v.is_valid_input():
            syms = {s.__hash__() for s in ca.symvar(v)}
            if n == "p_global" and first is not None:
                v = first.p_global
            if not syms & used:     # two residuals may be functions of the same symbol
                args.append((n, v))
                used |= syms
        else:
            exprs.append((n, v))
    pts = [[rng.randint(-3, 3) for _ in range(40)] for _ in range(3)]
    for n, v in args:
        out["tok"][pre + n] = "symbols %s %s" % (v.shape, type(v).__name__)
    for n, v in exprs:
        try:
            f = ca.Function("f", [a for _, a in args], [ca.densify(v)])
            vals = [f(*[ca.DM(pt[:a.numel()]) + k for k, (_, a) in enumerate(args)]).full().reshape(-1).tolist() for pt in pts]
        except Exception as e:
            vals = "cannot be evaluated: " + str(v)
        out["tok"][pre + n] = "%s %s = %s" % (type(v).__name__, v.shape, vals)
    for n in props(mod):
        v = getattr(mod, n)
        if not isinstance(v, (ca.SX, ca.MX)):
            if type(v).__name__ == "GnsfModel":
                symbolic(v, pre + n + ".", out, rng)
            else:
                put(out, pre + n, v)


def content(ocp, seed):
    out = {"tok": {}, "num": {}}
    rng = random.Random(seed)
    multi = type(ocp).__name__ == "AcadosMultiphaseOcp"
    if multi:
        groups = [("cost[%d]." % i, c) for i, c in enumerate(ocp.cost)] + [("constraints[%d]." % i, c) for i, c in enumerate(ocp.constraints)] + \
            [("dims[%d]." % i, c) for i, c in enumerate(ocp.phases_dims)] + [("mocp_opts.", ocp.mocp_opts)]
        models = [("model[%d]." % i, m) for i, m in enumerate(ocp.model)]
        for i, p in enumerate(ocp.parameter_values):
            put(out, "parameter_values[%d]" % i, p)
        put(out, "N_list", ocp.N_list)
    else:
        groups = [("cost.", ocp.cost), ("constraints.", ocp.constraints), ("dims.", ocp.dims)]
        models = [("model.", ocp.model)]
        put(out, "parameter_values", ocp.parameter_values)
    for pre, o in groups + [("solver_options.", ocp.solver_options), ("code_gen_options.", ocp.code_gen_options)]:
        plain(o, pre, out)
    for pre, m in models:
        symbolic(m, pre, out, rng, ocp.model[0] if multi else None)
    put(out, "p_global_values", ocp.p_global_values)
    put(out, "name", ocp.name)
    for n in ("ros_opts", "simulink_opts"):
        v = getattr(ocp, n, None)
        put(out, n, "None" if v is None else v.to_dict())
    z = getattr(ocp, "zoro_description", None)
    put(out, "zoro_description", None)
    if z is not None:
        out["tok"]["zoro_description"] = type(z).__name__
        for k, v in z.__dict__.items() if type(z).__name__ == "ZoroDescription" else ():
            put(out, "zoro_description." + k, v)
    if multi:
        for k in ("integrator_type", "collocation_type", "cost_discretization"):
            out["tok"].pop("solver_options." + k)
    elif not ocp.solver_options.N_horizon:
        out["tok"].pop("solver_options.time_steps", 0)
    return out


def md5(texts):
    return hashlib.md5("|".join(texts).encode()).hexdigest()


def written_as(o):
    """the texts casadi writes for the expressions of a description"""
    ms = o.model if isinstance(o.model, list) else [o.model]
    out = []
    for m in ms:
        out.append(m.serialize()[0])
        if m.gnsf_model is not None:
            out.append(m.gnsf_model.serialize()[0])
    return md5(out)


def filed(path):
    """content of the file, flat"""
    with open(path) as f:
        d = json.load(f)
    out = {"tok": {}, "num": {}, "hash": d.pop("hash", "none"), "text": ""}
    text = []

    def strip(v):
        """casadi writes the same expressions in more than one way: these texts are kept apart"""
        if isinstance(v, dict):
            text.extend(str(v.pop(k)) for k in sorted(v) if k == "serialized_expressions")
            for k in v:
                strip(v[k])
        if isinstance(v, list):
            for q in v:
                strip(q)
    strip(d)
    out["text"] = md5(text)

    def walk(pre, v):
        if isinstance(v, dict) and v:
            for k in v:
                if k not in SKIP:
                    walk(pre + "." + k if pre else k, v[k])
        else:
            out["tok"][pre] = tok(v)
    walk("", d)
    return out


FREE = ("N_horizon time_steps shooting_nodes cost_scaling qp_solver_cond_N qp_solver_cond_block_size sim_method_num_steps sim_method_num_stages hessian_approx integrator_type nlp_solver_type "
        "qp_solver cost_discretization Tsim as_rti_level tf with_solution_sens_wrt_params with_value_sens_wrt_params sim_method_jac_reuse tau_min with_anderson_acceleration "
        "nlp_solver_warm_start_first_qp_from_nlp fixed_hess globalization model_external_shared_lib_dir custom_update_filename custom_update_header_filename custom_update_copy ext_fun_compile_flags "
        "ext_fun_expand_constr ext_fun_expand_cost ext_fun_expand_dyn ext_fun_expand_precompute").split()


def options(rng, ocp, n):
    so = ocp.solver_options
    names = [x for x in optstore.options(type(so)) if x not in optstore.PATHY and x not in FREE]
    for o in rng.sample(names, n):
        cur = getattr(so, o)
        if isinstance(cur, (bool, str, float, int)) or cur is None:
            for _ in range(6):
                v = optstore.candidate(random.Random(rng.random()), cur)
                if not (isinstance(v, (bool, float, int)) or isinstance(v, str) and v in optstore.NAMES) or v != v or v in (float("inf"), -float("inf")):
                    continue
                try:
                    setattr(so, o, v)
                    break
                except Exception:
                    pass


def extras(rng, ocp):
    """parts of a description that few problems have"""
    from acados_template import AcadosOcpSimulinkOptions
    R = rng.randint
    if rng.random() < .3:
        s = AcadosOcpSimulinkOptions()
        s.samplingtime = "-1"
        s.inputs.lbx = R(0, 1)
        s.outputs.utraj = R(0, 1)
        s.outputs.KKT_residual = R(0, 1)
        if rng.random() < .5:
            s.add_sparse_param_port([0], "a", 0, 1)
        ocp.simulink_opts = s
    if type(ocp).__name__ == "AcadosMultiphaseOcp":
        return
    if rng.random() < .3:
        from acados_template.ros2 import AcadosOcpRosOptions
        r = AcadosOcpRosOptions()
        r.package_name, r.node_name, r.threads, r.publish_control_sequence = "pkg_%d" % R(0, 9), "node_%d" % R(0, 9), R(1, 4), bool(R(0, 1))
        r.state_topic, r.control_topic = "st%d" % R(0, 9), "ct%d" % R(0, 9)
        ocp.ros_opts = r
    if rng.random() < .3 and ocp.solver_options.N_horizon:
        from acados_template import ZoroDescription
        z = ZoroDescription()
        nx, nu = ocp.model.x.numel(), 0 if not isinstance(ocp.model.u, (ca.SX, ca.MX)) else ocp.model.u.numel()
        z.W_mat, z.P0_mat = np.eye(nx) * R(1, 3), np.eye(nx) * R(0, 2)
        z.fdbk_K_mat = np.ones((nu, nx)) * R(-1, 1)
        z.unc_jac_G_mat = np.eye(nx)
        z.backoff_scaling_gamma = float(R(1, 3))
        z.idx_lbx_t = list(range(R(0, len(ocp.constraints.idxbx))))
        z.output_P_matrices = bool(R(0, 1))
        ocp.zoro_description = z


def big(rng, ocp, many):
    """some data of large magnitude, where a small difference is a difference still"""
    if rng.random() < .4:
        for c in (ocp.constraints if many else [ocp.constraints]):
            for n in ("uh", "ug_e", "ubu", "ubx"):
                v = getattr(c, n)
                if v.size:
                    setattr(c, n, v + 2.**rng.randint(10, 19))
    if rng.random() < .4:
        if many:
            ocp.parameter_values = [p + 2.**18 for p in ocp.parameter_values]
        elif ocp.parameter_values.size:
            ocp.parameter_values = ocp.parameter_values + 2.**18


def single(rng, k):
    d = probdesc.gen(rng)
    o = rng.getrandbits(40)

    def mk():
        r = random.Random(o)
        ocp = probdesc.build(d)
        ocp.model.name = "m%d" % k
        options(r, ocp, 20)
        extras(r, ocp)
        big(r, ocp, False)
        if r.random() < .5:
            ocp.model.x_labels = ["a%d" % i for i in range(d["m"]["nx"])]
            ocp.model.t_label = "time"
        if r.random() < .3:
            ocp.name = "ocp_%d" % r.randint(0, 9)
        return ocp
    return mk


def multi(rng, k):
    """phases with a common state dimension"""
    nx = rng.randint(1, 2)
    ds = []
    while len(ds) < rng.choice([2, 2, 3]):
        d = probdesc.gen(rng)
        if d["m"]["nx"] == nx and d["o"]["N"] and d["m"]["npg"] == 0 and d["o"]["integrator_type"] != "DISCRETE" and d["m"]["nu"] and (not ds or d["m"]["sym"] == ds[0]["m"]["sym"]):
            ds.append(d)
    N = [rng.randint(1, 3) for _ in ds]
    o = rng.getrandbits(40)

    def mk():
        from acados_template import AcadosMultiphaseOcp
        r = random.Random(o)
        m = AcadosMultiphaseOcp(N_list=list(N))
        sym = (ca.SX if ds[0]["m"]["sym"] == "SX" else ca.MX).sym
        pg = sym("pg", 2) if r.random() < .4 else None
        for i, d in enumerate(ds):
            ph = probdesc.build(d)
            ph.model.name = "m%d_%d" % (k, i)
            if pg is not None:
                ph.model.p_global = pg
                for n in ("f_expl_expr", "f_impl_expr"):
                    v = getattr(ph.model, n)
                    if isinstance(v, (ca.SX, ca.MX)) and v.numel():
                        setattr(ph.model, n, v + (i + 1) * pg[0])
                ph.model.con_h_expr, ph.constraints.lh, ph.constraints.uh = pg[1] * ph.model.u[0], np.zeros(1), np.ones(1)
            m.set_phase(ph, i)
        if pg is not None:
            m.p_global_values = np.array([1., 2.])
        m.mocp_opts.integrator_type = [d["o"]["integrator_type"] for d in ds]
        if r.random() < .5:
            m.mocp_opts.collocation_type = [r.choice(["GAUSS_LEGENDRE", "GAUSS_RADAU_IIA"]) for _ in ds]
        m.solver_options.qp_solver = "PARTIAL_CONDENSING_HPIPM"
        ts = [float(r.randint(1, 3)) for _ in range(sum(N))]
        m.solver_options.tf = sum(ts)
        m.solver_options.time_steps = np.array(ts)
        options(r, m, 20)
        extras(r, m)
        big(r, m, True)
        return m
    return mk


def change(rng, ocp):
    """one assignment that leaves the description consistent; its name"""
    many = type(ocp).__name__ == "AcadosMultiphaseOcp"
    i = rng.randrange(ocp.n_phases) if many else 0
    pick = (lambda f: getattr(ocp, f)[i]) if many else (lambda f: getattr(ocp, f))
    delta = rng.choice([1, 2, 3, 8, 64, 1024]) / UNIT
    q = rng.choice(["num"] * 6 + ["opt", "model", "par", "ts", "label", "pg", "zoro"])
    if q == "num":
        objs = []
        for g in ("cost", "constraints"):
            o = pick(g)
            for n in probdesc.COST if g == "cost" else probdesc.CONS:
                v = getattr(o, n)
                if isinstance(v, np.ndarray) and v.size and not n.startswith("idx") and n not in ("lbx_0", "ubx_0"):
                    objs.append((o, n, v))
        if objs:
            o, n, v = rng.choice(objs)
            w = v.astype(float).copy()
            k = (0, 0) if w.ndim == 2 else rng.randrange(w.size)
            w[k] += -delta if n[0] == "l" else delta
            setattr(o, n, w)
            return n
    if q == "opt":
        ocp.solver_options.print_level = (ocp.solver_options.print_level or 0) + 1
        return "print_level"
    if q == "model":
        m = pick("model")
        for n in ("con_h_expr", "con_h_expr_e", "cost_y_expr", "f_expl_expr", "f_impl_expr", "disc_dyn_expr"):
            v = getattr(m, n)
            if isinstance(v, (ca.SX, ca.MX)) and v.numel() and rng.random() < .5:
                setattr(m, n, v + 1)
                return n
    if q == "par":
        if many and ocp.parameter_values[i].size:
            pv = [p.copy() for p in ocp.parameter_values]
            pv[i][0] += delta
            ocp.parameter_values = pv
            return "parameter_values"
        if not many and ocp.parameter_values.size:
            v = ocp.parameter_values.copy()
            v[-1] += delta
            ocp.parameter_values = v
            return "parameter_values"
    if q == "pg" and ocp.p_global_values.size:
        ocp.p_global_values = ocp.p_global_values + delta
        return "p_global_values"
    if q == "zoro" and getattr(ocp, "zoro_description", None) is not None:
        ocp.zoro_description.W_mat = ocp.zoro_description.W_mat + delta * np.eye(len(ocp.zoro_description.W_mat))
        return "zoro_description"
    if q == "label":
        m = pick("model")
        m.t_label = (m.t_label or "t") + "x"
        return "t_label"
    ts = ocp.solver_options.cost_scaling
    if ts is not None and len(ts):
        w = np.array(ts, dtype=float)
        w[rng.randrange(len(w))] += delta
        ocp.solver_options.cost_scaling = w
        return "cost_scaling"
    ocp.solver_options.print_level = (ocp.solver_options.print_level or 0) + 1
    return "print_level"


def history(rng, tid, k):
    from acados_template import AcadosOcp, AcadosMultiphaseOcp, AcadosOcpSolver
    mk = multi(rng, k) if rng.random() < .25 else single(rng, k)
    seed = rng.randint(0, 999)
    cls = None
    ev = []
    obj = mk()
    cls = type(obj)
    os.makedirs("code%d" % k, exist_ok=True)

    def prepare(o):
        o.code_gen_options.json_file = "d%d.json" % k
        o.code_gen_options.code_export_directory = os.path.abspath("code%d" % k)
        o.make_consistent(verbose=False)
    try:
        prepare(obj)
    except Exception as e:
        return None, "%s %s" % (type(e).__name__, str(e)[:80])
    path = obj.code_gen_options.json_file
    ev.append({"op": "new", "c": content(obj, seed)})
    loaded = None
    have = False
    own = True      # the description in hand was not read from a file
    for _ in range(rng.randint(3, 8)):
        q = rng.choice(["dump", "load", "load", "redump", "set", "reuse", "reuse", "twin", "swap"]) if have else rng.choice(["dump", "dump", "set", "reuse"])
        e = {"op": q}
        try:
            if q == "dump":
                obj.dump_to_json()
                have = True
                e["f"] = filed(path)
                e["own"] = own
            elif q == "load":
                loaded = cls.from_json(path)
                e["c"] = content(loaded, seed)
            elif q == "redump":
                if loaded is None:
                    continue
                o2 = copy.deepcopy(loaded)
                prepare(o2)
                o2.dump_to_json()
                e["f"] = filed(path)
                e["own"] = False
            elif q == "set":
                e["what"] = change(rng, obj)
                prepare(obj)
                e["c"] = content(obj, seed)
            elif q == "twin":
                obj = mk()
                own = True
                prepare(obj)
                e["c"] = content(obj, seed)
            elif q == "swap":
                if loaded is None:
                    continue
                obj = loaded
                own = False
                loaded = None
                prepare(obj)
                e["c"] = content(obj, seed)
            elif q == "reuse":
                t = rng.choice([0, 0, 1, 3, 64])
                e["tol"] = t
                e["text"] = written_as(obj)
                e["verdict"] = bool(AcadosOcpSolver.is_code_reuse_possible(copy.deepcopy(obj), verbose=False, tol_code_reuse=(t + .5 if t else 0) / UNIT))
            e["err"] = ""
        except Exception as x:
            e = {"op": q, "err": "%s: %s" % (type(x).__name__, str(x)[:200])}
            ev.append(e)
            break
        ev.append(e)
    return {"tid": tid, "ev": ev}, ""


def run(job):
    warnings.simplefilter("ignore")
    rng = random.Random(job["seed"])
    out, refused = [], {}
    with common.quiet():
        k = 0
        while len(out) < job["n"] and k < 4 * job["n"]:
            t, why = history(random.Random(rng.random()), "%s-%d" % (job["name"], k), k)
            k += 1
            if t is None:
                refused[why] = refused.get(why, 0) + 1
            else:
                out.append(t)
    return {"traces": out, "refused": refused}


if __name__ == "__main__":
    common.main(run)
