import ruamel.yaml as yaml
from common import *
from mlmc.tool.flow_mc import FlowSim, substitute_placeholders
from mlmc.tool.gmsh_io import GmshIO


def write_mesh(path, nodes, elements, physical):
    with open(path, "w") as f:
        f.write("$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$PhysicalNames\n%d\n" % len(physical))
        for name, (i, dim) in physical.items():
            f.write("%d %d \"%s\"\n" % (dim, i, name))
        f.write("$EndPhysicalNames\n$Nodes\n%d\n" % len(nodes))
        for i, x in nodes.items():
            f.write("%d %r %r %r\n" % (i, x[0], x[1], x[2]))
        f.write("$EndNodes\n$Elements\n%d\n" % len(elements))
        for i, (t, tags, ns) in elements.items():
            f.write(" ".join(str(v) for v in [i, t, len(tags)] + list(tags) + list(ns)) + "\n")
        f.write("$EndElements\n")


def _mesh(seed):
    def run():
        rng = random.Random(seed)
        flat = rng.choice([None, None, 0, 1, 2])
        ids = rng.sample(range(1, 1000), rng.randint(6, 14))
        if rng.random() < 0.5:
            ids.sort()
        nodes = {}
        for i in ids:
            x = [rng.uniform(-3, 3) for _ in range(3)]
            if flat is not None:
                x[flat] = 0.75
            nodes[i] = x
        names = ["bulk", ".bc_outflow", "fr.x", ".side", "b2", "well.", "x_1"]
        rng.shuffle(names)
        if names[0].startswith("."):
            names.insert(0, "first")
        names = names[:rng.randint(1, len(names))]
        rids = rng.sample(range(1, 60), len(names))
        physical = {n: (r, rng.choice([1, 2, 3])) for n, r in zip(names, rids)}
        elements, order = {}, rng.sample(range(1, 5000), rng.randint(3, 25))
        if rng.random() < 0.5:
            order.sort()
        for k, i in enumerate(order):
            t, n = rng.choice([(1, 2), (2, 3), (4, 4)])
            r = rids[0] if k < 2 else rng.choice(rids)
            elements[i] = (t, [r, rng.randint(1, 9)] + ([7] if rng.random() < 0.2 else []), rng.sample(ids, n))
        write_mesh("m.msh", nodes, elements, physical)
        d = FlowSim.extract_mesh(os.path.abspath("m.msh"))
        bulk = [i for i, (t, tags, ns) in elements.items() if not [n for n, (r, _) in physical.items() if r == tags[0]][0].startswith(".")]
        check([int(x) for x in d["ele_ids"]] == bulk, "elements", list(d["ele_ids"]), "expected", bulk)
        check([int(x) for x in d["point_region_ids"]] == [elements[i][1][0] for i in bulk], "regions", list(d["point_region_ids"]))
        check(dict(d["region_map"]) == {n: r for n, (r, _) in physical.items()}, "region map", d["region_map"], physical)
        cen = np.array([[sum(nodes[n][a] for n in elements[i][2]) / len(elements[i][2]) for a in range(3)] for i in bulk])
        diff = cen.max(axis=0) - cen.min(axis=0)
        a = int(np.argmin(diff))
        if diff[a] < 1e-10:
            cen = np.delete(cen, a, axis=1)
        check(close(d["points"], cen, rtol=1e-12, atol=1e-12), "points", d["points"], "expected", cen)
    return run


def _gmsh(seed):
    """the reader keeps every node, element and physical name of the file"""
    def run():
        rng = random.Random(seed)
        nodes = {i: [rng.uniform(-1e3, 1e3) for _ in range(3)] for i in rng.sample(range(1, 10**6), 8)}
        ids = list(nodes)
        elements = {i: (rng.choice([1, 2, 4]), [rng.randint(1, 50), rng.randint(1, 9)], rng.sample(ids, rng.randint(2, 4))) for i in rng.sample(range(1, 10**6), 9)}
        physical = {"r%d" % k: (k + 1, 2) for k in range(3)}
        write_mesh("m.msh", nodes, elements, physical)
        m = GmshIO(os.path.abspath("m.msh"))
        check({i: list(x) for i, x in m.nodes.items()} == nodes, "nodes", m.nodes)
        check(list(m.elements) == list(elements), "element order", list(m.elements))
        check({i: (t, list(a), list(b)) for i, (t, a, b) in m.elements.items()} == elements, "elements", m.elements)
        check({n.strip("\"'"): tuple(v) for n, v in m.physical.items()} == physical, "physical", m.physical)
        # fields written for the elements can be read back
        vals = {"conductivity": np.array([[rng.uniform(-5, 5)] for _ in elements]), "por": np.array([[rng.random()] for _ in elements])}
        GmshIO().write_fields(os.path.abspath("f.msh"), list(elements), vals)
        r = GmshIO(os.path.abspath("f.msh"))
        for name, v in vals.items():
            data = list(r.element_data[name].values())[0][1]
            check(list(data) == list(elements), "elements of the field", list(data))
            check([float(data[e][0]) for e in elements] == [float(x) for x in v[:, 0]], "field values", data, v)
    return run


def _template(seed):
    def run():
        rng = random.Random(seed)
        names = ["conductivity", "mesh_file", "timestep_h1", "timestep_h2", "a", "ab", "b", "A", "x y"]
        vals = ["!FieldElementwise {mesh_data_file: $INPUT_DIR$/f.msh, field_name: c}", "/tmp/a/mesh.msh", 0.1, 0.001, "", 17, "&\\1 %s {}", None, "š"]
        params = dict((n, rng.choice(vals)) for n in rng.sample(names, rng.randint(0, len(names))))
        pieces = []
        used = set()
        for _ in range(rng.randint(0, 25)):
            u = rng.random()
            if u < 0.45:
                n = rng.choice(names)
                pieces.append(("p", n))
            else:
                pieces.append(("t", rng.choice(["text ", "\n  key: ", " a ", "conductivity", "%s", "{}", "# x\n", "  ", "$INPUT$", "> ", " < ", "<unknown>", "a>", "\\n"])))
        text, exp = "", ""
        for kind, v in pieces:
            if kind == "p":
                text += "<%s>" % v
                if v in params:
                    used.add(v)
                    exp += str(params[v])
                else:
                    exp += "<%s>" % v
            else:
                text += v
                exp += v
        # neighbouring pieces must not form further placeholders
        again = text
        for kind, v in pieces:
            if kind == "p":
                again = again.replace("<%s>" % v, "\0", 1)
        for n in params:
            if "<%s>" % n in again:
                return
        with open("t.tmpl", "w") as f:
            f.write(text)
        got_used = substitute_placeholders(os.path.abspath("t.tmpl"), os.path.abspath("t.out"), params)
        with open("t.out") as f:
            got = f.read()
        with open("t.tmpl") as f:
            check(f.read() == text, "the template was changed")
        check(got == exp, "result", repr(got), "expected", repr(exp), "template", repr(text), params)
        check(sorted(got_used) == sorted(used) and len(got_used) == len(set(got_used)), "used", got_used, "expected", sorted(used))
    return run


def _result(seed):
    def run():
        rng = random.Random(seed)
        data = []
        for t in sorted([0.0] * rng.randint(0, 5) + [rng.choice([0.5, 1.0, 2.0]) for _ in range(rng.randint(0, 4))]):
            data.append({"time": t, "region": rng.choice([".bc_outflow", ".bc_outflow", ".bc_inflow", "bulk", "ALL"]),
                         "data": [-rng.random(), rng.choice([0.0, 0.0, 0.0, 1e-12, 1e-3]), -rng.random()]})
        # order within the initial time is arbitrary
        first = [d for d in data if d["time"] <= 0]
        rng.shuffle(first)
        data = first + [d for d in data if d["time"] > 0]
        with open("water_balance.yaml", "w") as f:
            yaml.dump({"data": data, "column_names": ["flux", "flux_in", "flux_out"]}, f)
        rel = [d for d in first if d["region"] == ".bc_outflow"]
        if not rel or any(d["data"][1] > 1e-10 for d in rel):
            expect_raises(lambda: FlowSim._extract_result(os.getcwd()), "balance %s" % data)
        else:
            r = FlowSim._extract_result(os.getcwd())
            e = -sum(d["data"][0] for d in rel)
            check(np.shape(r) == (1,) and abs(float(r[0]) - e) < 1e-12, "result", r, "expected", e, data)
    return run


class _Env(dict):
    pass


def _level(seed):
    """the level's files: template substituted with the mesh file, time steps and fields of the level; used fields passed on"""
    def run():
        rng = random.Random(seed)
        base = os.getcwd()
        nodes = {1: [0.0, 0.0, 0.0], 2: [1.0, 0.0, 0.0], 3: [1.0, 1.0, 0.0], 4: [0.0, 1.0, 0.0]}
        elements = {1: (1, [2, 1], [1, 2]), 2: (2, [1, 1], [1, 2, 3]), 3: (2, [1, 1], [1, 3, 4])}
        write_mesh("ready.msh", nodes, elements, {"bulk": (1, 2), ".bc_outflow": (2, 1)})
        with open("gmsh.sh", "w") as f:
            f.write("#!/bin/sh\nwhile [ $# -gt 1 ]; do if [ \"$1\" = -o ]; then cp %s/ready.msh \"$2\"; fi; echo \"$1\" >> %s/args; shift; done\n" % (base, base))
        os.chmod("gmsh.sh", 0o755)
        tmpl = "mesh: <mesh_file>\nh1: <timestep_h1>\nh2: <timestep_h2>\n" + ("cond: <conductivity>\n" if rng.random() < 0.7 else "") + "keep: <other>\n"
        with open("flow.yaml", "w") as f:
            f.write(tmpl)
        with open("sq.geo", "w") as f:
            f.write("geo")
        tf = rng.choice([1.0, 0.5, 3.0])
        sim = FlowSim(config=dict(env=dict(gmsh=os.path.join(base, "gmsh.sh"), flow123d="flow123d", gmsh_version=2), fields_params=dict(model="svd", corr_length=0.1, dim=2),
                                  yaml_file=os.path.join(base, "flow.yaml"), geo_file=os.path.join(base, "sq.geo"), work_dir=os.path.join(base, "work"), time_factor=tf), clean=True)
        h = rng.choice([0.5, 0.25, 0.1])
        ls = sim.level_instance([h], [rng.choice([0, 1.0])])
        d = ls.config_dict["fine"]["common_files_dir"]
        with open(os.path.join(d, "flow_input.yaml")) as f:
            got = f.read()
        exp = tmpl.replace("<mesh_file>", os.path.join(d, "mesh.msh")).replace("<timestep_h1>", str(tf * h)).replace("<timestep_h2>", str(tf * h * h))
        exp = exp.replace("<conductivity>", "!FieldElementwise {mesh_data_file: $INPUT_DIR$/fields_sample.msh, field_name: conductivity}")
        check(got == exp, "level input", got, "expected", exp)
        check(ls.config_dict["fine"]["step"] == h and ls.need_sample_workspace, "level configuration", ls.config_dict)
        check(("conductivity" in ls.config_dict["fields_used_params"]) == ("<conductivity>" in tmpl), "used", ls.config_dict["fields_used_params"])
    return run


def cases(tier, rng):
    n = 30 if tier == "quick" else 500
    for k in range(n):
        yield "mesh#%d" % k, _mesh(rng.randrange(10**9))
        yield "template#%d" % k, _template(rng.randrange(10**9))
        yield "result#%d" % k, _result(rng.randrange(10**9))
    for k in range(n // 5):
        yield "gmsh#%d" % k, _gmsh(rng.randrange(10**9))
        yield "level#%d" % k, _level(rng.randrange(10**9))
