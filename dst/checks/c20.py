import math
import os
import shutil
import tempfile
import xml.etree.ElementTree as ET
from collections import Counter

import numpy as np

from commonroad.planning.planning_problem import PlanningProblemSet
from commonroad.scenario.scenario import Scenario
from dg_commons import PlayerName
from dg_commons.sim import SimParameters
from dg_commons.sim.scenarios import load_commonroad_scenario
from dg_commons.sim.scenarios.factory import get_scenario_commonroad_replica
from dst.core import boot
from dst.core.result import Result, h64
from dst.core.rng import Rng
from dst.world.disk import Disk

TYPES = ["car", "truck", "bus", "bicycle", "pedestrian", "motorcycle"]
REAL = ["USA_Phoenix-51_10_T-1", "USA_Lanker-1_1_T-1"]


# ------------------------------------------------------------------------------ scenario files
def xml_of(s: dict) -> bytes:
    """A CommonRoad scenario"""
    pt = lambda x, y: f"<point><x>{x}</x><y>{y}</y></point>"
    state = lambda t, x, y, th, v: (f"<time><exact>{t}</exact></time><position>{pt(x, y)}</position><orientation><exact>{th}</exact></orientation>"
                                    f"<velocity><exact>{v}</exact></velocity>")
    out = ["<?xml version='1.0' encoding='UTF-8'?>\n",
           f'<commonRoad timeStepSize="0.1" commonRoadVersion="2020a" author="a" affiliation="b" source="c" benchmarkID="{s["bid"]}" date="2020-01-01">\n',
           "<location><geoNameId>1</geoNameId><gpsLatitude>1.0</gpsLatitude><gpsLongitude>2.0</gpsLongitude></location>\n<scenarioTags><simulated/></scenarioTags>\n"]
    n = s["lanes"]
    for i in range(n):
        x0, x1 = 20.0 * i, 20.0 * (i + 1)
        xs = [x0, round(x0 + s["mid"], 3), x1]
        out.append(f'<lanelet id="{100 + i}"><leftBound>' + "".join(pt(x, round(s["y"] + 1.75, 3)) for x in xs) + "</leftBound><rightBound>"
                   + "".join(pt(x, round(s["y"] - 1.75, 3)) for x in xs) + "</rightBound>"
                   + (f'<predecessor ref="{99 + i}"/>' if i else "") + (f'<successor ref="{101 + i}"/>' if i < n - 1 else "")
                   + "<laneletType>urban</laneletType></lanelet>\n")
    for i, o in enumerate(s["static"]):
        out.append(f'<staticObstacle id="{300 + i}"><type>parkedVehicle</type><shape><rectangle><length>{o[2]}</length><width>{o[3]}</width></rectangle></shape>'
                   f'<initialState><time><exact>0</exact></time><position>{pt(o[0], o[1])}</position><orientation><exact>{o[4]}</exact></orientation></initialState></staticObstacle>\n')
    for i, o in enumerate(s["dynamic"]):
        tr = "".join(f"<state>{state(k, round(o['x'] + k * 0.1 * o['v'], 4), o['y'], 0.0, o['v'])}</state>" for k in range(1, o["n"] + 1))
        out.append(f'<dynamicObstacle id="{500 + i}"><type>{o["type"]}</type><shape><rectangle><length>{o["l"]}</length><width>{o["w"]}</width></rectangle></shape>'
                   f'<initialState>{state(0, o["x"], o["y"], 0.0, o["v"])}</initialState><trajectory>{tr}</trajectory></dynamicObstacle>\n')
    for i, o in enumerate(s["problems"]):
        out.append(f'<planningProblem id="{900 + i}"><initialState>{state(0, o[0], o[1], 0.0, o[2])}<yawRate><exact>0.0</exact></yawRate><slipAngle><exact>0.0</exact></slipAngle></initialState>'
                   f'<goalState><time><intervalStart>10</intervalStart><intervalEnd>50</intervalEnd></time><position><lanelet ref="100"/></position></goalState></planningProblem>\n')
    out.append("</commonRoad>\n" + "\n" * s.get("tail", 0))
    return "".join(out).encode()


def number(e, path):
    return float(e.find(path).text)


def facts_of_file(data: bytes) -> dict:
    """What is in a file, read independently"""
    root = ET.fromstring(data)
    line = lambda e: [(float(p.find("x").text), float(p.find("y").text)) for p in e.findall("point")]
    lanes = {int(l.get("id")): (line(l.find("leftBound")), line(l.find("rightBound")), sorted(int(r.get("ref")) for r in l.findall("predecessor")),
                                sorted(int(r.get("ref")) for r in l.findall("successor"))) for l in root.findall("lanelet")}
    st, dy = {}, {}
    for o in root.findall("staticObstacle") + root.findall("dynamicObstacle") + root.findall("obstacle"):
        i = int(o.get("id"))
        where = o.find("initialState/position/point")
        tr = o.find("trajectory")
        pos = (number(where, "x"), number(where, "y")) if where is not None else None
        typ = o.find("type").text
        if tr is None:
            st[i] = (pos, typ)
        else:
            last = tr.findall("state")[-1].find("position/point")
            dy[i] = (pos, typ, len(tr.findall("state")), (number(last, "x"), number(last, "y")) if last is not None else None)
    pp = {int(p.get("id")): ((number(p.find("initialState/position/point"), "x"), number(p.find("initialState/position/point"), "y")), len(p.findall("goalState")))
          for p in root.findall("planningProblem")}
    return dict(bid=root.get("benchmarkID"), dt=float(root.get("timeStepSize")), lanes=lanes, static=st, dynamic=dy, problems=pp,
                signs=sorted(int(e.get("id")) for e in root.findall("trafficSign")), lights=sorted(int(e.get("id")) for e in root.findall("trafficLight")),
                crossings=sorted(int(e.get("id")) for e in root.findall("intersection")))


def near(a, b, tol: float = 1e-6) -> bool:
    return np.shape(a) == np.shape(b) and bool(np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=0, atol=tol))


def compare(want: dict, sc, pps, old_format: bool) -> str | None:
    """What is missing or different in a loaded scenario"""
    if not isinstance(sc, Scenario) or not isinstance(pps, PlanningProblemSet):
        return f"returned {type(sc).__name__}, {type(pps).__name__}"
    if str(sc.scenario_id) != want["bid"] and not old_format:
        return f"it is scenario {sc.scenario_id}, the file is {want['bid']}"
    if abs(sc.dt - want["dt"]) > 1e-12:
        return f"time step {sc.dt} rather than {want['dt']}"
    net = sc.lanelet_network
    got = {l.lanelet_id: l for l in net.lanelets}
    if set(got) != set(want["lanes"]):
        return f"lanes {sorted(got)[:6]} ({len(got)}) rather than {sorted(want['lanes'])[:6]} ({len(want['lanes'])})"
    for i, (le, ri, pr, su) in want["lanes"].items():
        if not near(got[i].left_vertices, le) or not near(got[i].right_vertices, ri) or sorted(got[i].predecessor) != pr or sorted(got[i].successor) != su:
            return f"lane {i} differs"
    if not old_format:
        for name, objs, attr in (("signs", net.traffic_signs, "traffic_sign_id"), ("lights", net.traffic_lights, "traffic_light_id"),
                                 ("crossings", net.intersections, "intersection_id")):
            if sorted(getattr(o, attr) for o in objs) != want[name]:
                return f"{name} differ"
        st = {o.obstacle_id: o for o in sc.static_obstacles}
        dy = {o.obstacle_id: o for o in sc.dynamic_obstacles}
        for what, objs in (("static", st), ("dynamic", dy)):
            if set(objs) != set(want[what]):
                return f"{what} obstacles {sorted(objs)} rather than {sorted(want[what])}"
            for i, o in objs.items():
                w = want[what][i]
                if not near(o.initial_state.position, w[0]) or o.obstacle_type.value != w[1]:
                    return f"{what} obstacle {i} differs"
                if what == "dynamic":
                    states = o.prediction.trajectory.state_list
                    if len(states) != w[2] or not near(states[-1].position, w[3]):
                        return f"the trajectory of obstacle {i} has {len(states)} states rather than {w[2]}"
    elif len(sc.obstacles) != len(want["static"]) + len(want["dynamic"]):
        return f"{len(sc.obstacles)} obstacles rather than {len(want['static']) + len(want['dynamic'])}"
    if set(pps.planning_problem_dict) != set(want["problems"]):
        return f"planning problems {sorted(pps.planning_problem_dict)} rather than {sorted(want['problems'])}"
    for i, (pos, goals) in want["problems"].items():
        p = pps.planning_problem_dict[i]
        if not near(p.initial_state.position, pos) or len(p.goal.state_list) != goals:
            return f"planning problem {i} differs"
    return None


def compare_replica(s: dict, ctx, name: str) -> str | None:
    """The simulation made from a scenario has all its obstacles, as players or as static obstacles"""
    moving = [(i, o) for i, o in enumerate(s["dynamic"]) if o["v"] * 0.1 * o["n"] > 0.2]
    still = [o for o in s["dynamic"] if o["v"] * 0.1 * o["n"] <= 0.2]
    players = sorted(map(str, ctx.players))
    if players != sorted(map(str, ctx.models)):
        return f"players {players}, bodies {sorted(map(str, ctx.models))}"
    want = [(i, o) for i, o in moving if o["type"] != "motorcycle"]
    if len(players) != len(want):
        return f"{len(players)} players rather than {len(want)} moving obstacles"
    at = sorted((m.get_state().x, m.get_state().y, m.get_state().vx) for m in ctx.models.values())
    if not near(at, sorted((o["x"], o["y"], o["v"]) for _, o in want)):
        return f"players begin at {at}"
    c = sorted((round(o.shape.centroid.x, 6), round(o.shape.centroid.y, 6), round(o.shape.area, 3)) for o in ctx.dg_scenario.static_obstacles)
    w = sorted([(o["x"], o["y"], round(o["l"] * o["w"], 3)) for o in still] + [(o[0], o[1], round(o[2] * o[3], 3)) for o in s["static"]])
    if not near(c, w, 2e-3):
        return f"static obstacles {c} rather than {w}"
    return None


class Check:
    ID = "C20"
    RUNS_QUICK = 1800
    RUNS_THOROUGH = 80000
    RULE = (
        "A case is, from (seed, index), a tree of directories with scenario files (links, look-alikes, the same name twice, directories named "
        "like files) on a simulated disk that decides listing orders and injects, load after load, failures to list, to open and to read, "
        "short and interrupted reads and files cut at any byte, before the disk recovers. What is loaded is compared with an independent "
        "reading of the intact files. Non-trivial if a fault fired and a later load of the same scenario succeeded."
    )
    REAL = ["dg_commons.sim.scenarios", "commonroad.common.file_reader", "xml.etree", "os.walk"]
    STUB = ["listing order, failures to list, open and read (patched os.scandir, os.listdir, open)"]
    STATE_MEASURE = "(kind of fault, place of the fault within the file, layout, kind of name, loader, outcome)"

    # ------------------------------------------------------------------ cases
    def gen_scenario(self, rng: Rng, k: int) -> dict:
        n = rng.randint(1, 5)
        mk = lambda: dict(type=rng.pick(TYPES), x=rng.r(0, 20 * n - 5), y=rng.pick([0.0, 0.0, 0.5, 30.0]), v=rng.pick([0.0, 0.1, 0.9, rng.r(2, 10)]),
                          l=rng.r(1, 5), w=rng.r(0.5, 2), n=rng.randint(1, 12))
        dyn = [mk() for _ in range(rng.randint(0, 4))]
        for o in dyn:
            if o["type"] == "pedestrian":
                o["v"] = 0.0  # walking pedestrians cannot be converted into players
        return dict(bid=f"ZAM_Dst-{k + 1}_{rng.randint(1, 9)}_T-1", lanes=n, mid=rng.r(2, 18), y=0.0,
                    static=[[rng.r(0, 20 * n), rng.r(-8, 8), rng.r(0.5, 4), rng.r(0.5, 2), rng.r(-3, 3)] for _ in range(rng.randint(0, 3))],
                    dynamic=dyn,
                    problems=[[rng.r(0, 20), 0.0, rng.r(0, 10)] for _ in range(rng.randint(0, 2))], tail=rng.pick([0, 0, 3]))

    def gen(self, rng, tier):
        if rng.flip(0.06):
            f = [self.gen_fault(rng) for _ in range(rng.randint(1, 3))]
            return dict(mode="repo", name=rng.pick(REAL), ext=rng.flip(0.5), faults=f, cwd=rng.flip(0.5), order=rng.randint(0, 10**6))
        base = rng.pick(["Scn", "ZAM_Dst-1_1_T-1", "with.dot", "a b", "x.xml.y"])
        names = [base] + rng.sample([base + "2", base[:-1] or "q", base.lower() + "_", "Other"], rng.randint(0, 3))
        dirs = [""] + rng.sample(["a", "b", "z", "a/c", "deep/er/est", ".hidden", "A"], rng.randint(0, 5))
        files = []
        for n in names:
            for d in rng.sample(dirs, 1 if rng.flip(0.6) else min(len(dirs), rng.randint(1, 3))):
                files.append(dict(path=(d + "/" if d else "") + n + ".xml", s=self.gen_scenario(rng, len(files))))
        extra = []
        for _ in range(rng.randint(0, 3)):
            k = rng.pick(["bak", "dir", "part", "case", "noext"])
            d = rng.pick(dirs)
            extra.append(dict(k=k, path=(d + "/" if d else "") + base + {"bak": ".xml.bak", "dir": ".xml", "part": ".xm", "case": ".XML", "noext": ""}[k]))
        links = [dict(src=f"ln{i}", dst=rng.pick(dirs) or ".") for i in range(rng.pick([0, 0, 1]))]
        loads = []
        for _ in range(rng.randint(2, 7)):
            i = rng.randrange(len(files)) if rng.flip(0.3) else 0
            fault = self.gen_fault(rng) if rng.flip(0.6) else None
            loads.append(dict(name=os.path.basename(files[i]["path"])[:-4], ext=rng.flip(0.5), fault=fault, on=rng.pick(["same", "same", "same", "other"]),
                              order=rng.randint(0, 10**6), loader=rng.pick(["plain", "plain", "replica"]), w=rng.randint(0, 10**6)))
        if rng.flip(0.3):
            loads.insert(rng.randrange(len(loads)), dict(name=rng.pick(["Nothing", base + "x", "*", "", "a/" + base, base + ".xml.bak"]), ext=False, fault=None,
                                                         on="same", order=1, loader="plain", w=0))
        return dict(mode="tree", files=files, extra=extra, links=links, loads=loads, rel=rng.flip(0.2), outside=rng.flip(0.2))

    def gen_fault(self, rng: Rng) -> dict:
        k = rng.pick(["eio", "eio", "trunc", "trunc", "trunc", "short", "eintr", "eacces", "enoent", "emfile", "torn", "torn", "zeros", "empty", "gone", "list"])
        return dict(k=k, at=rng.pick([rng.r(0, 1, 6), rng.r(0, 1, 6), 0.0, 0.999, 0.98]), n=rng.randint(0, 3))

    # ------------------------------------------------------------------ runs
    @staticmethod
    def valid(spec) -> bool:
        """Whether the intact files are scenarios (a minimised case may be none)"""
        if spec["mode"] != "tree":
            return spec["name"] in REAL
        return bool(spec["files"]) and len({f["path"] for f in spec["files"]}) == len(spec["files"]) and all(
            s["lanes"] >= 1 and 0 < s["mid"] < 20 and s["bid"].startswith("ZAM_Dst-") and s["bid"].endswith("_T-1")
            and all(o[2] > 0.1 and o[3] > 0.1 for o in s["static"])
            and all(o["l"] > 0.1 and o["w"] > 0.1 and o["n"] >= 1 and o["type"] in TYPES and abs(o["v"] * 0.1 * o["n"] - 0.2) > 0.01
                    and (o["v"] == 0 or o["type"] != "pedestrian") for o in s["dynamic"])
            for s in (f["s"] for f in spec["files"]))

    def run(self, spec, res: Result):
        if not self.valid(spec):
            return
        base = tempfile.mkdtemp(prefix="c20_", dir=os.environ.get("DST_SCRATCH"))
        cwd = os.getcwd()
        try:
            if spec["mode"] == "repo":
                self.run_repo(spec, res, base)
            else:
                self.run_tree(spec, res, base)
        finally:
            os.chdir(cwd)
            shutil.rmtree(base)

    def run_repo(self, spec, res: Result, base):
        root = os.path.join(os.path.abspath(boot.REPO), "scenarios")
        path = next(os.path.realpath(os.path.join(d, spec["name"] + ".xml")) for d, _, fs in os.walk(root) if spec["name"] + ".xml" in fs)
        with open(path, "rb") as fh:
            data = fh.read()
        want = facts_of_file(data)
        old = "2018b" in data[:600].decode()
        if spec["cwd"]:
            os.chdir(base)
        fired = Counter()
        for f in spec["faults"] + [None]:
            if f is not None and f["k"] in ("torn", "zeros", "empty", "gone", "list"):
                continue  # would alter the files of the repository
            faults = {path: dict(k=f["k"], at=int(f["at"] * len(data)))} if f else {}
            err = got = None
            rng = Rng(str(spec["order"]))
            with Disk(root, lambda ns: rng.sample(ns, len(ns)), faults, {}, fired) as disk:
                try:
                    got = load_commonroad_scenario(spec["name"] + (".xml" if spec["ext"] else ""))
                except Exception as e:
                    err = e
            if not self.verdict(f, data, want, got, err, disk, old, f"default directory, {spec['name']}", res):
                return
        with open(path, "rb") as fh:
            if fh.read() != data:
                res.violation("modified", f"{spec['name']} was modified by loading it")
                return
        res.faults.update(fired)
        res.nontrivial = bool(fired)

    def fatal(self, f, data: bytes) -> bool:
        """Whether the fault leaves no complete scenario to read"""
        if f is None or f["k"] in ("short", "eintr"):
            return False
        if f["k"] == "trunc" or f["k"] == "torn":
            return not data[: int(f["at"] * len(data))].rstrip().endswith(b"</commonRoad>")
        return True

    def verdict(self, f, data, want, got, err, disk, old, where, res: Result) -> bool:
        fatal = self.fatal(f, data)
        what = f"{where}{', fault ' + f['k'] + (' at %d of %d bytes' % (f['at'] * len(data), len(data)) if f['k'] in ('eio', 'trunc', 'torn', 'zeros') else '') if f else ''}"
        res.event(what, type(err).__name__ if err is not None else "loaded")
        res.state(f["k"] if f else "", round(f["at"], 1) if f else 0, where.split(",")[0], err is None)
        if disk.written:
            res.violation("written", f"{what}: a file was opened for writing")
            return False
        if fatal:
            if err is None:
                diff = compare(want, *got, old) if isinstance(got, tuple) and len(got) == 2 else "no scenario"
                res.violation("partial", f"{what}: something was returned rather than an error ({diff or 'a whole scenario from somewhere else'})")
                return False
            return True
        if err is not None:
            res.violation("failed", f"{what}: {type(err).__name__}: {str(err)[:150]}")
            return False
        diff = compare(want, *got, old) if isinstance(got, tuple) and len(got) == 2 else f"returned {type(got).__name__}"
        if diff:
            res.violation("incomplete", f"{what}: {diff}")
            return False
        return True

    def run_tree(self, spec, res: Result, base):
        root = os.path.join(base, "t")
        os.makedirs(root)
        content = {}
        for f in spec["files"]:
            p = os.path.join(root, f["path"])
            os.makedirs(os.path.dirname(p), exist_ok=True)
            content[p] = (xml_of(f["s"]), f["s"])
            with open(p, "wb") as fh:
                fh.write(content[p][0])
        if spec.get("outside"):
            # one of the files is on another disk, linked into the tree
            p = os.path.join(root, spec["files"][0]["path"])
            away = os.path.join(base, "away")
            os.makedirs(away)
            os.replace(p, os.path.join(away, os.path.basename(p)))
            link = os.path.join(os.path.dirname(p), "mnt")
            if os.path.lexists(link):
                return
            os.symlink(away, link)
            q = os.path.join(link, os.path.basename(p))
            content = {(q if k == p else k): v for k, v in content.items()}
        for e in spec["extra"]:
            p = os.path.join(root, e["path"])
            if os.path.lexists(p):
                continue
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if e["k"] == "dir":
                os.makedirs(p)
            else:
                with open(p, "wb") as fh:
                    fh.write(xml_of(dict(spec["files"][0]["s"], bid="ZAM_Decoy-1_1_T-1")))
        for l in spec["links"]:
            if os.path.isdir(os.path.join(root, l["dst"])) and l["dst"] != ".":
                os.symlink(os.path.join(root, l["dst"]), os.path.join(root, l["src"]))
        where = root
        if spec["rel"]:
            os.chdir(base)
            where = "t"
        before = self.listing(root)
        facts = {p: facts_of_file(d) for p, (d, _) in content.items()}
        chosen: dict = {}
        fired = Counter()
        recovered = False
        failed_before = set()
        for n, l in enumerate(spec["loads"]):
            paths = [p for p in content if os.path.basename(p) == l["name"] + ".xml"]
            label = f"load {n} ({l['loader']}) of {l['name']!r}{' with extension' if l['ext'] else ''} from {len(paths)} places"
            if not paths:
                got, err, _ = self.load(l, where, root, {}, {}, fired)
                res.event(label, type(err).__name__)
                if err is None:
                    res.violation("phantom", f"{label}: a scenario was returned")
                    return
                res.faults["missing"] += 1
                continue
            if len(paths) > 1 and l["name"] not in chosen:
                # which of the files is found
                got, err, _ = self.load(dict(l, loader="plain"), where, root, {}, {}, fired)
                hit = [p for p in paths if err is None and compare(facts[p], *got, False) is None]
                if not hit:
                    res.violation("failed", f"{label}: {err!r}")
                    return
                chosen[l["name"]] = hit[0]
            target = chosen.get(l["name"], paths[0])
            f = l["fault"]
            victim = target
            if f and l["on"] == "other":
                others = [p for p in content if p != target]
                if others:
                    victim = others[l["w"] % len(others)]
            data, s = content[victim]
            faults, lists, undo = {}, {}, None
            if f:
                at = int(f["at"] * len(data))
                if f["k"] == "list":
                    d = os.path.dirname(os.path.realpath(victim))
                    lists[d] = f["n"]
                    if len(paths) > 1 or spec["links"]:
                        f, lists = None, {}  # which file is found is open
                elif f["k"] in ("torn", "zeros", "empty", "gone"):
                    fired["file-" + f["k"]] += 1
                    new = {"torn": data[:at], "zeros": data[:at].ljust(len(data), b"\0"), "empty": b"", "gone": None}[f["k"]]
                    if f["k"] == "zeros" and at >= len(data.rstrip()):
                        new = data[: len(data) // 2].ljust(len(data), b"\0")
                    if f["k"] == "gone" and len(paths) > 1 and victim in paths:
                        new = data
                        f = None
                    if f is not None:
                        self.put(victim, new)
                    undo = data
                else:
                    faults[os.path.realpath(victim)] = dict(k=f["k"], at=at)
            got, err, disk = self.load(l, where, root, faults, lists, fired)
            if undo is not None:
                self.put(victim, undo)
            eff = f if victim == target else None
            tdata, ts = content[target]
            if f and f["k"] == "list":
                # the listing failed: the file may be found elsewhere on the way, or not at all
                res.event(label, "list", type(err).__name__)
                if err is None and (diff := self.judge(l, facts[target], ts, got)):
                    res.violation("incomplete", f"{label}, a directory could not be listed: {diff}")
                    return
                if err is not None:
                    failed_before.add(target)
                continue
            if l["loader"] == "replica":
                if err is None and self.fatal(eff, tdata):
                    res.violation("partial", f"{label}, fault {eff['k']}: a simulation was returned rather than an error")
                    return
                if err is not None and not self.fatal(eff, tdata):
                    res.violation("failed", f"{label}: {type(err).__name__}: {str(err)[:150]}")
                    return
                res.event(label, type(err).__name__)
                res.state("replica", f["k"] if f else "", err is None)
                if err is None and (diff := compare(facts[target], ctx_scenario(got), PlanningProblemSet(), False)) and not diff.startswith("planning"):
                    res.violation("incomplete", f"{label}: {diff}")
                    return
                if err is None and (diff := compare_replica(ts, got, l["name"])):
                    res.violation("replica", f"{label}: {diff}")
                    return
            elif not self.verdict(eff, tdata, facts[target], got, err, disk, False, label, res):
                return
            if err is None and target in failed_before:
                recovered = True
            if err is not None:
                failed_before.add(target)
            after = self.listing(root)
            if after != before:
                res.violation("modified", f"{label}: the files changed: {sorted(set(before.items()) ^ set(after.items()))[:2]}")
                return
        res.faults.update(fired)
        res.schedule = h64([(l["name"], l["fault"] and l["fault"]["k"], l["order"] % 7) for l in spec["loads"]])
        res.nontrivial = recovered and bool(fired)

    def judge(self, l, facts, s, got):
        if l["loader"] == "replica":
            return compare_replica(s, got, l["name"])
        return compare(facts, *got, False)

    @staticmethod
    def put(path, data):
        if data is None:
            os.remove(path)
        else:
            with open(path, "wb") as fh:
                fh.write(data)

    @staticmethod
    def listing(root) -> dict:
        out = {}
        for d, ds, fs in os.walk(root, followlinks=True):
            for x in ds:
                out[os.path.relpath(os.path.join(d, x), root)] = "dir"
            for x in fs:
                p = os.path.join(d, x)
                with open(p, "rb") as fh:
                    out[os.path.relpath(p, root)] = h64(fh.read())
        return out

    def load(self, l, where, root, faults, lists, fired):
        rng = Rng(str(l["order"]))
        err = got = None
        with Disk(root, lambda ns: rng.sample(ns, len(ns)), faults, lists, fired) as disk:
            try:
                name = l["name"] + (".xml" if l["ext"] else "")
                if l["loader"] == "replica":
                    got = get_scenario_commonroad_replica(name, where, sim_param=SimParameters(), seed=3)
                else:
                    got = load_commonroad_scenario(name, where)
            except Exception as e:
                err = e
        return got, err, disk


def ctx_scenario(ctx):
    return ctx.dg_scenario.scenario


CHECK = Check()
