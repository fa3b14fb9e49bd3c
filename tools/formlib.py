# What the form checks build: which terms a form may have, and the concrete
# commands of an abstract history.
from mbv import hexd

SOURCES = (["utils/utils.cpp"] + ["common/%s.cpp" % s for s in ("coefficient", "functional_output", "miso_linearform")]
           + ["physics/%s.cpp" % s for s in ("miso_nonlinearform", "miso_input", "miso_integrator", "finite_element_state", "finite_element_vector", "mfem_common_integ")]
           + ["electromagnetics/electromag_integ.cpp", "thermal/thermal_integ.cpp"])
SOURCES = [s if s.startswith(("utils", "common", "physics")) else "physics/" + s for s in SOURCES]

ALL, TWO, THREE = ("tri", "quad", "tet", "hex"), ("tri", "quad"), ("tet", "hex")
DC = ("wire_length", "rms_current", "strand_radius", "strands_in_hand", "stack_length", "winding_volume")
AC = ("frequency", "strand_radius", "strands_in_hand", "num_turns", "num_slots", "winding_volume")


def T(kind, els, fams, places=("domain",), fields=(), scalars=(), named=(), vary=False, no=(), sname="state"):
    return dict(kind=kind, els=els, fams=fams, places=places, fields=fields, scalars=scalars, named=named, vary=vary, no=no, sname=sname)


TERMS = {
    "Diffusion": T("residual", ALL, ("H1",)),
    "DGDiffusion": T("residual", TWO, ("L2", "H1"), ("bdr",)),
    "DGInterior": T("residual", TWO, ("L2",), ("interior", "internal")),
    "CurlCurl": T("residual", THREE, ("ND",)),
    "Contact": T("residual", ALL, ("L2",), ("interior", "internal"), named=("h",)),
    "Interface": T("residual", ALL, ("L2",), ("interior", "internal"), named=("h", "fluid_temp")),
    "Convection": T("residual", ALL, ("H1",), ("bdr",), scalars=("h", "fluid_temp")),
    "Outflux": T("residual", ALL, ("H1",), ("bdr",), scalars=("outflux",), no=("outflux",)),
    "L2Projection": T("residual", ALL, ("H1",), no=("mesh_coords",)),
    "DomainLF": T("load", ALL, ("H1",), vary=True),
    "Magnetization": T("load", TWO, ("H1",), fields=("temperature",), vary=True),
    "DCLossLoad": T("load", ALL, ("H1",), fields=("temperature",), scalars=DC),
    "ACLossLoad": T("load", ALL, ("H1",), fields=("temperature", "peak_flux"), scalars=AC),
    "CAL2Load": T("load", ALL, ("H1",), fields=("temperature", "peak_flux"), scalars=("frequency",)),
    "SteinmetzLoad": T("load", ALL, ("H1",), scalars=("frequency", "stack_length"), named=("max_flux_magnitude",), no=("*",)),
    "BoundaryNormal": T("functional", TWO, ("H1",), ("bdr",), vary=True, no=("mesh_coords",)),
    "Volume": T("functional", ALL, ("H1",), vary=True),
    "State": T("functional", ALL, ("H1",)),
    "MagCurl": T("functional", ALL, ("H1", "ND")),
    "IENum": T("functional", ALL, ("H1",), scalars=("true_max",), no=("true_max",)),
    "IEDen": T("functional", ALL, ("H1",), scalars=("true_max",), no=("true_max",)),
    "IECurlNum": T("functional", ALL, ("H1", "ND")),
    "IECurlDen": T("functional", ALL, ("H1", "ND")),
    "Energy": T("functional", ALL, ("H1", "ND")),
    "DCLoss": T("functional", ALL, ("H1",), fields=("temperature",), scalars=DC, vary=True, no=("state",)),
    "ACLoss": T("functional", ALL, ("H1",), fields=("temperature", "peak_flux"), scalars=AC, vary=True, no=("state",), sname="peak_flux"),
    "CAL2": T("functional", ALL, ("H1",), fields=("temperature", "peak_flux"), scalars=("frequency",), no=("state",)),
    "Steinmetz": T("functional", ALL, ("H1",), scalars=("frequency",), named=("max_flux_magnitude",), vary=True, no=("state",)),
    "Force3": T("functional", ALL, ("H1", "ND"), fields=("v",), no=("v",)),
    "Force": T("functional", THREE, ("ND",), fields=("v",), no=("v",)),
}
CURL = ("MagCurl", "IECurlNum", "IECurlDen", "Energy", "Force3")
# terms that make sense together: same kind, space and fields
GROUPS = [["Diffusion", "DGDiffusion", "Convection", "Outflux", "L2Projection"], ["DGDiffusion", "DGInterior", "Contact", "Interface"], ["CurlCurl"],
          ["DomainLF", "Magnetization", "DCLossLoad", "ACLossLoad", "CAL2Load"],
          ["Volume", "State", "MagCurl", "Energy", "Force3", "IEDen"], ["Volume", "DCLoss", "Steinmetz", "CAL2"]]


def usable(t, el, fam):
    d = TERMS[t]
    if el not in d["els"] or fam not in d["fams"]:
        return False
    if t in CURL and (fam == "ND") != (el in THREE):     # 2-D: the vector potential is a scalar
        return False
    return not (t == "DGDiffusion" and el in THREE)


class Forms:
    """Deals out forms so that every term, element and place comes up equally often."""
    def __init__(self, rng):
        self.rng, self.deck = rng, {}

    def deal(self, key, items):
        if not self.deck.get(key):
            self.deck[key] = self.rng.sample(items, len(items))
        return self.deck[key].pop()

    def form(self, kind, derivs):
        rng = self.rng
        names = [t for t in TERMS if TERMS[t]["kind"] == kind and not (derivs and "*" in TERMS[t]["no"])]
        t0 = self.deal(kind, names)
        el, fam = self.deal(t0, [(e, f) for e in TERMS[t0]["els"] for f in TERMS[t0]["fams"] if usable(t0, e, f)])
        terms = [t0]
        for g in GROUPS:
            if t0 in g and rng.random() < .4:
                terms += [t for t in rng.sample(g, min(len(g), 2)) if usable(t, el, fam) and not (t in terms and t == "Steinmetz")
                          and not (derivs and "*" in TERMS[t]["no"])]
                break
        p = 1 if el == "hex" else rng.choice([1, 1, 2])
        fields, out, no, defaults = {}, [], set(), {}
        sname = TERMS[t0]["sname"]
        for i, t in enumerate(terms):
            d = TERMS[t]
            for f in d["fields"]:
                fields[f] = {"fam": "H1", "p": p if f == "temperature" and kind == "load" else rng.choice([1, 1, 2]) if kind != "load" else 1}
            no |= set(d["no"])
            # materials that depend on position have no derivative with respect to the mesh in most terms
            vary = rng.random() < .5 if not derivs or rng.random() < .5 else d["vary"]
            if vary and not d["vary"]:
                no.add("mesh_coords")
            d1, d2 = rng.uniform(.5, 2), rng.uniform(.5, 2)
            if t.startswith("IE"):
                d1 = rng.uniform(.1, .4)
            name = rng.choice(["", "n1", "n2"]) if d["named"] else ""
            for s, v in zip(("h", "fluid_temp"), (d1, d2)) if "h" in d["named"] else (("h", d1), ("fluid_temp", d2)) if t == "Convection" else (("outflux", d1),) if t == "Outflux" else ():
                if s not in d["named"] and s not in d["scalars"]:
                    continue
                key = s + (":" + name if name else "")
                if key in defaults:      # one input, one initial value
                    if s == "h" or s == "outflux":
                        d1 = defaults[key]
                    else:
                        d2 = defaults[key]
                defaults[key] = d1 if s in ("h", "outflux") else d2
            out.append({"type": t, "place": self.deal("place" + t, list(d["places"])), "attrs": rng.choice([None, [1], [2], [1, 2]]), "name": name,
                        "alpha": hexd(rng.choice([1.0, -.5, 2.0])), "vary": vary, "d1": hexd(d1), "d2": hexd(d2)})
        ess = rng.choice([[], [1], [1, 2]]) if kind != "functional" and fam != "L2" else []
        if ess and kind == "residual":
            fields["dirichlet_bc"] = {}
        return {"op": "form", "seed": rng.getrandbits(48), "el": el, "nd": 2, "nb": 2, "internal": rng.random() < .6, "curve": rng.choice([1, 1, 2]), "fam": fam, "p": p,
                "fields": fields, "kind": kind, "sname": sname, "terms": out, "ess": ess, "defaults": {k: hexd(v) for k, v in defaults.items()}}, no

    def names(self, cfg):
        n = ["state", "mesh_coords"] + list(cfg["fields"])
        for t in cfg["terms"]:
            d = TERMS[t["type"]]
            n += list(d["scalars"]) + [s + (":" + t["name"] if t["name"] else "") for s in d["named"]]
        return sorted(set(n))

    def pick(self, which, names):
        rng = self.rng
        return names if which == "all" else [rng.choice(names)] if which == "one" else rng.sample(names, rng.randint(1, len(names)))

    def scenario(self, h, derivs):
        rng = self.rng
        cfg, no = self.form(h[0][1], derivs)
        names = self.names(cfg)
        cmds, k, kind = [cfg], 0, cfg["kind"]

        def add(op, **kw):
            nonlocal k
            k += 1
            cmds.append(dict(op=op, k=k, **kw))
        if derivs:
            # away from the values inputs have before they are given: fields are zero then
            add("set", names=names, extra=False, split=False)
            if kind == "residual":
                add("lin", how="jac", names=[])
        for o in h[1:]:
            if o[0] == "set":
                add("set", names=self.pick(o[1], names), extra=o[2] == "extra", split=o[2] == "split")
            elif o[0] == "value":
                add("value", names=self.pick(o[1], names))
            elif o[0] == "lin":
                add("lin", how=o[1], names=self.pick("some", names))
            elif o[0] == "adjoint":
                add("adjoint")
            elif o[0] == "missing":
                add("missing", how=o[1])
            else:
                mode, w = o[1], {"state": "state", "mesh": "mesh_coords"}.get(o[2])
                if w is None:
                    w = self.deal(str(sorted(t["type"] + t["name"] for t in cfg["terms"])), [n for n in names if n not in ("state", "mesh_coords", "dirichlet_bc")] or ["mesh_coords"])
                if kind != "functional" and mode == "jvp" and w != "state":
                    mode = "vjp"
                if mode == "partial" and w not in ("state", "mesh_coords", "temperature", "peak_flux"):
                    mode = "jvp"
                if kind == "load" and w == "state":
                    w = "mesh_coords"
                if w in no:
                    continue
                add("deriv", wrt=w, mode=mode, names=self.pick("some", names))
        return {"cmds": cmds}
