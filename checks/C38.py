"""C38: molecular data: names, files, Hamiltonians, density matrices and reduced Hamiltonians."""
import gc
import itertools
import os
import shutil

import h5py
import numpy as np

from checks.C30 import integrals, spin_terms
from checks import zqfresh, zqfreshlist
from mc import opmat as om
from mc.core import Space
from zquantum.core.openfermion import InteractionOperator, MolecularData, get_molecular_data
from zquantum.core.openfermion.chem import (angstroms_to_bohr, bohr_to_angstroms, antisymtei, geometry_from_file, j_mat, k_mat, load_molecular_hamiltonian, make_reduced_hamiltonian,
                                            name_molecule)
from zquantum.core.openfermion.chem import molecular_data as module
from zquantum.core.openfermion.chem.molecular_data import MissingCalculationError, MoleculeNameError, periodic_hash_table, spinorb_from_spatial
from zquantum.core.openfermion.transforms import get_fermion_operator

ID = "C38"
ASSUMPTIONS = ["orbitals are real; the integrals have the symmetries of real orbitals where active spaces are compared",
               "values read from a file are compared by number, atoms and charges element by element (a file stores arrays)",
               "arrays set on an object are not reset by load(); an object reads again what another object saved only after it is opened anew",
               "a crash is a failure before or after any one call that writes, moves or removes a file; the HDF5 library itself is taken as given"]
TECHNIQUE = "exhaustive enumeration of histories of setting, saving, opening and failing against a model of the file, and of names, active spaces and Hamiltonians against polynomials and sparse matrices"

ELEMENTS = ["?", "H", "He", "Li", "Be", "B", "C", "N", "O", "F", "Ne", "Na", "Mg", "Al", "Si", "P", "S", "Cl", "Ar"]
ATOMS = ["H", "He", "Li", "O", "Cl"]
MULT = {1: "singlet", 2: "doublet", 3: "triplet", 4: "quartet", 5: "quintet", 6: "sextet", 7: "septet", 8: "octet", 9: "nonet", 10: "dectet", 11: "undectet", 12: "duodectet"}


# ---- names, counts, geometries ----------------------------------------------------------------------
def gen_names(tier):
    for k in range(1, 4 if tier == "quick" else 5):
        for c in itertools.product(range(len(ATOMS)), repeat=k):
            yield ["atoms", list(c)]
    for m in range(-1, 15):
        yield ["multiplicity", m]
    for i in range(1, len(ELEMENTS)):
        yield ["element", i]
    lines = range(len(LINES))
    for k in range(0, 4 if tier == "quick" else 5):
        for c in itertools.product(lines, repeat=k):
            yield ["file", list(c)]


LINES = [("H 0. 0. 0.7414", ("H", (0.0, 0.0, 0.7414))), ("O\t-1.5  2e-1 3", ("O", (-1.5, 0.2, 3.0))), ("", None), ("3", None), ("water molecule", None), ("  Li 1 2 3  ", ("Li", (1.0, 2.0, 3.0)))]


def step_names(ctx, case):
    what, arg = case
    ctx.state(repr(case))
    if what == "file":
        path = os.path.join(ctx.scratch, "geometry.txt")
        for end in ("", "\n"):
            with open(path, "w") as f:
                f.write("\n".join(LINES[i][0] for i in arg) + end)
            got = geometry_from_file(path)
            ctx.step()
            ctx.eq([(a, tuple(p)) for a, p in got], [LINES[i][1] for i in arg if LINES[i][1]], "geometry read from %s" % [LINES[i][0] for i in arg])
        return
    if what == "element":
        ctx.eq(periodic_hash_table[ELEMENTS[arg]], arg, "atomic number of %s" % ELEMENTS[arg])
        m = MolecularData([(ELEMENTS[arg], (0, 0, 0))], "b", 1 + arg % 2)
        ctx.eq((m.n_electrons, m.protons, m.n_atoms), (arg, [arg], 1), "electrons, protons and atoms of %s" % ELEMENTS[arg])
        for d in (0.3, 1.0, 7.25):
            ctx.check(abs(angstroms_to_bohr(bohr_to_angstroms(d)) - d) < 1e-9, "Bohr to angstrom and back")
        return
    if what == "multiplicity":
        if arg not in MULT:
            ctx.raises(lambda: name_molecule([("H", (0, 0, 0))], "b", arg, 0, ""), "multiplicity %d" % arg, MoleculeNameError)
            return
        ctx.eq(name_molecule([("H", (0, 0, 0))], "b", arg, 0, ""), "H1_b_" + MULT[arg], "name")
        geo = [("H", (0, 0, 0))]
        for args in ((None, "b", arg), (geo, None, arg), (geo, "b", None), (), (geo, "b")):
            ctx.raises(lambda: MolecularData(*args), "a molecule from %r without a file" % (args,), ValueError)
            ctx.raises(lambda: MolecularData(*args, data_directory=ctx.scratch, description="x"), "a molecule from %r without a file" % (args,), ValueError)
        for bad in (1, 0.7414, None, ["x"], b"x"):
            ctx.raises(lambda: MolecularData(geo, "b", arg, description=bad), "description %r" % (bad,), TypeError)
        for ne in range(arg - 1, 14):
            if (ne - arg + 1) % 2:
                continue
            m = MolecularData([("Ne", (0, 0, 0)), ("He", (0, 0, 0)), ("H", (0, 0, 0))], "b", arg, charge=13 - ne)
            ctx.step()
            ctx.eq(m.n_electrons, ne, "number of electrons")
            a, b = m.get_n_alpha_electrons(), m.get_n_beta_electrons()
            ctx.check(a + b == ne and a - b == arg - 1 and b >= 0, lambda: "%d electrons with multiplicity %d: %d up and %d down" % (ne, arg, a, b))
        return
    atoms = [ATOMS[i] for i in arg]
    geo = [(a, (0.0, 0.1 * i, 1.0 * i)) for i, a in enumerate(atoms)]
    z = sorted(ELEMENTS.index(a) for a in atoms)
    stem = "-".join("%s%d" % (ELEMENTS[i], z.count(i)) for i in sorted(set(z)))
    for basis, charge, desc in itertools.product(("sto-3g", "6-31g*"), (-2, 0, 1, 2), ("", "0.7414", "a_b")):
        mult = 1 + (sum(z) - charge) % 2
        name = name_molecule(geo, basis, mult, charge, desc)
        ctx.step()
        parts = name.split("_")
        ctx.eq(parts[:3], [stem, basis, MULT[mult]], "name %s" % name)
        rest = parts[3:]
        if charge:
            ctx.check(rest and str(abs(charge)) in rest[0] and rest[0][-1] == ("+" if charge > 0 else "-"), lambda: "charge %d in the name %s" % (charge, name))
            rest = rest[1:]
        ctx.eq("_".join(rest), desc, "description in the name %s" % name)
        for ext in ("", ".hdf5"):
            for how in ("filename", "directory"):
                kw = {"filename": "/x/" + name + ext} if how == "filename" else {"data_directory": "/x"}
                m = MolecularData(geo, basis, mult, charge=charge, description=desc, **kw)
                ctx.step()
                ctx.eq(m.filename, "/x/" + name, "file name")
                ctx.eq(m.name, name, "name of the molecule")
                ctx.eq((m.n_atoms, m.atoms, m.protons, m.n_electrons), (len(atoms), [ELEMENTS[i] for i in z], z, sum(z) - charge), "atoms, protons and electrons")


# ---- files ------------------------------------------------------------------------------------------
GEOS = [([("H", (0.0, 0.0, 0.0)), ("H", (0.0, 0.0, 0.7414))], "sto-3g", 1, 0, "0.7414"), ([("Li", (0.0, 0.5, 0.0)), ("H", (-1.0, 0.0, 1.45))], "6-31g*", 2, 1, ""), ("hubbard", "none", 1, 0, "x y")]
SCALARS = ["n_orbitals", "n_qubits", "nuclear_repulsion", "hf_energy", "mp2_energy", "cisd_energy", "fci_energy", "ccsd_energy"]
LAZY = ["canonical_orbitals", "overlap_integrals", "one_body_integrals", "two_body_integrals", "cisd_one_rdm", "cisd_two_rdm", "fci_one_rdm", "fci_two_rdm", "ccsd_single_amps", "ccsd_double_amps"]


def val(name, k):
    if name in ("n_orbitals", "n_qubits"):
        return 2 + k
    if name in SCALARS:
        return -1.25 * (SCALARS.index(name) + 1) + k if k != 2 else 0.0
    if name == "orbital_energies":
        return np.array([0.5 * k, 1.5, -2.0])
    i = LAZY.index(name)
    d = 4 if name.startswith("two") or "two" in name or "double" in name else 2
    return (np.arange(2 ** d).reshape((2,) * d) + i + 0.5 * k) * (0.25 if k != 2 else 0.0)


GROUPS = [["n_orbitals", "n_qubits", "nuclear_repulsion"], ["hf_energy", "orbital_energies", "canonical_orbitals", "overlap_integrals"], ["one_body_integrals", "two_body_integrals"], ["mp2_energy"],
          ["cisd_energy", "cisd_one_rdm", "cisd_two_rdm"], ["fci_energy", "fci_one_rdm", "fci_two_rdm"], ["ccsd_energy", "ccsd_single_amps", "ccsd_double_amps"]]
NAMES = sum(GROUPS, [])
GENERAL = [{}, {"CI": 1.25}, {"CI": -2.5, "perfect pairing": 0.5}]


def show(m):
    out = {}
    for n in NAMES:
        v = getattr(m, n)
        out[n] = None if v is None else np.array(v, dtype=float)
    out["general"] = {k: float(v) for k, v in m.general_calculations.items()}
    g = m.geometry
    out["geometry"] = g if isinstance(g, str) else [(str(a), tuple(float(x) for x in p)) for a, p in g]
    for n in ("basis", "multiplicity", "charge", "description", "name", "n_atoms", "n_electrons"):
        out[n] = getattr(m, n)
    out["atoms"] = [a.decode() if isinstance(a, bytes) else str(a) for a in np.array(m.atoms).tolist()] if m.n_atoms else []
    out["protons"] = np.array(m.protons).tolist()
    return out


def differ(a, b):
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            if x is None or y is None or x.shape != y.shape or not np.array_equal(x, y):
                return "%s: %s and %s" % (k, x, y)
        elif x != y:
            return "%s: %r and %r" % (k, x, y)
    return None


class Model:
    def __init__(self, geo):
        g, basis, mult, charge, desc = geo
        self.values = {n: None for n in NAMES}
        self.values["general"] = {}
        if isinstance(g, str):
            z, atoms = 0, []
        else:
            atoms = sorted((a for a, _ in g), key=ELEMENTS.index)
            z = [ELEMENTS.index(a) for a in atoms]
        self.values.update(geometry=g, basis=basis, multiplicity=mult, charge=charge, description=desc, n_atoms=0 if isinstance(g, str) else len(g), atoms=atoms, protons=z,
                           n_electrons=0 if isinstance(g, str) else sum(z) - charge)

    def copy(self):
        m = Model.__new__(Model)
        m.values = dict(self.values)
        return m


class Crash(BaseException):
    pass


class Faults:
    """fails before (or after) the k-th call that touches a file"""

    def __init__(self, k, exc):
        self.k, self.exc, self.n = k, exc, 0
        self.fired = None

    def wrap(self, owner, name, real):
        def f(*a, **kw):
            self.point("before " + name)
            try:
                return real(*a, **kw)
            finally:
                self.point("after " + name)
        return f

    def point(self, where):
        i = self.n
        self.n += 1
        if i == self.k and self.fired is None:
            self.fired = where
            raise self.exc()

    def __enter__(self):
        self.saved = []
        for owner, names in ((os, ("remove", "unlink", "rename", "replace", "link", "truncate")), (shutil, ("move", "copy", "copyfile", "copy2")), (h5py.Group, ("create_dataset", "create_group"))):
            for n in names:
                real = getattr(owner, n)
                self.saved.append((owner, n, real))
                setattr(owner, n, self.wrap(owner, n, real))
        return self

    def __exit__(self, *a):
        for owner, n, real in self.saved:
            setattr(owner, n, real)


def ops_of(tier):
    out = [["set", g, k] for g in range(len(GROUPS)) for k in (0, 1)]
    return out


def gen_files(tier):
    # what is set, whether it is saved, opened and changed again
    for geo in range(len(GEOS)):
        for sub in itertools.product((0, 1), repeat=len(GROUPS)):
            if tier == "quick" and sum(sub) not in ((0, 1, 6, 7) if geo == 0 else (0, 7)):
                continue
            for gen in range(len(GENERAL)) if tier != "quick" or sum(sub) in (0, 7) else (sum(sub) % 3,):
                yield ["sets", geo, list(sub), gen]
    alphabet = ["set0", "set1", "set2", "general", "clear", "save", "open", "load", "read"]
    for k in range(1, 4 if tier == "quick" else 5):
        for h in itertools.product(range(len(alphabet)), repeat=k):
            h = [alphabet[i] for i in h]
            if h.count("save") == 0 or h[-1] not in ("open", "read", "save", "load"):
                continue
            yield ["history", 0, h]
    for first in (0, 1):
        for k in range(120):
            for exc in ("OSError", "Crash") if tier != "quick" else ("OSError",) if k % 4 in (0, 1) else ("Crash",):
                yield ["fault", 1, first, k, exc]


def fresh(ctx, geo, name="mol"):
    d = os.path.join(ctx.scratch, "molecules")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    g, basis, mult, charge, desc = GEOS[geo]
    return d, os.path.join(d, name), MolecularData(g, basis, mult, charge=charge, description=desc, filename=os.path.join(d, name))


def set_group(m, model, g, k):
    for n in GROUPS[g]:
        v = val(n, k)
        setattr(m, n, v.copy() if isinstance(v, np.ndarray) else v)
        model.values[n] = np.array(v, dtype=float)


def expect(model, name):
    out = dict(model.values)
    out["name"] = name
    return out


def compare(ctx, m, model, what):
    want = expect(model, m.name)
    got = show(m)
    ctx.check(differ(want, got) is None, lambda: "%s: expected and found %s" % (what, differ(want, got)))


def only_file(ctx, d, what):
    ctx.eq(sorted(os.listdir(d)), ["mol.hdf5"], "files after " + what)


def step_files(ctx, case):
    try:
        files_case(ctx, case)
    finally:
        # handles of files that were closed slow the HDF5 library down until they are collected
        ctx.since = getattr(ctx, "since", 0) + 1
        if ctx.since % 4 == 0:
            gc.collect()


def files_case(ctx, case):
    if case[0] == "sets":
        _, geo, sub, gen = case
        d, path, m = fresh(ctx, geo)
        model = Model(GEOS[geo])
        for g, on in enumerate(sub):
            if on:
                set_group(m, model, g, gen)
        m.general_calculations = dict(GENERAL[gen])
        model.values["general"] = dict(GENERAL[gen])
        compare(ctx, m, model, "before saving")
        name = m.name
        m.save()
        only_file(ctx, d, "saving")
        compare(ctx, m, model, "after saving")
        for ext in ("", ".hdf5"):
            b = MolecularData(filename=path + ext)
            ctx.step(3)
            ctx.eq(b.name, name, "name read from the file")
            compare(ctx, b, model, "opened")
        b.save()
        only_file(ctx, d, "saving again")
        compare(ctx, MolecularData(filename=path), model, "saved by the object that was opened and opened again")
        ctx.check(b.get_from_file("no such entry") is None, "an entry the file does not have")
        ctx.state(("sets", geo, tuple(sub), gen))
        return
    if case[0] == "history":
        _, geo, h = case
        d, path, m = fresh(ctx, geo)
        model = Model(GEOS[geo])
        file = None
        dirty = False
        counter = 0
        for i, op in enumerate(h):
            what = "%s (%s)" % (h[: i + 1], op)
            ctx.step()
            if op.startswith("set"):
                set_group(m, model, [1, 2, 4][int(op[3])], counter % 3)
                counter += 1
                dirty = True
            elif op == "general":
                m.general_calculations = dict(GENERAL[1 + counter % 2])
                model.values["general"] = dict(GENERAL[1 + counter % 2])
                counter += 1
            elif op == "clear":
                m.general_calculations = {}
                m.hf_energy = None
                model.values["general"] = {}
                model.values["hf_energy"] = None
            elif op == "save":
                m.save()
                only_file(ctx, d, what)
                file = model.copy()
                dirty = False
            elif op == "open":
                if file is None:
                    ctx.raises(lambda: MolecularData(filename=path), "opening a file that does not exist", (OSError, KeyError))
                    continue
                m = MolecularData(filename=path)
                model = file.copy()
                dirty = False
            elif op == "load":
                if file is None:
                    ctx.raises(lambda: m.load(), "loading a file that does not exist", (OSError, KeyError))
                    return
                if dirty:
                    return
                m.load()
                model = file.copy()
            else:
                # an attribute that is not set is looked up in the file
                for n in LAZY:
                    if model.values[n] is None and file is not None:
                        model.values[n] = file.values[n]
                compare(ctx, m, model, what)
        for n in LAZY:
            if model.values[n] is None and file is not None:
                model.values[n] = file.values[n]
        compare(ctx, m, model, "after %s" % h)
        ctx.state(("history", differ_key(model)))
        return
    _, geo, first, k, exc = case
    d, path, m = fresh(ctx, geo)
    model = Model(GEOS[geo])
    set_group(m, model, 1, 0)
    old = None
    if first:
        m.save()
        old = model.copy()
        m = MolecularData(filename=path)
    set_group(m, model, 2, 1)
    set_group(m, model, 0, 1)
    m.general_calculations = {"CI": 3.5}
    model.values["general"] = {"CI": 3.5}
    err = None
    if k >= ctx.__dict__.setdefault("calls", {}).get(first, 1 << 30):
        ctx.outcome("no such call")
        return
    with Faults(k, OSError if exc == "OSError" else Crash) as f:
        try:
            m.save()
        except (Crash, Exception) as e:
            err = e
    ctx.step()
    if f.fired is None:
        ctx.outcome("no such call")
        ctx.calls[first] = k
        ctx.check(err is None, lambda: "saving failed: %r" % err)
    else:
        ctx.outcome(f.fired)
    there = os.path.exists(path + ".hdf5")
    if not there:
        ctx.check(not first and err is not None, lambda: "after %s failed %s, there is no file" % ("the second save" if first else "saving", f.fired))
    else:
        got = show(MolecularData(filename=path))
        okay = [expect(x, m.name) for x in (old, model) if x is not None]
        if err is None:
            okay = okay[-1:]
        ctx.check(any(differ(w, got) is None for w in okay), lambda: "after a failure %s the file holds neither the old nor the new molecule: %s" % (f.fired, differ(okay[-1], got)))
    # the object is still usable
    m.save()
    compare(ctx, MolecularData(filename=path), model, "saved after a failure %s" % f.fired)
    ctx.state(("fault", first, k, exc))


def differ_key(model):
    return tuple((k, None if v is None else v.tobytes() if isinstance(v, np.ndarray) else repr(v)) for k, v in sorted(model.values.items()))


# ---- Hamiltonians -------------------------------------------------------------------------------------
def unit_integrals(n, which, sym):
    one, two = np.zeros((n,) * 2), np.zeros((n,) * 4)
    if len(which) == 2:
        one[tuple(which)] = 1.5
        if sym:
            one = np.maximum(one, one.T)
    else:
        p, q, r, s = which
        for t in {(p, q, r, s), (s, q, r, p), (p, r, q, s), (s, r, q, p), (q, p, s, r), (r, p, s, q), (q, s, p, r), (r, s, p, q)} if sym else {(p, q, r, s)}:
            two[t] = -0.75
    return one, two


def gen_hamiltonians(tier):
    for n in (1, 2):
        for s in range(3):
            yield ["plain", n, s]
        for w in list(itertools.product(range(n), repeat=2)) + list(itertools.product(range(n), repeat=4)):
            yield ["unit", n, list(w)]
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for s in range(2 if n < 3 else 1):
            yield ["active", n, s]
            yield ["file", n, s]
    for n in (2, 3, 4) if tier == "quick" else (2, 3, 4, 5):
        for k in range(2, n + 1):
            for s in range(2):
                yield ["reduced", n, k, s]
    for n in (2, 3):
        for k in range(2, n + 1):
            for w in list(itertools.product(range(n), repeat=2)) + list(itertools.product(range(n), repeat=4)):
                yield ["reduced-unit", n, k, list(w)]
    for which in ("fci", "cisd"):
        for have in itertools.product((0, 1), repeat=2):
            yield ["rdm", which, list(have)]


def iop_terms(op):
    out = [((), op.constant)]
    n = op.n_qubits
    for p, q in itertools.product(range(n), repeat=2):
        if op.one_body_tensor[p, q]:
            out.append((((p, 1), (q, 0)), op.one_body_tensor[p, q]))
    for i in itertools.product(range(n), repeat=4):
        if op.two_body_tensor[i]:
            out.append((((i[0], 1), (i[1], 1), (i[2], 0), (i[3], 0)), op.two_body_tensor[i]))
    return out


def molecule(one, two, const, **kw):
    m = MolecularData([("H", (0, 0, 0)), ("H", (0, 0, 1))], "b", 1, **kw)
    m.one_body_integrals, m.two_body_integrals, m.nuclear_repulsion = one.copy(), two.copy(), const
    m.n_orbitals = one.shape[0]
    m.n_qubits = 2 * one.shape[0]
    return m


def restricted(ctx, full, small, n, occ, act, what):
    where = [2 * p + a for p in act for a in (0, 1)]
    core = sum(1 << (2 * n - 1 - (2 * p + a)) for p in occ for a in (0, 1))
    k = len(act)

    def lift(j):
        return core | sum(1 << (2 * n - 1 - where[q]) for q in range(2 * k) if (j >> (2 * k - 1 - q)) & 1)

    for i in range(1 << 2 * k):
        for j in range(1 << 2 * k):
            ctx.check(abs(full.get((lift(i), lift(j)), 0) - small.get((i, j), 0)) < 1e-7, lambda: "%s: matrix element %d,%d" % (what, i, j))


def step_hamiltonians(ctx, case):
    what = case[0]
    ctx.state(repr(case))
    ctx.step()
    if what in ("plain", "unit"):
        n = case[1]
        one, two = integrals(n, case[2], sym=False) if what == "plain" else unit_integrals(n, case[2], False)
        m = molecule(one, two, 0.5)
        h = m.get_molecular_hamiltonian()
        ctx.check(om.dist(om.terms(iop_terms(h), 2 * n, "f"), om.terms(spin_terms(one, two, 0.5), 2 * n, "f")) < 1e-7, "molecular Hamiltonian")
        a, b = spinorb_from_spatial(one, two)
        anti = antisymtei(b)
        got = m.get_antisym()
        j, k, j2, k2 = m.get_j(), m.get_k(), j_mat(two), k_mat(two)
        for i in itertools.product(range(2 * n), repeat=4):
            p, q, r, s = i

            def v(p, q, r, s):
                return two[p // 2, q // 2, r // 2, s // 2] if p % 2 == s % 2 and q % 2 == r % 2 else 0

            ctx.check(abs(b[i] - v(p, q, r, s)) < 1e-9, lambda: "two-body coefficient %s" % (i,))
            want = v(p, q, s, r) - v(p, q, r, s)
            ctx.check(abs(anti[i] - want) < 1e-9 and abs(got[i] - want) < 1e-9, lambda: "antisymmetrized integral %s" % (i,))
        for p, q in itertools.product(range(n), repeat=2):
            # (pp|qq) and (pq|qp) in chemist notation, (ps|qr) being h[p,q,r,s]
            ctx.check(j[p, q] == j2[p, q] == two[p, q, q, p], lambda: "Coulomb integral %d,%d" % (p, q))
            ctx.check(k[p, q] == k2[p, q] == two[p, q, p, q], lambda: "exchange integral %d,%d" % (p, q))
        ctx.check(np.array_equal(m.one_body_integrals, one) and np.array_equal(m.two_body_integrals, two), "integrals after use")
        back = get_molecular_data(h, geometry=[("H", (0, 0, 0)), ("H", (0, 0, 1))], basis="b", multiplicity=1, n_electrons=2)
        ctx.eq((back.n_orbitals, back.n_qubits, back.n_electrons, back.multiplicity), (n, 2 * n, 2, 1), "molecular data of an operator")
        ctx.check(np.allclose(back.overlap_integrals, np.eye(n)), "overlap of the orbitals")
        ctx.check(back.get_molecular_hamiltonian() == h, "Hamiltonian of the molecular data of an operator")
        plain = get_molecular_data(h, geometry=[("H", (0, 0, 0)), ("H", (0, 0, 1))], basis="b", multiplicity=1, n_electrons=2, reduce_spin=False)
        ctx.check(plain.n_orbitals == 2 * n and np.allclose(plain.one_body_integrals, a) and np.allclose(plain.two_body_integrals, b), "molecular data with spin orbitals")
        return
    if what in ("active", "file"):
        _, n, s = case
        one, two = integrals(n, s)
        full = om.terms(spin_terms(one, two, 0.25), 2 * n, "f")
        if what == "active":
            m = molecule(one, two, 0.25)
            for z in range(n):
                for occ in itertools.combinations(range(n), z):
                    rest = [p for p in range(n) if p not in occ]
                    for k in range(1, len(rest) + 1):
                        for act in itertools.combinations(rest, k):
                            h = m.get_molecular_hamiltonian(list(occ) if occ or len(act) % 2 else None, list(act))
                            ctx.step()
                            restricted(ctx, full, om.terms(iop_terms(h), 2 * k, "f"), n, occ, act, "active space %s with core %s" % (act, occ))
                            base = m.get_active_space_integrals(list(occ), list(act))
                            for order in itertools.permutations(range(k)):
                                at = [act[i] for i in order]
                                for o2 in (list(occ), list(occ)[::-1], tuple(occ)):
                                    const, i1, i2 = m.get_active_space_integrals(o2, at)
                                    ctx.check(abs(const - base[0]) < 1e-9 and np.allclose(i1, base[1][np.ix_(order, order)]) and np.allclose(i2, base[2][np.ix_(order, order, order, order)]),
                                              lambda: "active orbitals %s in the order %s, core %s" % (act, at, o2))
            ctx.raises(lambda: m.get_molecular_hamiltonian([0], []), "no active orbitals", ValueError)
            ctx.check(np.array_equal(m.one_body_integrals, one) and np.array_equal(m.two_body_integrals, two) and m.nuclear_repulsion == 0.25, "integrals after use")
            for lacking in ("one_body_integrals", "two_body_integrals"):
                m = molecule(one, two, 0.25, data_directory=ctx.scratch + "/nothing")
                setattr(m, lacking, None)
                for f in (m.get_integrals, m.get_molecular_hamiltonian) + ((m.get_j, m.get_k, m.get_antisym) if lacking[0] == "t" else ()):
                    ctx.raises(f, "%s without %s" % (f.__name__, lacking), MissingCalculationError)
            return
        # read back from the data directory
        geo = [("H", (0, 0, 0))] * (2 * n)
        d = os.path.join(ctx.scratch, "library")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        keep = module.DATA_DIRECTORY
        module.DATA_DIRECTORY = d
        try:
            m = MolecularData(geo, "b", 1, description="d")
            m.one_body_integrals, m.two_body_integrals, m.nuclear_repulsion, m.n_orbitals, m.n_qubits = one, two, 0.25, n, 2 * n
            m.save()
            for ne in [None] + list(range(0, 2 * n + 1, 2)):
                core = 0 if ne is None else (2 * n - ne) // 2
                for no in [None] + list(range(1, n - core + 1)):
                    if core == n:
                        continue
                    h = load_molecular_hamiltonian(geo, "b", 1, "d", ne, no)
                    ctx.step()
                    act = list(range(core, core + no)) if no else list(range(core, n))
                    restricted(ctx, full, om.terms(iop_terms(h), 2 * len(act), "f"), n, list(range(core)), act, "%s electrons in %s orbitals of %d" % (ne, no, n))
            ctx.raises(lambda: load_molecular_hamiltonian(geo, "b", 1, "other"), "a molecule without a file", (OSError, KeyError))
        finally:
            module.DATA_DIRECTORY = keep
        return
    if what.startswith("reduced"):
        n, k = case[1], case[2]
        if what == "reduced":
            s = case[3]
            one = np.array([[((2 * i + 3 * j + s) % 5 - 2) / 2 for j in range(n)] for i in range(n)])
            two = np.zeros((n,) * 4)
            for q in itertools.product(range(n), repeat=4):
                two[q] = ((q[0] + 2 * q[1] + 3 * q[2] + 5 * q[3] + s) % 9 - 4) / 4
        else:
            one, two = unit_integrals(n, case[3], False)
        op = InteractionOperator(0.75, one.copy(), two.copy())
        red = make_reduced_hamiltonian(op, k)
        ctx.check(np.all(np.array(red.one_body_tensor) == 0), "one-body part of a reduced Hamiltonian")
        ctx.check(np.array_equal(op.one_body_tensor, one) and np.array_equal(op.two_body_tensor, two) and op.constant == 0.75, "operator after the reduction")
        a, b = om.terms(iop_terms(op), n, "f"), om.terms(iop_terms(red), n, "f")
        for i, j in itertools.product(range(1 << n), repeat=2):
            if bin(i).count("1") == bin(j).count("1") == k:
                ctx.check(abs(a.get((i, j), 0) - b.get((i, j), 0)) < 1e-8, lambda: "reduced Hamiltonian for %d electrons, element %d,%d" % (k, i, j))
        c = om.terms(list(get_fermion_operator(red).terms.items()), n, "f")
        ctx.check(om.dist(b, c) < 1e-8, "polynomial of the reduced Hamiltonian")
        return
    _, which, have = case
    m = molecule(*integrals(2, 0), 0.0, data_directory=ctx.scratch + "/nothing")
    one, two = {}, {}
    for i, w in enumerate(("fci", "cisd")):
        one[w] = np.array([[1.0 + i, 0.25, 3e-9, 0], [0.25, 0.5, 0, 0], [0, -3e-9, 0.5, 0], [0, 0, 0, 0.125]])
        two[w] = np.arange(256.0).reshape((4,) * 4) * (i + 1)
        if have[i]:
            setattr(m, w + "_energy", -1.0 - i)
            setattr(m, w + "_one_rdm", one[w].copy())
            setattr(m, w + "_two_rdm", two[w].copy())
    i = 0 if which == "fci" else 1
    if not have[i]:
        ctx.raises(lambda: m.get_molecular_rdm(use_fci=which == "fci"), "density matrix without the calculation", MissingCalculationError)
        return
    rdm = m.get_molecular_rdm(use_fci=which == "fci")
    ctx.check(np.max(np.abs(rdm.one_body_tensor - one[which])) < 1e-8 and np.max(np.abs(rdm.two_body_tensor - two[which])) < 1e-8, "density matrix")
    if which == "cisd":
        ctx.check(np.array_equal(m.get_molecular_rdm().one_body_tensor, rdm.one_body_tensor), "default density matrix")


FRESH = zqfresh.Fresh(zqfreshlist.C38)


SPACES = [
    Space("fresh", FRESH.gen, FRESH.step, "every ordered pair of representative calls in one process, the first result overwritten by its owner, against a fresh process"),
    Space("names", gen_names, step_names, "all atom lists of length up to 3 (4) over 5 elements with charges, bases and descriptions; multiplicities -1 to 14 with all electron counts; all geometry files of up to 3 (4) of 6 lines"),
    Space("files", gen_files, step_files, "all choices of up to 1 or at least 6 (thorough: all choices) of 7 groups of calculations with three kinds of general results; all histories of up to 3 (4) of 9 operations; a failure at every call of a save, with and without an earlier file"),
    Space("hamiltonians", gen_hamiltonians, step_hamiltonians, "every single integral and generic integrals on up to 2 orbitals; every active space of up to 3 (4) orbitals, in memory and from files; every electron count of reduced Hamiltonians on up to 4 (5) modes"),
]
