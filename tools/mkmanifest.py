"""Writes MANIFEST.json and the 'fixed' entries of known_findings.json."""
import json
import os
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEQ = "exhaustive enumeration of operation histories on the real code"
LAT = "exhaustive enumeration of a bounded input/configuration lattice on the real code"
T = {
    "C01": (SEQ + ", lock-step with a reference model",
            "Every history of basis changes and other operations up to depth 2 (full alphabet) / 3 (core) in quick, 3/4 thorough; static transforms on every matrix unit."),
    "C02": (LAT + " (all matrix units, spin-basis lattice, entry points)",
            "All helper sizes up to the bound on all matrix units, 2496 spin bases, every entry point."),
    "C03": (SEQ + "; complete Fock space as state space",
            "Every conversion/basis-change history up to the depth bound; S^2 spectrum over the whole many-particle space of up to 6 modes."),
    "C04": (SEQ + ", lock-step with a reference model",
            "All request/conversion/change/copy/re-wrap histories to depth 4 (5 thorough)."),
    "C05": (LAT + " (all matrix units, all occupations, all buffers) against the full Fock space",
            "All occupations and matrix-unit inputs to l=3 (4), Fock space of 6 modes, size sweep to l=14 (20)."),
    "C06": ("exhaustive enumeration of interleavings of operations on source and copy",
            "All interleavings up to depth 1 for all kinds, 2 (3) for the core kinds; memory sharing of every array pair."),
    "C07": (SEQ + " with a size model; all mis-shaped arrays of a lattice",
            "All histories to the depth bound, all particle numbers and sizes up to the bound."),
    "C08": ("exhaustive enumeration of fault positions in operation histories",
            "Every refusable call at every position of all histories to the depth bound, compared with a control object."),
    "C09": (SEQ + ", evaluated on a time lattice",
            "All install/evaluate/change/copy/convert histories to depth 2 (full) / 3 (core), 4 thorough."),
    "C10": (LAT + " (all matrix-unit density matrices) and basis-change histories",
            "All unit density matrices to l=4 on 1-3-dimensional grids, histories to depth 3 (4)."),
    "C11": ("exhaustive enumeration of orbital numbers and quantum-number pairs",
            "Every orbital number below 2,000,000 (20,000,000), every shell edge far beyond, boxes of (n, m)."),
    "C12": ("exhaustive enumeration of orbital quadruples against exact rational arithmetic, of thread counts and chunk sizes, and of one-preemption schedules of the parallel loop on its Python body",
            "All quadruples to l=21 and boxes of quantum numbers, all thread counts 1..8 and chunk sizes."),
    "C13": ("enumeration of crash points, torn writes, I/O errors, call histories and two-process schedules on the real code",
            "Every executed line as crash point, every byte offset as torn write, all two-process interleavings with at most 1 (2) preemptions."),
    "C14": (LAT + " against closed formulas", "All sizes to the bound over frequencies, masses, barriers, axes and grids."),
    "C15": (LAT + " against closed formulas", "All sizes to the bound over field strengths and signs, level crossings included."),
    "C16": (LAT + " against independent quadrature", "All potentials over sizes, grids, screening, strength and beta."),
    "C17": (SEQ + ", two storage formats in lock step",
            "All histories of format switches and other operations to the depth bound on paired sets and systems."),
    "C18": (LAT + " against extended-precision formulas", "All parameter tuples x positions x containers of the lattice."),
    "C19": (LAT + " (molecules x basis sets x options)", "All catalogue entries and option combinations, element by element."),
    "C20": (SEQ + " (calls, files, directories), lock-step with a reference model",
            "All call sequences to depth 3 (full) / 4 (core), 4/5 thorough, in scratch directories."),
    "C21": ("exhaustive enumeration of the random draws as nondeterministic choices",
            "All assignments of 3 values to the draws of the smallest sets, all single and paired draws for larger ones."),
    "C22": ("exhaustive enumeration of query insertions into operation histories; byte comparison of caller arrays",
            "Every query at every position of histories to depth 2; caller-array histories to depth 2 (full) / 3 (core)."),
    "C23": ("exhaustive enumeration of cast/module-change insertions into operation histories",
            "Every cast and module change at every position of histories to depth 2, every constructor x module."),
}
TRUST = (" Assumes nothing about the code; trusts numpy/scipy/pyscf primitives "
         "and the reference model in mc/; values outside the enumerated "
         "alphabet and histories beyond the depth are not covered.")

FIXED = [
    ("C01", "0e2d196", "spin_x/y/z/2 stayed in the old basis after a basis change (also C03)"),
    ("C03", "dce01c2", "one-body spin-squared elements wrong in a non-orthonormal basis (also C01)"),
    ("C06", "04c6271", "copying a basis or system whose potential/operator refers to the array module raised TypeError and left the source without its module (also C08)"),
    ("C09", "cbdca04", "construct_general_orbital_system raised TypeError for every spatial system with a time-evolution operator (also C06)"),
    ("C18", "25c2f24", "derivative of the quartic term of SymmetricDWPotential"),
    ("C10", "95c1aa8", "particle density of a complex density matrix over real functions raised"),
    ("C13", "500f534", "a crash or a concurrent reader during the cache write left or saw a truncated file; all later calls failed"),
    ("C12", "de47fc5", "mass missing from the scaling of 2D Coulomb elements and from the double-well barrier (also C14)"),
    ("C17", "3b2cc56", "ODSincDVR.set_u_repr did not store the converted elements"),
    ("C17", "2e40a53", "no general-orbital system could be constructed from ODSincDVR (unexpected keyword a)"),
    ("C04", "9d729d0", "condensed sinc-DVR elements flagged as anti-symmetrised without being so (also C17)"),
    ("C08", "0ab0849", "a refused conversion to general orbitals left the basis half converted"),
    ("C08", "e25d8d6", "a refused basis change left new sizes and old elements"),
    ("C02", "eba5b4a", "a repeated conversion to general orbitals returned None"),
    ("C22", "02258c0", "reading implied bra functions froze them"),
    ("C15", "131ca57", "repeated set-up of TwoDimHarmonicOscB raised the frequency"),
    ("C05", "14117d8", "Fock matrix of real one-body and complex two-body elements raised"),
    ("C08", "a4bb297", "refused GeneralOrbitalSystem (too many particles) left the basis converted"),
    ("C09", "a67b8e7", "default laser polarisation stuck to the dimensionality of the first system"),
    ("C06", "9dd34ca", "copying a Gaussian potential with another array module than the basis raised TypeError"),
    ("C08", "58fc175", "refused basis change of an incomplete basis left it partly transformed"),
    ("C09", "39baa8e", "operator shared by two systems acted on the system it was set in last"),
    ("C09", "f91e2fe", "custom one-body operator kept the spatial size in the general-orbital system"),
    ("C13", "1f0586a", "write error of the last buffer went unnoticed and left a truncated cache file"),
    ("C07", "459e912", "a negative number of particles was accepted: n = -1, m = l + 1, wrong slices"),
    ("C11", "b7f839b", "quantum numbers of orbitals beyond 2**53 were wrong (float arithmetic)"),
    ("C22", "37f4b76", "make_dipole_moment_hermitian modified its argument"),
]


def main():
    ids = [json.loads(x)["id"] for x in open(os.path.join(ROOT, "properties.jsonl"))]
    m = dict(version=1, setup_cmd="true", checks=[
        dict(property=i, quick_cmd=f"bash check.sh {i} quick",
             thorough_cmd=f"bash check.sh {i} thorough",
             technique="model checking: " + T[i][0], level="model_checking",
             level_note=T[i][1] + TRUST)
        for i in ids], not_applicable=[],
        notes="check.sh runs mc/checks/<id>.py against /repo's working tree; no hooks in /repo.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    p = os.path.join(ROOT, "known_findings.json")
    d = json.load(open(p))
    d["findings"] = [x for x in d["findings"] if x["status"] == "known"] + [
        dict(property=i, status="fixed", commit=c, what=w,
             line=f"fixed: property={i} {c} {w}") for i, c, w in FIXED]
    for i, c, w in FIXED:
        subprocess.run(["git", "-C", "/repo", "cat-file", "-e", c], check=True)
    with open(p, "w") as f:
        json.dump(d, f, indent=1)
        f.write("\n")


main()
