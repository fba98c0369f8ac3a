"""Writes /verif/MANIFEST.json."""
import json, pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
TECH = dict(
    C01="property-based testing: random states/models/spaces against derivatives of reference energies (forward AD, SVD)",
    C02="property-based testing: metamorphic (difference quotients of the stress) and reference tangent",
    C03="property-based testing: metamorphic relations under superposed rotations",
    C04="property-based testing: metamorphic relations and invariants of the volumetric split",
    C05="property-based testing: differential between configurations (Piola transformations)",
    C06="property-based testing: differential between equivalent formulations",
    C07="property-based testing: differential batch versus single points over shapes and memory layouts",
    C08="stateful property-based testing: random call sequences on shared objects against fresh objects",
    C09="stateful property-based testing: recording models and a history-dependent reference model",
    C10="property-based testing: algebraic reference models for reduced-storage operations",
    C11="property-based testing: full-tensor reference algebra",
    C12="property-based testing: invariants of the spectral decomposition",
    C13="property-based testing: forward AD of the documented energies",
    C14="grammar-based generation of energy functions, differential against forward AD",
    C15="property-based testing: closed forms and metamorphic normalisation relations",
    C16="property-based testing: metamorphic scaling/superposition and closed-form initial moduli",
    C17="property-based testing: closed forms and pressure-invariance relation",
    C18="property-based testing: forward AD of the energy along the load path",
    C19="property-based testing: element-wise reference conversion",
    C20="stateful property-based testing: exact least-squares solution, twin fits, histories of fits",
    C21="property-based testing: metamorphic (changed unselected data, sub-experiments, permutations)",
    C22="stateful property-based testing: inspection of drawn artists against reference data",
    C23="property-based testing: virtual work and stiffness of generated bodies against the reference energy",
    C25="property-based testing: generated anisotropic energies, forward AD in the components of the deformation gradient",
    C24="property-based testing: differential between representations, recording models",
)
NOTE = ("Seeded hypothesis search over generated cases with an explicit oracle; failures are "
        "shrunk and stored as replay files. No exhaustiveness is claimed: what was covered "
        "(cases, distinct non-trivial cases, labels, largest error/tolerance) is in the evidence file.")
checks = [
    dict(property=k, quick_cmd=f"bash run.sh {k}", thorough_cmd=f"bash run.sh {k} --tier thorough",
         evidence_file=f"evidence/{k}.json", technique=v, level="exploration", level_note=NOTE)
    for k, v in TECH.items()
]
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=[])
(ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
