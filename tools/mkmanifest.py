"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ specification checked with TLC; TLC-generated behaviours replayed into the code; recorded observations validated against the specification with TLC"
N = {
 "C01": "Model checked over a grid of materials and angles; seeded random materials of the real code compared to 1e-9 with the specification's exact-arithmetic stiffness.",
 "C02": "Every argument of every constructor in every value class (exhaustive single faults), plus random multi-fault calls. e1 = 0 is excluded (its minor Poisson ratio is undefined).",
 "C03": "Every laminate of up to 3-6 plies over a palette model checked; random laminates of up to 30-80 plies of the real code compared to 1e-9.",
 "C04": "As C03, plus random lamination-parameter definitions and laminates rebuilt from their own parameters.",
 "C05": "Random laminates under random load vectors; every row of both tables checked against exact lamination theory, tolerance 1e-8 of the natural scale.",
 "C06": "As C05, the two axis systems of every row.",
 "C07": "As C05, the margin table against the stress table of the same object.",
 "C08": "The rule model checked for every combination of restraints on an edge; observed through the reported function indices and stiffness sizes for exhaustive single edges and random plates.",
 "C09": "Polynomial integrals recomputed exactly in TLA+; whole matrices of random plates compared to 1e-7 of the matrix scale.",
 "C10": "As C09 for the (u, v, w) matrices.",
 "C11": "Sturm/Sylvester inertia counts in exact arithmetic certify that no factor is missing; residuals certify the modes.",
 "C12": "All short histories over a family of objects one attribute apart, and random long ones.",
 "C13": "Field recomputed in exact arithmetic at the plotted grid points; the drawing call is intercepted.",
 "C14": "Exhaustive small texts in every style plus random long ones; the specification's own scanner is model checked against the denotation.",
 "C15": "Cards read back by a free-field reader specified as an automaton.",
 "C16": "A cutting-plane search specified in TLA+ either proves that no point of the whole region reaches 1.02 times the reported factor or exhibits one that does.",
 "C17": "As C16, at 0.98 times the reported thickness.",
 "C18": "Transformation laws as transitions between plates; every step replayed in the real code.",
 "C19": "Families of objects one change apart; full equality matrices compared.",
 "C20": "Scaled load vectors and warning records compared with the specification.",
 "C22": "All rewritings of calls model checked; random bindings written in random ways, each run against its written-out form.",
 "C23": "Texts written in every style model checked against a reader automaton; the printed texts of random objects read back number by number. Arrays are drawn with at most four significant decimals, as NumPy prints them.",
 "C21": "The drawing calls are intercepted and every grid point is compared.",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
claimed = [p["id"] for p in props if os.path.exists(os.path.join(V, "harness", "p" + p["id"][1:] + ".py"))]
py = "/opt/venv/bin/python harness/check.py "
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python harness/selftest.py",
     "checks": [{"property": i, "quick_cmd": py + i, "thorough_cmd": py + i + " --thorough", "technique": T,
                 "level": "model_checking",
                 "level_note": N[i] + " Bounded and seeded, not a proof for all inputs. Trusts TLC, the Java big-integer override (self-tested against plain TLA+) and the driver's exact encoding of doubles."}
                for i in claimed],
     "not_applicable": [{"property": p["id"], "reason": "Check under construction."} for p in props if p["id"] not in claimed]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(claimed), "claimed")
