#!/usr/bin/env python3
"""DESIGN.md from DESIGN.tmpl.md, properties.jsonl, the checks' INFO blocks and seeded/ (run with /opt/venv/bin/python)"""
import ast, glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
import importlib
HOW = {
 "C01": "symbolic points; the five derivative arrays against symbolic differentiation of the executed `value`",
 "C02": "executed `value` against an independent product of one-dimensional polynomials; zero on each boundary side with one free coordinate",
 "C03": "executed rule; sum w p(x,y) against the exact integral with every coefficient free; signs, ranges and pairing of the arrays",
 "C04": "maps executed on free vertices and points; vertex images, (bi)linearity, reported Jacobian against the determinant of the differentiated map",
 "C05": "transformed gradients pulled back through the differentiated map equal the free reference gradients",
 "C06": "transformed Hessians pulled back through the constant derivative equal the free reference Hessians",
 "C07": "FE cells built on free vertices; weights positive, sum = shoelace area, points = mapped reference points, inside every edge half-plane",
 "C08": "space matrices against basis value / chain-rule gradient x weight x that cell's Jacobian, computed independently; other spaces built in between",
 "C09": "load entries against the quadrature sum with an uninterpreted forcing function (and a free cubic), per component",
 "C10": "generated cells against the grid cells of the free rectangle, matched up to rotation; mesh connectivity reproduces them",
 "C11": "number of points symbolic; samples against side line, segment, strata, for every lhs draw",
 "C12": "in-memory mesh file with free vertices, every starting vertex and direction; returned cells against a counter-clockwise rotation of the file cell",
 "C13": "same files with tagged edges; key set, membership of samples in the tag's edges, uniform positions, lhs strata, no duplicates",
 "C14": "uninterpreted boundary functions per tag; order, pairing, component, trainer tensors",
 "C15": "data-handler tensors (TensorFlow ops on symbols) against the space's accessors rounded once",
 "C16": "loss graphs interpreted on free tensors against the weak form written as sums",
 "C17": "inverse losses likewise, called with the keyword arguments the inverse models use; free learned coefficients",
 "C18": "the real train_step graph against a forward-mode reference of network, derivatives and losses",
 "C19": "gradients given to apply_gradients against symbolic derivatives of the loss the step reports",
 "C20": "as C18/C19 for the constrained model with four constraint functions",
 "C21": "as C18/C19 plus sensor loss and trainable coefficients",
 "C22": "as C18/C19 plus sensor loss and coefficient output",
 "C23": "the optimizer's update graph from an arbitrary optimizer state against Adam with the configured rate",
 "C24": "every cast in the traced graphs is a rounding function symbol; values that pass through a lower precision differ from the reference",
 "C25": "metrics executed on free arrays against their definitions",
 "C26": "test points of free rectangles / in-memory meshes against the documented grid, order and tensor",
 "C27": "exported text against the base file's lines; numbers are tokens that name the symbol and its format",
 "C28": "sensor points with every random draw free; box membership, pairing with an uninterpreted solution, file rows",
 "C29": "cell index an unbounded integer; each accessor on valid and invalid indices; results overwritten with a free value and read again",
 "C30": "orders unbounded integers, names arbitrary strings (string theory reduced to equality); accept/reject decision on each path",
 "C31": "parameter dictionaries of free values against the tensors handed out",
 "C32": "whole chain mesh cell -> matrices -> tensors -> loss executed with free vertices, solution and coefficients; the loss is zero; a quadratic solution checks the gradients",
 "C33": "objective and tuner executed with free suggestions and recording stand-ins for the library classes; wiring of every suggestion, returned score",
 "C37": "plotting calls recorded by a stand-in for matplotlib while `generate_plot`, `set_finite_elements` and `plot_adaptive_mesh` run on free vertices, residuals and boundary points; every drawn segment, marker, colour and printed total against the mesh",
 "C38": "recorded plotting calls of the curve helpers on free histories; every sample, label, scale and file name",
 "C39": "the graph traced from the model's call interpreted on a batch of free points; every row against the reference network (and constraint) at that point",
 "C40": "a second model built from get_config (or from the same objects); the traced training step of either interpreted on free weights and data against the reference of C18-C22; no variable, optimizer or caller dictionary shared",
}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
out = ["| id | decided by | bounds (quick; thorough enlarges them) | assumptions |", "|---|---|---|---|"]
c = lambda s: s.replace("|", "\\|")
for p in props:
    f = V + "/checks/%s.py" % p["id"].lower()
    if not os.path.exists(f):
        continue
    i = importlib.import_module("checks." + p["id"].lower()).INFO
    out.append("| %s %s | %s | %s | %s |" % (p["id"], c(p["title"]), c(HOW[p["id"]]), c(i["bounds"]), c("; ".join(i["assumptions"]))))
res = json.load(open(V + "/tools/plant_results.json")) if os.path.exists(V + "/tools/plant_results.json") else {}
seed = ["| bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); k = os.path.basename(os.path.dirname(d))
    seed.append("| %s | %s | %s | %s | %s |" % (k, m["property"], c(m["what_it_breaks"]), c(m["needs"]), ", ".join(res.get(k, [])) or "-"))
kf = json.load(open(V + "/known_findings.json"))
t = open(V + "/DESIGN.tmpl.md").read()
t = t.replace("\nPROPS\n", "\n" + "\n".join(out) + "\n").replace("\nSEEDED\n", "\n" + "\n".join(seed) + "\n")
t = t.replace("\nDEFECTS\n", "\n" + "\n".join("* " + x for x in kf["fixed"]) + "\n")
open(V + "/DESIGN.md", "w").write(t)
print(len(t))
