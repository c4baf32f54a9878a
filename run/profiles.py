"""What each property is checked with: scenario generators, counts, decided categories and models."""
from lib import *
from gen import G, tagv, MISSING
import styles, pointer, binding, motion, whole, fuzz, models, format

PROPS = {}
def prop(pid, cats, count, profile, models=(), props=None):
    """props: only these properties of styles matter"""
    PROPS[pid] = {"cats": cats, "count": count, "profile": profile, "models": list(models), "props": props}

TREE = ["tree", "text", "attr", "twin"]
BIND = models.model("MCBind", twin="fresh")
ROWS = models.model("MCTree", twin="fresh")
prop("C01", TREE, 2000, binding.values, [BIND])
prop("C02", TREE, 2000, binding.conditions, [BIND, ROWS])
prop("C03", TREE, 2000, binding.repeats, [BIND, ROWS])
prop("C04", TREE + ["msgs"], 2000, binding.scopes, [models.model("MCScope", twin="fresh")])
prop("C05", TREE + ["msgs"], 2000, binding.pipes, [models.model("MCPipes", twin="fresh")])
EVERYTHING = TREE + ["style", "msgs", "cap", "shape", "id", "geo", "comp", "idle"]
prop("C06", EVERYTHING, 2000, whole.idle, [
    models.model("MCTree", limit={"quick": 8}, rest=True), models.model("MCSelect", limit={"quick": 3}, rest=True),
    models.model("MCAnim", limit={"quick": 3}, rest=True, tol=20), models.model("MCTrans", limit={"quick": 1}, rest=True, tol=20),
    models.model("MCCascade", limit={"quick": 3}, rest=True), models.graph("MCPointer", "MCPointer", limit={"quick": 400}, rest=True)])
POINTER = models.graph("MCPointer", "MCPointer")
BATCHES = models.graph("MCPointer", "MCBatches", length=8)
prop("C07", ["msgs", "style"], 1200, pointer.hover, [POINTER], props={"opacity"})
prop("C08", ["msgs", "style"], 1200, pointer.press, [POINTER], props={"font-weight"})
prop("C09", ["msgs", "style"], 1200, pointer.focus, [POINTER], props={"text-align"})
prop("C10", ["msgs"], 1200, pointer.drag, [POINTER])
prop("C11", ["msgs"], 1200, pointer.messages, [POINTER, models.model("MCMsgs")])
prop("C12", ["msgs", "cap", "shape"], 1200, pointer.batches, [BATCHES])
prop("C13", ["cap", "shape"], 1200, pointer.output, [POINTER])

prop("C14", ["style"], 1200, styles.cascade, [models.model("MCValues", tol=4), models.model("MCCascade")])
SELECT = models.model("MCSelect", tol=1)
prop("C15", ["style"], 1200, styles.selectors, [SELECT])
prop("C16", ["style"], 1000, styles.dynamic, [SELECT])
prop("C17", ["style"], 1200, styles.inheritance, [models.model("MCInherit", tol=2)])
prop("C18", ["style"], 1600, styles.shorthands, [models.model("MCShort", tol=2)])
prop("C19", ["style"], 1200, styles.values, [models.model("MCValues", tol=4)])
prop("C20", ["style"], 1200, motion.animations, [models.model("MCAnim", tol=20)])
prop("C21", ["style"], 1200, motion.transitions, [models.model("MCTrans", tol=20)])
prop("C22", ["geo", "comp", "twin", "tree"], 1400, whole.geometry, [models.model("MCLayout", twin="fresh", want="sl", tol=2), models.model("MCWrap", twin="fresh", want="sl", tol=2)])
prop("C23", ["id"], 1600, whole.identifiers, [models.model("MCIds")])
prop("C24", EVERYTHING, 2800, fuzz.total, [models.model("MCText")])
prop("C25", EVERYTHING, 1000, whole.again, [models.model("MCCopies", tol=20, twin="again")])
prop("C26", EVERYTHING, 1600, format.formats, [models.model("MCSyntax", tol=20)])
