from seeds import SEEDS
EDITS=[(s["id"],s["prop"],s["edits"]) for s in SEEDS]
