#!/usr/bin/env python3
"""Source of MANIFEST.json."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = {}
MODELS = {
    "C01": "ScramModel", "C02": "ScramModel, MessageModel", "C03": "ScramModel, ServeModel, BindModel", "C04": "ReplayModel, ScramModel, Fresh",
    "C05": "RoundTripModel", "C06": "Exchange, MessageModel", "C07": "MessageModel", "C08": "Exchange, ScramModel", "C09": "Exchange",
    "C10": "Exchange", "C11": "SelectModel", "C12": "ServeModel", "C13": "RequestModel", "C14": "Exchange", "C15": "Exchange, ScramModel, MessageModel, BindModel",
    "C16": "WriterModel",
    "C17": "Base64Model, Exchange", "C18": "SecretModel", "C19": "Exchange, MessageModel", "C20": "GssModel, LayerModel", "C21": "Exchange, LayerModel", "C22": "NameModel",
    "C23": "ConfigModel", "C24": "ShareModel",
    "C25": "Exchange, ScramModel"}
checks = []
for i in ids:
    if i in NA:
        continue
    checks.append(dict(
        property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
        technique="TLA+ model checking with TLC (%s), behaviours replayed on the real code, recorded traces validated against the specification" % MODELS[i],
        level="model_checking",
        level_note="The model is explored exhaustively within its constants; every replayed execution is checked step by step against the byte-level "
                   "specification (spec/Trace.tla). Beyond the bounds and the sampled behaviours the property is not decided."))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()]),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
