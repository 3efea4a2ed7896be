"""Which harness group decides which property, and how it is run."""

COMMON = ["The Go toolchain and standard library behave as documented."]

CHECKS = {
    "C01": ("e2e", {"orchestrion": True, "shrinktime": "60s"}),
    "C02": ("inject", {}),
    "C03": ("inject", {}),
    "C04": ("inject", {}),
    "C05": ("inject", {}),
    "C06": ("inject", {}),
    "C07": ("inject", {"race_thorough": True}),
    "C08": ("inject", {}),
    "C09": ("inject", {}),
    "C10": ("inject", {}),
    "C11": ("inject", {}),
    "C12": ("inject", {}),
    "C13": ("config", {}),
    "C14": ("buildid", {}),
    "C16": ("config", {}),
    "C15": ("config", {}),
    "C23": ("resolve", {"helper": "gotool"}),
    "C25": ("cmdline", {"orchestrion": True, "helper": "rectool"}),
    "C26": ("cmdline", {"orchestrion": True, "helper": "rectool"}),
    "C27": ("pin", {"orchestrion": True, "shrinktime": "40s"}),
    "C28": ("pin", {"orchestrion": True, "shrinktime": "40s"}),
    "C17": ("linkdeps", {}),
    "C18": ("importcfg", {}),
    "C19": ("proxy", {}),
    "C20": ("links", {"helper": "gotool"}),
    "C21": ("nbt", {"race": True}),
    "C22": ("common", {"race": True}),
    "C24": ("goflags", {}),
    "C29": ("weaver", {"orchestrion": True}),
    "C30": ("server", {"orchestrion": True, "shrinktime": "30s"}),
    "C31": ("weaver", {}),
    "C32": ("inject", {}),
    "C33": ("inject", {}),
    "C35": ("jobs", {"race": True}),
    "C34": ("cmdline", {"orchestrion": True, "helper": "rectool"}),
}

import json as _json, os as _os
NOT_APPLICABLE = {}
for _l in open(_os.path.join(_os.path.dirname(_os.path.abspath(__file__)), "properties.jsonl")):
    _i = _json.loads(_l)["id"]
    NOT_APPLICABLE.setdefault(_i, "No check has been built for it yet.")
