"""Which harnesses decide which property."""

import importlib

PROPERTIES = {
    "P01": [("berh", x) for x in ("roundtrip", "arbitrary", "long_length",
                                   "long_tag")],
    "P02": [("smih", x) for x in (
        "int_value", "int_wire", "int_kinds", "string_value", "ip_value",
        "ip_wire", "null_value")],
    "P03": [("oidh", x) for x in ("construct", "roundtrip", "arbitrary")],
    "P04": [("oidh", x) for x in ("index_roundtrip", "index_arbitrary")],
    "P05": [("oidh", x) for x in ("algebra", "extend", "hashing", "parse",
                                   "dots")],
    "P06": [("pduh", x) for x in ("varbind", "pdu", "pdu_wire",
                                  "error_response")],
    "P07": [("pduh", x) for x in ("message", "message_wire")],
    "P08": [("utilh", x) for x in ("view", "access", "first", "slices")],
    "P09": [("utilh", x) for x in ("generator_full", "generator_steps",
                                   "levels", "weakrefs")],
    "P10": [("v3h", x) for x in ("flags", "set_flags", "header",
                                 "header_range", "scoped", "message",
                                 "message_wire")],
    "P11": [("v3h", x) for x in ("usm_values", "usm_range", "usm_wire")],
    "P12": [("mph", "community"), ("mph", "id_sequence")],
    "P13": [("mph", "v3_outgoing"), ("mph", "v3_matching"),
            ("mph", "id_sequence")],
    "P14": [("usmh", "timekeeper"), ("usmh", "replay")],
    "P15": [("usmh", "incoming")],
    "P16": [("usmh", "outgoing")],
    "P17": [("authh", x) for x in ("password", "localized", "both_steps", "mixed",
                                   "code", "codes")],
    "P19": [("userh", x) for x in ("credentials", "equality", "registry", "moved",
                                   "usm")],
    "P18": [("privh", x) for x in ("keys", "encrypt", "decrypt", "salts", "series")],
    "P20": [("mgrh", "result")],
    "P21": [("mgrh", x) for x in ("schedule", "many", "drift", "race")],
    "P22": [("mgr3h", "attacks")],
    "P23": [("mgr3h", "discovery"), ("mgr3h", "trusted")],
    "P24": [("mgr3h", x) for x in ("deadlines", "race", "drift", "patience",
                                  "many")],
    "P26": [("engh", "whole")],
    "P27": [("engh", x) for x in ("versions", "addresses", "shared",
                                  "closing", "v3defaults")],
    "P28": [("neth", "normalize")],
    "P29": [("neth", x) for x in ("listen", "threads", "hear", "send")],
    "P25": [("mgr3h", x) for x in ("release", "interrupt", "foreign",
                                  "patience")],
    "P31": [("res3h", "result")],
    "P32": [("printh", x) for x in ("value", "tag", "window", "pdu",
                                    "community", "message", "parameters",
                                    "level", "error")],
    "P33": [("eqh", x) for x in ("values", "varbinds", "pdus",
                                 "communities", "messages", "tags", "listing")],
    "P34": [("dmgh", "community"), ("dmgh", "secured")],
    "P30": [("conch", x) for x in ("salts", "shared", "signing", "codec",
                                   "ids", "usm", "managers", "ending")],
}

CONC = set(PROPERTIES["P30"])
# where threads may be preempted: True (wherever they share objects) or "all"
POINTS = dict.fromkeys(CONC, True)
POINTS["conch", "codec"] = "all"

OPENSSL = {("privh", x) for x in ("keys", "encrypt", "decrypt", "salts", "series")} | CONC


def spec(module, name):
    h = importlib.import_module("props." + module).HARNESSES[name]
    return {"quick": h.quick, "thorough": h.thorough, "reach": list(h.reach),
            "functions": list(h.functions), "bound": h.bound}
