"""Reading ITF traces written by `quint run`."""

import json
import sys
from fractions import Fraction

sys.set_int_max_str_digits(0)


def conv(x):
    if isinstance(x, dict):
        if "#bigint" in x:
            return int(x["#bigint"])
        if "#map" in x:
            return {conv_key(k): conv(v) for k, v in x["#map"]}
        if "#set" in x:
            return [conv(v) for v in x["#set"]]
        if "#tup" in x:
            return tuple(conv(v) for v in x["#tup"])
        if len(x) == 2 and "n" in x and "d" in x:
            return Fraction(conv(x["n"]), conv(x["d"]))
        if set(x) == {"tag", "value"}:
            return (x["tag"], conv(x["value"]))
        return {k: conv(v) for k, v in x.items()}
    if isinstance(x, list):
        return [conv(v) for v in x]
    return x


def conv_key(k):
    k = conv(k)
    return tuple(k) if isinstance(k, list) else k


def load(path):
    with open(path) as f:
        d = json.load(f)
    out = []
    for s in d["states"]:
        out.append(
            {
                k.split("::")[-1]: conv(v)
                for k, v in s.items()
                if k != "#meta" and not k.startswith("mbt::")
            }
        )
    return out
