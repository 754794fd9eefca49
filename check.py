#!/usr/bin/env python3
"""check.py <property>: decide one property on /repo's working tree."""
import importlib, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]
import vf

WHERE = {p: ("transport", p.lower()) for p in ("C01", "C02", "C03", "C04", "C05", "C13", "C35")}
WHERE |= {p: ("schedule", p.lower()) for p in ("C07", "C08", "C09", "C12")}
WHERE |= {p: ("relations", p.lower()) for p in ("C06", "C10", "C11", "C14", "C28")}
WHERE |= {p: ("preprocessing", p.lower()) for p in ("C15", "C16", "C17", "C18", "C27")}
WHERE |= {p: ("settings", p.lower()) for p in ("C19", "C20")}
WHERE |= {p: ("reports", p.lower()) for p in ("C24", "C25", "C26")}
WHERE |= {p: ("commands", p.lower()) for p in ("C21", "C22", "C23")}
WHERE |= {p: ("figures", p.lower()) for p in ("C29",)}
WHERE |= {p: ("designer", p.lower()) for p in ("C30",)}
WHERE |= {p: ("remote", p.lower()) for p in ("C31",)}
WHERE |= {p: ("worlds", p.lower()) for p in ("C32", "C33", "C36")}
WHERE |= {p: ("inputs", p.lower()) for p in ("C39", "C40")}
WHERE |= {p: ("files", p.lower()) for p in ("C37",)}
WHERE |= {p: ("workflow", p.lower()) for p in ("C38",)}
WHERE |= {p: ("fetching", p.lower()) for p in ("C34",)}


def run(chk):
    mod, fn = WHERE[chk.prop]
    vf.use_repo()
    getattr(importlib.import_module(mod), fn)(chk)


if __name__ == "__main__":
    vf.main(sys.argv[1], run)
