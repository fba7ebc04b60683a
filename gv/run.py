import sys
from . import core
from . import rules_aead, rules_ec, rules_rsa, rules_mem, rules_der, rules_sign, rules_hash, rules_tls, rules_provider, rules_api, rules_cpu, rules_asm, rules_ct, rules_tab, rules_stream

MODULES = {}
for m in (rules_aead, rules_ec, rules_rsa, rules_mem, rules_der, rules_sign, rules_hash, rules_tls, rules_provider, rules_api, rules_cpu, rules_asm, rules_ct, rules_tab, rules_stream):
    for n in dir(m):
        if len(n) == 3 and n[0] == "C" and n[1:].isdigit():
            MODULES[n] = m

TRUSTED = [
    "rustc's MIR (built with debug assertions off, MIR optimisation off) and the extractor in driver/driver.rs represent the program",
    "the models of core/alloc functions in gv/models.py",
    "functions kept opaque (listed in coverage.opaque_primitives) read only their arguments and write only through their mutable ones",
]

if __name__ == "__main__":
    pid = sys.argv[1]
    if pid not in MODULES:
        print("unknown property", pid)
        sys.exit(2)
    sys.exit(core.main(pid, MODULES, TRUSTED))
