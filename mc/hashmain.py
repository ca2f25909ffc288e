"""Prints the default allocations of every listed case as JSON; run by P24 as a
process of its own, because the order of sets and dicts of strings differs from
process to process (PYTHONHASHSEED)."""
import json
import sys

sys.path.insert(0, sys.argv[1])
sys.path.insert(0, sys.argv[2])


def main():
    import logging
    import warnings
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    from mc.checks import zk as checks
    print(json.dumps(checks.p24_table(sys.argv[3] == "thorough")))


if __name__ == "__main__":
    main()
