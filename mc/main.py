import importlib
import sys

from . import engine


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "quick")
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    from . import lib

    chk = engine.Check(prop, tier)
    if lib.IMPORT_ERROR is not None:
        def run(sc, r):
            r.states += 1
            r.calls += 1
            r.fail("the package cannot be imported: " + lib.IMPORT_ERROR)

        chk.group("import", lambda c: {"import": "fast_bss_eval"}, run, what="import of the package")
    else:
        importlib.import_module(f"mc.props.{prop.lower()}").build(chk)
    sys.exit(engine.run_check(chk, replay))


if __name__ == "__main__":
    main()
