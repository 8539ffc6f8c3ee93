import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

if __name__ == "__main__":
    from lib import runner, sut

    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        sut.load()
        sys.exit(runner.replay(sys.argv[2]))
    try:
        runner.main(sys.argv[1])
    except Exception:
        import traceback

        traceback.print_exc()
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(2)
