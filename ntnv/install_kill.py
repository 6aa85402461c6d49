"""install_kill.py SCRIPT N: runs SCRIPT and ends the process at its N-th executed line (N = 0: never; prints the number of lines)."""
import os, runpy, sys
script, n = os.path.realpath(sys.argv[1]), int(sys.argv[2])
count = 0


def trace(frame, event, arg):
    global count
    if os.path.realpath(frame.f_code.co_filename) != script:
        return None
    if event == "line":
        count += 1
        if count == n:
            os._exit(9)
    return trace


sys.argv = [script]
sys.settrace(trace)
try:
    runpy.run_path(script, run_name="__main__")
finally:
    sys.settrace(None)
    print("LINES %d" % count)
