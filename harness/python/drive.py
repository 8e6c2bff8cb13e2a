"""drive.py MODULE ENTRY SECONDS OUT: one entry under crosshair; drive.py MODULE --replay ENTRY 'CALL': one call with these arguments under plain Python"""
import json, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    import importlib
    mod = sys.argv.pop(1)
    if sys.argv[1] == '--replay':
        os.environ['VERIF_PLAIN'] = '1'
        helper = importlib.import_module(mod)
        nan, inf = float('nan'), float('inf')
        try: eval(sys.argv[3], dict(vars(helper), float=float, nan=nan, inf=inf))
        except Exception as x:
            import traceback
            traceback.print_exc()
            print('FAIL', type(x).__name__, x)
            return 3
        return 0
    entry, sec, out = sys.argv[1], float(sys.argv[2]), sys.argv[3]
    from collections import Counter
    helper = importlib.import_module(mod)
    from crosshair.core_and_libs import analyze_function, run_checkables
    from crosshair.options import AnalysisOptionSet, AnalysisKind
    from crosshair.statespace import MessageType
    st = Counter()
    t = time.time()
    opts = AnalysisOptionSet(per_condition_timeout=sec, per_path_timeout=sec, report_all=True, stats=st, analysis_kind=[AnalysisKind.PEP316])
    ms = [dict(state=m.state.name, message=m.message, line=m.line, trace=m.traceback[-3000:]) for m in run_checkables(analyze_function(getattr(helper, entry), opts))]
    json.dump(dict(entry=entry, messages=ms, stats={str(k): v for k, v in st.items()}, wall=time.time() - t), open(out, 'w'))
    return 0


if __name__ == '__main__': sys.exit(main())
