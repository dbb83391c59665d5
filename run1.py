import sys, os
sys.path[:0] = ['/verif/ipv', '/verif/contracts']
import importlib, ir, verify, models
m = importlib.import_module(sys.argv[1])
mod = ir.load_sources(m.SRCS)
js = [j for j in m.jobs() if len(sys.argv) < 3 or any(a in j.name for a in sys.argv[2:])]
verify.run_jobs(mod, getattr(m, 'REP', {}), getattr(m, 'MODELS', models.BASE), js, procs=int(os.environ.get('P', '8')), verbose=True)
