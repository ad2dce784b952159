"""Developer aid: python3-vt tools/prof.py C11 job-name [seconds]  -- profile one job in this process"""
import cProfile, pstats, sys, time, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sx import run, harness
mod, _ = run.load_check(sys.argv[1])
spec = [j for j in mod.jobs('quick') + mod.jobs('thorough') if j['name'] == sys.argv[2]][0]
pr = cProfile.Profile()
pr.enable()
try:
    job = harness.run_job(mod, spec, time.time() + float(sys.argv[3] if len(sys.argv) > 3 else 30), 4, 1)
finally:
    pr.disable()
print({k: v for k, v in job.items() if k in ('paths', 'queries', 'solver_s', 'stopped', 'wall_s', 'inconclusive', 'realisations')})
pstats.Stats(pr).sort_stats('cumtime').print_stats(45)
