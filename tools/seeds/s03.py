ID = "s03"; PROPERTY = "P18"
NEEDS = "a failing qsub: the samples collected so far are dropped from the queue before the submission is confirmed"
BREAKS = "samples of a failed submission are lost"
EDITS = [("mlmc/sampling_pool_pbs.py", """            self.write_script(script_content, job_file)

""", """            self.write_script(script_content, job_file)
            self._n_samples_in_job = 0
            self._scheduled = []

"""), ("mlmc/sampling_pool_pbs.py", """                self._current_job_weight = 0
                self._n_samples_in_job = 0
                self._scheduled = []
            except""", """                self._current_job_weight = 0
            except""")]
DEMO = """
import numpy as np
from mlmc.sampling_pool_pbs import SamplingPoolPBS
from mlmc.level_simulation import LevelSimulation
os.mkdir("bin")
with open("bin/qsub", "w") as f:
    f.write('#!/bin/sh\\nif [ ! -e %s/first ]; then touch %s/first; exit 1; fi\\ncat "$(dirname "$1")/0000_scheduled.yaml" >> %s/sub\\necho 7.x\\n' % ((SCRATCH,) * 3))
with open("bin/qstat", "w") as f:
    f.write('#!/bin/sh\\necho "7.x a b 0 R q"\\n')
for n in ("qsub", "qstat"):
    os.chmod("bin/" + n, 0o755)
os.environ["PATH"] = os.path.abspath("bin") + ":" + os.environ["PATH"]


def calc(c, s):
    return np.zeros(1), np.zeros(1)


p = SamplingPoolPBS(work_dir=os.path.abspath("w"))
p.pbs_common_setting(n_nodes=1, n_cores=1, mem="1Gb", queue="q", pbs_name="M", walltime="1:00", optional_pbs_requests=[], env_setting=[])
p.schedule_sample("L00_S0000000", LevelSimulation(config_dict={}, calculate=calc, level_id=0, result_format=list))
for _ in range(3):
    p.get_finished()
assert "L00_S0000000" in open(os.path.join(SCRATCH, "sub")).read()
"""
