ID = "s21"; PROPERTY = "P17"
NEEDS = "a sample that fails, is renewed and fails again, leaving fewer files than before"
BREAKS = "files of the previous failed run stay in the kept directory of the sample"
EDITS = [("mlmc/sampling_pool.py", "            if os.path.exists(os.path.join(destination_dir, sample_id)):\n                shutil.rmtree(os.path.join(destination_dir, sample_id), ignore_errors=True)\n            shutil.copytree(sample_dir, os.path.join(destination_dir, sample_id))\n",
          "            shutil.copytree(sample_dir, os.path.join(destination_dir, sample_id), dirs_exist_ok=True)\n")]
DEMO = """
import numpy as np
from mlmc.sampling_pool import OneProcessPool
from mlmc.level_simulation import LevelSimulation
from mlmc.quantity.quantity_spec import QuantitySpec
sim = LevelSimulation(config_dict={}, task_size=0, need_sample_workspace=True)
sim._level_id = 0
run = [0]
def calc(config, seed):
    run[0] += 1
    open("run%d.txt" % run[0], "w").close()
    raise ValueError("bad")
sim._calculate = calc
sim._result_format = lambda: [QuantitySpec(name="q", unit="m", shape=(1, 1), times=[1.0], locations=["a"])]
pool = OneProcessPool(work_dir=SCRATCH)
for want in (["run1.txt"], ["run2.txt"]):
    pool.schedule_sample("L00_S0000000", sim)
    os.chdir(SCRATCH)
    got = sorted(os.listdir(os.path.join(SCRATCH, "output", "failed", "L00_S0000000")))
    assert got == want, (got, want)
"""
