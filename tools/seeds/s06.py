ID = "s06"; PROPERTY = "P19"
NEEDS = "a job that died in the middle of a level's samples"
BREAKS = "samples of a dead job are reported as failed only on levels without any record, the others are never returned"
EDITS = [("mlmc/tool/pbs_job.py", """        for level_id, sample_id, _ in level_id_sample_id_seed:
            successfull_ids""", """        recorded_levels = set(successful) | set(failed)
        for level_id, sample_id, _ in level_id_sample_id_seed:
            if level_id in recorded_levels:
                continue
            successfull_ids""")]
DEMO = """
import numpy as np
from mlmc.tool.pbs_job import PbsJob
j = PbsJob(os.path.abspath("."), os.path.abspath("."), "0000", "x{}", False)
j.save_scheduled([(0, "L00_S0000000", 1), (0, "L00_S0000001", 2), (1, "L01_S0000000", 3)])
j._append_file([(0, "L00_S0000000", (np.array([1.0]), np.array([2.0])))], os.path.join(os.getcwd(), PbsJob.SUCCESSFUL_RESULTS.format("0000")))
ok, bad, t = PbsJob.read_results("0000", os.getcwd())
assert [i for i, _ in ok[0]] == ["L00_S0000000"]
assert {l: [i for i, _ in v] for l, v in bad.items()} == {0: ["L00_S0000001"], 1: ["L01_S0000000"]}, bad
"""
