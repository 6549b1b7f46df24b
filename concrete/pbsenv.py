"""A batch system stand-in: qsub and qstat scripts that only record what they are given (in the scratch directory)"""
import sys
import stat
import ruamel.yaml as yaml
from common import *
from mlmc.sampling_pool_pbs import SamplingPoolPBS
from mlmc.tool.pbs_job import PbsJob

QSUB = r'''#!/bin/sh
D="%s"
echo "$@" >> "$D/qsub_calls"
n=$(cat "$D/qsub_fail")
if [ "$n" -gt 0 ]; then
  echo $((n-1)) > "$D/qsub_fail"
  echo "qsub: refused" >&2
  exit 1
fi
i=$(cat "$D/next")
step=$(cat "$D/step")
echo $((i+step)) > "$D/next"
cp "$1" "$D/sub/$i.sh"
args=$(sed -n 's/.*mlmc\.tool\.pbs_job \([^ ]*\) \([^ ]*\).*/\2/p' "$1" | tail -1)
cp "$(dirname "$1")/${args}_scheduled.yaml" "$D/sub/$i.yaml"
echo "$args" > "$D/sub/$i.name"
echo "$(sed -n 's/.*mlmc\.tool\.pbs_job \([^ ]*\) \([^ ]*\).*/\1/p' "$1" | tail -1)" > "$D/sub/$i.out"
echo R > "$D/state/$i"
echo "$i.pbs-server.example.org"
'''
QSTAT = r'''#!/bin/sh
D="%s"
echo "$@" >> "$D/qstat_calls"
n=$(cat "$D/qstat_fail")
if [ "$n" -gt 0 ]; then
  echo $((n-1)) > "$D/qstat_fail"
  echo "qstat: no answer" >&2
  exit 1
fi
echo "Job id            Name             User              Time Use S Queue"
echo "----------------  ---------------- ----------------  -------- - -----"
for i in "$@"; do
  case "$i" in -*) continue;; esac
  s=$(cat "$D/state/$i" 2>/dev/null || echo F)
  t="00:01:2$((i %% 10))"
  [ "$s" = Q ] && t=0
  echo "$i.pbs-server      MLMC_test2F      user1             $t $s q_4h"
done
'''


def echo(config, seed):
    if int(seed) in config.get("fail", ()):
        raise ValueError("failing sample")
    if config.get("log"):
        with open(config["log"], "a") as f:
            f.write("%d %s\n" % (int(seed), config["tag"]))
    return np.array([float(int(seed)), config["tag"], 1.0]), np.array([float(int(seed)), config["tag"], 2.0])


def fmt3():
    return [QuantitySpec(name="q", unit="m", shape=(3, 1), times=[1.0], locations=["a"])]


class FakePBS:
    def __enter__(self):
        self.cwd = os.getcwd()
        self.dir = tempfile.mkdtemp(prefix="mlmcv_pbs_")
        for d in ("bin", "sub", "state", "work"):
            os.mkdir(os.path.join(self.dir, d))
        for n, v in (("qsub_fail", 0), ("qstat_fail", 0), ("next", 95), ("step", 1)):
            self.put(n, v)
        for n, t in (("qsub", QSUB), ("qstat", QSTAT)):
            p = os.path.join(self.dir, "bin", n)
            with open(p, "w") as f:
                f.write(t % self.dir)
            os.chmod(p, 0o755)
        self.path = os.environ["PATH"]
        os.environ["PATH"] = os.path.join(self.dir, "bin") + ":" + self.path
        self.work = os.path.join(self.dir, "work")
        self.log = os.path.join(self.dir, "runs")
        self.sims = {}
        self.ran = []
        return self

    def __exit__(self, *a):
        os.environ["PATH"] = self.path
        os.chdir(self.cwd)
        shutil.rmtree(self.dir, ignore_errors=True)

    def put(self, name, v):
        with open(os.path.join(self.dir, name), "w") as f:
            f.write("%s\n" % v)

    def get(self, name):
        with open(os.path.join(self.dir, name)) as f:
            return f.read().strip()

    def level_sim(self, l, task_size=0.0, fail=()):
        if l not in self.sims:
            self.sims[l] = LevelSimulation(config_dict={"tag": 100.0 + l, "log": self.log, "fail": tuple(fail)}, calculate=echo, level_id=l,
                                           result_format=fmt3, task_size=task_size)
        return self.sims[l]

    def pool(self, debug=False):
        p = SamplingPoolPBS(work_dir=self.work, debug=debug)
        p.pbs_common_setting(n_nodes=1, n_cores=1, mem="1Gb", queue="q_4h", pbs_name="MLMC", walltime="1:00:00",
                             optional_pbs_requests=[], env_setting=["cd $MLMC_WORKDIR"], python=sys.executable)
        return p

    def jobs(self):
        """pbs id -> (job name, scheduled list at submission)"""
        out = {}
        d = os.path.join(self.dir, "sub")
        for f in sorted(os.listdir(d)):
            if f.endswith(".yaml"):
                i = f[:-5]
                with open(os.path.join(d, f)) as fh:
                    out[i] = (self.get("sub/%s.name" % i), [tuple(x) for x in yaml.load(fh, yaml.Loader)])
        return out

    def submitted_jobs(self):
        return [v[1] for v in self.jobs().values()]

    def run_job(self, pbs_id, finish=True):
        name, out = self.get("sub/%s.name" % pbs_id), self.get("sub/%s.out" % pbs_id)
        argv, cwd = sys.argv, os.getcwd()
        sys.argv = ["pbs_job", out, name]
        try:
            PbsJob.create_process().calculate_samples()
        finally:
            sys.argv = argv
            os.chdir(cwd)
        self.ran.append(pbs_id)
        if finish:
            self.put("state/%s" % pbs_id, "F")

    def run_jobs(self):
        for i in sorted(os.listdir(os.path.join(self.dir, "state")), key=int):
            if i not in self.ran:
                self.run_job(i)

    def collect(self, pool):
        ok, bad, n, times = pool.get_finished()
        o, b = {}, {}
        for l, rs in ok.items():
            for i, r in rs:
                check(i not in o and i not in b, "sample returned twice", i)
                o[i] = (l, r)
        for l, rs in bad.items():
            for i, m in rs:
                check(i not in o and i not in b, "sample returned twice", i)
                b[i] = (l, m)
        return o, b
