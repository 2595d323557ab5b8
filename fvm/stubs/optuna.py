"""Stand-in for optuna (which is not installed here): trials draw from a given generator and record what was asked of them."""
import math
import threading


class TrialPruned(Exception):
    pass


class Trial:
    """Suggestions are drawn inside the ranges that are asked for; `plan` fixes some of them by name."""

    def __init__(self, number, rng, plan=None):
        self.number, self._rng, self._plan = number, rng, dict(plan or {})
        self.params, self.asked, self.value = {}, {}, None

    def _given(self, name, asked, draw, ok):
        if name in self.params:  # as in optuna: the same name gives the same value within a trial
            return self.params[name]
        self.asked[name] = asked
        v = self._plan[name] if name in self._plan and ok(self._plan[name]) else draw()
        self.params[name] = v
        return v

    def suggest_int(self, name, low, high, step=1, log=False):
        def draw():
            k = int(self._rng.integers(0, 5))
            n = (high - low) // step
            j = 0 if k == 0 else n if k == 1 else int(self._rng.integers(0, n + 1))
            return int(low + step * j)

        return self._given(name, ("int", low, high), draw, lambda v: low <= v <= high)

    def suggest_categorical(self, name, choices):
        choices = list(choices)
        return self._given(name, ("categorical", choices), lambda: choices[int(self._rng.integers(0, len(choices)))], lambda v: v in choices)

    def suggest_float(self, name, low, high, step=None, log=False):
        def draw():
            if log:
                return float(math.exp(self._rng.uniform(math.log(low), math.log(high))))
            if step:
                return float(low + step * int(self._rng.integers(0, int((high - low) / step) + 1)))
            return float(self._rng.uniform(low, high))

        return self._given(name, ("float", low, high, log), draw, lambda v: low <= v <= high)

    def suggest_uniform(self, name, low, high):
        return self.suggest_float(name, low, high)

    def suggest_loguniform(self, name, low, high):
        return self.suggest_float(name, low, high, log=True)

    def suggest_discrete_uniform(self, name, low, high, q):
        return self.suggest_float(name, low, high, step=q)

    def report(self, value, step):
        pass

    def should_prune(self):
        return False

    def set_user_attr(self, k, v):
        pass


class Study:
    def __init__(self, direction, kw):
        self.direction, self.kw, self.trials, self.calls = direction, kw, [], []
        self.running = self.peak = 0
        self._lock = threading.Lock()

    def optimize(self, func, n_trials=None, timeout=None, n_jobs=1, **kw):
        self.calls.append({"n_trials": n_trials, "n_jobs": n_jobs})
        if n_jobs == 0 or n_jobs < -1:
            raise ValueError("n_jobs")
        jobs = 8 if n_jobs == -1 else int(n_jobs)
        todo = list(range(n_trials))
        errors = []

        def worker():
            while True:
                with self._lock:
                    if not todo or errors:
                        return
                    t = CONFIG["make"](todo.pop(0))
                    self.trials.append(t)
                    self.running += 1
                    self.peak = max(self.peak, self.running)
                try:
                    t.value = float(func(t))
                except BaseException as e:  # as optuna: the study stops with the error of the trial
                    errors.append(e)
                finally:
                    with self._lock:
                        self.running -= 1

        ts = [threading.Thread(target=worker) for _ in range(min(jobs, max(1, n_trials)))]
        [t.start() for t in ts]
        [t.join() for t in ts]
        if errors:
            raise errors[0]

    @property
    def best_trial(self):
        done = [t for t in self.trials if t.value is not None]
        return (min if self.direction == "minimize" else max)(done, key=lambda t: t.value)

    @property
    def best_params(self):
        return self.best_trial.params

    @property
    def best_value(self):
        return self.best_trial.value


CONFIG = {"make": None, "studies": []}


def create_study(*, storage=None, sampler=None, pruner=None, study_name=None, direction=None, load_if_exists=False, directions=None):
    s = Study(str(direction or "minimize").lower(), {"study_name": study_name, "storage": storage, "load_if_exists": load_if_exists})
    CONFIG["studies"].append(s)
    return s
