"""Stand-in for the zero-shot classification evaluator."""
from big_vision.evaluators.proj.image_text import sim


class Evaluator:

  def __init__(self, predict_fn, devices, *, dataset_names, dataset_overrides,
               dim):
    self.args = (predict_fn, devices)
    self.dim = dim
    self.datasets = {n: dataset_overrides[n] for n in dataset_names}

  def evaluate(self, variables, task):
    seed = self.datasets[task]['seed']
    zi, zt = sim.embed(*self.args, variables, self.dim, seed,
                       f'zeroshot/{task}')
    return {'accuracy': float((zi @ zt.T).sum())}
